"""One check run: jobs (model checking, conformance suites) executed in parallel, verdict, evidence, replay files."""
import collections, json, os, random, re, sys, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor
from . import core
from .core import CheckError, Case, Driver, Work, log

EVID = os.path.join(core.VERIF, "evidence")
KNOWN = os.path.join(core.VERIF, "known_findings.txt")


class Suite:
    """Cases of one driver build, judged by one trace module."""

    def __init__(self, name, driver, table, module, cases, env=None, internals=(), need=(), wrap=(), timeout=120, confirm=1, const=None, chunk=60000):
        self.name, self.driver, self.table, self.module, self.cases = name, driver, table, module, cases
        self.env, self.internals, self.need, self.wrap, self.timeout, self.confirm = env or {}, set(internals), set(need), wrap, timeout, confirm
        self.const, self.chunk = const, chunk


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.work = Work(pid)
        self.suites, self.mcs = [], []
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], models=[], suites=[], calls=collections.Counter(), rejections=collections.Counter())
        self.violations = []
        self.notes = []
        self.lock = threading.Lock()
        self.assumptions = []

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    # -------------------------------------------------------------------------------------------- model checking
    def mc(self, module, const=None, cfg=None, workers=2, what="", min_states=2, heap="3g", timeout=850, drop=(), add="", expect_violation=None):
        """An exhaustive run of a specification on its own.  It must pass: a failure is an error of the specification, not of the code."""
        self.mcs.append(dict(module=module, cfg=cfg or module + ".cfg", const=const, workers=workers, what=what, min_states=min_states, heap=heap, timeout=timeout, drop=drop, add=add, expect=expect_violation))

    def _mc(self, m):
        rc, out, dt = core.tlc(m["module"], m["cfg"], self.work, workers=m["workers"], const=m["const"], drop=m["drop"], add=m["add"], heap=m["heap"], timeout=m["timeout"], props=["tlc2.tool.queue.IStateQueue=MemStateQueue"])
        gen, dist = core.tlc_counts(out)
        if m["expect"]:
            if not re.search(m["expect"], out):
                raise CheckError("%s was expected to be refuted by TLC (%s):\n%s" % (m["module"], m["expect"], out[-3000:]))
        elif rc != 0 or "No error has been found" not in out:
            raise CheckError("TLC does not accept %s (%s):\n%s" % (m["module"], m["const"], out[-4000:]))
        if dist < m["min_states"]:
            raise CheckError("%s explored only %d states" % (m["module"], dist))
        with self.lock:
            self.cov["states"] += dist
            self.cov["transitions"] += gen
            self.cov["models"].append(dict(module=m["module"], constants=m["const"], what=m["what"], states=dist, transitions=gen, refuted_as_expected=bool(m["expect"]), wall_s=round(dt, 1)))

    # -------------------------------------------------------------------------------------------- programs generated by TLC
    def programs(self, module, const, elem="d", limit=None, simulate=None, merge=(), maxlen=400, cfg=None, seed=None, view=None):
        """Call sequences enumerated (or simulated) by TLC from the specification, as cases."""
        args = []
        if simulate:
            args = ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1]), "-seed", str(seed if seed is not None else self.seed)]
        rc, out, dt = core.tlc(module, cfg or module + ".cfg", self.work, workers=1, const=const, drop=("VIEW", "INVARIANTS", "PROPERTIES", "INVARIANT", "PROPERTY"), add="CONSTRAINT Emit" + ("\nVIEW " + view if view else ""), args=args, heap="3g", props=["tlc2.tool.queue.IStateQueue=MemStateQueue"])
        if "Error:" in out or rc not in (0,):
            raise CheckError("TLC could not generate programs from %s:\n%s" % (module, "\n".join(l for l in out.split("\n") if not l.startswith('"PROGRAM'))[-3000:]))
        progs = []
        for line in out.split("\n"):
            if line.startswith('"PROGRAM '):
                progs.append(json.loads(json.loads(line)[len("PROGRAM "):]))
        progs = [json.loads(x) for x in sorted({json.dumps(p) for p in progs})]
        total = len(progs)
        if not total:
            raise CheckError("no programs from %s" % module)
        random.Random("programs-%s-%s" % (module, self.seed)).shuffle(progs)
        if limit:
            progs = progs[:limit]
        cases = []
        if merge:  # programs that differ in a last call that leaves no trace run as one
            groups = collections.OrderedDict()
            for p in progs:
                if p[-1]["op"] in merge:
                    groups.setdefault(json.dumps(p[:-1]), []).append(p[-1])
                else:
                    cases.append(Case(elem, p, "TLC program"))
            for pre, last in groups.items():
                for i in range(0, len(last), maxlen):
                    cases.append(Case(elem, json.loads(pre) + last[i:i + maxlen], "TLC programs"))
        else:
            cases = [Case(elem, p, "TLC program") for p in progs]
        with self.lock:
            gen, dist = core.tlc_counts(out)
            self.cov["models"].append(dict(module=module, constants=const, what="generation of programs", programs=total, replayed=len(progs), wall_s=round(dt, 1)))
        return cases

    # -------------------------------------------------------------------------------------------- conformance
    def suite(self, *a, **k):
        s = Suite(*a, **k)
        self.suites.append(s)
        return s

    def _record(self, s):
        """Builds the driver and records what the library does."""
        t0 = time.time()
        s.driver.build()
        cases = s.cases(s) if callable(s.cases) else s.cases
        if s.driver.broken & s.internals:  # helpers that no property is about may change
            before = len(cases)
            cases = [c for c in cases if not any(e["op"] in s.driver.broken & s.internals for e in c.events)]
            self.notes.append("%s: built without the internal helpers %s; %d of %d cases kept" % (s.name, sorted(s.driver.broken & s.internals), len(cases), before))
        for c in cases:
            c.suite = s
        core.run_driver(self.work, s.driver, s.table, cases, env=s.env, wrap=s.wrap, timeout=s.timeout)
        calls, err = collections.Counter(), collections.Counter()
        for c in cases:
            for e in c.trace or []:
                calls[e["op"]] += 1
                if isinstance(e.get("r"), dict) and e["r"].get("ok") is False:
                    err[e["op"]] += 1
        s.missing = [op for op in s.need if not calls[op]]
        with self.lock:
            self.cov["calls"].update(calls)
            self.cov["rejections"].update(err)
            self.cov["suites"].append(dict(name=s.name, element=s.driver.elem, flags=list(s.driver.flags), cases=len(cases), distinct_cases=len({json.dumps(c.events, sort_keys=True) for c in cases}), events=sum(len(c.trace or []) for c in cases), trace_module=s.module, wall_s=round(time.time() - t0, 1)))
            if cases:
                c = random.Random(self.seed).choice(cases)
                self.cov["samples"].append(dict(suite=s.name, case=c.name, events=[_short(e) for e in (c.trace or [])[:6]]))
        return cases

    def _judge(self, module, const, cases, chunk):
        rejected, accepted, states = core.validate(self.work, module, cases, chunk=chunk, const=const)
        with self.lock:
            self.cov["states"] += states
            self.cov["transitions"] += accepted
            self.cov["traces_validated_against_impl"] += len(cases) - len(rejected)
        done = collections.Counter()
        for c, k in sorted(rejected, key=lambda r: len(r[0].events)):
            if done[c.suite] < 2:
                done[c.suite] += 1
                self._confirm(c.suite, c, k)

    def _confirm(self, s, case, k):
        """A rejection counts when running the same calls again is rejected again."""
        for attempt in range(3):
            again = Case.__new__(Case)
            again.events, again.name, again.elem, again.trace = case.events, case.name, case.elem, None
            core.run_driver(self.work, s.driver, s.table, [again], env=s.env, wrap=s.wrap, timeout=s.timeout)
            rej, _, _ = core.validate(self.work, s.module, [again], shards=1, const=s.const)
            if rej:
                self._report(s, again, rej[0][1])
                return
        self.notes.append("a rejection in %s (%s, event %d) did not repeat: %s" % (s.name, case.name, k, json.dumps(_short(case.trace[k]))))
        if s.confirm == 0:  # nondeterministic by nature (data races): the recorded execution is the evidence
            self._report(s, case, k)

    def _report(self, s, case, k):
        with self.lock:
            n = len(self.violations) + 1
            d = os.path.join(EVID, "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%d.json" % (self.pid, n))
            ev = case.trace[k]
            rec = dict(property=self.pid, suite=s.name, case=case.name, driver=dict(family=s.driver.family, elem=s.driver.elem, flags=s.driver.flags, link=s.driver.link, extra=s.driver.extra, cxx=s.driver.cxx),
                       module=s.module, const=s.const, env=s.env, table={op: f for op, f in s.table.t.items()}, rejected_event=case.origin[k], event=ev, events=case.events[:case.origin[k] + 1])
            known = self._known(rec)
            json.dump(rec, open(path, "w"), indent=1)
            if known:
                self.cov.setdefault("known", []).append(known)
                log("KNOWN-FINDING: property=%s %s" % (self.pid, known))
                return
            self.violations.append(dict(replay=os.path.relpath(path, core.VERIF), suite=s.name, case=case.name, event=_short(ev)))
            log("rejected by %s: %s, call %d of '%s': %s" % (s.module, s.name, k, case.name, json.dumps(_short(ev))))

    def _known(self, rec):
        if not os.path.exists(KNOWN):
            return None
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) match=(\{.*?\}) (.*)", line)
            if m and m.group(1) == self.pid:
                pat = json.loads(m.group(2))
                if all(rec["event"].get(k) == v for k, v in pat.items()):
                    return m.group(3)
        return None

    # -------------------------------------------------------------------------------------------- verdict
    def _overdue(self):
        """Most of the time is used up: a violation that has been confirmed is not kept back."""
        with self.lock:
            if self.violations:
                for v in self.violations:
                    log("VIOLATION property=%s replay=%s" % (self.pid, v["replay"]))
                self.cov.update(calls=dict(self.cov["calls"]), rejected_calls_as_specified=dict(self.cov.pop("rejections")))
                json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking", coverage=self.cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations)), open(os.path.join(EVID, self.pid + ".json"), "w"), indent=1)
                self.work.done()
                os._exit(1)

    def finish(self):
        timer = threading.Timer(800, self._overdue)
        timer.daemon = True
        if self.quick:
            timer.start()
        core.java_classes()
        core.include_dirs()
        errors = []
        def guard(fut):
            try:
                return fut.result()
            except CheckError as e:
                errors.append(str(e))
            except Exception:
                errors.append(traceback.format_exc()[-1500:])
        with ThreadPoolExecutor(core.NCPU) as ex, ThreadPoolExecutor(core.NCPU) as ex2:
            recs = [(s, ex.submit(self._record, s)) for s in self.suites]
            mcs = [ex.submit(self._mc, m) for m in self.mcs]
            groups = collections.OrderedDict()
            for s, f in recs:
                cases = guard(f)
                if cases:
                    groups.setdefault((s.module, json.dumps(s.const), s.chunk), []).extend(cases)
            for f in [ex2.submit(self._judge, m, json.loads(c), cs, chunk) for (m, c, chunk), cs in groups.items()]:
                guard(f)
            for f in mcs:
                guard(f)
        for s in self.suites:
            if getattr(s, "missing", None) and not self.violations and not s.driver.broken:
                errors.append("suite %s never made the calls %s" % (s.name, s.missing))
        timer.cancel()
        self.work.done()
        if errors and not self.violations:
            for e in errors:
                log("CHECK ERROR: " + e)
            return 2
        cov = self.cov
        cov["calls"] = dict(cov["calls"])
        cov["rejected_calls_as_specified"] = dict(cov.pop("rejections"))
        cov["samples"] = cov["samples"][:12]
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        if self.notes:
            cov["notes"] = self.notes
        if errors:
            cov["errors"] = [e[:500] for e in errors]
        os.makedirs(EVID, exist_ok=True)
        json.dump(ev, open(os.path.join(EVID, self.pid + ".json"), "w"), indent=1)
        for v in self.violations:
            log("VIOLATION property=%s replay=%s" % (self.pid, v["replay"]))
        if self.violations:
            return 1
        log("%s holds on everything explored: %d states, %d transitions, %d traces, %.1f s" % (self.pid, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], ev["wall_s"]))
        return 0


def _short(e, n=700):
    s = json.dumps(e)
    return e if len(s) <= n else dict(op=e.get("op"), text=s[:n] + "...")


def replay(path):
    rec = json.load(open(path))
    d = rec["driver"]
    drv = Driver(d["family"], d["elem"], d["flags"], d["link"], d["extra"], d["cxx"]).build()
    t = core.Table("")
    t.t = rec["table"]
    c = Case.__new__(Case)
    c.events, c.name, c.elem, c.trace = rec["events"], rec["case"], d["elem"], None
    w = Work("replay")
    try:
        core.run_driver(w, drv, t, [c], env=rec["env"])
        rej, acc, _ = core.validate(w, rec["module"], [c], shards=1, const=rec.get("const"))
    finally:
        w.done()
    if rej:
        k = rej[0][1]
        log("rejected at call %d: %s" % (k, json.dumps(c.trace[k])))
        return 1
    log("accepted: all %d calls are allowed by the specification" % acc)
    return 0
