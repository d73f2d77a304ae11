"""Runs the conformance drivers against /repo's working tree and checks the recorded traces with TLC."""
import hashlib, json, os, random, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
TLA_JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(2, min(8, os.cpu_count() or 8))
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")


class CheckError(Exception):
    """The check itself cannot give an answer."""


def log(*a):
    print(*a, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


# ------------------------------------------------------------------------------------------------ build
def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        if os.path.isfile(root):
            h.update(open(root, "rb").read())
            continue
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()[:24]


def java_classes():
    """The compiled overrides of module RealNum."""
    src = os.path.join(VERIF, "java")
    out = os.path.join(BUILD, "classes-" + tree_hash(src))
    if not os.path.isdir(out):
        tmp = out + ".%d.%d" % (os.getpid(), threading.get_ident())
        os.makedirs(tmp, exist_ok=True)
        r = sh(["javac", "-nowarn", "-cp", TLA_JARS, "-d", tmp] + [os.path.join(src, f) for f in sorted(os.listdir(src)) if f.endswith(".java")])
        if r.returncode:
            raise CheckError("javac failed:\n" + r.stdout)
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return out


def include_dirs():
    """/repo's headers spell some directories in lower case; give the compiler both spellings."""
    lc = os.path.join(BUILD, "lc", hashlib.sha256(REPO.encode()).hexdigest()[:12])
    sd = os.path.join(lc, "smart_dnn")
    if not os.path.isdir(sd):
        tmp = lc + ".%d.%d" % (os.getpid(), threading.get_ident())
        os.makedirs(os.path.join(tmp, "smart_dnn"), exist_ok=True)
        root = os.path.join(REPO, "smart_dnn")
        for n in os.listdir(root):
            if os.path.isdir(os.path.join(root, n)) and n != n.lower():
                os.symlink(os.path.join(root, n), os.path.join(tmp, "smart_dnn", n.lower()))
        try:
            os.rename(tmp, lc)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return ["-I" + REPO, "-I" + lc]


class Driver:
    """One driver family compiled for one element type and one set of flags."""

    def __init__(self, family, elem, flags=(), link=(), extra=(), cxx="g++"):
        """extra: further sources of driver/, compiled without the flags"""
        self.family, self.elem, self.flags, self.link, self.extra, self.cxx = family, elem, tuple(flags), tuple(link), tuple(extra), cxx
        self.path = None
        self.broken = set()  # calls that do not compile against this tree

    def build(self):
        src = os.path.join(VERIF, "driver", self.family + "_driver.cpp")
        ctype = {"f": "float", "d": "double"}[self.elem]
        flags = ["-std=c++17", "-w", "-DELEM=" + ctype, "-include", "bits/stdc++.h", "-I" + os.path.join(VERIF, "driver")] + list(self.flags)
        key = hashlib.sha256(json.dumps([tree_hash(os.path.join(REPO, "smart_dnn"), os.path.join(VERIF, "driver")), self.family, flags, self.link, self.extra, self.cxx, REPO]).encode()).hexdigest()[:24]
        out = os.path.join(BUILD, "bin", self.family + "-" + self.elem + "-" + key)
        os.makedirs(os.path.dirname(out), exist_ok=True)
        for attempt in range(8):
            if os.path.exists(out):
                if os.path.exists(out + ".broken"):
                    self.broken = set(json.load(open(out + ".broken")))
                self.path = out
                return self
            tmp = out + ".%d.%d" % (os.getpid(), threading.get_ident())
            this = src
            if self.broken:  # the same driver without the calls that do not compile
                this = tmp + "_driver.cpp"
                open(this, "w").write(without(open(src).read(), self.broken))
            objs, steps = [], [[self.cxx] + flags + include_dirs() + [this, "-o", tmp] + list(self.link)]
            if self.extra:  # compiled and linked in separate steps
                objs = [tmp + "-%d.o" % i for i in range(len(self.extra) + 1)]
                steps = [[self.cxx] + flags + include_dirs() + ["-c", this, "-o", objs[0]]]
                steps += [[self.cxx, "-std=c++17", "-w", "-O1", "-c", os.path.join(VERIF, "driver", x), "-o", o] for x, o in zip(self.extra, objs[1:])]
                steps += [[self.cxx] + objs + ["-o", tmp] + list(self.link)]
            for cmd in steps:
                r = sh(cmd)
                if r.returncode:
                    break
            for o in objs + ([this] if this != src else []):
                if os.path.exists(o):
                    os.remove(o)
            if r.returncode:
                self.error = r.stdout
                bad = calls_at(open(src).read(), {int(n) for n in re.findall(re.escape(os.path.basename(this)) + r":(\d+):", r.stdout)}) - self.broken
                if not bad:
                    break
                self.broken |= bad
                continue
            if self.broken:
                json.dump(sorted(self.broken), open(out + ".broken", "w"))
            os.rename(tmp, out)
        raise CheckError("driver %s does not compile against %s:\n%s" % (self.family, REPO, self.error[-3000:]))


def handlers(text):
    """The handlers of a driver: name -> (first line, line after the last), 1-based."""
    lines, at = text.split("\n"), {}
    for i, l in enumerate(lines, 1):
        m = re.match(r'    h\["(\w+)"\] = ', l)
        if m:
            j = i
            if not (l.rstrip().endswith("};")):
                while not lines[j].startswith("    };"):
                    j += 1
                j += 1
            at[m.group(1)] = (i, j + 1)
    return at


def calls_at(text, where):
    return {n for n, (a, b) in handlers(text).items() if any(a <= w < b for w in where)}


def without(text, names):
    lines = text.split("\n")
    for n, (a, b) in handlers(text).items():
        if n in names:
            lines[a - 1:b - 1] = ['    h["%s"] = [](const Args&) -> std::string { throw NotCompiled(); };' % n] + [""] * (b - a - 1)
    return "\n".join(lines)


def build_all(drivers):
    with ThreadPoolExecutor(NCPU) as ex:
        for f in [ex.submit(d.build) for d in drivers]:
            f.result()


# ------------------------------------------------------------------------------------------------ scripts
LISTS = {"by", "s", "s2", "st", "en", "sp", "ix", "ax", "cfg"}
NUMS = {"l"}


def tok(field, v):
    if field in LISTS:
        return ",".join(str(x) for x in v) if v else "-"
    if field in NUMS and not isinstance(v, int):
        v = v.split(" ") if isinstance(v, str) else list(v)
        v = [x for x in v if x != ""]
        return ",".join(v) if v else "-"
    if isinstance(v, list):  # of tensor literals, of plain words
        return (";".join(tok(field, x) for x in v) if isinstance(v[0], dict) else ",".join(str(x) for x in v)) if v else "-"
    if isinstance(v, dict):  # tensor literal
        return ",".join(str(x) for x in v["s"]) + "|" + v["d"].replace(" ", ",")
    if field == "a" and isinstance(v, str):  # numbers separated by spaces
        return v.replace(" ", ",") or "-"
    if isinstance(v, bool):
        return "1" if v else "0"
    return str(v)


class Table:
    """Argument order of every call of a driver."""

    def __init__(self, text):
        self.t = {}
        for line in text.strip().splitlines():
            w = line.split()
            if w:
                self.t[w[0]] = w[1:]

    def line(self, e):
        if e["op"] == "reset":
            return "reset"
        return " ".join([e["op"]] + [tok(f, e[f]) for f in self.t[e["op"]]])


class Case:
    def __init__(self, elem, events, name="", opts=None):
        self.events = [dict(op="reset", ty=elem, **(opts or {}))] + events
        self.name = name
        self.elem = elem
        self.trace = None  # events with replies

    def weight(self):
        return sum(len(json.dumps(e)) for e in (self.trace or self.events)) + 200


class Work:
    """Scratch directory of one check run."""

    def __init__(self, pid):
        self.dir = os.path.join(BUILD, "work", "%s-%d" % (pid, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.n = 0
        self.lock = threading.Lock()

    def path(self, suffix):
        with self.lock:
            self.n += 1
            return os.path.join(self.dir, "%d%s" % (self.n, suffix))

    def done(self):
        shutil.rmtree(self.dir, ignore_errors=True)


STATS = dict(calls=0, crashes=0, late=0)


def run_driver(work, drv, table, cases, env=None, timeout=120, wrap=()):
    """Runs the cases in one driver process (restarting after a crash) and fills in case.trace."""
    todo = list(cases)
    late = failed = 0
    bound = [] if wrap or "sanitize" in " ".join(drv.flags) else ["bash", "-c", 'ulimit -v 12000000; exec "$@"', "-"]  # memory
    while todo:
        if late == 2 or failed == 60:  # what is left would not change the verdict, and could take for ever
            left = {id(c) for c in todo}
            cases[:] = [c for c in cases if id(c) not in left]
            STATS["left_out"] = STATS.get("left_out", 0) + len(left)
            break
        script, reply = work.path(".script"), work.path(".reply")
        with open(script, "w") as f:
            for c in todo:
                for e in c.events:
                    f.write(table.line(e) + "\n")
        envv = dict(os.environ, MALLOC_PERTURB_="165", OMP_NUM_THREADS="2")
        envv.update(env or {})
        reason = None
        try:
            patience = 45 if STATS["late"] else timeout
            p = subprocess.run(bound + list(wrap) + [drv.path, script, reply], cwd=work.dir, env=envv, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=patience)
            if p.returncode != 0:
                reason = "exit status %d: %s" % (p.returncode, p.stderr.decode("utf8", "replace")[-1500:])
                if p.returncode == 3:
                    raise CheckError("driver refused the script: " + reason)
        except subprocess.TimeoutExpired:
            reason = "no answer within %d s" % patience
            late += 1
            STATS["late"] += 1
        lines = open(reply, errors="replace").read().split("\n") if os.path.exists(reply) else []
        tail = lines.pop() if lines else ""
        k, nxt = 0, len(todo)
        for ci, c in enumerate(todo):
            tr, origin = [], []
            for ei, e in enumerate(c.events):
                if k < len(lines):
                    r = lines[k].lstrip("@")
                    k += 1
                    STATS["calls"] += 1
                    try:
                        rep = json.loads(r)
                    except ValueError:
                        raise CheckError("driver wrote an unreadable reply: " + r[:300])
                    if rep.get("uncompiled"):  # a call that the library declares and the compiler rejects has no answer
                        STATS["crashes"] += 1
                        tr.append(dict(op="CRASH", call=table.line(e)[:500], why="the call does not compile"))
                        origin.append(ei)
                        k += len(c.events) - ei - 1
                        break
                    if not rep.get("absent"):  # an operand does not exist because an earlier call was rejected: the call was not made
                        calls, par = rep.pop("log", None), rep.pop("par", [])
                        tr += [dict(op="par", of=e["op"], **g) for g in par]  # the parallel regions of the call
                        if e["op"] == "reset":
                            tr.append(dict(e))
                        elif calls is None:
                            tr.append(dict(e, r=rep))
                        else:  # what happened between the beginning and the end of the call
                            tr += [dict(e, op=e["op"] + "_begin")] + calls + [dict(op=e["op"] + "_end", r=rep)]
                        origin += [ei] * (len(tr) - len(origin))
                else:
                    if reason is None:
                        raise CheckError("driver stopped early without an error")
                    # the call that did not return
                    failed += 1
                    STATS["crashes"] += 1
                    tr.append(dict(op="CRASH", call=table.line(e)[:500], why=reason[:1500]))
                    origin.append(ei)
                    break
            c.trace, c.origin = tr, origin  # origin: the event of the script that each event of the trace belongs to
            if tr and tr[-1]["op"] == "CRASH" and tr[-1]["why"] != "the call does not compile":
                nxt = ci + 1
                break
        os.remove(script)
        if os.path.exists(reply):
            os.remove(reply)
        todo = todo[nxt:]


# ------------------------------------------------------------------------------------------------ TLC
def tlc(module, cfg, work, workers=1, env=None, props=(), timeout=800, heap="2g", args=(), classes=None, const=None, drop=(), add=""):
    """Runs TLC.  const overrides constants of the committed configuration, drop removes lines that start with one of the words, add appends lines."""
    classes = classes or java_classes()
    meta = work.path(".tlc")
    cfgfile = os.path.join(SPEC, cfg)
    if const or drop or add:
        text = open(cfgfile).read()
        for k, v in (const or {}).items():
            text, n = re.subn(r"(?m)^(\s*)%s = .*$" % re.escape(k), lambda m: "%s%s = %s" % (m.group(1), k, v), text)
            if n != 1:
                raise CheckError("no constant %s in %s" % (k, cfg))
        text = "\n".join(l for l in text.split("\n") if not any(l.split()[:1] == [d] for d in drop)) + "\n" + add + "\n"
        cfgfile = work.path(".cfg")
        open(cfgfile, "w").write(text)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-Djava.io.tmpdir=" + work.dir, "-DTLA-Library=" + SPEC] + ["-D" + p for p in props] + \
          ["-cp", classes + ":" + TLA_JARS, "tlc2.TLC", "-config", cfgfile, "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE"] + list(args) + [os.path.join(SPEC, module + ".tla")]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=work.dir, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out, rc = "\n".join(l for l in p.stdout.split("\n") if not l.startswith("Loading ")), p.returncode
    except subprocess.TimeoutExpired as ex:
        out, rc = (ex.stdout.decode() if isinstance(ex.stdout, bytes) else ex.stdout or "") + "\nTIMEOUT", 124
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out, time.time() - t0


def tlc_counts(out):
    m = re.findall(r"([\d,]+) states generated[^,]*, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    return tuple(int(x.replace(",", "")) for x in m[-1])


JVMS = threading.Semaphore(NCPU + 2)


def validate_shard(work, module, cases, timeout=800, const=None):
    """Returns the list of (case, index of the rejected event) and the number of accepted events."""
    rejected, accepted, states = [], 0, 0
    todo = list(cases)
    while todo:
        path = work.path(".ndjson")
        with open(path, "w") as f:
            for c in todo:
                for e in c.trace:
                    f.write(json.dumps(e) + "\n")
        with JVMS:
            rc, out, _ = tlc(module, module + ".cfg", work, env={"TRACE": path}, timeout=timeout, const=const)
        os.remove(path)
        m = re.search(r'<<"MATCHED", (\d+), (\d+)>>', out)
        if not m:
            raise CheckError("TLC gave no verdict on a trace (%s, rc %d):\n%s" % (module, rc, out[-4000:]))
        matched, total = int(m.group(1)), int(m.group(2))
        states += matched
        if matched == total:
            if rc != 0:
                raise CheckError("TLC failed after the trace (%s, rc %d):\n%s" % (module, rc, out[-4000:]))
            accepted += total
            return rejected, accepted, states
        k = matched
        for i, c in enumerate(todo):
            if k < len(c.trace):
                rejected.append((c, k))
                accepted += matched
                todo = todo[i + 1:]
                break
            k -= len(c.trace)
        if len(rejected) >= 3:
            break
    return rejected, accepted, states


def split(cases, n):
    """n groups of about equal weight."""
    groups = [[0, []] for _ in range(max(1, min(n, len(cases))))]
    for c in sorted(cases, key=lambda c: -c.weight()):
        g = min(groups, key=lambda g: g[0])
        g[0] += c.weight()
        g[1].append(c)
    return [g[1] for g in groups if g[1]]


def validate(work, module, cases, shards=None, chunk=60000, const=None):
    cases = [c for c in cases if c.trace]
    if not cases:
        return [], 0, 0
    total = sum(c.weight() for c in cases)
    n = shards or max(1, min(NCPU, total // chunk + 1))
    rej, acc, st = [], 0, 0
    with ThreadPoolExecutor(NCPU) as ex:
        for f in [ex.submit(validate_shard, work, module, g, const=const) for g in split(cases, n)]:
            r, a, s = f.result()
            rej += r
            acc += a
            st += s
    return rej, acc, st
