"""Call scripts for the optimizers."""
import random
from .core import Table, Case
from .gen import Values, num, vec, prod
from .layers import typed

TABLE = Table("""
onew id k o
ocopy id p
pnew id t
pput id t
passign id t
opt id ps gs lr
pall
""")
KIND = {"P17": "sgd", "P18": "rms", "P19": "adam"}


class OScript(Values):
    def __init__(self, rng, elem):
        super().__init__(rng)
        self.elem, self.ev, self.shapes, self.opts = elem, [], {}, {}

    def emit(self, **e):
        self.ev.append(e)

    def ten(self, s, xs):
        return dict(s=list(s), d=vec(xs))

    def t(self, x):
        return num(typed(self.elem, x))

    def options(self, k):
        r = self.r
        if r.random() < 0.12:
            return ["-"] * {"sgd": 5, "rms": 6, "adam": 8}[k]
        lr = r.choice([0.01, 0.1, 0.5, 1.0, 0.001, 2.0, 1e-5, 5.0])
        if k == "sgd":
            o = [lr, r.choice([0.0, 0.9, 0.5, 0.99, 1.0, 0.25, 0.05]), r.choice([0.0, 0.0, 0.5, 0.1, 1.0, 0.01]), r.choice([0.0, 0.0, 0.1, 0.01, 0.5, 1e-4]), r.choice([0, 1])]
        elif k == "rms":
            o = [lr, r.choice([0.99, 0.9, 0.5, 0.0, 0.999, 0.1]), r.choice([1e-8, 1e-8, 1e-4, 0.125, 1.0]), r.choice([0.0, 0.0, 0.9, 0.5, 0.05]), r.choice([0.0, 0.0, 0.1, 0.01, 1e-4]), r.choice([0, 1])]
        else:
            o = [lr, r.choice([0.9, 0.5, 0.0, 0.99]), r.choice([0.999, 0.9, 0.5, 0.99, 0.1]), r.choice([1e-8, 1e-8, 1e-4, 0.125]), r.choice([0.0, 0.0, 0.1, 0.01, 1e-4]), r.choice([0.0, 0.0, 0.1, 0.01, 1e-4]), r.choice([0.0, 0.0, 0.1, 0.5, 1.0, 0.01, 1e-4]), r.choice([1, 1, 2, 4, 32, 7, 64, 100])]
        return ["-" if r.random() < 0.1 else self.t(x) for x in o]

    def weights(self, s):
        xs = self.many(prod(s), self.r.choice(["frac", "int", "small", "unit"]))
        return [x if self.r.random() < 0.9 else 0.0 for x in xs]

    def grads(self, s):
        r, n = self.r, prod(s)
        w = r.random()
        if w < 0.15:
            return [r.choice([1.0, -2.0, 0.0, 0.125])] * n
        if w < 0.25:
            return [0.0] * n
        xs = self.many(n, r.choice(["frac", "int", "small", "unit", "mix"]))
        if w < 0.35:
            c = 2.0 ** r.randint(-8, 8)
            xs = [x * c for x in xs]
        return xs

    def new(self, k, o=None):
        id = len(self.opts) + 1
        self.emit(op="onew", id=id, k=k, o=o or self.options(k))
        self.opts[id] = k
        return id

    def param(self, s=None):
        id = len(self.shapes) + 1
        s = s or self.shape(maxsize=8)
        self.shapes[id] = s
        self.emit(op="pnew", id=id, t=self.ten(s, self.weights(s)))
        return id

    def opt(self, id, ps, same=None):
        lr = "-"
        if self.r.random() < 0.25:
            lr = self.t(self.r.choice([0.05, 0.25, 1.0, 0.0, -1.0, -0.5, 3.0, 1e-7, 1e-4]))
        self.emit(op="opt", id=id, ps=list(ps), gs=[self.ten(self.shapes[p], same or self.grads(self.shapes[p])) for p in ps], lr=lr)

    def bad(self, id):
        ps = self.r.sample(list(self.shapes), self.r.randint(0, len(self.shapes)))
        gs = [self.ten(self.shapes[p], self.grads(self.shapes[p])) for p in ps]
        if gs and self.r.random() < 0.6:
            gs.pop()
        else:
            gs.append(self.ten([2], [1.0, 2.0]))
        self.emit(op="opt", id=id, ps=ps, gs=gs, lr=self.r.choice(["-", self.t(0.5)]))
        self.emit(op="pall")

    def run(self, kinds, n, nparam, nopt):
        r = self.r
        same = self.shape(maxsize=8) if r.random() < 0.5 else None
        for _ in range(nparam):
            self.param(same)
        for _ in range(nopt):
            self.new(r.choice(kinds))
        while len(self.ev) < n:
            id = r.choice(list(self.opts))
            w = r.random()
            if w < 0.72:
                ps = list(self.shapes)
                if r.random() < 0.7:
                    r.shuffle(ps)
                    ps = ps[:r.randint(1, len(ps))]
                self.opt(id, ps)
            elif w < 0.80:
                self.bad(id)
            elif w < 0.84:
                self.emit(op="pall")
            elif w < 0.88:
                p = r.choice(list(self.shapes))
                self.emit(op="pput", id=p, t=self.ten(self.shapes[p], self.weights(self.shapes[p])))
            elif w < 0.93:
                ps = r.sample(list(self.shapes), r.randint(1, len(self.shapes)))
                for p in ps:
                    if r.random() < 0.15:
                        self.shapes[p] = self.shape(maxsize=8)
                    self.emit(op="passign", id=p, t=self.ten(self.shapes[p], self.weights(self.shapes[p])))
            elif w < 0.96:
                if len(self.opts) < 5:
                    self.emit(op="ocopy", id=len(self.opts) + 1, p=id)
                    self.opts[len(self.opts) + 1] = self.opts[id]
            elif w < 0.98:
                if len(self.opts) < 5:
                    self.new(r.choice(kinds))
            elif len(self.shapes) < 6:
                self.param(same)
        self.emit(op="pall")
        return self.ev


def random_cases(pid, n, length, seed, elem):
    out = []
    for i in range(n):
        s = OScript(random.Random("%s-%s-%s-%d" % (pid, seed, elem, i)), elem)
        r = s.r
        kinds = [KIND[pid]] if pid in KIND else [r.choice(["sgd", "rms", "adam"])] if i % 2 else ["sgd", "rms", "adam"]
        if pid in KIND:
            s.run(kinds, length, r.choice([1, 1, 2, 3]), r.choice([1, 1, 2]))
        else:
            s.run(kinds, length, r.choice([2, 3, 4]), r.choice([1, 2, 3]))
        out.append(Case(elem, s.ev, "%s random program %d (seed %s)" % (pid, i, seed)))
    return out


def long_cases(pid, n, steps, seed, elem):
    """Many updates of small tensors: equal gradients, alternating ones, vanishing ones, random ones."""
    out = []
    for i in range(n):
        s = OScript(random.Random("long-%s-%s-%s-%d" % (pid, seed, elem, i)), elem)
        r = s.r
        k = KIND.get(pid) or r.choice(["sgd", "rms", "adam"])
        settled = k == "rms" and i % 3 == 0  # the average of the squares and the squared average become equal
        id = s.new(k, [s.t(x) for x in (0.01, r.choice([0.5, 0.25, 0.75]), r.choice([1e-8, 1e-10]), r.choice([0.0, 0.9]), 0.0, 1)] if settled else None)
        p = s.param([r.randint(1, 3)])
        how = "equal" if settled else r.choice(["equal", "equal", "alternate", "vanish", "random"])
        g0 = [s.one("frac") * 2.0 ** r.randint(-6, 10) for _ in range(prod(s.shapes[p]))]
        for k in range(steps):
            g = g0 if how == "equal" else [x * (-1) ** k for x in g0] if how == "alternate" else ([0.0] * len(g0) if k > 5 else g0) if how == "vanish" else s.grads(s.shapes[p])
            s.emit(op="opt", id=id, ps=[p], gs=[s.ten(s.shapes[p], g)], lr="-")
        out.append(Case(elem, s.ev, "%s long run %d, %s gradients (seed %s)" % (pid, i, how, seed)))
    return out


def large_cases(pid, n, seed, elem):
    """Tensors around and above a thousand elements, next to small ones."""
    out = []
    for i in range(n):
        s = OScript(random.Random("large-%s-%s-%s-%d" % (pid, seed, elem, i)), elem)
        r = s.r
        id = s.new(KIND.get(pid) or r.choice(["sgd", "rms", "adam"]))
        big = [[1001], [1000], [40, 30], [5, 8, 26]] if i % 2 == 0 else [[17], [9, 8], [130], [257], [3, 100], [33, 2], [65]]
        ps = [s.param(r.choice(big)), s.param([2, 3])]
        for k in range(4):
            r.shuffle(ps)
            s.opt(id, ps[:1] if k == 2 else ps)
        out.append(Case(elem, s.ev, "%s large tensors %d (seed %s)" % (pid, i, seed)))
    return out
