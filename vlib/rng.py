"""Call scripts for the random stream."""
import random
from .core import Table, Case
from .gen import vec, prod, num
from .layers import typed

TABLE = Table("""
seed n
draw f a k
trand s how
trandn s lo hi how
lnew k cfg
dnew id rate
dmode id on
dfwd id x
""")


def f32(x):
    return num(typed("f", x))


class RScript:
    def __init__(self, rng, elem):
        self.r, self.elem, self.ev, self.on = rng, elem, [], {}

    def emit(self, **e):
        self.ev.append(e)

    def draw_args(self, f):
        r = self.r
        n = f32(r.choice([1.0, 2.0, 10.0, 784.0, 0.5, 100.0]))
        lo, hi = sorted(typed("f", r.choice([-1, 1]) * r.choice([0.0, 0.1, 0.5, 1.0, 3.0, 100.0, 1e-3])) for _ in range(2))
        if f == "range":
            return "%s %s" % (num(lo), num(hi))
        if f in ("xavier", "he"):
            return n
        if f == "herange":
            return "%s %s %s" % (n, num(lo), num(hi))
        return ""

    def op(self):
        """One call that draws, as a template that can be repeated."""
        r = self.r
        w = r.random()
        if w < 0.4:
            f = r.choice(["rand", "range", "xavier", "he", "herange", "raw"])
            return dict(op="draw", f=f, a=self.draw_args(f), k=r.choice([1, 2, 6, 8, 12]))
        if w < 0.52:
            return dict(op="trand", s=r.choice([[7], [50], [8, 8], [1], [2, 3, 10]]), how=r.choice(["shape", "size"]))
        if w < 0.68:
            a = r.choice([-3.0, -1.0, -0.1, 0.0, 0.3, -1e-3])
            b = r.choice([a, 0.1, 1.0, 4.0, 0.7, 1e-3])
            lo, hi = min(a, b), max(a, b)
            return dict(op="trandn", s=r.choice([[5], [64], [7, 8], [3, 4, 5]]), lo=num(typed(self.elem, lo)), hi=num(typed(self.elem, hi)), how=r.choice(["shape", "size"]))
        if w < 0.82:
            k = r.choice(["fc", "fc", "conv"])
            return dict(op="lnew", k=k, cfg=r.choice([[8, 8], [2, 3], [10, 6]]) if k == "fc" else r.choice([[1, 2, 2, 2, 1, 0, 1], [2, 3, 3, 3, 1, 0, 1], [3, 2, 3, 3, 2, 1, 1]]))
        if self.on:
            s = r.choice([[5], [100], [12, 10], [2, 2, 3, 10]])
            xs = [r.choice([-1, 1]) * r.randint(1, 64) / 8.0 for _ in range(prod(s))]
            return dict(op="dfwd", id=r.choice(list(self.on)), x=dict(s=s, d=vec(xs)))
        return dict(op="draw", f="rand", a="", k=8)

    def drops(self):
        for i in range(1, self.r.choice([1, 2, 3]) + 1):
            self.on[i] = True
            self.emit(op="dnew", id=i, rate=num(typed(self.elem, self.r.choice([0.5, 0.25, 0.1, 0.75, 0.0]))))

    def run(self, n):
        r = self.r
        self.drops()
        seqs = [[self.op() for _ in range(r.randint(2, 8))] for _ in range(r.choice([1, 2]))]
        seeds = r.sample(["0", "1", "42", "123456789", "4294967295", "2147483648", "7"], r.choice([1, 2, 3]))
        while len(self.ev) < n:
            if r.random() < 0.3:
                i = r.choice(list(self.on))
                self.emit(op="dmode", id=i, on=r.random() < 0.6)
            self.emit(op="seed", n=r.choice(seeds))
            q = r.choice(seqs)
            for e in q[:r.randint(1, len(q))] if r.random() < 0.3 else q:
                if r.random() < 0.08:
                    self.emit(op="dmode", id=r.choice(list(self.on)), on=r.random() < 0.6)
                self.ev.append(dict(e))
            if r.random() < 0.4:
                for _ in range(r.randint(1, 4)):
                    self.ev.append(self.op() if r.random() < 0.5 else dict(r.choice(q)))
        return self.ev


def random_cases(n, length, seed, elem):
    out = []
    for i in range(n):
        s = RScript(random.Random("P24-%s-%s-%d" % (seed, elem, i)), elem)
        out.append(Case(elem, s.run(length), "P24 random program %d (seed %s)" % (i, seed)))
    return out


def long_cases(n, seed, elem):
    """Many draws: bounds and moments."""
    out = []
    for i in range(n):
        r = random.Random("P24-long-%s-%s-%d" % (seed, elem, i))
        s = RScript(r, elem)
        s.emit(op="seed", n=str(r.randint(0, 1000)))
        for f in ["rand", "range", "xavier", "he", "herange", "raw"]:
            s.emit(op="draw", f=f, a=s.draw_args(f), k=2000)
        s.emit(op="trand", s=[30, 30], how="shape")
        lo, hi = num(typed(elem, r.choice([-0.1, -0.01, 0.0]))), num(typed(elem, r.choice([0.1, 0.05, 0.7])))
        s.emit(op="trandn", s=[30, 30], lo=lo, hi=hi, how="shape")
        out.append(Case(elem, s.ev, "P24 many draws %d (seed %s)" % (i, seed)))
    return out
