"""Call scripts for models whose layers, losses and optimizers are the script's own."""
import random
from .core import Table, Case
from .gen import Values, prod

TABLE = Table("""
mnew m
madd m l how sh
mcompile m f o how
mmode m on
mget m i
train m xs ts n vs at
predict m x at
predictn m xs at
back m g at
update m at
""")
TABLE.t["train"] = ["m", "xs", "ts", "n", "vs", "at"]


class MScript(Values):
    def __init__(self, rng):
        super().__init__(rng)
        self.ev, self.depth, self.lid = [], {}, 0

    def emit(self, **e):
        self.ev.append(e)

    def ten(self):
        s = self.shape(maxsize=6)
        return dict(s=s, d=" ".join(str(self.r.randint(-99, 99)) for _ in range(prod(s))))

    def tens(self, k):
        """k tensors, some of them equal."""
        q = []
        for _ in range(k):
            q.append(dict(self.r.choice(q[-2:])) if q and self.r.random() < 0.25 else self.ten())
        return q

    def add(self, m):
        self.lid += 1
        self.depth[m] += 1
        self.emit(op="madd", m=m, l=self.lid, how=self.r.choice(["lv", "rv", "clv", "mv"]), sh=self.shape(maxsize=6))

    def compile(self, m):
        self.emit(op="mcompile", m=m, f=self.r.randint(1, 9), o=self.r.randint(1, 9), how=self.r.choice(["lv", "rv", "clv"]))

    def run(self, n, maxdepth):
        r = self.r
        for m in range(1, r.choice([1, 1, 2, 3]) + 1):
            self.depth[m] = 0
            self.emit(op="mnew", m=m)
            early = r.random() < 0.3
            if early:
                self.compile(m)
            for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, maxdepth])):
                self.add(m)
            if not early:
                self.compile(m)
        for _ in range(n):
            m = r.choice(list(self.depth))
            d = self.depth[m]
            at = lambda k: r.randint(1, max(1, k)) if r.random() < 0.2 else 0
            w = r.random()
            if w < 0.4:
                k, ep = r.choice([0, 1, 1, 2, 3, 4, 5]), r.choice([0, 1, 1, 2, 3])
                if d <= 3 and r.random() < 0.06:
                    k, ep = r.choice([(33, 1), (12, 4), (2, 12), (1, 30), (17, 2), (3, 21)])
                if k == 0:
                    ep = 0
                xs = self.tens(k)
                ts = self.tens(k) + ([self.ten()] if r.random() < 0.2 and k else [])
                vs = [r.randint(0, 400) for _ in range(r.randint(1, 12))]
                how = r.random()
                if how < 0.1:
                    vs = [r.choice([0, 3])]
                elif how < 0.2:
                    vs = sorted(vs, reverse=how < 0.15)
                elif how < 0.27:
                    vs = [v / 4096.0 for v in vs]
                elif how < 0.33:
                    vs = [0 if r.random() < 0.6 else v for v in vs]
                elif how < 0.38:
                    vs = [-v for v in vs]
                vs = " ".join(repr(v) for v in vs)
                self.emit(op="train", m=m, xs=xs, ts=ts, n=ep, vs=vs, at=at((3 * d + 2) * k * ep))
            elif w < 0.52:
                self.emit(op="predict", m=m, x=self.ten(), at=at(d))
            elif w < 0.62:
                k = r.randint(0, 4)
                self.emit(op="predictn", m=m, xs=self.tens(k), at=at(d * k))
            elif w < 0.68:
                self.emit(op="back", m=m, g=self.ten(), at=at(d))
            elif w < 0.74:
                self.emit(op="update", m=m, at=at(d))
            elif w < 0.84:
                self.emit(op="mmode", m=m, on=r.random() < 0.5)
            elif w < 0.9:
                self.compile(m)
            elif w < 0.95:
                if d:
                    self.emit(op="mget", m=m, i=r.randrange(d))
            elif d < 6:
                self.add(m)
        for m, d in self.depth.items():
            for i in range(d):
                self.emit(op="mget", m=m, i=i)
        return self.ev


def random_cases(pid, n, length, seed, elem, maxdepth=5):
    out = []
    for i in range(n):
        s = MScript(random.Random("%s-%s-%s-%d" % (pid, seed, elem, i)))
        out.append(Case(elem, s.run(length, maxdepth), "%s random program %d (seed %s)" % (pid, i, seed)))
    return out
