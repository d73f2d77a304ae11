"""Call scripts for layers, activations and losses."""
import random, struct
from .core import Table, Case
from .gen import Values, num, vec, prod

TABLE = Table("""
lnew id k cfg a b f
lcopy id p
ldrop id
lset id w b
lmode id on
lfwd id x
lbwd id g
lsee id v
lput id w
lmany id x n
afwd f a x
abwd f a x g
lossv l x t
lossg l x t
""")
ACTS = ["relu", "leaky", "sigmoid", "tanh", "swish", "mish", "softmax"]


def typed(elem, x):
    """x as the element type holds it."""
    return struct.unpack("f", struct.pack("f", x))[0] if elem == "f" else float(x)


def odim(n, k, stride, pad, dil):
    return (n + 2 * pad - dil * (k - 1) - 1) // stride + 1


class LScript(Values):
    def __init__(self, rng, elem):
        super().__init__(rng)
        self.elem, self.ev, self.L, self.next = elem, [], {}, 0

    def emit(self, **e):
        self.ev.append(e)

    def ten(self, s, kind="mix", xs=None):
        return dict(s=list(s), d=vec(xs if xs is not None else self.many(prod(s), kind)))

    # ------------------------------------------------------------------------------------ construction
    def new(self, k, id=None):
        r = self.r
        if id is None:
            self.next += 1
            id = self.next
        cfg, a, b, f = [0], "0", "0", "-"
        if k == "fc":
            cfg = [r.randint(1, 6), r.randint(1, 6)]
        elif k == "conv":
            kh, kw = r.choice([(1, 1), (2, 2), (3, 3), (1, 3), (3, 2), (2, 1), (2, 3), (1, 4), (4, 2)])
            cfg = [r.choice([1, 1, 2, 3]), r.choice([1, 1, 2, 3]), kh, kw, r.choice([1, 1, 2, 3, 4]), r.choice([0, 0, 1, 2, 3]), r.choice([1, 1, 1, 2, 3])]
            if kh == kw and r.random() < 0.3:
                cfg[4:] = [1, 0, 1]
            f = "square"
        elif k == "pool":
            w = r.choice([1, 2, 2, 3, 3, 4])
            cfg = [w, r.choice([1, 2, 3, w]), r.choice([0, 0, 1]) if w > 1 else 0]
            f = r.choice(["one", "two", "-"])
        elif k == "bn":
            cfg = [r.randint(1, 5)]
            if r.random() < 0.4:
                a, b, f = num(typed(self.elem, 1e-5)), num(typed(self.elem, 0.9)), "default"
            else:
                a, b = num(typed(self.elem, r.choice([1e-5, 1e-3, 0.125, 1.0, 1e-8]))), num(typed(self.elem, r.choice([0.9, 0.5, 0.99, 0.0, 1.0, 0.1, 0.05, 0.3, 0.7])))
        elif k == "drop":
            a = num(typed(self.elem, r.choice([0.0, 0.05, 0.1, 0.2, 0.25, 0.3, 0.4, 0.5, 0.5, 0.6, 0.75, 0.8, 0.9])))
        elif k == "act":
            f = r.choice(ACTS)
            a = num(typed(self.elem, r.choice([0.01, 0.25, 0.5, 0.1, 2.0, -0.5]))) if f == "leaky" else "0"
        self.emit(op="lnew", id=id, k=k, cfg=cfg, a=a, b=b, f=f)
        self.L[id] = dict(k=k, cfg=cfg, f=f, train=True, seen=None, ok=False, x=None, bwd=False)
        if k in ("fc", "conv") and r.random() < 0.8:
            self.set(id)
        return id

    def wshapes(self, L):
        c = L["cfg"]
        if L["k"] == "fc":
            return [[c[0], c[1]], [1, c[1]]]
        if L["k"] == "conv":
            return [[c[1], c[0], c[2], c[3]], [c[1], 1]]
        if L["k"] == "bn":
            return [[1, c[0]], [1, c[0]]]
        return []

    def set(self, id):
        w, b = self.wshapes(self.L[id])
        kd = self.r.choice(["frac", "int", "small", "mix"])
        self.emit(op="lset", id=id, w=self.ten(w, kd), b=self.ten(b, kd))

    # ------------------------------------------------------------------------------------ inputs
    def inshape(self, L):
        r, k, c = self.r, L["k"], L["cfg"]
        n = r.choice([1, 1, 2, 3, 4])
        if k == "fc":
            return [c[0]] if r.random() < 0.25 else [n, c[0]]
        if k == "conv":
            dims = []
            for kk in (c[2], c[3]):
                lo = max(1, c[6] * (kk - 1) + 1 - 2 * c[5])
                dims.append(lo + r.choice([0, 1, 2, 3, 4]))
            return [min(n, 3), c[0]] + dims
        if k == "pool":
            lo = max(1, c[0] - 2 * c[2], c[0] - c[2])  # every window covers something
            return [min(n, 2), r.choice([1, 2, 3]), lo + r.randint(0, 4), lo + r.randint(0, 4)]
        if k == "bn":
            return [r.randint(1, 8), c[0]] if r.random() < 0.5 else [r.randint(1, 3), c[0], r.randint(1, 4), r.randint(1, 4)]
        if k == "flat":
            return [n] + self.shape(r.randint(1, 4), maxsize=24)
        if k == "drop":
            return self.shape(maxsize=40)
        if L["f"] == "softmax":
            return [n] + self.shape(r.choice([1, 1, 2, 3]), maxsize=14)
        return self.shape(maxsize=24)

    def outshape(self, L, s):
        k, c = L["k"], L["cfg"]
        if k == "fc":
            return s[:-1] + [c[1]]
        if k == "conv":
            return [s[0], c[1], odim(s[2], c[2], c[4], c[5], c[6]), odim(s[3], c[3], c[4], c[5], c[6])]
        if k == "pool":
            return s[:2] + [odim(s[2], c[0], c[1], c[2], 1), odim(s[3], c[0], c[1], c[2], 1)]
        if k == "flat":
            return [s[0], prod(s[1:])]
        return list(s)

    def values(self, L, s):
        r, n = self.r, prod(s)
        if L["k"] == "pool":
            w = r.random()
            if w < 0.15 and n <= 12:
                return [float(r.randint(0, 4)) for _ in range(n)]  # ties
            xs = self.distinct(n)
            if w < 0.45:
                xs = [-abs(x) for x in xs]
                r.shuffle(xs)
            elif w < 0.6:
                xs = [x * 2.0 ** r.choice([-20, 10, 20]) for x in xs]
            return xs if len(set(xs)) == n else [i + 1.0 for i in range(n)]
        if L["k"] == "bn":
            kd = r.choice(["int", "small", "frac", "unit"])
            xs = self.many(n, kd)
            w = r.random()
            if w < 0.15:
                xs = [xs[0]] * n
            elif w < 0.3:
                xs = [x + 40 for x in xs]
            return xs
        if L["k"] == "drop":
            return self.many(n, "nz")
        if L["k"] == "act":
            return self.extreme(n) if r.random() < 0.5 else self.many(n)
        return self.many(n)

    def extreme(self, n):
        out = []
        for _ in range(n):
            w = self.r.random()
            if w < 0.35:
                out.append(self.r.choice([-1, 1]) * self.r.randint(1, 1 << 12) * 2.0 ** -6)
            elif w < 0.5:
                out.append(float(self.r.choice([0, 0, 1, -1, 15, -15, 17, -17, 20, -20, 30, -30])))
            elif w < 0.7:
                out.append(float(self.r.choice([43, 44, 45, 50, 80, 87, 88, 89, 90, 100, 104, 120, 300, 354, 355, 356, 700, 709, 710, 720, 745, 750, 1000]) * self.r.choice([-1, 1])))
            elif w < 0.85:
                out.append(self.r.choice([-1, 1]) * self.r.randint(1, 1 << 16) * 2.0 ** self.r.randint(0, 80))
            else:
                out.append(self.r.choice([-1, 1]) * self.r.randint(1, 1 << 10) * 2.0 ** self.r.randint(-90, -20))
        return out

    # ------------------------------------------------------------------------------------ calls
    def fwd(self, id, s=None):
        L = self.L[id]
        old = L.get("last")
        s = s or (list(old["s"]) if old and self.r.random() < 0.35 else self.inshape(L))
        x = self.ten(s, xs=self.values(L, s))
        if old and old["s"] == s and self.r.random() < 0.3:  # the last input once more, or nearly so
            a, b = old["d"].split(), x["d"].split()
            k = self.r.randrange(len(a))
            c = a[:k] + [b[k]] + a[k + 1:]
            if L["k"] != "pool" or len(set(a)) == len(set(c)) == len(a):
                x = dict(s=list(s), d=" ".join(c if self.r.random() < 0.7 else a))
        L["last"] = x
        self.emit(op="lfwd", id=id, x=x)
        L["ok"] = True
        if L["k"] == "bn" or L["k"] == "drop":
            if L["train"]:
                L["seen"] = s
        else:
            L["seen"] = s

    def badfwd(self, id):
        L = self.L[id]
        r, k = self.r, L["k"]
        if k == "fc":
            w = L["cfg"][0] + r.choice([1, 2, -1])
            if w < 1:
                return
            s = [w] if r.random() < 0.4 else [r.randint(1, 3), w]
        elif k == "pool":
            s = self.shape(r.choice([1, 2, 3, 5]), maxsize=24)
        elif k == "flat":
            s = [r.randint(1, 6)]
        elif k == "bn":
            s = self.shape(r.choice([1, 3, 5]), maxsize=24)
        elif k == "act" and L["f"] == "softmax":
            s = [r.randint(1, 6)]
        else:
            return
        self.emit(op="lfwd", id=id, x=self.ten(s))
        if k == "act":
            L["ok"] = False

    def bwd(self, id):
        L = self.L[id]
        if L["k"] == "drop" and not L["train"]:
            self.emit(op="lbwd", id=id, g=self.ten(self.shape(maxsize=20)))
            return
        if L["seen"] is None:
            if L["k"] == "act":
                return
            self.emit(op="lbwd", id=id, g=self.ten(self.outshape(L, self.inshape(L)), "int"))
            return
        if not L["ok"] or (L["k"] == "bn" and not L["train"]):
            return
        if L["k"] == "drop" and self.r.random() < 0.15:
            s = self.shape(maxsize=20)
            self.emit(op="lbwd", id=id, g=self.ten(s))
            return
        s = self.outshape(L, L["seen"])
        if L["k"] == "fc" and len(L["seen"]) == 2 and L["seen"][0] == 1 and self.r.random() < 0.3:
            s = s[1:]
        if L["k"] == "flat" and self.r.random() < 0.1:
            s = [s[0], s[1] + 1]
        kd = self.r.choice(["frac", "int", "small", "mix"])
        g = self.many(prod(s), kd)
        if self.r.random() < 0.15:  # sparse gradients
            g = [x if self.r.random() < 0.3 else 0.0 for x in g]
        g = self.ten(s, xs=g)
        if L.get("lastg") and L["lastg"]["s"] == list(s) and self.r.random() < 0.25:  # one element changed, or none
            a, b = L["lastg"]["d"].split(), g["d"].split()
            k = self.r.randrange(len(a))
            g["d"] = " ".join(a[:k] + [b[k]] + a[k + 1:] if self.r.random() < 0.7 else a)
        L["lastg"] = g
        self.emit(op="lbwd", id=id, g=g)
        L["bwd"] = True
        if self.wshapes(L):
            w = self.r.random()
            if w < 0.45:
                self.see(id, "get")
            elif w < 0.7:
                self.see(id, "spy")

    def see(self, id, v=None):
        L = self.L[id]
        if self.wshapes(L) and L["bwd"]:
            v = v or self.r.choice(["get", "spy"])
            self.emit(op="lsee", id=id, v="spy" if L["k"] == "bn" else v)

    def put(self, id):
        L = self.L[id]
        if self.wshapes(L) and not L["bwd"]:
            return
        self.emit(op="lput", id=id, w=[self.ten(s, self.r.choice(["frac", "small"])) for s in self.wshapes(L)])

    def mode(self, id):
        L = self.L[id]
        L["train"] = not L["train"] if self.r.random() < 0.8 else L["train"]
        self.emit(op="lmode", id=id, on=L["train"])

    def copy(self, p):
        L = self.L[p]
        if L["k"] == "act":
            return
        self.next += 1
        self.emit(op="lcopy", id=self.next, p=p)
        self.L[self.next] = dict(L)

    def run(self, k, n):
        r = self.r
        for _ in range(r.choice([1, 1, 2, 3])):
            self.new(k)
        w = dict(fwd=8, bwd=7, badfwd=1, put=1 if k not in ("fc", "conv", "bn") else 2, see=0 if k not in ("fc", "conv", "bn") else 1.5, set=1, mode=3 if k in ("bn", "drop") else 1, copy=0.5, drop=0.3, new=0.5)
        names = list(w)
        while len(self.ev) < n:
            id = r.choice(list(self.L))
            c = r.choices(names, [w[x] for x in names])[0]
            if c == "set":
                if k in ("fc", "conv"):
                    self.set(id)
            elif c == "drop":
                if len(self.L) > 1:
                    self.emit(op="ldrop", id=id)
                    del self.L[id]
            elif c == "new":
                if len(self.L) < 4:
                    self.new(k)
            elif c == "copy":
                if len(self.L) < 5:
                    self.copy(id)
            else:
                getattr(self, c)(id)
        return self.ev

    # ------------------------------------------------------------------------------------ stateless
    def act(self, back):
        r = self.r
        f = r.choice(ACTS)
        a = num(typed(self.elem, r.choice([0.01, 0.25, 0.5, 0.1, 0.0, 1.0, 1.5, 3.0, -0.25]))) if f == "leaky" else "0"
        if f == "softmax":
            s = [r.choice([1, 2, 3, 4])] + self.shape(r.choice([1, 1, 1, 2, 3]), maxsize=16)
            if r.random() < 0.08:
                s = [r.randint(1, 5)]
        else:
            s = self.shape(maxsize=30)
        n = prod(s)
        xs = self.extreme(n) if r.random() < 0.5 else self.many(n)
        if f == "softmax" and r.random() < 0.3:
            c = float(r.choice([-1, 1]) * r.randint(1, 1 << 23))
            xs = [x + c for x in self.many(n, "int")]
        if not back:
            self.emit(op="afwd", f=f, a=a, x=self.ten(s, xs=xs))
        else:
            self.emit(op="abwd", f=f, a=a, x=self.ten(s, xs=xs), g=self.ten(s))

    def loss(self):
        r = self.r
        l = r.choice(["mse", "cce"])
        op = r.choice(["lossv", "lossg"])
        if l == "mse":
            s = self.shape(maxsize=30)
            x = self.ten(s)
            w = r.random()
            if w < 0.6:
                t = self.ten(s)
            elif w < 0.8:
                s = [r.randint(1, 8)] + [1] * r.randint(1, 2)
                x, t = self.ten(s), self.ten(s[:1])
            else:  # incompatible
                q = list(s)
                if r.random() < 0.5:
                    q[r.randrange(len(q))] += 1
                elif r.random() < 0.5:
                    q = [s[0] + 1]
                else:
                    q = q + [1]
                t = self.ten(q)
            if t["s"] == x["s"] and r.random() < 0.1:
                t = dict(t, d=x["d"])
        else:
            s = [r.choice([1, 2, 3, 5]), r.randint(1, 6)]
            n = prod(s)
            w = r.random()
            if w < 0.6:
                xs = [r.randint(1, 1 << 16) / float(1 << 16) for _ in range(n)]
            elif w < 0.8:
                xs = [r.choice([0.0, 1.0, 2.0 ** -20, 2.0 ** -24, 2.0 ** -30, 1 - 2.0 ** -20, 1 - 2.0 ** -24, 0.5]) for _ in range(n)]
            else:
                xs = self.many(n, "small")
            x = self.ten(s, xs=xs)
            w = r.random()
            if w < 0.5:
                ts = []
                for i in range(s[0]):
                    j = r.randrange(s[1])
                    ts += [1.0 if i2 == j else 0.0 for i2 in range(s[1])]
                t = self.ten(s, xs=ts)
            elif w < 0.9:
                t = self.ten(s, xs=[r.randint(0, 64) / 64.0 for _ in range(n)] if r.random() < 0.7 else self.many(n, "small"))
            else:
                t = self.ten([s[0], s[1] + 1] if r.random() < 0.5 else s[:1], "edge")
        self.emit(op=op, l=l, x=x, t=t)
        if r.random() < 0.5:
            self.emit(op="lossg" if op == "lossv" else "lossv", l=l, x=x, t=t)


KINDS = {"P09": "act", "P10": "fc", "P11": "conv", "P12": "pool", "P13": "flat", "P14": "bn", "P15": "drop"}


def random_cases(pid, n, length, seed, elems=("f", "d")):
    out = []
    for i in range(n):
        elem = elems[i % len(elems)]
        rng = random.Random("%s-%s-%d" % (pid, seed, i))
        s = LScript(rng, elem)
        if pid == "P16":
            while len(s.ev) < length:
                s.loss()
        elif pid == "P08" or (pid == "P09" and i % 3):
            while len(s.ev) < length:
                s.act(pid == "P09")
        else:
            s.run(KINDS[pid], length)
        out.append(Case(elem, s.ev, "%s random program %d (seed %s)" % (pid, i, seed)))
    return out


class Large(LScript):
    """Layers, inputs and batches beyond the sizes at which code usually starts to block, unroll or split its work."""

    def long(self):
        return self.r.choice([9, 16, 17, 31, 33, 64, 65, 70, 100, 129])

    def new(self, k, id=None):
        r = self.r
        super().new(k, id)
        id = id or self.next
        e = self.ev[-1] if self.ev[-1]["op"] == "lnew" else self.ev[-2]
        if self.ev[-1]["op"] == "lset":
            self.ev.pop()
        if k == "fc":
            e["cfg"] = r.choice([[self.long(), 3], [2, self.long()], [17, 20], [33, 9], [64, 10], [40, 33]])
        elif k == "conv":
            e["cfg"] = r.choice([[8, 3, 3, 3, 1, 1, 1], [3, 17, 2, 2, 1, 0, 1], [1, 2, 5, 5, 1, 2, 1], [2, 2, 7, 3, 2, 3, 1], [9, 10, 1, 1, 1, 0, 1], [1, 1, 3, 3, 4, 0, 1], [2, 1, 3, 3, 1, 4, 4], [1, 3, 9, 9, 3, 4, 1]])
        elif k == "pool":
            e["cfg"] = r.choice([[2, 2, 0], [3, 1, 1], [5, 3, 2], [8, 8, 0], [4, 1, 0], [3, 7, 1]])
            e["f"] = "-"
        elif k == "bn":
            e["cfg"] = [r.choice([9, 17, 33, 2])]
        self.L[id]["cfg"] = e["cfg"]
        if k in ("fc", "conv"):
            self.set(id)
        return id

    def inshape(self, L):
        r, k, c = self.r, L["k"], L["cfg"]
        if k == "fc":
            return r.choice([[c[0]], [5, c[0]], [17, c[0]], [33, c[0]]]) if c[0] * c[1] < 700 else [r.choice([2, 9]), c[0]]
        if k == "conv":
            lo = [max(1, c[6] * (x - 1) + 1 - 2 * c[5]) for x in (c[2], c[3])]
            big = 9 if c[0] * c[1] * c[2] * c[3] > 100 else 17
            return r.choice([[1, c[0], lo[0] + big, lo[1] + 8], [5, c[0], lo[0] + 2, lo[1] + 3], [9, c[0], lo[0], lo[1] + 1], [2, c[0], lo[0] + 4, lo[1] + big]])
        if k == "pool":
            return r.choice([[1, 2, 17, 20], [2, 9, 9, 8], [9, 1, 10, 11], [1, 1, 33, 9], [1, 20, 8, 8]])
        if k == "bn":
            return r.choice([[33, c[0]], [17, c[0]], [3, c[0], 5, 7], [2, c[0], 9, 4]])
        if k == "flat":
            return r.choice([[9, 33], [3, 4, 5, 7], [17, 2, 3, 4], [2, 100], [1, 3, 17, 5], [33, 3, 3], [2, 3, 4, 5, 2]])
        if L["f"] == "softmax":
            return r.choice([[3, 100], [17, 10], [33, 3], [2, 5, 20], [1, 300], [2, 3, 4, 9], [1, 1000]])
        return r.choice([[400], [17, 33], [3, 129], [5, 7, 9], [2, 3, 4, 9]])

    def values(self, L, s):
        if L["k"] == "pool":
            xs = [i / 8.0 for i in range(-(prod(s) // 2), prod(s) - prod(s) // 2)]
            self.r.shuffle(xs)
            return xs
        return super().values(L, s)

    def turn(self, k):
        id = self.new(k)
        for _ in range(2):
            self.fwd(id)
            self.bwd(id)
            if k in ("fc", "conv", "bn"):
                self.see(id)
        if k in ("bn", "drop"):
            self.mode(id)
            self.fwd(id)
        return self.ev

    def stateless(self, back):
        r = self.r
        for f in r.sample(ACTS, 3):
            a = num(typed(self.elem, 0.25)) if f == "leaky" else "0"
            s = self.inshape(dict(k="act", f=f, cfg=[0]))
            x = self.ten(s, xs=self.extreme(prod(s)) if r.random() < 0.3 else self.many(prod(s)))
            self.emit(**(dict(op="abwd", f=f, a=a, x=x, g=self.ten(s)) if back else dict(op="afwd", f=f, a=a, x=x)))
        return self.ev

    def losses(self):
        r = self.r
        for l in ("mse", "cce"):
            s = r.choice([[33, 3], [9, 10], [2, 100], [65, 2], [1, 300]]) if l == "cce" or r.random() < 0.5 else r.choice([[400], [17, 20], [3, 4, 33], [2, 3, 4, 9], [129, 1]])
            n = prod(s)
            x = self.ten(s, xs=[r.randint(1, 1 << 16) / float(1 << 16) for _ in range(n)] if l == "cce" else self.many(n, "small"))
            t = self.ten(s, xs=[r.choice([0.0, 0.0, 1.0, 0.25]) for _ in range(n)] if l == "cce" else self.many(n, "small"))
            self.emit(op="lossv", l=l, x=x, t=t)
            self.emit(op="lossg", l=l, x=x, t=t)
        return self.ev


class Huge(Large):
    """Thousands of elements: sizes at which code might switch to another path (blocks, threads, tables)."""

    def new(self, k, id=None):
        r = self.r
        id = super().new(k, id)
        L = self.L[id]
        c = {"fc": [[300, 20], [20, 300], [5, 3], [129, 33], [2, 1100]], "conv": [[1, 1, 3, 3, 1, 1, 1], [33, 4, 3, 3, 1, 1, 1], [4, 33, 3, 3, 1, 0, 1], [3, 4, 3, 3, 2, 1, 1], [2, 2, 1, 1, 1, 0, 1]],
             "pool": [[2, 2, 0], [3, 2, 1], [3, 1, 1]], "bn": [[3], [40], [70]]}.get(k)
        if c is None:
            return id
        new = r.choice(c)
        for e in reversed(self.ev):
            if e["op"] == "lnew" and e["id"] == id:
                e["cfg"] = new
                break
        if self.ev[-1]["op"] == "lset":
            self.ev.pop()
        L["cfg"] = new
        if k in ("fc", "conv"):
            self.set(id)
        return id

    def inshape(self, L):
        r, k, c = self.r, L["k"], L["cfg"]
        if k == "fc":
            return [r.choice([300, 130, 257]), c[0]] if c[0] * c[1] < 50 else [r.choice([1, 3, 9]), c[0]]
        if k == "conv":
            if c[0] * c[1] > 100:
                return [r.choice([1, 2]), c[0], 7, 6]
            return r.choice([[1, c[0], 40, 33], [70, c[0], 5, 4], [2, c[0], 28, 28], [33, c[0], 6, 6]])
        if k == "pool":
            return r.choice([[1, 1, 65, 64], [2, 40, 8, 7], [130, 2, 4, 5], [3, 2, 28, 28], [70, 1, 8, 8]])
        if k == "bn":
            return r.choice([[400 // c[0] + 2, c[0]], [2, c[0], 12 if c[0] < 50 else 3, 11 if c[0] < 50 else 4], [130 if c[0] < 30 else 12, c[0]]])
        if k == "flat":
            return r.choice([[130, 33], [3, 16, 9, 10], [300, 3, 4], [2, 2100], [1, 3, 40, 41]])
        if L["f"] == "softmax":
            return r.choice([[300, 10], [130, 2, 9], [257, 3], [70, 33]])
        return r.choice([[4097], [65, 64], [3, 1100], [5, 7, 33], [2050, 2], [2, 3, 28, 28]])

    def losses(self):
        r = self.r
        for l in ("mse", "cce"):
            s = r.choice([[300, 10], [1100, 3], [2, 1100], [130, 17]]) if l == "cce" or r.random() < 0.5 else r.choice([[4097], [3, 16, 40], [2, 3, 28, 28], [3000, 1]])
            n = prod(s)
            x = self.ten(s, xs=[r.randint(1, 1 << 16) / float(1 << 16) for _ in range(n)] if l == "cce" else self.many(n, "small"))
            t = self.ten(s, xs=[r.choice([0.0, 0.0, 1.0, 0.25]) for _ in range(n)] if l == "cce" else self.many(n, "small"))
            self.emit(op="lossv", l=l, x=x, t=t)
            self.emit(op="lossg", l=l, x=x, t=t)
        return self.ev


def large_cases(pid, n, seed, elem, cls=Large):
    out = []
    for i in range(n):
        s = cls(random.Random("%s-%s-%s-%s-%d" % (cls.__name__.lower(), pid, seed, elem, i)), elem)
        if pid == "P16":
            s.losses()
        elif pid == "P08" or (pid == "P09" and i % 2):
            s.stateless(pid == "P09")
        else:
            s.turn(KINDS[pid])
        out.append(Case(elem, s.ev, "%s %s layer %d (seed %s)" % (pid, cls.__name__.lower(), i, seed)))
    return out


def mask_cases(n, seed, elem, passes=60):
    """Many passes through one dropout layer."""
    out = []
    for i in range(n):
        s = LScript(random.Random("masks-%s-%d" % (seed, i)), elem)
        id = s.new("drop")
        rate = s.r.choice([0.0, 0.1, 0.2, 0.3, 0.5, 0.7, 0.9])
        s.ev[-1]["a"] = num(typed(elem, rate))
        sh = s.r.choice([[400], [20, 20], [4, 100], [8, 5, 10], [2, 3, 8, 8], [50, 8]])
        if s.r.random() < 0.5:
            s.emit(op="lfwd", id=id, x=s.ten([3], "nz"))
        s.emit(op="lmany", id=id, x=s.ten(sh, xs=[1.0] * prod(sh)), n=passes)
        s.emit(op="lbwd", id=id, g=s.ten(sh, "small"))
        out.append(Case(elem, s.ev, "dropout masks %d, rate %s (seed %s)" % (i, rate, seed)))
    return out
