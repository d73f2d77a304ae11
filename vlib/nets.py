"""Call scripts for models of the library's own layers, losses and optimizers."""
import random
from .core import Table, Case
from .gen import Values, num, vec, prod
from .layers import typed, odim

TABLE = Table("""
nnew m
nadd m k cfg a b f
nset m i w b
ncompile m f k o
nmode m on
ntrain m xs ts n
npredict m x
npredictn m xs
""")
SMOOTH = ["sigmoid", "tanh", "swish", "mish"]


class Net:
    """What the generator remembers of a model: only shapes and kinds."""

    def __init__(self):
        self.layers, self.on, self.train, self.loss = [], [], True, None

    def has(self, k):
        return any(l[0] == k for l in self.layers)

    def random_drops(self):
        """The layers that drop elements at present.  (A layer added later starts in training mode.)"""
        return [i for i, l in enumerate(self.layers) if l[0] == "drop" and l[2] and self.on[i]]

    def frozen_bn(self):
        return any(l[0] == "bn" and not on for l, on in zip(self.layers, self.on))


class NScript(Values):
    def __init__(self, rng, elem):
        super().__init__(rng)
        self.elem, self.ev, self.N, self.P = elem, [], {}, "n"

    def emit(self, **e):
        self.ev.append(e)

    def value(self, scale=1.0):
        return typed(self.elem, scale * self.r.randint(-(1 << 20), 1 << 20) / float(1 << 20))

    def ten(self, s, scale=1.0):
        return dict(s=list(s), d=vec([self.value(scale) for _ in range(prod(s))]))

    def o(self, x):
        return num(typed(self.elem, x))

    # -------------------------------------------------------------------------------- construction
    def add(self, m, k, cfg=(0,), a="0", b="0", f="-", rate=0.0):
        n = self.N[m]
        n.layers.append((k, list(cfg), rate, f))
        n.on.append(True)
        self.emit(op=self.P + "add", m=m, k=k, cfg=list(cfg), a=a, b=b, f=f)
        if k in ("fc", "conv") and not self.own:  # (the library's choice contains zeros, which put relu at its kink)
            s = [cfg[0], cfg[1]] if k == "fc" else [cfg[1], cfg[0], cfg[2], cfg[3]]
            fan = s[0] if k == "fc" else s[1] * s[2] * s[3]
            bs = [1, cfg[1]] if k == "fc" else [cfg[1], 1]
            self.emit(op=self.P + "set", m=m, i=len(n.layers) - 1, w=self.ten(s, 1.7 / fan ** 0.5), b=self.ten(bs, 0.7))

    def act(self, m):
        f = self.r.choice(SMOOTH if self.own or self.norms else SMOOTH + ["relu", "relu", "leaky"])
        self.add(m, "act", a=self.o(self.r.choice([0.01, 0.1, 0.25])) if f == "leaky" else "0", f=f)

    def bn(self, m, c):
        f = self.r.choice(["default", "-"])
        a, b = (1e-5, 0.9) if f == "default" else (self.r.choice([1e-3, 0.01, 0.125]), self.r.choice([0.9, 0.5, 0.75]))
        self.add(m, "bn", [c], self.o(a), self.o(b), f)

    def drop(self, m, rate):
        self.add(m, "drop", a=self.o(rate), rate=rate)

    def mlp(self, m, s, drops):
        """s: shape of a sample.  Returns the shape of the output."""
        r, n = self.r, s[-1]
        for i in range(r.choice([0, 1, 1, 2])):
            w = r.randint(2, 4)
            self.add(m, "fc", [n, w])
            n = w
            norm = self.norms and len(s) == 2 and s[0] > 2 and r.random() < 0.6
            if norm:
                self.bn(m, n)
            self.act(m)
            if drops and r.random() < 0.5:
                self.drop(m, r.choice(drops))
        return s[:-1] + [n]

    def build(self, m, drops):
        """Adds layers; gives the shape of a sample, and of its prediction."""
        r = self.r
        n = self.N[m] = Net()
        self.own = r.random() < 0.15  # initial parameters chosen by the library
        # (a normalisation turns the rounding of a constant input into a position around the kink)
        self.norms = r.random() < 0.5
        self.emit(op=self.P + "new", m=m)
        what = r.choice(["flat", "batch", "batch", "cnn", "cnn"])
        if what == "flat":
            s = [r.randint(1, 4)]
            out = self.mlp(m, list(s), drops)
        elif what == "batch":
            s = [r.choice([1, 2, 3, 4]), r.randint(1, 4)]
            out = self.mlp(m, list(s), drops)
        else:
            s = [r.choice([1, 1, 2]), r.choice([1, 1, 2]), r.randint(3, 5), r.randint(3, 5)]
            b, c, h, w = s
            for i in range(r.choice([1, 1, 2])):
                for _ in range(20):
                    cfg = [c, r.choice([1, 2]), r.choice([1, 2, 2, 3]), r.choice([1, 2, 2, 3]), r.choice([1, 1, 2]), r.choice([0, 0, 1]), r.choice([1, 1, 2])]
                    oh, ow = odim(h, cfg[2], cfg[4], cfg[5], cfg[6]), odim(w, cfg[3], cfg[4], cfg[5], cfg[6])
                    if h + 2 * cfg[5] > cfg[6] * (cfg[2] - 1) and w + 2 * cfg[5] > cfg[6] * (cfg[3] - 1) and oh > 0 and ow > 0:
                        break
                else:
                    break
                self.add(m, "conv", cfg, f="square")
                c, h, w = cfg[1], oh, ow
                if self.norms and b * h * w > 2 and r.random() < 0.6:
                    self.bn(m, c)
                self.act(m)
                if drops and r.random() < 0.25:
                    self.drop(m, r.choice(drops))
                if min(h, w) >= 2 and r.random() < 0.6:
                    p = r.choice([[2, 2, 0], [2, 1, 0], [2, 2, 1], [2, 1, 1]])
                    oh, ow = odim(h, p[0], p[1], p[2], 1), odim(w, p[0], p[1], p[2], 1)
                    self.add(m, "pool", p, f=r.choice(["one", "two", "-"]))
                    h, w = oh, ow
            self.add(m, "flat")
            out = self.mlp(m, [b, c * h * w], drops) if c * h * w <= 24 else [b, c * h * w]
        k = r.randint(1, 3)
        self.add(m, "fc", [out[-1], k])
        out = out[:-1] + [k]
        n.loss = "mse"
        if len(out) == 2 and r.random() < 0.45:
            self.add(m, "act", f=r.choice(["softmax", "softmax", "sigmoid"]))
            n.loss = r.choice(["cce", "cce", "mse"])
        elif r.random() < 0.2:
            self.act(m)
        if drops and r.random() < 0.3:
            self.drop(m, r.choice(drops))
            n.loss = "mse"
        n.s, n.out = s, out
        return n

    def options(self, k, bn):
        r = self.r
        if k == "sgd":
            o = [r.choice([0.01, 0.02, 0.05, 0.1]), r.choice([0.0, 0.9, 0.5]), r.choice([0.0, 0.0, 0.25]), r.choice([0.0, 0.0, 0.01]), r.choice([0, 1])]
        elif k == "rms":
            o = [r.choice([0.01, 0.02]), r.choice([0.99, 0.9, 0.5]), r.choice([1e-8, 1e-4, 0.01]), r.choice([0.0, 0.5, 0.9]), r.choice([0.0, 0.01]), 0]
            if o[2] >= 0.01:
                o[5] = r.choice([0, 1])
        else:  # (the bias before a normalisation has gradient zero up to rounding, and the L1 penalty asks for its sign)
            o = [r.choice([0.001, 0.01, 0.05]), r.choice([0.9, 0.5]), r.choice([0.999, 0.9]), r.choice([1e-8, 1e-4]), 0.0 if bn else r.choice([0.0, 0.0, 0.01]), r.choice([0.0, 0.0, 0.01]), r.choice([0.0, 0.0, 0.1]), r.choice([1, 1, 2])]
        return ["-" if r.random() < 0.1 else self.o(x) for x in o]

    def compile(self, m):
        k = self.r.choice(["sgd", "rms", "adam"])
        self.emit(op=self.P + "compile", m=m, f=self.N[m].loss, k=k, o=self.options(k, self.N[m].has("bn")))

    # -------------------------------------------------------------------------------- use
    def target(self, n, rows=None):
        r = self.r
        out = n.out if rows is None else [rows] + n.out[1:]
        if n.loss == "cce":
            b, k = out
            if r.random() < 0.7:
                rows = []
                for _ in range(b):
                    j = r.randrange(k)
                    rows += [1.0 if i == j else 0.0 for i in range(k)]
            else:
                rows = [typed(self.elem, r.randint(0, 64) / 64.0) for _ in range(b * k)]
            return dict(s=out, d=vec(rows))
        return self.ten(out)

    def sample(self, n):
        s = n.s
        if len(s) > 1 and not n.has("bn") and self.r.random() < 0.15:
            s = [self.r.randint(1, 3)] + s[1:]
        return self.ten(s, 1.5)

    def bad(self, n):
        """An input the first fully connected layer refuses."""
        return self.ten(n.s[:-1] + [n.s[-1] + 1])

    def trainable(self, n):
        return not n.frozen_bn() and not n.random_drops()

    def predictable(self, n):
        return n.random_drops() in ([], [len(n.layers) - 1])

    def train(self, m, samples, epochs):
        n, r = self.N[m], self.r
        k = r.randint(1, samples)
        if len(n.s) > 1 and len(n.out) > 1 and not n.has("bn") and r.random() < 0.3:  # inputs with different numbers of rows
            bs = [r.randint(1, 3) for _ in range(k)]
        else:
            bs = [n.s[0]] * k
        xs = [self.ten([b] + n.s[1:] if len(n.s) > 1 else n.s, 1.5) for b in bs]
        ts = [self.target(n, b if len(n.s) > 1 else None) for b in bs]
        if r.random() < 0.08 and n.layers[0][0] == "fc":
            xs[r.randrange(k)] = self.bad(n)
        elif r.random() < 0.05:
            j = r.randrange(k)
            ts[j] = self.ten(n.out[:-1] + [n.out[-1] + 1])
        self.emit(op=self.P + "train", m=m, xs=xs, ts=ts, n=r.randint(1, epochs))

    def predict(self, m, seen):
        n, r = self.N[m], self.r
        if not self.predictable(n):
            return
        old = seen.setdefault(m, [])
        w = r.random()
        if w < 0.45:
            x = r.choice(old) if old and r.random() < 0.6 else self.sample(n)
            if r.random() < 0.06 and n.layers[0][0] == "fc":
                x = self.bad(n)
            self.emit(op=self.P + "predict", m=m, x=x)
            old.append(x)
        elif w < 0.75 or n.train or len(n.s) == 1:
            xs = [r.choice(old) if old and r.random() < 0.5 else self.sample(n) for _ in range(r.randint(0, 3))]
            self.emit(op=self.P + "predictn", m=m, xs=xs)
            old += xs
        else:  # a batch, and its rows alone
            b = r.randint(2, 3)
            rows = [[self.value(1.5) for _ in range(prod(n.s[1:]))] for _ in range(b)]
            self.emit(op=self.P + "predict", m=m, x=dict(s=[b] + n.s[1:], d=vec(sum(rows, []))))
            for i in r.sample(range(b), r.randint(1, b)):
                self.emit(op=self.P + "predict", m=m, x=dict(s=[1] + n.s[1:], d=vec(rows[i])))
        del old[:-4]

    def mode(self, m, on):
        n = self.N[m]
        n.train, n.on = on, [on] * len(n.on)
        self.emit(op=self.P + "mode", m=m, on=on)

    def grow(self, m, drops):
        """One more layer, after the model has been used."""
        n, r = self.N[m], self.r
        w = r.random()
        if w < 0.45 or n.loss == "cce":
            self.drop(m, r.choice(drops or [0.0]) if n.loss == "mse" else 0.0)
        elif w < 0.75:
            k = r.randint(1, 3)
            self.add(m, "fc", [n.out[-1], k])
            n.out = n.out[:-1] + [k]
        else:
            self.act(m)

    def run(self, pid, n, drops, samples=3, epochs=2):
        r, seen = self.r, {}
        for m in range(1, r.choice([1, 1, 1, 2]) + 1):
            self.build(m, drops)
            self.compile(m)
        for _ in range(n):
            m = r.choice(list(self.N))
            w, net = r.random(), self.N[m]
            if w < (0.45 if pid == "P22" else 0.2):
                if self.trainable(net):
                    self.train(m, samples, epochs)
                else:
                    self.mode(m, not net.train)
            elif w < 0.8:
                self.predict(m, seen)
            elif w < 0.9:
                self.mode(m, r.random() < (0.6 if pid == "P22" else 0.3))
            elif w < 0.95:
                if len(net.layers) < 9:
                    self.grow(m, drops)
            else:
                self.compile(m)
        if pid == "P23":  # the same inputs once more, before and after a switch to training mode and back
            for m, net in self.N.items():
                for on in ([False], [False, True, False], [True])[r.randrange(3)]:
                    self.mode(m, on)
                for x in seen.get(m, [])[-2:]:
                    if self.predictable(net):
                        self.emit(op=self.P + "predict", m=m, x=x)
                if self.trainable(net):
                    self.train(m, 2, 1)
        return self.ev


def random_cases(pid, n, length, seed, elem, drops=(), cls=NScript, **k):
    out = []
    for i in range(n):
        s = cls(random.Random("%s-%s-%s-%d" % (pid, seed, elem, i)), elem)
        out.append(Case(elem, s.run(pid, length, list(drops), **k), "%s random program %d (seed %s)" % (pid, i, seed)))
    return out


TAPS = Table("""
mnew m
madd m l k cfg a b f
mset l w b
mcompile m f lk o k opts
mmode m on
train m xs ts n
predict m x
predictn m xs
back m g
update m
""")


class TapScript(NScript):
    """The same programs for models whose parts are watched; dropout may be anywhere."""

    def __init__(self, rng, elem):
        super().__init__(rng, elem)
        self.lno, self.fno, self.of = 0, 0, {}

    def emit(self, **e):
        op = e["op"]
        if op == "nadd":
            self.lno += 1
            self.of[(e["m"], len(self.N[e["m"]].layers) - 1)] = self.lno
            e = dict(e, op="madd", l=self.lno)
        elif op == "nset":
            e = dict(op="mset", l=self.of[(e["m"], e["i"])], w=e["w"], b=e["b"])
        elif op == "ncompile":
            self.fno += 1
            e = dict(op="mcompile", m=e["m"], f=self.fno, lk=e["f"], o=self.fno, k=e["k"], opts=e["o"])
        elif op in ("nnew", "nmode"):
            e = dict(e, op="m" + op[1:])
        else:
            e = dict(e, op=op[1:])
        super().emit(**e)

    def trainable(self, n):
        return not n.frozen_bn()

    def predictable(self, n):
        return True

    def train(self, m, samples, epochs):
        super().train(m, samples, epochs)
        n, r = self.N[m], self.r
        if self.ev[-1]["n"] and r.random() < 0.12 and all(x["s"] == n.s for x in self.ev[-1]["xs"]):
            self.emit(op="nback", m=m, g=self.ten(n.out))
        if r.random() < 0.1:
            self.emit(op="nupdate", m=m)
