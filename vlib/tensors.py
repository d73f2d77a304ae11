"""Call scripts for the tensor driver."""
import math
import random
import struct
from .core import Table, Case
from .gen import Values, num, vec, prod, bshape

TABLE = Table("""
new d s
newv d s v
newp d s l
newl d s l
newm d s l
newi d s l
newtd d s v
newtdm d s v
ones d s
zeros d s
ones1 d i
zeros1 d i
ident d i
copy d p
copytd d p
move d p
asg d p
masg d p
eq p q
drop d
snap
obs d
get d ix
set d ix v
getf d i
setf d i v
iter d
reshape d s
reshapev d s
areshape d p s
fill d v
shapeop s s2
flat s ix
bin o d p q
ibin o d q
sc o d p v
lsc o d v p
isc o d v
sce o d p i
isce o d i
fille d i
neg d p
sqrt d p
isqrt d
apply d f p
iapply f d
pair d p q
recip d p v
recipd d p
sum d p
sumax d p i
sumaxes d p ax
mean d p
meanaxes d p ax
var d p q
varaxes d p q ax
matmul d p q
transpose d p i j
slice d p i j
view d st en sp
viewset d st en sp ix v
bview d s
str d
""")
INTERNALS = {"isqrt", "bview", "shapeop", "flat", "iter", "copytd", "newtd", "newtdm"}
OPS = ["add", "sub", "mul", "div"]
FNS = ["twice", "sq", "inc", "neg"]


class Script(Values):
    """Builds one program: remembers the shape of every slot, never a value."""
    elem = "f"

    def __init__(self, rng):
        super().__init__(rng)
        self.ev = []
        self.sh = {}   # slot -> shape
        self.pos = {}  # slot -> all elements known to be positive (usable as divisor and under sqrt)
        self.nextid = 0

    def slot(self, reuse=0.3):
        if self.sh and self.r.random() < reuse:
            return self.r.choice(list(self.sh))
        self.nextid += 1
        return self.nextid

    def emit(self, **e):
        self.ev.append(e)

    def make(self, s, xs=None, kind="mix", how=None, d=None):
        d = d if d is not None else self.slot(0.1)
        xs = xs if xs is not None else self.many(prod(s), kind)
        self.emit(op=how or self.r.choice(["newp", "newl", "newm", "newi"]), d=d, s=list(s), l=vec(xs))
        self.sh[d] = list(s)
        self.pos[d] = min(xs) > 0
        return d

    def put(self, d, s, pos=False):
        self.sh[d] = list(s)
        self.pos[d] = pos

    def any(self, pred=lambda s: True):
        c = [k for k, s in self.sh.items() if pred(s)]
        return self.r.choice(c) if c else None

    # -- single random calls; each returns nothing when it does not apply --
    def c_new(self):
        s = self.shape(maxsize=24)
        w = self.r.random()
        d = self.slot()
        if w < 0.5:
            self.make(s, d=d)
        elif w < 0.6:
            self.emit(op="new", d=d, s=s); self.put(d, s)
        elif w < 0.75:
            self.emit(op=self.r.choice(["newv", "newtd", "newtdm"]), d=d, s=s, v=num(self.one("pos"))); self.put(d, s, True)
        elif w < 0.85:
            o = self.r.choice(["ones", "zeros"]); self.emit(op=o, d=d, s=s); self.put(d, s, o == "ones")
        elif w < 0.92:
            n = self.r.randint(1, 6); o = self.r.choice(["ones1", "zeros1"]); self.emit(op=o, d=d, i=n); self.put(d, [n], o == "ones1")
        else:
            n = self.r.randint(1, 4); self.emit(op="ident", d=d, i=n); self.put(d, [n, n])

    def c_badnew(self):
        d = self.slot()
        w = self.r.random()
        if w < 0.4:
            s = self.shape(maxsize=12); s[self.r.randrange(len(s))] = self.r.choice([0, -1, -3])
            self.emit(op=self.r.choice(["new", "ones", "zeros"]), d=d, s=s)
        elif w < 0.5:
            self.emit(op="new", d=d, s=[])
        elif w < 0.6:
            self.emit(op=self.r.choice(["ones1", "zeros1", "ident"]), d=d, i=self.r.choice([0, -2]))
        else:
            s = self.shape(maxsize=12); n = prod(s) + self.r.choice([-1, 1, 2])
            if n > 0:
                self.emit(op=self.r.choice(["newl", "newm", "newi"]), d=d, s=s, l=vec(self.many(n, "int")))

    def c_copy(self):
        p = self.any()
        d = self.slot()
        self.emit(op=self.r.choice(["copy", "copy", "copytd"]), d=d, p=p); self.put(d, self.sh[p], self.pos[p])

    def c_asg(self):
        p, d = self.any(), self.any()
        if self.r.random() < 0.2:
            d = p
        self.emit(op="asg", d=d, p=p); self.put(d, self.sh[p], self.pos[p])

    def c_move(self):
        p = self.any()
        d = self.slot()
        if d == p:
            return
        self.emit(op="move", d=d, p=p); self.put(d, self.sh[p], self.pos[p])
        self.after_move(p)

    def c_masg(self):
        p, d = self.any(), self.any()
        if self.r.random() < 0.1:
            d = p
        self.emit(op="masg", d=d, p=p)
        if d != p:
            self.put(d, self.sh[p], self.pos[p])
            self.after_move(p)

    def after_move(self, p):
        """The shape of a moved-from tensor is open: look at it, then use it in ways that need no shape."""
        w = self.r.random()
        self.emit(op="snap")
        if w < 0.4:
            q = self.any(lambda s: True)
            if q == p or q is None:
                self.emit(op="drop", d=p); del self.sh[p]; del self.pos[p]
                return
            self.emit(op="asg", d=p, p=q); self.put(p, self.sh[q], self.pos[q])
        elif w < 0.7:
            n = self.slot(0)
            self.emit(op="copy", d=n, p=p)
            self.emit(op="eq", p=n, q=p)
            self.emit(op="drop", d=n)
            self.emit(op="drop", d=p); del self.sh[p]; del self.pos[p]
        else:
            self.emit(op="drop", d=p); del self.sh[p]; del self.pos[p]
        if not self.sh:
            self.c_new()

    def c_drop(self):
        if len(self.sh) > 1:
            d = self.any(); self.emit(op="drop", d=d); del self.sh[d]; del self.pos[d]

    def c_eq(self):
        if self.r.random() < 0.35:  # all but equal
            s = self.shape(maxsize=12)
            xs = self.many(prod(s))
            i = self.r.randrange(len(xs))
            ys, k = list(xs), 23 if self.elem == "f" else 52
            if xs[i] == 0:
                ys[i] = self.r.choice([-0.0, 2.0 ** -k, 2.0 ** -100, -(2.0 ** -126)])
            else:
                m, e = math.frexp(xs[i])
                ys[i] = math.ldexp(m + self.r.choice([-1, 1, 1, 2]) * 2.0 ** -k, e)
                if self.elem == "f":
                    ys[i] = struct.unpack("f", struct.pack("f", ys[i]))[0]
            if self.r.random() < 0.2:
                ys = xs
            p = self.make(s, xs, d=self.slot())
            q = self.make(s, ys, d=next(k for k in range(90, 200) if k != p))
            self.emit(op="eq", p=p, q=q)
            self.emit(op="drop", d=q); del self.sh[q]; del self.pos[q]
            return
        p = self.any(); q = self.any(lambda s: prod(s) == prod(self.sh[p]))
        self.emit(op="eq", p=p, q=q if q is not None else p)

    def c_set(self):
        d = self.any(); s = self.sh[d]
        if self.r.random() < 0.5:
            self.emit(op="set", d=d, ix=[self.r.randrange(x) for x in s], v=num(self.one()))
        else:
            self.emit(op="setf", d=d, i=self.r.randrange(prod(s)), v=num(self.one()))
        self.pos[d] = False

    def c_get(self):
        d = self.any(); s = self.sh[d]
        if self.r.random() < 0.6:
            self.emit(op="get", d=d, ix=[self.r.randrange(x) for x in s])
        else:
            self.emit(op="getf", d=d, i=self.r.randrange(prod(s)))

    def c_badget(self):
        d = self.any(); s = self.sh[d]
        ix = [self.r.randrange(x) for x in s]
        w = self.r.random()
        if w < 0.3:
            ix = ix + [0]
        elif w < 0.5:
            ix = ix[:-1]
        else:
            k = self.r.randrange(len(s)); ix[k] = self.r.choice([s[k], s[k] + 1, -1])
        if self.r.random() < 0.5:
            self.emit(op="get", d=d, ix=ix)
        else:
            self.emit(op="set", d=d, ix=ix, v="7")

    def c_iter(self):
        self.emit(op=self.r.choice(["iter", "obs"]), d=self.any())

    def c_fill(self):
        d = self.any(); v = self.one(); self.emit(op="fill", d=d, v=num(v)); self.pos[d] = v > 0

    def c_reshape(self):
        d = self.any(); s = self.fac(prod(self.sh[d]))
        w = self.r.random()
        if w < 0.7:
            self.emit(op=self.r.choice(["reshape", "reshapev"]), d=d, s=s); self.sh[d] = s
        else:
            n = self.slot(); self.emit(op="areshape", d=n, p=d, s=s); self.put(n, s, self.pos[d])

    def c_badreshape(self):
        d = self.any(); s = self.fac(prod(self.sh[d]) + self.r.choice([1, 2, -1]) or 1)
        if prod(s) == prod(self.sh[d]) or self.r.random() < 0.3:
            s = self.fac(prod(self.sh[d])); s[0] = -s[0]
            if len(s) > 1:
                s[1] = -s[1]
        if self.r.random() < 0.15:
            s = []
        if self.r.random() < 0.7:
            self.emit(op=self.r.choice(["reshape", "reshapev"]), d=d, s=s)
        else:
            self.emit(op="areshape", d=self.slot(), p=d, s=s)

    def c_bin(self, o=None):
        p = self.any(); o = o or self.r.choice(OPS)
        t = self.partner(self.sh[p])
        q = self.make(t, kind="pos" if o == "div" else "mix", xs=[abs(x) + 0.5 for x in self.many(prod(t), "small")] if o == "div" else None, d=self.slot(0))
        if self.r.random() < 0.4 and o != "div":
            p, q = q, p
        d = self.slot()
        s = bshape(self.sh[p], self.sh[q])
        self.emit(op="bin", o=o, d=d, p=p, q=q)
        if s and prod(s) <= 400:
            self.put(d, s)
        elif s:
            self.emit(op="drop", d=d); self.sh.pop(d, None); self.pos.pop(d, None)
            if not self.sh:
                self.c_new()

    def c_self(self):
        d = self.any(); o = self.r.choice(["add", "sub", "mul"] + (["div"] if self.pos[d] else []))
        self.emit(op="ibin", o=o, d=d, q=d); self.pos[d] = False

    def c_badbin(self):
        s = self.shape(maxsize=20); t = list(s); k = self.r.randrange(len(s))
        t[k] = t[k] + 1 + self.r.randint(0, 1)
        if s[k] == 1:
            s[k] = t[k] + 1
        p, q = self.make(s, d=self.slot(0)), self.make(t, d=self.slot(0), kind="pos")
        if self.r.random() < 0.5:
            self.emit(op="bin", o=self.r.choice(OPS), d=self.slot(), p=p, q=q)
        else:
            self.emit(op="ibin", o=self.r.choice(OPS), d=p, q=q)
        self.emit(op="snap")

    def c_ibin(self):
        d = self.any(); o = self.r.choice(OPS)
        t = [x if self.r.random() < 0.6 else 1 for x in self.sh[d]]
        if self.r.random() < 0.3:
            t = t[self.r.randint(0, len(t) - 1):]
        if self.r.random() < 0.1:
            t = self.partner(self.sh[d])  # may be too large: rejected
        q = self.make(t, xs=[abs(x) + 0.5 for x in self.many(prod(t), "small")] if o == "div" else None, d=self.slot(0))
        self.emit(op="ibin", o=o, d=d, q=q); self.pos[d] = False
        if self.r.random() < 0.5:
            self.emit(op="snap")

    def c_scalar(self):
        p = self.any(); o = self.r.choice(OPS); w = self.r.random()
        v = self.one("nz" if o == "div" else "mix")
        d = self.slot()
        if self.r.random() < 0.3:
            i = self.r.randrange(prod(self.sh[p]))
            if w < 0.3:
                self.emit(op="fille", d=p, i=i)
            elif w < 0.5:
                if o == "div" and not self.pos[p]:  # the divisor may be zero: then there would be no d
                    o = "mul"
                self.emit(op="sce", o=o, d=d, p=p, i=i)
                self.put(d, self.sh[p])
            else:
                self.emit(op="isce", o=o, d=p, i=i); self.pos[p] = False
            return
        if w < 0.35:
            self.emit(op="sc", o=o, d=d, p=p, v=num(v)); self.put(d, self.sh[p])
        elif w < 0.6:
            if o == "div" and not self.pos[p]:
                o = "sub"
            self.emit(op="lsc", o=o, d=d, v=num(v), p=p); self.put(d, self.sh[p])
        elif w < 0.93:
            self.emit(op="isc", o=o, d=p, v=num(v)); self.pos[p] = False
        elif w < 0.965:
            self.emit(op="sc", o="div", d=d, p=p, v="0")
        else:
            self.emit(op="isc", o="div", d=p, v="0")

    def c_unary(self):
        p = self.any(); d = self.slot(); w = self.r.random()
        if w < 0.25:
            self.emit(op="neg", d=d, p=p); self.put(d, self.sh[p])
        elif w < 0.45:
            f = self.r.choice(FNS); self.emit(op="apply", d=d, f=f, p=p); self.put(d, self.sh[p])
        elif w < 0.65:
            f = self.r.choice(FNS); self.emit(op="iapply", f=f, d=p); self.pos[p] = False
        elif w < 0.8:
            q = self.make(self.shape(maxsize=24), kind="pos", d=self.slot(0))
            self.emit(op="sqrt", d=d, p=q); self.put(d, self.sh[q], True)
            if self.r.random() < 0.5:
                self.emit(op="isqrt", d=q)
        elif w < 0.9:
            xs = self.many(prod(self.sh[p]), "mix")
            q = self.make(self.sh[p], xs=xs, d=self.slot(0))
            if self.r.random() < 0.5:
                self.emit(op="recipd", d=d, p=q)
            else:
                self.emit(op="recip", d=d, p=q, v=num(self.r.choice([2.0 ** -10, 0.25, 1.0])))
            self.put(d, self.sh[p])
        else:
            q = self.any(lambda s: s == self.sh[p]); self.emit(op="pair", d=d, p=p, q=q); self.put(d, self.sh[p])

    def c_badpair(self):
        p = self.any(); q = self.any(lambda s: s != self.sh[p])
        if q is not None:
            self.emit(op="pair", d=self.slot(), p=p, q=q)

    def axes(self, s, empty=True):
        k = self.r.randint(0 if empty else 1, len(s))
        ax = self.r.sample(range(len(s)), k)
        return ax

    def c_reduce(self):
        p = self.any(); s = self.sh[p]; d = self.slot(0); w = self.r.random()
        keep = lambda ax: [1] if not ax or len(ax) == len(s) else [1 if i in ax else x for i, x in enumerate(s)]
        drop = lambda ax: [x for i, x in enumerate(s) if i not in ax] or [1]
        if w < 0.15:
            self.emit(op="sum", d=d, p=p); self.put(d, [1])
        elif w < 0.35:
            a = self.r.randrange(len(s)); self.emit(op="sumax", d=d, p=p, i=a); self.put(d, drop([a]))
        elif w < 0.6:
            ax = self.axes(s); self.emit(op="sumaxes", d=d, p=p, ax=ax); self.put(d, drop(ax))
        elif w < 0.65:
            self.emit(op="mean", d=d, p=p); self.put(d, [1])
        else:
            ax = self.axes(s); self.emit(op="meanaxes", d=d, p=p, ax=ax); self.put(d, keep(ax))
            if ax and self.r.random() < 0.7:
                v = self.slot(0); self.emit(op="varaxes", d=v, p=p, q=d, ax=ax); self.put(v, keep(ax))
            elif not ax:
                v = self.slot(0); self.emit(op="var", d=v, p=p, q=d); self.put(v, [1])
            if self.r.random() < 0.4:  # about a mean that is not the mean
                v = self.slot(0); q = self.make(keep(ax), kind="small", d=self.slot(0))
                self.emit(op="varaxes", d=v, p=p, q=q, ax=ax) if ax else self.emit(op="var", d=v, p=p, q=q)
                self.put(v, keep(ax))

    def c_badreduce(self):
        p = self.any(); s = self.sh[p]; n = len(s); w = self.r.random()
        bad = self.r.choice([n, n + 1, n + 3])
        ax = self.axes(s) + [bad]
        self.r.shuffle(ax)
        if w < 0.3:
            self.emit(op="sumax", d=self.slot(), p=p, i=bad)
        elif w < 0.65:
            self.emit(op="sumaxes", d=self.slot(), p=p, ax=ax)
        else:
            self.emit(op="meanaxes", d=self.slot(), p=p, ax=ax)

    def c_matmul(self):
        r = self.r
        m, k, n = r.randint(1, 5), r.randint(1, 6), r.randint(1, 5)
        b = [r.randint(1, 3)]
        c = r.choice(["11", "22", "22", "12", "21", "32", "23", "33", "44", "33"])
        sa, sb = {"11": ([k], [k]), "22": ([m, k], [k, n]), "12": ([k], [k, n]), "21": ([m, k], [k]),
                  "32": (b + [m, k], [k, n]), "23": ([m, k], b + [k, n]), "33": (b + [m, k], b + [k, n]),
                  "44": (b + [2, m, k], b + [2, k, n])}[c]
        if r.random() < 0.2:  # break it
            w = r.random()
            t = list(sb) if r.random() < 0.5 else list(sa)
            i = r.randrange(len(t))
            old = list(t)
            t[i] += 1
            if old == sb:
                sb = t
            else:
                sa = t
        p, q = self.make(sa, d=self.slot(0)), self.make(sb, d=self.slot(0))
        d = self.slot(0)
        self.emit(op="matmul", d=d, p=p, q=q)
        self.emit(op="drop", d=p); self.emit(op="drop", d=q)
        for x in (p, q):
            del self.sh[x]; del self.pos[x]
        # the slot may not exist when the call was rejected: not used again

    def c_transpose(self):
        p = self.any(lambda s: len(s) > 1)
        if p is None:
            return
        s = list(self.sh[p]); i, j = self.r.randrange(len(s)), self.r.randrange(len(s))
        d = self.slot(); self.emit(op="transpose", d=d, p=p, i=i, j=j)
        s[i], s[j] = s[j], s[i]
        self.put(d, s)
        if self.r.random() < 0.4:
            b = self.slot(0); self.emit(op="transpose", d=b, p=d, i=j, j=i)
            s[i], s[j] = s[j], s[i]
            self.put(b, s)

    def c_slice(self):
        p = self.any(lambda s: len(s) > 1)
        if p is None:
            return
        s = list(self.sh[p]); a = self.r.randrange(len(s)); i = self.r.randrange(s[a]); d = self.slot()
        self.emit(op="slice", d=d, p=p, i=a, j=i); del s[a]; self.put(d, s)
        if self.r.random() < 0.4:
            self.emit(op="setf", d=d, i=0, v=num(self.one())); self.emit(op="snap")

    def c_badslice(self):
        p = self.any(lambda s: len(s) > 1)
        if p is None:
            return
        s = self.sh[p]; a = self.r.randrange(len(s))
        w = self.r.random()
        if w < 0.3:
            self.emit(op="slice", d=self.slot(), p=p, i=self.r.choice([len(s), -1, len(s) + 2]), j=0)
        elif w < 0.8:
            self.emit(op="slice", d=self.slot(), p=p, i=a, j=self.r.choice([s[a], -1, s[a] + 1]))
        else:
            self.emit(op="transpose", d=self.slot(), p=p, i=self.r.randrange(len(s)), j=self.r.choice([len(s), len(s) + 1]))

    def c_view(self):
        d = self.any(); s = self.sh[d]
        st, en, sp = [], [], []
        for x in s:
            a = self.r.randrange(x); b = self.r.randint(a + 1, x)
            st.append(a - x if self.r.random() < 0.25 else a)
            if b < x and self.r.random() < 0.3:
                en.append(b - x)
            else:
                en.append(b + (self.r.randint(1, 3) if b == x and self.r.random() < 0.15 else 0))
            sp.append(self.r.choice([1, 1, 2, 3]))
        if self.r.random() < 0.12:  # nothing selected on one axis, or one bound missing
            k = self.r.randrange(len(s))
            if self.r.random() < 0.5:
                en[k] = st[k] if st[k] >= 0 else st[k] + s[k]
            else:
                st, en = st[:-1], en[:-1]
                if not st:
                    return
            self.emit(op="view", d=d, st=st, en=en, sp=sp)
            return
        self.emit(op="view", d=d, st=st, en=en, sp=sp)
        if self.r.random() < 0.5:
            ln = []
            for x, a, b, t in zip(s, st, en, sp):
                a = a + x if a < 0 else a
                b = min(b + x if b < 0 else b, x)
                ln.append((b - a + t - 1) // t)
            self.emit(op="viewset", d=d, st=st, en=en, sp=sp, ix=[self.r.randrange(n) for n in ln], v=num(self.one()))
            self.pos[d] = False
            self.emit(op="snap")

    def c_bview(self):
        d = self.any(); s = self.sh[d]
        t = [x if x > 1 else self.r.randint(1, 3) for x in s]
        if self.r.random() < 0.4:
            t = [self.r.randint(1, 3)] + t
        if prod(t) <= 200:
            self.emit(op="bview", d=d, s=t)

    def c_shapeop(self):
        s = self.shape(maxsize=600); t = self.partner(s)
        if self.r.random() < 0.3:
            t = self.shape(maxsize=600)
        if self.r.random() < 0.5:
            s, t = t, s
        self.emit(op="shapeop", s=s, s2=t)
        self.emit(op="shapeop", s=t, s2=s)
        ix = [self.r.randrange(x) for x in s]
        if self.r.random() < 0.3:
            k = self.r.randrange(len(s)); ix[k] = self.r.choice([-1, s[k]])
        elif self.r.random() < 0.2:
            ix = ix + [0]
        self.emit(op="flat", s=s, ix=ix)

    def c_text(self):
        d = self.slot(); s = self.r.choice([[self.r.randint(1, 14)], self.shape(maxsize=24)])
        if self.r.random() < 0.1:
            s = self.r.choice([[65], [100], [33, 3], [3, 5, 8], [1, 130], [257], [16, 16], [32, 32], [1025]])
        xs = self.many(prod(s))
        self.make(s, xs=xs, d=d)
        self.emit(op="str", d=d)

    def c_snap(self):
        self.emit(op="snap")

    def run(self, weights, n):
        names = list(weights)
        w = [weights[k] for k in names]
        self.c_new()
        self.c_new()
        while len(self.ev) < n:
            if not self.sh:
                self.c_new()
            # keep magnitudes and the number of tensors bounded
            if len(self.sh) > 7:
                self.c_drop()
            getattr(self, "c_" + self.r.choices(names, w)[0])()
            if self.r.random() < 0.08:  # keep values from growing along the history
                self.c_fill()
        self.emit(op="snap")
        return self.ev


FOCUS = {
    "P01": dict(new=3, copy=4, asg=4, move=3, masg=3, drop=2, eq=3, set=4, iter=1, fill=1, reshape=3, bin=2, self=4, ibin=2, scalar=2, unary=2, slice=3, transpose=2, view=2, reduce=1, matmul=1, snap=3),
    "P02": dict(copy=1, asg=2, masg=2, move=1, bin=1, transpose=0.5, slice=0.5, scalar=0.5, new=6, badnew=5, reshape=5, badreshape=4, get=5, badget=5, set=4, iter=4, shapeop=2, fill=1, eq=1, snap=1),
    "P03": dict(new=2, bin=10, badbin=4, shapeop=3, bview=3, self=1),
    "P04": dict(new=2, scalar=8, unary=8, ibin=5, self=3, badbin=2, badpair=1, snap=1),
    "P05": dict(new=4, reduce=10, badreduce=3),
    "P06": dict(matmul=10),
    "P07": dict(new=3, transpose=6, slice=6, badslice=3, view=8, snap=1),
    "P29": dict(new=2, text=6, unary=1, reshape=1),
}


def random_cases(pid, n, length, seed, elems=("f", "d")):
    out = []
    for i in range(n):
        rng = random.Random("%s-%s-%d" % (pid, seed, i))
        s = Script(rng)
        s.elem = elems[i % len(elems)]
        ev = s.run(FOCUS[pid], length)
        out.append(Case(elems[i % len(elems)], ev, "%s random program %d (seed %s)" % (pid, i, seed)))
    return out


class Big(Script):
    """Tensors with long dimensions."""

    def __init__(self, rng, elem):
        super().__init__(rng)
        self.elem = elem

    def long(self):
        return self.r.choice([9, 16, 17, 31, 33, 64, 65, 70, 100, 129])

    def spread(self, total, rank):
        """A shape of about `total` elements."""
        r = self.r
        s = [self.long()]
        while len(s) < rank:
            s.append(r.choice([1, 2, 3, 4, 5, 7]))
            if prod(s) > total:
                s[-1] = 1
        r.shuffle(s)
        return s

    def two(self):
        """A shape with two long dimensions."""
        return self.r.choice([[17, 33], [33, 17], [40, 20], [20, 41], [65, 9], [9, 70], [32, 32], [16, 64]])

    def step(self, pid):
        r = self.r
        if pid == "P06":
            c = r.choice(["22", "22", "21", "12", "33", "32", "23", "11", "44"])
            m, k, n = r.choice([(3, self.long(), 2), (self.long(), 3, 2), (2, 3, self.long()), (17, 9, 18), (33, 4, 16), (9, 20, 9)])
            if c in ("33", "32", "23", "44"):
                m, k, n = r.choice([(3, 17, 4), (9, 3, 10), (17, 4, 5)])
            if r.random() < 0.5:  # no favourite sizes
                while True:
                    m, k, n = (r.choice([1, r.randint(1, 12), r.randint(2, 9), r.randint(1, 30)]) for _ in range(3))
                    if m * k * n <= (600 if c in ("22", "21", "12", "11") else 250):
                        break
            b = [r.choice([2, 3, 5])]
            sa, sb = {"11": ([k], [k]), "22": ([m, k], [k, n]), "12": ([k], [k, n]), "21": ([m, k], [k]), "32": (b + [m, k], [k, n]), "23": ([m, k], b + [k, n]), "33": (b + [m, k], b + [k, n]),
                      "44": ([2] + b + [m, k], [2] + b + [k, n])}[c]
            self.emit(op="matmul", d=3, p=self.make(sa, d=1), q=self.make(sb, d=2))
            return
        s = self.two() if r.random() < 0.5 else self.spread(400, r.choice([1, 2, 3, 4]))
        if pid == "P02":
            w = r.random()
            if w < 0.15:
                self.emit(op="ident", d=1, i=r.randint(5, 40))
            elif w < 0.25:
                self.emit(op=r.choice(["ones1", "zeros1"]), d=1, i=r.randint(9, 700))
            elif w < 0.4:
                self.emit(op=r.choice(["ones", "zeros", "new"]), d=1, s=s)
            elif w < 0.5:
                self.emit(op=r.choice(["newv", "newtd", "newtdm"]), d=1, s=s, v=num(self.one()))
            else:
                self.emit(op=r.choice(["newl", "newm", "newp"]), d=1, s=s, l=vec(self.many(prod(s))))
                self.emit(op="get", d=1, ix=[r.randrange(x) for x in s])
                self.emit(op="get", d=1, ix=[x - 1 for x in s])
                self.emit(op="set", d=1, ix=[r.randrange(x) for x in s], v=num(self.one()))
                t = self.fac(prod(s))
                self.emit(op=r.choice(["reshape", "reshapev"]), d=1, s=t)
                self.emit(op="get", d=1, ix=[r.randrange(x) for x in t])
                self.emit(op="set", d=1, ix=[x - 1 - r.randrange((x + 1) // 2) for x in t], v=num(self.one()))
                self.emit(op="iter", d=1)
            return
        p = self.make(s, d=1)
        if pid == "P01":
            self.emit(op="copy", d=2, p=p)
            self.emit(op="eq", p=p, q=2)
            w = r.random()
            if w < 0.5:
                i = r.choice([prod(s) - 1, r.randrange(prod(s))])
                self.emit(op="setf", d=p, i=i, v=num(self.one()))
                self.emit(op="eq", p=2, q=p)
            t = r.choice([s, self.fac(prod(s)), self.two()])
            q = self.make(t, d=3)
            self.emit(op=r.choice(["asg", "asg", "masg"]), d=q, p=2)
            self.emit(op="snap")
            if w < 0.3:
                self.emit(op="setf", d=q, i=r.randrange(prod(s)), v=num(self.one()))
                self.emit(op="snap")
            elif w < 0.6:
                self.emit(op="move", d=4, p=p)
                self.emit(op="snap")
        elif pid == "P29":
            self.emit(op="str", d=p)
        elif pid == "P03":
            t = list(s)
            for i in range(len(t)):
                if r.random() < 0.3:
                    t[i] = 1
            t = t[r.choice([0, 0, 0, 1]):] or [1]
            o = r.choice(OPS)
            q = self.make(t, xs=[abs(x) + 0.5 for x in self.many(prod(t), "small")], d=2)
            self.emit(op="bin", o=o, d=3, p=p, q=q)
        elif pid == "P04":
            w = r.random()
            if w < 0.3:
                self.emit(op="pair", d=3, p=p, q=self.make(s, d=2))
            elif w < 0.5:
                self.emit(op="sc", o=r.choice(OPS), d=3, p=p, v="0x1.8p+0")
            elif w < 0.7:
                self.emit(op="isc", o=r.choice(OPS), d=p, v="0x1.8p+0")
            elif w < 0.85:
                self.emit(op="apply", d=3, f=r.choice(FNS), p=p)
            else:
                q = self.make(s, d=2, xs=[abs(x) + 0.5 for x in self.many(prod(s), "small")])
                self.emit(op="ibin", o=r.choice(OPS), d=p, q=q)
                self.emit(op="sqrt", d=3, p=q)
        elif pid == "P05":
            ax = sorted(r.sample(range(len(s)), r.randint(1, len(s))))
            w = r.random()
            if w < 0.3:
                self.emit(op="sumax", d=3, p=p, i=ax[0])
            elif w < 0.55:
                self.emit(op="sumaxes", d=3, p=p, ax=ax)
            elif w < 0.65:
                self.emit(op="sum", d=3, p=p)
            else:
                self.emit(op="meanaxes", d=3, p=p, ax=ax)
                self.emit(op="varaxes", d=4, p=p, q=3, ax=ax)
        else:
            if len(s) == 1:
                return
            i, j = r.randrange(len(s)), r.randrange(len(s))
            if r.random() < 0.6:
                self.emit(op="transpose", d=3, p=p, i=i, j=j)
            else:
                self.emit(op="slice", d=3, p=p, i=i, j=r.randrange(s[i]))


class Huge(Big):
    """One operation on thousands of elements: sizes at which code might switch to another path (blocks, threads, tables)."""

    def long(self):
        return self.r.choice([200, 256, 257, 511, 512, 513, 600])

    def size(self):
        return self.r.choice([1025, 1500, 2047, 2049, 4096, 4097, 5000, 5000, 10001, 16385])

    def spread(self, total, rank):
        r = self.r
        n = self.size()
        if rank == 1:
            return [n]
        if rank == 2:
            k = r.choice([3, 10, 31, 64, 65, 100, 129])
            s = [k, n // k + 1]
        elif rank == 3:
            k, j = r.choice([2, 5, 16, 33]), r.choice([3, 8, 17])
            s = [k, j, n // (k * j) + 1]
        else:
            s = [3, r.choice([4, 9]), 5, n // 100 + 1]
        r.shuffle(s)
        return s

    def two(self):
        return self.r.choice([[64, 65], [65, 33], [33, 65], [64, 64], [100, 41], [128, 20], [20, 129], [1, 3000], [3000, 1], [300, 7], [129, 129], [2, 8200]])

    def step(self, pid):
        r = self.r
        if pid == "P06":
            c = r.choice(["22", "22", "21", "12", "33", "32", "23", "11", "44"])
            if c == "11":
                k = self.size()
                sa, sb = [k], [k]
            elif c == "22":
                m, k, n = r.choice([(33, 17, 65), (65, 9, 33), (3, 300, 5), (64, 16, 64), (130, 5, 40), (40, 5, 130), (5, 1030, 2), (300, 2, 10), (2, 10, 300)])
                sa, sb = [m, k], [k, n]
            elif c in ("21", "12"):
                m, k = r.choice([(129, 33), (33, 129), (500, 3), (3, 1030), (64, 64)])
                sa, sb = ([m, k], [k]) if c == "21" else ([k], [k, m])
            else:
                b, m, k, n = r.choice([(40, 3, 5, 4), (2, 20, 9, 33), (3, 33, 7, 20), (70, 2, 3, 5), (2, 9, 129, 3)])
                sa, sb = {"32": ([b, m, k], [k, n]), "23": ([m, k], [b, k, n]), "33": ([b, m, k], [b, k, n]), "44": ([2, b // 2, m, k], [2, b // 2, k, n])}[c]
            self.emit(op="matmul", d=3, p=self.make(sa, d=1), q=self.make(sb, d=2))
            return
        super().step(pid)


def big_cases(n, seed, elem, pids=("P03", "P04", "P05", "P06", "P07"), steps=4, cls=Big):
    out = []
    for i in range(n):
        s = cls(random.Random("%s-%s-%s-%d" % (cls.__name__.lower(), seed, elem, i)), elem)
        for _ in range(steps):
            s.step(pids[i % len(pids)])
        out.append(Case(elem, s.ev, "%s %s tensors %d (seed %s)" % (pids[i % len(pids)], 'large' if cls is Big else cls.__name__.lower(), i, seed)))
    return out


class Extreme(Script):
    """Single operations on numbers from the whole range of the type.  A result that overflows is not used again."""

    def __init__(self, rng, elem):
        super().__init__(rng)
        self.lo, self.hi, self.bits = (-126, 127, 23) if elem == "f" else (-1022, 1023, 52)

    def one(self, kind="mix"):
        r = self.r
        m = 1 + r.choice([0, 0, r.randrange(1 << 12), (1 << 12) - 1]) / 4096.0
        w = r.random()
        if w < 0.25:  # below the smallest normal number
            v = r.choice([1, 2, 3, r.randint(1, 1 << 12), (1 << self.bits) - 1]) * 2.0 ** (self.lo - self.bits)
        elif w < 0.4:
            v = m * 2.0 ** self.lo
        elif w < 0.6:
            v = m * 2.0 ** self.hi
        elif w < 0.8:
            v = m * 2.0 ** r.randint(self.lo, self.hi)
        else:
            v = m * 2.0 ** r.randint(-4, 4)
        return v if kind == "abs" else r.choice([-1, 1]) * v

    def step(self, pid):
        r = self.r
        s = self.shape(maxsize=12)
        p = self.make(s, [self.one() for _ in range(prod(s))], d=1)
        if pid == "P03":
            t = self.partner(s)
            q = self.make(t, [self.one() for _ in range(prod(t))], d=2)
            self.emit(op="bin", o=r.choice(OPS), d=3, p=p, q=q)
            return
        w = r.random()
        if w < 0.25:
            self.emit(op="sc", o=r.choice(OPS), d=3, p=p, v=num(self.one()))
        elif w < 0.45:
            self.emit(op="lsc", o=r.choice(OPS), d=3, v=num(self.one()), p=p)
        elif w < 0.7:
            self.emit(op="isc", o=r.choice(OPS), d=p, v=num(self.one()))
        elif w < 0.85:
            q = self.make(s, [self.one() for _ in range(prod(s))], d=2)
            self.emit(op="ibin", o=r.choice(OPS), d=p, q=q)
        elif w < 0.95:
            q = self.make(s, [self.one("abs") for _ in range(prod(s))], d=2)
            self.emit(op="sqrt", d=3, p=q)
        else:
            self.emit(op="neg", d=3, p=p)


def extreme_cases(pid, n, seed, elem, steps=10):
    out = []
    for i in range(n):
        s = Extreme(random.Random("extreme-%s-%s-%s-%d" % (pid, seed, elem, i)), elem)
        for _ in range(steps):
            s.step(pid)
        out.append(Case(elem, s.ev, "%s extreme numbers %d (seed %s)" % (pid, i, seed)))
    return out
