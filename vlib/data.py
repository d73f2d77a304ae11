"""Call scripts for the MNIST loader and the generated data sets."""
import random
from .core import Table, Case
from .gen import vec, prod, num
from .layers import typed

TABLE = Table("""
fput id by
fdel id
mldr l im lb batch n
mload l
art l t
lin n noise
linb n batch noise
""")


def be(n):
    return [(n >> 24) & 255, (n >> 16) & 255, (n >> 8) & 255, n & 255]


def img_file(r, k, rows, cols):
    how = r.random()
    px = [r.randrange(256) if how < 0.8 else r.choice([0, 255, 128, 127, 1]) for _ in range(k * rows * cols)]
    return be(2051) + be(k) + be(rows) + be(cols) + px


def lbl_file(r, k):
    return be(2049) + be(k) + [r.randrange(10) for _ in range(k)]


def spoil(r, b, image):
    """A damaged copy."""
    b = list(b)
    head = 16 if image else 8
    w = r.random()
    if w < 0.35:
        return b[:r.randrange(len(b))] if r.random() < 0.5 else b[:max(0, len(b) - r.randint(1, 3))]
    if w < 0.5:
        b[r.randrange(4)] ^= r.choice([1, 2, 128, 255])
    elif w < 0.65:
        b[4:8] = be(r.choice([0x7fffffff, 0x80000000, 0xffffffff, 1 << 16, int.from_bytes(bytes(b[4:8]), "big") + r.randint(1, 3)]))
    elif w < 0.75 and image:
        i = r.choice([8, 12])
        v = int.from_bytes(bytes(b[i:i + 4]), "big")
        b[i:i + 4] = be(r.choice([v + 1, v + 7, 0, 0xffffffff, 300]))
    elif not image and len(b) > 8:
        for _ in range(r.randint(1, 2)):
            b[r.randrange(8, len(b))] = r.choice([10, 11, 255, 128, 16])
    else:
        b = b[:r.randrange(head + 1)]
    return b


class DScript:
    def __init__(self, rng):
        self.r, self.ev = rng, []

    def emit(self, **e):
        self.ev.append(e)

    def pair(self, im, lb, size=None):
        r = self.r
        k = r.choices([0, 1, 2, 3, 5, 8, 13, 20], [1, 3, 3, 4, 4, 3, 2, 1])[0]
        rows, cols = size or (r.randint(1, 6), r.randint(1, 7))
        self.emit(op="fput", id=im, by=img_file(r, k, rows, cols))
        self.emit(op="fput", id=lb, by=lbl_file(r, k))
        return k

    def loader(self, l, im, lb, k):
        r = self.r
        n = r.choice([-1, -1, 0, k, r.randint(0, k), max(0, k - 1)])
        self.emit(op="mldr", l=l, im=im, lb=lb, batch=r.choice([1, 1, 2, 3, 4, 5, k + 1, max(1, k), 32, 1000]), n=n)

    def good(self, n):
        r = self.r
        k = {}
        where = {}
        for s in range(r.choice([1, 1, 2])):
            k[s] = self.pair(2 * s + 1, 2 * s + 2, (28, 28) if r.random() < 0.04 else None)
        self.loader(1, 1, 2, k[0])
        where[1] = 0
        while len(self.ev) < n:
            w = r.random()
            if w < 0.55:
                self.emit(op="mload", l=r.choice(list(where)))
            elif w < 0.75:
                s = r.choice(list(k))
                l = r.randint(1, 3)
                self.loader(l, 2 * s + 1, 2 * s + 2, k[s])
                where[l] = s
            else:
                s = r.choice(list(k))
                k[s] = self.pair(2 * s + 1, 2 * s + 2)
                for l, t in where.items():
                    if t == s:
                        self.loader(l, 2 * s + 1, 2 * s + 2, k[s])
        for l in where:
            self.emit(op="mload", l=l)
        return self.ev

    def bad(self, n):
        r = self.r
        k = self.pair(1, 2)
        self.loader(1, 1, 2, k)
        while len(self.ev) < n:
            w = r.random()
            if w < 0.15:
                k = self.pair(1, 2)
            elif w < 0.25:
                self.emit(op="fdel", id=r.choice([1, 2]))
            else:
                last = {e["id"]: e["by"] for e in self.ev if e["op"] == "fput"}
                i = r.choice([1, 2])
                if r.random() < 0.5:
                    self.pair(1, 2)
                    last = {e["id"]: e["by"] for e in self.ev if e["op"] == "fput"}
                if len(last[i]) > 1:
                    self.emit(op="fput", id=i, by=spoil(r, last[i], i == 1))
            batch = r.choice([1, 2, 3, 7])
            self.emit(op="mldr", l=1, im=1, lb=2, batch=batch, n=r.choice([-1, -1, -1, 1, 2, k, k + 1, k + 5]))
            self.emit(op="mload", l=1)
            if r.random() < 0.3:
                self.emit(op="mload", l=1)
        return self.ev


def mnist_cases(pid, n, length, seed, elem):
    out = []
    for i in range(n):
        s = DScript(random.Random("%s-%s-%s-%d" % (pid, seed, elem, i)))
        ev = s.good(length) if pid == "P25" else s.bad(length)
        out.append(Case(elem, ev, "%s random program %d (seed %s)" % (pid, i, seed)))
    return out


def art_cases(n, seed, elem):
    out = []
    for i in range(n):
        r = random.Random("art-%s-%s-%d" % (seed, elem, i))
        s = DScript(r)
        s.emit(op="mldr", l=1, im=1, lb=2, batch=1, n=-1)
        for _ in range(8):
            shape = [r.randint(1, 3) for _ in range(r.choice([0, 1, 2, 2, 3]))] + [r.randint(1, 9), r.randint(1, 9)]
            if r.random() < 0.1:
                shape[-2:] = [28, 28]
            def px():
                w = r.random()
                return typed(elem, r.randrange(256) / 255.0 if w < 0.6 else r.randint(0, 10) / 10.0 if w < 0.85 else r.random() if w < 0.95 else r.uniform(1, 3))
            s.emit(op="art", l=1, t=dict(s=shape, d=vec([px() for _ in range(prod(shape))])))
        out.append(Case(elem, s.ev, "art %d (seed %s)" % (i, seed)))
    return out


def linear_cases(n, big, seed):
    out = []
    for i in range(n):
        r = random.Random("linear-%s-%d" % (seed, i))
        ev = []
        for _ in range(6):
            noise = num(r.choice([0.0, 0.0, 1.0, 0.5, 2.0, 4.0, 0.125]))
            k = r.choice([0, 1, 2, 3, 7, 10, 33, 100])
            ev.append(dict(op="lin", n=k, noise=noise) if r.random() < 0.4 else dict(op="linb", n=k, batch=r.choice([1, 2, 3, 4, 10, 32, max(1, k), k + 1]), noise=noise))
        out.append(Case("f", ev, "linear data %d (seed %s)" % (i, seed)))
    for i in range(big):
        r = random.Random("linear-big-%s-%d" % (seed, i))
        k, noise = r.choice([3000, 4000, 5000]) + r.randint(0, 60), num([1.0, 0.5, 3.0, 2.0, 8.0, 0.25][i // 2 % 6])
        out.append(Case("f", [dict(op="lin", n=k, noise=noise) if i % 2 else dict(op="linb", n=k, batch=r.choice([64, 100, 7, k]), noise=noise)], "many samples %d (seed %s)" % (i, seed)))
    return out
