"""Shapes, numbers and script building blocks for the case generators.  Only shapes are computed here; every value is judged by the specification."""
import itertools, math, random, re

HEX = float.hex


def num(x):
    """A number as the drivers and the specification read it."""
    if x == int(x) and abs(x) < 1e15:
        return str(int(x))
    return re.sub(r"\.?0*p", "p", HEX(float(x)))  # (as printf writes it)


def vec(xs):
    return " ".join(num(x) for x in xs)


def prod(s):
    p = 1
    for d in s:
        p *= d
    return p


def bshape(a, b):
    n = max(len(a), len(b))
    a2, b2 = [1] * (n - len(a)) + list(a), [1] * (n - len(b)) + list(b)
    if any(x != y and x != 1 and y != 1 for x, y in zip(a2, b2)):
        return None
    return [max(x, y) for x, y in zip(a2, b2)]


class Values:
    """Numbers that are exact in float and in double, from several distributions."""

    def __init__(self, rng):
        self.r = rng

    def one(self, kind="mix"):
        r = self.r
        if kind == "mix":
            kind = r.choices(["int", "small", "frac", "wide", "big", "tiny", "edge"], [4, 4, 5, 2, 1, 1, 1])[0]
        if kind == "int":
            return float(r.randint(-9, 9))
        if kind == "small":
            return r.randint(-64, 64) / 32.0
        if kind == "frac":
            return r.randint(-(1 << 20), 1 << 20) / float(1 << 18)
        if kind == "wide":
            return r.choice([-1, 1]) * r.randint(1, 1 << 12) * 2.0 ** r.randint(-18, 8)
        if kind == "big":
            return r.choice([-1, 1]) * r.randint(1, 1 << 16) * 2.0 ** r.randint(0, 14)
        if kind == "tiny":
            return r.choice([-1, 1]) * r.randint(1, 1 << 10) * 2.0 ** r.randint(-40, -20)
        if kind == "edge":
            return r.choice([0.0, 1.0, -1.0, 0.5, 2.0, -0.25])
        if kind == "pos":
            return r.randint(1, 1 << 16) / float(1 << r.randint(6, 16))
        if kind == "nz":
            v = 0.0
            while v == 0:
                v = self.one("mix")
            return v
        if kind == "unit":  # within [-1, 1]
            return r.randint(-(1 << 16), 1 << 16) / float(1 << 16)
        raise ValueError(kind)

    def many(self, n, kind="mix"):
        if kind == "mix" and self.r.random() < 0.5:
            kind = self.r.choice(["int", "small", "frac", "mix"])
        return [self.one(kind) for _ in range(n)]

    def distinct(self, n):
        """n different numbers, so that a misplaced element shows."""
        xs = [(i + 1) / 8.0 for i in range(n)]
        self.r.shuffle(xs)
        return [x * self.r.choice([-1, 1]) for x in xs]

    def shape(self, rank=None, maxdim=5, maxsize=60):
        while True:
            k = rank or self.r.choices([1, 2, 3, 4, 5, 6, 7], [3, 5, 4, 3, 1.2, 0.6, 0.2])[0]
            s = [self.r.choices([1, 2, 3, 4, 5, 6, 7, 8], [3, 4, 4, 3, 2, 1, 1, 1])[0] for _ in range(k)]
            s = [min(d, maxdim) for d in s]
            if prod(s) <= maxsize:
                return s

    def fac(self, n, rank=None):
        """A random shape with n elements."""
        k = rank or self.r.choice([1, 2, 2, 3, 3, 4, 4, 5, 6])
        s = [1] * k
        m = n
        p = 2
        while m > 1:
            if m % p == 0:
                s[self.r.randrange(k)] *= p
                m //= p
            else:
                p += 1
        return s

    def partner(self, s):
        """A shape that broadcasts with s (either may be the larger one)."""
        t = [d if self.r.random() < 0.6 else 1 for d in s]
        if self.r.random() < 0.3:
            t = t[self.r.randint(0, len(t) - 1):]
        elif self.r.random() < 0.2 and prod(s) < 30:
            t = [self.r.randint(1, 3)] + t
        if self.r.random() < 0.2:
            t = [self.r.randint(1, 4) if d == 1 and (len(s) >= len(t) and s[len(s) - len(t) + i] == 1) else d for i, d in enumerate(t)]
        return t
