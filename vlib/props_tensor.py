"""P01-P07 and the tensor part of P29."""
from .core import Driver
from . import tensors

ASAN = ("-O0", "-fsanitize=address")
PURE = {"bin", "matmul", "sumaxes", "sumax", "sum", "mean", "meanaxes", "slice", "transpose", "view", "get", "new", "eq"}
NEED = {
    "P01": ["copy", "asg", "move", "masg", "eq", "reshape", "ibin", "slice", "snap", "drop"],
    "P02": ["new", "newl", "newm", "newi", "newv", "ones", "zeros", "ident", "get", "set", "getf", "setf", "reshape", "areshape"],
    "P03": ["bin"],
    "P04": ["sc", "lsc", "isc", "ibin", "neg", "sqrt", "apply", "iapply", "recip"],
    "P05": ["sum", "sumax", "sumaxes", "mean", "meanaxes", "var", "varaxes"],
    "P06": ["matmul"],
    "P07": ["transpose", "slice", "view", "viewset"],
    "P29": ["str"],
}
# model-checking scopes: (kind, quick depth, quick dim, thorough depth, thorough dim), programs replayed in quick mode
KIND = {
    "P01": [("alias", 5, 2, 7, 2, 4, 800)],
    "P02": [("index", 2, 2, 2, 2, 2, 1500)],
    "P03": [("arith", 3, 2, 3, 3, 3, 800)],
    "P04": [("arith", 4, 2, 4, 2, 3, 800)],
    "P05": [("reduce", 2, 2, 2, 3, 2, 1200)],
    "P06": [("product", 3, 2, 3, 3, 3, 400)],
    "P07": [("rearr", 2, 2, 2, 3, 2, 600), ("view", 2, 2, 2, 3, 2, 1500)],
}
LAWS = {"P02": "OffsetBijection ReshapeKeeps", "P03": "BroadcastRule Elementwise", "P05": "Reductions Variance", "P06": "Products", "P07": "Transposes Slices Views"}


def drivers():
    return {e: Driver("tensor", e, ("-O0",)) for e in "fd"}


def tensor(ctx):
    pid = ctx.pid
    drv = drivers()
    asan = Driver("tensor", "d", ASAN)
    n, length = ctx.n(120, 1500), 80
    for e in "fd":
        ctx.suite("random programs (%s)" % e, drv[e], tensors.TABLE, "TraceStore", tensors.random_cases(pid, n, length, ctx.seed, (e,)), internals=tensors.INTERNALS, need=NEED[pid])
    ctx.suite("random programs (memory checked)", asan, tensors.TABLE, "TraceStore", tensors.random_cases(pid, ctx.n(100 if pid == "P01" else 40, 400), length, "asan-%d" % ctx.seed, ("d",)), internals=tensors.INTERNALS)
    for e in "fd":
        ctx.suite("large tensors (%s)" % e, drv[e], tensors.TABLE, "TraceStore", tensors.big_cases(ctx.n(dict(P02=48, P06=110).get(pid, 24), 500), ctx.seed, e, (pid,)), internals=tensors.INTERNALS)
        ctx.suite("huge tensors (%s)" % e, drv[e], tensors.TABLE, "TraceStore", tensors.big_cases(ctx.n(16 if pid == "P06" else 10, 120), ctx.seed, e, (pid,), 2, tensors.Huge), internals=tensors.INTERNALS)
    if pid in ("P03", "P04"):
        for e in "fd":
            ctx.suite("extreme numbers (%s)" % e, drv[e], tensors.TABLE, "TraceStore", tensors.extreme_cases(pid, ctx.n(60, 1000), ctx.seed, e), internals=tensors.INTERNALS)
    for kind, qd, qs, td, ts, pd, lim in KIND.get(pid, []):
        small, depth = (qs, qd) if ctx.quick else (ts, td)
        ctx.mc("MC_Store", dict(Kind='"%s"' % kind, Depth=depth, Small=small), what="every program of %s calls in scope" % kind)
        ctx.suite("programs from the specification (%s)" % kind, drv["d"], tensors.TABLE, "TraceStore",
                  lambda s, kind=kind, pd=pd, small=small, lim=lim: ctx.programs("MC_Store", dict(Kind='"%s"' % kind, Depth=pd, Small=small), limit=lim if ctx.quick else 30000, merge=PURE),
                  internals=tensors.INTERNALS)
        ctx.suite("simulated programs (%s)" % kind, drv["f"], tensors.TABLE, "TraceStore",
                  lambda s, kind=kind: ctx.programs("MC_Store", dict(Kind='"%s"' % kind, Depth=14, Small=3), elem="f", simulate=(ctx.n(40, 600), 14), limit=ctx.n(150, 4000)),
                  internals=tensors.INTERNALS) if kind == "alias" else None
    if pid in LAWS:
        ctx.mc("MC_Algebra", dict(MaxRank=ctx.n(3, 4), Small=ctx.n(2, 3), PairRank=ctx.n(2, 3)), drop=("INVARIANTS",), add="INVARIANTS " + LAWS[pid], what="laws: " + LAWS[pid])
    ctx.assumptions += ["inputs are finite; no zero element in a tensor divisor", "tensors up to 20000 elements"]
