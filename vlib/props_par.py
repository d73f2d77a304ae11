"""P28: parallel builds."""
from .core import Driver
from . import tensors, layers, optim, rng

WRAP = "-Wl," + ",".join("--wrap=" + f for f in "memcpy memmove memset __cxa_guard_acquire __cxa_guard_release pthread_mutex_lock pthread_mutex_unlock".split())


def recorded(family, elem="d"):
    """Parallel regions executed one thread at a time, all memory accesses recorded."""
    return Driver(family, elem, ("-O0", "-fopenmp", "-fsanitize=thread"), ("-pthread", WRAP), ("par_shim.cpp",))


def programs(family, n, seed, elem, length=40):
    """Cases of a driver family that reach its operations on whole tensors."""
    if family == "tensor":
        per = {"P03": n, "P04": n, "P05": n // 2, "P06": 2 * n, "P07": n}
        return [c for p, k in per.items() for c in tensors.random_cases(p, k, length, "par-%s" % seed, (elem,))] + tensors.big_cases(n, "par-%s" % seed, elem)
    if family == "layers":
        return [c for p in ("P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16") for c in layers.random_cases(p, max(2, n // 2), 25, "par-%s" % seed, (elem,))]
    if family == "opt":
        return optim.random_cases("P20", n, 30, "par-%s" % seed, elem) + optim.large_cases("P19", max(2, n // 8), "par-%s" % seed, elem) + optim.large_cases("P20", max(2, n // 8), "par2-%s" % seed, elem)
    return rng.random_cases(n, 40, "par-%s" % seed, elem)


FAMILIES = {"tensor": (tensors.TABLE, "TraceStore"), "layers": (layers.TABLE, "TraceLayers"), "opt": (optim.TABLE, "TraceOpt"), "rng": (rng.TABLE, "TraceRng")}


def parallel(ctx):
    n = ctx.n(8, 60)
    for fam, (table, module) in FAMILIES.items():
        intern = tensors.INTERNALS if fam == "tensor" else ()
        for th, order in ctx.n([(64, "down"), (3, "7")], [(64, "up"), (64, "down"), (64, "11"), (2, "down"), (3, "5"), (5, "9"), (16, "13")]):
            ctx.suite("recorded regions, %d threads, order %s (%s)" % (th, order, fam), recorded(fam), table, module, lambda s, fam=fam, th=th, order=order: programs(fam, n, "%d-%d-%s" % (ctx.seed, th, order), "d"),
                      env=dict(PAR_THREADS=str(th), PAR_ORDER=order), internals=intern)
        for th, opt, elem in ctx.n([(4, "-O0", "d"), (7, "-O2", "f")], [(2, "-O0", "d"), (3, "-O2", "f"), (8, "-O0", "f"), (16, "-O2", "d"), (5, "-O3", "f")]):
            ctx.suite("%d threads, %s (%s)" % (th, opt, fam), Driver(fam, elem, (opt, "-fopenmp")), table, module, lambda s, fam=fam, th=th, opt=opt, elem=elem: programs(fam, n, "%d-%d-%s" % (ctx.seed, th, opt), elem),
                      env=dict(OMP_NUM_THREADS=str(th), OMP_DYNAMIC="false"), internals=intern)
    ctx.mc("MC_Parallel", what="every program of two threads, every interleaving")
    ctx.mc("MC_Parallel", dict(Cells=3), what="every program of two threads, three cells")
    if not ctx.quick:
        ctx.mc("MC_Parallel", dict(Steps=3), workers=4, heap="6g", what="every program of two threads with three steps")
    for r in ("writes", "none"):
        ctx.mc("MC_Parallel", dict(Rule='"%s"' % r), what="weaker rules do not imply it", expect_violation="Invariant Same is violated")
    ctx.assumptions += ["accesses inside calls into the C++ run-time library are not recorded, apart from memcpy, memmove and memset", "calls of the library from several threads of the application are outside the property"]
