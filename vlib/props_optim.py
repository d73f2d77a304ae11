"""P17-P20: optimizers."""
from .core import Driver
from . import optim


def optimizer(ctx):
    pid = ctx.pid
    for e in "fd":
        drv = Driver("opt", e, ("-O0",))
        need = ["onew", "opt", "pall", "pput", "passign", "ocopy"]
        ctx.suite("random programs (%s)" % e, drv, optim.TABLE, "TraceOpt", optim.random_cases(pid, ctx.n(90, 1200), 45, ctx.seed, e), need=need)
        ctx.suite("long runs (%s)" % e, drv, optim.TABLE, "TraceOpt", optim.long_cases(pid, ctx.n(16, 120), ctx.n(120, 600), ctx.seed, e))
        ctx.suite("large tensors (%s)" % e, drv, optim.TABLE, "TraceOpt", optim.large_cases(pid, ctx.n(8, 60), ctx.seed, e))
    ctx.suite("random programs (memory checked)", Driver("opt", "d", ("-O0", "-fsanitize=address")), optim.TABLE, "TraceOpt", optim.random_cases(pid, ctx.n(25, 250), 45, "asan-%d" % ctx.seed, "d"))
    kinds = [optim.KIND[pid]] if pid in optim.KIND else ["sgd", "rms", "adam"]
    for k in kinds:
        for c in (1, 2, 3) if pid in optim.KIND or not ctx.quick else (2,):
            const = dict(Kind='"%s"' % k, Config=c, Depth=ctx.n(3, 4))
            ctx.mc("MC_Opt", const, what="every program of %s calls, options %d: closed form, isolation, grouping" % (k, c))
            ctx.suite("programs from the specification (%s %d)" % (k, c), Driver("opt", "d", ("-O0",)), optim.TABLE, "TraceOpt",
                      lambda s, const=const: ctx.programs("MC_Opt", dict(const, Depth=3), limit=ctx.n(400, 30000)))
    ctx.assumptions += ["gradients have the shape of their parameter and are finite", "a parameter tensor stays where it is while an optimizer is used with it; no tensor occurs twice in a call", "Adam and RMSProp have a positive epsilon"]
