"""P08-P16: activations, layers, losses."""
from .core import Driver
from . import layers

NEED = {"P08": ["afwd"], "P09": ["abwd", "lfwd", "lbwd"], "P16": ["lossv", "lossg"]}
LEN = {"P11": 30, "P12": 30, "P14": 25}
# kind and number of configurations of MC_Layers
KIND = {"P08": ("act", 3), "P09": ("act", 3), "P10": ("fc", 2), "P11": ("conv", 3), "P12": ("pool", 3), "P13": ("flat", 1), "P14": ("bn", 2), "P15": ("drop", 1)}
# laws of MC_LayerLaws: kind, invariants, scope of the thorough run
GENERAL = "Gradient Linear Batches BatchGradients "
LAWS = {
    "P08": ("act", "Batches Activations1 Softmax1", 3), "P09": ("act", GENERAL + "Activations1", 3),
    "P10": ("fc", GENERAL + "FullyConnected", 4), "P11": ("conv", GENERAL + "Convolution", 3), "P12": ("pool", GENERAL + "Pooling", 3),
    "P13": ("flat", GENERAL + "Flattening", 3), "P14": ("bn", "Gradient Linear Normalisation", 4), "P16": ("loss", "LossesRight", 3),
}


def layer(ctx):
    pid = ctx.pid
    need = NEED.get(pid, ["lnew", "lfwd", "lbwd", "lmode"])
    drv = {e: Driver("layers", e, ("-O0",)) for e in "fd"}
    for e in "fd":
        ctx.suite("random programs (%s)" % e, drv[e], layers.TABLE, "TraceLayers", layers.random_cases(pid, ctx.n(100, 1200), LEN.get(pid, 50), ctx.seed, (e,)), need=need)
    ctx.suite("random programs (memory checked)", Driver("layers", "d", ("-O0", "-fsanitize=address")), layers.TABLE, "TraceLayers", layers.random_cases(pid, ctx.n(25, 250), LEN.get(pid, 50), "asan-%d" % ctx.seed, ("d",)))
    for e in "fd":
        ctx.suite("large layers (%s)" % e, drv[e], layers.TABLE, "TraceLayers", layers.large_cases(pid, ctx.n(12, 150), ctx.seed, e))
        ctx.suite("huge layers (%s)" % e, drv[e], layers.TABLE, "TraceLayers", layers.large_cases(pid, ctx.n(8, 80), ctx.seed, e, layers.Huge))
    if pid == "P15":
        for e in "fd":
            ctx.suite("mask statistics (%s)" % e, drv[e], layers.TABLE, "TraceLayers", layers.mask_cases(ctx.n(12, 120), ctx.seed, e, ctx.n(60, 200)), need=["lmany"])
    if pid in LAWS:
        kind, inv, small = LAWS[pid]
        ctx.mc("MC_LayerLaws", dict(Kind='"%s"' % kind, Small=ctx.n(2, small)), drop=("INVARIANTS",), add="INVARIANTS " + inv, what="laws: " + inv)
    if pid in KIND:
        kind, configs = KIND[pid]
        for c in range(1, configs + 1):
            depth = (3 if kind == "drop" else 4) if ctx.quick else (4 if kind == "drop" else 5)
            ctx.mc("MC_Layers", dict(Kind='"%s"' % kind, Config=c, Depth=depth), what="every program of %d calls on two layers (%s, configuration %d)" % (depth, kind, c))
            ctx.suite("programs from the specification (%s %d)" % (kind, c), drv["d"], layers.TABLE, "TraceLayers",
                      lambda s, c=c: ctx.programs("MC_Layers", dict(Kind='"%s"' % kind, Config=c, Depth=3), limit=ctx.n(500, 20000)))
            ctx.suite("simulated programs (%s %d)" % (kind, c), drv["f"], layers.TABLE, "TraceLayers",
                      lambda s, c=c: ctx.programs("MC_Layers", dict(Kind='"%s"' % kind, Config=c, Depth=10), elem="f", simulate=(ctx.n(30, 400), 12), limit=ctx.n(60, 3000)))
    ctx.assumptions += ["inputs are finite", "upstream gradients have the shape of the output"]
