"""P24: the random stream."""
from .core import Driver
from . import rng

NEED = ["seed", "draw", "trand", "trandn", "lnew", "dnew", "dmode", "dfwd"]


def stream(ctx):
    for e in "fd":
        drv = Driver("rng", e, ("-O0",))
        ctx.suite("random programs (%s)" % e, drv, rng.TABLE, "TraceRng", rng.random_cases(ctx.n(80, 1200), 60, ctx.seed, e), need=NEED)
        ctx.suite("many draws (%s)" % e, drv, rng.TABLE, "TraceRng", rng.long_cases(ctx.n(8, 100), ctx.seed, e))
    ctx.suite("optimised build", Driver("rng", "f", ("-O2",)), rng.TABLE, "TraceRng", rng.random_cases(ctx.n(20, 200), 60, "O2-%d" % ctx.seed, "f"))
    ctx.mc("MC_Rng", dict(Gen='"stream"', Depth=ctx.n(5, 7)), what="every program against a sound generator: nothing is refused")
    for g in ["constant", "deaf", "rewind", "pair", "ownclock"]:
        ctx.mc("MC_Rng", dict(Gen='"%s"' % g), what="an unsound generator is refused", expect_violation="Invariant Accepted is violated")
    ctx.suite("programs from the specification", Driver("rng", "d", ("-O0",)), rng.TABLE, "TraceRng", lambda s: [c for c in ctx.programs("MC_Rng", dict(Gen='"stream"', Depth=5), limit=ctx.n(400, 30000)) if c.events[1]["op"] == "seed"])
    ctx.assumptions += ["the seed is set before the first draw", "independence of draws is judged by difference of long values and by moments within 7 standard deviations"]
