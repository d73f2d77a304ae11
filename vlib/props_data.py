"""P25, P26: MNIST files; P27: generated data; the rendering of P29."""
from .core import Driver
from . import data

ASAN = ("-O0", "-fsanitize=address")


def mnist(ctx):
    pid = ctx.pid
    n = ctx.n(60, 800) if pid == "P25" else ctx.n(120, 1500)
    for e in "fd":
        ctx.suite("random files (%s)" % e, Driver("data", e, ("-O0",)), data.TABLE, "TraceData", data.mnist_cases(pid, n, 24, ctx.seed, e), need=["fput", "mldr", "mload"] + ["fdel"] * (pid == "P26"))
    ctx.suite("random files (memory checked)", Driver("data", "f", ASAN), data.TABLE, "TraceData", data.mnist_cases(pid, ctx.n(30, 200), 24, "asan-%d" % ctx.seed, "f"))
    c = dict(Focus='"good"', MaxCount=ctx.n(3, 5), MaxBatch=ctx.n(4, 7)) if pid == "P25" else dict(Focus='"bad"', MaxCount=3, MaxBatch=ctx.n(2, 4))
    ctx.mc("MC_Mnist", c, what="all small files, batch sizes and limits: concatenation, batch sizes, labels, refusals")
    ctx.suite("files from the specification", Driver("data", "f", ("-O0",)), data.TABLE, "TraceData", lambda s: ctx.programs("MC_Mnist", c, elem="f", limit=ctx.n(1200, 60000)))
    ctx.assumptions += ["batch sizes are positive", "rows times columns of a header fit an int; image sizes up to 300 x 300", "limits are -1 or not negative"]


def linear(ctx):
    ctx.suite("generated data", Driver("data", "f", ("-O0",)), data.TABLE, "TraceData", data.linear_cases(ctx.n(60, 600), ctx.n(12, 120), ctx.seed), need=["lin", "linb"], chunk=400000)
    ctx.mc("MC_Data", dict(MaxN=ctx.n(20, 60), MaxBatch=ctx.n(22, 64)), what="batch counts and sizes; the statistics accept their model and refuse its neighbours")
    ctx.assumptions += ["sample counts are not negative, batch sizes positive, noise not negative", "statistical bounds: 7 standard deviations"]


def art(ctx):
    for e in "fd":
        ctx.suite("renderings (%s)" % e, Driver("data", e, ("-O0",)), data.TABLE, "TraceData", data.art_cases(ctx.n(60, 800), ctx.seed, e), need=["art"])
