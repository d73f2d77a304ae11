"""P21: how a model drives its parts; the progress lines of P29."""
from .core import Driver
from . import model

NEED = ["train_begin", "train_end", "predict_end", "predictn_end", "back_end", "update_end", "fwd", "bwd", "loss", "grad", "upd", "mmode", "mget", "mcompile"]


def control(ctx):
    """P21 and, with the text of the lines judged, P29."""
    text = ctx.pid == "P29"
    const = dict(CheckText="TRUE" if text else "FALSE")
    for e in "fd":
        drv = Driver("model", e, ("-O0",))
        ctx.suite("random programs (%s)" % e, drv, model.TABLE, "TraceModel", model.random_cases(ctx.pid, ctx.n(150, 2500), 14, ctx.seed, e), need=NEED, const=const)
    ctx.suite("random programs (memory checked)", Driver("model", "d", ("-O0", "-fsanitize=address")), model.TABLE, "TraceModel", model.random_cases(ctx.pid, ctx.n(40, 400), 14, "asan-%d" % ctx.seed, "d"), const=const)
    if text:
        return
    ctx.suite("many layers, long runs", Driver("model", "f", ("-O0",)), model.TABLE, "TraceModel", model.random_cases(ctx.pid, ctx.n(10, 100), 30, "deep-%d" % ctx.seed, "f", maxdepth=24), const=const)
    scopes = [(0, 2, 2, 2), (1, 1, 2, 2), (2, 2, 1, 1), (3, 1, 1, 2)] if ctx.quick else [(0, 3, 2, 2), (1, 2, 2, 2), (2, 1, 2, 2), (2, 2, 2, 1), (3, 2, 1, 1), (4, 1, 1, 2)]
    for layers, calls, samples, epochs in scopes:
        c = dict(Layers=layers, Calls=calls, Samples=samples, Epochs=epochs)
        ctx.mc("MC_Control", c, what="every program, every order of calls, an exception at every call: order, counts, composition, termination")
    for layers, calls, samples, epochs in [(0, 2, 2, 2), (1, 2, 2, 1), (2, 2, 1, 2), (3, 1, 2, 2)]:
        c = dict(Layers=layers, Calls=calls, Samples=samples, Epochs=epochs)
        ctx.suite("programs from the specification (%d layers)" % layers, Driver("model", "d", ("-O0",)), model.TABLE, "TraceModel", lambda s, c=c: ctx.programs("MC_Control", c, limit=ctx.n(500, 20000), view="Outline"), const=const)
    ctx.assumptions += ["models are compiled before they are trained; as many targets as inputs", "an index handed to getLayer exists"]
