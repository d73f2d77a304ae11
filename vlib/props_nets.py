"""P22, P23: whole models, from outside and with every internal call watched."""
from .core import Driver
from . import nets


def network(ctx):
    pid = ctx.pid
    deep, rates = 10, (0.0, 0.25, 0.5, 0.9)
    need = ["nnew", "nadd", "ncompile", "ntrain", "npredict", "npredictn", "nmode"]
    tapped = ["train_begin", "train_end", "predict_end", "predictn_end", "fwd", "bwd", "loss", "grad", "upd", "mmode"]
    ctx.suite("whole models", Driver("nets", "d", ("-O0",)), nets.TABLE, "TraceNet",
              nets.random_cases(pid, ctx.n(60, 800), deep, ctx.seed, "d", () if pid == "P22" else rates), need=need)
    for e in "fd":
        ctx.suite("watched models (%s)" % e, Driver("taps", e, ("-O0",)), nets.TAPS, "TraceTap",
                  nets.random_cases(pid, ctx.n(50, 700), deep, ctx.seed, e, rates, nets.TapScript), need=tapped)
    ctx.suite("watched models (memory checked)", Driver("taps", "d", ("-O0", "-fsanitize=address")), nets.TAPS, "TraceTap",
              nets.random_cases(pid, ctx.n(15, 200), deep, "asan-%d" % ctx.seed, "d", rates, nets.TapScript))
    ctx.assumptions += ["finite inputs and targets of the model's shapes, or shapes a layer refuses",
                        "values compared from outside only while training has not diverged (1e9)"]
