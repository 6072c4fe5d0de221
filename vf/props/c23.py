"""C23: diagnostics point at the place and source of the error."""
from .. import core


def check(ctx):
    core.model_check(ctx, "MCDiagnostics", "MCDiagnostics_design.cfg")
    b = core.build(ctx, "core", ["diag"])
    errs = core.generate(ctx, "MCDiagnostics", ctx.q("MCDiagnostics_gen.cfg", "MCDiagnostics_gen3.cfg"), timeout=800)
    errs += core.generate(ctx, "MCDiagnostics", "MCDiagnostics_gen4.cfg", args=["-simulate", "num=%d" % ctx.q(250, 6000), "-depth", "8", "-seed", str(ctx.seed)], workers="1")
    s = core.replay(ctx, b + "/diag", "errors", errs, "errors raised, passed on and rendered")
    ctx.notes["error_steps"] = s["steps"]
    labels = core.generate(ctx, "MCDiagnostics", ctx.q("MCDiagnostics_labels.cfg", "MCDiagnostics_labels5.cfg"), timeout=800)
    labels += core.generate(ctx, "MCDiagnostics", "MCDiagnostics_labelsim.cfg", args=["-simulate", "num=%d" % ctx.q(12, 300), "-depth", "17", "-seed", str(ctx.seed)], workers="1")
    s = core.replay(ctx, b + "/diag", "labels", labels, "labels rendered")
    ctx.notes["labels_rendered"] = s["steps"]
    return core.finish(ctx)
