"""C02: text stored in chunks reads exactly like contiguous text."""
from .. import core


def check(ctx):
    core.model_check(ctx, "MCCursor", "MCCursor_design.cfg")
    b = core.build(ctx, "core", ["text"])
    hist = core.generate(ctx, "MCCursor", "MCCursor_gen.cfg", timeout=800)
    hist += core.generate(ctx, "MCCursor", "MCCursor_gen2.cfg", timeout=800)
    if not ctx.quick:
        hist += core.generate(ctx, "MCCursor", "MCCursor_gen5.cfg", timeout=800)
    hist += core.generate(ctx, "MCCursor", "MCCursor_sim.cfg", args=["-simulate", "num=%d" % ctx.q(50, 1500), "-depth", "45", "-seed", str(ctx.seed)], workers="1")
    s = core.replay(ctx, b + "/text", "cursor", hist, "replay of specification cursor behaviours", args=[ctx.seed])
    ctx.notes["source_runs"] = s["runs"]
    return core.finish(ctx, assumptions=["positions and ranges lie at character boundaries inside the text"])
