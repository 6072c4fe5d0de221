"""C03: offsets and line/column positions convert consistently."""
from .. import core


def check(ctx):
    core.model_check(ctx, "MCLines", "MCLines_design.cfg")
    b = core.build(ctx, "core", ["text"])
    texts = core.generate(ctx, "MCLines", ctx.q("MCLines_gen.cfg", "MCLines_gen6.cfg"), timeout=800)
    texts += core.generate(ctx, "MCLines", "MCLines_sim.cfg", args=["-simulate", "num=%d" % ctx.q(300, 5000), "-depth", "20", "-seed", str(ctx.seed)], workers="1")
    core.replay(ctx, b + "/text", "lines", texts, "positions of every offset of every text", args=[ctx.seed])
    return core.finish(ctx, assumptions=["lines end at line feeds; columns count UTF-16 units"])
