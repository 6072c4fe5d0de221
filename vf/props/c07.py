"""C07: backtracking restores the parser exactly; the tree keeps every token once."""
from .. import core


def check(ctx):
    core.model_check(ctx, "MCParsing", "MCParsing_design.cfg")
    b = core.build(ctx, "core", ["parsing"])
    h = core.generate(ctx, "MCParsing", "MCParsing_gen.cfg", timeout=800)
    if not ctx.quick:
        h += core.generate(ctx, "MCParsing", "MCParsing_gen5.cfg", timeout=800, heap="16g")
    h += core.generate(ctx, "MCParsing", "MCParsing_sim.cfg", args=["-simulate", "num=%d" % ctx.q(800, 20000), "-depth", "26", "-seed", str(ctx.seed)], workers="1")
    core.replay(ctx, b + "/parsing", "builder", h, "replay of specification parser behaviours")
    return core.finish(ctx, assumptions=["a checkpoint is used only while the pending tree below it is untouched"])
