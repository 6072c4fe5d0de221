"""C09: operator-precedence parsing nests by binding power and associativity."""
from .. import core


def check(ctx):
    core.model_check(ctx, "MCPratt", "MCPratt_design.cfg")
    b = core.build(ctx, "core", ["parsing"])
    h = core.generate(ctx, "MCPratt", "MCPratt_gen.cfg", timeout=800)
    h += core.generate(ctx, "MCPratt", "MCPratt_genwf.cfg", timeout=800)
    if not ctx.quick:
        h += core.generate(ctx, "MCPratt", "MCPratt_genall.cfg", timeout=800, heap="12g")
        h += core.generate(ctx, "MCPratt", "MCPratt_gen6.cfg", timeout=800, heap="12g")
    h += core.generate(ctx, "MCPratt", "MCPratt_sim.cfg", args=["-simulate", "num=%d" % ctx.q(800, 20000), "-depth", "19", "-seed", str(ctx.seed)], workers="1")
    core.replay(ctx, b + "/parsing", "pratt", h, "replay of specification expressions", args=[ctx.seed])
    return core.finish(ctx, assumptions=["levels below 255", "no chains of operators declared non-associative"])
