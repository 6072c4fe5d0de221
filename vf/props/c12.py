"""C12: tree navigation agrees with the tree."""
from .. import core


def check(ctx):
    core.model_check(ctx, "MCTree", "MCTree_design.cfg")
    b = core.build(ctx, "core", ["tree"])
    trees = core.generate(ctx, "MCTree", "MCTree_gen.cfg", timeout=800)
    trees += core.generate(ctx, "MCTree", "MCTree_sim.cfg", args=["-simulate", "num=%d" % ctx.q(60, 4000), "-depth", "17", "-seed", str(ctx.seed)], workers="1")
    if not ctx.quick:
        trees += core.generate(ctx, "MCTree", "MCTree_gen7.cfg", timeout=800, heap="12g")
    s = core.replay(ctx, b + "/tree", "navigate", trees, "every lookup, movement and traversal on specification trees", args=[ctx.seed, ctx.q(5, 7)])
    ctx.notes["cursor_moves"] = s["moves"]
    return core.finish(ctx, assumptions=["cursor movements after a finished traversal are not constrained"])
