"""C08: incremental parsing gives the same tree as parsing from scratch."""
from .. import core, incr


def check(ctx):
    core.model_check(ctx, "MCMini", "MCMini_treedesign.cfg")
    b = core.build(ctx, "core", ["incr"])
    hist = core.generate(ctx, "MCMini", "MCMini_treegen.cfg", timeout=900)
    hist += core.generate(ctx, "MCMini", "MCMini_treeseeds.cfg", timeout=900)
    if not ctx.quick:
        hist += core.generate(ctx, "MCMini", "MCMini_treegen4.cfg", timeout=900, heap="14g")
    hist += core.generate(ctx, "MCMini", "MCMini_treesim.cfg", args=["-simulate", "num=%d" % ctx.q(1000, 30000), "-depth", "34", "-seed", str(ctx.seed)], workers="1")
    s = core.replay(ctx, b + "/incr", "trees", hist, "incremental parsing of specification edit histories", args=[ctx.seed])
    ctx.notes["parses"] = s["parses"]
    ctx.notes["nodes_reused"] = s["reused_nodes"]
    if s["reused_nodes"] == 0:
        ctx.notes["warning"] = "nothing was reused"
    incr.languages(ctx, "trees", incr.PARSERS)
    return core.finish(ctx, assumptions=["grammars decide from the tokens of a construct and the one after it, and do not depend on the enclosing construct"])
