"""C18: the document printer and the formatter's rules."""
from .. import core


def check(ctx):
    core.model_check(ctx, "MCPrinter", "MCPrinter_design.cfg")
    core.model_check(ctx, "MCFormatter", "MCFormatter_design.cfg")
    b = core.build(ctx, "fmt", ["fmt"])
    sim = lambda m, n, d: core.generate(ctx, m, m + "_sim.cfg", args=["-simulate", "num=%d" % n, "-depth", str(d), "-seed", str(ctx.seed)], workers="1", timeout=700)
    docs = core.generate(ctx, "MCPrinter", ctx.q("MCPrinter_gen.cfg", "MCPrinter_gen5.cfg"), timeout=700, heap="12g") + sim("MCPrinter", ctx.q(300, 6000), 28)
    core.replay(ctx, b + "/fmt", "docs", docs, "documents printed", timeout=600)
    trees = core.generate(ctx, "MCFormatter", ctx.q("MCFormatter_gen.cfg", "MCFormatter_gen5.cfg"), timeout=700, heap="12g") + core.generate(ctx, "MCFormatter", "MCFormatter_ctx.cfg") + sim("MCFormatter", ctx.q(200, 4000), 26)
    core.replay(ctx, b + "/fmt", "trees", trees, "trees formatted", timeout=600)
    return core.finish(ctx, assumptions=["texts of a document contain no line breaks"])
