"""C31: comments that a formatter writes, and the collector of comments."""
from .. import core


def check(ctx):
    core.model_check(ctx, "MCComments", "MCComments_design.cfg")
    core.model_check(ctx, "MCComments", "MCComments_designheld.cfg")
    b = core.build(ctx, "fmt", ["fmt"])
    texts = core.generate(ctx, "MCComments", ctx.q("MCComments_texts.cfg", "MCComments_texts7.cfg"), timeout=700, heap="12g") + core.generate(ctx, "MCComments", "MCComments_blanks.cfg")
    core.replay(ctx, b + "/fmt", "texts", texts, "comments formatted", timeout=600)
    sim = lambda cfg, n, d: core.generate(ctx, "MCComments", cfg, args=["-simulate", "num=%d" % n, "-depth", str(d), "-seed", str(ctx.seed)], workers="1", timeout=700)
    held = core.generate(ctx, "MCComments", ctx.q("MCComments_held.cfg", "MCComments_held4.cfg"), timeout=700, heap="12g") \
        + sim("MCComments_sim.cfg", ctx.q(300, 5000), 15) + sim("MCComments_many.cfg", ctx.q(60, 600), 43)
    core.replay(ctx, b + "/fmt", "held", held, "collections of comments", timeout=600)
    return core.finish(ctx)
