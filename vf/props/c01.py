"""C01: applying edits yields the spliced text and reports the affected range."""
from .. import core


def check(ctx):
    core.model_check(ctx, "MCEdits", "MCEdits_design.cfg")
    b = core.build(ctx, "core", ["text"])
    hist = core.generate(ctx, "MCEdits", ctx.q("MCEdits_gen.cfg", "MCEdits_gen3.cfg"), timeout=800)
    hist += core.generate(ctx, "MCEdits", "MCEdits_sim.cfg", args=["-simulate", "num=%d" % ctx.q(150, 2000), "-depth", "40", "-seed", str(ctx.seed)], workers="1")
    core.replay(ctx, b + "/text", "edits", hist, "replay of specification edit batches", args=[ctx.seed])
    return core.finish(ctx, assumptions=["spans lie at character boundaries and inside the text"])
