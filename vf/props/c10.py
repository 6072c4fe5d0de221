"""C10: a parse session offers the tree and tokens of its last parse."""
from .. import core


def check(ctx):
    core.model_check(ctx, "MCSession", "MCSession_design.cfg")
    b = core.build(ctx, "core", ["session"])
    hist = core.generate(ctx, "MCSession", ctx.q("MCSession_gen.cfg", "MCSession_gen6.cfg"), timeout=800)
    hist += core.generate(ctx, "MCSession", "MCSession_gen5.cfg")
    hist += core.generate(ctx, "MCSession", "MCSession_sim.cfg", args=["-simulate", "num=%d" % ctx.q(60, 600), "-depth", "16", "-seed", str(ctx.seed)], workers="1")
    s = core.replay(ctx, b + "/session", "sessions", hist, "replay of session histories", timeout=ctx.q(200, 800))
    ctx.notes["session_steps"] = s["session_steps"]
    return core.finish(ctx, assumptions=["memory freed by the session is overwritten through the arena's own chunk pool after every step"])
