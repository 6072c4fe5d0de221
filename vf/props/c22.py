"""C22: the interactive shell's line editor."""
from .. import core


def check(ctx):
    core.model_check(ctx, "MCLineEditor", "MCLineEditor_design.cfg")
    b = core.build(ctx, "repl", ["repl"])
    hist = core.generate(ctx, "MCLineEditor", ctx.q("MCLineEditor_gen.cfg", "MCLineEditor_gen6.cfg"), timeout=800, heap=ctx.q("6g", "14g"))
    hist += core.generate(ctx, "MCLineEditor", ctx.q("MCLineEditor_marked.cfg", "MCLineEditor_marked5.cfg"), timeout=800)
    hist += core.generate(ctx, "MCLineEditor", "MCLineEditor_sim.cfg", args=["-simulate", "num=%d" % ctx.q(400, 5000), "-depth", "42", "-seed", str(ctx.seed)], workers="1")
    s = core.replay(ctx, b + "/repl", "keys", hist, "keys typed into the shell over a pseudo terminal", timeout=ctx.q(200, 800))
    ctx.notes["keys_typed"] = s["keys"]
    return core.finish(ctx, assumptions=["the terminal delivers one key at a time"])
