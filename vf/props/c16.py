"""C16: editor requests answer from the current files and the symbols they define."""
import os
from .. import core


def check(ctx):
    core.model_check(ctx, "MCEditor", "MCEditor_design.cfg")
    core.model_check(ctx, "MCEditor", "MCEditor_design2.cfg")
    b = core.build(ctx, "ws", ["editor"]) + "/editor"
    one = core.generate(ctx, "MCEditor", ctx.q("MCEditor_gen.cfg", "MCEditor_gen5.cfg"), timeout=800)
    many = core.generate(ctx, "MCEditor", "MCEditor_sim.cfg", args=["-simulate", "num=%d" % ctx.q(120, 1500), "-depth", "14", "-seed", str(ctx.seed)], workers="1", timeout=800)
    scratch = os.path.join(ctx.work, "modules")
    core.replay(ctx, b, "one", one, "every request about every small file", args=[scratch, ctx.seed])
    core.replay(ctx, b, "many", many, "every request after every change of files", args=[scratch, ctx.seed])
    return core.finish(ctx, assumptions=["the service re-extracts a file's symbols with every change, as its index requires", "a reference is asked about where it stands directly in the file"])
