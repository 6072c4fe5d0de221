"""C15: imports resolve to the first existing candidate, over the current workspace folders."""
from .. import core


def check(ctx):
    core.model_check(ctx, "MCWorkspace", "MCWorkspace_design.cfg")
    b = core.build(ctx, "ws", ["workspace"])
    hist = core.generate(ctx, "MCWorkspace", ctx.q("MCWorkspace_gen.cfg", "MCWorkspace_gen4.cfg"), timeout=800)
    hist += core.generate(ctx, "MCWorkspace", "MCWorkspace_sim.cfg", args=["-simulate", "num=%d" % ctx.q(20, 200), "-depth", "30", "-seed", str(ctx.seed)], workers="1")
    core.replay(ctx, b + "/workspace", "replay", hist, "replay of specification histories", args=[])
    return core.finish(ctx, assumptions=["imports that name a directory are not exercised", "no symbolic links below the folders"])
