"""C11: arena allocations stay intact, aligned and disjoint, and dropped arenas give their memory back."""
from .. import core


def check(ctx):
    core.model_check(ctx, "MCArena", "MCArena_design.cfg")
    b = core.build(ctx, "core", ["arena"])
    hist = core.generate(ctx, "MCArena", "MCArena_gen.cfg", timeout=800)
    if not ctx.quick:
        hist += core.generate(ctx, "MCArena", "MCArena_gen8.cfg", timeout=800)
    hist += core.generate(ctx, "MCArena", "MCArena_sim.cfg", args=["-simulate", "num=%d" % ctx.q(60, 800), "-depth", "62", "-seed", str(ctx.seed)], workers="1")
    core.replay(ctx, b + "/arena", "arenas", hist, "replay of allocation histories", args=[ctx.seed], timeout=ctx.q(200, 800))
    return core.finish(ctx, assumptions=["values are plain data of alignment at most 8, as the arena requires", "slices to be filled come with an iterator of exactly that length"])
