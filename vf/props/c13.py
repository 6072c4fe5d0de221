"""C13: the in-memory VFS is an atomic URI/id store."""
from .. import core
import json


def check(ctx):
    core.model_check(ctx, "MCVfs", "MCVfs_design.cfg")
    b = core.build(ctx, "ws", ["vfs"])
    # spec -> code: every history of 4 (5) operations through two handles, and long random ones
    hist = core.generate(ctx, "MCVfs", ctx.q("MCVfs_gen.cfg", "MCVfs_gen5.cfg"))
    hist += core.generate(ctx, "MCVfs", "MCVfs_sim.cfg", args=["-simulate", "num=%d" % ctx.q(60, 600), "-depth", "41", "-seed", str(ctx.seed)], workers="1")
    core.replay(ctx, b + "/vfs", "replay", hist, "replay of specification histories", args=[])
    # code -> spec: concurrent histories, linearizability decided by TLC
    t = ctx.work + "/conc.ndjson"
    s = core.run_bin(ctx, b + "/vfs", ["histories", t, ctx.seed, ctx.q(60000, 400000)])
    ctx.replayed += s["evaluated"]
    ctx.notes["concurrent_executions"] = s["executions"]
    ctx.notes["concurrent_executions_with_overlap"] = s["with_overlap"]
    core.validate(ctx, "VfsLin", "VfsLin.cfg", t, shards=8, what="concurrent history is not linearizable")
    with open(t) as g:
        ctx.sample({"step": "recorded concurrent history", "case": json.loads(g.readline())})
    return core.finish(ctx, assumptions=["thread interleavings are those the OS produced in this run", "modification times are not constrained"])
