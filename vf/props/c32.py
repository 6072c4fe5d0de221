"""C32: what a watcher of files reports."""
from .. import core
import os, shutil, tempfile

NOBODY = 65534


def check(ctx):
    core.model_check(ctx, "MCWatch", "MCWatch_design.cfg")
    b = core.build(ctx, "ws", ["watch"]) + "/watch"
    items = []
    for c in ctx.q(("gen", "gen2"), ("gen", "gen2", "gen3")):
        items += core.generate(ctx, "MCWatch", "MCWatch_%s.cfg" % c, timeout=700)
    items += core.generate(ctx, "MCWatch", "MCWatch_sim.cfg", args=["-simulate", "num=%d" % ctx.q(300, 6000), "-depth", "16", "-seed", str(ctx.seed)], workers="1", timeout=600)
    # every behaviour has a directory of its own, below one that is removed
    scratch = tempfile.mkdtemp(prefix="vf-c32-")
    try:
        os.chmod(scratch, 0o755)
        shutil.copy(b, scratch + "/watch")

        def one(k):
            d = "%s/w%d" % (scratch, k)
            os.mkdir(d)
            os.chown(d, NOBODY, NOBODY)
            f = core.write_lines("%s/run-%d.ndjson" % (scratch, k), items[k::8])
            return core.run_code(ctx, [scratch + "/watch", f], 600, "changes watched", cwd=d, user=NOBODY, group=NOBODY, extra_groups=[])
        rs = core.parallel(one, range(8))
        for s in rs:
            core.absorb(ctx, s, "changes watched")
        ctx.log("watch: %d behaviours" % sum(s["evaluated"] for s in rs))
    finally:
        shutil.rmtree(scratch)
    return core.finish(ctx, assumptions=["watched paths are not inside one another", "changes come one at a time, each after the reports of the one before", "Linux (inotify)"])
