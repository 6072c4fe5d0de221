"""C27: the disk-backed view of files."""
from .. import core
import os, shutil, tempfile

NOBODY = 65534


def check(ctx):
    core.model_check(ctx, "MCDiskVfs", "MCDiskVfs_design.cfg")
    b = core.build(ctx, "ws", ["disk"]) + "/disk"
    items = []
    for c in ctx.q(("gen", "styles"), ("gen2", "styles4", "deep")):
        items += core.generate(ctx, "MCDiskVfs", "MCDiskVfs_%s.cfg" % c, timeout=800)
    items += core.generate(ctx, "MCDiskVfs", "MCDiskVfs_sim.cfg", args=["-simulate", "num=%d" % ctx.q(150, 4000), "-depth", "15", "-seed", str(ctx.seed)], workers="1", timeout=600)
    # the code under test writes and removes files: it runs as a user without rights, in a directory of its own
    scratch = tempfile.mkdtemp(prefix="vf-c27-")
    try:
        os.chmod(scratch, 0o755)
        shutil.copy(b, scratch + "/disk")

        def one(k):
            d = "%s/w%d" % (scratch, k)
            os.mkdir(d)
            os.chown(d, NOBODY, NOBODY)
            f = core.write_lines("%s/run-%d.ndjson" % (scratch, k), items[k::8])
            return core.run_code(ctx, [scratch + "/disk", f, "d", ctx.q("half", "both")], 800, "file operations replayed on a directory", cwd=d, user=NOBODY, group=NOBODY, extra_groups=[])
        rs = core.parallel(one, range(8))
        for s in rs:
            core.absorb(ctx, s, "file operations replayed on a directory")
        ctx.log("disk: %d behaviours" % sum(s["evaluated"] for s in rs))
    finally:
        shutil.rmtree(scratch)
    return core.finish(ctx, assumptions=["no symbolic links", "changes by others do not happen during an operation"])
