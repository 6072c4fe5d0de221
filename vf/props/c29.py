"""C29: graph queries are right and drawings show every node and edge, apart and in order."""
import glob, random
from .. import core


def check(ctx):
    core.model_check(ctx, "MCDrawing", "MCDrawing_design.cfg")
    core.model_check(ctx, "MCDrawing", "MCDrawing_design_graph.cfg")
    b = core.build(ctx, "viz", ["viz"]) + "/viz"
    rng = random.Random(ctx.seed)
    sim = lambda n, depth: ["-simulate", "num=%d" % n, "-depth", str(depth), "-seed", str(ctx.seed)]

    def cut(items, n):
        rng.shuffle(items)
        return items[:n] if ctx.quick else items
    plane = cut(core.generate(ctx, "MCPlane", "MCPlane_boxes.cfg"), 12000) + core.generate(ctx, "MCPlane", "MCPlane_maps.cfg")
    core.replay(ctx, b, "plane", plane, "boxes and maps of the plane")
    graphs = cut(core.generate(ctx, "MCDrawing", "MCDrawing_graphs.cfg"), 2000)
    if not ctx.quick:
        graphs += core.generate(ctx, "MCDrawing", "MCDrawing_graphs4.cfg", timeout=900)[:60000]
    graphs += core.generate(ctx, "MCDrawing", "MCDrawing_graphsim.cfg", args=sim(ctx.q(8, 250), 18), workers="1")
    trees = cut(core.generate(ctx, "MCDrawing", ctx.q("MCDrawing_trees.cfg", "MCDrawing_trees5.cfg")), 1200)
    trees += core.generate(ctx, "MCDrawing", "MCDrawing_treesim.cfg", args=sim(ctx.q(10, 250), 13), workers="1")
    rng.shuffle(graphs)
    for mode, items in (("graphs", graphs), ("trees", trees)):
        s = core.replay(ctx, b, mode, items, "%s queried and drawn" % mode, args=[ctx.seed])
        ctx.notes[mode + "_drawn"] = s["drawings"]
    if ctx.violations:
        return core.finish(ctx)     # the recording may be cut short
    trace = ctx.work + "/drawings.ndjson"
    lines = [x for p in glob.glob(ctx.work + "/*.drawings") for x in open(p).read().splitlines()]
    lines.sort(key=lambda x: (-len(x), x))      # the shards get drawings of all sizes
    core.write_lines(trace, lines)
    core.validate(ctx, "DrawingTrace", "DrawingTrace.cfg", trace, shards=8, timeout=800, what="a drawing that is not one of the specification")
    return core.finish(ctx, assumptions=["nodes are no taller than the distance between levels, and in the grid and layers of graphs no larger than configured"])
