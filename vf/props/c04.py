"""C04: scanning helpers consume exactly the text their rule describes."""
import json
from .. import core


def split(ctx, name, items):
    """The helpers of the module, written to a file for the harness, and the texts or behaviours."""
    f = "%s/helpers-%s.json" % (ctx.work, name)
    core.write_lines(f, [json.dumps(json.loads([x for x in items if x.startswith('{"helpers"')][0])["helpers"])])
    return f, [x for x in items if not x.startswith('{"helpers"')]


def check(ctx):
    for c in ("design", "design_comments", "design_strings"):
        core.model_check(ctx, "MCScanning", "MCScanning_%s.cfg" % c)
    b = core.build(ctx, "core", ["scan"]) + "/scan"
    for kind in ("words", "comments", "strings"):
        items = core.generate(ctx, "MCScanning", "MCScanning_%s.cfg" % (kind + ctx.q("", "_deep")), timeout=800)
        items += core.generate(ctx, "MCScanning", "MCScanning_%s_sim.cfg" % kind, args=["-simulate", "num=%d" % ctx.q(150, 5000), "-depth", "16", "-seed", str(ctx.seed)], workers="1")
        f, items = split(ctx, kind, items)
        core.replay(ctx, b, "tables", items, "every %s helper at every position of every text" % kind, args=[f, kind, ctx.seed], timeout=300, hang="a helper does not come to an end")
    items = core.generate(ctx, "MCScanning", "MCScanning_runs.cfg", args=["-simulate", "num=%d" % ctx.q(250, 6000), "-depth", "20", "-seed", str(ctx.seed)], workers="1")
    f, items = split(ctx, "runs", items)
    core.replay(ctx, b, "runs", items, "sequences of scanning steps", args=[f, "mixed", ctx.seed], timeout=300, hang="a helper does not come to an end")
    return core.finish(ctx, assumptions=["a string's escape is not one of its quotes", "nesting comments have different start and end marks", "end marks are not empty where the helper requires one"])
