"""C17: the tool server answers every request exactly once, in protocol form."""
from .. import core


def check(ctx):
    core.model_check(ctx, "MCToolServer", "MCToolServer_design.cfg")
    b = core.build(ctx, "mcp", ["mcp"])
    hist = core.generate(ctx, "MCToolServer", "MCToolServer_two.cfg")
    if not ctx.quick:
        hist += core.generate(ctx, "MCToolServer", "MCToolServer_three.cfg", heap="12g")
    for s in ("works", "fails", "absent"):
        hist += core.generate(ctx, "MCToolServer", "MCToolServer_one_%s.cfg" % s)
        hist += core.generate(ctx, "MCToolServer", "MCToolServer_sim_%s.cfg" % s, args=["-simulate", "num=%d" % ctx.q(400, 10000), "-depth", "40", "-seed", str(ctx.seed)], workers="1")
    s = core.replay(ctx, b + "/mcp", "scripts", hist, "lines delivered in pieces to the tool server", args=[ctx.seed])
    ctx.notes["answers"] = s["answers"]
    return core.finish(ctx, assumptions=["the language service behind the server does not panic", "batches of requests and null identifiers are not covered"])
