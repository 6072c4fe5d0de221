"""C14: the workspace symbol index answers from exactly what the files currently define."""
from .. import core
import json


def check(ctx):
    core.model_check(ctx, "MCSymbols", "MCSymbols_design.cfg")
    b = core.build(ctx, "ws", ["symtab"])
    hist = core.generate(ctx, "MCSymbols", ctx.q("MCSymbols_gen.cfg", "MCSymbols_gen5.cfg"), timeout=800)
    hist += core.generate(ctx, "MCSymbols", "MCSymbols_sim.cfg", args=["-simulate", "num=%d" % ctx.q(30, 300), "-depth", "31", "-seed", str(ctx.seed)], workers="1")
    core.replay(ctx, b + "/symtab", "replay", hist, "replay of specification histories", args=[])
    t = ctx.work + "/conc.ndjson"
    s = core.run_bin(ctx, b + "/symtab", ["histories", t, ctx.seed, ctx.q(30000, 200000)])
    ctx.replayed += s["evaluated"]
    ctx.notes["concurrent_executions"] = s["executions"]
    ctx.notes["concurrent_executions_with_overlap"] = s["with_overlap"]
    core.validate(ctx, "SymbolsLin", "SymbolsLin.cfg", t, shards=8, what="concurrent history is not linearizable")
    with open(t) as g:
        ctx.sample({"step": "recorded concurrent history", "case": json.loads(g.readline())})
    return core.finish(ctx, assumptions=["thread interleavings are those the OS produced in this run", "which of several equal qualified names a lookup returns is not constrained"])
