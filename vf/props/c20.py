"""C20: highlighting covers the text; themes decide the looks; exporters keep the text."""
from .. import core, langs


def check(ctx):
    core.model_check(ctx, "MCHighlight", "MCHighlight_design.cfg")
    b = core.build(ctx, "hl", ["hl"]) + "/hl"
    items = []
    for c in ("texts", "looks", "themes"):
        items += core.generate(ctx, "MCHighlight", "MCHighlight_%s.cfg" % c, timeout=300)
    if not ctx.quick:
        for c in ("themes5",):
            items += core.generate(ctx, "MCHighlight", "MCHighlight_%s.cfg" % c, timeout=900)
    items += core.generate(ctx, "MCHighlight", "MCHighlight_sim.cfg", args=["-simulate", "num=%d" % ctx.q(40, 1500), "-depth", "26", "-seed", str(ctx.seed)], workers="1", timeout=600)
    core.replay(ctx, b, "run", items, "highlighted and exported", timeout=800)
    # the languages of the repository over texts put together from fragments
    b = core.build(ctx, "lang", ["lang"]) + "/lang"
    recs, stops = langs.observe(ctx, b, langs.texts(ctx, "gen", "gen3", ctx.q(25, 300)), "all")
    items, faults = [], {}
    for r in recs:
        if r["high"] == "segments":
            items.append((r["lang"], {"len": r["len"], "cuts": r["cuts"], "pieces": [s + [0] for s in r["segs"]], "end": 0}, r["text"], r["break"]))
        elif r["high"] in ("text", "panic"):
            faults.setdefault((r["lang"], r["high"], ""), r["text"])
    faults.update(langs.judge(ctx, items))
    ctx.notes["texts_that_stop_a_language"] = len(stops)
    langs.dump(faults)
    langs.settle(ctx, "highlighted segments do not cover the text", faults)
    return core.finish(ctx, assumptions=["texts of real languages are sequences of the harness's fragments", "a text that stops a lexer or parser is not highlighted: that is C06"])
