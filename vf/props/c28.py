"""C28: the syntax trees of the languages hold every token once, in order."""
from .. import core, langs


def check(ctx):
    core.model_check(ctx, "MCLossless", "MCLossless_design.cfg")
    b = core.build(ctx, "lang", ["lang"]) + "/lang"
    recs, stops = langs.observe(ctx, b, langs.texts(ctx, "gen", "gen3", ctx.q(25, 300)), "all")
    items, faults = [], {}
    for r in recs:
        if r["lex"] != "tokens":
            continue
        if r["parse"] == "tree":
            items.append((r["lang"], {"tokens": [t[1] - t[0] for t in r["toks"] if t[1] > t[0]], "leaves": [s[1] - s[0] for s in r["tree"]]}, r["text"], r["differ"]))
        elif r["parse"] in ("sum", "panic"):
            faults.setdefault((r["lang"], r["parse"], ""), r["text"])
    faults.update(langs.judge(ctx, items, "LosslessTrace"))
    for lang, why, seq in stops:
        faults.setdefault((lang, why, ""), "fragments %s" % seq)
    langs.dump(faults)
    langs.settle(ctx, "the tree does not hold the tokens", faults)
    return core.finish(ctx, assumptions=["texts are sequences of the harness's fragments", "a parser may refuse a text instead"])
