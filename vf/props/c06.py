"""C06: every language's lexer cuts the text into tokens and marks its end."""
from .. import core, langs


def check(ctx):
    core.model_check(ctx, "MCTokens", "MCTokens_design.cfg")
    b = core.build(ctx, "lang", ["lang"]) + "/lang"
    recs, stops = langs.observe(ctx, b, langs.texts(ctx, "gen", "gen3", ctx.q(25, 400)), "lex")
    items, faults = [], {}
    for r in recs:
        if r["lex"] == "tokens":
            items.append((r["lang"], {"len": r["len"], "cuts": r["cuts"], "pieces": r["toks"], "end": 1}, r["text"], r["break"]))
        elif r["lex"] == "panic":
            faults.setdefault((r["lang"], "panic", ""), r["text"])
    faults.update(langs.judge(ctx, items))
    for lang, why, seq in stops:
        faults.setdefault((lang, why, ""), "fragments %s" % seq)
    langs.dump(faults)
    langs.settle(ctx, "tokens do not cover the text", faults)
    return core.finish(ctx, assumptions=["texts are sequences of the harness's fragments"])
