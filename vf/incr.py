"""Edit histories of the specification Hist replayed through the lexers and parsers of real languages."""
from . import core

LEXERS = ["json", "rust", "mojo", "python", "von", "rbq", "typescript", "smalltalk"]
PARSERS = ["json", "rust", "mojo", "python", "von", "rbq"]


def languages(ctx, mode, langs):
    b = core.build(ctx, "inc", ["langs"])
    hist = core.generate(ctx, "MCHist", "MCHist_gen.cfg", timeout=600)
    hist += core.generate(ctx, "MCHist", "MCHist_sim.cfg", args=["-simulate", "num=%d" % ctx.q(400, 20000), "-depth", "120", "-seed", str(ctx.seed)], workers="1")
    tot = {"steps": 0, "panics_from_scratch": 0}
    for l in langs:
        s = core.replay(ctx, b + "/langs", l, hist, "%s of specification edit histories in %s" % (mode, l), args=[ctx.seed, mode])
        for k in tot:
            tot[k] += s[k]
    ctx.notes["language_steps"] = tot["steps"]
    ctx.notes["histories_ended_by_a_panic_from_scratch"] = tot["panics_from_scratch"]
    ctx.notes["languages"] = langs
