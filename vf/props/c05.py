"""C05: lexing again after edits with cached tokens equals lexing from scratch."""
from .. import core, incr


def check(ctx):
    core.model_check(ctx, "MCMini", "MCMini_lexdesign.cfg")
    b = core.build(ctx, "core", ["incr"])
    hist = core.generate(ctx, "MCMini", ctx.q("MCMini_lexgen.cfg", "MCMini_lexgen5.cfg"), timeout=900, heap=ctx.q("6g", "14g"))
    hist += core.generate(ctx, "MCMini", "MCMini_lexsim.cfg", args=["-simulate", "num=%d" % ctx.q(1500, 20000), "-depth", "50", "-seed", str(ctx.seed)], workers="1")
    s = core.replay(ctx, b + "/incr", "lexing", hist, "resumed lexing of specification edit histories", args=[ctx.seed])
    ctx.notes["lexings"] = s["lexings"]
    ctx.notes["lexings_resumed_after_start"] = s["resumed"]
    incr.languages(ctx, "tokens", incr.LEXERS)
    return core.finish(ctx, assumptions=["a lexer decides a token from its text and at most two characters after it"])
