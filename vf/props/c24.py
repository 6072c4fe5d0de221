"""C24: fixture runs succeed exactly when the recorded expectations are what the language gives."""
import os, random
from concurrent.futures import ThreadPoolExecutor
from .. import core


def check(ctx):
    core.model_check(ctx, "MCFixtures", "MCFixtures_design.cfg")
    core.model_check(ctx, "MCFixtures", "MCFixtures_design2.cfg")
    b = core.build(ctx, "fixtures", ["fixtures"]) + "/fixtures"
    hist = core.generate(ctx, "MCFixtures", "MCFixtures_gen.cfg")
    if ctx.quick:
        random.Random(ctx.seed).shuffle(hist)
        hist = hist[:3000]
    hist += core.generate(ctx, "MCFixtures", "MCFixtures_pair.cfg")
    hist += core.generate(ctx, "MCFixtures", "MCFixtures_sim.cfg", args=["-simulate", "num=%d" % ctx.q(350, 4000), "-depth", "18", "-seed", str(ctx.seed)], workers="1")
    parts = [hist[k::8] for k in range(8)]

    def one(k):
        src, out = os.path.join(ctx.work, "hist%d" % k), os.path.join(ctx.work, "runs%d.ndjson" % k)
        core.write_lines(src, parts[k])
        return core.run_bin(ctx, b, ["replay", src, os.path.join(ctx.work, "dir%d" % k), out], timeout=800), out
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(one, range(8)))
    trace = os.path.join(ctx.work, "runs.ndjson")
    with open(trace, "w") as f:
        for s, out in rs:
            ctx.replayed += s["evaluated"]
            f.write(open(out).read())
            for x in s["samples"][:1]:
                ctx.sample(x)
    ctx.notes["tester_runs"] = sum(s["runs"] for s, _ in rs)
    core.validate(ctx, "FixturesTrace", "FixturesTrace.cfg", trace, shards=8, what="a run of a fixture tester that the specification does not explain")
    return core.finish(ctx, assumptions=["the language gives the same output for the same text", "a language that never comes to an end is not exercised"])
