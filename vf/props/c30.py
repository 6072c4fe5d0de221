"""C30: what a program spells in doc!, define_rules!, json! and derived conversions means what the notation says."""
import json, os, random
from .. import core


def sim(ctx, module, n, depth):
    return core.generate(ctx, module, module + "_sim.cfg", args=["-simulate", "num=%d" % n, "-depth", str(depth), "-seed", str(ctx.seed)], workers="1")


def check(ctx):
    core.model_check(ctx, "MCNotation", "MCNotation_design.cfg")
    rng = random.Random(ctx.seed)
    cases = {}
    for mode, module, gens, take, runs, depth in (("docs", "MCNotation", ["gen", "gen3"], ctx.q(450, 4000), ctx.q(120, 600), 15),
                                                  ("json", "MCLiteral", ["gen"], ctx.q(250, 2000), ctx.q(60, 300), 10),
                                                  ("rules", "MCRules", ["gen"], ctx.q(60, 500), ctx.q(40, 240), 26)):
        items = []
        for g in gens:
            one = core.generate(ctx, module, "%s_%s.cfg" % (module, g))
            rng.shuffle(one)
            items += one[:take]
        # a simulated run ends in several like states
        deep = [json.loads(x) for x in sim(ctx, module, runs, depth)]
        rng.shuffle(deep)
        seen, uniq = set(), []
        for r in [json.loads(x) for x in items] + deep[:take]:
            if (r["spelled"], str(r.get("tree"))) not in seen:
                seen.add((r["spelled"], str(r.get("tree"))))
                uniq.append(dict(r, case=len(uniq)))
        cases[mode] = uniq
    write_cases(cases)
    core.build(ctx, "fmt", ["fmt"])
    b, err = core.try_build(ctx, "fmt", ["notation"], features=["cases"])
    if not b:
        ctx.violation("programs that spell only what the notation allows are compiled", {"errors": [x for x in err.splitlines() if x.startswith("error")][:20], "output": err[-3000:]})
        return core.finish(ctx)
    for mode, what in (("docs", "documents spelled"), ("json", "values spelled"), ("rules", "rules spelled")):
        core.replay(ctx, b + "/notation", mode, [json.dumps(r) for r in cases[mode]], what)
    return core.finish(ctx, assumptions=["an operand of json! that begins with a literal is that literal alone"])


def write_cases(cases):
    d = os.path.join(core.HARNESS, "fmt", "target")
    os.makedirs(d, exist_ok=True)
    out = []
    for mode, ty in (("docs", "fn(&mut dyn FnMut(&Document))"), ("json", "fn() -> JsonValue"), ("rules", "fn() -> Vec<Box<dyn FormatRule<Mini>>>")):
        names = []
        for r in cases[mode]:
            k = r["case"]
            if mode == "docs":
                out.append("fn doc_%d(f: &mut dyn FnMut(&Document)) { %slet d: Document = doc!(%s); f(&d) }" % (k, r["before"], r["spelled"]))
                names.append("doc_%d" % k)
            elif mode == "json":
                out.append("fn json_%d() -> JsonValue { json!(%s) }" % (k, r["spelled"]))
                names.append("json_%d" % k)
            else:
                out.append("fn rules_%d<L: Language + 'static>() -> Vec<Box<dyn FormatRule<L>>> { define_rules! { %s } }" % (k, r["spelled"]))
                names.append("rules_%d::<Mini>" % k)
        out.append("pub static %s: &[%s] = &[%s];" % ({"docs": "DOCS", "json": "JSONS", "rules": "RULES"}[mode], ty, ", ".join(names)))
    path = os.path.join(d, "cases.rs")
    text = "\n".join(out) + "\n"
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)
