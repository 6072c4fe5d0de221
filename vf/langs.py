"""The languages of the repository: what they do with texts put together from fragments, judged by the Tokens specification."""
import collections, json, os, resource, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import core

STEP_S = 8       # a text that takes longer does not come to an end
MAX_STOPS = 2    # after so many texts that stop a language its other texts are left out


def texts(ctx, quick, thorough, num):
    seqs = core.generate(ctx, "MCFragments", "MCFragments_%s.cfg" % ctx.q(quick, thorough), timeout=300)
    seqs += core.generate(ctx, "MCFragments", "MCFragments_sim.cfg", args=["-simulate", "num=%d" % num, "-depth", "14", "-seed", str(ctx.seed)], workers="1", timeout=300)
    return sorted(seqs, key=lambda x: (len(x), x))      # where a language is given up does not depend on the order TLC found the texts in


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def observe(ctx, b, seqs, what, only=None):
    """Runs every language over the texts; returns its records and the texts that stopped it: (lang, "hang" | "crash", sequence)."""
    import time
    f = core.write_lines(ctx.work + "/seqs.ndjson", seqs)
    langs = only or json.loads(core.sh([b, "list"]).stdout)
    t = time.time()

    def one(lang):
        frm, recs, stops, n = 0, [], [], 0
        while frm < len(seqs):
            o, p = "%s/%s.ndjson" % (ctx.work, lang), "%s/%s.at" % (ctx.work, lang)
            with open(p, "w") as g:
                g.write("%12d" % frm)
            pr = subprocess.Popen([b, "observe", lang, f, o, p, str(frm), what], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=limit)
            at, since, why = frm, time.time(), None
            while True:
                try:
                    pr.wait(0.2)
                    why = None if pr.returncode == 0 else "crash"
                    break
                except subprocess.TimeoutExpired:
                    s = open(p).read()
                    now = int(s) if s.strip() else at
                    if now != at:
                        at, since = now, time.time()
                    elif time.time() - since > STEP_S:
                        pr.kill()
                        pr.wait()
                        why = "hang"
                        break
            done = pr.stdout.read().decode()
            if os.path.exists(o):
                for l in open(o):
                    try:
                        recs.append(json.loads(l))
                    except ValueError:
                        pass
                os.remove(o)
            if why is None:
                n += json.loads(done)["evaluated"]
                break
            at = int(open(p).read())
            n += at - frm
            stops.append((lang, why, json.loads(seqs[at]) if isinstance(seqs[at], str) else seqs[at]))
            frm = at + 1
            if len(stops) >= MAX_STOPS:
                break
        return recs, stops, n
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(one, langs))
    recs = [r for x in rs for r in x[0]]
    stops = [s for x in rs for s in x[1]]
    n = sum(x[2] for x in rs)
    ctx.replayed += n
    ctx.notes["languages"] = len(langs)
    ctx.notes["texts_per_language"] = len(seqs)
    ctx.log("%d languages over %d texts: %d runs, %d different records, %d stopped, in %.1fs" % (len(langs), len(seqs), n, len(recs), len(stops), time.time() - t))
    return recs, stops


def judge(ctx, items, module="TokensTrace"):
    """items: (lang, record, text, character); returns {(lang, why, character): smallest text}. TLC judges each different record once."""
    by = collections.defaultdict(list)
    for who, rec, text, char in items:
        by[json.dumps(rec, sort_keys=True)].append((who, text, char))
    lines = sorted(by)
    shards = max(1, min(8, len(lines) // 200 + 1))

    def one(k):
        part = lines[k::shards]
        p = core.write_lines("%s/judge-%d.ndjson" % (ctx.work, k), part)
        r = core.tlc(ctx, module, module + ".cfg", env={"TRACE": p}, workers="1", timeout=700, heap="3g")
        if not r.ok:
            raise core.ToolError("judging records failed:\n" + r.out[-3000:])
        return [(part[x["bad"] - 1], x["why"]) for x in core.emitted(r.out)]
    with ThreadPoolExecutor(8) as ex:
        bad = [x for k in ex.map(one, range(shards)) for x in k]
    res = {}
    for line, why in bad:
        for who, text, char in by[line]:
            if (who, why, char) not in res or len(text) < len(res[(who, why, char)]):
                res[(who, why, char)] = text
    ctx.notes["records_judged"] = len(lines)
    return res


def dump(faults):
    """For tools/langknown.py."""
    if os.environ.get("VF_DUMP"):
        json.dump([[*k, v] for k, v in sorted(faults.items())], open(os.environ["VF_DUMP"], "w"))


def settle(ctx, what, faults):
    """Splits faults {(lang, why, character): example} into known findings, which are named, and violations.
    A known finding lists the characters at which a language's fault is known; "*" stands for a fault at characters of every sort."""
    known = {(k["match"]["lang"], k["match"]["why"]): k["match"]["chars"] for k in core.known_findings() if k["property"] == ctx.prop and "chars" in k["match"]}
    named = {}
    for (lang, why, char), ex in sorted(faults.items()):
        if char in known.get((lang, why), []) or "*" in known.get((lang, why), []):
            if len(named.setdefault((lang, why), ex)) > len(ex):
                named[(lang, why)] = ex
        else:
            ctx.violation(what, {"language": lang, "why": why, "at": char, "text": ex})
    for (lang, why), ex in sorted(named.items()):
        print("KNOWN-FINDING: property=%s language %s: %s (for example %s)" % (ctx.prop, lang, why, json.dumps(ex)), flush=True)
    ctx.notes["known_findings"] = len(named)
