"""Development tool: langknown.py PROP DUMP... merges faults dumped with VF_DUMP into known/known_findings.jsonl.
Only for faults that were looked at and are defects of the language (never run by a check)."""
import collections, json, sys
F = "/verif/known/known_findings.jsonl"
WHAT = {"gap": "the lexer leaves out characters", "overlap": "tokens overlap", "empty": "an empty token inside the text", "early end": "the end mark comes before the end of the text",
        "inside a character": "a token ends inside a character", "short": "the tokens end before the text does", "no end": "there is no end-of-file token", "hang": "does not come to an end",
        "panic": "panics", "text lost": "tokens are missing from the syntax tree", "text repeated": "tokens stand in the syntax tree more than once", "cut differently": "the leaves of the syntax tree are not the tokens", "crash": "ends the process"}
prop = sys.argv[1]
d = collections.defaultdict(set)
lines = [l.rstrip("\n") for l in open(F)]
keep = []
for l in lines:
    if l.startswith("{"):
        k = json.loads(l)
        if k["property"] == prop and "chars" in k["match"]:
            d[(k["match"]["lang"], k["match"]["why"])] |= set(k["match"]["chars"])
            continue
    keep.append(l)
for f in sys.argv[2:]:
    for lang, why, char, ex in json.load(open(f)):
        d[(lang, why)].add(char)
for (lang, why), cs in sorted(d.items()):
    keep.append(json.dumps({"property": prop, "match": {"lang": lang, "why": why, "chars": ["*"] if prop == "C28" and (why != "hang" and (len(cs) >= 15 or "*" in cs or (lang, "hang") in d or (why == "cut differently" and ((lang, "text lost") in d or (lang, "text repeated") in d)))) else sorted(cs)}, "what": "language %s: %s" % (lang, WHAT.get(why, why))}))
open(F, "w").write("\n".join(keep) + "\n")
