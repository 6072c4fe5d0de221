#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below and properties.jsonl."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(ROOT + "/properties.jsonl")]
T_REPLAY = "TLA+ specification checked with TLC; TLC-generated behaviours replayed into the real code"
T_TRACE = "records of real executions judged by TLC against the TLA+ specification"
CLAIMS = {
    "C13": (T_REPLAY + "; recorded concurrent histories judged linearizable by TLC", "every operation sequence to depth 4 over a small URI set plus long simulated ones; concurrent histories as scheduled by the OS"),
    "C14": (T_REPLAY + "; recorded concurrent histories judged linearizable by TLC", "every update/clear sequence to the configured depth over small name and file sets plus long simulated ones; concurrent histories as scheduled by the OS"),
}
NA = {}
exec(open(ROOT + "/tools/claims_more.py").read()) if os.path.exists(ROOT + "/tools/claims_more.py") else None
m = {"version": 1,
     "setup_cmd": "bash setup.sh",
     "checks": [{"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p,
                 "technique": CLAIMS[p][0], "level": "model_checking", "level_note": CLAIMS[p][1]} for p in props if p in CLAIMS],
     "not_applicable": [{"property": p, "reason": NA.get(p, "the specification for this property is not built yet")} for p in props if p not in CLAIMS],
     "notes": "No hooks: everything is observed through the public API. Language: TLA+ (TLC)."}
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed;", len(m["not_applicable"]), "not")
