#!/usr/bin/env python3
"""writes MANIFEST.json from the list of claimed checks"""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = "TLA+ specification checked with TLC; "
CODE = "recorded runs of the real code validated against the specification (trace validation)"
BOTH = "exhaustive model whose every transition is replayed on the real code, and " + CODE
GEN = "Bounded: holds on every recorded run and on the complete bounded model; real arithmetic compared with tolerance 1e-9 (1e-6 where a longer computation is re-derived). Trusts TLC, the decimal arithmetic override of Num.tla and the projection in harness/."
CH = {
 "C01": CODE, "C02": CODE, "C03": CODE + " over permuted, truncated and corrupted files", "C04": CODE + " over all boundary values and pairs",
 "C05": BOTH, "C06": CODE, "C07": CODE + " over corrupted files", "C08": BOTH, "C09": BOTH,
 "C10": "all small route definitions enumerated by TLC and replayed on the real constructor, and " + CODE, "C11": CODE + " over all n, jumps and flags", "C12": CODE,
}
try:
    from claims import MORE
    CH.update(MORE)
except ImportError:
    pass
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": p, "quick_cmd": "./check.py %s --tier quick" % p, "thorough_cmd": "./check.py %s --tier thorough" % p,
                 "technique": T + CH[p], "level": "model_checking", "level_note": GEN} for p in ids if p in CH],
     "not_applicable": [{"property": p, "reason": "check under construction; not claimed yet"} for p in ids if p not in CH]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
