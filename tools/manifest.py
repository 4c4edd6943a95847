"""Writes MANIFEST.json from the checks that exist (run by hand)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props, build
TECH = ("explicit TLA+ specification of %s, its invariants checked exhaustively with TLC; behaviours generated from it and scripts around "
        "its boundaries replayed into the real code, every recorded trace decided by TLC against the specification")
NOTE = "exhaustive at the level of the bounded specification; the binding to the code is by replayed and recorded traces, not by proof"
ids = [json.loads(l)["id"] for l in open(build.VERIF + "/properties.jsonl")]
m = {"version": 1,
     "setup_cmd": "python3 tools/build.py " + " ".join(props.DRIVERS),
     "checks": [{"property": i, "technique": TECH % props.SUBJECT[i], "quick_cmd": "./check " + i,
                 "thorough_cmd": "VERIF_TIER=thorough ./check " + i, "level": "model_checking", "level_note": NOTE}
                for i in ids if i in props.CHECKS],
     "not_applicable": [{"property": i, "reason": "check not built yet (work in progress)"} for i in ids if i not in props.CHECKS]}
json.dump(m, open(build.VERIF + "/MANIFEST.json", "w"), indent=1)
