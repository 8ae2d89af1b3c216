"""merge_evidence.py A B: add what B covered to A."""
import json, sys
a, b = (json.load(open(p)) for p in sys.argv[1:])
for k, v in b["coverage"].items():
    if isinstance(v, bool):
        a["coverage"][k] = a["coverage"][k] and v
    else:
        a["coverage"][k] = a["coverage"][k] + v
a["assumptions"] += [x for x in b["assumptions"] if x not in a["assumptions"]]
a["violations"] += b["violations"]
a["wall_s"] = round(a["wall_s"] + b["wall_s"], 3)
json.dump(a, open(sys.argv[1], "w"), indent=1)
