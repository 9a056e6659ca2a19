"""Write MANIFEST.json from lib/props.py and properties.jsonl."""
import json
import os
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "lib"))
from props import PROPS                                        # noqa: E402
NOTES = {}
props = [json.loads(x) for x in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        P = PROPS[i]
        checks.append(dict(
            property=i,
            quick_cmd="python3 check.py %s --tier quick" % i,
            thorough_cmd="python3 check.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique=P.get("technique", "TLA+ specification; TLC validates executions of the "
                                         "code (trace validation) against it"),
            level="model_checking",
            level_note=P.get("note", "Executions of the real code on generated scenarios, each "
                                     "validated by TLC against the explicit TLA+ specification; "
                                     "bounded to the generated scenarios.")))
    else:
        na.append(dict(property=i, reason="check under construction"))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
