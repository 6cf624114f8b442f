"""Writes /verif/MANIFEST.json from the table of checks."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        mods = ", ".join(m["module"] for m in c.get("mc", []))
        checks.append(dict(
            property=i,
            quick_cmd=f"python3 check.py --property {i} --tier quick",
            thorough_cmd=f"python3 check.py --property {i} --tier thorough",
            evidence_file=f"evidence/{i}.json",
            technique="TLA+ specification: TLC model checking of the design and TLC trace validation of the real code",
            level=c["level"],
            level_note=(f"Design: exhaustive TLC runs of {mods}. Binding: behaviours emitted by TLC and randomised sessions are "
                        f"executed by the real code and every recorded call is judged by TLC against {c['trace']}; "
                        "exhaustive for the model bounds, sampled for the conformance part."),
        ))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "the specification of this part is not finished yet; no check is claimed")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
