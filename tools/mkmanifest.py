"""Writes MANIFEST.json from harness/props.py and harness/special.py."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(H, "harness"))
from props import PROPS, NOTES
import special
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
claimed = [i for i in ids if i in PROPS or special.CHECKS.get(i)]
m = {"version": 1,
     "setup_cmd": "/opt/venv/bin/python tools/setup.py",
     "checks": [{"property": i, "quick_cmd": f"/opt/venv/bin/python check.py {i} --tier quick",
                 "thorough_cmd": f"/opt/venv/bin/python check.py {i} --tier thorough",
                 "evidence_file": f"evidence/{i}.json",
                 "technique": NOTES.get(i, {}).get("technique", "TLA+ specification (TLC): recorded runs of the code validated as traces of the specification"),
                 "level": "model_checking",
                 "level_note": NOTES.get(i, {}).get("note", "Bounded: every explored history of the real code is judged by TLC against the TLA+ specification; "
                                          "trusts the raw database drivers, the engines and TLC.")} for i in claimed],
     "not_applicable": [{"property": i, "reason": "no check yet"} for i in ids if i not in claimed],
     "notes": "See DESIGN.md. No hooks: the checks observe /repo through its public API and SQLAlchemy's own events."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
print(len(claimed), "claimed")
