"""Writes MANIFEST.json from properties.jsonl and harness/props.py's table."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import props
from mkmeta import TECH, NOTE, NA
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        checks.append(dict(property=i, quick_cmd="./run " + i, thorough_cmd="VERIF_TIER=thorough ./run " + i,
                           evidence_file="evidence/%s.json" % i, technique=TECH.get(i, TECH["*"]), level="model_checking",
                           level_note=NOTE.get(i, NOTE["*"])))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="./setup.sh", hooks=dict(guard="UNARYSIM_VERIF", enable="no hooks are needed: every observed value is returned by the public API", source_commits=[]),
               checks=checks, not_applicable=na,
               notes="Language: TLA+, checked with TLC. See DESIGN.md."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
