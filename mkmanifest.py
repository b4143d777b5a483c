"""Regenerate MANIFEST.json from properties.jsonl and level_notes.json (run by hand)."""
import json
props = [json.loads(l) for l in open("properties.jsonl")]
NOTES = json.load(open("level_notes.json"))
T = "contract-based deductive verification: contracts on the functions in /repo/src, obligations generated from the current source by symbolic execution and discharged by a term normaliser and z3; failed obligations replayed on the real code"
m = dict(version=1, setup_cmd="python3-vt -c 'import z3' && /opt/venv/bin/python -c 'import numpy, scipy, autograd'", checks=[], not_applicable=[])
for p in props:
    n = NOTES[p["id"]]
    m["checks"].append(dict(property=p["id"], quick_cmd="VERIF_TIER=quick python3 check.py " + p["id"],
                            thorough_cmd="VERIF_TIER=thorough python3 check.py " + p["id"],
                            technique=T, level="proof", level_note=n + " " + NOTES["common"]))
json.dump(m, open("MANIFEST.json", "w"), indent=1)
