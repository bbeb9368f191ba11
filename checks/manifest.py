"""Developer tool: regenerate MANIFEST.json from checks/claims.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from claims import CLAIMS, NOT_APPLICABLE, DEFAULT_NOTE

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
m = dict(
    version=1,
    setup_cmd="python3 engine/extract.py",
    checks=[],
    not_applicable=[],
)
for p in props:
    if p in CLAIMS:
        tech, note = CLAIMS[p]
        m["checks"].append(
            dict(
                property=p,
                quick_cmd="python3 checks/run.py " + p,
                thorough_cmd="python3 checks/run.py " + p,
                technique=tech,
                level="proof",
                level_note=note or DEFAULT_NOTE,
            )
        )
    else:
        m["not_applicable"].append(dict(property=p, reason=NOT_APPLICABLE[p]))
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
