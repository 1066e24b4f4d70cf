#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from spec.py."""
import json, sys
from pathlib import Path
VERIF = Path(__file__).resolve().parent
sys.path.insert(0, str(VERIF))
from spec import PROPS, NOT_APPLICABLE
PROPS = sorted(PROPS, key=lambda p: p['id'])

with open(VERIF / "properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: v for k, v in p.items() if k != "check"}, ensure_ascii=False) + "\n")
checks = []
for p in PROPS:
    if p["check"]:
        checks.append(dict(property=p["id"], quick_cmd="python3 run.py %s quick" % p["id"], thorough_cmd="python3 run.py %s thorough" % p["id"],
                           evidence_file="evidence/%s.json" % p["id"], technique=p["check"]["technique"], level="exploration",
                           level_note=p["check"].get("note", "Searched, not proved: holds on the generated cases of the run; trusts the oracle described in DESIGN.md, the sanitizers and the compilers.")))
m = dict(version=1, setup_cmd="python3 setup.py", checks=checks,
         not_applicable=[dict(property=i, reason=r) for i, r in NOT_APPLICABLE])
(VERIF / "MANIFEST.json").write_text(json.dumps(m, ensure_ascii=False, indent=1) + "\n")
