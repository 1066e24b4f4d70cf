#!/usr/bin/env python3
"""setup_cmd: builds the framework once so that checks only rebuild what changed in /repo."""
import sys
from pathlib import Path
sys.path.insert(0, str(Path(__file__).resolve().parent))
import vbuild
from spec import PROPS
vbuild.dicts()
for fl in sorted({p["check"]["flavor"] for p in PROPS if p["check"] and "flavor" in p["check"]}):
    vbuild.build(fl, checks=[p["check"]["prog"] for p in PROPS if p["check"] and p["check"].get("flavor") == fl])
print("setup ok")
