#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules (LEVEL, TECHNIQUE, LEVEL_NOTE)."""
import ast
import glob
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
checks = []
for f in sorted(glob.glob(os.path.join(HERE, "checks", "c[0-9]*.py"))):
    vals = {}
    for st in ast.parse(open(f).read()).body:
        if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name) and st.targets[0].id in ("LEVEL", "TECHNIQUE", "LEVEL_NOTE"):
            vals[st.targets[0].id] = ast.literal_eval(st.value)
    pid = os.path.basename(f)[:-3].upper()
    checks.append(dict(property=pid, quick_cmd=f"python3 run.py {pid} --tier quick", thorough_cmd=f"python3 run.py {pid} --tier thorough",
                       evidence_file=f"evidence/{pid}.json", technique=vals["TECHNIQUE"], level=vals["LEVEL"], level_note=vals["LEVEL_NOTE"]))
have = {c["property"] for c in checks}
na = [dict(property=json.loads(l)["id"], reason="check under construction") for l in open(os.path.join(HERE, "properties.jsonl"))
      if json.loads(l)["id"] not in have]
m = dict(version=1, setup_cmd="python3 -m py_compile run.py && mkdir -p evidence", checks=checks, not_applicable=na,
         notes="All checks run the real skops from /repo's working tree under python monitors; no hooks in /repo are needed.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
