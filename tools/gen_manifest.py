#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property that has a driver."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.join(HERE, "..")
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NOTES = {}
exec(open(os.path.join(HERE, "notes_table.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    drv = [x for x in (i + ".cpp", i + ".py") if os.path.exists(os.path.join(ROOT, "checks", x))]
    if not drv:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no monitor has been built for it yet")})
        continue
    src = open(os.path.join(ROOT, "checks", drv[0])).read()
    if drv[0].endswith(".py"):
        tech = "runtime monitoring: reference-model oracle over recorded executions of the real Python code"
    elif "@san thread" in src:
        tech = "runtime monitoring: ThreadSanitizer build plus offline history checker on stressed executions"
    else:
        tech = "runtime monitoring: ASan+UBSan build, reference-model oracle over randomised executions"
    checks.append({
        "property": i,
        "quick_cmd": "python3 run.py %s --tier quick" % i,
        "thorough_cmd": "python3 run.py %s --tier thorough" % i,
        "technique": tech,
        "level": "exploration",
        "level_note": LEVEL_NOTES.get(i, STANDIN_NOTE if needs_standin(src) else DEFAULT_NOTE),
    })
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks are compiled into /repo: every monitor observes public interfaces. Known findings are listed in known_findings.txt."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
