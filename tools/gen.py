#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand, output committed)."""
import json, os, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, na=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, na=na))


exec(open(os.path.join(ROOT, "tools", "props.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]},
                            "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"],
                                        "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
checks, na = [], []
for p in P:
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
    elif not glob.glob(os.path.join(ROOT, "checks", p["id"].lower() + "_*.py")):
        na.append({"property": p["id"], "reason": "check not built yet"})
    else:
        checks.append({"property": p["id"],
                       "quick_cmd": "./check.sh %s quick" % p["id"],
                       "thorough_cmd": "./check.sh %s thorough" % p["id"],
                       "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "./setup.sh",
           "hooks": {"guard": "YUCA_VERIF_UNUSED", "enable": "no hooks: the checks drive yuca through its public API and replace only the environment (MPI communicator, clock, image writer, shell, file system faults)", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "All checks are bounded exhaustive explorations of the real code against small reference models; see DESIGN.md."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks,", len(na), "not claimed")
