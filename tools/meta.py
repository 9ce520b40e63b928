#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the property table."""

import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
sys.dont_write_bytecode = True
from props import NOT_APPLICABLE, PROPS  # noqa: E402

TECH = "symbolic execution of the real functions, obligations decided by an SMT solver (z3), counterexamples replayed on the untouched code"


def main():
    lines, checks = [], []
    for p in PROPS:
        pid = p["id"]
        have = glob.glob(os.path.join(HERE, "checks", pid.lower() + "_*.py"))
        na = pid in NOT_APPLICABLE
        if not have and not na:
            continue
        lines.append(
            {
                "id": pid,
                "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                    "observe_at": p.get("observe", []),
                    "hook_needed": None,
                },
            }
        )
        assert len(p["title"]) <= 80, pid
        if have:
            checks.append(
                {
                    "property": pid,
                    "quick_cmd": f"/opt/venv/bin/python run.py {pid} --tier quick",
                    "thorough_cmd": f"/opt/venv/bin/python run.py {pid} --tier thorough",
                    "technique": TECH,
                    "level": "model_checking",
                    "level_note": p.get("note", "bounded: every input value within the stated sizes and configurations is decided by the solver, on real arithmetic; nothing is claimed beyond those sizes"),
                    "evidence_file": f"evidence/{pid}.json",
                }
            )
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for x in lines:
            f.write(json.dumps(x) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python setup_check.py",
        "checks": checks,
        "not_applicable": [
            {"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()
        ],
        "notes": "All checks encode /repo/src at run time by executing it on symbolic values; nothing is cached between runs. See DESIGN.md.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(lines), "properties", len(checks), "checks")


main()
