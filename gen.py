#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from the check modules and na.py."""
import importlib
import json
import os
import re
import sys

sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import na  # noqa: E402


def line(pid, p):
    return {"id": pid, "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why_tests_cant"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                        **({"observe_at": p["observe"]} if p.get("observe") else {})}}


def main():
    ids = sorted(f[:-3].upper() for f in os.listdir(os.path.join(here, "checks")) if re.fullmatch(r"c\d\d\.py", f))
    props, checks = [], []
    for pid in ids:
        m = importlib.import_module(f"checks.{pid.lower()}")
        props.append(line(pid, m.PROP))
        checks.append({"property": pid, "quick_cmd": f"/usr/bin/python3 run.py {pid}",
                       "thorough_cmd": f"/usr/bin/python3 run.py {pid} --thorough", "technique": m.TECHNIQUE,
                       "level": "other", "level_note": m.LEVEL_NOTE})
    for pid, p in na.NA.items():
        props.append(line(pid, p))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in props:
            f.write(json.dumps(p) + "\n")
    man = {"version": 1, "setup_cmd": "/usr/bin/python3 -c \"import ast, sys; sys.exit(0)\"", "checks": checks,
           "not_applicable": [{"property": pid, "reason": p["reason"]} for pid, p in na.NA.items()]}
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    for p in props:
        n = len(re.findall(r"[.!?](\s|$)", p["statement"]))
        if n > 3 or len(p["title"]) > 80:
            print("check statement/title:", p["id"], n, len(p["title"]))


main()
