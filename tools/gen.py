#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand, results committed)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/megatron/energon/"
W = S + "wrappers/"



def main():
    from props import PROPS, NA
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"],
                             mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                             observe_at=p["observe"]))) + "\n")
    na = dict(NA)
    checks = [dict(property=p["id"], quick_cmd=f"./check {p['id']} quick",
                   thorough_cmd=f"./check {p['id']} thorough",
                   technique="dynamic symbolic execution of the real Python code, assertions decided by z3",
                   level="model_checking", level_note=p["note"])
              for p in PROPS if p["id"] not in na]
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks,
             not_applicable=[dict(property=k, reason=v) for k, v in na.items()],
             notes="All checks share one engine (vt/engine.py, vt/shim.py, vt/run.py, vt/env.py); bounds are "
                   "per instance in the evidence files. known_findings.json lists genuine defects that are "
                   "recorded, and those repaired by fix: commits in /repo.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    for p in PROPS:
        if p["id"] not in na:
            assert os.path.exists(os.path.join(ROOT, "vt", "harness", p["id"].lower() + ".py")), p["id"]


if __name__ == "__main__":
    main()
