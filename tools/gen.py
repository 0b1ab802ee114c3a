"""writes properties.jsonl and MANIFEST.json from meta.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
import meta
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(f"{V}/properties.jsonl", "w") as f:
    for p in meta.P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p.get("observe", ["return values of the public functions named in files"]), "hook_needed": None}}) + "\n")
checks, na = [], []
for p in meta.P:
    i = p["id"]
    if i in meta.NA:
        na.append({"property": i, "reason": meta.NA[i]})
    elif not os.path.exists(f"{V}/props/{i.lower()}.py"):
        na.append({"property": i, "reason": "check not built yet"})
    else:
        import design
        bounds = design.consts(i)["BOUNDS"]
        cmd = f"/opt/venv/bin/python check.py {i} --tier "
        checks.append({"property": i, "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough", "technique": p.get("tech", meta.TECH),
            "level": "model_checking", "level_note": p.get("note", "Every path of the code under test within the bounds (" + bounds + ") is executed symbolically and decided by z3; floating point is treated as exact real arithmetic, tolerance strips below 1e-3 are excluded; a violation is reported only after the counterexample fails on the real code.")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
    "notes": "No hooks in /repo: the engine patches module globals at run time. fix: commits are listed in known_findings.json."}, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
