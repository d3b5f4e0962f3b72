#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (keeps them in step)."""
import json
import pathlib

V = pathlib.Path(__file__).resolve().parent.parent
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, claimed=True, reason=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, claimed=claimed, reason=reason, state=state))


exec((V / "tools" / "props_data.py").read_text())

lines, checks, na = [], [], []
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
    if p["state"]:
        a["state"] = [{"name": n, "meaning": m} for n, m in p["state"]]
    lines.append(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                             "quantifier": {"over": p["over"], "text": p["text"]},
                             "why_tests_cant": p["why"], "anchors": a}))
    built = (V / "checks" / (p["id"].lower() + ".py")).exists()
    if p["claimed"] and built:
        checks.append({"property": p["id"], "quick_cmd": f"bash run.sh {p['id']} quick",
                       "thorough_cmd": f"bash run.sh {p['id']} thorough",
                       "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p["reason"] or "check under construction"})
(V / "properties.jsonl").write_text("\n".join(lines) + "\n")
(V / "MANIFEST.json").write_text(json.dumps({
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c 'import numpy, scipy, sklearn, pandas'",
    "checks": checks, "not_applicable": na,
    "notes": "No hooks in /repo: every check drives the public API (and replaces statistical/random oracles by identity scan at run time). fix: commits are recorded in known_findings.jsonl.",
}, indent=1) + "\n")
print(len(checks), "claimed;", len(na), "not claimed")
