#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand when a property changes)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []  # (dict property, technique, level_note)


def prop(id, title, statement, over, quant, why, files, mech, technique, note, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = state
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = False
    P.append(({"id": id, "title": title, "statement": statement,
               "quantifier": {"over": over, "text": quant},
               "why_tests_cant": why, "anchors": a}, technique, note))


exec(open(os.path.join(HERE, "tools", "properties.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p, _, _ in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
m = {
    "version": 1,
    "setup_cmd": "bash ./run.sh build",
    "checks": [{"property": p["id"], "quick_cmd": f"bash ./run.sh {p['id']}",
                "thorough_cmd": f"VERIF_TIER=thorough bash ./run.sh {p['id']}",
                "technique": t, "level": "exploration", "level_note": n} for p, t, n in P],
    "not_applicable": NOT_APPLICABLE,
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(P), "properties")
