import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
sys.dont_write_bytecode = True
import props
drop = set()
rows, checks, na = [], [], []
for p in props.P:
    have = os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py")) and not p.get("na")
    if not have and not p.get("na"):
        continue
    rows.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}})
    assert len(p["title"]) <= 80, p["title"]
    if have:
        checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}",
                       "thorough_cmd": f"env VERIF_TIER=thorough python3 check.py {p['id']}",
                       "technique": "static analysis: " + (p["tech"] or "abstract interpretation"), "level": "other",
                       "level_note": (p["note"] + props.GEN_NOTE).strip()})
    else:
        na.append({"property": p["id"], "reason": p["na"]})
with open(os.path.join(V, "properties.jsonl"), "w") as fh:
    for r in rows:
        fh.write(json.dumps(r) + "\n")
m = {"version": 1, "setup_cmd": "python3 -m engine.db", "checks": checks, "not_applicable": na,
     "notes": "All checks are static analyses of /repo's current sources; see DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
