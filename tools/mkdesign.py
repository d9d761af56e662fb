"""writes DESIGN.md: the text of tools/design_head.md, one section per property (from tools/props.py and the last evidence), the seeds"""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
sys.dont_write_bytecode = True
import props
out = [open(os.path.join(V, "tools", "design_head.md")).read().rstrip(), "", "## The properties, one by one", ""]
fixes = {}
for l in open(os.path.join(V, "KNOWN_FINDINGS.txt")):
    if l.startswith(("fixed: property=", "finding: property=")):
        fixes.setdefault(l.split("property=")[1].split()[0], []).append(l.strip())
seeds = {}
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    seeds.setdefault(m["property"], []).append((os.path.basename(d), m))
for p in sorted(props.P, key=lambda p: p["id"]):
    i = p["id"]
    ev = os.path.join(V, "evidence", i + ".json")
    if p.get("na"):
        continue
    if not os.path.exists(os.path.join(V, "checks", i.lower() + ".py")) or not os.path.exists(ev):
        continue
    e = json.load(open(ev))
    c = e["coverage"]
    out.append(f"### {i} {p['title']}")
    out.append(f"*Specified:* {p['statement']}")
    out.append(f"*Decided by* {p['tech'] or 'abstract interpretation'}. {c['explanation'][0].upper() + c['explanation'][1:]}.")
    out.append(f"*Range:* {p['qtext']}. Last run: {c['obligations']} obligations on {c['functions_analysed']} functions, {c['abstract_paths']} abstract paths, {len(c['undecided'])} undecided.")
    if e.get("assumptions"):
        out.append("*Assumes:* " + "; ".join(e["assumptions"]) + ".")
    out.append(f"*Why tests cannot settle it:* {p['why']}.")
    for f in fixes.get(i, []):
        out.append("*" + ("Defect repaired" if f.startswith("fixed") else "Known finding") + ":* " + f.split(i, 1)[1].strip())
    for s, m in seeds.get(i, []):
        out.append(f"*Planted {s}:* {m['what_it_breaks']} (needs: {m['needs']}) - {m.get('caught', 'caught')}.")
    out.append("")
out += ["## Not applicable", ""]
for p in props.P:
    if p.get("na"):
        out.append(f"* **{p['id']} {p['title']}**: {p['na']}")
open(os.path.join(V, "DESIGN.md"), "w").write("\n\n".join(x for x in "\n".join(out).replace("\n\n", "\0").split("\0")) + "\n")
