#!/usr/bin/env python3
"""Writes DESIGN.md from properties.jsonl, props_data.py, known_findings.txt and seeded/."""
import glob, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from design_notes import HEAD, NOTES, TAIL, MISSED
P = {}
for l in open(ROOT + "/properties.jsonl"):
    d = json.loads(l); P[d["id"]] = d
seeds = {}
for m in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    d = json.load(open(m)); seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d))
fixed, finding = {}, {}
for l in open(ROOT + "/known_findings.txt"):
    l = l.strip()
    if l.startswith("fixed:"):
        _, p, c, what = l.split(" ", 3); fixed.setdefault(p.split("=")[1], []).append((c, what))
    elif l.startswith("finding:"):
        _, p, what = l.split(" ", 2); finding.setdefault(p.split("=")[1], []).append(what)
out = [HEAD.strip(), "", "## Per property", ""]
old = {}
def prop(id, title, statement, over, text, why, files, mech, technique, note, level="exploration", observe=None):
    own = note.replace(TRUST, "").strip() if "TRUST" in globals() else note
    old[id] = ["- How: %s (%s)." % (technique, level), "- Ranges over: %s." % text, "- Oracle and bounds: %s" % own,
               "- Beyond the tests: %s." % why, "- Anchors: %s." % "; ".join("%s (%s)" % m for m in mech)]
exec(open(HERE + "/props_data.py").read())
for pid in sorted(P):
    out += ["### %s %s" % (pid, P[pid]["title"]), ""]
    out += old[pid]
    for n in NOTES.get(pid, []):
        out.append("- Not judged / domain: " + n if not n.startswith("!") else "- Note: " + n[1:])
    for w in finding.get(pid, []):
        out.append("- Known finding: " + w)
    if pid in fixed:
        out.append("- Repaired in /repo: %d defects (%s; what each was is in known_findings.txt)" % (len(fixed[pid]), ", ".join(c for c, _ in fixed[pid])))
    for s, d in seeds.get(pid, []):
        out.append("- Planted bug `%s` (needs %s): caught by %s quick%s" % (s, d["needs"].strip().rstrip("."), pid, MISSED.get(s, "")))
    out.append("")
out.append(TAIL.strip())
open(ROOT + "/DESIGN.md", "w").write("\n".join(out) + "\n")
