#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl and MANIFEST.json."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, level="exploration", observe=None):
    assert len(title) <= 80, (id, len(title))
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: anchors["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement,
        quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=anchors,
        _t=technique, _l=level, _n=note))

exec(open(os.path.join(ROOT, "tools", "props_data.py")).read())

ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")

have = [p for p in P if os.path.isdir(os.path.join(ROOT, "harness", p["id"].lower()))]
man = {
  "version": 1,
  "setup_cmd": "bash setup.sh",
  "checks": [{
      "property": p["id"],
      "quick_cmd": "bash check.sh %s quick" % p["id"],
      "thorough_cmd": "bash check.sh %s thorough" % p["id"],
      "technique": p["_t"], "level": p["_l"], "level_note": p["_n"],
  } for p in have],
  "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in P if p not in have],
  "notes": "All checks are property-based tests (pgregory.net/rapid v1.3.0) in separate Go packages under harness/, compiled against /repo's working tree through a replace directive; black box, no hooks in /repo.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False); f.write("\n")
print(len(P), "properties,", len(have), "checks")
