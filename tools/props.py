#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, tech=None,
         note=None, na=None, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech, tech=tech,
                  note=note, na=na, observe=observe or [], state=state))


exec(open(os.path.join(D, "tools", "proplist.py")).read())

with open(os.path.join(D, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        a = {"files": p["files"],
             "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
             "observe_at": p["observe"], "hook_needed": None}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w}
                          for n, m, w in p["state"]]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"], "anchors": a}) + "\n")

m = {"version": 1,
     "setup_cmd": "python3 -m compileall -q lib checks",
     "checks": [], "not_applicable": []}
for p in P:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        c = "python3 checks/%s.py" % p["id"].lower()
        m["checks"].append({
            "property": p["id"], "quick_cmd": c,
            "thorough_cmd": c + " --thorough",
            "technique": p["tech"], "level": "other",
            "level_note": p["note"]})
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(D, "MANIFEST.json"), "a").write("\n")
print(len(P), "properties,", len(m["checks"]), "claimed")
