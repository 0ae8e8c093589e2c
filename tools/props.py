#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "libhfst/src/"
P = []
NOT_APPLICABLE = []

def prop(id, title, statement, text, why, files, mech, tech, note, over=("inputs",), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files,
                  mech=mech, tech=tech, note=note, observe=list(observe)))

exec(open(V + "/tools/props_data.py").read())

with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["observe"]:
            a["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [
    {"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"python3 check.py {p['id']} --thorough",
     "technique": p["tech"], "level": "exploration", "level_note": p["note"]} for p in P],
    "not_applicable": NOT_APPLICABLE}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(V + "/MANIFEST.json", "a").write("\n")
