#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note,
         claimed=True):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, claimed=claimed))


MODEL = ("model-based monitoring of the real code under random histories, "
         "with ASan, UBSan, LeakSanitizer and MSan builds")

exec(open(os.path.join(HERE, "tools", "props_sql.py")).read())
exec(open(os.path.join(HERE, "tools", "props_util.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w}
                                      for n, w in p["mech"]]}}) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3 check.py %s quick" % p["id"],
        "thorough_cmd": "python3 check.py %s thorough" % p["id"],
        "technique": p["technique"], "level": "exploration",
        "level_note": p["note"]} for p in P if p["claimed"]],
    "not_applicable": [{"property": p["id"], "reason": p["note"]}
                       for p in P if not p["claimed"]],
    "notes": "No hooks: nothing in /repo is guarded; interposition happens "
             "with -include headers and stand-ins under /verif.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
