#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and checks.json from the one list below."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, pkg, technique, note, race=False, cli=False,
         level="exploration", observe=None, **kw):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  pkg=pkg, technique=technique, note=note, race=race, cli=cli, level=level, observe=observe, kw=kw))


exec(open(os.path.join(V, "tools", "list.py"), encoding="utf-8").read())

with open(os.path.join(V, "properties.jsonl"), "w", encoding="utf-8") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["observe"]:
            a["observe_at"] = p["observe"]
        a["hook_needed"] = None
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["quant"]},
                            "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")

checks = {}
man = {"version": 1, "setup_cmd": "python3 /verif/run.py --setup", "checks": [], "not_applicable": [],
       "notes": "All checks are property-based tests (rapid, vendored in third_party/rapid) that use only exported "
                "APIs of /repo and the ocibuild binary built from it; no hooks in /repo. See DESIGN.md."}
for p in P:
    c = {"pkg": p["pkg"], "level": p["level"]}
    if p["race"]:
        c["race"] = True
    if p["cli"]:
        c["cli"] = True
    c.update(p["kw"])
    checks[p["id"]] = c
    man["checks"].append({"property": p["id"], "quick_cmd": "python3 /verif/run.py %s quick" % p["id"],
                          "thorough_cmd": "python3 /verif/run.py %s thorough" % p["id"],
                          "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"],
                          "level": p["level"], "level_note": p["note"]})
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
with open(os.path.join(V, "checks.json"), "w") as f:
    f.write("{\n" + ",\n".join(" %s: %s" % (json.dumps(k), json.dumps(v)) for k, v in checks.items()) + "\n}\n")
