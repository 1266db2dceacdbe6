#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: python3 gen/props.py rewrites both.
A property is claimed when its rule file exists; otherwise its `na` text is its not-applicable reason."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, stmt, over, qtext, why, files, mech, na=None, tech=None, note=None, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=stmt, over=over.split(), qtext=qtext, why=why, files=files.split(), mech=mech, na=na, tech=tech, note=note, observe=observe or [], state=state or []))


exec(open(os.path.join(HERE, "gen", "table.py")).read())

assert len({x["id"] for x in P}) == len(P)
with open(HERE + "/properties.jsonl", "w") as f:
    for x in sorted(P, key=lambda x: x["id"]):
        assert len(x["title"]) <= 80, x["title"]
        o = {"id": x["id"], "title": x["title"], "statement": x["statement"], "quantifier": {"over": x["over"], "text": x["qtext"]},
             "why_tests_cant": x["why"],
             "anchors": {"files": x["files"], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]], "observe_at": x["observe"], "hook_needed": None}}
        if x["state"]:
            o["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in x["state"]]
        f.write(json.dumps(o) + "\n")
checks, na = [], []
for x in sorted(P, key=lambda x: x["id"]):
    if x["tech"] and os.path.exists(HERE + "/rules/%s.py" % x["id"].lower()):
        checks.append({"property": x["id"], "quick_cmd": "python3 check.py %s quick" % x["id"], "thorough_cmd": "python3 check.py %s thorough" % x["id"],
                       "technique": x["tech"], "level": "other", "level_note": x["note"]})
    else:
        na.append({"property": x["id"], "reason": x["na"] or "rule not built yet"})
m = {"version": 1, "setup_cmd": "bash tool/build.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks are static: they analyse the AST/CFG clang 18 resolves from /repo's current sources. See DESIGN.md."}
with open(HERE + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print("%d claimed, %d not applicable" % (len(checks), len(na)))
