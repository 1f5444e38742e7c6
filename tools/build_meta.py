#!/usr/bin/env python3
"""regenerates properties.jsonl and MANIFEST.json from tools/meta.py"""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from meta import PROPS, NA
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(root + "/properties.jsonl", "w") as f:
    for p in PROPS + NA:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
m = dict(version=1, setup_cmd="bash /verif/setup.sh", checks=[], not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in NA])
for p in PROPS:
    m["checks"].append(dict(property=p["id"],
                            quick_cmd="bash /verif/run.sh %s quick" % p["id"],
                            thorough_cmd="bash /verif/run.sh %s thorough" % p["id"],
                            technique=p.get("technique", "contract-based deductive verification (VC generation from the C source, exact-real normal form + z3)"),
                            level=p.get("level", "proof"), level_note=p["note"]))
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
t = open(root + "/tools/DESIGN.in").read()
ps = ""
for p in PROPS:
    ps += "## %s — %s\n%s\n\n*Decided by:* %s  \n*Strength:* %s\n\n" % (p["id"], p["title"], p["statement"], p.get("design", p["note"]), p["note"])
for p in NA:
    ps += "## %s — %s (not applicable)\n%s\n\n" % (p["id"], p["title"], p["reason"])
ss = "| planted bug | property | caught by | what it breaks |\n|---|---|---|---|\n"
for sd, d in sorted((root + "/" + a, b) for a in ("seeded", "seeded_extra") if os.path.isdir(root + "/" + a) for b in os.listdir(root + "/" + a)):
    try:
        mm = json.load(open("%s/%s/meta.json" % (sd, d)))
    except OSError:
        continue
    ss += "| %s | %s | %s | %s |\n" % (d, mm["property"], mm.get("caught", mm["property"]), mm["what_it_breaks"])
open(root + "/DESIGN.md", "w").write(t.replace("@@PROPS@@", ps).replace("@@SEEDS@@", ss))
