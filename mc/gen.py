#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from mc/meta.py and the property modules present."""
import json
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import meta  # noqa: E402

props, checks = [], []
for p in meta.PROPS:
    pid = p["id"]
    if not os.path.exists(os.path.join(HERE, "props", pid + ".py")):
        print("no module yet:", pid)
        continue
    props.append({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")})
    assert len(p["title"]) <= 80, pid
    checks.append({
        "property": pid,
        "quick_cmd": "python3 mc/run.py " + pid,
        "thorough_cmd": "VERIF_TIER=thorough python3 mc/run.py " + pid,
        "technique": p.get("technique", "bounded exhaustive exploration of the real code (stateless model checking of "
                                        "input/option/history choice trees) against an executable reference model"),
        "level": "model_checking",
        "level_note": p["note"],
    })
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
man = {"version": 1, "setup_cmd": "python3 mc/build.py", "checks": checks, "not_applicable": meta.NOT_APPLICABLE,
       "notes": meta.NOTES}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
import importlib  # noqa: E402
out = []
for p in meta.PROPS:
    m = importlib.import_module("props." + p["id"])
    out += ["", "### %s %s" % (p["id"], p["title"]), "", "- **Enumerated:** " + m.RULE, "- **Oracle:** " + meta.ORACLE[p["id"]] + ".",
            "- **Bounds (quick tier):** " + "; ".join("%s: %s" % (x.name, x.bound) for x in m.spaces("quick")) + ".",
            "- **Assumed or left out:** " + "; ".join(m.ASSUMPTIONS) + ".", "- **Cost:** about %d s on 8 cores." % meta.COST[p["id"]],
            "- **Beyond the tests:** " + p["why_tests_cant"]]
d = os.path.join(ROOT, "DESIGN.md")
text = open(d).read()
a, b = "<!-- properties (generated by mc/gen.py) -->", "<!-- end of properties -->"
if a in text:
    text = text.split(a)[0] + a + "\n".join(out) + "\n" + b + text.split(b)[1]
a, b = "<!-- planted bugs (generated by mc/gen.py) -->", "<!-- end of planted bugs -->"
if a in text and os.path.isdir(os.path.join(ROOT, "seeded")):
    rows = ["| planted bug | breaks | needs | caught by |", "|---|---|---|---|"]
    for x in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        j = json.load(open(os.path.join(ROOT, "seeded", x, "meta.json")))
        rows.append("| %s | %s | %s | %s |" % (x, j["what_it_breaks"].replace("|", "or"), j["needs"].replace("|", "or"), j["property"]))
    text = text.split(a)[0] + a + "\n" + "\n".join(rows) + "\n" + b + text.split(b)[1]
with open(d, "w") as f:
    f.write(text)
print(len(props), "properties")
