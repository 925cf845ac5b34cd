"""DESIGN.md = design_head.md + one section per property, generated from
properties.jsonl, the check modules, known_findings.json and seeded/."""
import ast
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(HERE)
props = [json.loads(l) for l in open("properties.jsonl")]
man = json.load(open("MANIFEST.json"))
tech = {c["property"]: c["technique"] for c in man["checks"]}
na = {c["property"]: c["reason"] for c in man["not_applicable"]}
known = json.load(open("known_findings.json"))["findings"]
seeds = {}
for f in sorted(glob.glob("seeded/*/meta.json")):
    d = json.load(open(f))
    seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(f)), d))
extra = {}
if os.path.exists("tools/design_extra.json"):
    extra = json.load(open("tools/design_extra.json"))
out = [open("tools/design_head.md").read(), "## Properties\n"]
for p in props:
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    if i in na:
        out.append("Not applicable: %s\n" % na[i])
        continue
    m = "sa/checks/%s.py" % i.lower()
    if i not in tech:
        continue
    t = ast.parse(open(m).read())
    v = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                v[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    out.append("*Analysed by* `%s`: %s\n" % (m, tech[i]))
    out.append("*How.* %s\n" % v["EXPLANATION"])
    out.append("*Bounds.* %s.\n" % p["quantifier"]["text"].rstrip("."))
    out.append("*Trusted.* %s.\n" % "; ".join(v["ASSUMPTIONS"]))
    out.append("*Why not tests.* %s\n" % p["why_tests_cant"])
    if seeds.get(i):
        out.append("*Planted bugs.*\n")
        for s, d in seeds[i]:
            out.append("- `%s`: %s (needs: %s)%s" % (
                s, d["what_it_breaks"], d["needs"],
                " - missed first" if s in extra.get("missed_first", []) else ""))
        out.append("")
    k = [f for f in known if f["property"] == i]
    if k:
        out.append("*Defects found.*\n")
        for f in k:
            out.append("- %s" % f["line"] if f["status"] == "fixed" else
                       "- open (`%s`): %s" % (f["key"], f["what"]))
        out.append("")
    if i in extra:
        out.append(extra[i] + "\n")
if extra.get("tail"):
    out.append(extra["tail"])
open("DESIGN.md", "w").write("\n".join(out) + "\n")
