"""The property table: properties.jsonl and MANIFEST.json are generated from
it (python3 tools/props.py)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
TECH = ("abstract interpretation of the current source into algebraic normal "
        "forms (global value numbering, state joins at branches)")
NOTE = ("Decides the listed obligations for all real values of the symbols "
        "at the sizes analysed, from the current source, without running it. "
        "Trusts the abstract models of numpy / torch / gurobi primitives; "
        "ignores floating-point rounding. Normal forms that differ only by "
        "an identity outside the rewriting rules are compared by randomised "
        "identity testing of the normal forms (counted apart in the "
        "evidence).")


def prop(id, title, statement, over, qtext, why, files, mechanism,
         observe_at=None, na=None, technique=None, note=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": a, "where": b}
                                   for a, b in mechanism]}}
    if observe_at:
        d["anchors"]["observe_at"] = observe_at
    P.append((d, na, technique or TECH, note or NOTE))


NN = "neural_network_lyapunov/"
EXD = NN + "examples/"

exec(open(os.path.join(HERE, "tools", "props_data.py")).read())


def main():
    P.sort(key=lambda t: t[0]["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for d, _, _, _ in P:
            assert len(d["title"]) <= 80, d["id"]
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for d, n, tech, note in P:
        i = d["id"]
        if n:
            na.append({"property": i, "reason": n})
            continue
        if not os.path.exists(os.path.join(HERE, "sa", "checks",
                                           i.lower() + ".py")):
            print("no check for", i)
            continue
        checks.append({"property": i,
                       "quick_cmd": "python3 -m sa.run %s" % i,
                       "thorough_cmd": "python3 -m sa.run %s --tier thorough"
                       % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": tech, "level": "other",
                       "level_note": note})
    m = {"version": 1, "setup_cmd": "python3 -m compileall -q sa",
         "checks": checks, "not_applicable": na,
         "notes": "One family: static analysis. No hooks in /repo. Genuine "
         "defects found are repaired in 'fix:' commits, see DESIGN.md and "
         "known_findings.json."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
    print(len(checks), "checks", len(na), "na")


main()
os.system("python3 %s/tools/design.py" % HERE)
