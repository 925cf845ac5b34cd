"""functions of the core modules analysed by no check (from evidence/)"""
import ast, glob, json, os, sys
SRC = "/repo/neural_network_lyapunov"
cov = {}
for f in glob.glob(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence", "C*.json")):
    if "replay" in f:
        continue
    d = json.load(open(f))
    for n in d["coverage"].get("functions_analysed", []):
        cov.setdefault(n, []).append(d["property"])
for f in sorted(glob.glob(SRC + "/*.py") + (glob.glob(SRC + "/examples/**/*.py", recursive=True) if "-x" in sys.argv else [])):
    t = ast.parse(open(f).read())
    m = os.path.relpath(f, SRC)[:-3].replace("/", ".")
    def walk(b, pre):
        for n in b:
            if isinstance(n, ast.FunctionDef):
                q = pre + n.name
                if m + "." + q not in cov:
                    print(m, q, n.end_lineno - n.lineno + 1)
            elif isinstance(n, ast.ClassDef):
                walk(n.body, pre + n.name + ".")
    walk(t.body, "")
