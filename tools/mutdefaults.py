"""Change the default of one argument at a time; list what no check notices."""
import ast, glob, json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
SRC = "/repo/neural_network_lyapunov"
cov, cost = {}, {}
for i in range(1, 31):
    ev = json.load(open('/verif/evidence/C%02d.json' % i))
    cost[i] = float(ev.get("wall_s") or ev.get("duration_s") or i)
    if i in (17, 18, 23):
        continue
    for f in ev["coverage"]["functions_analysed"]:
        cov.setdefault(f, set()).add(i)
jobs = []


def alt(v):
    s = ast.unparse(v)
    if isinstance(v, ast.Constant):
        if isinstance(v.value, bool):
            return str(not v.value)
        if isinstance(v.value, (int, float)):
            return "%r" % (v.value * 3 if v.value else 1.)
        if v.value == "mean":
            return "'max'"
        return None
    return {"gurobipy.GRB.BINARY": "gurobipy.GRB.CONTINUOUS",
            "gurobipy.GRB.INFINITY": "1.",
            "gurobipy.GRB.CONTINUOUS": "gurobipy.GRB.BINARY",
            "mip_utils.PropagateBoundsMethod.IA":
            "mip_utils.PropagateBoundsMethod.MIP",
            "torch.float64": "torch.float32"}.get(s)


def walk(f, node, q):
    for c in ast.iter_child_nodes(node):
        if isinstance(c, ast.ClassDef):
            walk(f, c, q + [c.name])
        elif isinstance(c, ast.FunctionDef):
            a = c.args
            d = list(zip(a.args[len(a.args) - len(a.defaults):],
                         a.defaults)) + [
                (k, v) for k, v in zip(a.kwonlyargs, a.kw_defaults) if v]
            name = '.'.join([os.path.basename(f)[:-3]] + q + [c.name])
            for p, v in d:
                n = alt(v)
                if n is None:
                    continue
                cs = [x for k, x in cov.items() if k.endswith(name)]
                jobs.append((f, v.lineno, v.col_offset, v.end_col_offset, n,
                             name, p.arg, ast.unparse(v),
                             sorted(cs[0], key=cost.get) if cs else []))


for f in sorted(glob.glob(SRC + "/*.py")):
    walk(f, ast.parse(open(f).read()), [])


def run(k):
    f, l, a, b, n, name, arg, old, cs = jobs[k]
    w = "/tmp/mutdef/%d" % k
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo", w, ignore=shutil.ignore_patterns(".git"))
    p = os.path.join(w, os.path.relpath(f, "/repo"))
    L = open(p).read().split("\n")
    L[l - 1] = L[l - 1][:a] + n + L[l - 1][b:]
    open(p, "w").write("\n".join(L))
    e = dict(os.environ, SA_REPO=w, SA_EVIDENCE=w + "/ev")
    os.makedirs(w + "/ev")
    r = []
    for c in cs:
        rc = subprocess.run([sys.executable, "-m", "sa.run", "C%02d" % c],
                            cwd="/verif", env=e, capture_output=True).returncode
        r.append((c, rc))
        if rc == 1:
            break
    shutil.rmtree(w, ignore_errors=True)
    return k, r


with ThreadPoolExecutor(int(os.environ.get("NW", "4"))) as ex:
    for k, r in ex.map(run, range(len(jobs))):
        f, l, a, b, n, name, arg, old, cs = jobs[k]
        print("killed" if any(x[1] == 1 for x in r) else "SURVIVED", name,
              arg, old, "=>", n, r, flush=True)
