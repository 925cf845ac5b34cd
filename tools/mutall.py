"""tools/mutall.py [--per K] [--seed N] [--file substr] [--max M]: mutants of
every library function, each tried against the checks that analyse it,
cheapest first, until one notices; lists survivors."""
import ast, glob, json, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, "/verif/tools")
import mutate
SRC = "/repo/neural_network_lyapunov"
# --dims 1: only mutants of dimensions (shape[i], dim=, axis=, *_dim)
opt = {"--dims": "", "--per": "3", "--seed": "0", "--file": "", "--max": "600"}
a = sys.argv[1:]
while a:
    k = a.pop(0)
    opt[k] = a.pop(0)
cov, cost = {}, {}
for i in range(1, 40):
    if not os.path.exists('/verif/evidence/C%02d.json' % i):
        continue
    ev = json.load(open('/verif/evidence/C%02d.json' % i))
    cost[i] = float(ev.get("wall_s") or ev.get("duration_s") or i)
    if i in (17, 18, 23):
        continue
    for f in ev["coverage"]["functions_analysed"]:
        cov.setdefault(f, set()).add(i)
SLOW = [17, 18, 23]


def extra(fn):
    out = []
    for n in ast.walk(fn):
        if isinstance(n, ast.If):
            out += [(n, "if", True), (n, "if", False)]
        elif isinstance(n, ast.Assign) and not isinstance(
                n.targets[0], (ast.Name, ast.Tuple)):
            out.append((n, "delassign", None))
        elif isinstance(n, (ast.Break, ast.Continue)):
            out.append((n, "pass", None))
    return out


def skip(fn):
    s = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.Assert, ast.Raise)) or isinstance(
                n, ast.Call) and getattr(n.func, "id", "") == "print":
            for m in ast.walk(n):
                s.add(id(m))
    for d in fn.args.defaults + fn.args.kw_defaults:
        if d is not None:
            for m in ast.walk(d):
                s.add(id(m))
    return s


def apply(n, kind, arg):
    if kind == "if":
        n.test = ast.Constant(arg)
    elif kind == "delassign":
        n.targets = [ast.Name("_unused", ast.Store())]
    elif kind == "dim":
        n.slice = ast.Constant(arg)
    elif kind == "kwdim":
        n.value = ast.Constant(arg)
    elif kind == "attr":
        n.attr = arg
    elif kind == "nameid":
        n.id = arg
    elif kind == "pass":
        n.__class__ = ast.Pass
    else:
        mutate.apply(n, kind, arg)


DIMS = {"x_dim": ["u_dim", "q_dim"], "u_dim": ["x_dim"], "nx": ["nu"],
        "q_dim": ["x_dim"], "nq": ["nv", "nu"], "nv": ["nu"], "nu": ["nx"],
        "num_input": ["num_slack"], "in_features": ["out_features"],
        "out_features": ["in_features"]}


def dimsites(fn):
    out = []
    for n in ast.walk(fn):
        if isinstance(n, ast.Subscript) and isinstance(
                n.value, ast.Attribute) and n.value.attr == "shape" and \
                isinstance(n.slice, ast.Constant):
            out.append((n, "dim", 1 - n.slice.value))
        elif isinstance(n, ast.keyword) and n.arg in ("dim", "axis") and \
                isinstance(n.value, ast.Constant) and n.value.value in (0, 1):
            out.append((n, "kwdim", 1 - n.value.value))
        elif isinstance(n, ast.Attribute) and n.attr in DIMS:
            out += [(n, "attr", d) for d in DIMS[n.attr]]
        elif isinstance(n, ast.Name) and n.id in DIMS and isinstance(
                n.ctx, ast.Load):
            out += [(n, "nameid", d) for d in DIMS[n.id]]
    return out


def allsites(fn):
    sk = skip(fn)
    if opt["--dims"]:
        for n in ast.walk(fn):
            if not hasattr(n, "lineno"):
                n.lineno = fn.lineno
        return [s for s in dimsites(fn) if id(s[0]) not in sk]
    return [s for s in mutate.sites(fn) + extra(fn) if id(s[0]) not in sk]


def find(tree, q):
    def walk(node, pre):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, ast.FunctionDef):
                yield pre + c.name, c
            elif isinstance(c, ast.ClassDef):
                yield from walk(c, pre + c.name + ".")
    return [f for n, f in walk(tree, "") if n == q]


rnd = random.Random(int(opt["--seed"]))
jobs = []
for p in sorted(glob.glob(SRC + "/*.py")):
    if opt["--file"] not in p:
        continue
    tree = ast.parse(open(p).read())
    mod = os.path.basename(p)[:-3]

    def walk(node, pre):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, ast.FunctionDef):
                yield pre + c.name, c
            elif isinstance(c, ast.ClassDef):
                yield from walk(c, pre + c.name + ".")
    for q, fn in walk(tree, ""):
        cs = set()
        for k, v in cov.items():
            if k.endswith("." + mod + "." + q) or k == mod + "." + q:
                cs |= v
        if not cs:
            continue
        allk, local = mutate.known_names(fn, tree)
        js = []
        for i, (n, kind, arg) in enumerate(allsites(fn)):
            if isinstance(n, ast.Constant) and isinstance(n.value, str):
                continue
            if kind == "name" and arg not in (
                    local if isinstance(n, ast.Name) else allk):
                continue
            js.append((p, q, i, kind, arg, n.lineno,
                       sorted(cs, key=lambda c: cost[c])))
        rnd.shuffle(js)
        jobs += js[:int(opt["--per"])]
rnd.shuffle(jobs)
jobs = jobs[:int(opt["--max"])]
print(len(jobs), "mutants", flush=True)


def run(k):
    p, q, i, kind, arg, ln, cs = jobs[k]
    w = "/tmp/mutall/%d_%d" % (os.getpid(), k)
    shutil.copytree(SRC, w + "/neural_network_lyapunov",
                    ignore=shutil.ignore_patterns("test", "__pycache__"))
    f = w + "/neural_network_lyapunov/" + os.path.basename(p)
    tree = ast.parse(open(f).read())
    fn = find(tree, q)[0]
    n = allsites(fn)[i][0]
    old = ast.unparse(n)[:90].split("\n")[0]
    apply(n, kind, arg)
    try:
        src = ast.unparse(ast.fix_missing_locations(tree))
        compile(src, f, "exec")
    except Exception:
        shutil.rmtree(w)
        return
    open(f, "w").write(src)
    res = []
    for c in cs:
        e = dict(os.environ, SA_REPO=w, SA_EVIDENCE=w, VERIF_TIER="quick")
        try:
            r = subprocess.run(["python3", "-m", "sa.run", "C%02d" % c],
                               cwd="/verif", env=e, capture_output=True,
                               text=True, timeout=900)
            u = sum(l.startswith("UNDECIDED") for l in r.stdout.split("\n"))
            res.append((c, r.returncode, u))
            if r.returncode == 1:
                break
        except subprocess.TimeoutExpired:
            res.append((c, "T", 0))
    shutil.rmtree(w)
    dead = res[-1][1] == 1
    print("%s %s:%d %s %s %s [%s] %s" % (
        "killed" if dead else "SURVIVED", os.path.basename(p), ln, q, kind,
        arg, old, [r for r in res if r[1] or r[2]] if not dead else
        res[-1][0]), flush=True)


os.makedirs("/tmp/mutall", exist_ok=True)
with ThreadPoolExecutor(int(os.environ.get("NW", "6"))) as ex:
    list(ex.map(run, range(len(jobs))))
