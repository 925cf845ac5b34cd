"""tools/mutate.py CHECK [--fn substr] [--file substr] [--max N] [--only-survivors]
One-site AST mutants of the functions the check analysed; lists survivors."""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/neural_network_lyapunov"
PAIRS = [("lo", "up"), ("lb", "ub"), ("in", "eq"), ("input", "slack"), ("slack", "binary"), ("1", "2"),
         ("x", "u"), ("x", "y"), ("min", "max"), ("lower", "upper"), ("minimum", "maximum"),
         ("Ain", "Aeq"), ("r", "zeta"), ("pos", "neg"), ("next", "")]


DETACH = False
INPLACE = {ast.Add: "add_", ast.Sub: "sub_", ast.Mult: "mul_", ast.Div: "div_"}
CUT = "(lambda _v: _v.detach() if isinstance(_v, torch.Tensor) else _v)(X)"


def cuts(fn):
    out = []
    for n in ast.walk(fn):
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Return)) and \
                n.value is not None and not isinstance(
                    n.value, ast.Constant):
            out.append((n, "cut", "value"))
        elif isinstance(n, ast.BinOp):
            out.append((n, "cut", "left"))
            out.append((n, "cut", "right"))
        elif isinstance(n, ast.Call):
            for i in range(len(n.args)):
                if not isinstance(n.args[i], (ast.Constant, ast.Starred)):
                    out.append((n, "cut", i))
    return out


def inplaces(fn):
    return [(n, "inplace", INPLACE[type(n.op)]) for n in ast.walk(fn)
            if isinstance(n, ast.BinOp) and type(n.op) in INPLACE and
            isinstance(n.left, (ast.Name, ast.Attribute, ast.Subscript))]


def sites(fn):
    if DETACH == "inplace":
        return inplaces(fn)
    if DETACH:
        return cuts(fn)
    out = []
    for n in ast.walk(fn):
        if isinstance(n, ast.BinOp):
            alt = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
                   ast.Div: ast.Mult}.get(type(n.op))
            if alt and not isinstance(n.left, ast.Constant) or alt and not isinstance(getattr(n.left, "value", 0), str):
                if alt:
                    out.append((n, "op", alt))
            if isinstance(n.op, (ast.Add, ast.Sub)):
                out.append((n, "dropright", None))
        elif isinstance(n, ast.AugAssign):
            alt = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}.get(type(n.op))
            if alt:
                out.append((n, "op", alt))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            alt = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE],
                   ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}.get(type(n.ops[0]), [])
            for a in alt:
                out.append((n, "cmp", a))
        elif isinstance(n, ast.BoolOp):
            out.append((n, "bool", ast.Or if isinstance(n.op, ast.And) else ast.And))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            out.append((n, "neg", None))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            out.append((n, "neg", None))
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                out.append((n, "const", not n.value))
            elif isinstance(n.value, (int, float)):
                out.append((n, "const", n.value + 1))
                if n.value not in (0, ):
                    out.append((n, "const", -n.value if isinstance(n.value, float) else n.value - 1))
        elif isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
            nm = n.id if isinstance(n, ast.Name) else n.attr
            parts = nm.split("_")
            for a, b in PAIRS:
                for p, q in ((a, b), (b, a)):
                    if p and p in parts:
                        i = parts.index(p)
                        new = "_".join(parts[:i] + ([q] if q else []) + parts[i + 1:])
                        if new != nm:
                            out.append((n, "name", new))
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            out.append((n, "dropstmt", None))
        elif isinstance(n, ast.Call) and n.keywords:
            for k in range(len(n.keywords)):
                out.append((n, "dropkw", k))
        if isinstance(n, ast.Call) and len(n.args) >= 2:
            out.append((n, "swapargs", None))
    return out


def apply(n, kind, arg):
    if kind == "inplace":
        op = {v: k for k, v in INPLACE.items()}[arg]
        e = ast.parse("(lambda _a, _b: _a.%s(_b) if isinstance(_a, torch."
                      "Tensor) and not isinstance(_b, str) else _a + _b)(0, 1)"
                      % arg, mode="eval").body
        e.func.body.orelse.op = op()
        e.args = [n.left, n.right]
        for f in list(n._fields):
            delattr(n, f)
        n.__class__ = ast.Call
        n.func, n.args, n.keywords = e.func, e.args, []
        return
    if kind == "cut":
        e = ast.parse(CUT, mode="eval").body
        if isinstance(arg, int):
            e.args[0] = n.args[arg]
            n.args[arg] = e
        else:
            e.args[0] = getattr(n, arg)
            setattr(n, arg, e)
        return
    if kind == "op":
        n.op = arg()
    elif kind == "cmp":
        n.ops = [arg()]
    elif kind == "bool":
        n.op = arg()
    elif kind == "neg":
        n.op = ast.UAdd() if isinstance(n.op, ast.USub) else n.op
        if isinstance(n.op, ast.Not):
            v = n.operand
            n.operand = ast.UnaryOp(ast.Not(), v)
    elif kind == "dropright":
        n.right = ast.BinOp(ast.Constant(0), ast.Mult(), n.right)
    elif kind == "const":
        n.value = arg
    elif kind == "name":
        if isinstance(n, ast.Name):
            n.id = arg
        else:
            n.attr = arg
    elif kind == "dropstmt":
        n.value = ast.Constant(None)
    elif kind == "dropkw":
        n.keywords.pop(arg)
    elif kind == "swapargs":
        n.args[0], n.args[1] = n.args[1], n.args[0]


def known_names(fn, tree):
    s = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Name):
            s.add(n.id)
        elif isinstance(n, ast.Attribute):
            s.add(n.attr)
        elif isinstance(n, ast.arg):
            s.add(n.arg)
    local = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name):
            local.add(n.id)
        elif isinstance(n, ast.arg):
            local.add(n.arg)
    return s, local


def main():
    a = sys.argv[1:]
    pid = a.pop(0)
    global DETACH
    if "--detach" in a:
        a.remove("--detach")
        DETACH = True
    if "--inplace" in a:
        a.remove("--inplace")
        DETACH = "inplace"
    opt = {"--fn": "", "--file": "", "--max": "400", "--seed": "0"}
    while a:
        k = a.pop(0)
        opt[k] = a.pop(0)
    ev = json.load(open(os.path.join(VERIF, "evidence", pid + ".json")))
    fns = ev["coverage"]["functions_analysed"]
    jobs = []
    for root, _, files in os.walk(SRC):
        if "/test" in root[len(SRC):]:
            continue
        for f in files:
            if not f.endswith(".py"):
                continue
            p = os.path.join(root, f)
            mod = os.path.relpath(p, SRC)[:-3].replace("/", ".")
            mine = [q for q in fns if q.startswith(mod + ".") or ("." + mod + ".") in q]
            if not mine or opt["--file"] not in p:
                continue
            tree = ast.parse(open(p).read())
            quals = []

            def walk(node, pre):
                for c in ast.iter_child_nodes(node):
                    if isinstance(c, ast.FunctionDef):
                        quals.append((pre + c.name, c))
                    elif isinstance(c, ast.ClassDef):
                        walk(c, pre + c.name + ".")
            walk(tree, "")
            for q, fn in quals:
                if not any(m.endswith("." + q) for m in mine):
                    continue
                if opt["--fn"] and opt["--fn"] not in q:
                    continue
                allk, local = known_names(fn, tree)
                for i, (n, kind, arg) in enumerate(sites(fn)):
                    if isinstance(n, ast.Constant) and isinstance(n.value, str):
                        continue
                    if kind == "name" and (arg not in (local if isinstance(n, ast.Name) else allk)):
                        continue
                    jobs.append((p, q, i, kind, arg, n.lineno))
    random.Random(int(opt["--seed"])).shuffle(jobs)
    total = len(jobs)
    jobs = jobs[:int(opt["--max"])]
    base = "/tmp/mutate_%s_%d" % (pid, os.getpid())

    def run(w, job):
        p, q, i, kind, arg, ln = job
        d = "%s_%d" % (base, w)
        src = open(p).read()
        tree = ast.parse(src)
        quals = {}

        def walk(node, pre):
            for c in ast.iter_child_nodes(node):
                if isinstance(c, ast.FunctionDef):
                    quals[pre + c.name] = c
                elif isinstance(c, ast.ClassDef):
                    walk(c, pre + c.name + ".")
        walk(tree, "")
        n, k2, a2 = sites(quals[q])[i]
        before = ast.unparse(n)
        apply(n, k2, a2)
        ast.fix_missing_locations(tree)
        after = ast.unparse(n)
        tgt = p.replace("/repo", d)
        open(tgt, "w").write(ast.unparse(tree))
        try:
            r = subprocess.run([sys.executable, "-m", "sa.run", pid], cwd=VERIF,
                               env=dict(os.environ, SA_REPO=d, SA_EVIDENCE=d + "/ev"),
                               capture_output=True, text=True, timeout=600)
            rc = r.returncode
            und = r.stdout.count('UNDECIDED property')
            if rc == 0 and und:
                after = '(%d undecided) ' % und + after
        except subprocess.TimeoutExpired:
            rc = 99
        shutil.copy(p, tgt)
        return rc, job, before, after

    nw = int(os.environ.get("NW", "8"))
    for w in range(nw):
        d = "%s_%d" % (base, w)
        os.makedirs(d)
        shutil.copytree(SRC, d + "/neural_network_lyapunov",
                        ignore=lambda dd, ns: [x for x in ns if not (
                            x.endswith(".py") or os.path.isdir(os.path.join(dd, x)))])
    import queue
    ws = queue.Queue()
    for w in range(nw):
        ws.put(w)

    def task(job):
        w = ws.get()
        try:
            return run(w, job)
        finally:
            ws.put(w)
    res = {0: [], 1: [], 2: [], 99: []}
    with ThreadPoolExecutor(nw) as ex:
        for rc, job, b, af in ex.map(task, jobs):
            res.setdefault(rc, []).append((job, b, af))
    for w in range(nw):
        shutil.rmtree("%s_%d" % (base, w))
    print("%s: %d sites, %d run, killed %d, survived %d, no answer %d" % (
        pid, total, len(jobs), len(res[1]), len(res[0]),
        sum(len(v) for k, v in res.items() if k not in (0, 1))))
    for rc in sorted(res):
        if rc == 1:
            continue
        for (p, q, i, kind, arg, ln), b, af in sorted(res[rc]):
            print("%d %s:%d %s [%s] %s  =>  %s" % (rc, os.path.basename(p), ln, q, kind,
                                              b.replace("\n", " ")[:110], af.replace("\n", " ")[:110]))


if __name__ == "__main__":
    main()
