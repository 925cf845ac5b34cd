"""tools/refactor.py [--kinds a,b] [--checks C01,C02] [--file substr] [--keep]
Behaviour-preserving rewrites of the whole package; every check has to stay
quiet on each of them (rc 0).  Writes scratch copies under /tmp only."""
import ast
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/neural_network_lyapunov"
CNT = [0]


def fresh(p):
    CNT[0] += 1
    return "%s_%d" % (p, CNT[0])


def name(n, store=False):
    return ast.Name(n, ast.Store() if store else ast.Load())


def assign(n, v):
    return ast.Assign([name(n, True)], v)


def has(node, *types):
    return any(isinstance(x, types) for x in ast.walk(node))


def funcs(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            yield n


def blocks(fn):
    """statement lists of a function, not of nested functions"""
    todo = [fn]
    while todo:
        n = todo.pop()
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield b
                for s in b:
                    if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        todo.append(s)


def doc(fn):
    return 1 if fn.body and isinstance(fn.body[0], ast.Expr) and \
        isinstance(fn.body[0].value, ast.Constant) and isinstance(fn.body[0].value.value, str) else 0


# ------------------------------------------------------------------ rewrites
def rename(tree):
    for fn in tree_top(tree):
        params = set()
        bad = set()
        stores = set()
        for n in ast.walk(fn):
            if isinstance(n, ast.arg):
                params.add(n.arg)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                bad |= set(n.names)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                stores.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not fn:
                bad.add(n.name)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                bad.add(n.name)
            elif isinstance(n, ast.alias):
                bad.add(n.asname or n.name)
        m = {s: s + "_rn" for s in stores - params - bad}
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and n.id in m:
                n.id = m[n.id]


def tree_top(tree):
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            yield n
        elif isinstance(n, ast.ClassDef):
            for k in n.body:
                if isinstance(k, ast.FunctionDef):
                    yield k


def ret_tmp(tree):
    for fn in funcs(tree):
        for b in blocks(fn):
            i = 0
            while i < len(b):
                if isinstance(b[i], ast.Return) and b[i].value is not None and \
                        not isinstance(b[i].value, (ast.Name, ast.Constant)):
                    t = fresh("result")
                    b[i:i + 1] = [assign(t, b[i].value), ast.Return(name(t))]
                    i += 1
                i += 1


def simple(e):
    return isinstance(e, (ast.Name, ast.Constant)) or \
        (isinstance(e, ast.Attribute) and simple(e.value))


def hoist(tree):
    """args of the outermost call of a statement into temporaries, in order"""
    for fn in funcs(tree):
        for b in blocks(fn):
            i = 0
            while i < len(b):
                s = b[i]
                c = getattr(s, "value", None) if isinstance(s, (ast.Assign, ast.Expr, ast.Return)) else None
                if isinstance(c, ast.Call) and simple(c.func) and \
                        not (isinstance(c.func, ast.Name) and c.func.id == "super"):
                    pre = []
                    for k, x in enumerate(c.args):
                        if isinstance(x, ast.Starred) or isinstance(x, (ast.Constant, ast.Name)):
                            continue
                        if isinstance(x, (ast.GeneratorExp, )):
                            continue
                        t = fresh("arg")
                        pre.append(assign(t, x))
                        c.args[k] = name(t)
                    for kw in c.keywords:
                        if kw.arg and not isinstance(kw.value, (ast.Constant, ast.Name)):
                            t = fresh("kw")
                            pre.append(assign(t, kw.value))
                            kw.value = name(t)
                    b[i:i] = pre
                    i += len(pre)
                i += 1


def binop_tmp(tree):
    """a + b of an assignment into left/right temporaries"""
    for fn in funcs(tree):
        for b in blocks(fn):
            i = 0
            while i < len(b):
                s = b[i]
                c = getattr(s, "value", None) if isinstance(s, (ast.Assign, ast.Return)) else None
                if isinstance(c, ast.BinOp):
                    l, r = fresh("left"), fresh("right")
                    pre = [assign(l, c.left), assign(r, c.right)]
                    c.left, c.right = name(l), name(r)
                    b[i:i] = pre
                    i += 2
                i += 1


def while_loop(tree):
    for fn in funcs(tree):
        for b in blocks(fn):
            i = 0
            while i < len(b):
                s = b[i]
                if isinstance(s, ast.For) and not s.orelse:
                    it, k = fresh("items"), fresh("k")
                    nxt = ast.parse("while %s < len(%s):\n    pass" % (k, it)).body[0]
                    nxt.body = [
                        ast.Assign([s.target], ast.Subscript(name(it), name(k), ast.Load())),
                        ast.AugAssign(name(k, True), ast.Add(), ast.Constant(1))] + s.body
                    b[i:i + 1] = [assign(it, ast.Call(name("list"), [s.iter], [])),
                                  assign(k, ast.Constant(0)), nxt]
                    i += 2
                i += 1


def for_range(tree):
    """for i in range(n) -> for _, i in enumerate(range(n)); for x in xs ->
    for k in range(len(list(xs)))"""
    for fn in funcs(tree):
        for b in blocks(fn):
            i = 0
            while i < len(b):
                s = b[i]
                if isinstance(s, ast.For) and not s.orelse:
                    it, k = fresh("seq"), fresh("idx")
                    pre = assign(it, ast.Call(name("list"), [s.iter], []))
                    s.body.insert(0, ast.Assign([s.target], ast.Subscript(name(it), name(k), ast.Load())))
                    s.target = name(k, True)
                    s.iter = ast.parse("range(len(%s))" % it, mode="eval").body
                    b.insert(i, pre)
                    i += 1
                i += 1


def comp_loop(tree):
    for fn in funcs(tree):
        for b in blocks(fn):
            i = 0
            while i < len(b):
                s = b[i]
                if isinstance(s, ast.Assign) and isinstance(s.value, ast.ListComp) and \
                        len(s.value.generators) == 1 and len(s.targets) == 1:
                    g = s.value.generators[0]
                    t = fresh("acc")
                    m = {n.id: n.id + "_lc" for n in ast.walk(g.target) if isinstance(n, ast.Name)}
                    if has(s.value.elt, ast.ListComp, ast.GeneratorExp, ast.Lambda):
                        i += 1
                        continue
                    for part in [g.target, s.value.elt] + g.ifs:
                        for n in ast.walk(part):
                            if isinstance(n, ast.Name) and n.id in m:
                                n.id = m[n.id]
                    body = ast.Expr(ast.Call(ast.Attribute(name(t), "append", ast.Load()), [s.value.elt], []))
                    for c in reversed(g.ifs):
                        body = ast.If(c, [body], [])
                    b[i:i + 1] = [assign(t, ast.List([], ast.Load())),
                                  ast.For(g.target, g.iter, [body], []),
                                  ast.Assign(s.targets, name(t))]
                    i += 2
                i += 1


def if_swap(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and n.orelse:
            if len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If):
                continue
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body
        elif isinstance(n, ast.IfExp):
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body


def delegate(tree):
    """whole body moved into a helper"""
    new = []
    for n in list(tree.body):
        if isinstance(n, ast.ClassDef):
            for k in list(n.body):
                if isinstance(k, ast.FunctionDef) and not k.decorator_list and k.name != "__init__":
                    h = _split(k, True)
                    if h:
                        n.body.append(h)
        elif isinstance(n, ast.FunctionDef) and not n.decorator_list:
            h = _split(n, False)
            if h:
                new.append(h)
    tree.body += new


def _split(k, method):
    if has(k, ast.Yield, ast.YieldFrom) or k.args.vararg or k.args.kwarg or k.args.posonlyargs:
        return None
    if any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(k)):
        return None
    d = doc(k)
    nm = "_%s_impl" % k.name.strip("_")
    args = [a.arg for a in k.args.args]
    kwo = [a.arg for a in k.args.kwonlyargs]
    if method and (not args or args[0] != "self"):
        return None
    h = ast.FunctionDef(nm, ast.arguments([], [ast.arg(a) for a in args], None,
                                          [ast.arg(a) for a in kwo], [None] * len(kwo), None, []),
                        k.body[d:], [], None)
    h.type_params = []
    f = ast.Attribute(name("self"), nm, ast.Load()) if method else name(nm)
    call = ast.Call(f, [name(a) for a in (args[1:] if method else args)],
                    [ast.keyword(a, name(a)) for a in kwo])
    k.body = k.body[:d] + [ast.Return(call)]
    return h


def extract_block(tree):
    """middle top-level assignments of a function into a module-level helper"""
    new = []
    glob = {n.name for n in tree.body if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
    for n in tree.body:
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            glob |= {(a.asname or a.name).split(".")[0] for a in n.names}
        elif isinstance(n, ast.Assign):
            glob |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
    for fn in list(tree_top(tree)):
        locs = {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}
        locs |= {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        locs |= {x.name for x in ast.walk(fn) if isinstance(x, ast.FunctionDef)}
        d = doc(fn)
        run, best = [], []
        for i, s in enumerate(fn.body):
            if i >= d and isinstance(s, (ast.Assign, ast.AugAssign)) and \
                    not has(s, ast.Lambda, ast.Await, ast.Yield, ast.NamedExpr) and \
                    not any(isinstance(x, ast.Name) and x.id in ("super", "locals") for x in ast.walk(s)):
                run.append(i)
                if len(run) > len(best):
                    best = list(run)
            else:
                run = []
        # local names used must be definitely assigned before: only names that
        # are params or stored at top level before
        if len(best) < 2:
            continue
        sure = {a.arg for a in fn.args.args + fn.args.kwonlyargs}
        if fn.args.vararg:
            sure.add(fn.args.vararg.arg)
        if fn.args.kwarg:
            sure.add(fn.args.kwarg.arg)
        for s in fn.body[:best[0]]:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    sure |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        stm = [fn.body[i] for i in best]
        used = {x.id for s in stm for x in ast.walk(s) if isinstance(x, ast.Name)}
        outs = []
        for s in stm:
            tg = s.targets if isinstance(s, ast.Assign) else [s.target]
            for t in tg:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in outs:
                        outs.append(x.id)
        ins = sorted((used & locs) & sure)
        missing = (used & locs) - sure - set(outs) - {
            x.id for s in stm for c in ast.walk(s) if isinstance(c, ast.comprehension)
            for x in ast.walk(c.target) if isinstance(x, ast.Name)}
        if missing or not outs:
            continue
        nm = "_%s_part" % fn.name.strip("_")
        if nm in glob:
            nm = fresh(nm)
        glob.add(nm)
        h = ast.FunctionDef(nm, ast.arguments([], [ast.arg(a) for a in ins], None, [], [], None, []),
                            stm + [ast.Return(ast.Tuple([name(o) for o in outs], ast.Load()))], [], None)
        h.type_params = []
        call = ast.Assign([ast.Tuple([name(o, True) for o in outs], ast.Store())],
                          ast.Call(name(nm), [name(a) for a in ins], []))
        fn.body[best[0]:best[-1] + 1] = [call]
        new.append(h)
    tree.body += new


def early_return(tree):
    for fn in funcs(tree):
        for b in blocks(fn):
            for i, s in enumerate(b):
                if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                    rest = s.orelse
                    s.orelse = []
                    b[i + 1:i + 1] = rest
                    break


def late_else(tree):
    for fn in funcs(tree):
        b = fn.body
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) \
                    and i + 1 < len(b):
                s.orelse = b[i + 1:]
                del b[i + 1:]
                break


def flip_cmp(tree):
    m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in m:
            n.left, n.comparators[0] = n.comparators[0], n.left
            n.ops = [m[type(n.ops[0])]()]


def demorgan(tree):
    class T(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            t = n.test
            if isinstance(t, ast.BoolOp):
                op = ast.Or() if isinstance(t.op, ast.And) else ast.And()
                n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in t.values]))
            return n
    T().visit(tree)


def ifexp_stmt(tree):
    for fn in funcs(tree):
        for b in blocks(fn):
            i = 0
            while i < len(b):
                s = b[i]
                if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
                    e = s.value
                    b[i] = ast.If(e.test, [ast.Assign(s.targets, e.body)], [ast.Assign(s.targets, e.orelse)])
                i += 1


def torch_method(tree):
    """torch.f(x, ...) -> x.f(...)"""
    names = {"sum", "mean", "abs", "sqrt", "squeeze", "unsqueeze", "norm", "clone", "clamp", "exp", "sin", "cos",
             "relu", "sigmoid", "all", "any", "matmul", "prod", "t", "argmax", "argmin", "diag", "dot"}

    class T(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            f = n.func
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "torch" \
                    and f.attr in names and n.args and not isinstance(n.args[0], ast.Starred):
                x = n.args.pop(0)
                return ast.Call(ast.Attribute(x, f.attr, ast.Load()), n.args, n.keywords)
            return n
    T().visit(tree)


def method_torch(tree):
    names = {"squeeze", "unsqueeze", "clone", "clamp"}
    mods = {(a.asname or a.name) for n in tree.body if isinstance(n, ast.Import) for a in n.names}
    if "torch" not in mods:
        return

    class T(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in names - {"clone"} and \
                    not (isinstance(f.value, ast.Name) and f.value.id in ("torch", "np", "cp")):
                if f.attr == "squeeze":      # may be numpy
                    return n
                return ast.Call(ast.Attribute(name("torch"), f.attr, ast.Load()), [f.value] + n.args, n.keywords)
            return n
    T().visit(tree)


def shapes(tree):
    """torch.zeros((a, b)) <-> torch.zeros(a, b), torch.empty -> zeros"""
    class T(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            f = n.func
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "torch" \
                    and f.attr in ("zeros", "ones", "empty"):
                if f.attr == "empty":
                    f.attr = "zeros"
                if len(n.args) == 1 and isinstance(n.args[0], ast.Tuple):
                    n.args = n.args[0].elts
                elif len(n.args) > 1:
                    n.args = [ast.Tuple(n.args, ast.Load())]
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "np" \
                    and f.attr == "empty":
                f.attr = "zeros"
            if isinstance(f, ast.Attribute) and f.attr == "shape":
                pass
            return n
    T().visit(tree)


def arith(tree):
    """x**2 -> x*x for names, -x -> -1*x, a - b -> a + (-b)"""
    class T(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Pow) and simple(n.left) and isinstance(n.right, ast.Constant) and n.right.value == 2:
                return ast.BinOp(n.left, ast.Mult(), n.left)
            if isinstance(n.op, ast.Sub):
                return ast.BinOp(n.left, ast.Add(), ast.UnaryOp(ast.USub(), n.right))
            return n
    T().visit(tree)


def matmul(tree):
    mods = {(a.asname or a.name) for n in tree.body if isinstance(n, ast.Import) for a in n.names}
    if "torch" not in mods or "np" in mods or "cp" in mods:
        return

    class T(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.MatMult):
                return ast.Call(ast.Attribute(name("torch"), "matmul", ast.Load()), [n.left, n.right], [])
            return n
    T().visit(tree)


def kwargs(tree, sigs={}):
    """positional -> keyword for repository functions with a unique name"""
    if not sigs:
        allf = {}
        for root, _, fs in os.walk(SRC):
            for f in fs:
                if f.endswith(".py") and "/test" not in root[len(SRC):]:
                    for n in ast.walk(ast.parse(open(os.path.join(root, f)).read())):
                        if isinstance(n, ast.ClassDef):
                            for k in n.body:
                                if isinstance(k, ast.FunctionDef):
                                    allf.setdefault(k.name, []).append((k, True))
                        elif isinstance(n, ast.Module):
                            for k in n.body:
                                if isinstance(k, ast.FunctionDef):
                                    allf.setdefault(k.name, []).append((k, False))
        ext = {"append", "add", "addVars", "addVar", "addLConstr", "addConstr", "setObjective", "remove", "relax", "optimize", "clone", "train", "step", "forward", "value", "sample", "reset", "set", "plot", "solve"}
        for k, v in allf.items():
            s = {tuple(a.arg for a in f.args.args if a.arg not in ("self", "cls")) for f, m in v}
            if len(s) == 1 and not k.startswith("__") and k not in ext and \
                    not any(f.args.vararg for f, m in v):
                sigs[k] = list(s)[0]
        sigs["__done__"] = ()
    for n in ast.walk(tree):
        if isinstance(n, ast.Call):
            f = n.func
            nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in (
                    "torch", "np", "gurobipy", "cp", "plt", "scipy", "math", "p"):
                continue
            sg = sigs.get(nm)
            if sg and len(n.args) <= len(sg) and not any(isinstance(a, ast.Starred) for a in n.args) and \
                    not any(k.arg is None for k in n.keywords):
                have = {k.arg for k in n.keywords}
                nn = sg[:len(n.args)]
                if have & set(nn):
                    continue
                n.keywords = [ast.keyword(a, v) for a, v in zip(nn, n.args)] + n.keywords
                n.args = []


def noise(tree):
    """asserts, dead stores, prints, docstrings"""
    for fn in funcs(tree):
        d = doc(fn)
        extra = [assign("_unused_flag", ast.Constant(0)), ast.Pass(),
                 ast.Assert(ast.Constant(True), None)]
        fn.body[d:d] = extra
        for b in list(blocks(fn)):
            if b is not fn.body and not isinstance(b[0], (ast.FunctionDef, )):
                b.insert(0, ast.Expr(ast.Constant("note")))


def alias_attr(tree):
    """self.x used twice or more and never stored in a method: local alias"""
    for c in tree.body:
        if not isinstance(c, ast.ClassDef):
            continue
        meths = {k.name for k in c.body if isinstance(k, ast.FunctionDef)}
        for fn in c.body:
            if not isinstance(fn, ast.FunctionDef) or fn.name == "__init__":
                continue
            if has(fn, ast.Lambda, ast.FunctionDef) and any(
                    isinstance(x, ast.FunctionDef) and x is not fn for x in ast.walk(fn)):
                continue
            loads = {}
            stored = set()
            called = set()
            for n in ast.walk(fn):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self":
                    if isinstance(n.ctx, ast.Load):
                        loads.setdefault(n.attr, []).append(n)
                    else:
                        stored.add(n.attr)
                if isinstance(n, ast.Call):
                    if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self":
                        called.add(n.func.attr)
            if called & meths:
                continue
            # only attributes read by the first statement of the body, so that
            # the alias is evaluated on every path
            d = doc(fn)
            if len(fn.body) <= d:
                continue
            first = {n.attr for n in ast.walk(fn.body[d]) if isinstance(n, ast.Attribute) and
                     isinstance(n.value, ast.Name) and n.value.id == "self"} if isinstance(
                         fn.body[d], (ast.Assign, ast.Expr, ast.Return, ast.Assert)) else set()
            al = [a for a in loads if a in first and a not in stored and a not in meths]
            for a in al:
                for n in loads[a]:
                    n.__class__ = ast.Name
                    n.id = a + "_alias"
                    n._fields = ast.Name._fields
                fn.body.insert(d, assign(a + "_alias", ast.Attribute(name("self"), a, ast.Load())))


def dot_np(tree):
    class T(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr == "dot" and len(n.args) == 1 and \
                    not (isinstance(f.value, ast.Name) and f.value.id in ("np", "torch")):
                return ast.BinOp(f.value, ast.MatMult(), n.args[0])
            if isinstance(f, ast.Attribute) and f.attr == "dot" and len(n.args) == 2 and \
                    isinstance(f.value, ast.Name) and f.value.id == "np":
                return ast.BinOp(n.args[0], ast.MatMult(), n.args[1])
            return n
    T().visit(tree)


def fold_with(tree):
    """x = E directly followed by the only use as `return x` / inline once-used
    temporaries used in the next statement"""
    for fn in funcs(tree):
        for b in blocks(fn):
            i = 0
            while i + 1 < len(b):
                s, t = b[i], b[i + 1]
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and \
                        isinstance(t, ast.Return) and isinstance(t.value, ast.Name) and t.value.id == s.targets[0].id:
                    b[i:i + 2] = [ast.Return(s.value)]
                i += 1


def swap_assign(tree):
    """adjacent independent simple assignments swapped"""
    def pure(e):
        for n in ast.walk(e):
            if isinstance(n, ast.Call):
                f = n.func
                if not (isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("torch", "np") and
                        not f.attr.startswith("r") and not f.attr.endswith("_")):
                    return False
            if isinstance(n, (ast.Lambda, ast.Yield)):
                return False
        return True
    for fn in funcs(tree):
        for b in blocks(fn):
            i = 0
            while i + 1 < len(b):
                s, t = b[i], b[i + 1]
                ok = isinstance(s, ast.Assign) and isinstance(t, ast.Assign) and pure(s) and pure(t)
                if ok:
                    def sets(x):
                        return {n.id for tt in x.targets for n in ast.walk(tt) if isinstance(n, ast.Name) and
                                isinstance(n.ctx, ast.Store)} | \
                            {ast.unparse(tt) for tt in x.targets if isinstance(tt, ast.Attribute)}
                    simp = all(isinstance(tt, (ast.Name, ast.Attribute)) for x in (s, t) for tt in x.targets)
                    reads = lambda x: {n.id for n in ast.walk(x.value) if isinstance(n, ast.Name)} | \
                        {ast.unparse(n) for n in ast.walk(x.value) if isinstance(n, ast.Attribute)}
                    ok = simp and not (sets(s) & (reads(t) | sets(t))) and not (sets(t) & reads(s))
                if ok:
                    b[i], b[i + 1] = t, s
                    i += 1
                i += 1


KINDS = {k: v for k, v in list(globals().items()) if callable(v) and getattr(v, "__module__", None) == __name__ and
         v.__code__.co_argcount >= 1 and v.__code__.co_varnames[0] == "tree" and k not in ("funcs", "tree_top")}


def build(kind, dst, filt):
    shutil.copytree(SRC, dst + "/neural_network_lyapunov",
                    ignore=lambda dd, ns: [x for x in ns if not (
                        x.endswith(".py") or os.path.isdir(os.path.join(dd, x)))])
    for root, _, fs in os.walk(dst + "/neural_network_lyapunov"):
        if "/test" in root:
            continue
        for f in fs:
            p = os.path.join(root, f)
            if not f.endswith(".py") or filt not in p:
                continue
            t = ast.parse(open(p).read())
            CNT[0] = 0
            KINDS[kind](t)
            ast.fix_missing_locations(t)
            s = ast.unparse(t)
            compile(s, p, "exec")
            open(p, "w").write(s + "\n")


def main():
    a = sys.argv[1:]
    opt = {"--kinds": ",".join(KINDS), "--checks": "", "--file": ""}
    while a:
        k = a.pop(0)
        opt[k] = a.pop(0)
    checks = opt["--checks"].split(",") if opt["--checks"] else sorted(
        f[:-3].upper() for f in os.listdir(VERIF + "/sa/checks") if re.match(r"c\d+\.py", f))
    base = "/tmp/refactor_%d" % os.getpid()
    jobs = []
    for k in opt["--kinds"].split(","):
        d = "%s_%s" % (base, k)
        build(k, d, opt["--file"])
        jobs += [(k, c, d) for c in checks]

    def run(j):
        k, c, d = j
        lg = "/tmp/rf_%s_%s.log" % (k, c)
        with open(lg, "w") as o:
            try:
                rc = subprocess.run([sys.executable, "-m", "sa.run", c], cwd=VERIF, stdout=o, stderr=o, timeout=900,
                                    env=dict(os.environ, SA_REPO=d, SA_EVIDENCE=d + "/ev")).returncode
            except subprocess.TimeoutExpired:
                rc = 99
        und = sum(1 for l in open(lg) if l.startswith("UNDECIDED"))
        return k, c, rc, und
    with ThreadPoolExecutor(int(os.environ.get("NW", "8"))) as ex:
        for k, c, rc, und in ex.map(run, jobs):
            if rc or und > 3:
                print(k, c, "rc", rc, "undecided", und, flush=True)
    print("done", len(jobs))
    if os.environ.get("KEEP"):
        print(base)
        return
    for k in opt["--kinds"].split(","):
        shutil.rmtree("%s_%s" % (base, k))


if __name__ == "__main__":
    main()
