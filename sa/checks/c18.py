"""Write-effect analysis: asking leaves the caller's data alone."""
import importlib
import multiprocessing
import os
import re

from .. import core, poly
from ..interp import Repo
from ..values import Arr, BoundV, FuncV, ClassV, ObjV, ListV, DictV, ExtV

TITLE = "Asking changes nothing"
EXPLANATION = (
    "A write-effect analysis over the abstract heap. Every call that the "
    "other checks make from outside the library (evaluations, bounds, "
    "encodings, programs, losses, roll-outs, training) is bracketed: the "
    "arrays, lists and object attributes reachable from its arguments, from "
    "the object asked, from default arguments, class attributes and the "
    "library's module variables are recorded before it and compared after "
    "it, on the join of all paths of the call. Only what the function is "
    "there to change may differ: the program a constraint is added to, the "
    "modes of a system under construction, the trained parameters in the "
    "training functions, the remembered warm starts and logs of a trainer.")
ASSUMPTIONS = (
    "the models of numpy, PyTorch and Gurobi write where those libraries "
    "document that they write", )
MIN_OBS = 400
RULE = "what existed before the call is unchanged by it"

DONORS = ["c22", "c12", "c28"] + [
    "c%02d" % i for i in range(1, 31) if i not in (12, 17, 18, 22, 23, 28)]

PARAM = r"(_layers\[\d+\]\.(weight|bias)|(controller_network|encoder|" \
    r"decoder|dynamics_relu|\w*network|\w*_relu|model)\.(weight|bias)|" \
    r"\._variables|_variables|additional_variable\S*|params\[\d+\])$"
# what a function is there to change
EXEMPT = [(re.compile(f), re.compile(p)) for f, p in (
    (r"\.__init__$", r"self\.[^.\[]*$"),
    (r"\.add_(mode|stepping_stone|lyapunov|barrier)$", r"self\."),
    (r"SimplePWLLyapunov\.add_", r"self\.constraints"),
    (r"TrainingLog\.|DynamicsLearningOptions\.set_option", r"self\."),
    (r"r_options\.\w+\.set_variable_value", r"self\."),
    (r"MixedIntegerConstraintsReturn\.transform_input$", r"self\."),
    (r"LineSearch\w+\.step$", r"self\."),
    (r"utils\.update_relu_params$", r"arg0\b"),
    (r"(utils|train_lyapunov_barrier|dynamics_learning)\.(\w+\.)?"
     r"_?(train\w*|batch_descent\w*|set_training_params|project_gradient)$",
     PARAM),
    # the state a trainer keeps between steps
    (r"(train_lyapunov_barrier|dynamics_learning)\.\w+\.",
     r"self\.[^.\[]*$"),
)]
PROGRAM = re.compile(r"^gurobi|^cvxpy|^torch\.optim|^scipy|^matplotlib")


def program(v):
    """objects that grow by being used"""
    c = v.cls
    if isinstance(c, ClassV):
        return any(isinstance(k, ClassV) and k.name.startswith(
            "GurobiTorchMI") for k in c.mro())
    return isinstance(c, ExtV) and bool(PROGRAM.match(c.q))


def short(n):
    return n if isinstance(n, str) and len(n) < 40 else "..."


def reach(ip, roots):
    """what can be changed and is reachable from the roots"""
    heap = ip.st.heap
    out, seen, todo = {}, set(), [(r, p) for p, r in reversed(roots)]
    while todo:
        v, p = todo.pop()
        if isinstance(v, BoundV):
            todo.append((v.func, p))
            todo.append((v.self_, p))
        elif isinstance(v, FuncV):
            for i, d in enumerate(v.defaults or ()):
                todo.append((d, "%s default %d" % (v.name, i)))
        elif isinstance(v, ClassV):
            for n, x in v.attrs.items():
                if isinstance(x, (Arr, ListV, DictV)):
                    todo.append((x, "%s.%s" % (v.name, n)))
        elif isinstance(v, (tuple, frozenset)):
            for x in v:
                todo.append((x, p))
        elif isinstance(v, (Arr, ObjV, ListV, DictV)):
            if v.addr in seen:
                continue
            seen.add(v.addr)
            pl = heap.get(v.addr)
            if isinstance(v, Arr):
                out[v.addr] = (p, v, list(pl))
            elif isinstance(v, ListV):
                out[v.addr] = (p, v, list(pl))
                for i, x in enumerate(pl):
                    todo.append((x, "%s[%d]" % (p, i)))
            elif isinstance(v, DictV):
                out[v.addr] = (p, v, dict(pl))
                for n, x in pl.items():
                    todo.append((x, "%s[%s]" % (p, short(n))))
            elif not program(v):
                out[v.addr] = (p, v, dict(pl))
                todo.append((v.cls, p))
                for n, x in pl.items():
                    todo.append((x, "%s.%s" % (p, short(n))))
    return out


def module_roots(ip):
    out = []
    for name, f in ip.module_frames.items():
        for n, x in (ip.st.heap.get(f) or {}).items():
            if isinstance(x, (Arr, ListV, DictV)):
                out.append(("%s:%s" % (name, n), x))
    return out


def same(x, y):
    return x is y or (type(x) is type(y) and x == y)


def changes(ip, before):
    """(path, kind, unchanged) for everything recorded before"""
    for a, (p, v, old) in before.items():
        new = ip.st.heap.get(a)
        if isinstance(v, (Arr, ListV)):
            yield p, a, new is not None and len(new) == len(old) and all(
                same(x, y) for x, y in zip(old, new))
        elif isinstance(v, DictV):
            yield p, a, new is not None and len(new) == len(old) and all(
                k in new and same(x, new[k]) for k, x in old.items())
        else:
            for n, x in old.items():
                # an attribute may be filled in, or added, but not replaced
                ok = x is None or (n in new and same(x, new[n]))
                yield "%s.%s" % (p, short(n)), a, ok


class Effects(core.Check):
    def interp(self):
        ip = super().interp()
        outer = ip.call

        def call(f, args, kw):
            if ip.stack or not isinstance(f, (BoundV, FuncV, ObjV, ClassV)):
                return outer(f, args, kw)
            fn = f.func if isinstance(f, BoundV) else f
            if isinstance(f, ObjV):
                fn = f.cls
            name = getattr(fn, "qualname", None) or getattr(fn, "q", None)
            if name is None:
                return outer(f, args, kw)
            if isinstance(fn, ClassV):
                name += ".__init__" if isinstance(f, ClassV) else ".forward"
            roots = [("self" if not isinstance(f, (FuncV, ClassV)) else
                      f.name, f)]
            roots += [("arg%d" % i, a) for i, a in enumerate(args)]
            roots += list(kw.items()) + module_roots(ip)
            before = reach(ip, roots)
            watch, ip.watch = ip.watch, ip.next_addr
            ip.wrote = {}
            try:
                r = outer(f, args, kw)
            finally:
                ip.watch = watch
            where = self.where_of(fn)
            for p, a, ok in changes(ip, before):
                if not ok and any(e.search(name) and q.search(p)
                                  for e, q in EXEMPT):
                    continue
                g = self.effects.setdefault((name, p), [0, None, where])
                g[0] += 1
                if not ok and g[1] is None:
                    g[1] = ip.wrote.get(a) or where
            return r
        ip.call = call
        return ip

    def where_of(self, fn):
        if isinstance(fn, ExtV):
            return fn.q
        m = fn.module
        return "%s:%d (%s)" % (os.path.relpath(m.path, self.repo.root),
                               getattr(fn.node, "lineno", 0), fn.name)


def donor(a):
    name, args = a
    pid, tier, seed = args
    m = importlib.import_module("sa.checks." + name)
    ck = Effects(pid, tier, seed, Repo(core.REPO))
    ck.effects = {}
    poly.clear_bounds()
    m.check(ck)
    poly.clear_bounds()
    ck.absorb()
    return name, ck.effects, sorted(ck.functions), ck.calls, ck.joins, \
        sorted(ck.natives)


def check(ck):
    jobs = [(n, (ck.pid, ck.tier, ck.seed)) for n in DONORS]
    with multiprocessing.get_context("fork").Pool(
            min(len(jobs), os.cpu_count() or 1)) as pool:
        res = pool.map(donor, jobs, chunksize=1)
    tot = {}
    for name, eff, fns, calls, joins, nat in sorted(res, key=lambda r: r[0]):
        for (f, p), (n, bad, where) in eff.items():
            g = tot.setdefault((f, p), [0, None, where])
            g[0] += n
            g[1] = g[1] or bad
        ck.functions |= set(fns)
        ck.natives |= set(nat)
        ck.calls += calls
        ck.joins += joins
    for (f, p), (n, bad, where) in sorted(tot.items()):
        ck.ob("%s:%s" % (f, p), bad is None, RULE,
              "%s is changed by %s" % (p, f) if bad else
              "%d calls" % n, bad or where)
