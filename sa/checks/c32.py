"""Staleness analysis: answers follow the current networks and arguments."""
import importlib
import multiprocessing
import os
import re

from .. import core, poly
from ..interp import Repo
from ..poly import Rat
from ..values import (Arr, BoundV, FuncV, ClassV, ObjV, ListV, DictV, SetV,
                      ExtV, Phi, AbsRaise, Undecided)
from .c18 import program, short
from . import blocks as bl

TITLE = "Answers follow the current networks"
EXPLANATION = (
    "An information-flow analysis over the abstract heap. Before every call "
    "that the other checks make from outside the library, what the object "
    "asked, its class, the module or the default arguments remember of "
    "earlier network outputs, parameters or constraint blocks is marked; "
    "the parameters themselves and what was handed in are not. After the "
    "call nothing marked may have reached the answer, the rows and objective "
    "of the program built, or what was written into the arguments. When a "
    "call leaves something new of that kind behind, the same question is "
    "asked once more in a copy of the state.")
ASSUMPTIONS = ("real arithmetic; torch, numpy and gurobipy calls follow "
               "their documentation", )
MIN_OBS = 100
OLD = "\u2020"
RULE = "the answer depends on the networks as they are now"
DONORS = ["c10", "c22", "c13", "c14", "c15", "c16", "c25", "c26", "c27", "c29",
          "c30", "c09", "c19", "c28", "c24", "c21"]
# what a function is documented to remember
EXEMPT = [re.compile(p) for p in ()]
BLOCK = re.compile(r"^B\d+\.|\.(Ao|Co)\.\d")
NETFN = {"enc", "dec"}


def payloads(v):
    """the values inside a heap object"""
    if isinstance(v, dict):
        return list(v.items())
    return list(enumerate(v))


class Flow(core.Check):
    """marks, asks and looks for the marks"""
    def interp(self):
        ip = super().interp()
        outer = ip.call
        S = {"made": [], "given": set(), "keys": set(), "fam": {},
             "busy": False, "gparams": set(), "gtags": set(),
             "asked": set(), "built": set()}

        def family(r):
            """atoms of network outputs, parameters and blocks in r"""
            if not isinstance(r, Rat) or r.is_const():
                return ()
            return [a for a in r.atoms(True) if
                    a.kind == "fn" and (a.name in S["tags"] or a.name in
                                        NETFN) or
                    a.kind == "sym" and (a.name in S["params"] or
                                         a.name in S["asked"] or
                                         BLOCK.search(a.name))]

        def library_made(addr):
            return any(a <= addr < b for a, b in S["made"])

        def walk(roots, into, leaf):
            """visit (path, container address, key, value)"""
            heap, seen = ip.st.heap, set()
            todo = [(p, None, None, v) for p, v in roots]
            while todo:
                p, a, k, v = todo.pop()
                if isinstance(v, Phi):
                    todo += [(p, a, None, v.a), (p, a, None, v.b)]
                elif isinstance(v, BoundV):
                    todo += [(p, a, None, v.self_), (p, a, None, v.func)]
                elif isinstance(v, FuncV):
                    todo += [("%s default" % v.name, None, None, d)
                             for d in v.defaults or ()]
                    if v.fa:
                        todo += [("%s.%s" % (v.name, n), None, None, x)
                                 for n, x in v.fa.items()]
                elif isinstance(v, ClassV):
                    todo += [("%s.%s" % (v.name, n), None, None, x)
                             for n, x in v.attrs.items()
                             if not isinstance(x, ClassV)]
                elif isinstance(v, (tuple, frozenset)):
                    todo += [(p, a, None if k is None else (k, i), x)
                             for i, x in enumerate(v)]
                elif isinstance(v, (Arr, ObjV, ListV, DictV, SetV)):
                    if v.addr in seen or not into(v, p):
                        continue
                    seen.add(v.addr)
                    if isinstance(v, ObjV):
                        todo.append((p, None, None, v.cls))
                    for n, x in payloads(heap[v.addr]):
                        q = p if isinstance(v, Arr) else "%s.%s" % (
                            p, short(n)) if isinstance(v, ObjV) else \
                            "%s[%s]" % (p, short(n))
                        todo.append((q, v.addr, n, x))
                elif isinstance(v, Rat):
                    leaf(p, a, k, v)

        def networks(roots):
            """parameters and tags of the networks within reach"""
            S["params"], S["tags"] = set(S["gparams"]), set(S["gtags"])
            S["parr"], S["copies"], arrs, nets = set(), [], [], []

            def into(v, p):
                if isinstance(v, ObjV) and isinstance(v.cls, ExtV) and \
                        v.cls.q == bl.Q:
                    nets.append((v, p))
                    if not library_made(v.addr):
                        S["tags"].add(ip.attrs(v)["_tag"])
                if isinstance(v, Arr):
                    m = ip.st.meta.get(v.addr, {})
                    if m.get("param") or m.get("requires_grad"):
                        arrs.append(v)
                        if not library_made(v.addr):
                            S["params"] |= symbols(v)
                    return False
                return True
            walk(roots, into, lambda *a: None)
            for v, p in nets:
                # a copy made by the library is a memory of the network
                t = ip.attrs(v)["_tag"]
                if t in S["tags"] and library_made(v.addr):
                    S["copies"].append((p, v.addr, "_tag", t))
                S["tags"].add(t)
            for v in arrs:
                n = symbols(v)
                if not library_made(v.addr) or not n & S["params"]:
                    S["parr"].add(v.addr)
            for v in arrs:
                S["params"] |= symbols(v)

        def symbols(v):
            return {x.name for c in ip.st.heap[v.addr] if isinstance(c, Rat)
                    for x in c.atoms(True) if x.kind == "sym"}

        def give(v, into=None):
            """what is handed in is not remembered"""
            if isinstance(v, (tuple, list)):
                for x in v:
                    give(x, into)
            elif isinstance(v, (Arr, ListV, DictV, SetV)) or isinstance(
                    v, ObjV) and isinstance(v.cls, ExtV):
                if v.addr in S["given"]:
                    return
                S["given"].add(v.addr)
                if isinstance(v, Arr) and ip.st.meta.get(v.addr, {}).get(
                        "param"):
                    S["gparams"] |= symbols(v)
                    return
                elif isinstance(v, ObjV) and v.cls.q == bl.Q:
                    S["gtags"].add(ip.attrs(v)["_tag"])
                for _, x in payloads(ip.st.heap[v.addr]):
                    give(x, into)
            elif isinstance(v, Rat) and not v.is_const():
                S["keys"].add(v)
                if into is not None:
                    into |= {x.name for x in v.atoms(True)
                             if x.kind == "sym"}

        def rename(a):
            if a.name.endswith(OLD):
                return None
            if a.kind == "fn" and (a.name in S["tags"] or a.name in NETFN):
                return poly.fn(a.name + OLD, *a.args)
            if a.kind == "sym" and (a.name in S["params"] or
                                    a.name in S["asked"] or
                                    BLOCK.search(a.name)):
                poly.copy_bounds(a.name, a.name + OLD)
                return Rat.sym(a.name + OLD)

        def memories(roots, start=None):
            """[(path, address, key, value)] remembered of the family"""
            out = []

            def into(v, p):
                return v.addr not in S["given"] and v.addr not in \
                    S["parr"] or isinstance(v, ObjV)

            def leaf(p, a, k, v):
                if a is None or k is None or a in S["given"] or \
                        not library_made(a) or v in S["keys"]:
                    return
                if family(v):
                    out.append((p, a, k, v))
            walk(roots, into, leaf)
            return out + S["copies"]

        def put(a, k, v):
            pl = ip.st.heap[a]
            if isinstance(k, tuple):
                k, i = k
                if isinstance(k, tuple):
                    return False
                t = list(pl[k])
                t[i] = v
                v = tuple(t)
            pl[k] = v
            return True

        def marked(r):
            return [a for a in r.atoms(True) if a.name.endswith(OLD)] if \
                isinstance(r, Rat) and not r.is_const() else []

        def reached(r, args, kw, start):
            """marks in the answer"""
            hit = []

            def into(v, p):
                if isinstance(v, ObjV) and v.addr < start and p != "answer":
                    c = v.cls
                    return program(v) or isinstance(c, ExtV) or \
                        "Return" in getattr(c, "name", "")
                if isinstance(v, ObjV) and v.addr < start and \
                        isinstance(v.cls, ClassV) and not program(v) and \
                        "Return" not in v.cls.name:
                    return False
                return v.addr not in S["parr"]
            walk([("answer", r)] + [("arg%d" % i, a) for i, a in
                                    enumerate(args) if not isinstance(
                                        a, ObjV) or program(a)] +
                 list(kw.items()), into, lambda p, a, k, v: hit.append(
                     (p, v)) if marked(v) else None)
            return hit

        def unmark(a):
            if not a.name.endswith(OLD):
                return None
            if a.kind == "fn":
                return poly.fn(a.name[:-1], *a.args)
            return Rat.sym(a.name[:-1])

        def clean(v):
            if isinstance(v, str) and v.endswith(OLD):
                return v[:-len(OLD)]
            if isinstance(v, Rat):
                return poly.subst(v, unmark) if marked(v) else v
            if isinstance(v, tuple):
                t = tuple(clean(x) for x in v)
                return t if any(x is not y for x, y in zip(t, v)) else v
            return v

        def restore(first):
            for a, pl in ip.st.heap.items():
                if isinstance(pl, (dict, list)) and (first is None or
                                                     a in first or
                                                     a >= first["start"]):
                    for k, v in payloads(pl):
                        w = clean(v)
                        if w is not v:
                            pl[k] = w

        def modules():
            return [("%s:%s" % (n, k), x) for n, f in
                    ip.module_frames.items() for k, x in (
                        ip.st.heap.get(f) or {}).items()
                    if isinstance(x, (Arr, ListV, DictV))]

        def ask(f, args, kw, roots, mem):
            """-> (answer or exception, marks that reached it)"""
            start = ip.next_addr
            for p, a, k, v in mem:
                put(a, k, v + OLD if isinstance(v, str) else
                    poly.subst(v, rename))
            hit = []
            try:
                r = outer(f, args, kw)
                hit = reached(r, args, kw, start)
            finally:
                if mem:
                    first = {a: 1 for _, a, _, _ in mem}
                    first["start"] = start
                    restore(first)
            return r, hit

        def call(f, args, kw):
            if ip.stack or S["busy"] or not isinstance(
                    f, (BoundV, FuncV, ObjV, ClassV)):
                return outer(f, args, kw)
            fn = f.func if isinstance(f, BoundV) else f
            if isinstance(f, ObjV):
                fn = f.cls
            name = getattr(fn, "qualname", None) or getattr(fn, "q", None)
            start = ip.next_addr
            args_ = list(args) + list(kw.values())
            made = isinstance(f, ClassV) or str(name).endswith("__init__")
            ask_syms = set()
            give(args_, ask_syms)
            S["built" if made else "asked"] |= ask_syms
            S["asked"] -= S["built"]
            asked = f.self_ if isinstance(f, BoundV) else f
            if name is None or isinstance(f, ClassV) or name.endswith(
                    "__init__") or isinstance(
                    fn, ExtV) or not isinstance(fn, (FuncV, ClassV)) or \
                    isinstance(asked, ObjV) and program(asked):
                # a construction, a question to a program or to torch
                try:
                    return outer(f, args, kw)
                finally:
                    S["made"].append((start, ip.next_addr))
            S["busy"] = True
            try:
                roots = [("self" if isinstance(f, BoundV) else name, f)]
                networks(roots + [("arg", a) for a in args_])
                if not S["params"] and not S["tags"]:
                    return outer(f, args, kw)
                roots += modules()
                mem = memories(roots)
                r, hit = ask(f, args, kw, roots, mem)
                S["made"].append((start, ip.next_addr))
                left = memories(roots)
                old = {(a, str(k)) for _, a, k, _ in mem}
                new = [m for m in left if (m[1], str(m[2])) not in old]
                if new and not hit:
                    keep = ip.st.clone()
                    try:
                        _, hit = ask(f, args, kw, roots, left)
                    except (AbsRaise, Undecided):
                        pass
                    ip.st = keep
                    mem = left
                self.note(name, fn, mem, hit)
                return r
            finally:
                S["made"].append((start, ip.next_addr))
                S["busy"] = False
        ip.call = call
        return ip

    def note(self, name, fn, mem, hit):
        m = fn.module
        w = "%s:%d (%s)" % (os.path.relpath(m.path, self.repo.root),
                            getattr(fn.node, "lineno", 0), fn.name)
        g = self.notes.setdefault(name, [0, 0, None, w])
        g[0] += 1
        g[1] += bool(mem)
        if hit and g[2] is None and not any(e.search(name) for e in EXEMPT):
            kept = sorted({p for p, _, _, _ in mem})[:4]
            g[2] = "%s of the answer holds %s, remembered in %s" % (
                hit[0][0], str(hit[0][1])[:80], ", ".join(kept))


def donor(a):
    name, args = a
    pid, tier, seed = args
    m = importlib.import_module("sa.checks." + name)
    ck = Flow(pid, tier, seed, Repo(core.REPO))
    ck.notes = {}
    poly.clear_bounds()
    m.check(ck)
    poly.clear_bounds()
    ck.absorb()
    return name, ck.notes, sorted(ck.functions), ck.calls, ck.joins, \
        sorted(ck.natives)


def check(ck):
    jobs = [(n, (ck.pid, ck.tier, ck.seed)) for n in DONORS]
    with multiprocessing.get_context("fork").Pool(
            min(len(jobs), os.cpu_count() or 1)) as pool:
        res = pool.map(donor, jobs, chunksize=1)
    tot = {}
    for name, notes, fns, calls, joins, nat in sorted(res,
                                                      key=lambda r: r[0]):
        for f, (n, m, bad, where) in notes.items():
            g = tot.setdefault(f, [0, 0, None, where])
            g[0] += n
            g[1] += m
            g[2] = g[2] or bad
        ck.functions |= set(fns)
        ck.natives |= set(nat)
        ck.calls += calls
        ck.joins += joins
    for f, (n, m, bad, where) in sorted(tot.items()):
        ck.ob(f, bad is None, RULE, bad or "asked %d times, %d with something "
              "remembered" % (n, m), where)
