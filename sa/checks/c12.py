"""Algebra of mixed-integer constraint blocks."""
import itertools

from .. import poly, mic, gurobi_model as gm
from ..poly import Rat
from ..values import Arr, AbsRaise, Opaque
from .common import sym, where, F64
from .c11 import T, canon, coefs, new_mip, addv, rows_ob, INF

TITLE = "Combining and adding constraint blocks preserves their meaning"
EXPLANATION = (
    "concatenate_mixed_integer_constraints, transform_input, clone and "
    "add_mixed_integer_linear_constraints are evaluated on blocks whose "
    "matrices are symbolic, for every pattern of absent (None) matrices, "
    "shared or separate slack / binary variables and stacked outputs. The "
    "rows and variable bounds of the result are compared, as normal forms, "
    "with the rows of the operands over the documented variables.")
ASSUMPTIONS = ("real arithmetic; torch calls follow their documentation", )
MIN_OBS = 300
G = "gurobi_torch_mip"
K = ("input", "slack", "binary")


def build(ip, tag, n, k, pres, rhs=True, bounds=()):
    """a block; n: variables per kind; k: rows per part; pres: set of
    present matrices, e.g. 'Ain_slack'"""
    o = ip.call(ip.get(G, "MixedIntegerConstraintsReturn"), [], {})
    for part in ("out", "in", "eq"):
        for b in K:
            f = "A%s_%s" % (part, b)
            if f in pres and k[part]:
                ip.setattr(o, f, T(ip, [sym("%s.%s.%d.%d" % (tag, f, i, j))
                                        for i in range(k[part])
                                        for j in range(n[b])],
                                   (k[part], n[b])))
        if part == "out":
            if "Cout" in pres and k["out"]:
                ip.setattr(o, "Cout", T(ip, [sym("%s.C%d" % (tag, i))
                                             for i in range(k["out"])]))
        elif k[part]:
            ip.setattr(o, "rhs_" + part, T(ip, [
                sym("%s.%s.%d" % (tag, part, i)) for i in range(k[part])]))
    for f in bounds:
        b = f.split("_")[0]
        ip.setattr(o, f, T(ip, [sym("%s.%s.%d" % (tag, f, i))
                                for i in range(n[b])]))
    return o


def spec_rows(tag, n, k, pres, names, sub=None):
    """the rows of a block over the given variables, as (part, coef, const)"""
    out = {"in": [], "eq": [], "out": []}
    for part in out:
        for i in range(k[part]):
            e = Rat.const(0)
            for b in K:
                f = "A%s_%s" % (part, b)
                if f not in pres:
                    continue
                for j in range(n[b]):
                    v = names[b][j]
                    e = e + sym("%s.%s.%d.%d" % (tag, f, i, j)) * (
                        v if isinstance(v, Rat) else sym(v))
            if part == "out":
                if "Cout" in pres:
                    e = e + sym("%s.C%d" % (tag, i))
            else:
                e = e - sym("%s.%s.%d" % (tag, part, i))
            out[part].append(e)
    return out


def got_rows(ip, ret, names):
    m = mic.Mic(ip, ret)
    out = {"in": [], "eq": [], "out": []}
    for part in out:
        nr = len(m.v["rhs_" + part] or []) if part != "out" else m.nout
        for i in range(nr):
            e = m._lhs(part, i, names)
            if part == "out":
                if m.v["Cout"] is not None:
                    e = e + Rat.of(m.v["Cout"][i])
            else:
                e = e - Rat.of(m.v["rhs_" + part][i])
            out[part].append(e)
    return m, out


FULL = {"A%s_%s" % (p, b) for p in ("out", "in", "eq") for b in K} | {"Cout"}
SUBS = [s for r in range(4) for s in itertools.combinations(K, r)]


def cmp_rows(ck, key, got, want, rule, w, parts=("in", "eq", "out")):
    for p in parts:
        g, t = got[p], want[p]
        if len(g) != len(t):
            ck.ob("%s.%s" % (key, p), False, rule, "%d rows, %d expected" %
                  (len(g), len(t)), w)
            continue
        if p != "out":
            g = sorted(g, key=str)
            t = sorted(t, key=str)
        for i, (a, b) in enumerate(zip(g, t)):
            ck.ob("%s.%s[%d]" % (key, p, i), a == b, rule, "%s vs %s" %
                  (a, b), w)


def nm(n, pre="", off=None):
    return {b: ["%s%s%d" % (pre, b[0], i) for i in range(n[b])] for b in K}


def snapshot(ip, o):
    return {f: (None if ip.getattr(o, f) is None else
                [str(c) for c in ip.cells(ip.getattr(o, f))])
            for f in mic.FIELDS + mic.VFIELDS}


def concat(ck):
    f = "concatenate_mixed_integer_constraints"
    w = where(ck.repo, G, f)
    rule = "rows of both blocks over the documented variables"
    k1, k2 = {"in": 2, "eq": 1, "out": 1}, {"in": 1, "eq": 2, "out": 2}
    for ss, sb, so in itertools.product((False, True), repeat=3):
        n1 = {"input": 2, "slack": 3, "binary": 1}
        n2 = {"input": 2, "slack": 3 if ss else 1, "binary": 1 if sb else 2}
        pats = []
        for part in ("in", "eq", "out"):
            for a in SUBS:
                for b in SUBS:
                    d = lambda s: (FULL - {"A%s_%s" % (part, q) for q in K}) \
                        | {"A%s_%s" % (part, q) for q in s}
                    pats.append(("%s.%s-%s" % (part, "".join(
                        q[0] for q in a), "".join(q[0] for q in b)),
                        d(a), d(b), k1, k2))
        for c1, c2 in itertools.product((0, 1), repeat=2):
            pats.append(("cout%d%d" % (c1, c2),
                         FULL if c1 else FULL - {"Cout"},
                         FULL if c2 else FULL - {"Cout"}, k1, k2))
        for part in ("in", "eq"):
            for z1, z2 in ((1, 0), (0, 1), (1, 1)):
                pats.append(("norows.%s%d%d" % (part, z1, z2), FULL, FULL,
                             dict(k1, **({part: 0} if z1 else {})),
                             dict(k2, **({part: 0} if z2 else {}))))
        if not ss:
            for z1, z2 in ((1, 0), (0, 1), (1, 1)):
                ns = {x for x in FULL if "slack" in x}
                pats.append(("noslack%d%d" % (z1, z2),
                             FULL - ns if z1 else FULL,
                             FULL - ns if z2 else FULL, k1, k2))
        if not sb:
            for z1, z2 in ((1, 0), (0, 1), (1, 1)):
                ns = {x for x in FULL if "binary" in x}
                pats.append(("nobinary%d%d" % (z1, z2),
                             FULL - ns if z1 else FULL,
                             FULL - ns if z2 else FULL, k1, k2))
        for pn, p1, p2, r1, r2 in pats:
            if not ck.deep and pn.startswith("out") and not so:
                continue
            ip = ck.interp()
            key = "concatenate.%d%d%d.%s" % (ss, sb, so, pn)

            def go():
                def vars_in(p, n):
                    return {b: n[b] if any("A%s_%s" % (q, b) in p for q in
                                           ("in", "eq", "out")) else 0
                            for b in K}
                m1, m2 = vars_in(p1, n1), vars_in(p2, n2)
                o1, o2 = build(ip, "a", n1, r1, p1), build(ip, "b", n2, r2,
                                                           p2)
                s1, s2 = snapshot(ip, o1), snapshot(ip, o2)
                ret = ip.call(ip.get(G, f), [o1, o2], {
                    "same_slack": ss, "same_binary": sb,
                    "stack_output": so})
                N1, N2 = nm(m1), nm(m2)
                al = {"input": nm(n1)["input"]}
                for b, same in (("slack", ss), ("binary", sb)):
                    if same:
                        al[b] = N1[b]
                    else:
                        N2[b] = ["%s'" % v for v in N2[b]]
                        al[b] = N1[b] + N2[b]
                m, got = got_rows(ip, ret, al)
                for b in K:
                    have = any(m.m["A%s_%s" % (q, b)] is not None
                               for q in ("in", "eq", "out"))
                    if have and m.n[b] != len(al[b]):
                        ck.ob(key + ".n_" + b, False, rule, "%d %s variables"
                              ", %d expected" % (m.n[b], b, len(al[b])), w)
                        return
                a = spec_rows("a", n1, r1, p1, N1)
                b_ = spec_rows("b", n2, r2, p2, N2)
                want = {p: a[p] + b_[p] for p in a}
                if not so:
                    want["out"] = []
                cmp_rows(ck, key, got, want, rule, w)
                ck.ob(key + ".pure", snapshot(ip, o1) == s1 and
                      snapshot(ip, o2) == s2, "operands are not modified",
                      "", w)
            ck.attempt(key, go, where=w)
    # bounds
    rule = "the same variable gets the intersection of the bounds, separate "\
           "variables keep their own (unbounded when absent)"
    for ss, sb in itertools.product((False, True), repeat=2):
        n1 = {"input": 2, "slack": 3, "binary": 1}
        n2 = {"input": 2, "slack": 3 if ss else 1, "binary": 1 if sb else 2}
        for b in K:
            for e in ("lo", "up"):
                for h1, h2 in itertools.product((0, 1), repeat=2):
                    ip = ck.interp()
                    fl = "%s_%s" % (b, e)
                    key = "bounds.%d%d.%s.%d%d" % (ss, sb, fl, h1, h2)

                    def go():
                        o1 = build(ip, "a", n1, k1, FULL, bounds=[fl] * h1)
                        o2 = build(ip, "b", n2, k2, FULL, bounds=[fl] * h2)
                        ret = ip.call(ip.get(G, f), [o1, o2], {
                            "same_slack": ss, "same_binary": sb,
                            "stack_output": False})
                        m = mic.Mic(ip, ret)
                        same = {"input": True, "slack": ss,
                                "binary": sb}[b]
                        unb = INF if e == "up" else -INF
                        A = [sym("a.%s.%d" % (fl, i)) if h1 else unb
                             for i in range(n1[b])]
                        B = [sym("b.%s.%d" % (fl, i)) if h2 else unb
                             for i in range(n2[b])]
                        if same:
                            op = poly.min2 if e == "up" else poly.max2
                            want = [x if not h2 else y if not h1 else
                                    op(x, y) for x, y in zip(A, B)]
                        else:
                            want = A + B
                        got = m.v[fl]
                        if got is None:
                            got = [unb] * len(want)
                        ok = len(got) == len(want) and all(
                            Rat.of(x) == Rat.of(y) or not (
                                poly._is_inf(Rat.of(x)) or
                                poly._is_inf(-Rat.of(x)) or
                                poly._is_inf(Rat.of(y)) or
                                poly._is_inf(-Rat.of(y))) and
                            poly.equal(Rat.of(x), Rat.of(y), ck.seed)[0]
                            for x, y in zip(got, want))
                        ck.ob(key, ok, rule, "%s vs %s" % (got, want), w)
                        others = [q for q in mic.VFIELDS if ("_lo" in q or
                                  "_up" in q) and q != fl and
                                  m.v[q] is not None and any(
                                      not poly._is_inf(Rat.of(v)) and
                                      not poly._is_inf(-Rat.of(v))
                                      for v in m.v[q])]
                        ck.ob(key + ".others", not others, rule,
                              str(others), w)
                    ck.attempt(key, go, where=w)


def transform(ck):
    w = where(ck.repo, G, "MixedIntegerConstraintsReturn.transform_input")
    rule = "constraints of the transformed block at x == constraints of the "\
           "block at A x + b"
    k = {"in": 2, "eq": 1, "out": 2}
    n = {"input": 2, "slack": 1, "binary": 1}
    for nx in (1, 2, 3):
        for drop in (set(), {"Ain_input"}, {"Aeq_input"}, {"Aout_input"},
                     {"Cout"}, {"Aout_input", "Cout"}, {"Ain_slack"},
                     {"Aeq_binary"}, {"Aout_slack"}):
            ip = ck.interp()
            key = "transform_input.%d.%s" % (nx, "-".join(sorted(drop)))

            def go():
                p = FULL - drop
                o = build(ip, "a", n, k, p)
                A = T(ip, [sym("A%d%d" % (i, j)) for i in range(2)
                           for j in range(nx)], (2, nx))
                b = T(ip, [sym("b0"), sym("b1")])
                ip.call(ip.getattr(o, "transform_input"), [A, b], {})
                N = nm(dict(n, input=nx))
                m, got = got_rows(ip, o, N)
                S = nm(n)
                S["input"] = [sum((sym("A%d%d" % (i, j)) * sym("i%d" % j)
                                   for j in range(nx)), Rat.const(0)) +
                              sym("b%d" % i) for i in range(2)]
                cmp_rows(ck, key, got, spec_rows("a", n, k, p, S), rule, w)
                ck.ob(key + ".operands", [str(c) for c in ip.cells(A)] ==
                      ["A%d%d" % (i, j) for i in range(2)
                       for j in range(nx)] and [str(c) for c in ip.cells(b)]
                      == ["b0", "b1"], "A and b are not modified", "", w)
            ck.attempt(key, go, where=w)
    for bd in ("input_lo", "input_up"):
        ip = ck.interp()

        def go():
            o = build(ip, "a", n, k, FULL, bounds=[bd])
            try:
                ip.call(ip.getattr(o, "transform_input"), [
                    T(ip, [sym("A%d%d" % (i, j)) for i in range(2)
                           for j in range(2)], (2, 2)),
                    T(ip, [sym("b0"), sym("b1")])], {})
            except AbsRaise:
                ck.ob("transform_input." + bd, True, "input bounds are "
                      "transformed or refused, never dropped or kept", "", w)
                return
            m = mic.Mic(ip, o)
            ck.ob("transform_input." + bd, False, "input bounds are "
                  "transformed or refused, never dropped or kept",
                  str(m.v[bd]), w)
        ck.attempt("transform_input." + bd, go, where=w)
    # the clone shares nothing with the original
    w = where(ck.repo, G, "MixedIntegerConstraintsReturn.clone")
    for drop in (set(), {"Ain_slack", "Cout"}):
        ip = ck.interp()

        def go():
            allb = [b + e for b in K for e in ("_lo", "_up")]
            o = build(ip, "a", n, k, FULL - drop, bounds=[
                b for b in allb if "input" not in b])
            s = snapshot(ip, o)
            c = ip.call(ip.getattr(o, "clone"), [], {})
            ck.ob("clone.equal" + str(len(drop)), snapshot(ip, c) == s,
                  "clone has the same rows", "", w)
            ip.call(ip.getattr(c, "transform_input"), [
                T(ip, [sym("A%d%d" % (i, j)) for i in range(2)
                       for j in range(2)], (2, 2)),
                T(ip, [sym("b0"), sym("b1")])], {})
            for fl in mic.FIELDS + mic.VFIELDS:
                v = ip.getattr(c, fl)
                if v is not None:
                    ip.store_cells(v, [Rat.const(7)] * v.size)
            ck.ob("clone.separate" + str(len(drop)), snapshot(ip, o) == s,
                  "changing the clone leaves the original alone", "", w)
        ck.attempt("clone", go, where=w)


def counts(ck):
    w = where(ck.repo, G, "MixedIntegerConstraintsReturn")
    n = {"input": 3, "slack": 4, "binary": 5}
    k = {"in": 2, "eq": 6, "out": 7}
    for part in ("out", "in", "eq"):
        for b in K:
            ip = ck.interp()

            def go():
                o = build(ip, "a", n, dict({"in": 0, "eq": 0, "out": 0},
                                           **{part: k[part]}),
                          {"A%s_%s" % (part, b)})
                for m, t in (("num_out", k["out"] * (part == "out")),
                             ("num_ineq", k["in"] * (part == "in")),
                             ("num_eq", k["eq"] * (part == "eq")),
                             ("num_input", n["input"] * (b == "input")),
                             ("num_slack", n["slack"] * (b == "slack")),
                             ("num_binary", n["binary"] * (b == "binary"))):
                    v = ip.call(ip.getattr(o, m), [], {})
                    ck.ob("counts.%s.%s.%s" % (part, b, m), v == t,
                          "sizes are those of the block", "%s vs %s" %
                          (v, t), w)
            ck.attempt("counts", go, where=w)


def adding(ck):
    f = "add_mixed_integer_linear_constraints"
    w = where(ck.repo, G, "GurobiTorchMIP." + f)
    rule = "the program gets the rows of the block over the given inputs, " \
           "the given outputs and the new slack and binary variables"
    k = {"in": 2, "eq": 2, "out": 2}
    n = {"input": 2, "slack": 2, "binary": 1}
    cases = []
    for part in ("in", "eq", "out"):
        for s in SUBS:
            if not s and part != "out":
                continue        # rows without any variable
            p = (FULL - {"A%s_%s" % (part, q) for q in K}) | {
                "A%s_%s" % (part, q) for q in s}
            cases.append(("%s.%s" % (part, "".join(q[0] for q in s)), p, k,
                          True, "B", None, ()))
    for vt in ("B", "BR", "C"):
        cases.append(("vtype." + vt, FULL, k, True, vt, None, ()))
    cases += [("no_output", FULL, k, False, "B", None, ()),
              ("no_cout", FULL - {"Cout"}, k, True, "B", None, ()),
              ("no_in", FULL, dict(k, **{"in": 0}), True, "B", None, ()),
              ("no_eq", FULL, dict(k, eq=0), True, "BR", None, ()),
              ("given_binary", FULL, k, True, "B", "given", ()),
              ("no_slack", {x for x in FULL if "slack" not in x}, k, True,
               "B", None, ()),
              ("no_binary", {x for x in FULL if "binary" not in x}, k, True,
               "B", None, ())]
    for b in K:
        for e in ("_lo", "_up"):
            cases.append(("bounds." + b + e, FULL, k, True,
                          "BR" if b == "binary" else "B", None, (b + e, )))
    for cn, p, kk, outp, vt, given, bds in cases:
        ip = ck.interp()
        key = "add." + cn

        def go():
            poly.clear_bounds()
            mip = new_mip(ip)
            if given:
                gv = addv(ip, mip, 1, vtype=vt)
            x = addv(ip, mip, 2, lb=-INF)
            y = addv(ip, mip, 2, lb=-INF)
            for bd in bds:
                for i in range(n[bd.split("_")[0]]):
                    # a binary bound inside (0, 1): the tighter one wins
                    poly.set_bounds("a.%s.%d" % (bd, i), 0, 1, True, True)
            o = build(ip, "a", n, kk, p, bounds=bds)
            before = snapshot(ip, o)
            ret = ip.call(ip.getattr(mip, f), [
                o, ip.new_list(x), ip.new_list(y) if outp else None], {
                "slack_var_name": "s", "binary_var_name":
                ip.new_list(gv) if given else "b",
                "ineq_constr_name": "i", "eq_constr_name": "e",
                "out_constr_name": "o", "binary_var_type": vt})
            s, b = [list(ip.iterate(q)) for q in ip.iterate(ret)]
            ns = n["slack"] if any("slack" in q for q in p) else 0
            nb = n["binary"] if any("binary" in q for q in p) else 0
            ck.ob(key + ".new", len(s) == ns and len(b) == nb and
                  (not given or b == gv), "slack and binary variables of "
                  "the block are returned", "%d %d" % (len(s), len(b)), w)
            m = mic.mip_model(ip, mip)
            names = {"input": [gm.vsym(ip, v) for v in x],
                     "slack": [gm.vsym(ip, v) for v in s],
                     "binary": [gm.vsym(ip, v) for v in b]}
            want = spec_rows("a", n, kk, p, names)
            vs = gm.variables(ip, m)
            al = [v[0] for v in vs]
            W = []
            for part, sense in (("in", "<"), ("eq", "=")):
                for e in want[part]:
                    a, c = coefs(e, al)
                    W.append(canon(a, -c, sense))
            if outp:
                for e, v in zip(want["out"], y):
                    a, c = coefs(e - gm.vsym(ip, v), al)
                    W.append(canon(a, -c, "="))
            got = []
            for e, sn, _, _ in gm.rows(ip, m):
                a, c = coefs(e if sn != ">" else -e, al)
                got.append(canon(a, -c, "=" if sn == "=" else "<"))
            norm = lambda L: sorted(L)
            ck.ob(key + ".rows", norm(got) == norm(W), rule,
                  "missing %s; extra %s" % (
                      [q for q in norm(W) if q not in norm(got)][:2],
                      [q for q in norm(got) if q not in norm(W)][:2]), w)
            ck.ob(key + ".pure", snapshot(ip, o) == before,
                  "the block is not modified", "", w)
            by = {v[0]: v for v in vs}
            for kind, L in (("input", x), ("slack", s), ("binary", b)):
                for i, v in enumerate(L):
                    q = by[str(gm.vsym(ip, v))]
                    lo, up = (-INF, INF)
                    if kind == "binary" and vt in ("B", "BR"):
                        lo, up = Rat.const(0), Rat.const(1)
                    elif kind == "binary":
                        lo, up = Rat.const(0), Rat.const(1)
                    if kind + "_lo" in bds:
                        lo = sym("a.%s_lo.%d" % (kind, i))
                    if kind + "_up" in bds:
                        up = sym("a.%s_up.%d" % (kind, i))
                    ck.ob("%s.bound.%s%d" % (key, kind, i),
                          q[1] == Rat.of(lo) and q[2] == Rat.of(up),
                          "variable bounds are the block's bounds",
                          "[%s, %s] vs [%s, %s]" % (q[1], q[2], lo, up), w)
                    if kind == "binary":
                        ck.ob("%s.vtype%d" % (key, i), q[3] == {
                            "B": "B", "BR": "C", "C": "C"}[vt],
                            "binary_var_type is honoured", q[3], w)
            zeta = [str(gm.vsym(ip, z)) for z in ip.items(ip.getattr(
                mip, "zeta"))]
            ck.ob(key + ".zeta", (zeta == [str(gm.vsym(ip, v)) for v in b])
                  if vt != "C" else not zeta, "binaries are recorded as the "
                  "integer part of the program", str(zeta), w)
            if not bds and vt != "C":
                rows_ob(ck, ip, mip, key + ".mirror", w)
        ck.attempt(key, go, where=w)
    poly.clear_bounds()


def check(ck):
    for n, g in (("concatenate", concat), ("transform_input", transform),
                 ("counts", counts), ("add", adding)):
        poly.clear_bounds()
        ck.attempt(n, lambda: g(ck))
    poly.clear_bounds()
