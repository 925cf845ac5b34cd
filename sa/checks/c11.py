"""The tensor mirror of a mixed-integer program is the solver's program."""
import itertools

from .. import poly, mic, gurobi_model as gm
from ..poly import Rat
from ..values import Arr, ExtV, ListV, SetV, AbsRaise
from .common import sym, where, F64

TITLE = "The tensor mirror of a program is the program the solver gets"
EXPLANATION = (
    "addVars / addLConstr / addMConstr / setObjective of the mixed-integer "
    "wrapper are evaluated on symbolic bounds, coefficients and right-hand "
    "sides for every sense, variable type and bound pattern, interleaved; "
    "the rows and objective recorded by the (abstract) solver model are "
    "compared, as normal forms, with the rows and objective rebuilt from the "
    "tensor mirror. Active-set selection and the closed-form objectives are "
    "compared with their definitions.")
ASSUMPTIONS = ("real arithmetic; torch.sparse / gurobipy calls follow their "
               "documentation", )
MIN_OBS = 150
G = "gurobi_torch_mip"
ROW = "every solver row and every finite bound of a continuous variable " \
      "has its row in the tensor mirror, and no other row exists"
OBJ = "mirror objective == solver objective == requested objective"


def T(ip, vals, shape=None):
    vals = [Rat.of(v) for v in vals]
    return ip.new_arr((len(vals), ) if shape is None else shape, vals, "torch", "float")


def canon(a, rhs, sense):
    """dict var->coef, rhs -> a hashable normal form"""
    a = {k: v for k, v in a.items() if not v == Rat.const(0)}
    def form(f):
        return (sense, tuple(sorted((k, str(v * f)) for k, v in a.items())),
                str(Rat.of(rhs) * f))
    # an equality holds up to its sign
    return min(form(1), form(-1)) if sense == "=" else form(1)


def coefs(e, names):
    a = {n: poly.diff(e, n) for n in names}
    c = e
    for n in names:
        c = c - a[n] * Rat.sym(n)
    return a, c


def model_canon(ip, mip):
    """the rows the mirror must have"""
    m = mic.mip_model(ip, mip)
    vs = gm.variables(ip, m)
    names = [v[0] for v in vs]
    out = []
    for e, s, nm, w in gm.rows(ip, m):
        if s == ">":
            e = -e
        a, c = coefs(e, names)
        out.append(canon(a, -c, "=" if s == "=" else "<"))
    zeta = set(str(gm.vsym(ip, z)) for z in ip.items(ip.getattr(mip,
                                                              "zeta")))
    for n, lb, ub, vt, nm in vs:
        if n in zeta:
            continue
        if lb == ub:
            out.append(canon({n: Rat.const(1)}, lb, "="))
            continue
        if not poly._is_inf(-lb):
            out.append(canon({n: Rat.const(-1)}, -lb, "<"))
        if not poly._is_inf(ub):
            out.append(canon({n: Rat.const(1)}, ub, "<"))
    return sorted(out)


def matr(ip, m):
    c = ip.cells(m)
    return [c[i * m.shape[1]:(i + 1) * m.shape[1]]
            for i in range(m.shape[0])]


def vars_of(ip, mip):
    r = [str(gm.vsym(ip, v)) for v in ip.items(ip.getattr(mip, "r"))]
    z = [str(gm.vsym(ip, v)) for v in ip.items(ip.getattr(mip, "zeta"))]
    return r, z


def mirror_canon(ip, mip):
    r, z = vars_of(ip, mip)
    Ar, Az, b = ip.iterate(ip.call(ip.getattr(
        mip, "get_inequality_constraints"), [], {}))
    out = []
    for x, y, c in zip(matr(ip, Ar), matr(ip, Az), ip.cells(b)):
        out.append(canon(dict(list(zip(r, x)) + list(zip(z, y))), c, "<"))
    if Ar.shape != (len(ip.cells(b)), len(r)) or \
            Az.shape != (len(ip.cells(b)), len(z)):
        raise mic.Malformed("get_inequality_constraints shapes %s %s for %d "
                            "rows" % (Ar.shape, Az.shape, len(ip.cells(b))))
    zs = [sym("zs%d" % i) for i in range(len(z))]
    A, b = ip.iterate(ip.call(ip.getattr(mip, "get_active_constraints"),
                              [ip.new_set([]), T(ip, zs)], {}))
    if A.shape != (len(ip.cells(b)), len(r)):
        raise mic.Malformed("get_active_constraints shape %s" % (A.shape, ))
    for x, c in zip(matr(ip, A), ip.cells(b)):
        c = Rat.of(c)
        ca, c0 = coefs(c, [str(s) for s in zs])
        a = dict(zip(r, x))
        for n, s in zip(z, zs):
            a[n] = -ca[str(s)]
        out.append(canon(a, c0, "="))
    return sorted(out)


def rows_ob(ck, ip, mip, key, w):
    A, B = model_canon(ip, mip), mirror_canon(ip, mip)
    miss = [a for a in A if a not in B]
    extra = [b for b in B if b not in A]
    ck.ob(key, A == B, ROW, "solver rows without mirror: %s; mirror rows "
          "without solver row: %s" % (miss[:4], extra[:4]), w)
    return A


def new_mip(ip, cls="GurobiTorchMIP"):
    return ip.call(ip.get(G, cls), [F64], {})


def addv(ip, mip, n, **kw):
    return ip.items(ip.call(ip.getattr(mip, "addVars"), [n], kw))


def pos(*ns):
    for n in ns:
        poly.set_bounds(n, 0, None, True)
    return [sym(n) for n in ns]


INF = poly.INF


def bound_cases(binary=False):
    poly.clear_bounds()
    p, q, r = pos("p", "q", "r")
    t = sym("t")
    if binary:
        poly.set_bounds("t", 0, None, True)
    return {"free": (-INF, INF), "lower": (t, INF), "upper": (-INF, t),
            "both": (t, t + p), "fixed": (t, t), "nonneg": (0, INF),
            "zero": (0, 0), "unit": (0, 1)}


def bounds(ck):
    w = where(ck.repo, G, "GurobiTorchMIP.addVars")
    cs = bound_cases()
    for vt in ("C", "B", "BR"):
        for a, b in itertools.product(cs, repeat=2):
            if a > b and not ck.deep and vt != "C":
                continue
            ip = ck.interp()
            mip = new_mip(ip)
            key = "bounds.%s.%s.%s" % (vt, a, b)

            def go():
                los = [bound_cases(vt != "C")[a][0], bound_cases(vt != "C")[b][0]]
                ups = [bound_cases(vt != "C")[a][1], bound_cases(vt != "C")[b][1]]
                x = addv(ip, mip, 1, lb=-INF, vtype="C")
                v = addv(ip, mip, 2, lb=T(ip, los), ub=T(ip, ups), vtype=vt)
                addv(ip, mip, 1, lb=Rat.of(-1.), ub=2, vtype="C")
                rows_ob(ck, ip, mip, key, w)
                vs = {q[0]: q for q in gm.variables(
                    ip, mic.mip_model(ip, mip))}
                for i, y in enumerate(v):
                    n = str(gm.vsym(ip, y))
                    lo, up = Rat.of(los[i]), Rat.of(ups[i])
                    if vt != "C":
                        lo = poly.max2(Rat.const(0), lo)
                        up = poly.min2(Rat.const(1), up)
                    ck.eq(key + ".lb%d" % i, vs[n][1], lo,
                          "solver bounds are the requested bounds", w) \
                        if not poly._is_inf(lo) and not poly._is_inf(-lo) \
                        else ck.ob(key + ".lb%d" % i, vs[n][1] == lo,
                                   "solver bounds are the requested bounds",
                                   str(vs[n][1]), w)
                    ck.ob(key + ".ub%d" % i, vs[n][2] == up or
                          poly.equal(vs[n][2], up, ck.seed)[0]
                          if not poly._is_inf(up) else vs[n][2] == up,
                          "solver bounds are the requested bounds",
                          str(vs[n][2]), w)
                    ck.ob(key + ".vt%d" % i, vs[n][3] ==
                          {"C": "C", "B": "B", "BR": "C"}[vt],
                          "solver variable type", vs[n][3], w)
                r, z = vars_of(ip, mip)
                mine = [str(gm.vsym(ip, y)) for y in v]
                ck.ob(key + ".kind", (mine == r[1:3] and not z) if vt == "C"
                      else (mine == z and len(r) == 2),
                      "continuous variables go to r, (relaxed) binaries to "
                      "zeta", "r=%s zeta=%s" % (r, z), w)
            ck.attempt(key, go, where=w)
    # scalar bounds and defaults
    for key, kw, want in (
            ("default", {}, (0, INF)), ("int", {"lb": 1, "ub": 3}, (1, 3)),
            ("float", {"lb": Rat.of(-1.5), "ub": Rat.of(2.5)}, (-1.5, 2.5)),
            ("lbonly", {"lb": -2}, (-2, INF)),
            ("inf", {"lb": -INF, "ub": INF}, (-INF, INF)),
            ("binary", {"lb": 0, "ub": 1, "vtype": "B"}, (0, 1)),
            ("binary_default", {"vtype": "B"}, (0, 1)),
            ("binary_fixed1", {"lb": 1, "ub": 1, "vtype": "B"}, (1, 1)),
            ("binary_fixed0", {"lb": 0, "ub": 0, "vtype": "B"}, (0, 0)),
            ("relax", {"vtype": "BR"}, (0, 1)),
            ("relax_fixed", {"lb": Rat.of(1.), "ub": Rat.of(1.), "vtype": "BR"}, (1, 1))):
        ip = ck.interp()

        def go():
            mip = new_mip(ip)
            addv(ip, mip, 3, **kw)
            rows_ob(ck, ip, mip, "scalar_bounds." + key, w)
            vs = gm.variables(ip, mic.mip_model(ip, mip))
            ck.ob("scalar_bounds.%s.solver" % key, all(
                v[1] == Rat.of(want[0]) and v[2] == Rat.of(want[1])
                for v in vs), "solver bounds are the requested bounds",
                str(vs), w)
        ck.attempt("scalar_bounds." + key, go, where=w)


def mixed(ip, mip):
    """interleaved variables: x0 b0 y0 y1 b1 x1 (relaxed binary c0)"""
    x0 = addv(ip, mip, 1, lb=-INF)
    b0 = addv(ip, mip, 1, vtype="B")
    y = addv(ip, mip, 2, lb=-INF)
    b1 = addv(ip, mip, 1, vtype="BR")
    x1 = addv(ip, mip, 1, lb=-INF)
    return x0[0], b0[0], y[0], y[1], b1[0], x1[0]


def rows_(ck):
    for fn in ("addLConstr", "addMConstr"):
        w = where(ck.repo, G, "GurobiTorchMIP." + fn)
        groups = [[0], [1], [0, 1], [2, 3], [4], [1, 0, 4], [3, 1, 5],
                  [1, 4], [0, 1, 2, 3, 4, 5], [5, 4, 3, 2, 1, 0]]
        for sense in "<>=":
            for gi, g in enumerate(groups):
                for split in (0, 1):
                    if split and len(g) < 2:
                        continue
                    ip = ck.interp()
                    key = "%s.%s.%d%s" % (fn, sense, gi,
                                          "s" if split else "")

                    def go():
                        mip = new_mip(ip)
                        V = mixed(ip, mip)
                        gs = [g[:1], g[1:]] if split else [g]
                        L = [ip.new_list([V[i] for i in q]) for q in gs]
                        want = []
                        for rep in range(2):
                            if fn == "addLConstr":
                                rhs = sym("h%d" % rep) if rep else None
                                C = [T(ip, [sym("a%d_%d" % (rep, i))
                                            for i in q]) for q in gs]
                                ip.call(ip.getattr(mip, fn),
                                        [ip.new_list(C), ip.new_list(L)],
                                        {"sense": sense, "rhs":
                                         T(ip, [rhs], ()) if rep else Rat.of(2.5)})
                                want.append(({i: sym("a%d_%d" % (rep, i))
                                              for i in g},
                                             rhs if rep else
                                             Rat.of(2.5)))
                            else:
                                C = [T(ip, [sym("a%d_%d_%d" % (rep, k, i))
                                            for k in range(2) for i in q],
                                       (2, len(q))) for q in gs]
                                ip.call(ip.getattr(mip, fn),
                                        [ip.new_list(C), ip.new_list(L)],
                                        {"sense": sense, "b": T(
                                            ip, [sym("h%d_%d" % (rep, k))
                                                 for k in range(2)])})
                                for k in range(2):
                                    want.append((
                                        {i: sym("a%d_%d_%d" % (rep, k, i))
                                         for i in g},
                                        sym("h%d_%d" % (rep, k))))
                        A = rows_ob(ck, ip, mip, key, w)
                        W = []
                        for a, h in want:
                            k = -1 if sense == ">" else 1
                            W.append(canon({str(gm.vsym(ip, V[i])): c * k
                                            for i, c in a.items()}, h * k,
                                           "=" if sense == "=" else "<"))
                        ck.ob(key + ".request", sorted(W) == A,
                              "the solver gets the requested rows",
                              "%s vs %s" % (sorted(W)[:3], A[:3]), w)
                    ck.attempt(key, go, where=w)
    w = where(ck.repo, G, "GurobiTorchMIP.addLConstr")
    # a zero-dimensional, one-dimensional and an integer right-hand side, a
    # duplicated variable is refused
    for dup in ((0, 0), (1, 1), (4, 4)):
        ip = ck.interp()
        mip = new_mip(ip)
        V = mixed(ip, mip)

        def go():
            try:
                ip.call(ip.getattr(mip, "addLConstr"), [
                    ip.new_list([T(ip, [sym("a")]), T(ip, [sym("b")])]),
                    ip.new_list([ip.new_list([V[dup[0]]]),
                                 ip.new_list([V[dup[1]]])])],
                    {"sense": "<", "rhs": Rat.of(1.)})
                ck.ob("addLConstr.duplicate%d" % dup[0], False,
                      "a duplicated variable is refused", "accepted", w)
            except AbsRaise:
                ck.ob("addLConstr.duplicate%d" % dup[0], True,
                      "a duplicated variable is refused", "", w)
        ck.attempt("addLConstr.duplicate", go, where=w)


def inactive_mix(ck):
    """a program with everything, then get_active_constraints on a subset"""
    w = where(ck.repo, G, "GurobiTorchMIP.get_active_constraints")
    for neq in (0, 1, 2):
        for act, rev in [(a, r) for a in ([], [0], [1], [0, 2], [1, 2],
                                          [2, 0, 1])
                         for r in (False, True) if len(a) > 1 or not r]:
            ip = ck.interp()
            # a set has no promised order
            ip.set_reverse = rev
            key = "active.%d.%s%s" % (neq, "".join(map(str, act)),
                                      ".reversed" if rev else "")

            def go():
                mip = new_mip(ip)
                V = mixed(ip, mip)
                r, z = vars_of(ip, mip)
                idx = range(6)
                for k in range(3):
                    ip.call(ip.getattr(mip, "addLConstr"), [
                        ip.new_list([T(ip, [sym("a%d_%d" % (k, i))
                                            for i in idx])]),
                        ip.new_list([ip.new_list([V[i] for i in idx])])],
                        {"sense": "<" if k != 1 else ">",
                         "rhs": T(ip, [sym("h%d" % k)], ())})
                    if k < neq:
                        ip.call(ip.getattr(mip, "addLConstr"), [
                            ip.new_list([T(ip, [sym("e%d_%d" % (k, i))
                                                for i in idx])]),
                            ip.new_list([ip.new_list([V[i] for i in idx])])],
                            {"sense": "=",
                             "rhs": T(ip, [sym("f%d" % k)], ())})
                zs = [sym("zs0"), sym("zs1")]
                A, b = ip.iterate(ip.call(
                    ip.getattr(mip, "get_active_constraints"),
                    [ip.new_set(list(act)), T(ip, zs)], {}))
                got = sorted((tuple(map(str, x)), str(c)) for x, c in zip(
                    matr(ip, A), ip.cells(b)))
                ri, zi = (0, 2, 3, 5), (1, 4)
                want = []
                for k in act:
                    s = -1 if k == 1 else 1
                    want.append((tuple(str(sym("a%d_%d" % (k, i)) * s)
                                       for i in ri),
                                 str((sym("h%d" % k) - sum(
                                     (sym("a%d_%d" % (k, i)) * zz
                                      for i, zz in zip(zi, zs)),
                                     Rat.const(0))) * s)))
                for k in range(neq):
                    want.append((tuple(str(sym("e%d_%d" % (k, i)))
                                       for i in ri),
                                 str(sym("f%d" % k) - sum(
                                     (sym("e%d_%d" % (k, i)) * zz
                                      for i, zz in zip(zi, zs)),
                                     Rat.const(0)))))
                ck.ob(key, got == sorted(want), "A_act r = b_act are the "
                      "equalities and the chosen inequalities with the "
                      "binaries fixed", "%s vs %s" % (got, sorted(want)), w)
            ck.attempt(key, go, where=w)


def lin_objective(ck):
    w = where(ck.repo, G, "GurobiTorchMILP.setObjective")
    for gs in ([[0]], [[1]], [[0, 1]], [[0], [1]], [[3, 2], [4, 0]],
               [[5, 4, 3, 2, 1, 0]], [[]], []):
        for sense in (1, -1):
            for ck_ in ("float", "tensor"):
                ip = ck.interp()
                key = "milp_objective.%s.%d.%s" % (
                    "_".join("".join(map(str, g)) for g in gs), sense, ck_)

                def go():
                    mip = new_mip(ip, "GurobiTorchMILP")
                    V = mixed(ip, mip)
                    con = Rat.of(1.5) if ck_ == "float" else T(ip, [sym("k")], ())
                    ip.call(ip.getattr(mip, "setObjective"), [
                        ip.new_list([T(ip, [sym("c%d" % i) for i in g],
                                       (len(g), )) for g in gs]),
                        ip.new_list([ip.new_list([V[i] for i in g])
                                     for g in gs])],
                        {"constant": con, "sense": sense})
                    e, s = gm.objective(ip, mic.mip_model(ip, mip))
                    want = Rat.of(1.5) if ck_ == "float" else sym("k")
                    for g in gs:
                        for i in g:
                            want = want + sym("c%d" % i) * gm.vsym(ip, V[i])
                    ck.eq(key, e, want, OBJ, w)
                    ck.ob(key + ".sense", s == sense and ip.getattr(
                        mip, "sense") == sense, OBJ, str(s), w)
                    ck.eq(key + ".mirror", mirror_obj(ip, mip), want, OBJ, w)
                ck.attempt(key, go, where=w)


def duplicates(ck):
    rule = "a duplicated variable is refused"
    w = where(ck.repo, G, "GurobiTorchMILP.setObjective")

    def refused(key, f):
        try:
            f()
        except AbsRaise:
            ck.ob(key, True, rule, "", w)
            return
        ck.ob(key, False, rule, "accepted", w)
    for i in (0, 1, 4):
        for cls in ("GurobiTorchMILP", "GurobiTorchMIQP"):
            def go():
                ip = ck.interp()
                mip = new_mip(ip, cls)
                V = mixed(ip, mip)
                L = ip.new_list
                lin = [L([T(ip, [sym("a")]), T(ip, [sym("b")])]),
                       L([L([V[i]]), L([V[i]])])]
                refused("duplicate.%s.%d" % (cls, i), lambda: ip.call(
                    ip.getattr(mip, "setObjective"),
                    ([L([]), L([])] if "QP" in cls else []) + lin,
                    {"constant": Rat.of(0.), "sense": 1}))
            ck.attempt("duplicate", go, where=w)
    for i, j in ((0, 2), (1, 4), (0, 1), (4, 2)):
        def go():
            ip = ck.interp()
            mip = new_mip(ip, "GurobiTorchMIQP")
            V = mixed(ip, mip)
            L = ip.new_list
            q = [T(ip, [Rat.of(2)], (1, 1)) for _ in range(2)]
            refused("duplicate.quad.%d%d" % (i, j), lambda: ip.call(
                ip.getattr(mip, "setObjective"),
                [L(q), L([(L([V[i]]), L([V[j]]))] * 2), L([]), L([])],
                {"constant": Rat.of(0.), "sense": 1}))
        ck.attempt("duplicate", go, where=w)


def mirror_obj(ip, mip, quad=False):
    r, z = vars_of(ip, mip)
    R, Z = [sym(n) for n in r], [sym(n) for n in z]
    f = lambda n: ip.cells(ip.getattr(mip, n))
    e = Rat.of(f("c_constant")[0])
    for c, v in list(zip(f("c_r"), R)) + list(zip(f("c_zeta"), Z)):
        e = e + Rat.of(c) * v
    if quad:
        for n, A, B in (("Q_r", R, R), ("Q_zeta", Z, Z), ("Q_rzeta", R, Z)):
            c = f(n)
            for i, a in enumerate(A):
                for j, b in enumerate(B):
                    e = e + Rat.of(c[i * len(B) + j]) * a * b
    return e


def quad_objective(ck):
    w = where(ck.repo, G, "GurobiTorchMIQP.setObjective")
    for q in ([([0], [0])], [([0, 2], [0, 2])], [([1], [1])],
              [([1, 4], [1, 4])], [([0], [1])], [([1], [0])],
              [([1, 4], [0, 2, 3])], [([0, 2], [4, 1])],
              [([0, 1], [2, 4])], [([0, 1, 2, 3, 4, 5],
                                    [0, 1, 2, 3, 4, 5])][:0],
              [([0], [2]), ([2], [3]), ([1], [4]), ([3], [4])], []):
        for sense in (1, -1):
            ip = ck.interp()
            key = "miqp_objective.%s.%d" % (
                "_".join("%s-%s" % ("".join(map(str, a)),
                                    "".join(map(str, b))) for a, b in q),
                sense)

            def go():
                mip = new_mip(ip, "GurobiTorchMIQP")
                V = mixed(ip, mip)
                L = lambda g: ip.new_list([V[i] for i in g])
                poly.clear_bounds()
                want = sym("k")
                qc = []
                for k, (a, b) in enumerate(q):
                    cs = []
                    for i in a:
                        for j in b:
                            n = "q%d_%d_%d" % (k, i, j)
                            poly.set_bounds(n, 0, None, True)
                            v = sym(n) if (i + j + sense) % 4 else \
                                Rat.of(1 if i > 1 else -1)
                            cs.append(v)
                            want = want + v * gm.vsym(ip, V[i]) * \
                                gm.vsym(ip, V[j])
                    qc.append(T(ip, cs, (len(a), len(b))))
                for i in (0, 4, 3):
                    want = want + sym("c%d" % i) * gm.vsym(ip, V[i])
                ip.call(ip.getattr(mip, "setObjective"), [
                    ip.new_list(qc), ip.new_list([(L(a), L(b))
                                                  for a, b in q]),
                    ip.new_list([T(ip, [sym("c0")]),
                                 T(ip, [sym("c4"), sym("c3")])]),
                    ip.new_list([L([0]), L([4, 3])])],
                    {"constant": T(ip, [sym("k")], ()), "sense": sense})
                e, s = gm.objective(ip, mic.mip_model(ip, mip))
                ck.eq(key, e, want, OBJ, w)
                ck.ob(key + ".sense", s == sense and ip.getattr(
                    mip, "sense") == sense, OBJ, str(s), w)
                ck.eq(key + ".mirror", mirror_obj(ip, mip, True), want, OBJ,
                      w)
            ck.attempt(key, go, where=w)


def closed_form(ck):
    """compute_objective_from_mip_data"""
    w = where(ck.repo, G, "GurobiTorchMILP.compute_objective_from_mip_data")
    small = {"ext:numpy.linalg.cond": lambda ip, args, kw: Rat.const(1)}
    rule = "objective of the vertex A_act r = b_act at the binary solution"
    for n, neq in ((1, 0), (1, 1), (2, 0), (2, 1)):
        ip = ck.interp()
        ip.hooks.update(small)
        key = "vertex_objective.%d.%d" % (n, neq)

        def go():
            mip = new_mip(ip, "GurobiTorchMILP")
            x = addv(ip, mip, n, lb=-INF)
            b = addv(ip, mip, 1, vtype="B")
            V = x + b
            M, h, k = [], [], [0, 0]
            for i in range(n):
                s = "=" if i < neq else "<"
                row = [sym("m%d%d" % (i, j)) for j in range(n)]
                ip.call(ip.getattr(mip, "addLConstr"), [
                    ip.new_list([T(ip, row + [sym("w%d" % i)])]),
                    ip.new_list([ip.new_list(V)])],
                    {"sense": s, "rhs": T(ip, [sym("h%d" % i)], ())})
                M.append(row)
                h.append(sym("h%d" % i) - sym("w%d" % i) * sym("zs"))
            # an inactive row
            ip.call(ip.getattr(mip, "addLConstr"), [
                ip.new_list([T(ip, [sym("n%d" % j)
                                    for j in range(n + 1)])]),
                ip.new_list([ip.new_list(V)])],
                {"sense": "<", "rhs": T(ip, [sym("hh")], ())})
            c = [sym("c%d" % i) for i in range(n)]
            ip.call(ip.getattr(mip, "setObjective"), [
                ip.new_list([T(ip, c + [sym("cz")])]),
                ip.new_list([ip.new_list(V)])],
                {"constant": T(ip, [sym("k")], ()), "sense": -1})
            v = ip.call(ip.getattr(mip, "compute_objective_from_mip_data"), [
                ip.new_set(list(range(n - neq))), T(ip, [sym("zs")])],
                {"penalty": Rat.of(0.)})
            if n == 1:
                r = [h[0] / M[0][0]]
            else:
                d = M[0][0] * M[1][1] - M[0][1] * M[1][0]
                r = [(h[0] * M[1][1] - h[1] * M[0][1]) / d,
                     (M[0][0] * h[1] - M[1][0] * h[0]) / d]
            want = sym("k") + sym("cz") * sym("zs")
            for a, q in zip(c, r):
                want = want + a * q
            ck.eq(key, ip.cells(v)[0], want, rule, w)
        ck.attempt(key, go, where=w)
    w = where(ck.repo, G, "GurobiTorchMIQP.compute_objective_from_mip_data")
    rule = "minimum of the quadratic cost on A_act r = b_act at the binary " \
           "solution (zero regularisation)"
    for cn, (n, na, sy, cross) in {
            "unconstrained1": (1, 0, True, False),
            "unconstrained1_cross": (1, 0, True, True),
            "unconstrained2": (2, 0, True, False),
            "one_active": (2, 1, True, False),
            "one_active_cross": (2, 1, True, True),
            "vertex_cross": (2, 2, True, True),
            "nonsymmetric": (2, 1, False, False),
            "nonsymmetric_cross": (2, 1, False, True),
            "vertex_nonsymmetric": (2, 2, False, False)}.items():
        ip = ck.interp()
        ip.hooks.update(small)
        key = "kkt_objective." + cn

        def go():
            mip = new_mip(ip, "GurobiTorchMIQP")
            x = addv(ip, mip, n, lb=-INF)
            b = addv(ip, mip, 1, vtype="B")
            V = x + b
            # concrete, distinctive data with symbolic right-hand sides
            Mv = [[2, 1], [1, 3]]
            M, h = [], []
            for i in range(na):
                row = [Rat.const(Mv[i][j]) for j in range(n)]
                ip.call(ip.getattr(mip, "addLConstr"), [
                    ip.new_list([T(ip, row + [sym("w%d" % i)])]),
                    ip.new_list([ip.new_list(V)])],
                    {"sense": "<", "rhs": T(ip, [sym("h%d" % i)], ())})
                M.append(row)
                h.append(sym("h%d" % i) - sym("w%d" % i) * sym("zs"))
            Q = ([[3, 1], [1, 2]] if sy else [[3, 2], [0, 2]])
            Q = [[Rat.const(Q[i][j]) for j in range(n)] for i in range(n)]
            c = [sym("c%d" % i) for i in range(n)]
            L = ip.new_list
            quad = [T(ip, [v for r in Q for v in r], (n, n)),
                    T(ip, [sym("qz")], (1, 1))]
            qv = [(L(x), L(x)), (L(b), L(b))]
            poly.set_bounds("qz", 0, None, True)
            xr = [Rat.const(0)] * n
            if cross:
                xr = [Rat.const(i + 4) for i in range(n)]
                quad.append(T(ip, xr, (n, 1)))
                qv.append((L(x), L(b)))
            ip.call(ip.getattr(mip, "setObjective"), [
                L(quad), L(qv), L([T(ip, c + [sym("cz")])]), L([L(V)])],
                {"constant": T(ip, [sym("k")], ()), "sense": 1})
            v = ip.call(ip.getattr(mip, "compute_objective_from_mip_data"), [
                ip.new_set(list(range(na))), T(ip, [sym("zs")])],
                {"penalty": Rat.of(0.)})
            lin = [a + q * sym("zs") for a, q in zip(c, xr)]
            # KKT system solved exactly
            K = [[Rat.const(0)] * (n + na) for _ in range(n + na)]
            for i in range(n):
                for j in range(n):
                    K[i][j] = Q[i][j] + Q[j][i]
                for k in range(na):
                    K[i][n + k] = M[k][i]
                    K[n + k][i] = M[k][i]
            rhs = [-q for q in lin] + h
            r = solve(K, rhs)[:n]
            want = sym("k") + sym("cz") * sym("zs") + \
                sym("qz") * sym("zs") * sym("zs")
            for i in range(n):
                want = want + lin[i] * r[i]
                for j in range(n):
                    want = want + r[i] * Q[i][j] * r[j]
            ck.eq(key, ip.cells(v)[0], want, rule, w)
        ck.attempt(key, go, where=w)


def regularised(ck):
    """the documented regularised systems, at symbolic penalty"""
    poly.clear_bounds()
    poly.set_bounds("eps", 0, None, True)
    ep = sym("eps")
    for cls, na in (("GurobiTorchMILP", 1), ("GurobiTorchMIQP", 0),
                    ("GurobiTorchMIQP", 1)):
        w = where(ck.repo, G, cls + ".compute_objective_from_mip_data")
        key = "regularised.%s.%d" % (cls, na)

        def go():
            ip = ck.interp()
            ip.hooks["ext:numpy.linalg.cond"] = \
                lambda ip, args, kw: Rat.const(1)
            mip = new_mip(ip, cls)
            L = ip.new_list
            x = L(addv(ip, mip, 1, lb=-INF))
            a, h, c, q = Rat.of(3), sym("h"), sym("c"), Rat.of(5)
            if na:
                ip.call(ip.getattr(mip, "addLConstr"), [
                    L([T(ip, [a])]), L([x])],
                    {"sense": "<", "rhs": T(ip, [h], ())})
            lin = [L([T(ip, [c])]), L([x])]
            quad = [L([T(ip, [q], (1, 1))]), L([(x, x)])]
            ip.call(ip.getattr(mip, "setObjective"),
                    (quad if "QP" in cls else []) + lin,
                    {"constant": Rat.of(0.), "sense": 1})
            v = ip.call(ip.getattr(mip, "compute_objective_from_mip_data"), [
                ip.new_set(range(na)), T(ip, [], (0, ))], {"penalty": ep})
            if "LP" in cls:
                want = c * a * h / (a * a + ep)
            else:
                if na:
                    det = (q * 2 + ep) * ep - a * a
                    r = (-c * ep - a * h) / det
                else:
                    r = -c / (q * 2 + ep)
                want = q * r * r + c * r
            ck.eq(key, ip.cells(v)[0], want, "solution of the documented "
                  "regularised system", w)
        ck.attempt(key, go, where=w)


def solve(K, rhs):
    n = len(K)
    A = [list(r) + [b] for r, b in zip(K, rhs)]
    for i in range(n):
        p = next(j for j in range(i, n) if not A[j][i] == Rat.const(0))
        A[i], A[p] = A[p], A[i]
        d = A[i][i]
        A[i] = [v / d for v in A[i]]
        for j in range(n):
            if j != i:
                f = A[j][i]
                A[j] = [a - f * b for a, b in zip(A[j], A[i])]
    return [r[-1] for r in A]


def active_set(ck):
    """which inequality rows are reported active, under which preconditions"""
    f = "get_active_constraint_indices_and_binary_val"
    w = where(ck.repo, G, "GurobiTorchMIP." + f)
    rule = "active = rows whose residual is below the tolerance at the " \
           "requested solution; binaries rounded"
    # residual per row: 0, half, exactly, twice the tolerance, both signs
    tol = Rat.of(1) / 1000
    for num in (0, 1):
        ip = ck.interp()
        key = "active_set.%d" % num

        def go():
            mip = new_mip(ip)
            x = addv(ip, mip, 2, lb=-INF)
            b = addv(ip, mip, 2, vtype="B")
            m = mic.mip_model(ip, mip)
            sol = {str(gm.vsym(ip, v)): s for v, s in zip(
                x + b, [[Rat.of(3), Rat.of(-2), Rat.of(0.9999999),
                         Rat.of(1e-7)],
                        [Rat.of(7), Rat.of(5), Rat.of(1e-8),
                         Rat.of(1.0000001)]][num])}
            ip.grb_var_result = lambda ip, o, kind: sol[str(gm.vsym(ip, o))] \
                if kind == "xn" and ip.items(ip.attrs(m)["_params"]).get(
                    "SolutionNumber", 0) == num else None
            ip.grb_solcount = lambda ip, o: 2
            ip.call(ip.getattr(m, "optimize"), [], {})
            zs = [1, 0] if num == 0 else [0, 1]
            xs = [Rat.of(3), Rat.of(-2)] if num == 0 else [Rat.of(7),
                                                           Rat.of(5)]
            res = [Rat.const(0), tol / 2, tol * 2, -tol / 2, -tol * 3]
            for k, d in enumerate(res):
                a = [Rat.of((7 * k + 3 * j * j + 5) % 11 - 4)
                     for j in range(4)]
                val = a[0] * xs[0] + a[1] * xs[1] + a[2] * zs[0] + \
                    a[3] * zs[1]
                ip.call(ip.getattr(mip, "addLConstr"), [
                    ip.new_list([T(ip, a)]),
                    ip.new_list([ip.new_list(x + b)])],
                    {"sense": "<", "rhs": T(ip, [val + d], ())})
            S, z = ip.iterate(ip.call(ip.getattr(mip, f), [], {
                "solution_number": num, "active_constraint_tolerance": tol}))
            got = sorted(int(str(Rat.of(q))) for q in ip.iterate(S))
            ck.ob(key, got == [0, 1, 3], rule, str(got), w)
            ck.eq_arr(ip, key + ".zeta", z, [Rat.const(q) for q in zs], rule,
                      w)
        ck.attempt(key, go, where=w)


def matched(ck):
    """compute_objective_from_mip_data_and_solution"""
    f = "compute_objective_from_mip_data_and_solution"
    w = where(ck.repo, G, "GurobiTorchMIP." + f)
    tol = Rat.of(1) / 1000
    rule = "the returned objective is that of the active set at the " \
           "requested solution and agrees with the solver's"
    for num, doublings in itertools.product((0, 1), (0, 1, 3, 20)):
        ip = ck.interp()
        ip.hooks["ext:numpy.linalg.cond"] = lambda ip, args, kw: Rat.const(
            10**20 if Rat.of(ip.cells(args[0])[0]) == Rat.const(0) else 1)
        key = "matched.%d.%d" % (num, doublings)

        def go():
            mip = new_mip(ip, "GurobiTorchMILP")
            x = addv(ip, mip, 1, lb=-INF)
            b = addv(ip, mip, 1, vtype="B")
            m = mic.mip_model(ip, mip)
            ip.grb_solcount = lambda ip, o: 2
            sol = [Rat.of(5), Rat.of(0.99999)]

            def cur():
                return ip.items(ip.attrs(m)["_params"]).get(
                    "SolutionNumber", 0)
            ip.grb_var_result = lambda ip, o, kind: sol[
                0 if o is x[0] or ip.attrs(o)["_k"] == 0 else 1] \
                if kind == "xn" and cur() == num else None
            # row: 2 x + 3 b <= 13 + gap; active only at tolerance > gap
            gap = tol * (2 ** doublings) * Rat.of(0.75) if doublings < 20 \
                else Rat.of(50)
            ip.call(ip.getattr(mip, "addLConstr"), [
                ip.new_list([T(ip, [2, 3])]),
                ip.new_list([ip.new_list(x + b)])],
                {"sense": "<", "rhs": T(ip, [Rat.of(13) + gap], ())})
            ip.call(ip.getattr(mip, "addLConstr"), [
                ip.new_list([T(ip, [-1, 0])]),
                ip.new_list([ip.new_list(x + b)])],
                {"sense": "<", "rhs": T(ip, [100], ())})
            ip.call(ip.getattr(mip, "setObjective"), [
                ip.new_list([T(ip, [2, 7])]),
                ip.new_list([ip.new_list(x + b)])],
                {"constant": Rat.of(1.), "sense": -1})
            ip.call(ip.getattr(m, "optimize"), [], {})
            want = Rat.of(10) + gap + 7 + 1
            ip.grb_result = lambda ip, o, kind: want if kind == \
                "PoolObjVal" and cur() == num else None
            try:
                v = ip.call(ip.getattr(mip, f), [], {
                    "solution_number": num,
                    "active_constraint_tolerance": tol,
                    "penalty": Rat.of(0)})
            except AbsRaise as e:
                ck.ob(key, doublings == 20 and "IncorrectActive" in str(e),
                      rule, "raises %s" % e, w)
                return
            if doublings == 20:
                ck.ob(key, False, rule, "a mismatch is not reported", w)
                return
            ck.eq(key, ip.cells(v)[0], want, rule, w)
        ck.attempt(key, go, where=w)


def relaxation(ck):
    w = where(ck.repo, G, "GurobiTorchMIP.remove_binary_relaxation")
    for vt in ("B", "BR"):
        ip = ck.interp()

        def go():
            mip = new_mip(ip)
            addv(ip, mip, 2, lb=-INF)
            b = addv(ip, mip, 2, vtype=vt)
            c = addv(ip, mip, 1, vtype="C", lb=0, ub=1)
            ip.call(ip.getattr(mip, "remove_binary_relaxation"), [], {})
            vs = {v[0]: v for v in gm.variables(ip, mic.mip_model(ip, mip))}
            r, z = vars_of(ip, mip)
            ck.ob("relaxation.%s.binary" % vt, all(vs[n][3] == "B"
                                                   for n in z) and len(z) ==
                  2, "every member of zeta becomes binary", str(vs), w)
            ck.ob("relaxation.%s.continuous" % vt, all(
                vs[n][3] == "C" for n in r) and len(r) == 3,
                "continuous variables stay continuous", str(vs), w)
            ck.ob("relaxation.%s.bounds" % vt, all(
                vs[n][1] == Rat.const(0) and vs[n][2] == Rat.const(1)
                for n in z), "zeta in [0, 1]", str(vs), w)
        ck.attempt("relaxation." + vt, go, where=w)


def lp_cost(ck):
    """linear_program_cost: the optimum as a function of the data"""
    from . import blocks as bl
    w = where(ck.repo, "utils", "linear_program_cost")
    p, r = sym("p"), sym("r")
    # rows of A_in with their slack at the vertex (p, r), rows of A_eq
    c_ = Rat.const
    cases = {
        "in01": ([(1, 0, 0), (0, 1, 0), (1, 1, 1)], []),
        "in02": ([(2, 1, 0), (1, -1, 1), (1, 3, 0)], []),
        "in12": ([(1, 1, 2), (1, 0, 0), (-1, 2, 0), (-1, -1, 1)], []),
        "eq.in": ([(1, 0, 1), (3, 1, 0)], [(1, 2)]),
        "eq2": ([(1, 1, 1)], [(0, 1), (2, 1)]),
        "three": ([(0, -1, 3), (1, 0, 0)], [(1, 1)]),
    }
    for n, (ins, eqs) in sorted(cases.items()):
        ip = ck.interp()
        key = "lp_cost." + n

        def go(n=n, ins=ins, eqs=eqs, key=key, ip=ip):
            poly.clear_bounds()
            for i in range(len(ins)):
                poly.set_bounds("gap%d" % i, 1, None)
            cc, d = [sym("c0"), sym("c1")], sym("d")
            b = [c_(a) * p + c_(e) * r + (sym("gap%d" % i) * s if s else 0)
                 for i, (a, e, s) in enumerate(ins)]
            be = [c_(a) * p + c_(e) * r for a, e in eqs]
            # the right-hand sides are data of their own for the result
            seen = []

            def status(ip, o):
                seen.append(gm.snapshot(ip, o))
                return gm.STATUS["OPTIMAL"]
            ip.grb_status = status
            xs = []

            def val(ip, o, kind):
                k = str(gm.vsym(ip, o))
                if k not in xs:
                    xs.append(k)
                names = [v[0] for v in seen[-1]["vars"]]
                return (p, r)[names.index(k)]
            ip.grb_var_result = val
            v = ip.call(ip.get("utils", "linear_program_cost"), [
                T(ip, cc), T(ip, [d], ()),
                T(ip, [c_(t) for a, e, _ in ins for t in (a, e)],
                  (len(ins), 2)), T(ip, b),
                T(ip, [c_(t) for q in eqs for t in q], (len(eqs), 2)),
                T(ip, be)], {})
            ck.ob(key + ".solved", len(seen) == 1, "one program is solved",
                  str(len(seen)), w)
            ck.eq(key, bl.scalar(ip, v), cc[0] * p + cc[1] * r + d,
                  "the cost at the vertex of the active constraints", w)
            if seen:
                m = seen[0]
                names = [q[0] for q in m["vars"]]
                X = [sym(k) for k in names]
                ck.ob(key + ".free", len(X) == 2 and all(
                    q[1] == -INF and q[2] == INF and q[3] == "C"
                    for q in m["vars"]), "free variables", str(m["vars"]), w)
                want = [(c_(a) * X[0] + c_(e) * X[1] - b[i], "<")
                        for i, (a, e, _) in enumerate(ins)] + [
                    (c_(a) * X[0] + c_(e) * X[1] - be[i], "=")
                    for i, (a, e) in enumerate(eqs)]
                bl.same_rows(ck, key + ".rows", [
                    (e, s) for e, s, _, _ in m["rows"]], want,
                    "the program is the one given", w)
                ck.ob(key + ".objective", m["sense"] == -1 and Rat.of(
                    m["obj"]) == cc[0] * X[0] + cc[1] * X[1] + d,
                    "c x + d is maximised", str((m["obj"], m["sense"])), w)
        ck.attempt(key, go, where=w)


def check(ck):
    for n, g in (("lp_cost", lp_cost), ("bounds", bounds), ("rows", rows_),
                 ("active", inactive_mix), ("milp_objective", lin_objective),
                 ("miqp_objective", quad_objective),
                 ("duplicate", duplicates), ("regularised", regularised),
                 ("closed_form", closed_form), ("active_set", active_set),
                 ("matched", matched), ("relaxation", relaxation)):
        poly.clear_bounds()
        ck.attempt(n, lambda: g(ck))
    poly.clear_bounds()
