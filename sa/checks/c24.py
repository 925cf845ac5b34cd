"""Piecewise affine systems: modes, bounds, constraints, simulation, costs."""
import itertools

from .. import poly, polytope as pt, gurobi_model as gm, cvxpy_model as cvx, mic
from ..poly import Rat
from ..values import Arr, ExtV, PyFn, AbsRaise, Undecided
from .common import sym, where, F64
from . import blocks as bl
from .c11 import T, INF, new_mip
from .c15 import newvars, vec, _vt, lists

TITLE = "Hybrid linear systems: modes, bounds, constraints and rollouts agree"
EXPLANATION = (
    "The functions of the hybrid linear system module are evaluated on "
    "symbolic mode matrices and polytopes. The programs behind the bounds "
    "are read off the recorded solver models; the mixed-integer constraints "
    "are fixed at every 0/1 assignment of the mode variables and compared, "
    "as polyhedra, with 'exactly one mode is active, the state and control "
    "lie in its polytope and the next state is its affine map'; mode "
    "look-up, simulation, cost-to-go and grid partition are compared with "
    "their definitions as normal forms.")
ASSUMPTIONS = ("real arithmetic; gurobipy, cvxpy, scipy.integrate.solve_ivp "
               "follow their documentation", )
MIN_OBS = 300
M = "hybrid_linear_system"
HY, AU = "HybridLinearSystem", "AutonomousHybridLinearSystem"
Z, ONE = Rat.const(0), Rat.const(1)
MAX, MIN = -1, 1


def interp(ck):
    poly.clear_bounds()
    ip = ck.interp()
    return ip


def same(a, b):
    return Rat.of(a) == Rat.of(b)


# ---------------------------------------------------------- polytope bounds
class Polys:
    """recognises programs over known polytopes and names their optima"""
    def __init__(self, ip, P, q, tags):
        self.ip, self.P, self.q, self.tags = ip, P, q, tags
        self.seen = []
        ip.grb_result = self.grb
        ip.cvx_value = self.cv

    def name(self, rows, names, obj, sense):
        """rows: [(expr, op)] meaning expr op 0 with op '<' or '='"""
        n = len(names)
        have = sorted(str(r[0]) + r[1] for r in rows)
        for P, q, t in zip(self.P, self.q, self.tags):
            if len(P) // len(q) != n:
                continue
            want = sorted(str(sum((P[i * n + j] * sym(names[j])
                                   for j in range(n)), Z) - q[i]) + "<"
                          for i in range(len(q)))
            if have == want:
                return t
        return None

    def grb(self, ip, o, kind):
        if kind != "obj":
            return None
        e, s = gm.objective(ip, o)
        vs = gm.variables(ip, o)
        names = [v[0] for v in vs]
        rows = []
        for r, op, nm, w in gm.rows(ip, o):
            rows.append((-r if op == ">" else r, "<" if op == ">" else op))
        free = all(poly._is_inf(-v[1]) and poly._is_inf(v[2]) and v[3] == "C"
                   for v in vs)
        return self.opt(rows, names, e, s, free)

    def cv(self, ip, p):
        rows = [(-e, "<") if op == ">=" else (e, "=") for e, op in p.rows]
        names = []
        for e in [p.obj] + [r[0] for r in rows]:
            for a in e.atoms():
                if a.kind == "sym" and a.name in ip.cvx and \
                        a.name not in names:
                    names.append(a.name)
        names.sort(key=lambda n: int(n.split(".")[1]))
        free = not any(n in getattr(ip, "cvx_attr", {}) for n in names)
        return self.opt(rows, names, p.obj, p.sense, free)

    def opt(self, rows, names, e, s, free):
        t = self.name(rows, names, e, s) if free else None
        e = poly.subst(e, lambda a: sym("var%d" % names.index(a.name))
                       if a.kind == "sym" and a.name in names else None)
        r = optimum(t if t is not None else "unknown", s, e)
        self.seen.append(t)
        return r


def optimum(t, s, e):
    return poly.fn("opt", t, "max" if s == MAX else "min", Rat.of(e))


def polytope_bounds(ck):
    fn = "compute_bounds_from_polytope"
    w = where(ck.repo, "utils", fn)
    st = gm.STATUS
    for lib, i in itertools.product(("torch", "np"), (0, 1, 2)):
        key = "bounds.%s.x%d" % (lib, i)

        def go(key=key, lib=lib, i=i):
            ip = interp(ck)
            P, q = vec("P", 6), vec("q", 2)
            Polys(ip, [P], [q], ["m0"])
            r = ip.iterate(ip.call(ip.get("utils", fn), [
                ip.new_arr((2, 3), P, lib, "float"),
                ip.new_arr((2, ), q, lib, "float"), i], {}))
            for v, s, n in zip(r, (MIN, MAX), ("lower", "upper")):
                ck.eq("%s.%s" % (key, n), bl.scalar(ip, v), optimum(
                    "m0", s, sym("var%d" % i)), "the %s bound of x_i is the "
                    "optimum of x_i over {P x <= q}, x free" % n, w)
        ck.attempt(key, go, where=w)
    for a, b in itertools.product(st, st):
        key = "bounds.status.%s.%s" % (a, b)
        known = ("OPTIMAL", "UNBOUNDED", "INFEASIBLE")
        if not ck.deep and a not in known and b not in known:
            continue

        def go(key=key, a=a, b=b):
            ip = interp(ck)
            Polys(ip, [[ONE, ONE]], [[sym("q0")]], ["m0"])

            def status(ip, o):
                return st[a if gm.objective(ip, o)[1] == MAX else b]
            ip.grb_status = status
            try:
                r = ip.iterate(ip.call(ip.get("utils", fn), [
                    T(ip, [ONE, ONE], (1, 2)), T(ip, [sym("q0")]), 0], {}))
                r = [bl.scalar(ip, v) for v in r]
            except AbsRaise:
                r = None
            if a not in known or b not in known:
                ck.ob(key, r is None, "no bound is reported for a program "
                      "that was not solved", str(r), w)
                return
            want = {"OPTIMAL": lambda s: optimum("m0", s, sym("var0")),
                    "UNBOUNDED": lambda s: -INF if s == MIN else INF}
            for v, s, x, n in ((r[0], MIN, b, "lo"), (r[1], MAX, a, "up")):
                if x == "INFEASIBLE":
                    continue
                ck.eq("%s.%s" % (key, n), v, want[x](s), "bound for the "
                      "solver status", w)
        ck.attempt(key, go, where=w)
    w = where(ck.repo, "utils", "is_polyhedron_bounded")
    n = 2
    for bad in [None] + list(itertools.product(range(n), (1, -1))):
        key = "bounded.%s" % (bad, )

        def go(key=key, bad=bad):
            ip = interp(ck)
            P = vec("P", 3 * n)
            seen = []

            def status(ip, p):
                rows = list(p.rows)
                names = sorted(ip.cvx)[-n:]
                want = [str(-sum((P[i * n + j] * sym(names[j])
                                  for j in range(n)), Z)) for i in range(3)]
                le = sorted(str(e) for e, op in rows if op == ">=")
                fx = [e for e, op in rows if op == "=="]
                hit = None
                if le == sorted(want) and len(fx) == 1:
                    for j in range(n):
                        for v in (1, -1):
                            d = sym(names[j]) - Rat.of(v)
                            if fx[0] == d or fx[0] == -d:
                                hit = (j, v)
                seen.append(hit)
                return "optimal" if hit == bad or hit is None else \
                    "infeasible"
            ip.cvx_status = status
            r = ip.call(ip.get("utils", "is_polyhedron_bounded"),
                        [T(ip, P, (3, n))], {})
            r = ip.truth(r)
            ck.ob(key, r is (bad is None) and None not in seen, "a polyhedron "
                  "is bounded iff {P x <= 0, x_i = +-1} is empty for every "
                  "coordinate and sign", "%s %s" % (r, seen), w)
        ck.attempt(key, go, where=w)


# ------------------------------------------------------------------- modes
NX, NU = 2, 1
NR = (2, 3)          # rows of the polytopes


class Setup:
    def __init__(self, ck, auto, modes=2, named=True):
        self.ck, self.auto = ck, auto
        ip = self.ip = interp(ck)
        nu = self.nu = 0 if auto else NU
        n = self.n = NX + nu
        self.A = [vec("A%d." % i, NX * NX) for i in range(modes)]
        self.B = [vec("B%d." % i, NX * nu) for i in range(modes)]
        self.c = [vec("c%d." % i, NX) for i in range(modes)]
        self.P = [vec("P%d." % i, NR[i] * n) for i in range(modes)]
        self.q = [vec("q%d." % i, NR[i]) for i in range(modes)]
        self.px = Polys(ip, self.P, self.q, ["m%d" % i
                                             for i in range(modes)])
        self.sys = ip.call(ip.get(M, AU if auto else HY), [NX] + (
            [] if auto else [NU]) + [F64], {})
        for i in range(modes):
            self.add(i)

    def args(self, i):
        ip = self.ip
        a = [T(ip, self.A[i], (NX, NX))]
        if not self.auto:
            a.append(T(ip, self.B[i], (NX, NU)))
        return a + [T(ip, self.c[i]), T(ip, self.P[i], (NR[i], self.n)),
                    T(ip, self.q[i])]

    def add(self, i, **kw):
        self.m("add_mode", *self.args(i), **kw)

    def m(self, name, *a, **k):
        return self.ip.call(self.ip.getattr(self.sys, name), list(a), k)

    def bound(self, i, j, s):
        return optimum("m%d" % i, s, sym("var%d" % j))

    def row(self, i, r, z):
        """row r of mode i at z, <= 0"""
        return sum((self.P[i][r * self.n + j] * z[j] for j in range(self.n)),
                   Z) - self.q[i][r]

    def f(self, i, x, u=()):
        nu = len(u)
        return [sum((self.A[i][k * NX + j] * x[j] for j in range(NX)), Z) +
                sum((self.B[i][k * nu + j] * u[j] for j in range(nu)), Z) +
                self.c[i][k] for k in range(NX)]


def arr_is(ck, ip, key, got, want, rule, w):
    c = ip.cells(got) if isinstance(got, Arr) else None
    if c is None or len(c) != len(want):
        ck.ob(key, False, rule, "got %r" % (got, ), w)
        return
    for i, (a, b) in enumerate(zip(c, want)):
        ck.eq("%s[%d]" % (key, i), a, b, rule, w)


def add_mode(ck):
    for auto in (False, True):
        cls = AU if auto else HY
        w = where(ck.repo, M, cls + ".add_mode")
        for modes in (1, 2):
            key = "%s.add%d" % ("auto" if auto else "ctrl", modes)

            def go(key=key, modes=modes, auto=auto, w=w):
                S = Setup(ck, auto, modes)
                ip = S.ip
                ck.ob(key + ".n", ip.getattr(S.sys, "num_modes") == modes,
                      "mode count", "", w)
                ck.ob(key + ".programs", None not in S.px.seen and
                      len(S.px.seen) > 0, "every program is over the "
                      "polytope of one mode with free variables",
                      str(S.px.seen), w)
                fields = [("x_lo", 0, NX, MIN), ("x_up", 0, NX, MAX)]
                if not auto:
                    fields += [("u_lo", NX, NU, MIN), ("u_up", NX, NU, MAX)]
                for f, off, k, s in fields:
                    per = ip.items(ip.getattr(S.sys, f))
                    ck.ob("%s.%s.n" % (key, f), len(per) == modes, "one "
                          "entry per mode", "", w)
                    want = [[S.bound(i, off + j, s) for j in range(k)]
                            for i in range(modes)]
                    for i in range(modes):
                        arr_is(ck, ip, "%s.%s%d" % (key, f, i), per[i],
                               want[i], "range of the coordinate over the "
                               "mode", w)
                    ext = poly.min2 if s == MIN else poly.max2
                    al = want[0] if modes == 1 else [
                        ext(a, b) for a, b in zip(*want)]
                    arr_is(ck, ip, "%s.%s_all" % (key, f), ip.getattr(
                        S.sys, f + "_all"), al, "range over all modes", w)
                for nm, n2, v in (("A", "A", S.A), ("B", "B", S.B),
                                  ("c", "g", S.c), ("P", "P", S.P),
                                  ("q", "q", S.q)):
                    if auto and nm == "B":
                        continue
                    per = ip.items(ip.getattr(S.sys, n2 if auto else nm))
                    ck.ob("%s.%s" % (key, nm), len(per) == modes and all(
                        all(same(a, b) for a, b in zip(ip.cells(p), q))
                        for p, q in zip(per, v)), "mode data is kept in "
                        "order", "", w)
                if auto:
                    los, ups = [], []
                    for i in range(modes):
                        r = ip.iterate(S.m("mode_derivative_bounds", i))
                        want = [[optimum("m%d" % i, s, sum(
                            (S.A[i][k * NX + j] * sym("var%d" % j)
                             for j in range(NX)), Z)) for k in range(NX)]
                            for s in (MIN, MAX)]
                        for e, g, v in zip(("lo", "up"), r, want):
                            arr_is(ck, ip, "%s.Ax%d.%s" % (key, i, e), g, v,
                                   "range of A_i x over mode i", w)
                        los.append([a + b for a, b in zip(want[0], S.c[i])])
                        ups.append([a + b for a, b in zip(want[1], S.c[i])])
                    arr_is(ck, ip, key + ".dx_lower", ip.getattr(
                        S.sys, "dx_lower"), los[0] if modes == 1 else [
                            poly.min2(a, b) for a, b in zip(*los)],
                        "range of A_i x + g_i over all modes", w)
                    arr_is(ck, ip, key + ".dx_upper", ip.getattr(
                        S.sys, "dx_upper"), ups[0] if modes == 1 else [
                            poly.max2(a, b) for a, b in zip(*ups)],
                        "range of A_i x + g_i over all modes", w)
                    for bad in (-1, modes):
                        def out():
                            S.m("mode_derivative_bounds", bad)
                        refused(ck, "%s.mode%d" % (key, bad), out, "a mode "
                                "that does not exist has no range", w)
            ck.attempt(key, go, where=w)
        for bad in ("A", "B", "c", "P", "q"):
            key = "%s.refuse.%s" % ("auto" if auto else "ctrl", bad)
            if auto and bad == "B":
                continue

            def go(key=key, bad=bad, auto=auto, w=w):
                S = Setup(ck, auto, 0 if False else 1)
                ip = S.ip
                a = S.args(0)
                i = ("AcPq" if auto else "ABcPq").index(bad)
                sh = {"A": (NX, NX + 1), "B": (NX, NU + 1), "c": (NX + 1, ),
                      "P": (NR[0], S.n + 1), "q": (NR[0] + 1, )}[bad]
                k = sh[0] * (sh[1] if len(sh) > 1 else 1)
                a[i] = T(ip, vec("z", k), sh)
                refused(ck, key, lambda: S.m("add_mode", *a), "mode data of "
                        "another shape is refused", w)
            ck.attempt(key, go, where=w)
        for bounded in (True, False):
            key = "%s.unbounded.%s" % ("auto" if auto else "ctrl", bounded)

            def go(key=key, auto=auto, bounded=bounded, w=w):
                S = Setup(ck, auto, 1)
                ip = S.ip
                got = []

                def isb(ip, a, k):
                    got.append(a[0])
                    return bounded
                ip.hooks["utils.is_polyhedron_bounded"] = isb
                try:
                    S.add(0, check_polyhedron_bounded=True)
                    r = True
                except AbsRaise:
                    r = False
                ck.ob(key, r is bounded and len(got) == 1 and all(
                    same(a, b) for a, b in zip(ip.cells(got[0]), S.P[0])),
                    "an unbounded polytope is refused when asked to check",
                    "", w)
            ck.attempt(key, go, where=w)


def refused(ck, key, f, rule, w):
    try:
        f()
        r = False
    except AbsRaise:
        r = True
    ck.ob(key, r, rule, "accepted" if not r else "", w)


# ------------------------------------------------------------- constraints
def named_bounds(S):
    """replace the optima by plain symbols with a known sign"""
    ip = S.ip
    nu = S.nu
    lo, up = [], []
    for j in range(S.n):
        poly.set_bounds("L%d" % j, None, 0, True, True)
        poly.set_bounds("U%d" % j, 0, None, True, True)
        lo.append(sym("L%d" % j))
        up.append(sym("U%d" % j))

    def np_(c):
        return ip.new_arr((len(c), ), list(c), "np", "float")
    for f, v in (("x_lo_all", lo[:NX]), ("x_up_all", up[:NX])) + ((
            ("u_lo_all", lo[NX:]), ("u_up_all", up[NX:])) if nu else ()):
        ip.setattr(S.sys, f, np_(v))
    return lo, up


def given(S, pat):
    """bounds handed in: pattern over (lo, up) per coordinate group:
    n none, t tighter than the system's, l looser"""
    lo, up = [], []
    for j in range(S.n):
        g = pat[0 if j < NX else 1]
        lo.append(None), up.append(None)
        for e, k, o in ((lo, g[0], -1), (up, g[1], 1)):
            if k == "n":
                continue
            b = "gL%d" % j if o < 0 else "gU%d" % j
            base = sym("L%d" % j) if o < 0 else sym("U%d" % j)
            if k == "t":
                # a fraction of the system's own bound
                poly.set_bounds(b, 0, 1, True, True)
                e[-1] = base * sym(b)
            else:
                poly.set_bounds(b, 0, None, True, True)
                e[-1] = base * (ONE + sym(b))
    return lo, up


def spec(S, gamma, lo, up, nm):
    """the documented meaning at one 0/1 assignment, None if excluded"""
    if sum(gamma) != 1:
        return None
    i = gamma.index(1)
    x = [sym(v) for v in nm["input"]]
    al = nm["input"] + nm["slack"] + nm["out"]
    rows = []
    ns = len(gamma)
    for k in range(ns):
        for j in range(S.n):
            s = sym(nm["slack"][k * NX + j] if j < NX else
                    nm["slack"][ns * NX + k * S.nu + j - NX])
            rows.append(pt.eq(s, x[j] if k == i else Z, al, "s"))
    for j in range(S.n):
        rows.append(pt.le(lo[j], x[j], al, "lo%d" % j))
        rows.append(pt.le(x[j], up[j], al, "up%d" % j))
    for r in range(NR[i]):
        rows.append(pt.le(S.row(i, r, x), Z, al, "P%d" % r))
    for y, v in zip(nm["out"], S.f(i, x[:NX], x[NX:])):
        rows.append(pt.eq(sym(y), v, al, y))
    return rows


CASES = [("nn", "nn"), ("tt", "nn"), ("nn", "tt"), ("lt", "tl"),
         ("tn", "nt"), ("nt", "tn"), ("ll", "ll")]


def constraints(ck):
    for auto in (False, True):
        cls = AU if auto else HY
        w = where(ck.repo, M, cls + ".mixed_integer_constraints")
        done = set()
        for pat in CASES:
            p = pat[:1] if auto else pat
            for lib in ("torch", "np"):
                if p in done and lib == "torch" or (
                        lib == "np" and pat not in (("tt", "nn"),
                                                    ("lt", "tl"))):
                    continue
                done.add(p)
                key = "mic.%s.%s.%s" % ("auto" if auto else "ctrl",
                                        "".join(p), lib)

                def go(key=key, auto=auto, pat=pat, lib=lib, w=w):
                    S = Setup(ck, auto, 2)
                    ip = S.ip
                    lo, up = named_bounds(S)
                    gl, gu = given(S, pat)
                    kw = {}
                    for nm, v in (("x_lo", gl[:NX]), ("x_up", gu[:NX]),
                                  ("u_lo", gl[NX:]), ("u_up", gu[NX:])):
                        if v and v[0] is not None:
                            kw[nm] = ip.new_arr((len(v), ), v, lib, "float")
                    o = S.m("mixed_integer_constraints", **kw)
                    mc = mic.Mic(ip, o)
                    ok = mc.n == {"input": S.n, "slack": 2 * S.n,
                                  "binary": 2} and mc.nout == NX
                    ck.ob(key + ".size", ok, "one mode variable per mode, "
                          "one copy of state and control per mode", str(
                              (mc.n, mc.nout)), w)
                    if not ok:
                        return
                    lo = [a if g is None or k == "l" else g
                          for a, g, k in zip(lo, gl, [
                              pat[0 if j < NX else 1][0]
                              for j in range(S.n)])]
                    up = [a if g is None or k == "l" else g
                          for a, g, k in zip(up, gu, [
                              pat[0 if j < NX else 1][1]
                              for j in range(S.n)])]
                    nm = mc.names()
                    nm["out"] = ["y%d" % i for i in range(NX)]
                    full = nm["input"] + nm["slack"] + nm["binary"] + \
                        nm["out"]
                    rows = mc.rows(nm, nm["out"], full)
                    al = nm["input"] + nm["slack"] + nm["out"]
                    for g in itertools.product((0, 1), repeat=2):
                        fx = pt.fix(rows, {b: Rat.of(v) for b, v in zip(
                            nm["binary"], g)})
                        mic.same_set(ck, "%s.g%d%d" % ((key, ) + g), fx,
                                     spec(S, g, lo, up, nm), al, "at each "
                                     "0/1 choice of modes the constraints "
                                     "are those of the one active mode", w)
                ck.attempt(key, go, where=w)
        w2 = where(ck.repo, M, cls + ".add_dynamics_constraint")
        for vt in ("B", "C", "BR"):
            key = "add.%s.%s" % ("auto" if auto else "ctrl", vt)

            def go(key=key, auto=auto, vt=vt, w=w2):
                S = Setup(ck, auto, 2)
                ip = S.ip
                lo, up = named_bounds(S)
                mip = new_mip(ip)
                x, xl = newvars(ip, mip, NX, "x")
                y, yl = newvars(ip, mip, NX, "y")
                a = [mip, xl, yl]
                u = []
                if not auto:
                    u, ul = newvars(ip, mip, NU, "u")
                    a.append(ul)
                r = S.m("add_dynamics_constraint", *(a + ["s", "g",]),
                        binary_var_type=_vt(ip, vt))
                s = lists(ip, ip.getattr(r, "slack"))
                g = lists(ip, ip.getattr(r, "binary"))
                vs, rows = mic.model_rows(ip, mic.mip_model(ip, mip))
                d = {v[0]: v for v in vs}
                xs, ys, us = ([str(e) for e in b] for b in (x, y, u))
                s, g = [str(e) for e in s], [str(e) for e in g]
                ck.ob(key + ".vars", len(s) == 2 * S.n and len(g) == 2 and
                      set(xs + ys + us + s + g) == set(d) and
                      len(set(s + g)) == len(s + g), "the variables "
                      "reported are the ones added", str((s, g)), w)
                want = {"B": "B", "C": "C", "BR": "C"}[vt]
                ck.ob(key + ".type", all(d[b][3] == want for b in g) and
                      all(d[b][3] == "C" for b in s), "mode variables have "
                      "the type asked for", str([d[b] for b in g]), w)
                if want == "C" and vt == "BR":
                    ck.ob(key + ".range", all(
                        same(d[b][1], 0) and same(d[b][2], 1) for b in g),
                        "a relaxed mode variable lies in [0, 1]", str(
                            [d[b] for b in g]), w)
                nm = {"input": xs + us, "slack": s, "out": ys}
                al = nm["input"] + s + ys
                for gv in itertools.product((0, 1), repeat=2):
                    fx = pt.fix(rows, {b: Rat.of(v) for b, v in zip(g, gv)})
                    sp = spec(S, gv, lo, up, nm)
                    # the program's own bounds of x, y do not matter
                    mic.same_set(ck, "%s.g%d%d" % ((key, ) + gv), fx, sp, al,
                                 "the program says what the system does", w)
            ck.attempt(key, go, where=w2)


# -------------------------------------------------------------- simulation
def signs(S, table):
    """make membership decidable: table[i][r] in '<', '>', '=' says how row r
    of mode i compares with zero at the state"""
    ip = S.ip


class Line:
    """a system with known rows: mode i is picked by signs of symbols"""
    def __init__(self, ck, auto, inside):
        """inside[i]: rows of mode i that hold ('1') or fail ('0') at the
        state"""
        self.ck, self.auto = ck, auto
        ip = self.ip = interp(ck)
        self.nu = nu = 0 if auto else NU
        self.n = NX + nu
        k = self.k = len(inside)
        self.A = [vec("A%d." % i, NX * NX) for i in range(k)]
        self.B = [vec("B%d." % i, NX * nu) for i in range(k)]
        self.c = [vec("c%d." % i, NX) for i in range(k)]
        sys = self.sys = ip.call(ip.get(M, AU if auto else HY), [NX] + (
            [] if auto else [NU]) + [F64], {})
        for v in ("x0", "x1", "u0"):
            poly.set_bounds(v, 0, None, True)
        P, q = [], []
        for i, pat in enumerate(inside):
            Pi, qi = [], []
            for r, b in enumerate(pat):
                # a row p . (x, u) <= q decided by the sign of its parts;
                # '=' is on the boundary
                js = [j for j in range(self.n)]
                j = js[r % len(js)]
                nm = "p%d.%d" % (i, r)
                poly.set_bounds(nm, 0, None, True)
                co = sym(nm)
                if b == "=":
                    Pi += [Z] * self.n
                    qi.append(Z)
                    continue
                Pi += [(-co if b == "1" else co) if m == j else Z
                       for m in js]
                qi.append(Z)
            P.append(T(ip, Pi, (len(pat), self.n)))
            q.append(T(ip, qi))
        ip.setattr(sys, "A", ip.new_list([T(ip, a, (NX, NX))
                                          for a in self.A]))
        if not auto:
            ip.setattr(sys, "B", ip.new_list([T(ip, a, (NX, NU))
                                              for a in self.B]))
        ip.setattr(sys, "g" if auto else "c",
                   ip.new_list([T(ip, a) for a in self.c]))
        ip.setattr(sys, "P", ip.new_list(P))
        ip.setattr(sys, "q", ip.new_list(q))
        ip.setattr(sys, "num_modes", k)
        self.x = vec("x", NX)
        self.u = vec("u", nu)
        self.ins = [all(b != "0" for b in p) for p in inside]

    f = Setup.f
    m = Setup.m

    def xu(self):
        return [T(self.ip, self.x)] + ([] if self.auto else [
            T(self.ip, self.u)])


PATTERNS = [("1", ), ("0", ), ("1", "1"), ("0", "1"), ("1", "0"),
            ("0", "0"), ("01", "11"), ("10", "11"), ("11", "01"),
            ("110", "101", "111"), ("111", "110", "111"),
            ("000", "011", "101"), ("1=", "11"), ("0=", "=="),
            ("==", "=0", "11")]


def simulation(ck):
    for auto, pat in itertools.product((False, True), PATTERNS):
        cls = AU if auto else HY
        tag = "%s.%s" % ("auto" if auto else "ctrl", "_".join(pat))
        first = next((i for i, p in enumerate(pat) if "0" not in p), None)
        w = where(ck.repo, M, cls + ".mode")

        def mode():
            S = Line(ck, auto, pat)
            r = S.m("mode", *S.xu())
            ck.ob("mode." + tag, r is None if first is None else (
                isinstance(r, int) and r == first), "mode = first mode whose "
                "polytope contains the point, None if there is none",
                "%r, expected %r" % (r, first), w)
        ck.attempt("mode." + tag, mode, where=w)
        w2 = where(ck.repo, M, cls + ".possible_dx")

        def poss():
            S = Line(ck, auto, pat)
            ip = S.ip
            r = ip.items(S.m("possible_dx", *S.xu()))
            want = [S.f(i, S.x, S.u) for i in range(S.k) if S.ins[i]]
            ck.ob("dx.%s.n" % tag, len(r) == len(want), "one derivative per "
                  "mode that contains the point", "%d, expected %d" % (
                      len(r), len(want)), w2)
            for i, (a, b) in enumerate(zip(r, want)):
                arr_is(ck, ip, "dx.%s.%d" % (tag, i), a, b, "derivatives of "
                       "all the modes that contain the point", w2)
        ck.attempt("dx." + tag, poss, where=w2)
        w3 = where(ck.repo, M, cls + ".step_forward")

        def step():
            S = Line(ck, auto, pat)
            ip = S.ip
            key = "step." + tag
            try:
                r = S.m("step_forward", *S.xu())
            except AbsRaise as e:
                ck.ob(key, auto and first is None and
                      "StepForwardException" in str(e.kind), "a state in no "
                      "mode raises StepForwardException", str(e), w3)
                return
            if first is None:
                ck.ob(key, not auto and tuple(ip.iterate(r)) == (None, None),
                      "a state in no mode has no next state", str(r), w3)
                return
            if not auto:
                r, md = ip.iterate(r)
                ck.ob(key + ".mode", md == first, "the mode is reported",
                      str(md), w3)
            arr_is(ck, ip, key, r, S.f(first, S.x, S.u), "next state of the "
                   "first mode that contains the point", w3)
        ck.attempt("step." + tag, step, where=w3)
    for auto in (False, True):
        cls = AU if auto else HY
        w3 = where(ck.repo, M, cls + ".step_forward")
        key = "step.batch." + ("auto" if auto else "ctrl")

        def batch(auto=auto, key=key, w=w3):
            # x0 < 0 is mode 0, x0 > 0 mode 1
            S = Line(ck, auto, ("0", "1"))
            ip = S.ip
            poly.set_bounds("y0", None, 0, False, True)
            y = [sym("y0"), sym("x1")]
            rows = [S.x, y, S.x]
            a = [T(ip, sum(rows, []), (3, NX))]
            us = [[sym("u0")], [sym("v0")], [sym("w0")]]
            if not auto:
                a.append(T(ip, sum(us, []), (3, NU)))
            r = S.m("step_forward", *a)
            md = None
            if not auto:
                r, md = ip.iterate(r)
                md = ip.items(md)
            want = [S.f(m, x, [] if auto else u) for m, x, u in zip(
                (1, 0, 1), rows, us)]
            ck.ob(key + ".shape", r.shape == (3, NX) and (
                md is None or md == [1, 0, 1]), "one row per state", str(
                    (r.shape, md)), w)
            arr_is(ck, ip, key, r, sum(want, []), "each state of a batch "
                   "moves as it would alone", w)
        ck.attempt(key, batch, where=w3)

    def chosen():
        S = Line(ck, True, ("1", "0", "1"))
        for i in range(3):
            arr_is(ck, S.ip, "step.given%d" % i, S.m(
                "step_forward", *S.xu(), mode_x=i), S.f(i, S.x), "the mode "
                "that is handed in is used", w3)
    ck.attempt("step.given", chosen, where=w3)


# -------------------------------------------------------------- cost to go
def cost(ip, x):
    return ip.new_arr((), [poly.fn("cost", *ip.cells(x))], "torch", "float")


class Chain:
    """mode by the sign of x0; the maps flip the sign as told"""
    def __init__(self, ck, flips, offset=True):
        ip = self.ip = interp(ck)
        poly.set_bounds("x0", 0, None, True)
        for n in ("a", "b"):
            poly.set_bounds(n, 0, None, True)
        sa, sb = [-1 if f else 1 for f in flips]
        # mode 0: x0 <= 0, mode 1: x0 >= 0
        self.A = [[Rat.of(sb) * sym("b"), Z, sym("b1"), sym("b2")],
                  [Rat.of(sa) * sym("a"), Z, sym("a1"), sym("a2")]]
        self.g = [[Z, sym("g0")], [Z, sym("g1")]]
        self.sys = ip.call(ip.get(M, AU), [NX, F64], {})
        for n, v in {
                "A": ip.new_list([T(ip, a, (2, 2)) for a in self.A]),
                "g": ip.new_list([T(ip, a) for a in self.g]),
                "P": ip.new_list([T(ip, [ONE, Z], (1, 2)),
                                  T(ip, [-ONE, Z], (1, 2))]),
                "q": ip.new_list([T(ip, [Z]), T(ip, [Z])]),
                "num_modes": 2}.items():
            ip.setattr(self.sys, n, v)
        self.flips = flips

    def roll(self, x, n, start=1):
        out, m = [x], start
        for _ in range(n):
            x = [sum((self.A[m][k * 2 + j] * x[j] for j in range(2)), Z) +
                 self.g[m][k] for k in range(2)]
            if self.flips[0 if m == 1 else 1]:
                m = 1 - m
            out.append(x)
        return out


def cost_to_go(ck):
    fn = "compute_discrete_time_system_cost_to_go"
    w = where(ck.repo, M, fn)
    for flips, n, view in itertools.product(
            ((False, False), (True, True), (True, False)), (0, 1, 2, 4),
            (False, True)):
        key = "cost.%d%d.n%d%s" % (flips + (n, ".view" if view else ""))

        def go(key=key, flips=flips, n=n, view=view):
            S = Chain(ck, flips)
            ip = S.ip
            x = [sym("x0"), sym("x1")]

            def cf(ip, a, k):
                # a cost may well be an entry of the state itself
                return ip.getitem(a[0], 1) if view else cost(ip, a[0])
            xs = T(ip, x)
            t, st, c = ip.iterate(ip.call(ip.get(M, fn), [
                S.sys, xs, n, PyFn(cf, "cost")], {}))
            tr = S.roll(x, n)
            cs = [p[1] if view else poly.fn("cost", *p) for p in tr]
            ck.eq(key + ".total", bl.scalar(ip, t), sum(cs, Z), "total cost "
                  "= sum of the one-step costs along the trajectory", w)
            ck.ob(key + ".shape", st.shape == (2, n + 1) and
                  c.shape == (n + 1, ), "one column per step", str(
                      (st.shape, c.shape)), w)
            arr_is(ck, ip, key + ".x", st, [p[k] for k in range(2)
                                            for p in tr], "the trajectory of "
                   "the system", w)
            arr_is(ck, ip, key + ".c", c, [sum(cs[i:], Z)
                                           for i in range(n + 1)],
                   "cost-to-go from each step = sum of the rest", w)
            arr_is(ck, ip, key + ".start", xs, x, "the start state is left "
                   "as it was", w)
        ck.attempt(key, go, where=w)
    half = ONE / Rat.of(2)
    for n, goal, stop in ((4, ONE / Rat.of(4), 2), (4, ONE, 0),
                          (1, ONE / Rat.of(4), 1), (3, Rat.of(7), 3),
                          (2, ONE / Rat.of(4), 2)):
        key = "cost.goal.n%d.%s" % (n, goal)

        def go(key=key, n=n, goal=goal, stop=stop):
            S = Chain(ck, (False, False))
            ip = S.ip
            for i in range(2):
                ip.store_cells(ip.items(ip.getattr(S.sys, "A"))[i],
                               [half, Z, Z, half])
                ip.store_cells(ip.items(ip.getattr(S.sys, "g"))[i], [Z, Z])
            x = [ONE, ONE]
            r = ip.iterate(ip.call(ip.get(M, fn), [
                S.sys, T(ip, x), n, PyFn(lambda ip, a, k: cost(ip, a[0]),
                                         "cost")], {
                    "x_goal": T(ip, [goal, goal])}))
            t, st, c = r
            tr = [[half ** i, half ** i] for i in range(stop + 1)]
            cs = [poly.fn("cost", *p) for p in tr]
            ck.eq(key + ".total", bl.scalar(ip, t), sum(cs, Z), "the sum "
                  "stops at the goal", w)
            arr_is(ck, ip, key + ".x", st, [p[k] for k in range(2)
                                            for p in tr], "the trajectory "
                   "stops at the goal", w)
            arr_is(ck, ip, key + ".c", c, [sum(cs[i:], Z)
                                           for i in range(stop + 1)],
                   "cost-to-go up to the goal", w)
        ck.attempt(key, go, where=w)

    ws = where(ck.repo, M, "generate_cost_to_go_samples")
    for out in ((), (1, ), (0, 2)):
        for prune in (None, 0, 1):
            key = "samples.out%s.%s" % ("".join(map(str, out)), prune)

            def go(key=key, out=out, prune=prune):
                S = Chain(ck, (False, False))
                ip = S.ip
                # no mode holds for negative x0 any more
                ip.setattr(S.sys, "P", ip.new_list(
                    [T(ip, [ONE, Z], (1, 2)), T(ip, [-ONE, Z], (1, 2))]))
                ip.store_cells(ip.items(ip.getattr(S.sys, "q"))[0], [
                    -INF])
                xs = []
                for i in range(3):
                    if i in out:
                        poly.set_bounds("s%d" % i, None, 0, False, True)
                    else:
                        poly.set_bounds("s%d" % i, 0, None, True)
                    xs.append([sym("s%d" % i), sym("t%d" % i)])
                kw = {}
                if prune is not None:
                    seen = []

                    def pr(ip, a, k):
                        seen.append(list(ip.cells(a[0])))
                        return (len(seen) - 1) % 3 == prune
                    kw["pruner"] = PyFn(pr, "pruner")
                r = ip.items(ip.call(ip.get(
                    M, "generate_cost_to_go_samples"), [
                        S.sys, ip.new_list([T(ip, x) for x in xs]), 2,
                        PyFn(lambda ip, a, k: cost(ip, a[0]), "cost"),
                        True], kw))
                want = []
                for i, x in enumerate(xs):
                    if i in out:
                        continue
                    tr = S.roll(x, 2)
                    cs = [poly.fn("cost", *p) for p in tr]
                    want += [(p, sum(cs[k:], Z)) for k, p in enumerate(tr)]
                if prune is not None:
                    want = [v for k, v in enumerate(want) if k % 3 != prune]
                ck.ob(key + ".n", len(r) == len(want), "every state of every "
                      "trajectory that stays in the domain, minus the pruned "
                      "ones", "%d, expected %d" % (len(r), len(want)), ws)
                for k, (g, v) in enumerate(zip(r, want)):
                    x, c = ip.iterate(g)
                    arr_is(ck, ip, "%s.x%d" % (key, k), x, v[0], "state of "
                           "the pair", ws)
                    ck.eq("%s.c%d" % (key, k), bl.scalar(ip, c), v[1],
                          "cost-to-go of the pair", ws)
            ck.attempt(key, go, where=ws)

    wc = where(ck.repo, M, "compute_continuous_time_system_cost_to_go")
    for goal in (False, True):
        key = "ivp.goal%d" % goal

        def go(key=key, goal=goal):
            S = Chain(ck, (True, False))
            ip = S.ip
            x = [sym("x0"), sym("x1")]
            cap = {}
            Y = vec("Y", 9)

            def ivp(ip, args, kw):
                names = ("fun", "t_span", "y0", "method", "t_eval",
                         "dense_output", "events")
                d = dict(zip(names, args))
                d.update(kw)
                cap.update(d)
                return ip.new_obj(ExtV("scipy.OdeResult"), {
                    "y": ip.new_arr((3, 3), Y, "np", "float"),
                    "t": ip.new_arr((3, ), vec("t", 3), "np", "float")})
            ip.hooks["ext:scipy.integrate.solve_ivp"] = ivp
            kw = {"x_goal": T(ip, [sym("gl0"), sym("gl1")])} if goal else {}
            r = ip.iterate(ip.call(ip.get(
                M, "compute_continuous_time_system_cost_to_go"), [
                    S.sys, T(ip, x), Rat.of(3), PyFn(
                        lambda ip, a, k: cost(ip, a[0]), "cost")], kw))
            t, tr, c, sol = r
            sp = ip.iterate(cap["t_span"])
            ck.ob(key + ".span", same(sp[0], 0) and same(sp[1], 3),
                  "integrated from 0 to T", str(sp), wc)
            arr_is(ck, ip, key + ".y0", cap["y0"], x + [Z], "starting at "
                   "(x0, 0)", wc)
            poly.set_bounds("z0", None, 0, False, True)
            for i, m in ((0, 1), (1, 0)):
                z = [sym("x0" if m else "z0"), sym("z1"), sym("z2")]
                d = ip.call(cap["fun"], [sym("t"), ip.new_arr(
                    (3, ), z, "np", "float")], {})
                xd = S.roll(z[:2], 1, m)[1]
                arr_is(ck, ip, "%s.f%d" % (key, m), d, xd + [
                    poly.fn("cost", *z[:2])], "derivative of (x, V) is (A x "
                    "+ g, cost(x))", wc)
            ck.eq(key + ".total", bl.scalar(ip, t), Y[8], "V at the end", wc)
            arr_is(ck, ip, key + ".x", tr, Y[:6], "trajectory", wc)
            arr_is(ck, ip, key + ".c", c, [Y[8] - v for v in Y[6:]],
                   "cost-to-go = total - accumulated", wc)
            ev = cap.get("events")
            ev = [] if ev is None else (ip.iterate(ev) if not callable(
                getattr(ev, "fn", None)) and not hasattr(ev, "node")
                else [ev])
            ck.ob(key + ".events", len(ev) == (1 if goal else 0), "stops at "
                  "the goal, if there is one", str(ev), wc)
            if goal and ev:
                ck.ob(key + ".terminal", ip.truth(ip.getattr(
                    ev[0], "terminal")) is True, "reaching the goal ends the "
                    "simulation", "", wc)
                z = vec("z", 3)
                v = ip.call(ev[0], [sym("t"), ip.new_arr(
                    (3, ), z, "np", "float")], {})
                d = bl.scalar(ip, v) + Rat.of(1) / Rat.of(1000)
                ck.eq(key + ".event", d * d, sum((
                    (z[k] - sym("gl%d" % k)) ** 2 for k in range(2)), Z),
                    "event = distance to the goal - 1e-3", wc)
        ck.attempt(key, go, where=wc)


# --------------------------------------------------------------- partition
def partition(ck):
    fn = "partition_state_input_space"
    w = where(ck.repo, M, fn)
    for nx, nu, bx, bu in ((1, 1, (2, ), (3, )), (2, 1, (2, 3), (2, )),
                           (1, 2, (1, ), (2, 3)), (1, 1, (1, ), (1, ))):
        for dpat in ("0", "+", "-", "big"):
            key = "part.%d%d.%s.%s" % (nx, nu, "".join(map(str, bx + bu)),
                                       dpat)

            def go(key=key, nx=nx, nu=nu, bx=bx, bu=bu, dpat=dpat):
                ip = interp(ck)
                n = nx + nu
                k = list(bx) + list(bu)
                lo = vec("lo", n)
                wd = vec("wd", n)
                for i in range(n):
                    poly.set_bounds("wd%d" % i, 0, None, True)
                    # overlap as a fraction of a cell
                    poly.set_bounds("de%d" % i, 0, 1, True, True)
                up = [a + b for a, b in zip(lo, wd)]
                de = {"0": [Z] * n, "+": [sym("de%d" % i) / Rat.of(2)
                                          for i in range(n)],
                      "-": [-sym("de%d" % i) / Rat.of(2) for i in range(n)],
                      "big": [Rat.of(9)] * n}[dpat]

                def ints(v):
                    a = ip.new_arr((len(v), ), list(v), "torch", "int")
                    ip.amodel(a).update({"dtype": "int", "i32": True})
                    return a
                r = ip.iterate(ip.call(ip.get(M, fn), [
                    T(ip, lo[:nx]), T(ip, up[:nx]), T(ip, lo[nx:]),
                    T(ip, up[nx:]), ints(bx), ints(bu), T(ip, de[:nx]),
                    T(ip, de[nx:])], {}))
                want = {}
                for c in itertools.product(*[range(m) for m in k]):
                    cell = []
                    for i in range(n):
                        h = wd[i] / Rat.of(k[i])
                        a = lo[i] + h * Rat.of(c[i])
                        b = a + h
                        mid = (a + b) / Rat.of(2)
                        a = poly.min2(poly.max2(a - de[i] * h, lo[i]), up[i])
                        b = poly.min2(poly.max2(b + de[i] * h, lo[i]), up[i])
                        cell.append((mid, a, b))
                    want[tuple(str(v[0]) for v in cell)] = cell
                tot = len(want)
                ck.ob(key + ".shape", [v.shape for v in r] == [
                    (tot, nx), (tot, nu), (tot, nx), (tot, nx), (tot, nu),
                    (tot, nu)], "one row per cell", str(
                        [v.shape for v in r]), w)
                cx, cu, xl, xu, ul, uu = [ip.cells(v) for v in r]
                for t in range(tot):
                    mid = cx[t * nx:(t + 1) * nx] + cu[t * nu:(t + 1) * nu]
                    a = xl[t * nx:(t + 1) * nx] + ul[t * nu:(t + 1) * nu]
                    b = xu[t * nx:(t + 1) * nx] + uu[t * nu:(t + 1) * nu]
                    cell = want.pop(tuple(str(v) for v in mid), None)
                    ck.ob("%s.cell%d" % (key, t), cell is not None, "every "
                          "cell centre occurs once", str(mid), w)
                    if cell is None:
                        continue
                    for i in range(n):
                        ck.eq("%s.lo%d_%d" % (key, t, i), a[i], cell[i][1],
                              "cell boundary, moved by delta of a cell and "
                              "kept within the space", w)
                        ck.eq("%s.up%d_%d" % (key, t, i), b[i], cell[i][2],
                              "cell boundary, moved by delta of a cell and "
                              "kept within the space", w)
            ck.attempt(key, go, where=w)


def check(ck):
    polytope_bounds(ck)
    add_mode(ck)
    constraints(ck)
    simulation(ck)
    cost_to_go(ck)
    partition(ck)
