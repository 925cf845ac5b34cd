"""Piecewise linear Lyapunov functions: the linear program is the documented
one."""
import itertools

from .. import poly, cvxpy_model as cvx
from ..poly import Rat
from ..values import Arr, AbsRaise
from .common import sym, where
from .c15 import vec
from . import blocks as bl

TITLE = "The piecewise linear Lyapunov program states the conditions"
EXPLANATION = (
    "SimplePWLLyapunov is evaluated on symbolic dynamics, vertices, "
    "equilibria and epsilons for one to three states and modes. After every "
    "sequence of calls the program handed to the solver is read back - its "
    "variables identified by what solve() returns - and its objective and "
    "rows compared with (6)-(9) of the documentation, each exactly once per "
    "vertex; inconsistent vertices, signs, shapes and weights must be "
    "refused.")
ASSUMPTIONS = ("real arithmetic; cvxpy and numpy follow their documentation",
               )
MIN_OBS = 60
M, C = "simple_pwl_lyapunov", "SimplePWLLyapunov"
Z, ONE = Rat.const(0), Rat.const(1)
CONV = (("optimal", True), ("infeasible", False), ("unbounded", False),
        ("infeasible_or_unbounded", False), ("user_limit", False))


class Setup:
    def __init__(self, ck, nx, nm, eqm=0, signs=None):
        poly.clear_bounds()
        self.ck, self.nx, self.nm, self.eqm = ck, nx, nm, eqm
        ip = self.ip = ck.interp()
        for n in ("e1", "e2"):
            poly.set_bounds(n, 0, None, True)
        poly.set_bounds("wt", 0, 1, True, True)
        self.e1, self.e2 = sym("e1"), sym("e2")
        self.xs = vec("xs", nx)
        self.X = self.arr(self.xs, (nx, ))
        self.o = ip.call(ip.get(M, C), [nx, nm, self.e1, self.e2, self.X,
                                        eqm], {})
        self.want = []              # functions of (c, d, s1, s2)
        self.want.append(lambda c, d, s1, s2: (s1, ">"))
        self.want.append(lambda c, d, s1, s2: (s2, ">"))
        self.want.append(lambda c, d, s1, s2: (self.lin(
            c, d, eqm, self.xs), "="))

    def arr(self, cells, shape):
        return self.ip.new_arr(shape, list(cells), "np", "float")

    def lin(self, c, d, i, x):
        """V of mode i at x"""
        return sum((c[k * self.nm + i] * x[k] for k in range(self.nx)),
                   d[i])

    def m(self, name, *a):
        return self.ip.call(self.ip.getattr(self.o, name), list(a), {})

    def derivative(self, i, nv, tag):
        n = self.nx
        A, g = vec(tag + "A", n * n), vec(tag + "g", n)
        vs = [vec("%sv%d_" % (tag, j), n) for j in range(nv)]
        args = [self.arr(sum(vs, []), (nv, n)), self.arr(A, (n, n)),
                self.arr(g, (n, ))]
        self.m("add_lyapunov_derivative_in_mode", i, *args)
        for v in vs:
            xd = [sum((A[r * n + q] * v[q] for q in range(n)), g[r])
                  for r in range(n)]
            self.want.append(lambda c, d, s1, s2, xd=xd, v=v: (
                s1 - sum((c[k * self.nm + i] * xd[k] for k in range(n)), Z) -
                self.e2 * self.lin(c, d, i, v), ">"))
        return args

    def signed(self, nv, signs, tag, bad=None):
        """vertices on the sides `signs` of x*"""
        vs = []
        for j in range(nv):
            v = []
            for k, s in enumerate(signs):
                n = "%sw%d_%d" % (tag, j, k)
                # the first vertex may lie on the boundary
                poly.set_bounds(n, 0, None, True)
                step = Z if j == 0 and k == 0 and nv > 1 else sym(n)
                if bad == (j, k):
                    step = -sym(n)
                v.append(self.xs[k] + step * Rat.of(s))
            vs.append(v)
        return vs

    def positivity(self, i, nv, signs, tag, bad=None, sg=None):
        n = self.nx
        vs = self.signed(nv, signs, tag, bad)
        args = [self.arr(sum(vs, []), (nv, n)),
                self.ip.new_arr((n, ), [Rat.of(s) for s in (sg or signs)],
                                "np", "float")]
        self.m("add_lyapunov_positivity_in_mode", i, *args)
        for v in vs:
            # V >= e1 |v - x*|_1
            nrm = sum((Rat.of(s) * (a - b) for s, a, b in zip(
                signs, v, self.xs)), Z)
            self.want.append(lambda c, d, s1, s2, v=v, nrm=nrm: (
                s2 + self.lin(c, d, i, v) - self.e1 * nrm, ">"))
        return args

    def continuity(self, i, j, nv, tag):
        vs = [vec("%su%d_" % (tag, q), self.nx) for q in range(nv)]
        a = self.arr(sum(vs, []), (nv, self.nx))
        self.m("add_continuity_constraint", i, j, a)
        for v in vs:
            self.want.append(lambda c, d, s1, s2, v=v: (
                self.lin(c, d, i, v) - self.lin(c, d, j, v), "="))
        return a

    def solve(self, key, w):
        ip, ck = self.ip, self.ck
        r = ip.iterate(self.m("solve", sym("wt")))
        ck.ob(key + ".returned", len(r) == 4, "solve returns c, d, s1, s2",
              str(len(r)), w)
        ps = [e[2] for e in ip.events if e[0] == "cvx-solve"]
        ck.ob(key + ".solved", len(ps) == 1, "one program is solved",
              str(len(ps)), w)
        if len(ps) != 1 or len(r) != 4:
            return
        p = ps[0]
        sh = [tuple(v.shape) if isinstance(v, Arr) else () for v in r]
        ck.ob(key + ".shapes", sh[0] == (self.nx, self.nm) and sh[1] ==
              (self.nm, ) and all(k in ((), (1, )) for k in sh[2:]),
              "c has one column and d one entry per mode", str(sh), w)
        if sh[0] != (self.nx, self.nm) or sh[1] != (self.nm, ):
            return
        vals = [list(ip.cells(v)) if isinstance(v, Arr) else [v]
                for v in r]
        pre = "cvp%d." % p.id
        names = []
        for v in sum(vals, []):
            n = str(v)
            names.append(n[len(pre):] if n.startswith(pre) and
                         n[len(pre):] in ip.cvx else None)
        ck.ob(key + ".values", None not in names and len(set(names)) ==
              len(names), "the values returned are those of distinct "
              "decision variables at the optimum", str(names), w)
        if None in names:
            return
        at = [sym(n) for n in names]
        a, b = self.nx * self.nm, self.nm
        c, d, s1, s2 = at[:a], at[a:a + b], at[a + b], at[a + b + 1]
        used = set()
        for e in [p.obj] + [x[0] for x in p.rows]:
            used |= {q.name for q in e.atoms() if q.kind == "sym" and
                     q.name in ip.cvx}
        ck.ob(key + ".only", used <= set(names), "the program has no other "
              "variables", str(sorted(used - set(names))), w)
        rows = list(p.rows)
        for n, kinds in ip.cvx_attr.items():
            for k in kinds:
                if k in ("nonneg", "nonpos"):
                    rows.append((sym(n) if k == "nonneg" else -sym(n), ">="))
                elif n in names:
                    ck.ob(key + ".attr", False, "variables are continuous",
                          n + " " + k, w)
        want = [f(c, d, s1, s2) for f in self.want]
        form = lambda e, o: (o[0], min(str(e), str(-e)) if o[0] == "=" else
                             str(e))
        got = {form(Rat.of(e), o) for e, o in rows}
        exp = {form(Rat.of(e), o) for e, o in want}
        triv = {form(Z, ">"), form(Z, "=")}
        for e in sorted(exp - triv):
            ck.ob(key + ".row%d" % sorted(exp).index(e), e in got,
                  "every condition is a row of the program", "missing %s "
                  "among %s" % (e, sorted(got - exp)[:3]), w)
        ck.ob(key + ".norow", got - triv <= exp, "the program has no other "
              "rows", str(sorted(got - exp - triv)[:3]), w)
        ck.eq(key + ".objective", p.obj * Rat.of(p.sense),
              (ONE - sym("wt")) * s1 + sym("wt") * s2,
              "minimise (1-weight) s1 + weight s2", w)


def programs(ck):
    w = where(ck.repo, M, C)
    f = lambda n: where(ck.repo, M, C + "." + n)
    for nx, nm in ((1, 1), (2, 1), (2, 2), (3, 2), (2, 3), (1, 3)):
        for eqm in range(nm):
            key = "base.%d.%d.%d" % (nx, nm, eqm)

            def go(nx=nx, nm=nm, eqm=eqm, key=key):
                S = Setup(ck, nx, nm, eqm)
                S.solve(key, w)
            ck.attempt(key, go, where=w)
        for i, nv in itertools.product(range(nm), (1, 2, 3)):
            key = "derivative.%d.%d.%d.%d" % (nx, nm, i, nv)

            def go(nx=nx, nm=nm, i=i, nv=nv, key=key):
                S = Setup(ck, nx, nm, nm - 1)
                args = S.derivative(i, nv, "p")
                before = [[str(c) for c in S.ip.cells(a)] for a in args]
                S.solve(key, f("add_lyapunov_derivative_in_mode"))
                ck.ob(key + ".kept", before == [
                    [str(c) for c in S.ip.cells(a)] for a in args],
                    "the data is not modified", "", w)
                ck.eq_arr(S.ip, key + ".xstar", S.X, S.xs,
                          "x* is not modified", w)
            ck.attempt(key, go, where=f("add_lyapunov_derivative_in_mode"))
        for i, sg in itertools.product(range(nm), itertools.product(
                (1, -1), repeat=nx)):
            nv = 1 + (i + sum(sg)) % 3
            key = "positivity.%d.%d.%d.%s" % (nx, nm, i, "".join(
                "+-"[s < 0] for s in sg))

            def go(nx=nx, nm=nm, i=i, sg=sg, key=key, nv=nv):
                S = Setup(ck, nx, nm, 0)
                args = S.positivity(i, nv, sg, "p")
                before = [[str(c) for c in S.ip.cells(a)] for a in args]
                S.solve(key, f("add_lyapunov_positivity_in_mode"))
                ck.ob(key + ".kept", before == [
                    [str(c) for c in S.ip.cells(a)] for a in args],
                    "the data is not modified", "", w)
                ck.eq_arr(S.ip, key + ".xstar", S.X, S.xs,
                          "x* is not modified", w)
            ck.attempt(key, go, where=f("add_lyapunov_positivity_in_mode"))
        for i, j in itertools.permutations(range(nm), 2):
            for nv in (1, 2, 3):
                key = "continuity.%d.%d.%d%d.%d" % (nx, nm, i, j, nv)

                def go(nx=nx, nm=nm, i=i, j=j, nv=nv, key=key):
                    S = Setup(ck, nx, nm, 0)
                    S.continuity(i, j, nv, "p")
                    S.solve(key, f("add_continuity_constraint"))
                ck.attempt(key, go, where=f("add_continuity_constraint"))

    def together():
        S = Setup(ck, 2, 3, 1)
        for i in range(3):
            S.derivative(i, 2, "d%d" % i)
            for q, sg in enumerate(itertools.product((1, -1), repeat=2)):
                S.positivity(i, 2, sg, "q%d%d" % (i, q))
        S.continuity(0, 1, 2, "c0")
        S.continuity(2, 1, 2, "c1")
        S.solve("together", w)
    ck.attempt("together", together, where=w)

    def twice():
        S = Setup(ck, 2, 2, 1)
        a = S.derivative(0, 2, "d0")
        S.m("solve", sym("wt"))
        S.ip.events[:] = [e for e in S.ip.events if e[0] != "cvx-solve"]
        S.positivity(1, 2, (1, -1), "q")
        S.solve("incremental", w)
    ck.attempt("incremental", twice, where=w)


def refused(ck, key, f, rule, w):
    try:
        f()
        ok = False
    except AbsRaise:
        ok = True
    ck.ob(key, ok, rule, "accepted", w)


def refusals(ck):
    wp = where(ck.repo, M, C + ".add_lyapunov_positivity_in_mode")
    for sg in itertools.product((1, -1), repeat=2):
        for j, k in itertools.product(range(3), range(2)):
            if (j, k) == (0, 0):
                continue
            key = "refuse.side.%s.%d.%d" % ("".join("+-"[s < 0] for s in sg),
                                            j, k)

            def go(sg=sg, j=j, k=k, key=key):
                S = Setup(ck, 2, 2)
                refused(ck, key, lambda: S.positivity(1, 3, sg, "p",
                                                      bad=(j, k)),
                        "a vertex on the other side of x* is refused", wp)
            ck.attempt(key, go, where=wp)
    for n, sg in enumerate(((0, 1), (1, 0), (2, 1), (1, -2),
                            (Rat.of(1) / Rat.of(2), 1))):
        def go(sg=sg, n=n):
            S = Setup(ck, 2, 2)
            refused(ck, "refuse.sign%d" % n, lambda: S.positivity(
                0, 2, (1, 1), "p", sg=sg), "signs other than 1 and -1 are "
                "refused", wp)
        ck.attempt("refuse.sign%d" % n, go, where=wp)
    wd = where(ck.repo, M, C + ".add_lyapunov_derivative_in_mode")
    for n, (v, A, g) in enumerate((((2, 3), (2, 2), (2, )),
                                   ((2, 2), (3, 2), (2, )),
                                   ((2, 2), (2, 2), (3, )),
                                   ((2, 1), (2, 2), (2, )),
                                   ((2, 2), (2, 2), (2, 1)))):
        def go(v=v, A=A, g=g, n=n):
            S = Setup(ck, 2, 2)
            mk = lambda t, s: S.arr(vec(t, s[0] * (s[1] if len(s) > 1 else
                                                   1)), s)
            refused(ck, "refuse.shape%d" % n, lambda: S.m(
                "add_lyapunov_derivative_in_mode", 0, mk("v", v),
                mk("A", A), mk("g", g)), "data of the wrong shape is "
                "refused", wd)
        ck.attempt("refuse.shape%d" % n, go, where=wd)
    wc = where(ck.repo, M, C + ".add_continuity_constraint")
    for n, (name, mk) in enumerate((
            ("add_lyapunov_positivity_in_mode", lambda S: [
                0, S.arr(vec("v", 6), (2, 3)),
                S.arr([ONE, ONE], (2, ))]),
            ("add_lyapunov_positivity_in_mode", lambda S: [
                0, S.arr(S.xs, (1, 2)), S.arr([ONE] * 3, (3, ))]),
            ("add_continuity_constraint", lambda S: [
                0, 1, S.arr(vec("v", 3), (1, 3))]))):
        def go(name=name, mk=mk, n=n):
            S = Setup(ck, 2, 2)
            refused(ck, "refuse.dim%d" % n, lambda: S.m(name, *mk(S)),
                    "data of the wrong shape is refused", wc)
        ck.attempt("refuse.dim%d" % n, go, where=wc)
    ws = where(ck.repo, M, C + ".solve")
    for n, v in enumerate((Z, ONE, Rat.of(-1) / Rat.of(2),
                           Rat.of(3) / Rat.of(2))):
        def go(v=v, n=n):
            S = Setup(ck, 2, 2)
            refused(ck, "refuse.weight%d" % n, lambda: S.m("solve", v),
                    "the weight lies strictly between 0 and 1", ws)
        ck.attempt("refuse.weight%d" % n, go, where=ws)


def statuses(ck):
    w = where(ck.repo, M, C + ".solve")
    for st, good in CONV:
        def go(st=st, good=good):
            S = Setup(ck, 2, 2)
            S.ip.cvx_status = lambda ip, p: st
            try:
                r = S.ip.iterate(S.m("solve", sym("wt")))
            except AbsRaise:
                r = [None] * 4
            ck.ob("status." + st, all((v is not None) == good for v in r),
                  "values are returned iff the program was solved",
                  str(r)[:200], w)
        ck.attempt("status." + st, go, where=w)


def check(ck):
    programs(ck)
    refusals(ck)
    statuses(ck)
