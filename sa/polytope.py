"""Polyhedra domain.

A system is a list of rows  sum_i a_i x_i + c  (< 0, = 0)  whose coefficients
are normal forms over the symbolic parameters of the analysed code.  Inclusion
of one polyhedron in another is decided row by row: at rational instances of
the parameters an exact rational LP gives either a counterexample point or the
multipliers of a Farkas combination; the combination is then re-derived with
symbolic coefficients and its signs are decided in the interval domain, which
proves the inclusion for every parameter value of the case."""
from fractions import Fraction
import random

from . import poly
from .poly import Rat, Atom
from .values import Undecided

F0, F1 = Fraction(0), Fraction(1)
Z = Rat.const(0)


class NotLinear(Exception):
    pass


def linear(e, names):
    """e = sum coef[v]*v + const over the variables `names`"""
    e = Rat.of(e)
    ids = {}
    for n in names:
        ids[Atom.get("sym", n).id] = n
    coef, const = {}, {}
    for m in e.den:
        if any(a in ids for a, _ in m):
            raise NotLinear(str(e))
    for m, c in e.num.items():
        hit = [(a, x) for a, x in m if a in ids]
        for a, _ in m:
            at = Atom.byid[a]
            if a not in ids and at.args and any(
                    x.id in ids for x in Rat.atom(at).atoms(True)):
                raise NotLinear(str(e))
        if not hit:
            const[m] = c
            continue
        if len(hit) > 1 or hit[0][1] != 1:
            raise NotLinear(str(e))
        rest = tuple(t for t in m if t[0] not in ids)
        d = coef.setdefault(ids[hit[0][0]], {})
        d[rest] = d.get(rest, 0) + c
    den = Rat(dict(e.den))
    return ({v: Rat(p) / den for v, p in coef.items()
             if not Rat(p).is_zero()}, Rat(const) / den)


class Row:
    __slots__ = ("a", "c", "s", "label")

    def __init__(self, a, c, s, label=""):
        self.a, self.c, self.s, self.label = a, c, s, label

    def __repr__(self):
        return "%s %s 0" % (self.expr(), "=" if self.s == "=" else "<=")

    def expr(self):
        e = self.c
        for v, k in sorted(self.a.items()):
            e = e + k * Rat.sym(v)
        return e


def row(e, sense, names, label=""):
    a, c = linear(e, names)
    if sense == ">":
        a, c, sense = {v: -k for v, k in a.items()}, -c, "<"
    return Row(a, c, "=" if sense in ("=", "==") else "<", label)


def le(x, y, names, label=""):
    return row(Rat.of(x) - Rat.of(y), "<", names, label)


def eq(x, y, names, label=""):
    return row(Rat.of(x) - Rat.of(y), "=", names, label)


def fix(rows, vals):
    """substitute variables by values (Rat)"""
    out = []
    for r in rows:
        a, c = dict(r.a), r.c
        for v, x in vals.items():
            if v in a:
                c = c + a.pop(v) * Rat.of(x)
        out.append(Row(a, c, r.s, r.label))
    return out


def _pos(r):
    s = poly.sign(Rat.of(r))
    return {"+": 1, "-": -1, "0": 0}.get(s)


def eliminate(rows, v):
    """project variable v out (Gauss on an equality, else Fourier-Motzkin)"""
    for i, r in enumerate(rows):
        if r.s == "=" and v in r.a and _pos(r.a[v]):
            k = r.a[v]
            out = []
            for j, q in enumerate(rows):
                if j == i:
                    continue
                if v in q.a:
                    f = q.a[v] / k
                    a = dict(q.a)
                    for w, x in r.a.items():
                        n = a.get(w, Z) - f * x
                        if n.is_zero():
                            a.pop(w, None)
                        else:
                            a[w] = n
                    a.pop(v, None)
                    q = Row(a, q.c - f * r.c, q.s, q.label)
                out.append(q)
            return out
    up, lo, out = [], [], []
    for q in rows:
        if v not in q.a:
            out.append(q)
            continue
        s = _pos(q.a[v])
        if s is None or s == 0:
            raise Undecided("coefficient sign of %s in %r" % (v, q))
        for sg in ((1, -1) if q.s == "=" else (1, )):
            k = q.a[v] * sg
            (up if s * sg > 0 else lo).append(
                Row({w: x * sg / (k if s * sg > 0 else -k)
                     for w, x in q.a.items() if w != v},
                    q.c * sg / (k if s * sg > 0 else -k), "<", q.label))
    for p in up:
        for q in lo:
            a = dict(p.a)
            for w, x in q.a.items():
                n = a.get(w, Z) + x
                if n.is_zero():
                    a.pop(w, None)
                else:
                    a[w] = n
            out.append(Row(a, p.c + q.c, "<", p.label + "+" + q.label))
    return out


# ------------------------------------------------------------ exact rational LP
def _simplex(A, b, c):
    """min c.y  s.t. A y = b, y >= 0 (exact).  -> (status, y, multipliers)"""
    m, n = len(A), len(c)
    T = []
    for i in range(m):
        s = -1 if b[i] < 0 else 1
        T.append([s * x for x in A[i]] +
                 [F1 if j == i else F0 for j in range(m)] + [s * b[i]])
    sg = [-1 if b[i] < 0 else 1 for i in range(m)]
    basis = [n + i for i in range(m)]

    def run(cost, ncol):
        while True:
            # reduced costs
            z = [cost[basis[i]] for i in range(m)]
            enter = None
            for j in range(ncol):
                if j in inb:
                    continue
                rc = cost[j] - sum(z[i] * T[i][j] for i in range(m)
                                   if z[i] and T[i][j])
                if rc < 0:
                    enter = j
                    break
            if enter is None:
                return "opt"
            best, r = None, None
            for i in range(m):
                if T[i][enter] > 0:
                    q = T[i][-1] / T[i][enter]
                    if best is None or q < best or (q == best and
                                                    basis[i] < basis[r]):
                        best, r = q, i
            if r is None:
                return "unb"
            pivot(r, enter)

    def pivot(r, e):
        p = T[r][e]
        T[r] = [x / p if x else F0 for x in T[r]]
        for i in range(m):
            if i != r and T[i][e]:
                f = T[i][e]
                T[i] = [x - f * y if y else x for x, y in zip(T[i], T[r])]
        inb.discard(basis[r])
        basis[r] = e
        inb.add(e)

    inb = set(basis)
    if m:
        run([F0] * n + [F1] * m, n + m)
        if sum(T[i][-1] for i in range(m) if basis[i] >= n) > 0:
            return "inf", None, None
        for i in range(m):
            if basis[i] >= n:
                for j in range(n):
                    if T[i][j] and j not in inb:
                        pivot(i, j)
                        break
    cost = list(c) + [F0] * m
    st = run(cost, n)
    if st == "unb":
        return "unb", None, None
    y = [F0] * n
    for i in range(m):
        if basis[i] < n:
            y[basis[i]] = T[i][-1]
    # multipliers pi = c_B B^-1 ; B^-1 sits in the artificial columns
    pi = [sg[j] * sum(cost[basis[i]] * T[i][n + j] for i in range(m))
          for j in range(m)]
    return "opt", y, pi


def lp_max(obj, rows, names):
    """max obj.x + 0 over numeric rows [(a dict, c, s)] -> status, value, x,
    y (multiplier per row)"""
    cols, sgn = [], []
    for k, (a, c, s) in enumerate(rows):
        cols.append((k, 1))
        if s == "=":
            cols.append((k, -1))
    A = [[rows[k][0].get(v, F0) * g for k, g in cols] for v in names]
    b = [obj.get(v, F0) for v in names]
    cc = [-rows[k][1] * g for k, g in cols]
    st, y, pi = _simplex(A, b, cc)
    if st == "opt":
        yy = [F0] * len(rows)
        for (k, g), v in zip(cols, y):
            yy[k] += g * v
        x = dict(zip(names, pi))
        return "opt", sum(b[i] * pi[i] for i in range(len(b))), x, yy
    if st == "unb":
        return "inf", None, None, None
    return "unb-or-inf", None, None, None


def feasible(rows, names):
    """(True, point) or (False, multipliers)"""
    t = "__t"
    rr = []
    for a, c, s in rows:
        a1 = dict(a)
        a1[t] = Fraction(-1)
        rr.append((a1, c, "<"))
        if s == "=":
            a2 = {v: -k for v, k in a.items()}
            a2[t] = Fraction(-1)
            rr.append((a2, -c, "<"))
    rr.append(({t: Fraction(-1)}, F0, "<"))
    st, val, x, y = lp_max({t: Fraction(-1)}, rr, list(names) + [t])
    if st != "opt":
        raise Undecided("feasibility LP: %s" % st)
    if val == 0:
        return True, x
    out, k = [], 0
    for a, c, s in rows:
        if s == "=":
            out.append(y[k] - y[k + 1])
            k += 2
        else:
            out.append(y[k])
            k += 1
    return False, out


# ------------------------------------------------------------ symbolic layer
def params_of(*systems):
    ps = set()
    for rows in systems:
        for r in rows:
            for e in list(r.a.values()) + [r.c]:
                for a in Rat.of(e).atoms(True):
                    if a.kind == "sym":
                        ps.add(a.name)
    return sorted(ps)


def sample(ps, rng):
    env = {}
    for p in ps:
        lo, lo_o, up, up_o = poly.BOUNDS.get(p, (poly.NINF, 1, poly.PINF, 1))
        if lo == poly.NINF and up == poly.PINF:
            v = Fraction(rng.randint(-40, 40), rng.choice((4, 7, 8, 16)))
        elif up == poly.PINF:
            v = Fraction(lo) + Fraction(rng.randint(1, 60),
                                        rng.choice((4, 7, 16)))
        elif lo == poly.NINF:
            v = Fraction(up) - Fraction(rng.randint(1, 60),
                                        rng.choice((4, 7, 16)))
        else:
            v = Fraction(lo) + (Fraction(up) - Fraction(lo)) * Fraction(
                rng.randint(1, 30), 31)
        env[p] = v
    return env


def inst(r, env, cache=None):
    v = poly.subst(Rat.of(r), lambda at: Rat.const(env[at.name])
                   if at.kind == "sym" and at.name in env else None, cache)
    if not v.is_const():
        raise Undecided("coefficient %s has no rational value" % v)
    return v.const_value()


def numeric(rows, env):
    cache = {}
    return [({v: inst(k, env, cache) for v, k in r.a.items()},
             inst(r.c, env, cache), r.s) for r in rows]


def _solve(M, b):
    """symbolic Gaussian elimination, M rows x cols (Rat); None if the pivot
    sign is not decidable or the system is inconsistent"""
    m = len(M)
    n = len(M[0]) if m else 0
    T = [list(M[i]) + [b[i]] for i in range(m)]
    piv, r = [], 0
    for j in range(n):
        k = next((i for i in range(r, m) if _pos(T[i][j])), None)
        if k is None:
            if any(not T[i][j].is_zero() for i in range(r, m)):
                return None
            return None
        T[r], T[k] = T[k], T[r]
        p = T[r][j]
        T[r] = [x / p for x in T[r]]
        for i in range(m):
            if i != r and not T[i][j].is_zero():
                f = T[i][j]
                T[i] = [x - f * y for x, y in zip(T[i], T[r])]
        piv.append(j)
        r += 1
    if any(not T[i][n].is_zero() for i in range(r, m)):
        return None
    return [T[i][n] for i in range(n)]


def certificate(P, names, y, target, const):
    """symbolic: sum y_i P_i == target (coefs), value = -sum y_i c_i <= const;
    returns True if all signs are decided"""
    S = [i for i in range(len(P)) if y[i]]
    if not S:
        return all(k.is_zero() for k in target.values()) and \
            poly.sign(const) in ("+", "0", ">=0")
    M = [[P[i].a.get(v, Z) for i in S] for v in names]
    b = [target.get(v, Z) for v in names]
    lam = None
    try:
        lam = _solve(M, b)
    except (ZeroDivisionError, poly.Blowup):
        lam = None
    if lam is None:
        return False
    val = Z
    for k, i in enumerate(S):
        if P[i].s != "=" and poly.sign(lam[k]) not in ("+", "0", ">=0"):
            return False
        val = val - lam[k] * P[i].c
    return poly.sign(Rat.of(const) - val) in ("+", "0", ">=0")


def empty(P, names, seed=1, n=4):
    """True/False/None, proof, detail"""
    rng = random.Random("empty%s" % seed)
    ps = params_of(P)
    proof = None
    for k in range(n):
        env = sample(ps, rng)
        num = numeric(P, env)
        ok, w = feasible(num, names)
        if ok:
            return False, True, "feasible at %s with %s" % (
                show(env), show(w))
        if not proof:
            S = [i for i in range(len(P)) if w[i]]
            # sum w_i a_i = 0, sum w_i c_i > 0 ; normalise first multiplier
            try:
                lam = None
                if S:
                    M = [[P[i].a.get(v, Z) for i in S[1:]] for v in names]
                    b = [-P[S[0]].a.get(v, Z) * Rat.const(w[S[0]])
                         for v in names]
                    lam = _solve(M, b) if len(S) > 1 else (
                        [] if all(x.is_zero() for x in b) else None)
                if lam is not None:
                    lam = [Rat.const(w[S[0]])] + lam
                    val = Z
                    good = True
                    for i, l in zip(S, lam):
                        if P[i].s != "=" and poly.sign(l) not in (
                                "+", "0", ">=0"):
                            good = False
                        val = val + l * P[i].c
                    proof = good and poly.sign(val) == "+"
            except (ZeroDivisionError, poly.Blowup):
                pass
    return True, bool(proof), ""


def show(env):
    return "{%s}" % ", ".join("%s=%.4g" % (k, float(v))
                              for k, v in sorted(env.items())[:14]
                              if k != "__t")


def included(P, Q, names, seed=1, n=4):
    """P subset of Q, row by row of Q: list of (row, ok, proof, detail)"""
    rng = random.Random("incl%s" % seed)
    ps = params_of(P, Q)
    envs = [sample(ps, rng) for _ in range(n)]
    nums = [(numeric(P, e), numeric(Q, e)) for e in envs]
    feas = [feasible(p, names)[0] for p, _ in nums]
    out = []
    for qi, q in enumerate(Q):
        for sg in ((1, -1) if q.s == "=" else (1, )):
            target = {v: k * sg for v, k in q.a.items()}
            const = -q.c * sg
            ok, proof, det = True, False, ""
            for e, (p, qq), f in zip(envs, nums, feas):
                if not f:
                    continue
                obj = {v: k * sg for v, k in qq[qi][0].items()}
                bound = -qq[qi][1] * sg
                st, val, x, y = lp_max(obj, p, names)
                if st != "opt":
                    ok = False
                    det = "unbounded over the encoded set at %s: %r" % (
                        show(e), q)
                    break
                if val > bound:
                    ok = False
                    det = ("point %s (parameters %s) satisfies the one side "
                           "but not %r (off by %.4g)" %
                           (show(x), show(e), q, float(val - bound)))
                    break
                if not proof:
                    try:
                        proof = certificate(P, names, y, target, const)
                    except Undecided:
                        proof = False
            if not any(feas):
                r = empty(P, names, seed)
                proof = r[1]
            out.append((q, ok, proof, det))
    return out
