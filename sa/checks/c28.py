"""Strengthening cuts and linear-programming ranges."""
import itertools
from fractions import Fraction

from .. import poly, gurobi_model as gm
from ..poly import Rat
from ..values import Arr, ExtV, AbsRaise
from .common import sym, where, F64
from . import blocks as bl, c13
from .c09 import Net
from .c11 import T, INF, new_mip
from .c15 import newvars, vec, lists

TITLE = "Strengthening cuts keep every true point of the network"
EXPLANATION = (
    "The cut of an index set is compared, as a normal form, with the facet "
    "of the ideal formulation; the index set chosen at a point with the "
    "minimum over all index sets of the cut there; the rows produced for a "
    "network at a point with exactly the violated best cuts of its units, "
    "on the unit's own variables and the bounds of its own inputs. The "
    "programs behind them (point in a solved relaxation, strengthening of "
    "the Lyapunov derivative program and of its binaries, LP ranges) are "
    "read off the recorded solver models for every solver status.")
ASSUMPTIONS = ("real arithmetic; gurobipy, torch and numpy follow their "
               "documentation; contract of the network encoding (C09)", )
MIN_OBS = 200
MU, RO, LY = "mip_utils", "relu_to_optimization", "lyapunov"
Z, ONE = Rat.const(0), Rat.const(1)
MAX, MIN = -1, 1


def q(a, b):
    return Fraction(a, b)


def slope(n):
    poly.set_bounds("c01", 0, 1, True, True)
    return Z if n == "relu" else sym("c01")


def signed(name, pat):
    out = []
    for i, c in enumerate(pat):
        n = "%s%d" % (name, i)
        if c == "0":
            out.append(Z)
            continue
        poly.set_bounds(n, 0 if c == "+" else None, None if c == "+" else 0,
                        True, True)
        out.append(sym(n))
    return out


def ends(w, pat, lo, up):
    """(L-bar, U-bar)"""
    return ([l if p != "-" else u for p, l, u in zip(pat, lo, up)],
            [u if p != "-" else l for p, l, u in zip(pat, lo, up)])


def cut(c, w, b, pat, lo, up, I):
    """y <= a x + beta_coef beta + const for index set I"""
    L, U = ends(w, pat, lo, up)
    a = [w[i] if i in I else c * w[i] for i in range(len(w))]
    k = c * b - sum(((1 - c) * w[i] * L[i] for i in I), Z)
    bc = b * (1 - c) + sum(((1 - c) * w[i] * L[i] for i in I), Z) + sum(
        ((1 - c) * w[i] * U[i] for i in range(len(w)) if i not in I), Z)
    return a, bc, k


def subsets(n):
    return itertools.chain.from_iterable(
        itertools.combinations(range(n), r) for r in range(n + 1))


def pats(n, deep):
    al = "+-0" if n < 3 or deep else "+-"
    return ["".join(p) for p in itertools.product(al, repeat=n)]


def tensor0(ip, v):
    return ip.new_arr((), [Rat.of(v)], "torch", "float")


def as_set(ip, I):
    return ip.new_set(list(I))


def facets(ck):
    fn = "strengthen_relu_mip_w_indices"
    w_ = where(ck.repo, MU, fn)
    for n in (1, 2, 3):
        for pat, sl in itertools.product(pats(n, ck.deep), ("relu", "leaky")):
            for I in subsets(n):
                key = "cut.%s.%s.%s" % (pat, sl, "".join(map(str, I)))

                def go(pat=pat, sl=sl, I=I, key=key, n=n):
                    poly.clear_bounds()
                    ip = ck.interp()
                    c = slope(sl)
                    w = signed("w", pat)
                    lo, up, b = vec("lo", n), vec("up", n), sym("b")
                    args = [T(ip, w), tensor0(ip, b), T(ip, lo), T(ip, up)]
                    J = as_set(ip, I)
                    r = ip.iterate(ip.call(ip.get(MU, fn), [
                        c] + args + [J], {}))
                    a, bc, k = cut(c, w, b, pat, lo, up, I)
                    rule = "the cut is the facet of its index set"
                    ck.eq_arr(ip, key + ".x", r[0], a, rule, w_)
                    ck.eq(key + ".beta", bl.scalar(ip, r[1]), bc, rule, w_)
                    ck.eq(key + ".const", bl.scalar(ip, r[2]), k, rule, w_)
                    for t, v, nm in ((args[0], w, "w"), (args[1], [b], "b"),
                                     (args[2], lo, "lo"),
                                     (args[3], up, "up")):
                        ck.eq_arr(ip, "%s.kept.%s" % (key, nm), t, v,
                                  "the data is not modified", w_)
                    ck.ob(key + ".kept.set", sorted(ip.iterate(J)) ==
                          sorted(I), "the index set is not modified", "", w_)
                    # the facet is valid: with beta = 1 (0) it is implied by
                    # y = w x + b (c (w x + b)) over the box
                ck.attempt(key, go, where=w_)


REL = ("below", "tie", "above")


def point(n, beta, rel, pat, tag=""):
    """box and point with x_i below / at / above the threshold of index i"""
    lo, up, x = [], [], []
    for i in range(n):
        g = "%sg%d" % (tag, i)
        poly.set_bounds(g, 0, None, True)
        th = beta if pat[i] != "-" else 1 - beta
        t = {"below": th / 2, "tie": th, "above": (1 + th) / 2}[rel[i]]
        x.append(sym("%sx%d" % (tag, i)))
        lo.append(x[i] - t * sym(g))
        up.append(lo[i] + sym(g))
    return lo, up, x


def best(c, w, b, pat, lo, up, x, beta):
    """minimum over the index sets of the cut at (x, beta)"""
    L, U = ends(w, pat, lo, up)
    v = c * b + b * (1 - c) * beta
    for i in range(len(w)):
        v = v + poly.min2(w[i] * x[i] - (1 - c) * (1 - beta) * w[i] * L[i],
                          c * w[i] * x[i] + (1 - c) * beta * w[i] * U[i])
    return v


def choose(ck):
    fn = "find_index_set_to_strengthen"
    w_ = where(ck.repo, MU, fn)
    for n in (1, 2):
        for pat, rel, be in itertools.product(
                pats(n, ck.deep), itertools.product(REL, repeat=n),
                ((1, 3), (3, 4), (0, 1), (1, 1))):
            if n == 2 and be[1] == 1 and not ck.deep:
                continue
            key = "index.%s.%s.%d-%d" % (pat, ".".join(rel), be[0], be[1])

            def go(pat=pat, rel=rel, be=be, key=key, n=n):
                poly.clear_bounds()
                ip = ck.interp()
                beta = q(*be)
                w = signed("w", pat)
                lo, up, x = point(n, beta, rel, pat)
                r = ip.call(ip.get(MU, fn), [
                    T(ip, w), T(ip, lo), T(ip, up), T(ip, x),
                    tensor0(ip, beta)], {})
                I = set(ip.iterate(r))
                ck.ob(key + ".range", all(isinstance(i, int) and 0 <= i < n
                                          for i in I), "a set of indices",
                      str(I), w_)
                for sl in ("relu", "leaky"):
                    c = slope(sl)
                    b = sym("b")
                    a, bc, k = cut(c, w, b, pat, lo, up, I)
                    val = sum((a[i] * x[i] for i in range(n)), k) + bc * beta
                    ck.eq("%s.%s" % (key, sl), val, best(
                        c, w, b, pat, lo, up, x, beta), "the chosen index "
                        "set gives the tightest cut at the point", w_)
            ck.attempt(key, go, where=w_)


# ------------------------------------------------- cuts at given points
def at_points(ck):
    fn = "strengthen_relu_mip_given_pts"
    w_ = where(ck.repo, MU, fn)
    cases = [("v", ), ("n", ), ("v", "v"), ("n", "v"), ("v", "n", "v"),
             ("n", "n"), ()]
    for pat, sl, viol in itertools.product(("+", "-", "+-"), ("relu",
                                                              "leaky"),
                                           cases):
        key = "points.%s.%s.%s" % (pat, sl, "".join(viol))

        def go(pat=pat, sl=sl, viol=viol, key=key):
            poly.clear_bounds()
            ip = ck.interp()
            n = len(pat)
            c = slope(sl)
            w, b = signed("w", pat), sym("b")
            bet = [q(1, 3), q(3, 4), q(1, 2)][:len(viol)]
            lo, up = vec("lo", n), []
            for i in range(n):
                poly.set_bounds("g%d" % i, 0, None, True)
                up.append(lo[i] + sym("g%d" % i))
            xs, ys, want = [], [], []
            for k, v in enumerate(viol):
                x = [lo[i] + q(1 + (i + k) % 2 * 7, 9) * sym("g%d" % i)
                     for i in range(n)]
                I = {i for i in range(n) if w_le(pat[i], q(
                    1 + (i + k) % 2 * 7, 9), bet[k])}
                a, bc, cc = cut(c, w, b, pat, lo, up, I)
                d = "d%d" % k
                poly.set_bounds(d, 1, None)
                y = sum((a[i] * x[i] for i in range(n)), cc) + bc * bet[k] \
                    + (sym(d) if v == "v" else -sym(d))
                xs.append(T(ip, x))
                ys.append(tensor0(ip, y))
                if v == "v":
                    want.append((a, bc, cc))
            r = ip.iterate(ip.call(ip.get(MU, fn), [
                c, T(ip, w), tensor0(ip, b), T(ip, lo), T(ip, up),
                ip.new_list(xs), ip.new_list(ys),
                ip.new_list([tensor0(ip, v) for v in bet])], {}))
            if not want:
                ck.ob(key, all(v is None or isinstance(v, Arr) and
                               v.shape[0] == 0 for v in r),
                      "no cut if none is violated", str(r), w_)
                return
            rows_ob(ck, ip, key, r, want, n, w_)
        ck.attempt(key, go, where=w_)


def rows_ob(ck, ip, key, r, want, n, w_, order=False):
    """(x_coeffs, binary_coeffs, constants) are the cuts `want`"""
    ok = isinstance(r[0], Arr) and tuple(r[0].shape) == (len(want), n) and \
        all(isinstance(v, Arr) and tuple(v.shape) == (len(want), )
            for v in r[1:3])
    ck.ob(key + ".shape", ok, "one row per cut", "%s, expected %d cuts" % (
        [getattr(v, "shape", v) for v in r], len(want)), w_)
    if not ok:
        return
    x, bb, cc = [ip.cells(v) for v in r[:3]]
    got = sorted(str([str(Rat.of(v)) for v in list(
        x[i * n:(i + 1) * n]) + [bb[i], cc[i]]]) for i in range(len(want)))
    exp = sorted(str([str(Rat.of(v)) for v in list(a) + [b, c]])
                 for a, b, c in want)
    ck.ob(key + ".rows", got == exp, "the rows are the cuts",
          "extra %s missing %s" % ([g for g in got if g not in exp][:2],
                                   [g for g in exp if g not in got][:2]), w_)


def w_le(p, t, beta):
    """index with weight sign p in the set, x = lo + t g"""
    return t <= beta if p != "-" else t > 1 - beta


def every(ck):
    """strengthen_relu_mip without selection"""
    fn = "strengthen_relu_mip"
    w_ = where(ck.repo, MU, fn)
    for pat, sl in itertools.product(("+", "-", "+-", "--", "+-+", "0+-"),
                                     ("relu", "leaky")):
        key = "every.%s.%s" % (pat, sl)

        def go(pat=pat, sl=sl, key=key):
            poly.clear_bounds()
            ip = ck.interp()
            n = len(pat)
            c = slope(sl)
            w, b = signed("w", pat), sym("b")
            lo, up = vec("lo", n), vec("up", n)
            poly.set_bounds("ml", None, 0, True, True)
            poly.set_bounds("mu", 0, None, True)
            r = ip.iterate(ip.call(ip.get(MU, fn), [
                c, T(ip, w), tensor0(ip, b), T(ip, lo), T(ip, up),
                tensor0(ip, sym("ml")), tensor0(ip, sym("mu")), False], {}))
            want = [cut(c, w, b, pat, lo, up, I) for I in subsets(n)
                    if 0 < len(I) < n]
            rows_ob(ck, ip, key, r, want, n, w_)
        ck.attempt(key, go, where=w_)


def number(name):
    """a fixed number standing for the symbol of that name"""
    h = sum((i + 3) * ord(ch) for i, ch in enumerate(name)) % 97
    v = Rat.const(h + 7) / 8
    return -v if name == "ml" else v


def numbers(name, n):
    return [number("%s%d" % (name, i)) for i in range(n)]


SYMVEC = (sym, vec)


def selective(ck):
    """strengthen_relu_mip with selection: with the vertices, the beta range
    and the cuts given, a cut is kept iff it lowers the bound on y"""
    fn = "strengthen_relu_mip"
    w_ = where(ck.repo, MU, fn)
    for sl, seq, num in itertools.product(("relu", "leaky"), (
            "TT", "TF", "FT", "FF", "FTTF", "TTTT"), (False, True)):
        key = "select.%s.%s%s" % (sl, seq, ".num" * num)

        def go(sl=sl, seq=seq, key=key, num=num):
            poly.clear_bounds()
            ip = ck.interp()
            n = 2
            sym, vec = (number, numbers) if num else SYMVEC
            c = slope(sl)
            if num and sl == "leaky":
                c = Rat.const(1) / 8
            w, b = vec("w", n), sym("b")
            lo, up = vec("lo", n), vec("up", n)
            poly.set_bounds("ml", None, 0, True, True)
            poly.set_bounds("mu", 0, None, True)
            nv = len(seq) // 2
            vs = [vec("v%d_" % k, n) for k in range(nv)]
            ip.hooks[MU + "._get_linear_input_vertices"] = \
                lambda ip, a, k: ip.new_list([T(ip, v) for v in vs])
            calls, want, used = [], [], []

            def known():
                return [([c * x for x in w], (1 - c) * sym("mu"), c * b),
                        (w, (1 - c) * sym("ml"), b - (1 - c) * sym("ml"))] \
                    + want

            def rng(ip, args, kw):
                d = dict(zip(["c", "w", "b", "x_coeffs", "binary_coeffs",
                              "constants", "xhat"], args))
                d.update(kw)
                got = [(list(ip.cells(x)), bl.scalar(ip, y), bl.scalar(
                    ip, z)) for x, y, z in zip(ip.iterate(d["x_coeffs"]),
                                               ip.iterate(
                                                   d["binary_coeffs"]),
                                               ip.iterate(d["constants"]))]
                form = lambda l: sorted(str([str(Rat.of(v)) for v in
                                             list(a) + [e, f]])
                                        for a, e, f in l)
                ck.ob("%s.range%d" % (key, len(calls)), form(got) == form(
                    known()), "the range of beta uses the big-M rows and "
                    "the cuts so far", "", w_)
                calls.append(list(ip.cells(d["xhat"])))
                k = len(calls)
                return (tensor0(ip, sym("bl%d" % k)), tensor0(
                    ip, sym("bu%d" % k)))
            ip.hooks[MU + "._compute_beta_range"] = rng
            pts = []

            def find(ip, args, kw):
                d = dict(zip(["w", "lo", "up", "xhat", "beta_hat"], args))
                d.update(kw)
                pts.append((list(ip.cells(d["xhat"])), bl.scalar(
                    ip, d["beta_hat"])))
                return ip.new_set([len(pts) - 1])
            ip.hooks[MU + ".find_index_set_to_strengthen"] = find

            def facet(ip, args, kw):
                d = dict(zip(["c", "w", "b", "lo", "up", "indices"], args))
                d.update(kw)
                k = ip.iterate(d["indices"])[0]
                x, be = pts[k]
                a, bc = vec("a%d_" % k, n), sym("f%d" % k)
                old = None
                for (p, e, f) in known():
                    v = p[0] * x[0] + p[1] * x[1] + e * be + f
                    old = v if old is None else poly.min2(old, v)
                if not num:
                    poly.set_bounds("d%d" % k, 1, None)
                at = a[0] * x[0] + a[1] * x[1] + bc * be
                new = old - sym("d%d" % k) if seq[k] == "T" else \
                    old + sym("d%d" % k)
                if seq[k] == "T":
                    want.append((a, bc, new - at))
                return (T(ip, a), tensor0(ip, bc), tensor0(ip, new - at))
            ip.hooks[MU + ".strengthen_relu_mip_w_indices"] = facet
            r = ip.iterate(ip.call(ip.get(MU, fn), [
                c, T(ip, w), tensor0(ip, b), T(ip, lo), T(ip, up),
                tensor0(ip, sym("ml")), tensor0(ip, sym("mu")), True], {}))
            ck.ob(key + ".points", [str(p) for p in pts] == [
                str((v, sym("%s%d" % (e, k + 1)))) for k, v in enumerate(vs)
                for e in ("bl", "bu")], "cuts are sought at both ends of "
                "the range of beta at each vertex", str(pts), w_)
            rows_ob(ck, ip, key, r, want, n, w_)
        ck.attempt(key, go, where=w_)


def beta_range(ck):
    fn = "_compute_beta_range"
    w_ = where(ck.repo, MU, fn)
    for sl, sg in itertools.product(("relu", "leaky"), (
            "", "+", "-", "0", "+-", "-+", "++", "--", "+0-")):
        key = "beta.%s.%s" % (sl, sg)

        def go(sl=sl, sg=sg, key=key):
            poly.clear_bounds()
            ip = ck.interp()
            c = slope(sl)
            n = 2
            w, b, x = vec("w", n), sym("b"), vec("x", n)
            bc = signed("f", sg)
            A = [vec("a%d_" % k, n) for k in range(len(sg))]
            k = vec("k", len(sg))
            r = ip.iterate(ip.call(ip.get(MU, fn), [
                c, T(ip, w), tensor0(ip, b),
                ip.new_list([T(ip, a) for a in A]),
                ip.new_list([tensor0(ip, v) for v in bc]),
                ip.new_list([tensor0(ip, v) for v in k]), T(ip, x)], {}))
            pre = w[0] * x[0] + w[1] * x[1] + b
            y = poly.max2(pre, c * pre)
            lo, up = Z, ONE
            for i, s in enumerate(sg):
                e = y - A[i][0] * x[0] - A[i][1] * x[1] - k[i]
                if s == "+":
                    lo = poly.max2(lo, e / bc[i])
                elif s == "-":
                    up = poly.min2(up, e / bc[i])
            ck.eq(key + ".lo", bl.scalar(ip, r[0]), lo, "smallest beta "
                  "satisfying every row", w_)
            ck.eq(key + ".up", bl.scalar(ip, r[1]), up, "largest beta "
                  "satisfying every row", w_)
        ck.attempt(key, go, where=w_)


def vertices(ck):
    fn = "_get_linear_input_vertices"
    w_ = where(ck.repo, MU, fn)
    for pat in ("+", "-", "++", "+-", "-+", "--"):
        for a, z in (((0, 1), (0, 1)), ((1, 4), (0, 1)), ((0, 1), (1, 4)),
                     ((1, 4), (1, 4)), ((1, 2), (0, 1)), ((0, 1), (1, 2))):
            key = "vertices.%s.%d-%d.%d-%d" % ((pat, ) + a + z)

            def go(pat=pat, a=a, z=z, key=key):
                poly.clear_bounds()
                ip = ck.interp()
                n = len(pat)
                w, b = signed("w", pat), sym("b")
                # |w_i| (up_i - lo_i) = m s_i with s = 1, 2: the values of
                # w x + b at the vertices are L + m {0, 1, 2, 3}
                poly.set_bounds("m", 0, None, True)
                m = sym("m")
                lo, up = vec("lo", n), []
                for i in range(n):
                    s = ONE if pat[i] == "+" else -ONE
                    up.append(lo[i] + m * Rat.of(i + 1) * s / w[i])
                L, U = bl.ia(w, 1, [b], lo, up, [pat])
                tot = U[0] - L[0]
                rl, ru = L[0] + q(*a) * tot, U[0] - q(*z) * tot
                r = ip.iterate(ip.call(ip.get(MU, fn), [
                    T(ip, lo), T(ip, up), T(ip, w), tensor0(ip, b),
                    tensor0(ip, rl), tensor0(ip, ru)], {}))
                want = []
                for ch in itertools.product((0, 1), repeat=n):
                    # position above L in units of m
                    pos = sum((i + 1) * (k if pat[i] == "+" else 1 - k)
                              for i, k in enumerate(ch))
                    T_ = n * (n + 1) // 2
                    if pos >= q(*a) * T_ and pos <= T_ - q(*z) * T_:
                        want.append([up[i] if k else lo[i]
                                     for i, k in enumerate(ch)])
                got = sorted(str([str(v) for v in ip.cells(t)]) for t in r)
                exp = sorted(str([str(v) for v in t]) for t in want)
                ck.ob(key, got == exp, "the vertices of the box whose ReLU "
                      "input lies in its range", "%s, expected %s" % (
                          got, exp), w_)
            ck.attempt(key, go, where=w_)


def max_y(ck):
    fn = "_max_y_given_linear_input"
    w_ = where(ck.repo, MU, fn)
    for sl, nr in itertools.product(("relu", "leaky"), (1, 2, 3)):
        key = "maxy.%s.%d" % (sl, nr)

        def go(sl=sl, nr=nr, key=key):
            poly.clear_bounds()
            ip = ck.interp()
            c = slope(sl)
            w, b, x = vec("w", 2), sym("b"), vec("x", 2)
            A = [vec("a%d_" % k, 2) for k in range(nr)]
            f, k = vec("f", nr), vec("k", nr)
            ip.grb_given = True
            ip.grb_var_result = lambda ip, o, kind: poly.fn(
                "value", gm.vsym(ip, o))
            r = ip.iterate(ip.call(ip.get(MU, fn), [
                c, T(ip, w), tensor0(ip, b), T(ip, sum(A, []), (nr, 2)),
                T(ip, f), T(ip, k), T(ip, x)], {}))
            ms = [e[2] for e in ip.events if e[0] == "grb-optimize"]
            ck.ob(key + ".solved", len(ms) == 1, "one program", "", w_)
            m = ms[0]
            vs = gm.variables(ip, m)
            obj, s = gm.objective(ip, m)
            ck.ob(key + ".sense", s == MAX, "maximised", "", w_)
            y = str(obj)
            pre = w[0] * x[0] + w[1] * x[1] + b
            be = [v for v in vs if v[0] != y]
            yv = [v for v in vs if v[0] == y]
            ck.ob(key + ".variables", len(be) == 1 and len(yv) == 1 and
                  be[0][1] == Z and be[0][2] == ONE and be[0][3] == "C" and
                  yv[0][3] == "C" and poly._is_inf(yv[0][2]),
                  "y, and beta in [0, 1]", str(vs), w_)
            if len(be) != 1 or len(yv) != 1:
                return
            ck.eq(key + ".lower", yv[0][1], poly.max2(pre, c * pre),
                  "y is at least the leaky ReLU of its input", w_)
            B = sym(be[0][0])
            rows = [(-e, "<") if o == ">" else (e, o)
                    for e, o, _, _ in gm.rows(ip, m)]
            bl.same_rows(ck, key + ".rows", rows, [
                (sym(y) - f[i] * B - A[i][0] * x[0] - A[i][1] * x[1] - k[i],
                 "<") for i in range(nr)], "y is below every row", w_)
            ck.eq(key + ".y", bl.scalar(ip, r[0]), poly.fn("value", sym(y)),
                  "the optimal y", w_)
            ck.eq(key + ".beta", bl.scalar(ip, r[1]), poly.fn("value", B),
                  "the optimal beta", w_)
        ck.attempt(key, go, where=w_)


# ------------------------------------------------------------- LP ranges
def ranges(ck):
    fn = "compute_range_by_lp"
    w_ = where(ck.repo, MU, fn)
    st = gm.STATUS

    def run(ip, C=True, lb=True, ub=True, ny=2, nx=2, nc=3):
        A, b = vec("A", ny * nx), vec("b", ny)
        P, d = vec("C", nc * nx), vec("d", nc)
        lo, up = vec("lo", nx), vec("up", nx)
        N = lambda v, sh: ip.new_arr(sh, list(v), "np", "float")
        args = [N(A, (ny, nx)), N(b, (ny, )), N(lo, (nx, )) if lb else None,
                N(up, (nx, )) if ub else None,
                N(P, (nc, nx)) if C else None, N(d, (nc, )) if C else None]
        r = ip.iterate(ip.call(ip.get(MU, fn), args, {}))
        return A, b, P, d, lo, up, r, args

    for C, lb, ub, (ny, nx, nc) in itertools.product(
            (True, False), (True, False), (True, False),
            ((1, 2, 3), (2, 2, 1), (3, 1, 2))):
        key = "lp.%d%d%d.%d%d%d" % (C, lb, ub, ny, nx, nc)

        def go(C=C, lb=lb, ub=ub, ny=ny, nx=nx, nc=nc, key=key):
            poly.clear_bounds()
            ip = ck.interp()
            seen = []

            def res(ip, o, kind):
                if kind != "obj":
                    return None
                e, s = gm.objective(ip, o)
                seen.append((e, s, [(-a, "<") if op == ">" else (a, op)
                                    for a, op, _, _ in gm.rows(ip, o)],
                             gm.variables(ip, o)))
                return poly.fn("opt", "max" if s == MAX else "min",
                               rename(e, seen[-1][3]))

            def rename(e, vs):
                nm = {v[0]: "var%d" % i for i, v in enumerate(vs)}
                return poly.subst(e, lambda a: sym(nm[a.name])
                                  if a.kind == "sym" and a.name in nm
                                  else None)
            ip.grb_result = res
            A, b, P, d, lo, up, r, args = run(ip, C, lb, ub, ny, nx, nc)
            ck.ob(key + ".count", len(r) == 2, "lower and upper bounds",
                  str(len(r)), w_)
            v = [sym("var%d" % j) for j in range(nx)]
            y = [sum((A[i * nx + j] * v[j] for j in range(nx)), b[i])
                 for i in range(ny)]
            ck.eq_arr(ip, key + ".lo", r[0], [poly.fn("opt", "min", e)
                                              for e in y],
                      "the lower bound is the minimum of the row", w_)
            ck.eq_arr(ip, key + ".up", r[1], [poly.fn("opt", "max", e)
                                              for e in y],
                      "the upper bound is the maximum of the row", w_)
            for n, (e, s, rows, vs) in enumerate(seen):
                want = [(sum((P[i * nx + j] * v[j] for j in range(nx)), Z) -
                         d[i], "<") for i in range(nc)] if C else []
                bl.same_rows(ck, "%s.rows%d" % (key, n), [
                    (rename(x, vs), o) for x, o in rows], want,
                    "x ranges over {C x <= d}", w_)
                ok = len(vs) == nx and all(
                    q_[3] == "C" and (
                        Rat.of(q_[1]) == lo[j] if lb else
                        poly._is_inf(-q_[1])) and (
                        Rat.of(q_[2]) == up[j] if ub else
                        poly._is_inf(q_[2]))
                    for j, q_ in enumerate(vs))
                ck.ob("%s.vars%d" % (key, n), ok, "x ranges over its box",
                      str(vs), w_)
        ck.attempt(key, go, where=w_)
    for a, z in itertools.product(st, st):
        known = ("OPTIMAL", "INFEASIBLE", "UNBOUNDED")
        if not ck.deep and a not in known and z not in known:
            continue
        key = "lp.status.%s.%s" % (a, z)

        def go(a=a, z=z, key=key):
            poly.clear_bounds()
            ip = ck.interp()
            ip.grb_status = lambda ip, o: st[
                a if gm.objective(ip, o)[1] == MAX else z]
            ip.grb_result = lambda ip, o, k: sym(
                "opt%d" % gm.objective(ip, o)[1]) if k == "obj" else None
            try:
                r = run(ip, ny=1, nx=2, nc=1)[6]
                r = [bl.scalar(ip, v) for v in r]
            except AbsRaise:
                r = None
            if a not in known or z not in known:
                ck.ob(key, r is None, "no range is reported for a program "
                      "that was not solved", str(r), w_)
                return
            if r is None:
                ck.ob(key, "INFEASIBLE" in (a, z), "a solved program has a "
                      "range", "refused", w_)
                return
            want = {"OPTIMAL": lambda s: sym("opt%d" % s),
                    "INFEASIBLE": lambda s: INF * s,
                    "UNBOUNDED": lambda s: -INF * s}
            ck.eq(key + ".lo", r[0], want[z](MIN), "lower bound for the "
                  "solver status", w_)
            ck.eq(key + ".up", r[1], want[a](MAX), "upper bound for the "
                  "solver status", w_)
        ck.attempt(key, go, where=w_)


# --------------------------------------------------- networks at a point
class Case:
    """a network with sign-known weights and a point at which every
    comparison is decided; viol[u]: whether unit u violates its best cut"""
    def __init__(self, ip, sizes, sl, viol, bias=True, seed=0):
        self.ip, self.sizes = ip, sizes
        ps = ["+-+", "-++", "++-", "--+"]
        self.pat, W, b, self.c = [], [], [], []
        nl = len(sizes) - 1
        for k in range(nl):
            pat = [ps[(i + k + seed) % 4][:sizes[k]]
                   for i in range(sizes[k + 1])]
            self.pat.append(pat)
            W.append(bl.matrix("W%d" % k, pat))
            b.append(vec("b%d_" % k, sizes[k + 1]) if bias else None)
        for k in range(nl - 1):
            poly.set_bounds("c%d" % k, 0, 1, True, True)
            self.c.append(None if sl == "relu" or sl == "mixed" and k % 2
                          else sym("c%d" % k))
        self.net = Net(ip, sizes, W, b, self.c)
        self.beta, self.lo, self.up, self.val = [], [], [], []
        fr = [q(1, 5), q(7, 10), q(2, 5), q(9, 10), q(3, 10)]
        bt = [q(1, 3), q(2, 3), q(1, 2), q(1, 4), q(3, 4)]
        self.t = []
        n = sum(sizes[:-1])
        for i in range(n):
            poly.set_bounds("g%d" % i, 0, None, True)
            self.t.append(fr[(i + seed) % 5])
        x = vec("p", sizes[0])
        self.val = list(x)
        self.rows = []
        u = 0
        off = 0
        nu = sum(sizes[1:-1])
        self.nu = nu
        self._bounds(0, sizes[0])
        for k in range(nl - 1):
            prev = list(range(off, off + sizes[k]))
            new = []
            for j in range(sizes[k + 1]):
                be = bt[(u + 2 * seed) % 5]
                self.beta.append(be)
                c = Z if self.c[k] is None else self.c[k]
                w, pt = self.net.w(k, j), self.pat[k][j]
                lo = [self.lo[i] for i in prev]
                up = [self.up[i] for i in prev]
                I = {i for i in range(len(prev))
                     if w_le(pt[i], self.t[prev[i]], be)}
                a, bc, cc = cut(c, w, self.net.bias(k, j), pt, lo, up, I)
                at = sum((a[i] * self.val[prev[i]]
                          for i in range(len(prev))), cc) + bc * be
                poly.set_bounds("d%d" % u, 1, None)
                d = sym("d%d" % u)
                new.append(at + d if viol[u] else at - d)
                if viol[u]:
                    r = {}
                    for i, p in enumerate(prev):
                        r["i%d" % p if k == 0 else
                          "s%d" % (p - sizes[0])] = -a[i]
                    r["s%d" % u] = ONE
                    r["b%d" % u] = -bc
                    self.rows.append((r, cc))
                u += 1
            off += sizes[k]
            self.val += new
            self._bounds(off, sizes[k + 1])

    def _bounds(self, off, n):
        for i in range(off, off + n):
            if i >= len(self.t):
                # bounds of the last hidden layer's outputs are unused
                self.t.append(q(1, 2))
                poly.set_bounds("g%d" % i, 0, None, True)
            self.lo.append(self.val[i] - self.t[i] * sym("g%d" % i))
            self.up.append(self.lo[i] + sym("g%d" % i))

    def pattern(self):
        return self.ip.call(self.ip.get(RO, "ReLUFreePattern"),
                            [self.net.seq, F64], {})

    def expr(self, names):
        """cut rows over the given variable symbols"""
        out = []
        for r, k in self.rows:
            e = -k
            for n, v in r.items():
                e = e + v * names[n]
            out.append((e, "<"))
        return out


NETS = [((2, 2, 1), "relu"), ((2, 2, 1), "leaky"), ((1, 2, 2, 1), "leaky"),
        ((2, 1, 2, 2), "mixed"), ((3, 1, 1), "relu"), ((1, 1, 1, 1, 1),
                                                       "mixed")]


def cases(ck):
    for sizes, sl in NETS:
        nu = sum(sizes[1:-1])
        vs = list(itertools.product((0, 1), repeat=nu))
        if len(vs) > 8 and not ck.deep:
            vs = [v for i, v in enumerate(vs) if i % 3 == 0 or
                  sum(v) in (0, nu)]
        for v in vs:
            for bias in ((True, False) if sum(v) == nu else (True, )):
                for seed in ((0, 1) if sum(v) else (0, )):
                    yield sizes, sl, v, bias, seed


def network(ck):
    fn = "ReLUFreePattern.strengthen_mip_at_point"
    w_ = where(ck.repo, RO, fn)
    w2 = where(ck.repo, RO, "ReLUFreePattern."
               "strengthen_relu_mip_at_solution")
    for sizes, sl, viol, bias, seed in cases(ck):
        key = "%s.%s.%s.b%d.%d" % ("-".join(map(str, sizes)), sl, "".join(
            map(str, viol)), bias, seed)

        def go(sizes=sizes, sl=sl, viol=viol, bias=bias, seed=seed, key=key):
            poly.clear_bounds()
            ip = ck.interp()
            K = Case(ip, sizes, sl, viol, bias, seed)
            fp = K.pattern()
            n = sizes[0]
            r = ip.iterate(ip.call(
                ip.getattr(fp, "strengthen_mip_at_point"), [
                    (T(ip, K.val), T(ip, K.beta)), T(ip, K.lo),
                    T(ip, K.up)], {}))
            if not any(viol):
                ck.ob("point." + key, all(v is None or isinstance(v, Arr) and
                                          v.shape[0] == 0 for v in r),
                      "no cut if none is violated", str(r), w_)
                return
            nr = sum(viol)
            sh = [tuple(v.shape) if isinstance(v, Arr) else v for v in r]
            ok = sh == [(nr, n), (nr, K.nu), (nr, K.nu), (nr, )]
            ck.ob("point.%s.shape" % key, ok, "one row per violated cut",
                  str(sh), w_)
            if not ok:
                return
            C = [ip.cells(v) for v in r]
            got = []
            for i in range(nr):
                e = -Rat.of(C[3][i])
                for m, (pre, width) in zip(C, (("i", n), ("s", K.nu),
                                               ("b", K.nu))):
                    for j in range(width):
                        e = e + Rat.of(m[i * width + j]) * sym(
                            "%s%d" % (pre, j))
                got.append((e, "<"))
            names = {p + str(j): sym(p + str(j)) for p in "isb"
                     for j in range(max(n, K.nu))}
            bl.same_rows(ck, "point.%s.rows" % key, got, K.expr(names),
                         "exactly the violated best cuts, on the unit's own "
                         "input, output and activation", w_)
        ck.attempt("point." + key, go, where=w_)
        if seed or not bias:
            continue

        def sol(sizes=sizes, sl=sl, viol=viol, key=key):
            poly.clear_bounds()
            ip = ck.interp()
            K = Case(ip, sizes, sl, viol)
            fp = K.pattern()
            mip = new_mip(ip)
            n = sizes[0]
            other = newvars(ip, mip, 1, "o")
            x, s, b = (newvars(ip, mip, n, "x"), newvars(ip, mip, K.nu, "s"),
                       newvars(ip, mip, K.nu, "b"))
            val = dict(zip(map(str, x[0] + s[0] + b[0]), map(
                Rat.of, K.val[:n + K.nu] + K.beta)))
            ip.grb_given = True
            ip.grb_var_result = lambda ip, o, kind: val.get(
                str(gm.vsym(ip, o)))
            ret = ip.call(ip.get(RO, "ReLUMixedIntegerConstraintsReturn"),
                          [], {})
            for f, a, z in (("nn_input", 0, n), ("relu_output", n, n +
                                                 K.nu)):
                for e, l in (("lo", K.lo), ("up", K.up)):
                    ip.setattr(ret, "%s_%s" % (f, e), T(ip, l[a:z]))
            for f in ("relu_input_lo", "relu_input_up"):
                ip.setattr(ret, f, T(ip, vec(f, K.nu)))
            ip.call(ip.getattr(fp, "strengthen_relu_mip_at_solution"),
                    [mip, x[1], s[1], b[1], ret], {})
            names = {}
            for p, l in (("i", x[0]), ("s", s[0]), ("b", b[0])):
                for j, v in enumerate(l):
                    names[p + str(j)] = v
            m = ip.getattr(mip, "gurobi_model")
            rows = [(-e, "<") if o == ">" else (e, o)
                    for e, o, _, _ in gm.rows(ip, m)]
            bl.same_rows(ck, "solution.%s.rows" % key, rows, K.expr(names),
                         "exactly the cuts violated by the solution are "
                         "added", w2)
        ck.attempt("solution." + key, sol, where=w2)


# ---------------------------------------------- the derivative program
def derivative(ck):
    """strengthen_lyapunov_derivative_as_milp"""
    name = "strengthen_lyapunov_derivative_as_milp"
    w_ = where(ck.repo, LY, c13.CLS + "." + name)
    lam, eps = c13.lam, c13.eps
    for R, et, npts, lu in itertools.product(
            (True, False), ("ExpLower", "ExpUpper", "Asymp"), (0, 1, 2),
            (0, 3)):
        if not R and (npts != 1 or lu):
            continue
        key = "deriv.R%d.%s.%d.%d" % (R, et, npts, lu)

        def go(R=R, et=et, npts=npts, lu=lu, key=key):
            progs = []
            for st in (False, True):
                S = c13.Setup(ck, R)
                ip = S.ip
                kw = {"R": S.R}
                if lu:
                    kw["lyapunov_lower"] = sym("vlow")
                    kw["lyapunov_upper"] = sym("vupp")
                a = [S.xeq, lam, eps, ip.getattr(ip.get(
                    LY, "ConvergenceEps"), et)]
                calls = []

                def cuts(ip, args, k_, calls=calls):
                    d = dict(zip(["self", "prog", "x_var", "slack_var",
                                  "binary_var", "relu_mip_cnstr_return"],
                                 args))
                    d.update(k_)
                    m = ip.getattr(d["prog"], "gurobi_model")
                    solved = len([e for e in ip.events
                                  if e[0] == "grb-optimize" and e[2] == m])
                    calls.append((ip.attrs(ip.getattr(d["self"], "model"))[
                        "_tag"], d["prog"], [lists(ip, d[f]) for f in (
                            "x_var", "slack_var", "binary_var")],
                        d["relu_mip_cnstr_return"], solved,
                        [v[3] for v in gm.variables(ip, m)]))
                    return None
                ip.hooks[RO + ".ReLUFreePattern."
                         "strengthen_relu_mip_at_solution"] = cuts
                if st:
                    ret = S.m(name, *(a + [npts]), **kw)
                else:
                    ret = S.m("lyapunov_derivative_as_milp", *a, **kw)
                mip = ip.getattr(ret, "milp")
                m = ip.getattr(mip, "gurobi_model")
                ip.call(ip.getattr(m, "update"), [], {})
                rows = [(-e, "<") if o == ">" else (e, o)
                        for e, o, _, _ in gm.rows(ip, m)]
                f = lambda n, ret=ret, ip=ip: lists(ip, ip.getattr(ret, n))
                progs.append((rows, [v[:4] for v in gm.variables(ip, m)],
                              gm.objective(ip, m), calls, ip, S, mip, f,
                              ret))
            (r0, v0, o0, _, _, _, _, _, _), (r1, v1, o1, calls, ip, S, mip,
                                             f, ret) = progs
            # variables are made in the same order: same names
            ck.ob(key + ".variables", [str(v) for v in v0] == [
                str(v) for v in v1], "the binaries are binary again and no "
                "variable is added", str([a for a, b in zip(v0, v1)
                                          if str(a) != str(b)][:2]), w_)
            bl.same_rows(ck, key + ".rows", r1, r0, "apart from the cuts the "
                         "program is the derivative program", w_)
            ck.ob(key + ".objective", str(o0) == str(o1), "the objective is "
                  "that of the derivative program", "", w_)
            ck.ob(key + ".calls", len(calls) == 2 * npts and all(
                c[0] == "phi" and c[1] == mip for c in calls),
                "each round strengthens the two network encodings of V",
                str([c[0] for c in calls]), w_)
            enc = {"x": [f("x"), f("z"), f("beta")],
                   "x_next": [f("x_next"), f("z_next"), f("beta_next")]}
            for n, c in enumerate(calls):
                who = [k for k, v in enc.items() if str(v) == str(c[2])]
                ck.ob("%s.own%d" % (key, n), len(who) == 1 and
                      c[3] == ip.getattr(ret, "lyap_relu_%s_mip_cnstr_ret" %
                                         who[0]), "an encoding is "
                      "strengthened with its own variables and bounds",
                      str(c[2]), w_)
                ck.ob("%s.solved%d" % (key, n), c[4] == n // 2 + 1,
                      "the relaxation is solved before each round",
                      "%d solves" % c[4], w_)
                ck.ob("%s.relaxed%d" % (key, n), "B" not in c[5],
                      "cuts are sought at a solution of the relaxation",
                      str(c[5]), w_)
        ck.attempt(key, go, where=w_)
    for st in gm.STATUS:
        key = "deriv.status." + st

        def bad(st=st, key=key):
            S = c13.Setup(ck, True)
            ip = S.ip
            ip.grb_status = lambda ip, o: gm.STATUS[st]
            used = []
            ip.hooks[RO + ".ReLUFreePattern."
                     "strengthen_relu_mip_at_solution"] = \
                lambda ip, a, k: used.append(1)
            try:
                S.m(name, S.xeq, lam, eps, ip.getattr(ip.get(
                    LY, "ConvergenceEps"), "ExpLower"), 1, R=S.R)
            except AbsRaise:
                pass
            ck.ob(key, bool(used) == (st == "OPTIMAL"), "cuts are sought "
                  "only at an optimal solution", "", w_)
        ck.attempt(key, bad, where=w_)


def binaries(ck):
    """strengthen_lyapunov_derivative_milp_binary"""
    name = "strengthen_lyapunov_derivative_milp_binary"
    w_ = where(ck.repo, LY, c13.CLS + "." + name)
    kinds = ("both", "act", "inact", "nact", "ninact")
    sts = sorted(gm.STATUS)
    runs = [(("both", "both"), (a, b)) for a, b in itertools.product(
        ("INFEASIBLE", "OPTIMAL", "SOLUTION_LIMIT"), repeat=2)]
    runs += [(("both", ), (s, )) for s in sts]
    runs += [((k, "both"), ("INFEASIBLE", s)) for k in kinds
             for s in ("INFEASIBLE", "OPTIMAL")]
    runs += [(("both", "both", "both"), ("INFEASIBLE", "OPTIMAL",
                                         "INFEASIBLE"))]
    for ks, ss in runs:
        for opts in (False, True):
            key = "binary.%s.%s.%d" % ("-".join(ks), "-".join(ss), opts)

            def go(ks=ks, ss=ss, opts=opts, key=key):
                S = c13.Setup(ck, True)
                ip = S.ip
                n = len(ks)
                mip = ip.call(ip.get("gurobi_torch_mip", "GurobiTorchMILP"),
                              [F64], {})
                m = ip.getattr(mip, "gurobi_model")
                x = newvars(ip, mip, 2, "x")
                b, bn = newvars(ip, mip, n, "b"), newvars(ip, mip, n, "bn")
                ip.call(ip.getattr(mip, "addLConstr"), [
                    ip.new_list([T(ip, vec("a", 2))]),
                    ip.new_list([x[1]])],
                    {"rhs": sym("rhs"), "sense": "<"})
                ip.call(ip.getattr(mip, "setObjective"), [
                    ip.new_list([T(ip, vec("o", 2))]), ip.new_list([x[1]]),
                    sym("o2"), MAX], {})
                obj = gm.objective(ip, m)
                base = rows_of(ip, m)
                lo = {"both": (-1, 1, -1, 1), "act": (0, 1, -1, 1),
                      "inact": (-1, 0, -1, 1), "nact": (-1, 1, 0, 1),
                      "ninact": (-1, 1, -1, 0)}
                rr = [ip.call(ip.get(
                    RO, "ReLUMixedIntegerConstraintsReturn"), [], {})
                    for _ in range(2)]
                for k, (p, e) in enumerate(itertools.product(
                        (0, 1), ("lo", "up"))):
                    ip.setattr(rr[p], "relu_input_" + e, T(ip, [
                        Rat.of(lo[t][k]) * sym_pos("r%d_%d" % (k, i))
                        for i, t in enumerate(ks)]))
                ret = ip.new_obj(ExtV("sa.Return"), {
                    "milp": mip, "beta": b[1], "beta_next": bn[1],
                    "lyap_relu_x_mip_cnstr_ret": rr[0],
                    "lyap_relu_x_next_mip_cnstr_ret": rr[1]})
                tried = []

                def unit(rows):
                    for e, o in rows:
                        if o == "=":
                            for i in range(n):
                                if e in (b[0][i] + bn[0][i] - 1,
                                         1 - b[0][i] - bn[0][i]):
                                    yield i

                def status(ip, o):
                    rows = rows_of(ip, o)
                    us = list(unit(rows))
                    tried.append((us, rows, gm.objective(ip, o)))
                    return gm.STATUS[ss[us[0]] if len(us) == 1
                                     else "OPTIMAL"]
                ip.grb_status = status
                a = [ret]
                if opts:
                    a.append(ip.new_dict({"TimeLimit": Rat.of(7),
                                          "OutputFlag": 0}))
                S.m(name, *a)
                want = list(base)
                for us, rows, o in tried:
                    ck.ob("%s.try%d" % (key, len(want)), len(us) == 1,
                          "one pair of binaries is tested at a time",
                          str(us), w_)
                    if len(us) != 1:
                        return
                    i = us[0]
                    bl.same_rows(ck, "%s.test%d" % (key, i), rows, want + [
                        (b[0][i] + bn[0][i] - 1, "="),
                        (-obj[0], "<")], "a pair is tested with opposite "
                        "values at states with nonnegative objective", w_)
                    if ss[i] == "INFEASIBLE":
                        want.append((b[0][i] - bn[0][i], "="))
                ck.ob(key + ".tested", sorted(t[0][0] for t in tried) ==
                      [i for i, k in enumerate(ks) if k == "both"],
                      "pairs whose units can both switch are tested",
                      str([t[0] for t in tried]), w_)
                bl.same_rows(ck, key + ".rows", rows_of(ip, m), want,
                             "binaries are tied iff opposite values were "
                             "proved infeasible; nothing else is left "
                             "behind", w_)
                ck.ob(key + ".objective", str(gm.objective(ip, m)) ==
                      str(obj), "the objective is unchanged", "", w_)
                ps = ip.items(ip.attrs(m)["_params"])
                bad = [p for p in ps if Rat.of(ps[p]) != sym(
                    "default:%s" % p)] if tried else []
                ck.ob(key + ".params", not bad, "solver parameters are "
                      "restored", str(bad), w_)
            ck.attempt(key, go, where=w_)


def sym_pos(n):
    poly.set_bounds(n, 0, None, True)
    return sym(n)


def rows_of(ip, m):
    return [(-e, "<") if o == ">" else (e, o)
            for e, o, _, _ in gm.rows(ip, m)]


def check(ck):
    facets(ck)
    choose(ck)
    at_points(ck)
    every(ck)
    selective(ck)
    beta_range(ck)
    vertices(ck)
    max_y(ck)
    ranges(ck)
    network(ck)
    derivative(ck)
    binaries(ck)
