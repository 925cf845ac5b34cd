"""Parametrizations of the matrix R of the Lyapunov candidates."""
from .. import poly
from ..poly import Rat
from ..values import AbsRaise, Arr
from .common import sym, where

TITLE = "R parametrizations yield the documented full-rank matrix"
EXPLANATION = (
    "The R option classes are evaluated on symbolic variables, matrices and "
    "scalars for square, tall and wide sizes. R() is compared, as normal "
    "forms, with [L L' + eps I; bottom], U S V with S_ii = a_i + v_i^2, the "
    "free and the fixed matrix; setting a value and reading R back with that "
    "value; the tensors handed to the optimizer with those R() reads; wrong "
    "sizes, types and out-of-range values are refused.")
ASSUMPTIONS = ("real arithmetic; numpy.linalg.cholesky / svd return the "
               "factors of the matrix they are given", )
MIN_OBS = 60
M = "r_options"
Z, ONE = Rat.const(0), Rat.const(1)


def npa(ip, shape, cells):
    return ip.new_arr(shape, [Rat.of(c) for c in cells], "np", "float")


def cells2(ip, a, shape):
    """rows of a 2-D array, or None when the shape is another"""
    if not isinstance(a, Arr) or tuple(a.shape) != tuple(shape):
        return None
    c = ip.cells(a)
    return [c[i * shape[1]:(i + 1) * shape[1]] for i in range(shape[0])]


def matmul(a, b):
    return [[sum((a[i][k] * b[k][j] for k in range(len(b))), Z)
             for j in range(len(b[0]))] for i in range(len(a))]


def tr(a):
    return [list(r) for r in zip(*a)]


def R_is(ck, ip, key, o, want, rule, w):
    r = ip.call(ip.getattr(o, "R"), [], {})
    shape = (len(want), len(want[0]))
    got = cells2(ip, r, shape)
    if got is None:
        ck.ob(key, False, rule, "shape %s, expected %s" % (
            getattr(r, "shape", r), shape), w)
        return
    for i in range(shape[0]):
        for j in range(shape[1]):
            ck.eq("%s[%d,%d]" % (key, i, j), got[i][j], want[i][j], rule, w)


def variables(ck, ip, key, o, w, n=1):
    """-> the tensors handed to the optimizer; they require gradients"""
    v = list(ip.iterate(ip.call(ip.getattr(o, "variables"), [], {})))
    ck.ob(key + ".variables", len(v) == n, "variables() lists the searched "
          "tensors", "%d, expected %d" % (len(v), n), w)
    for t in v:
        ck.ob(key + ".grad", ip.truth(ip.getattr(t, "requires_grad")) is True,
              "searched tensors require a gradient", "", w)
        ck.ob(key + ".torch", t.lib == "torch", "searched tensors are "
              "tensors", t.lib, w)
    return v


def live(ck, ip, key, o, f, w):
    """an in-place update of the listed variables changes R()"""
    v = list(ip.iterate(ip.call(ip.getattr(o, "variables"), [], {})))
    if len(v) != 1:
        return
    new = [sym("nv%d" % i) for i in range(v[0].size)]
    ip.store_cells(v[0], new)
    R_is(ck, ip, key + ".live", o, f(new), "R() is a function of the "
         "listed variables", w)


def refuse(ck, key, f, rule, w):
    try:
        f()
    except AbsRaise:
        return ck.ob(key, True, rule, "", w)
    return ck.ob(key, False, rule, "accepted", w)


def fixed_flag(ck, ip, key, o, want, w):
    ck.ob(key + ".fixed_R", ip.truth(ip.getattr(o, "fixed_R")) is want,
          "fixed_R tells whether R is searched", "", w)


def params(ck, ip, key, o, want, w):
    d = dict(ip.items(ip.call(ip.getattr(o, "extract_params"), [], {})))
    d = {getattr(k, "v", k): v for k, v in d.items()}
    for n, f in want.items():
        if n not in d:
            ck.ob("%s.params.%s" % (key, n), False, "extract_params reports "
                  "the parameters", "missing", w)
            continue
        got = d[n]
        if isinstance(got, Arr):
            ck.eq_arr(ip, "%s.params.%s" % (key, n), got, f,
                      "extract_params reports the parameters", w)
        elif isinstance(f, tuple):
            ck.ob("%s.params.%s" % (key, n), tuple(ip.iterate(got)) == f,
                  "extract_params reports the parameters", str(got), w)
        else:
            ck.eq("%s.params.%s" % (key, n), got, f, "extract_params "
                  "reports the parameters", w)


# --------------------------------------------------------------------- SPD
def lower(v, n):
    """variables, column by column -> lower triangular L"""
    L = [[Z] * n for _ in range(n)]
    k = 0
    for j in range(n):
        for i in range(j, n):
            L[i][j] = v[k]
            k += 1
    return L, v[k:]


def spd_R(v, m, n, eps):
    L, rest = lower(v, n)
    top = matmul(L, tr(L))
    for i in range(n):
        top[i][i] = top[i][i] + eps
    return top + [rest[i * n:(i + 1) * n] for i in range(m - n)]


def spd(ck):
    cls = "SearchRwithSPDOptions"
    w = where(ck.repo, M, cls)
    for m, n in ((1, 1), (2, 2), (3, 2), (3, 3), (5, 3), (2, 1)):
        nv = n * (n + 1) // 2 + (m - n) * n
        key = "spd.%dx%d" % (m, n)

        def make():
            ip = ck.interp()
            poly.set_bounds("eps", 0, None, True)
            return ip, ip.call(ip.get(M, cls), [(m, n), sym("eps")], {})

        def direct():
            ip, o = make()
            v = [sym("v%d" % i) for i in range(nv)]
            t = variables(ck, ip, key, o, w)
            ck.ob(key + ".number", len(t) == 1 and t[0].size == nv,
                  "one variable per entry of L and of the bottom rows",
                  str([x.shape for x in t]), w)
            ip.call(ip.getattr(o, "set_variable_value_directly"),
                    [npa(ip, (nv, ), v)], {})
            variables(ck, ip, key + ".set", o, w)
            # symmetric positive definite top whatever the packing of L is
            r = cells2(ip, ip.call(ip.getattr(o, "R"), [], {}), (m, n))
            ck.ob(key + ".shape", r is not None, "R has the requested size",
                  "", w)
            if r is None:
                return
            for i in range(n):
                for j in range(i):
                    ck.eq("%s.sym%d%d" % (key, i, j), r[i][j], r[j][i],
                          "the square matrix on top of R is symmetric", w)
            R_is(ck, ip, key + ".direct", o, spd_R(v, m, n, sym("eps")),
                 "R = [L L' + eps I; bottom]", w)
            live(ck, ip, key, o, lambda u: spd_R(u, m, n, sym("eps")), w)
            fixed_flag(ck, ip, key, o, False, w)
            params(ck, ip, key, o, {
                "R_size": (m, n), "R_epsilon": sym("eps"),
                "R_variables": [sym("nv%d" % i) for i in range(nv)]}, w)
        ck.attempt(key, direct, where=w)

        def set_value(skew):
            ip, o = make()
            g = [[sym("g%d%d" % (i, j)) if j <= i else Z for j in range(n)]
                 for i in range(n)]
            for i in range(n):
                poly.set_bounds("g%d%d" % (i, i), 0, None, True)
            S = matmul(g, tr(g))
            top = [[S[i][j] + (sym("eps") if i == j else Z)
                    for j in range(n)] for i in range(n)]
            bot = [[sym("b%d%d" % (i, j)) for j in range(n)]
                   for i in range(m - n)]
            val = [list(r) for r in top]
            if skew:
                for i in range(n):
                    for j in range(i):
                        k = sym("k%d%d" % (i, j))
                        val[i][j] = val[i][j] + k
                        val[j][i] = val[j][i] - k

            def chol(ip, args, kw):
                c = ip.cells(args[0])
                for i in range(n):
                    for j in range(n):
                        ck.eq("%s.fact%d.%d%d" % (key, skew, i, j),
                              c[i * n + j], S[i][j], "the factored matrix "
                              "is the symmetric part of R minus eps I", w)
                if kw and ip.truth(kw.get("upper", False)) is True:
                    return ip.new_arr((n, n), [x for r in tr(g) for x in r],
                                      args[0].lib, "float")
                return ip.new_arr((n, n), [x for r in g for x in r],
                                  args[0].lib, "float")
            for f in ("numpy.linalg.cholesky", "torch.linalg.cholesky",
                      "scipy.linalg.cholesky"):
                ip.hooks["ext:" + f] = chol
            a = npa(ip, (m, n), [x for r in val + bot for x in r])
            ip.call(ip.getattr(o, "set_variable_value"), [a], {})
            variables(ck, ip, key + ".value", o, w)
            R_is(ck, ip, "%s.value%d" % (key, skew), o, top + bot,
                 "after setting a value, R() is that value (its top made "
                 "symmetric)", w)
            ck.eq_arr(ip, "%s.kept%d" % (key, skew), a,
                      [x for r in val + bot for x in r], "the value given is "
                      "left as it was", w)
            live(ck, ip, "%s.value%d" % (key, skew), o,
                 lambda u: spd_R(u, m, n, sym("eps")), w)
        for skew in ((0, 1) if n > 1 else (0, )):
            ck.attempt("%s.value%d" % (key, skew), lambda skew=skew: set_value(skew),
                       where=w)

        def wrong():
            for i, sh in enumerate(((m + 1, n), (m, n + 1))):
                ip, o = make()
                refuse(ck, "%s.size%d" % (key, i), lambda: ip.call(
                    ip.getattr(o, "set_variable_value"),
                    [npa(ip, sh, [ONE] * (sh[0] * sh[1]))], {}),
                    "values of another size are refused", w)
            ip, o = make()
            refuse(ck, key + ".dsize", lambda: ip.call(
                ip.getattr(o, "set_variable_value_directly"),
                [npa(ip, (nv + 1, ), [ONE] * (nv + 1))], {}),
                "values of another size are refused", w)
        ck.attempt(key + ".wrong", wrong, where=w)

    def ctor():
        for i, (sz, e) in enumerate((((1, 2), ONE), ((2, 2), Z),
                                     ((2, 2), -ONE), ((2, 3), ONE))):
            ip = ck.interp()
            refuse(ck, "spd.ctor%d" % i, lambda: ip.call(
                ip.get(M, cls), [sz, e], {}), "a wide R or an epsilon that "
                "is not positive is refused", w)
    ck.attempt("spd.ctor", ctor, where=w)


# --------------------------------------------------------------------- SVD
def svd_mid(a, v, m, n):
    return [[a[i] + v[i] * v[i] if i == j else Z for j in range(n)]
            for i in range(m)]


def svd(ck):
    cls = "SearchRwithSVDOptions"
    w = where(ck.repo, M, cls)
    for m, n in ((1, 1), (2, 2), (3, 2), (2, 3), (4, 2), (1, 3)):
        k = min(m, n)
        key = "svd.%dx%d" % (m, n)
        a = [sym("a%d" % i) for i in range(k)]

        def make():
            ip = ck.interp()
            for i in range(k):
                poly.set_bounds("a%d" % i, 0, None, True)
            return ip, ip.call(ip.get(M, cls), [(m, n), npa(ip, (k, ), a)],
                               {})

        def direct():
            ip, o = make()
            v = [sym("v%d" % i) for i in range(k)]
            t = variables(ck, ip, key, o, w)
            ck.ob(key + ".number", len(t) == 1 and t[0].size == k,
                  "one variable per singular value", "", w)
            ip.call(ip.getattr(o, "set_variable_value_directly"),
                    [npa(ip, (k, ), v)], {})
            variables(ck, ip, key + ".set", o, w)
            R_is(ck, ip, key + ".direct", o, svd_mid(a, v, m, n),
                 "R = U S V with S_ii = a_i + v_i^2, U and V the identity "
                 "before a value is set", w)
            live(ck, ip, key, o, lambda u: svd_mid(a, u, m, n), w)
            fixed_flag(ck, ip, key, o, False, w)
            I = [[ONE if i == j else Z for j in range(m)] for i in range(m)]
            J = [[ONE if i == j else Z for j in range(n)] for i in range(n)]
            params(ck, ip, key, o, {
                "R_size": (m, n), "R_a": a,
                "R_U": [x for r in I for x in r],
                "R_V": [x for r in J for x in r]}, w)
        ck.attempt(key, direct, where=w)

        def set_value():
            ip, o = make()
            U = [[sym("U%d%d" % (i, j)) for j in range(m)] for i in range(m)]
            V = [[sym("V%d%d" % (i, j)) for j in range(n)] for i in range(n)]
            t = [sym("t%d" % i) for i in range(k)]
            for i in range(k):
                poly.set_bounds("t%d" % i, 0, None)
            val = [sym("r%d" % i) for i in range(m * n)]

            def f(ip, args, kw):
                c = ip.cells(args[0])
                tp = args[0].shape != (m, n)
                for i in range(m * n):
                    if m != n or not tp:
                        ck.eq("%s.fact.%d" % (key, i), c[i], val[i],
                              "the factored matrix is the value given", w)
                full = ip.truth(kw.get("full_matrices", args[1] if
                                       len(args) > 1 else True))
                u = U if full else [r[:k] for r in U]
                vv = V if full else V[:k]
                return (npa(ip, (m, len(u[0])), [x for r in u for x in r]),
                        npa(ip, (k, ), [a[i] + t[i] * t[i]
                                        for i in range(k)]),
                        npa(ip, (len(vv), n), [x for r in vv for x in r]))
            ip.hooks["ext:numpy.linalg.svd"] = f
            ip.hooks["ext:scipy.linalg.svd"] = f
            arr = npa(ip, (m, n), val)
            ip.call(ip.getattr(o, "set_variable_value"), [arr], {})
            variables(ck, ip, key + ".value", o, w)
            want = matmul(matmul(U, svd_mid(a, t, m, n)), V)
            R_is(ck, ip, key + ".value", o, want, "after setting a value, "
                 "R() is the product of its factors: that value", w)
            ck.eq_arr(ip, key + ".kept", arr, val, "the value given is left "
                      "as it was", w)
            live(ck, ip, key + ".value", o, lambda u: matmul(matmul(
                U, svd_mid(a, u, m, n)), V), w)
            params(ck, ip, key + ".value", o, {
                "R_U": [x for r in U for x in r],
                "R_V": [x for r in V for x in r]}, w)
        ck.attempt(key + ".value", set_value, where=w)

        def small():
            for bad in range(k):
                ip, o = make()
                poly.set_bounds("d", 0, None, True)

                def f(ip, args, kw):
                    e = [ONE if i == j else Z for i in range(m)
                         for j in range(m)]
                    g = [ONE if i == j else Z for i in range(n)
                         for j in range(n)]
                    return (npa(ip, (m, m), e), npa(ip, (k, ), [
                        a[i] - sym("d") if i == bad else a[i] + ONE
                        for i in range(k)]), npa(ip, (n, n), g))
                ip.hooks["ext:numpy.linalg.svd"] = f
                ip.hooks["ext:scipy.linalg.svd"] = f
                refuse(ck, "%s.small%d" % (key, bad), lambda: ip.call(
                    ip.getattr(o, "set_variable_value"),
                    [npa(ip, (m, n), [sym("r%d" % i)
                                      for i in range(m * n)])], {}),
                    "a value with a singular value below its lower limit is "
                    "refused", w)
        ck.attempt(key + ".small", small, where=w)

        def wrong():
            for i, sh in enumerate(((m + 1, n), (m, n + 1))):
                ip, o = make()
                refuse(ck, "%s.size%d" % (key, i), lambda: ip.call(
                    ip.getattr(o, "set_variable_value"),
                    [npa(ip, sh, [ONE] * (sh[0] * sh[1]))], {}),
                    "values of another size are refused", w)
            ip, o = make()
            refuse(ck, key + ".dsize", lambda: ip.call(
                ip.getattr(o, "set_variable_value_directly"),
                [npa(ip, (k + 1, ), [ONE] * (k + 1))], {}),
                "values of another size are refused", w)
        ck.attempt(key + ".wrong", wrong, where=w)

    def ctor():
        for i, (sz, v) in enumerate((((2, 2), [ONE, Z]),
                                     ((2, 3), [-ONE, ONE]),
                                     ((2, 3), [ONE] * 3),
                                     ((3, 2), [ONE]))):
            ip = ck.interp()
            refuse(ck, "svd.ctor%d" % i, lambda: ip.call(
                ip.get(M, cls), [sz, npa(ip, (len(v), ), v)], {}),
                "limits that are not positive or of another number are "
                "refused", w)
    ck.attempt("svd.ctor", ctor, where=w)


# ------------------------------------------------------------ free and fixed
def free(ck):
    cls = "SearchRfreeOptions"
    w = where(ck.repo, M, cls)
    for m, n in ((2, 2), (3, 2), (1, 3)):
        for how in ("set_variable_value", "set_variable_value_directly"):
            key = "free.%dx%d.%s" % (m, n, how[12:])

            def go():
                ip = ck.interp()
                o = ip.call(ip.get(M, cls), [(m, n)], {})
                variables(ck, ip, key, o, w)
                v = [sym("r%d" % i) for i in range(m * n)]
                ip.call(ip.getattr(o, how), [npa(ip, (m, n), v)], {})
                t = variables(ck, ip, key, o, w)

                def rows(u):
                    return [u[i * n:(i + 1) * n] for i in range(m)]
                R_is(ck, ip, key, o, rows(v), "R is the free matrix", w)
                ck.ob(key + ".shape", len(t) == 1 and t[0].shape == (m, n),
                      "the free matrix is the searched tensor", "", w)
                live(ck, ip, key, o, rows, w)
                fixed_flag(ck, ip, key, o, False, w)
                params(ck, ip, key, o, {"R_size": (m, n)}, w)
                for i, sh in enumerate(((m + 1, n), (m, n + 1))):
                    ip2 = ck.interp()
                    o2 = ip2.call(ip2.get(M, cls), [(m, n)], {})
                    refuse(ck, "%s.size%d" % (key, i), lambda: ip2.call(
                        ip2.getattr(o2, how),
                        [npa(ip2, sh, [ONE] * (sh[0] * sh[1]))], {}),
                        "values of another size are refused", w)
            ck.attempt(key, go, where=w)


def fixed(ck):
    cls = "FixedROptions"
    w = where(ck.repo, M, cls)
    for m, n in ((2, 2), (3, 2)):
        key = "fixed.%dx%d" % (m, n)

        def go():
            ip = ck.interp()
            v = [sym("r%d" % i) for i in range(m * n)]
            t = ip.new_arr((m, n), v, "torch", "float")
            o = ip.call(ip.get(M, cls), [t], {})
            R_is(ck, ip, key, o, [v[i * n:(i + 1) * n] for i in range(m)],
                 "R is the matrix given", w)
            variables(ck, ip, key, o, w, 0)
            fixed_flag(ck, ip, key, o, True, w)
            ip.call(ip.getattr(o, "set_variable_value"), [npa(
                ip, (m, n), [ONE] * (m * n))], {})
            R_is(ck, ip, key + ".still", o, [v[i * n:(i + 1) * n]
                                             for i in range(m)],
                 "a fixed R keeps its value", w)
        ck.attempt(key, go, where=w)


def check(ck):
    spd(ck)
    svd(ck)
    free(ck)
    fixed(ck)
