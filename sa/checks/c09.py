"""Network encodings and neuron bounds."""
import itertools

from .. import poly, mic, polytope as pt, gurobi_model as gm, natives
from ..poly import Rat
from ..values import Arr, ExtV, AbsRaise, Undecided
from . import blocks as bl
from .common import sym, where, F64
from .c11 import T

TITLE = "Network encodings and neuron bounds are sound and exact"
EXPLANATION = (
    "Interval arithmetic, layer-by-layer bound propagation, the mixed-integer "
    "encoding of (leaky) ReLU networks and the optimisation-based bounds are "
    "evaluated on symbolic networks. For every neuron case (straddling, "
    "always active, always inactive, touching zero) and 0/1 assignment the "
    "rows of each neuron are compared, as polyhedra with symbolic "
    "coefficients, with the graph of the unit over its bounds; bounds are "
    "compared with the composition of interval arithmetic; for LP/MIP bounds "
    "the assembled program is taken apart at each solve.")
ASSUMPTIONS = ("real arithmetic; the solver returns optimal values of the "
               "program it is given; tensor operations follow their "
               "documentation", )
MIN_OBS = 300
M = "relu_to_optimization"
RP = "ReLUFreePattern"
Z, ONE = Rat.const(0), Rat.const(1)


# -------------------------------------------------------------- networks
class Net:
    """a network with known weight expressions"""
    def __init__(self, ip, sizes, W, b, slopes):
        self.sizes, self.W, self.b, self.slopes = sizes, W, b, slopes
        ls = []
        for k in range(len(sizes) - 1):
            nout, nin = sizes[k + 1], sizes[k]
            o = ip.new_obj(ExtV("torch.nn.Linear"))
            d = ip.attrs(o)
            d["in_features"], d["out_features"] = nin, nout
            d["weight"] = T(ip, W[k], (nout, nin))
            d["bias"] = None if b[k] is None else T(ip, b[k])
            for n in ("weight", "bias"):
                if d[n] is not None:
                    m = ip.amodel(d[n])
                    m["requires_grad"], m["param"] = True, "L%d.%s" % (k, n)
            ls.append(o)
            if k < len(sizes) - 2:
                ls.append(natives.make_relu(ip, slopes[k]))
        self.seq = natives.make_seq(ip, ls)
        self.layers = ls

    def w(self, i, j):
        n = self.sizes[i]
        return self.W[i][j * n:(j + 1) * n]

    def bias(self, i, j):
        return Z if self.b[i] is None else Rat.of(self.b[i][j])

    def c(self, i):
        return Z if self.slopes[i] is None else Rat.of(self.slopes[i])

    def units(self):
        return [(i, j) for i in range(len(self.sizes) - 2)
                for j in range(self.sizes[i + 1])]

    def act(self, i, v):
        return act(v, self.c(i))


def act(v, c):
    return c * v + (1 - c) * poly.relu(v)


def weights(name, nout, nin, pat=None):
    if pat is None:
        return [sym("%s.%d.%d" % (name, i, j)) for i in range(nout)
                for j in range(nin)]
    return bl.matrix(name, pat)


def patt(nout, nin, seed=0):
    ps = ["+-+", "-++", "++-", "--+"]
    return [ps[(i + seed) % 4][:nin] for i in range(nout)]


def slope_case(n):
    poly.set_bounds("c01", 0, 1, True, True)
    poly.set_bounds("cn", None, 0, True, True)
    poly.set_bounds("cg", 1, None, True, True)
    return {"relu": None, "small": sym("c01"), "negative": sym("cn"),
            "large": sym("cg")}[n]


def free_pattern(ip, net):
    return ip.call(ip.get(M, RP), [net.seq, F64], {})


def have(ip, o, name):
    """private helpers may be renamed; then the part is undecided"""
    try:
        return ip.getattr(o, name)
    except AbsRaise:
        raise Undecided("no helper " + name)


# ------------------------------------------------ interval arithmetic
def ia_range(w, b, pat, lo, up):
    L = U = Rat.of(b)
    for a, s, l, u in zip(w, pat, lo, up):
        L = L + a * (l if s == "+" else u)
        U = U + a * (u if s == "+" else l)
    return L, U


def post(lo, up, c, cname):
    """range of the unit over [lo, up] for nonnegative slope"""
    return act(lo, c), act(up, c)


def check_ia(ck):
    w_ = where(ck.repo, "mip_utils", "compute_range_by_IA")
    rule = "the bounds of A x + b over the box are attained and enclose it"
    for pat in (["+-", "-+"], ["++", "--"], ["+0", "0-"], ["0+", "+-"]):
        poly.clear_bounds()
        ip = ck.interp()
        A = bl.matrix("A", pat)
        b = [sym("b0"), sym("b1")]
        lo, st, up = bl.box(["0", "1"])

        def go():
            r = ip.call(ip.get("mip_utils", "compute_range_by_IA"),
                        [T(ip, A, (2, 2)), T(ip, b), T(ip, lo), T(ip, up)],
                        {})
            L, U = ip.iterate(r)
            for i in range(2):
                l, u = ia_range(A[2 * i:2 * i + 2], b[i], pat[i], lo, up)
                k = "ia.%s.%d" % ("".join(pat), i)
                ck.eq(k + ".lo", ip.cells(L)[i], l, rule, w_)
                ck.eq(k + ".up", ip.cells(U)[i], u, rule, w_)
        ck.attempt("ia." + "".join(pat), go, where=w_)
    w_ = where(ck.repo, "mip_utils", "propagate_bounds")
    for cn in ("relu", "small", "negative", "large"):
        for case in ("straddle", "positive", "negative", "from0", "to0"):
            poly.clear_bounds()
            ip = ck.interp()
            c = slope_case(cn)
            lo, up = interval(case, "0")
            c0 = Z if c is None else c

            def go():
                lay = natives.make_relu(ip, c)
                r = ip.call(ip.get("mip_utils", "propagate_bounds"),
                            [lay, T(ip, [lo, lo]), T(ip, [up, up])], {})
                L, U = ip.iterate(r)
                el, eu = unit_range(case, cn, lo, up, c0)
                for i in range(2):
                    k = "propagate.%s.%s.%d" % (cn, case, i)
                    ck.eq(k + ".lo", ip.cells(L)[i], el, "range of the "
                          "activation over the interval", w_)
                    ck.eq(k + ".up", ip.cells(U)[i], eu, "range of the "
                          "activation over the interval", w_)
            ck.attempt("propagate.%s.%s" % (cn, case), go, where=w_)
    for bias in (True, False):
        poly.clear_bounds()
        ip = ck.interp()
        pat = ["+-", "-+"]
        A = bl.matrix("A", pat)
        b = [sym("b0"), sym("b1")] if bias else None
        lo, st, up = bl.box(["0", "1"])
        net = Net(ip, [2, 2], [A], [b], [])

        def go():
            r = ip.call(ip.get("mip_utils", "propagate_bounds"),
                        [net.layers[0], T(ip, lo), T(ip, up)], {})
            L, U = ip.iterate(r)
            for i in range(2):
                l, u = ia_range(A[2 * i:2 * i + 2], net.bias(0, i), pat[i],
                                lo, up)
                k = "propagate.linear.%s.%d" % (bias, i)
                ck.eq(k + ".lo", ip.cells(L)[i], l, rule, w_)
                ck.eq(k + ".up", ip.cells(U)[i], u, rule, w_)
            if bias:
                for i in range(2):
                    ck.eq("propagate.linear.bias%d" % i, ip.cells(
                        ip.attrs(net.layers[0])["bias"])[i], b[i],
                        "the layer's parameters are left alone", w_)
        ck.attempt("propagate.linear.%s" % bias, go, where=w_)


def interval(case, tag):
    """an interval of the given case with its own symbols"""
    p, q, r = [sym("%s%s" % (n, tag)) for n in "pqr"]
    for n in "pqr":
        poly.set_bounds("%s%s" % (n, tag), 0, None, True)
    return {"straddle": (-p, q), "positive": (r, r + p),
            "negative": (-r - p, -r), "from0": (Z, q), "to0": (-p, Z)}[case]


def unit_range(case, cn, lo, up, c):
    if cn == "negative" and case == "straddle":
        return Z, poly.max2(c * lo, up)
    f = {"positive": (lo, up), "from0": (lo, up), "negative": (c * lo, c * up),
         "to0": (c * lo, c * up), "straddle": (c * lo, up)}[case]
    return (f[1], f[0]) if cn == "negative" and case in (
        "negative", "to0") else f


# ------------------------------------------------- rows of an encoding
def classify(ck, key, rows, net, X, Y, B, w):
    """assign each row to a unit: -> {(i, j): [rows over v, y, b]}, rows on
    the inputs only"""
    out = {u: [] for u in net.units()}
    xr = []
    prev = lambda i: X if i == 0 else Y[i - 1]
    for r in rows:
        V = {v for v, k in r.a.items() if not Rat.of(k).is_zero()}
        if not V:
            s = poly.sign(Rat.of(r.c))
            ck.ob(key + ".trivial", s in ("0", ) or r.s != "=" and s in (
                "-", "<=0", "0"), "rows without variables hold", repr(r), w)
            continue
        hit = None
        for (i, j) in net.units():
            P = prev(i)
            if not V <= set(P) | {Y[i][j], B[i][j]}:
                continue
            wij = net.w(i, j)
            al = None
            good = True
            for n, a in zip(P, wij):
                k = Rat.of(r.a.get(n, Z))
                if Rat.of(a).is_zero():
                    good &= k.is_zero()
                    continue
                t = k / a
                if al is None:
                    al = t
                elif not (al - t).is_zero():
                    good = False
            own = V & {Y[i][j], B[i][j]}
            if not good or not own and (al is None or al.is_zero()):
                continue
            al = Z if al is None else al
            hit = (i, j)
            a = {}
            for n, k in (("v", al), ("y", r.a.get(Y[i][j], Z)),
                         ("b", r.a.get(B[i][j], Z))):
                if not Rat.of(k).is_zero():
                    a[n] = Rat.of(k)
            out[hit].append(pt.Row(a, r.c - al * net.bias(i, j), r.s,
                                   r.label))
            break
        if hit is None:
            if V <= set(X):
                xr.append(r)
            else:
                ck.ob(key + ".row", False, "every row belongs to one unit of "
                      "the network or to the input box", repr(r)[:300], w)
    return out, xr


def unit_graph(ck, key, rows, lo, up, c, case, w):
    """rows over (v, y, b) describe y = act(v) on lo <= v <= up"""
    N = ["v", "y", "b"]
    v, y = sym("v"), sym("y")
    bd = [pt.row(lo - v, "<", N, "v>=lo"), pt.row(v - up, "<", N, "v<=up")]
    full = {1: ("straddle", "positive", "from0"),
            0: ("straddle", "negative", "to0")}
    for b in (0, 1):
        P = pt.fix(rows, {"b": Rat.const(b)}) + bd
        Q = [pt.row(y - (v if b else c * v), "=", N, "y=act(v)"),
             pt.row(-v if b else v, "<", N, "branch")] + bd
        names = ["v", "y"]
        rule = "the rows of a unit are the graph of the activation"
        kk = "%s.b%d" % (key, b)
        if case == ("negative" if b else "positive"):
            r = pt.empty(P, names, ck.seed)
            ck.ob(kk + ".excluded", r[0], rule, r[2], w, proof=r[1])
            continue
        parts = [(P, Q, "sound")]
        if case in full[b]:
            parts.append((Q, P, "complete"))
        for a, q_, t in parts:
            for i, (q, ok, proof, det) in enumerate(pt.included(
                    a, q_, names, ck.seed, 8 if ck.deep else 4)):
                ck.ob("%s.%s[%d]" % (kk, t, i), ok, rule, "%s %s" % (
                    q.label, det), w, proof=proof)


def graph(ck, key, rows, net, X, Y, B, bounds, cases, w, xlo, xup):
    un, xr = classify(ck, key, rows, net, X, Y, B, w)
    for (i, j) in net.units():
        lo, up = bounds[i, j]
        unit_graph(ck, "%s.u%d%d" % (key, i, j), un[i, j], lo, up, net.c(i),
                   cases[i, j], w)
    if xlo is not None:
        Q = []
        for n, l, u in zip(X, xlo, xup):
            Q += [pt.row(l - sym(n), "<", X, n + " lo"),
                  pt.row(sym(n) - u, "<", X, n + " up")]
        mic.same_set(ck, key + ".box", [pt.Row(r.a, r.c, r.s, r.label)
                                        for r in xr], Q, X, w,
                     ("code", "spec")) if False else None
        for a, b, t in ((xr, Q, "sound"), (Q, xr, "complete")):
            for n, (q, ok, proof, det) in enumerate(pt.included(
                    a, b, X, ck.seed, 4)):
                ck.ob("%s.box.%s%d" % (key, t, n), ok, "the input rows are "
                      "the input box", "%s %s" % (q.label, det), w,
                      proof=proof)


def mic_rows(ip, ret, net):
    m = mic.Mic(ip, ret)
    nx, nu = net.sizes[0], len(net.units())
    if m.n["input"] not in (0, nx) or m.n["slack"] not in (0, nu) or \
            m.n["binary"] not in (0, nu):
        raise mic.Malformed("sizes %s" % m.n)
    X = ["x%d" % i for i in range(nx)]
    S = ["s%d" % i for i in range(nu)]
    Bn = ["b%d" % i for i in range(nu)]
    names = {"input": X, "slack": S, "binary": Bn}
    Y, B, k = [], [], 0
    for i in range(len(net.sizes) - 2):
        n = net.sizes[i + 1]
        Y.append(S[k:k + n])
        B.append(Bn[k:k + n])
        k += n
    return m, m.rows(names, bounds=False), X, Y, B


CASES = ["straddle", "positive", "negative", "from0", "to0"]


def out_map(ck, key, m, net, w):
    L = len(net.sizes) - 2
    off = sum(net.sizes[1:-2]) if len(net.sizes) > 3 else 0
    for k in range(net.sizes[-1]):
        ws = net.w(L, k)
        row = m.m["Aout_slack"][k]
        for n in range(len(net.units())):
            want = ws[n - off] if n >= off else Z
            ck.eq("%s.Aout[%d,%d]" % (key, k, n), row[n], want,
                  "the output map is the last layer on the last units", w)
        ck.eq("%s.Cout[%d]" % (key, k), m.v["Cout"][k] if m.v["Cout"] else Z,
              net.bias(L, k), "the output map is the last layer", w)
        for f in ("Aout_input", "Aout_binary"):
            if m.m[f]:
                for a in m.m[f][k]:
                    ck.eq("%s.%s[%d]" % (key, f, k), a, Z,
                          "the output map is the last layer", w)


def given_bounds(ck):
    """rows for arbitrary pre-activation bounds"""
    w = where(ck.repo, M, RP + "._output_constraint_given_bounds")
    cfgs = []
    for t, cn in enumerate(("relu", "small", "negative", "large")):
        for sh in range(5 if (cn in ("relu", "small") or ck.deep) else 2):
            cfgs.append((cn, sh, True, (t + sh) % 2 == 0))
    cfgs += [("relu", 1, False, False), ("small", 3, False, True)]
    for cn, sh, hb, lb in cfgs:
        poly.clear_bounds()
        ip = ck.interp()
        c = slope_case(cn)
        sizes = [2, 3, 2, 2]
        W = [weights("W%d" % k, sizes[k + 1], sizes[k]) for k in range(3)]
        b = [[sym("B%d.%d" % (k, i)) for i in range(sizes[k + 1])]
             for k in range(3)]
        if not hb:
            b[0] = b[1] = None
        if not lb:
            b[2] = None
        net = Net(ip, sizes, W, b, [c, c])
        un = net.units()
        cases = {u: CASES[(n + sh) % 5] for n, u in enumerate(un)}
        bounds = {u: interval(cases[u], ".%d%d" % u) for u in un}
        xlo, st, xup = bl.box(["0", "1"])
        key = "given.%s.%d.%s%s" % (cn, sh, "b" if hb else "n",
                                    "b" if lb else "n")

        def go():
            rp = free_pattern(ip, net)
            f = have(ip, rp, "_output_constraint_given_bounds")
            ret = ip.call(f, [T(ip, [bounds[u][0] for u in un]),
                              T(ip, [bounds[u][1] for u in un]),
                              T(ip, xlo), T(ip, xup)], {})
            m, rows, X, Y, B = mic_rows(ip, ret, net)
            graph(ck, key, rows, net, X, Y, B, bounds, cases, w, xlo, xup)
            out_map(ck, key, m, net, w)
            params_kept(ck, ip, key, net, ret, w)
        ck.attempt(key, go, where=w)


def params_kept(ck, ip, key, net, ret, w):
    """changing the returned output map must not change the network"""
    for f in ("Aout_slack", "Cout"):
        v = ip.getattr(ret, f)
        if not isinstance(v, Arr):
            continue
        for l in net.layers:
            d = ip.attrs(l)
            for n in ("weight", "bias"):
                a = d.get(n)
                if isinstance(a, Arr):
                    ck.ob("%s.%s.alias" % (key, f), a.addr != v.addr,
                          "the returned output map is not the network's own "
                          "parameter tensor", n, w)


# -------------------------------------------------- end to end, IA bounds
def spread_bias(name, m, S, case):
    """bias that puts the range [m, m + S] in the given case"""
    p, q = sym(name + ".p"), sym(name + ".q")
    for n in ("p", "q"):
        poly.set_bounds("%s.%s" % (name, n), 0, None, True)
    if case == "straddle":
        t = p / (p + q)
        return -m - S * t, -S * t, S * (q / (p + q))
    if case == "positive":
        return -m + p, p, S + p
    if case == "negative":
        return -m - S - p, -S - p, -p
    if case == "from0":
        return -m, Z, S
    return -m - S, -S, Z


def tuned(ip, sizes, cn, cases, lb=True):
    """network whose units are in the given cases over the box"""
    c = slope_case(cn)
    xlo, st, xup = bl.box([str(i) for i in range(sizes[0])])
    lo = list(xlo)
    ran = [u - l for l, u in zip(xlo, xup)]
    W, b, pre, pst = [], [], {}, {}
    c0 = Z if c is None else c
    for k in range(len(sizes) - 2):
        pat = patt(sizes[k + 1], sizes[k], k)
        Wk = weights("W%d" % k, sizes[k + 1], sizes[k], pat)
        bk, nlo, nran = [], [], []
        for j in range(sizes[k + 1]):
            ws = Wk[j * sizes[k]:(j + 1) * sizes[k]]
            m = S = Z
            for a, s, l, d in zip(ws, pat[j], lo, ran):
                m = m + a * (l if s == "+" else l + d)
                S = S + a * d * (1 if s == "+" else -1)
            B, L, U = spread_bias("t%d%d" % (k, j), m, S, cases[k, j])
            bk.append(B)
            pre[k, j] = (L, U)
            pst[k, j] = unit_range(cases[k, j], cn, L, U, c0)
            nlo.append(pst[k, j][0])
            nran.append(pst[k, j][1] - pst[k, j][0])
        W.append(Wk)
        b.append(bk)
        lo, ran = nlo, nran
    k = len(sizes) - 2
    pat = patt(sizes[k + 1], sizes[k], k)
    W.append(weights("W%d" % k, sizes[k + 1], sizes[k], pat))
    b.append([sym("B%d.%d" % (k, i)) for i in range(sizes[k + 1])]
             if lb else None)
    net = Net(ip, sizes, W, b, [c] * (len(sizes) - 2))
    out = [ia_range(net.w(k, j), net.bias(k, j), pat[j], lo,
                    [l + d for l, d in zip(lo, ran)])
           for j in range(sizes[k + 1])]
    return net, xlo, xup, pre, pst, out


def method(ip, name):
    return ip.getattr(ip.get("mip_utils", "PropagateBoundsMethod"), name)


def end_to_end(ck):
    w = where(ck.repo, M, RP + ".output_constraint")
    cfgs = [([2, 2, 2], cn, sh, lb) for cn in ("relu", "small")
            for sh, lb in ((0, True), (2, False), (3, True))]
    cfgs += [([2, 2, 2], "large", 1, True), ([2, 2, 2], "negative", 1, True)]
    cfgs += [([2, 2, 2, 1], "relu", 0, True), ([3, 2, 2, 2], "small", 3,
                                               True)]
    unbiased(ck, w)
    for sizes, cn, sh, lb in cfgs:
        poly.clear_bounds()
        ip = ck.interp()
        un = [(i, j) for i in range(len(sizes) - 2)
              for j in range(sizes[i + 1])]
        cases = {u: CASES[(n + sh) % 5] for n, u in enumerate(un)}
        net, xlo, xup, pre, pst, out = tuned(ip, sizes, cn, cases, lb)
        key = "oc.%s.%s.%d" % ("-".join(map(str, sizes)), cn, sh)

        def go():
            rp = free_pattern(ip, net)
            ret = ip.call(ip.getattr(rp, "output_constraint"), [
                T(ip, xlo), T(ip, xup), method(ip, "IA")], {})
            m, rows, X, Y, B = mic_rows(ip, ret, net)
            graph(ck, key, rows, net, X, Y, B, pre, cases, w, xlo, xup)
            out_map(ck, key, m, net, w)
            bound_fields(ck, ip, key, ret, un, pre, pst, xlo, xup, out, w)
        ck.attempt(key, go, where=w)


def unbiased(ck, w):
    """layers without a bias, of every shape, over a box of positive inputs"""
    for sizes in ([2, 3, 1], [3, 1, 2], [1, 2, 3, 1]):
        for cn in ("relu", "small")[:1 if len(sizes) > 3 else 2]:
            key = "oc.nobias.%s.%s" % ("-".join(map(str, sizes)), cn)

            def go(sizes=sizes, cn=cn, key=key):
                poly.clear_bounds()
                ip = ck.interp()
                lo, up = [[sym(p + str(i)) for i in range(sizes[0])]
                          for p in ("nlo", "nup")]
                for i in range(sizes[0]):
                    poly.set_bounds("nlo%d" % i, 1, 2, True, True)
                    poly.set_bounds("nup%d" % i, 3, 4, True, True)
                xlo, xup = lo, up
                W = []
                pre, pst, cases, un = {}, {}, {}, []
                c = slope_case(cn)
                c0 = Z if c is None else c
                for k in range(len(sizes) - 1):
                    pat = ["+" * sizes[k]] * sizes[k + 1]
                    if k == 0 and sizes[1] > 1:
                        pat[1] = "-" * sizes[0]
                    Wk = weights("W%d" % k, sizes[k + 1], sizes[k], pat)
                    W.append(Wk)
                    nl, nu = [], []
                    for j in range(sizes[k + 1]):
                        l, u = ia_range(Wk[j * sizes[k]:(j + 1) * sizes[k]],
                                        Z, pat[j], lo, up)
                        pre[k, j] = (l, u)
                        neg = pat[j][0] == "-"
                        cases[k, j] = "negative" if neg else "positive"
                        if k < len(sizes) - 2:
                            un.append((k, j))
                            pst[k, j] = unit_range(cases[k, j], cn, l, u, c0)
                            nl.append(pst[k, j][0])
                            nu.append(pst[k, j][1])
                    lo, up = (nl, nu) if nl else (lo, up)
                k = len(sizes) - 2
                net = Net(ip, sizes, W, [None] * (k + 1), [c] * k)
                rp = free_pattern(ip, net)
                ret = ip.call(ip.getattr(rp, "output_constraint"), [
                    T(ip, xlo), T(ip, xup), method(ip, "IA")], {})
                bound_fields(ck, ip, key, ret, un, pre, pst, xlo, xup,
                             [pre[k, j] for j in range(sizes[-1])], w)
            ck.attempt(key, go, where=w)


def bound_fields(ck, ip, key, ret, un, pre, pst, xlo, xup, out, w):
    for f, vals in (("relu_input", [pre[u] for u in un]),
                    ("relu_output", [pst[u] for u in un]),
                    ("nn_input", list(zip(xlo, xup))),
                    ("nn_output", out)):
        for e, n in ((0, "lo"), (1, "up")):
            v = ip.getattr(ret, "%s_%s" % (f, n))
            if v is None:
                ck.ob("%s.%s_%s" % (key, f, n), False, "the bounds are "
                      "reported", "None", w)
                continue
            cs = ip.cells(v)
            ck.ob("%s.%s_%s.n" % (key, f, n), len(cs) == len(vals),
                  "one bound per entry", "%d" % len(cs), w)
            for i, (a, b) in enumerate(zip(cs, vals)):
                ck.eq("%s.%s_%s[%d]" % (key, f, n, i), a, b[e],
                      "reported bounds are the interval ranges", w)


# ------------------------------------------------------ optimisation bounds
class Solver:
    """stand-in for the optimal value of max/min over a network prefix"""
    def __init__(self, ck, ip, key, net, value, callback, w, vt, box,
                 bounds, cases):
        self.ck, self.ip, self.key, self.net = ck, ip, key, net
        self.value, self.cb, self.w, self.vt = value, callback, w, vt
        self.box, self.bounds, self.cases = box, bounds, cases
        self.seen = {}
        ip.grb_result = self.result

    def result(self, ip, o, kind):
        if kind != "obj":
            return None
        expr, sense = gm.objective(ip, o)
        vs = [v[0] for v in gm.variables(ip, o)]
        a, c = pt.linear(Rat.of(expr), vs)
        order = [v for v in vs if v in a]
        net = self.net
        for i in range(len(net.sizes) - 1):
            for j in range(net.sizes[i + 1]):
                ws = net.w(i, j)
                if len(ws) == len(order) and all(
                        (a[n] - k).is_zero() for n, k in zip(order, ws)) \
                        and (Rat.of(c) - net.bias(i, j)).is_zero():
                    first = (i, j, sense) not in self.seen
                    self.seen[i, j, sense] = self.seen.get(
                        (i, j, sense), 0) + 1
                    if first:
                        self.program(o, i, j, sense, order)
                    return self.value(i, j, sense)
        self.ck.ob("%s.objective" % self.key, False, "each bound optimises "
                   "the pre-activation of one unit", "%s" % expr, self.w)
        return None

    def program(self, o, i, j, sense, order):
        ck, ip, net = self.ck, self.ip, self.net
        key = "%s.p%d%d%s" % (self.key, i, j, "max" if sense == -1 else
                              "min")
        vs = gm.variables(ip, o)
        names = [v[0] for v in vs]
        nx = net.sizes[0]
        act_ = [v for v in vs[nx:] if not poly._is_inf(v[2]) and
                not poly._is_inf(-v[1])]
        ys = [v for v in vs[nx:] if v not in act_]
        X = names[:nx]
        nu = sum(net.sizes[1:i + 1])
        if len(ys) != nu or len(act_) != nu:
            ck.ob(key + ".vars", False, "the program has one output and one "
                  "activation variable per previous unit", "%d, %d for %d"
                  % (len(ys), len(act_), nu), self.w)
            return
        Y, B, k = [], [], 0
        for L in range(i):
            n = net.sizes[L + 1]
            Y.append([v[0] for v in ys[k:k + n]])
            B.append([v[0] for v in act_[k:k + n]])
            k += n
        last = X if i == 0 else Y[-1]
        ck.ob(key + ".on", order == last, "the objective is on the output of "
              "the previous layer", "%s" % order, self.w)
        for v in act_:
            ok = v[3] in self.vt and (Rat.of(v[1]).is_zero() and
                                      (Rat.of(v[2]) - 1).is_zero() or
                                      v[3] == "B")
            ck.ob(key + ".type", ok, "activation variables are %s in [0, 1]"
                  % (self.vt, ), "%s [%s, %s]" % (v[3], v[1], v[2]), self.w)
        for v in ys:
            ck.ob(key + ".free", poly._is_inf(-v[1]) and poly._is_inf(v[2])
                  and v[3] == "C", "unit outputs are free variables",
                  "%s [%s, %s]" % (v[3], v[1], v[2]), self.w)
        sub = Prefix(net, i)
        rows = []
        extra = 0
        for e, s, nm, wh in gm.rows(ip, o):
            if "callback" in str(nm):
                extra += 1
                continue
            rows.append(pt.row(e, s, names, "%s@%s" % (nm, wh)))
        for v in vs[:nx]:
            if not poly._is_inf(-v[1]):
                rows.append(pt.row(v[1] - sym(v[0]), "<", names, "lb"))
            if not poly._is_inf(v[2]):
                rows.append(pt.row(sym(v[0]) - v[2], "<", names, "ub"))
        if self.cb:
            ck.ob(key + ".callback", extra == 1, "the constraints of the "
                  "caller's program are kept", "%d" % extra, self.w)
        graph(ck, key, rows, sub, X, Y, B, self.bounds, self.cases, self.w,
              *self.box)


class Prefix(Net):
    def __init__(self, net, i):
        self.sizes = net.sizes[:i + 1] + [1]
        self.W, self.b, self.slopes = net.W, net.b, net.slopes


def by_solver(ck):
    """LP / MIP bounds: each neuron's bounds are the optimal values of the
    program that encodes everything before it"""
    w = where(ck.repo, M, RP + "._compute_linear_output_bound_by_"
              "optimization")
    cfgs = [("LP", "relu", 0, False, True), ("MIP", "relu", 2, False, True),
            ("MIP", "small", 4, False, False), ("LP", "small", 1, True, True),
            ("MIP", "relu", 3, True, True)]
    cfgs = [c + ([2, 2, 2, 1], ) for c in cfgs] + [
        ("LP", "relu", 2, False, True, [2, 3, 2, 2]),
        ("MIP", "small", 0, True, True, [3, 2, 2, 1]),
        ("MIP", "relu", 1, False, True, [3, 2, 3, 2])]
    for mt, cn, sh, cb, lb, sizes in cfgs:
        poly.clear_bounds()
        ip = ck.interp()
        c = slope_case(cn)
        W = [weights("W%d" % k, sizes[k + 1], sizes[k]) for k in range(3)]
        b = [[sym("B%d.%d" % (k, i)) for i in range(sizes[k + 1])]
             for k in range(3)]
        if not lb:
            b[1] = b[2] = None
        net = Net(ip, sizes, W, b, [c, c])
        un = net.units()
        cases = {u: CASES[(n + sh) % 5] for n, u in enumerate(un)}
        bounds = {u: interval(cases[u], ".%d%d" % u) for u in un}
        outb = {(2, j): (sym("out.lo%d" % j), sym("out.up%d" % j))
                for j in range(sizes[-1])}
        nx = sizes[0]
        xlo, st, xup = bl.box([str(j) for j in range(nx)])
        key = "opt.%s.%s.%s.%d.%s" % (mt, cn, "-".join(map(str, sizes)), sh,
                                      "cb" if cb else "box")

        def value(i, j, sense):
            return (bounds.get((i, j)) or outb[i, j])[1 if sense == -1 else 0]
        S = Solver(ck, ip, key, net, value, cb, w,
                   ("C", ) if mt == "LP" else ("B", ), (xlo, xup), bounds,
                   cases)

        def go():
            rp = free_pattern(ip, net)
            tl, tu = T(ip, xlo), T(ip, xup)
            if cb:
                def mk(ip_, a, k):
                    mp = ip.call(ip.get("gurobi_torch_mip",
                                        "GurobiTorchMILP"), [F64], {})
                    vs = ip.call(ip.getattr(mp, "addVars"), [nx], {
                        "lb": poly.INF * -1 if False else -poly.INF})
                    ip.call(ip.getattr(mp, "addLConstr"), [
                        ip.new_list([T(ip, [
                            sym("k%d" % j) for j in range(nx)])]),
                        ip.new_list([vs])], {"sense": "<", "rhs": sym("kr"),
                                             "name": "callback"})
                    return (mp, vs)
                from ..values import PyFn
                f = PyFn(mk, "callback")
                r = ip.call(have(ip, rp, "_compute_layer_bound"),
                            [tl, tu, method(ip, mt)],
                            {"create_prog_callback": f})
                zl, zu, pl, pu = ip.iterate(r)
                ol, ou = ip.iterate(ip.call(
                    have(ip, rp, "_compute_network_output_bounds"),
                    [zl, zu, tl, tu, method(ip, mt)],
                    {"create_prog_callback": f}))
            else:
                ret = ip.call(ip.getattr(rp, "output_constraint"), [
                    tl, tu, method(ip, mt)], {})
                zl, zu, pl, pu, ol, ou = [ip.getattr(ret, n) for n in (
                    "relu_input_lo", "relu_input_up", "relu_output_lo",
                    "relu_output_up", "nn_output_lo", "nn_output_up")]
                m, rows, X, Y, B = mic_rows(ip, ret, net)
                graph(ck, key, rows, net, X, Y, B, bounds, cases, w, xlo,
                      xup)
            for n, u in enumerate(un):
                for e, a, p, nm in ((0, zl, pl, "lo"), (1, zu, pu, "up")):
                    ck.eq("%s.pre_%s%d" % (key, nm, n), ip.cells(a)[n],
                          bounds[u][e], "the bound of a unit is the optimal "
                          "value of its program", w)
                    r = unit_range(cases[u], cn, *bounds[u], c=net.c(u[0]))
                    ck.eq("%s.post_%s%d" % (key, nm, n), ip.cells(p)[n],
                          r[e], "the output bound is the range of the unit",
                          w)
            for e, a in ((0, ol), (1, ou)):
                ck.eq_arr(ip, "%s.out%d" % (key, e), a, [
                    outb[2, j][e] for j in range(sizes[-1])],
                    "the network bound is the optimal value of its program",
                    w)
        ck.attempt(key, go, where=w)


def ia_mip(ck):
    """IA_MIP: relaxed MIP bounds stay sound"""
    w = where(ck.repo, M, RP + "._compute_layer_bound")
    sizes = [2, 2, 1]
    # value of the mip bound and of the interval bound, per case
    for big in (True, False):
        for sh in range(4):
            poly.clear_bounds()
            ip = ck.interp()
            W = [weights("W%d" % k, sizes[k + 1], sizes[k])
                 for k in range(2)]
            b = [[sym("B%d.%d" % (k, i)) for i in range(sizes[k + 1])]
                 for k in range(2)]
            net = Net(ip, sizes, W, b, [None])
            xlo, st, xup = bl.box(["0", "1"])
            mip, ia = {}, {}
            for n, u in enumerate([(0, 0), (0, 1), (1, 0)]):
                case = ["straddle", "positive", "negative",
                        "straddle"][(n + sh) % 4]
                lo, up = interval(case, ".%d%d" % u)
                d = []
                for e in "lu":
                    nm = "gap%s%d%d" % ((e, ) + u)
                    if big:
                        poly.set_bounds(nm, 1, None, True)
                    else:
                        poly.set_bounds(nm, 0, 1e-5, True, True)
                    d.append(sym(nm))
                # the interval bound is looser than the exact bound
                mip[u] = (lo, up)
                il, iu = lo - d[0], up + d[1]
                if big and case == "positive" and sh % 2:
                    # the interval bound is itself positive
                    mip[u] = (d[0] * 2, d[0] * 2 + up)
                    il, iu = d[0], d[0] * 2 + up + d[1]
                elif big and case == "positive":
                    # lo in (0, gap): interval bound negative
                    mip[u] = (lo, up)
                    poly.set_bounds("r.%d%d" % u, 1, None, True)
                    il = -mip[u][0]
                    iu = up + d[1]
                elif big and case == "negative" and not sh % 2:
                    mip[u] = (lo, -d[1] * 2)
                    il, iu = lo - d[0], -d[1]
                    mip[u] = (-d[1] * 2 - sym("p.%d%d" % u), -d[1] * 2)
                    il = mip[u][0] - d[0]
                elif big and case == "negative":
                    poly.set_bounds("r.%d%d" % u, 1, None, True)
                    iu = -mip[u][1]
                elif not big and case in ("positive", "negative"):
                    poly.set_bounds("r.%d%d" % u, 1, None, True)
                ia[u] = (il, iu)

            def value(i, j, sense):
                return mip[i, j][1 if sense == -1 else 0]

            def hook(ip_, a, k):
                d = dict(zip(("A", "b", "x_lb", "x_ub"), a))
                d.update(k)
                A = list(ip.cells(d["A"]))
                bb = list(ip.cells(d["b"]))
                n = len(bb)
                for i in range(2):
                    if len(A) == len(net.W[i]) and n == sizes[i + 1] and all(
                            (Rat.of(p) - q).is_zero()
                            for p, q in zip(A, net.W[i])):
                        return (T(ip, [ia[i, j][0] for j in range(n)]),
                                T(ip, [ia[i, j][1] for j in range(n)]))
                return NotImplemented
            ip.hooks["mip_utils.compute_range_by_IA"] = hook
            key = "iamip.%s.%d" % ("gap" if big else "tiny", sh)

            class Quiet(Solver):
                def program(self, *a):
                    pass
            S = Quiet(ck, ip, key, net, value, False, w, ("B", ),
                      (xlo, xup), None, None)

            def go():
                rp = free_pattern(ip, net)
                tl, tu = T(ip, xlo), T(ip, xup)
                r = ip.call(have(ip, rp, "_compute_layer_bound"),
                            [tl, tu, method(ip, "IA_MIP")], {})
                zl, zu, pl, pu = ip.iterate(r)
                ol, ou = ip.iterate(ip.call(
                    have(ip, rp, "_compute_network_output_bounds"),
                    [zl, zu, tl, tu, method(ip, "IA_MIP")], {}))
                for u, L, U, k in (((0, 0), zl, zu, 0), ((0, 1), zl, zu, 1),
                                   ((1, 0), ol, ou, 0)):
                    l, h = Rat.of(ip.cells(L)[k]), Rat.of(ip.cells(U)[k])
                    for nm, e in (("lo", mip[u][0] - l),
                                  ("up", h - mip[u][1]),
                                  ("lo_ia", l - ia[u][0]),
                                  ("up_ia", ia[u][1] - h)):
                        s = poly.sign(e)
                        rule = "the exact bounds lie within the returned " \
                            "ones" if "ia" not in nm else \
                            "the returned bounds are no looser than " \
                            "interval arithmetic"
                        ck.ob("%s.u%d%d.%s" % ((key, ) + u + (nm, )),
                              True if s in ("+", "0", ">=0") else
                              (False if s in ("-", "<=0") else None), rule,
                              "%s has sign %s" % (e, s), w)
                    if big and u[0] == 0:
                        for nm, a, b_ in (("lo", mip[u][0], l),
                                          ("up", mip[u][1], h)):
                            sa, sb = poly.sign(a), poly.sign(b_)
                            keep = sa == "+" if nm == "lo" else sa == "-"
                            if keep:
                                ck.ob("%s.u%d%d.%s.kept" % (
                                    (key, ) + u + (nm, )), sb == sa,
                                    "a unit that is always active (or "
                                    "inactive) stays so", "%s" % b_, w)
            ck.attempt(key, go, where=w)


def check(ck):
    check_ia(ck)
    given_bounds(ck)
    end_to_end(ck)
    by_solver(ck)
    ia_mip(ck)
