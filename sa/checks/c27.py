"""Activation patterns and gradients of (leaky) ReLU networks."""
import itertools

from .. import poly, mic, polytope as pt, gurobi_model as gm
from ..poly import Rat
from ..values import Arr, Undecided, AbsRaise
from . import blocks as bl
from .common import sym, where, F64
from .c11 import T
from .c15 import newvars
from . import c09
from .c09 import Net, weights, patt, free_pattern, classify, interval, \
    CASES, mic_rows, have, ia_range, Prefix

TITLE = "Activation patterns and network gradients are those of the network"
EXPLANATION = (
    "The pattern functions are evaluated on symbolic networks whose "
    "pre-activations have a definite sign (positive, negative or zero), the "
    "piecewise-affine pieces and gradient encodings on fully symbolic "
    "networks for every activation pattern, and their results compared as "
    "normal forms or polyhedra with the composition of the layers.")
ASSUMPTIONS = ("real arithmetic; the solver returns optimal values of the "
               "program it is given; torch and gurobipy calls follow their "
               "documentation", )
MIN_OBS = 200
M = "relu_to_optimization"
RP = "ReLUFreePattern"
Z, ONE = Rat.const(0), Rat.const(1)


# ----------------------------------------------------- networks of known sign
def signed(ip, slope, last=True):
    """2 - 3 - 3 - nout network on positive inputs; each unit's input is
    positive, negative or zero by construction"""
    X = []
    for i in range(2):
        poly.set_bounds("x%d" % i, 0, None, True, True)
        X.append(sym("x%d" % i))
    if slope is not None:
        poly.set_bounds("c", 0, 1, True, True)
    W0 = bl.matrix("W0", ["++", "--", "00"])
    b0 = bl.matrix("B0", ["+-0"])
    # layer-1 outputs: +, (-c or 0), 0
    W1 = bl.matrix("W1", ["-0-", "+-0" if slope is None else "++-", "00+"]
                   if slope is None else ["-0-", "+-0", "00+"])
    b1 = bl.matrix("B1", ["-+0"])
    W2 = weights("W2", 1, 3)
    b2 = [sym("B2.0")]
    net = Net(ip, [2, 3, 3, 1], [W0, W1, W2], [b0, b1, b2], [slope, slope])
    signs = [["+", "-", "0"], ["-", "+", "0"]]
    y = X
    zs = []
    c = Z if slope is None else slope
    for k in range(2):
        pre = [net.bias(k, j) + sum((a * v for a, v in zip(net.w(k, j), y)),
                                    Z) for j in range(3)]
        y = [{"+": p, "-": c * p, "0": Z}[s] for p, s in zip(pre, signs[k])]
        zs += y
    out = net.bias(2, 0) + sum((a * v for a, v in zip(net.w(2, 0), y)), Z)
    return net, X, signs, zs, out


def flag(ip, v):
    """0/1 of a pattern entry"""
    if isinstance(v, Arr):
        v = ip.cells(v)[0]
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, Rat):
        if v == ONE:
            return 1
        if v == Z:
            return 0
        if v == Rat.const(v.const_value()):
            return None
    elif isinstance(v, int):
        return v if v in (0, 1) else None
    try:
        t = ip.truth(v)
    except Undecided:
        return None
    return {True: 1, False: 0}.get(t)


def pattern(ip, v):
    return [[flag(ip, e) for e in ip.iterate(l)] for l in ip.iterate(v)]


def patterns(ck):
    w1 = where(ck.repo, M, "ComputeReLUActivationPattern")
    w2 = where(ck.repo, M, "compute_all_relu_activation_patterns")
    w3 = where(ck.repo, M, RP + ".compute_relu_unit_outputs_and_activation")
    w4 = where(ck.repo, M, "set_activation_warmstart")
    for sl in (None, "c"):
        poly.clear_bounds()
        ip = ck.interp()
        net, X, signs, zs, out = signed(ip, sl and sym("c"))
        t = "leaky" if sl else "relu"
        x = T(ip, X)
        flat = sum(signs, [])

        def fits(p):
            p = sum(p, [])
            return len(p) == len(flat) and all(
                s == "0" and a in (0, 1) or a == {"+": 1, "-": 0}.get(s)
                for a, s in zip(p, flat))

        def one():
            p = pattern(ip, ip.call(ip.get(M, "ComputeReLUActivationPattern"),
                                    [net.seq, x], {}))
            ck.ob("pattern.%s" % t, [len(l) for l in p] == [3, 3] and fits(p),
                  "a unit is active iff its input is positive", str(p), w1)
        ck.attempt("pattern." + t, one, where=w1)

        def all_():
            r = ip.call(ip.get(M, "compute_all_relu_activation_patterns"),
                        [net.seq, x], {})
            ps = [pattern(ip, p) for p in ip.iterate(r)]
            want = sorted([[1, 0, a], [0, 1, b]] for a in (0, 1)
                          for b in (0, 1))
            ck.ob("all_patterns.%s" % t, sorted(ps) == want, "exactly the "
                  "patterns consistent with the input, a unit at zero being "
                  "both active and inactive", str(ps), w2)
        ck.attempt("all_patterns." + t, all_, where=w2)

        def unit():
            rp = free_pattern(ip, net)
            z, beta, o = ip.iterate(ip.call(ip.getattr(
                rp, "compute_relu_unit_outputs_and_activation"), [x], {}))
            for i, (a, b) in enumerate(zip(ip.cells(z), zs)):
                ck.eq("units.%s.z%d" % (t, i), a, b, "unit outputs in layer "
                      "order", w3)
            b = [flag(ip, v) for v in ip.cells(beta)]
            ck.ob("units.%s.beta" % t, fits([b]), "a unit is active iff its "
                  "input is positive", str(b), w3)
            ck.ob("units.%s.n" % t, len(ip.cells(z)) == 6, "one entry per "
                  "unit", "", w3)
            ck.eq("units.%s.out" % t, bl.scalar(ip, o), out, "network "
                  "output", w3)
        ck.attempt("units." + t, unit, where=w3)

        def warm():
            mip = ip.call(ip.get("gurobi_torch_mip", "GurobiTorchMILP"),
                          [F64], {})
            names, bs = newvars(ip, mip, 6, "beta")
            ip.call(ip.get(M, "set_activation_warmstart"), [
                net.seq, bs, x], {})
            got = [ip.attrs(v).get("start", ip.attrs(v).get("Start"))
                   for v in ip.iterate(bs)]
            ck.ob("warmstart.%s.all" % t, None not in got, "every variable "
                  "is given a start", str(got), w4)
            got = [flag(ip, Rat.of(v)) for v in got]
            ck.ob("warmstart.%s" % t, fits([got]), "each variable starts at "
                  "the activation of its unit", str(got), w4)
        ck.attempt("warmstart." + t, warm, where=w4)


def binary_to_pattern(ck):
    w = where(ck.repo, M, "relu_activation_binary_to_pattern")
    poly.clear_bounds()
    ip = ck.interp()
    net = Net(ip, [2, 2, 3, 1], [weights("W%d" % k, o, i) for k, (i, o) in
                                 enumerate(((2, 2), (2, 3), (3, 1)))],
              [[sym("B%d.%d" % (k, j)) for j in range(n)] for k, n in
               enumerate((2, 3, 1))], [None, None])
    f = ip.get(M, "relu_activation_binary_to_pattern")
    for n, bits in enumerate([(1, 0, 1, 1, 0), (0, 0, 1, 0, 1),
                              (1, 1, 0, 0, 0)]):
        def go():
            a = ip.new_arr((5, ), [Rat.const(b) for b in bits], "np",
                           "float")
            p = pattern(ip, ip.call(f, [net.seq, a], {}))
            ck.ob("to_pattern.%d" % n, p == [list(bits[:2]), list(bits[2:])],
                  "the entries of each layer, in order", str(p), w)
        ck.attempt("to_pattern.%d" % n, go, where=w)
    for n, bad in (("value", [1, 0, 2, 0, 1]), ("length", [1, 0, 0, 1])):
        def refuse():
            a = ip.new_arr((len(bad), ), [Rat.const(b) for b in bad], "np",
                           "float")
            try:
                r = ip.call(f, [net.seq, a], {})
            except AbsRaise:
                r = None
            ck.ob("to_pattern.refuse.%s" % n, r is None, "an array that is "
                  "not one bit per unit is refused", "", w)
        ck.attempt("to_pattern.refuse." + n, refuse, where=w)


# ---------------------------------------------- affine piece of one pattern
def piece(net, pat, nx):
    """(J, h, pre) of the network with the units gated by pat"""
    J = [[ONE if i == j else Z for j in range(nx)] for i in range(nx)]
    h = [Z] * nx
    pre = []
    L = len(net.sizes) - 1
    for k in range(L):
        nJ, nh = [], []
        for j in range(net.sizes[k + 1]):
            ws = net.w(k, j)
            nJ.append([sum((a * J[i][n] for i, a in enumerate(ws)), Z)
                       for n in range(nx)])
            nh.append(net.bias(k, j) + sum((a * h[i] for i, a in
                                            enumerate(ws)), Z))
        if k < L - 1:
            pre += list(zip(nJ, nh))
            g = [ONE if p else net.c(k) for p in pat[k]]
            nJ = [[gg * e for e in r] for gg, r in zip(g, nJ)]
            nh = [gg * e for gg, e in zip(g, nh)]
        J, h = nJ, nh
    return J, h, pre


def generic(ip, sizes, slopes, bias=True):
    n = len(sizes) - 1
    return Net(ip, sizes, [weights("W%d" % k, sizes[k + 1], sizes[k])
                           for k in range(n)],
               [[sym("B%d.%d" % (k, j)) for j in range(sizes[k + 1])]
                if bias is True or bias != k else None for k in range(n)],
               slopes)


def kept(ck, ip, key, net, w):
    for k, l in enumerate(net.layers[::2]):
        d = ip.attrs(l)
        for nm, want in (("weight", net.W[k]), ("bias", net.b[k])):
            if want is None:
                continue
            ck.ob("%s.kept.%d.%s" % (key, k, nm), [Rat.of(c) for c in
                  ip.cells(d[nm])] == [Rat.of(c) for c in want],
                  "the network's parameters are left alone", "", w)


def given_pattern(ck):
    w = where(ck.repo, M, "ReLUGivenActivationPattern")
    for sizes, slopes, bias in (([2, 2, 2, 1], [None, None], True),
                                ([2, 2, 2, 1], ["c", None], True),
                                ([3, 2, 2], ["c"], 0)):
        poly.clear_bounds()
        ip = ck.interp()
        sl = [s and sym(s) for s in slopes]
        net = generic(ip, sizes, sl, bias)
        nx = sizes[0]
        key0 = "piece.%s.%s" % ("-".join(map(str, sizes)), "".join(
            "l" if s else "r" for s in slopes))
        for bits in itertools.product((True, False), repeat=len(net.units())):
            pat, k = [], 0
            for n in sizes[1:-1]:
                pat.append(list(bits[k:k + n]))
                k += n
            key = "%s.%s" % (key0, "".join("01"[b] for b in bits))

            def go():
                g, h, P, q = ip.iterate(ip.call(
                    ip.get(M, "ReLUGivenActivationPattern"), [
                        net.seq, nx, ip.new_list([ip.new_list(list(p))
                                                  for p in pat]), F64], {}))
                J, hh, pre = piece(net, pat, nx)
                no = sizes[-1]
                ck.ob(key + ".shape", tuple(g.shape) == (nx, no) and len(
                    ip.cells(h)) == no, "g has one row per input", "%s %s" %
                    (g.shape, h.shape), w)
                gc = ip.cells(g)
                for i in range(nx):
                    for o in range(no):
                        ck.eq("%s.g%d%d" % (key, i, o), gc[i * no + o],
                              J[o][i], "gradient of the affine piece", w)
                for o in range(no):
                    ck.eq("%s.h%d" % (key, o), ip.cells(h)[o], hh[o],
                          "offset of the affine piece", w)
                pc, qc = ip.cells(P), ip.cells(q)
                ck.ob(key + ".rows", tuple(P.shape) == (len(pre), nx) and
                      len(qc) == len(pre), "one row of P x <= q per unit",
                      "%s %s" % (P.shape, q.shape), w)
                got = sorted(str(sum((pc[r * nx + i] * sym("x%d" % i)
                                      for i in range(nx)), Z) - qc[r])
                             for r in range(len(qc)))
                want = []
                for (a, c), b in zip(pre, bits):
                    e = c + sum((t * sym("x%d" % i) for i, t in
                                 enumerate(a)), Z)
                    want.append(str(-e if b else e))
                ck.ob(key + ".region", got == sorted(want), "P x <= q says "
                      "that every unit is on the side its pattern names",
                      "only in code %s; missing %s" % (
                          [g_ for g_ in got if g_ not in want][:2],
                          [g_ for g_ in want if g_ not in got][:2]), w)
            ck.attempt(key, go, where=w)
        kept(ck, ip, key0, net, w)


# -------------------------------------------- gradient in products of bits
def output_gradient(ck):
    w = where(ck.repo, M, RP + ".output_gradient")
    w2 = where(ck.repo, M, RP + ".compute_alpha_index")
    for sizes in ([2, 2, 1], [2, 2, 2, 1], [2, 3, 2, 1]):
        poly.clear_bounds()
        ip = ck.interp()
        net = generic(ip, sizes, [None] * (len(sizes) - 2))
        key = "grad." + "-".join(map(str, sizes))
        hid = sizes[1:-1]

        def go():
            rp = free_pattern(ip, net)
            Mm, B1, B2, d = ip.iterate(ip.call(ip.getattr(
                rp, "output_gradient"), [], {}))
            paths = list(itertools.product(*[range(n) for n in hid]))
            idx = {}
            for p in paths:
                v = ip.call(ip.getattr(rp, "compute_alpha_index"), [
                    tuple(p)], {})
                idx[p] = int(str(v))
            ck.ob(key + ".index", sorted(idx.values()) == list(range(len(
                paths))), "the index of a path of units is a bijection",
                str(idx), w2)
            inv = {v: k for k, v in idx.items()}
            na, nb, nx = len(paths), sum(hid), sizes[0]
            ck.ob(key + ".shape", tuple(Mm.shape) == (na, nx) and B1.shape[1]
                  == na and B2.shape[1] == nb and B1.shape[0] == B2.shape[0]
                  == len(ip.cells(d)), "one column per product, one per "
                  "unit", "%s %s %s %s" % (Mm.shape, B1.shape, B2.shape,
                                           d.shape), w)
            off = [sum(hid[:k]) for k in range(len(hid))]
            mc = ip.cells(Mm)
            for beta in itertools.product((0, 1), repeat=nb):
                pat = [[bool(b) for b in beta[o:o + n]] for o, n in zip(
                    off, hid)]
                J, _, _ = piece(net, pat, nx)
                al = [1 if all(pat[k][u] for k, u in enumerate(inv[a]))
                      else 0 for a in range(na)]
                for i in range(nx):
                    g = sum((mc[a * nx + i] for a in range(na) if al[a]), Z)
                    ck.eq("%s.b%s.%d" % (key, "".join(map(str, beta)), i), g,
                          J[0][i], "alpha^T M is the gradient of the network "
                          "with the units gated by beta", w)
            num = [[int(str(c)) for c in ip.cells(a)] for a in (B1, B2, d)]
            m = len(num[2])
            R1 = [num[0][r * na:(r + 1) * na] for r in range(m)]
            R2 = [num[1][r * nb:(r + 1) * nb] for r in range(m)]
            bad = None
            for beta in itertools.product((0, 1), repeat=nb):
                s2 = [sum(a * b for a, b in zip(r, beta)) for r in R2]
                sat = []
                for al in itertools.product((0, 1), repeat=na):
                    if all(sum(a * b for a, b in zip(R1[r], al)) + s2[r]
                           <= num[2][r] for r in range(m)):
                        sat.append(al)
                want = [tuple(1 if all(beta[off[k] + u] for k, u in
                                       enumerate(inv[a])) else 0
                              for a in range(na))]
                if sat != want:
                    bad = (beta, sat, want)
            ck.ob(key + ".products", bad is None, "the rows admit exactly "
                  "alpha = products of beta", str(bad)[:200], w)
        ck.attempt(key, go, where=w)

    def leaky():
        ip = ck.interp()
        net = generic(ip, [2, 2, 1], [sym("c")])
        rp = free_pattern(ip, net)
        try:
            ip.call(ip.getattr(rp, "output_gradient"), [], {})
            r = False
        except AbsRaise:
            r = True
        ck.ob("grad.leaky", r, "leaky units are refused: the gradient is not "
              "a sum over active paths", "", w)
    ck.attempt("grad.leaky", leaky, where=w)


# ------------------------------------------------------ gradient times vector
def gates(ck, key, rows, lo, up, c, w):
    """rows over (v, y, b) say y = (b + c (1 - b)) v on lo <= v <= up"""
    N = ["v", "y", "b"]
    v, y = sym("v"), sym("y")
    bd = [pt.row(lo - v, "<", N, "v>=lo"), pt.row(v - up, "<", N, "v<=up")]
    for b in (0, 1):
        P = pt.fix(rows, {"b": Rat.const(b)}) + bd
        Q = [pt.row(y - (v if b else c * v), "=", N, "y=g v")] + bd
        mic.same_set(ck, "%s.b%d" % (key, b), P, Q, ["v", "y"],
                     "the slack of a unit is its gate times its input", w)


def shape_out(ck, key, m, net, w):
    L = len(net.sizes) - 2
    off = sum(net.sizes[1:-2])
    for k in range(net.sizes[-1]):
        for n in range(len(net.units())):
            want = net.w(L, k)[n - off] if n >= off else Z
            ck.eq("%s.Aout[%d,%d]" % (key, k, n), m.m["Aout_slack"][k][n],
                  want, "the product is the last layer on the last slacks",
                  w)
        for f in ("Aout_input", "Aout_binary"):
            for a in (m.m[f] or [[]])[k if m.m[f] else 0]:
                ck.eq("%s.%s" % (key, f), a, Z, "no other term", w)
    for a in m.v["Cout"] or []:
        ck.eq(key + ".Cout", a, Z, "no constant term", w)


def zero_bias(net):
    class N(Net):
        def __init__(self):
            self.sizes, self.W, self.slopes = net.sizes, net.W, net.slopes
            self.b = [None] * len(net.b)
    return N()


def with_bounds(ck):
    w = where(ck.repo, M, RP + ".output_gradient_times_vector_w_bounds")
    for sizes, cn, sh in (([2, 2, 2, 1], "relu", 0), ([2, 2, 2, 1], "small",
                                                      1),
                          ([2, 3, 2], "relu", 2), ([2, 2, 2, 1], "relu", 3),
                          ([2, 2, 2], "small", 4), ([3, 2, 1], "large", 0)):
        poly.clear_bounds()
        ip = ck.interp()
        c = c09.slope_case(cn)
        net = generic(ip, sizes, [c] * (len(sizes) - 2))
        un = net.units()
        bd = {u: interval(CASES[(n + sh) % 5], ".%d%d" % u)
              for n, u in enumerate(un)}
        key = "times.%s.%s.%d" % ("-".join(map(str, sizes)), cn, sh)

        def go():
            rp = free_pattern(ip, net)
            L = len(sizes) - 1
            W = [[], []]
            for e, nm in ((0, "lo"), (1, "up")):
                for k in range(L):
                    W[e].append(T(ip, [
                        bd[k, j][e] if (k, j) in bd else
                        sym("out.%s%d" % (nm, j))
                        for j in range(sizes[k + 1])]))
            zz = [[T(ip, [sym("z%s%d.%d" % (nm, k, j)) for j in
                          range(sizes[k])]) for k in range(L)]
                  for nm in ("l", "u")]
            ret = ip.call(ip.getattr(
                rp, "output_gradient_times_vector_w_bounds"), [
                    ip.new_list(zz[0]), ip.new_list(zz[1]),
                    ip.new_list(W[0]), ip.new_list(W[1])], {})
            m, rows, X, Y, B = mic_rows(ip, ret, net)
            cl, xr = classify(ck, key, rows, zero_bias(net), X, Y, B, w)
            ck.ob(key + ".input", not xr, "no row on the vector alone",
                  str(xr), w)
            for u in un:
                gates(ck, "%s.u%d%d" % ((key, ) + u), cl[u], *bd[u],
                      net.c(u[0]), w)
            shape_out(ck, key, m, net, w)
            for f, want in (("z_lo", zz[0]), ("z_up", zz[1]),
                            ("Wz_lo", W[0]), ("Wz_up", W[1])):
                got = [list(ip.cells(a)) for a in ip.iterate(
                    ip.getattr(ret, f))]
                ck.ob("%s.%s" % (key, f), got == [list(ip.cells(a)) for a in
                                                  want],
                      "the bounds are reported as given", "", w)
        ck.attempt(key, go, where=w)
        kept(ck, ip, key, net, w)


def with_ia(ck):
    w = where(ck.repo, M, RP + ".output_gradient_times_vector")
    for sizes, cn in (([2, 2, 1], "relu"), ([2, 2, 1], "small"),
                      ([2, 2, 2, 1], "relu"), ([2, 2, 2, 2], "small")):
        poly.clear_bounds()
        ip = ck.interp()
        c = c09.slope_case(cn)
        L = len(sizes) - 1
        pats = [patt(sizes[k + 1], sizes[k], k) for k in range(L)]
        W = [weights("W%d" % k, sizes[k + 1], sizes[k], pats[k])
             for k in range(L)]
        net = Net(ip, sizes, W, [[sym("B%d.%d" % (k, j)) for j in range(
            sizes[k + 1])] for k in range(L)], [c] * (L - 1))
        # a box around 0 in every coordinate: every range straddles 0
        lo, up = [], []
        for i in range(sizes[0]):
            poly.set_bounds("vl%d" % i, 0, None, True, True)
            poly.set_bounds("vu%d" % i, 0, None, True, True)
            lo.append(-sym("vl%d" % i))
            up.append(sym("vu%d" % i))
        key = "ia.%s.%s" % ("-".join(map(str, sizes)), cn)

        def go():
            rp = free_pattern(ip, net)
            ret = ip.call(ip.getattr(rp, "output_gradient_times_vector"), [
                T(ip, lo), T(ip, up)], {})
            l, u = lo, up
            bd = {}
            for k in range(L):
                for f, want in (("z_lo", l), ("z_up", u)):
                    got = ip.cells(ip.iterate(ip.getattr(ret, f))[k])
                    for j, (a, b) in enumerate(zip(got, want)):
                        ck.eq("%s.%s.%d.%d" % (key, f, k, j), a, b,
                              "interval range of the slack", w)
                r = [ia_range(net.w(k, j), Z, pats[k][j], l, u)
                     for j in range(sizes[k + 1])]
                for e, f in ((0, "Wz_lo"), (1, "Wz_up")):
                    got = ip.cells(ip.iterate(ip.getattr(ret, f))[k])
                    for j, a in enumerate(got):
                        ck.eq("%s.%s.%d.%d" % (key, f, k, j), a, r[j][e],
                              "interval range of the gradient", w)
                for j, q in enumerate(r):
                    bd[k, j] = q
                l, u = [q[0] for q in r], [q[1] for q in r]
            m, rows, X, Y, B = mic_rows(ip, ret, net)
            cl, xr = classify(ck, key, rows, zero_bias(net), X, Y, B, w)
            for un in net.units():
                gates(ck, "%s.u%d%d" % ((key, ) + un), cl[un], *bd[un],
                      net.c(un[0]), w)
            shape_out(ck, key, m, net, w)
        ck.attempt(key, go, where=w)
    # one-sided ranges, one layer at a time
    w = where(ck.repo, M, RP + "._compute_Wz_bounds_IA")
    for cn in ("relu", "small"):
        for side in "+-":
            poly.clear_bounds()
            ip = ck.interp()
            c = c09.slope_case(cn)
            net = Net(ip, [1, 2, 1], [weights("W0", 2, 1, ["+", "-"]),
                                      weights("W1", 1, 2, ["+-"])],
                      [None, None], [c])
            for n in "ab":
                poly.set_bounds(n, 0, None, True, True)
            a, b = sym("a"), sym("b")
            lo, up = (a, a + b) if side == "+" else (-a - b, -a)
            key = "ia1.%s.%s" % (cn, side)

            def go():
                rp = free_pattern(ip, net)
                ret = ip.call(ip.getattr(rp, "output_gradient_times_vector"),
                              [T(ip, [lo]), T(ip, [up])], {})
                c0 = Z if c is None else c
                for j, s in ((0, "+"), (1, "-")):
                    q = net.w(0, j)[0]
                    wl, wu = (q * lo, q * up) if s == "+" else (q * up,
                                                                q * lo)
                    pos = (s == side)
                    zl, zu = (c0 * wl, wu) if pos else (wl, c0 * wu)
                    for f, k, v in (("Wz_lo", 0, wl), ("Wz_up", 0, wu),
                                    ("z_lo", 1, zl), ("z_up", 1, zu)):
                        got = ip.cells(ip.iterate(ip.getattr(ret, f))[k])[j]
                        ck.eq("%s.%s.%d" % (key, f, j), got, v,
                              "range over both gate values", w)
            ck.attempt(key, go, where=w)


def by_solver(ck):
    """bounds of the slacks by optimisation"""
    w = where(ck.repo, M, RP + "._compute_Wz_bounds_optimization")
    for cn, sh, sizes in (("relu", 0, [2, 2, 2, 1]),
                          ("small", 2, [2, 2, 2, 1]),
                          ("relu", 3, [2, 2, 2, 1]),
                          ("relu", 1, [2, 3, 2, 2]),
                          ("small", 0, [3, 2, 3, 1])):
        poly.clear_bounds()
        ip = ck.interp()
        c = c09.slope_case(cn)
        net = generic(ip, sizes, [c, c])
        un = net.units()
        bd = {("W", ) + u: interval(CASES[(n + sh) % 5], ".%d%d" % u)
              for n, u in enumerate(un)}
        for j in range(sizes[3]):
            bd["W", 2, j] = (sym("out.lo%d" % j), sym("out.up%d" % j))
        for k in range(3):
            for j in range(sizes[k]):
                bd["z", k, j] = (sym("z.lo%d%d" % (k, j)),
                                 sym("z.up%d%d" % (k, j)))
        key = "opt.%s.%s.%d" % (cn, "-".join(map(str, sizes)), sh)
        st = {"done": [], "z": {}}

        def go():
            mip = ip.call(ip.get("gurobi_torch_mip", "GurobiTorchMILP"),
                          [F64], {})
            zn, zv = newvars(ip, mip, sizes[0], "z0")
            bn, bv = newvars(ip, mip, sum(sizes[1:3]), "beta")
            ip.call(ip.getattr(mip, "addLConstr"), [
                ip.new_list([T(ip, [sym("k%d" % q) for q in range(
                    sizes[0])])]),
                ip.new_list([zv])], {"sense": "<", "rhs": sym("kr"),
                                     "name": "callback"})
            model = mic.mip_model(ip, mip)
            Y = [[str(n) for n in zn]]
            Bn, k = [], 0
            for n in sizes[1:3]:
                Bn.append([str(b) for b in bn[k:k + n]])
                k += n

            def result(ip_, o, kind):
                if kind != "obj":
                    return None
                e, s = gm.objective(ip, o)
                vs = [v[0] for v in gm.variables(ip, o)]
                a, c_ = pt.linear(Rat.of(e), vs)
                hit = None
                base = set(Y[0]) | set(sum(Bn, []))
                new = [v for v in vs if v not in base]
                # slack names in order of creation are the units in order
                names = {}
                for n, v in enumerate(new):
                    names[un[n]] = v
                lay = {0: Y[0]}
                for q in (0, 1):
                    lay[q + 1] = [names.get((q, j)) for j in range(
                        sizes[q + 1])]
                for kk in range(3):
                    for j in range(sizes[kk + 1]):
                        if None not in lay[kk] and all(
                                (Rat.of(a.get(n, Z)) - x).is_zero()
                                for n, x in zip(lay[kk], net.w(kk, j))) and \
                                set(a) <= set(lay[kk]):
                            hit = ("W", kk, j)
                    for j, n in enumerate(lay.get(kk, [])):
                        if n is not None and set(a) == {n} and \
                                a[n] == ONE:
                            hit = ("z", kk, j)
                if hit is None or not Rat.of(c_).is_zero():
                    ck.ob(key + ".objective", False, "each bound optimises "
                          "one slack or one unit input", str(e), w)
                    return None
                if (hit, s) not in st["done"]:
                    st["done"].append((hit, s))
                    program(o, hit, s, lay, vs, new)
                return bd[hit][1 if s == -1 else 0]

            def program(o, hit, s, lay, vs, new):
                kk = "%s.%s%d%d.%s" % ((key, ) + hit + (
                    "max" if s == -1 else "min", ))
                rows, extra = [], 0
                for e, sn, nm, wh in gm.rows(ip, o):
                    if "callback" in str(nm):
                        extra += 1
                        continue
                    rows.append(pt.row(e, sn, vs, "%s@%s" % (nm, wh)))
                ck.ob(kk + ".given", extra == 1, "the caller's constraints "
                      "are kept", str(extra), w)
                for v in gm.variables(ip, o):
                    if v[0] in new:
                        ck.ob(kk + ".free", poly._is_inf(-v[1]) and
                              poly._is_inf(v[2]) and v[3] == "C",
                              "slacks are free", str(v[1:]), w)
                YY = [[lay[q + 1][j] or "none%d%d" % (q, j)
                       for j in range(sizes[q + 1])] for q in (0, 1)]
                cl, xr = classify(ck, kk, rows, zero_bias(net), lay[0], YY,
                                  Bn, w)
                # every earlier layer is in the program
                need = [u for u in un if u[0] < hit[1]] if hit[0] == "W" \
                    else [u for u in un if u[0] < hit[1] - 1 or
                          u == (hit[1] - 1, hit[2])]
                for u in un:
                    if cl[u] or u in need:
                        gates(ck, "%s.u%d%d" % ((kk, ) + u), cl[u],
                              *bd[("W", ) + u], net.c(u[0]), w)

            ip.grb_result = result
            rp = free_pattern(ip, net)
            r = ip.iterate(ip.call(have(
                ip, rp, "_compute_Wz_bounds_optimization"), [
                    model, zv, bv], {}))
            for e, nm, t, at in ((0, "z_lo", "z", 0), (1, "z_up", "z", 1),
                                 (0, "Wz_lo", "W", 2), (1, "Wz_up", "W", 3)):
                ls = ip.iterate(r[at])
                ck.ob("%s.%s.n" % (key, nm), len(ls) == 3, "one entry per "
                      "layer", str(len(ls)), w)
                for q, a in enumerate(ls):
                    n = sizes[q + (t == "W")]
                    ck.ob("%s.%s.%d.n" % (key, nm, q), len(ip.cells(a)) == n,
                          "one bound per unit", str(a.shape), w)
                    for j, cc in enumerate(ip.cells(a)[:n]):
                        ck.eq("%s.%s.%d.%d" % (key, nm, q, j), cc,
                              bd[t, q, j][e], "the bound is the optimal "
                              "value of its program", w)
        ck.attempt(key, go, where=w)


def one_sided(ck):
    """relu_network_gradient: every one-sided gradient at a point"""
    w = where(ck.repo, "utils", "relu_network_gradient")
    # sign of each unit's input: p, n; 0: at the kink; s, t: within the
    # tolerance, above and below it
    cfgs = [([2, 3, 2], "pn0"), ([3, 2, 1], "00"), ([3, 2, 1], "np"),
            ([1, 2, 2, 1], "0p0n"), ([1, 2, 2, 3], "p0n0"),
            ([2, 1, 2, 2], "p00"), ([2, 1, 3, 1], "n0p0"),
            ([2, 3, 2], "spt"), ([2, 2, 2, 1], "stp0"), ([1, 3, 1], "nts")]
    for (sizes, pat), cn, bias in itertools.product(
            cfgs, ("relu", "small"), (True, False)):
        if not bias and cn == "small":
            continue
        poly.clear_bounds()
        ip = ck.interp()
        c = c09.slope_case(cn)
        L = len(sizes) - 1
        tol = set(pat) & set("st")
        W = [weights("W%d" % k, sizes[k + 1], sizes[k]) for k in range(L)]
        x = [sym("x%d" % i) for i in range(sizes[0])]
        b, h, n = [], list(x), 0
        poly.set_bounds("tol", 0, None, True, True)
        for k in range(L - 1):
            bk, nh = [], []
            for j in range(sizes[k + 1]):
                v = "v%d" % n
                poly.set_bounds(v, 0, None, True, True)
                lin = sum((W[k][j * sizes[k] + i] * h[i]
                           for i in range(sizes[k])), Z)
                val = {"p": sym(v) + (sym("tol") if tol else Z),
                       "n": -sym(v) - (sym("tol") if tol else Z), "0": Z,
                       "s": sym("tol") / Rat.const(2),
                       "t": -sym("tol") / Rat.const(3)}[pat[n]]
                bk.append(val - lin)
                cc = Z if c is None else Rat.of(c)
                nh.append(val if pat[n] in "ps0" else cc * val)
                n += 1
            b.append(bk)
            h = nh
        b.append([sym("B%d" % j) for j in range(sizes[-1])] if bias
                 else None)
        net = Net(ip, sizes, W, b, [c] * (L - 1))
        key = "onesided.%s.%s.%s.%d" % ("-".join(map(str, sizes)), pat, cn,
                                        bias)

        def go():
            r = ip.call(ip.get("utils", "relu_network_gradient"), [
                net.seq, T(ip, x)], {"zero_tol": sym("tol")} if tol else {})
            kinks = [i for i, e in enumerate(pat) if e in "0st"]
            want = []
            for ch in itertools.product((True, False), repeat=len(kinks)):
                on = [e == "p" for e in pat]
                for i, a in zip(kinks, ch):
                    on[i] = a
                J = [[ONE if i == j else Z for i in range(sizes[0])]
                     for j in range(sizes[0])]
                m = 0
                for k in range(L):
                    J = [[sum((W[k][j * sizes[k] + i] * J[i][q]
                               for i in range(sizes[k])), Z)
                          for q in range(sizes[0])]
                         for j in range(sizes[k + 1])]
                    if k < L - 1:
                        J = [[e * (ONE if on[m + j] else net.c(k))
                              for e in row] for j, row in enumerate(J)]
                        m += sizes[k + 1]
                want.append(tuple(str(e) for row in J for e in row))
            q = sizes[0] * sizes[-1]
            ck.ob(key + ".shape", isinstance(r, Arr) and len(r.shape) == 3
                  and tuple(r.shape[1:]) == (sizes[-1], sizes[0]),
                  "(gradients, outputs, inputs)", str(getattr(
                      r, "shape", r)), w)
            cs = [str(Rat.of(e)) for e in ip.cells(r)]
            got = {tuple(cs[i:i + q]) for i in range(0, len(cs), q)}
            ck.ob(key, got == set(want), "exactly the gradients with each "
                  "unit at its kink taken from either side", "%s, expected "
                  "%s" % (sorted(got), sorted(set(want))), w)
        ck.attempt(key, go, where=w)
    poly.clear_bounds()


def check(ck):
    for n, g in (("onesided", one_sided), ("patterns", patterns), ("to_pattern", binary_to_pattern),
                 ("piece", given_pattern), ("grad", output_gradient),
                 ("times", with_bounds), ("ia", with_ia),
                 ("opt", by_solver)):
        poly.clear_bounds()
        ck.attempt(n, lambda: g(ck))
    poly.clear_bounds()
