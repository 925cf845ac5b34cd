"""Big-M encodings of piecewise linear units are exact."""
import itertools

from .. import poly, polytope as pt, mic, gurobi_model as gm
from ..poly import Rat
from ..values import Arr, ListV, ExtV
from .common import sym, where, F64

TITLE = "Mixed-integer encodings of piecewise-linear units are exact"
EXPLANATION = (
    "Each encoding function of utils.py (product of a binary and a "
    "continuous variable, max, leaky-ReLU gradient times x, |x|, ReLU, leaky "
    "ReLU, saturation, box boundary) is evaluated with symbolic bounds in "
    "every sign case of the bounds. For every 0/1 assignment of the binaries "
    "the returned linear rows are compared, as polyhedra with symbolic "
    "coefficients, with the documented set {(x, y)}: inclusion both ways, by "
    "Farkas combinations whose signs the interval domain decides.")
ASSUMPTIONS = ("real arithmetic; torch tensor constructors and gurobipy "
               "calls follow their documentation", )
MIN_OBS = 300
U = "utils"
x, y = sym("x"), sym("y")


def t0(ip, v):
    return ip.new_arr((), [Rat.of(v)], "torch", "float")


def tv(ip, vs):
    return ip.new_arr((len(vs), ), [Rat.of(v) for v in vs], "torch", "float")


def pos(*names):
    for n in names:
        poly.set_bounds(n, 0, None, True)
    return [sym(n) for n in names]


def tuple_rows(ip, ret, bname):
    """(A_x, A_y, A_b, rhs) -> rows"""
    A = [ip.cells(a) for a in ip.iterate(ret)]
    N = ["x", "y", bname]
    return [pt.le(Rat.of(a) * x + Rat.of(b) * y + Rat.of(c) * sym(bname),
                  Rat.of(r), N, "row%d" % i)
            for i, (a, b, c, r) in enumerate(zip(*A))]


def per_binary(ck, key, rows, bn, spec, names, w, rule):
    for beta in itertools.product((0, 1), repeat=len(bn)):
        P = pt.fix(rows, dict(zip(bn, beta)))
        mic.same_set(ck, "%s.b=%s" % (key, "".join(map(str, beta))), P,
                     spec(*beta), names, rule, w)


def R(*rows):
    N = ["x", "y"] + ["x%d" % i for i in range(4)]
    return [pt.row(e, s, N, "spec") for e, s in rows]


def box(lo, up, v=x):
    return [(lo - v, "<"), (v - up, "<")]


# cases of the interval [lo, up]
def cases():
    poly.clear_bounds()
    p, q, r = pos("p", "q", "r")
    z = Rat.const(0)
    return {"straddle": (-p, q), "positive": (r, r + p),
            "negative": (-r - p, -r), "from0": (z, q), "to0": (-p, z),
            }


def product(ck):
    f = "replace_binary_continuous_product"
    w = where(ck.repo, U, f)
    for cn, (lo, up) in cases().items():
        for kind in ("tensor", "float"):
            ip = ck.interp()
            a, b = (t0(ip, lo), t0(ip, up)) if kind == "tensor" else (lo, up)
            rows = tuple_rows(ip, ip.call(ip.get(U, f), [a, b], {}), "b")
            per_binary(ck, "product.%s.%s" % (kind, cn), rows, ["b"],
                       lambda bb: R((y - (x if bb else 0), "="),
                                    *box(lo, up)),
                       ["x", "y"], w, "s = alpha * x")


def relu(ck):
    f = "replace_relu_with_mixed_integer_constraint"
    w = where(ck.repo, U, f)
    lo, up = cases()["straddle"]
    for kind in ("tensor", "float"):
        ip = ck.interp()
        a, b = (t0(ip, lo), t0(ip, up)) if kind == "tensor" else (lo, up)
        rows = tuple_rows(ip, ip.call(ip.get(U, f), [a, b], {}), "b")
        per_binary(ck, "relu." + kind, rows, ["b"],
                   lambda bb: R((y - x, "="), *box(Rat.const(0), up)) if bb
                   else R((y, "="), *box(lo, Rat.const(0))),
                   ["x", "y"], w, "y = relu(x)")


def slopes():
    poly.set_bounds("c01", 0, 1, True, True)
    poly.set_bounds("cn", None, 0, True, True)
    poly.set_bounds("cg", 1, None, True, True)
    return {"small": sym("c01"), "negative": sym("cn"), "large": sym("cg"),
            "one": Rat.const(1), "zero": Rat.const(0)}


def leaky(ck):
    f = "replace_leaky_relu_mixed_integer_constraint"
    w = where(ck.repo, U, f)
    for cn in slopes():
        lo, up = cases()["straddle"]
        c = slopes()[cn]
        for kind in ("tensor", "float"):
            ip = ck.interp()
            a, b = (t0(ip, lo), t0(ip, up)) if kind == "tensor" else (lo, up)

            def go():
                rows = tuple_rows(ip, ip.call(ip.get(U, f), [c, a, b], {}),
                                  "b")
                if cn == "one":
                    # both branches of the unit agree: y = x
                    for bb in (0, 1):
                        P = pt.fix(rows, {"b": bb})
                        mic.same_set(ck, "leaky.%s.one.b=%d" % (kind, bb),
                                     P + R(*box(lo, up)),
                                     R((y - x, "="), *box(lo, up)),
                                     ["x", "y"], w, "y = leaky_relu(x)")
                    return
                per_binary(ck, "leaky.%s.%s" % (kind, cn), rows, ["b"],
                           lambda bb: R((y - x, "="),
                                        *box(Rat.const(0), up)) if bb
                           else R((y - c * x, "="), *box(lo, Rat.const(0))),
                           ["x", "y"], w, "y = leaky_relu(x)")
            ck.attempt("leaky.%s.%s" % (kind, cn), go, where=w)


def leaky_grad(ck):
    f = "leaky_relu_gradient_times_x"
    w = where(ck.repo, U, f)
    for sn in slopes():
        for cn in cases():
            lo, up = cases()[cn]
            c = slopes()[sn]
            for kind in ("tensor", "float"):
                ip = ck.interp()
                a, b = (t0(ip, lo), t0(ip, up)) if kind == "tensor" else (
                    lo, up)

                def go():
                    rows = tuple_rows(ip, ip.call(
                        ip.get(U, f), [a, b, c], {}), "b")
                    if sn == "one":
                        rows = rows + R(*box(lo, up))
                    per_binary(ck, "leaky_gradient.%s.%s.%s" %
                               (kind, sn, cn), rows, ["b"],
                               lambda bb: R((y - (x if bb else c * x), "="),
                                            *box(lo, up)),
                               ["x", "y"], w, "y = (alpha ? 1 : c) * x")
                ck.attempt("leaky_gradient.%s.%s.%s" % (kind, sn, cn), go,
                           where=w)


def absolute(ck):
    f = "absolute_value_as_mixed_integer_constraint"
    w = where(ck.repo, U, f)
    Z = Rat.const(0)
    for zero in (False, True):
        for cn in cases():
            for kind in ("tensor", "float"):
                lo, up = cases()[cn]
                ip = ck.interp()
                a, b = (t0(ip, lo), t0(ip, up)) if kind == "tensor" else (
                    lo, up)

                def go():
                    ret = ip.call(ip.get(U, f), [a, b], {
                        "binary_for_zero_input": zero})
                    m = mic.Mic(ip, ret)
                    key = "abs.%s%s.%s" % ("zero." if zero else "", kind, cn)
                    nb = 3 if zero else 1
                    ck.ob(key + ".shape", m.n["slack"] == 1 and
                          m.n["input"] == 1 and m.n["binary"] == nb and
                          m.nout == 1, "one input, one slack = output",
                          str(m.n), w)
                    nm = m.names()
                    rows = m.rows(nm, ["y"])
                    rows = pt.eliminate(rows, "s0")
                    rows = [pt.Row({("x" if v == "x0" else v): k
                                    for v, k in r.a.items()}, r.c, r.s,
                                   r.label) for r in rows]

                    def spec(*al):
                        if zero:
                            if sum(al) != 1:
                                return None
                            i = al.index(1)
                            if i == 1:
                                iv = (Z, Z) if cn in (
                                    "straddle", "from0", "to0") else None
                            elif i == 0:
                                iv = {"straddle": (lo, Z), "to0": (lo, Z),
                                      "negative": (lo, up)}.get(cn)
                            else:
                                iv = {"straddle": (Z, up), "from0": (Z, up),
                                      "positive": (lo, up)}.get(cn)
                            sg = -1 if i == 0 else 1
                        else:
                            if al[0]:
                                iv = {"straddle": (Z, up), "from0": (Z, up),
                                      "positive": (lo, up)}.get(cn)
                                sg = 1
                            else:
                                iv = {"straddle": (lo, Z), "to0": (lo, Z),
                                      "negative": (lo, up)}.get(cn)
                                sg = -1
                        if iv is None:
                            return None
                        return R((y - sg * x, "="), *box(*iv))
                    per_binary(ck, key, rows, nm["binary"], spec,
                               ["x", "y"], w, "s = |x|")
                ck.attempt("abs.%s.%s.%s" % (zero, kind, cn), go, where=w)


def maximum(ck):
    f = "max_as_mixed_integer_constraint"
    w = where(ck.repo, U, f)

    def mk(cn):
        poly.clear_bounds()
        a, b, c, d, e, g = pos("a", "b", "c", "d", "e", "g")
        t = sym("t")
        # overlap, one dominated, two dominated, one survivor, single entry
        return {
            "overlap2": ([t, t + a], [t + a + b, t + a + b + c]),
            "overlap3": ([t, t + a, t + a / 2],
                         [t + a + b, t + a + b + c, t + a + b + d]),
            "dominated1": ([t, t + a + b], [t + a, t + a + b + c]),
            "dominated1of3": ([t + a + b, t, t + a + b + c],
                              [t + a + b + c + d, t + a,
                               t + a + b + c + d + e]),
            "touching": ([t, t + a], [t + a, t + a + b]),
            "single": ([t], [t + a]),
        }[cn]
    for cn in ("overlap2", "overlap3", "dominated1", "dominated1of3",
               "touching", "single"):
        los, ups = mk(cn)
        n = len(los)
        ip = ck.interp()

        def go():
            ret = ip.call(ip.get(U, f), [tv(ip, los), tv(ip, ups)], {})
            m = mic.Mic(ip, ret)
            key = "max." + cn
            ck.ob(key + ".shape", m.n["input"] == n and m.n["binary"] == n
                  and m.nout == 1, "one binary per entry", str(m.n), w)
            nm = m.names()
            rows = pt.eliminate(m.rows(nm, ["y"]), "s0")
            xs = [sym("x%d" % i) for i in range(n)]
            N = ["x%d" % i for i in range(n)] + ["y"]
            bx = [q for i in range(n) for q in box(los[i], ups[i], xs[i])]

            def spec(*al):
                if sum(al) != 1:
                    return None
                i = al.index(1)
                if any(poly.sign(los[j] - ups[i]) == "+" for j in range(n)):
                    return None
                return [pt.row(e, s, N) for e, s in bx + [
                    (y - xs[i], "=")] + [(xs[j] - y, "<")
                                         for j in range(n)]]
            per_binary(ck, key, rows + [pt.row(e, s, N) for e, s in bx],
                       nm["binary"], spec, N, w, "y = max(x)")
        ck.attempt("max." + cn, go, where=w)


def boundary(ck):
    f = "box_boundary"
    w = where(ck.repo, U, f)
    for n in (1, 2, 3):
        poly.clear_bounds()
        ds = pos(*["d%d" % i for i in range(n)])
        los = [sym("l%d" % i) for i in range(n)]
        ups = [a + b for a, b in zip(los, ds)]
        ip = ck.interp()

        def go():
            m = mic.Mic(ip, ip.call(ip.get(U, f), [tv(ip, los), tv(ip, ups)],
                                    {}))
            nm = m.names()
            N = nm["input"]
            rows = m.rows(nm)

            def spec(*al):
                if sum(al) != 1:
                    return None
                i = al.index(1)
                k, side = i % n, i // n
                q = [t for j in range(n)
                     for t in box(los[j], ups[j], sym("x%d" % j))]
                q.append((sym("x%d" % k) - (los, ups)[1 - side][k], "="))
                return [pt.row(e, s, N) for e, s in q]
            per_binary(ck, "box_boundary%d" % n, rows, nm["binary"], spec, N,
                       w, "x on the boundary: b1[i] => x[i] = up, b2[i] => "
                       "x[i] = lo")
        ck.attempt("box_boundary%d" % n, go, where=w)


def saturation(ck):
    f = "add_saturation_as_mixed_integer_constraint"
    w = where(ck.repo, U, f)

    def mk(cn):
        poly.clear_bounds()
        a, b, c, d = pos("a", "b", "c", "d")
        L = sym("L")
        Up = L + a + b
        return L, Up, {
            "below": (L - a - b, L - a), "below_touch": (L - a, L),
            "above": (Up + a, Up + a + b), "above_touch": (Up, Up + c),
            "inside": (L + a / 2, L + a), "inside_full": (L, Up),
            "lower": (L - c, L + a), "lower_full": (L - c, Up),
            "upper": (L + a, Up + c), "upper_full": (L, Up + c),
            "both": (L - c, Up + d)}[cn]
    for cn in ("below", "below_touch", "above", "above_touch", "inside",
               "inside_full", "lower", "lower_full", "upper", "upper_full",
               "both"):
        for vt, kind in [("B", "float"), ("B", "tensor")] + (
                [("BR", "float")] if ck.deep or cn in ("both", "lower")
                else []):
            L, Up, (lo, up) = mk(cn)
            ip = ck.interp()
            key = "saturation.%s.%s%s" % (
                cn, vt, "" if kind == "float" else ".tensor")

            def go():
                mip = ip.call(ip.get("gurobi_torch_mip", "GurobiTorchMIP"),
                              [F64], {})
                add = ip.getattr(mip, "addVars")
                iv = ip.items(ip.call(add, [1], {"lb": -poly.INF,
                                                 "name": "in"}))[0]
                ov = ip.items(ip.call(add, [1], {"lb": -poly.INF,
                                                 "name": "out"}))[0]
                lims = [lo, up]
                if kind == "tensor":
                    lu = ip.new_arr((2, ), lims, "torch", "float")
                    lims = [ip.getitem(lu, i) for i in (0, 1)]
                bs = ip.call(ip.get(U, f), [mip, iv, ov, L, Up] + lims +
                             [vt], {})
                bs = ip.items(bs) if isinstance(bs, ListV) else list(
                    ip.iterate(bs))
                bn = [str(gm.vsym(ip, b)) for b in bs]
                vs, rows = mic.model_rows(ip, mic.mip_model(ip, mip))
                X, Y = gm.vsym(ip, iv), gm.vsym(ip, ov)
                nb = {"lower": 1, "lower_full": 1, "upper": 1,
                      "upper_full": 1, "both": 2}.get(cn, 0)
                ck.ob(key + ".binaries", len(bn) == nb,
                      "one binary per limit the input range crosses",
                      "%d binaries" % len(bn), w)
                want = ("B", ) if vt == "B" else ("C", )
                ck.ob(key + ".vtype", all(v[3] in want for v in vs
                                          if v[0] in bn),
                      "binary_var_type is honoured", "", w)
                ck.ob(key + ".binary_bounds", all(
                    Rat.of(v[1]) == Rat.const(0) and
                    Rat.of(v[2]) == Rat.const(1) for v in vs
                    if v[0] in bn), "(relaxed) binaries live in [0, 1]",
                    "", w)
                N = [str(X), str(Y)]
                Z = Rat.const(0)

                def spec(*al):
                    if sum(al) > 1:
                        return None
                    if nb == 0:
                        kind = cn.split("_")[0]
                    elif nb == 2:
                        kind = "below" if al[0] else (
                            "above" if al[1] else "inside")
                    elif cn.startswith("lower"):
                        kind = "below" if al[0] else "inside"
                    else:
                        kind = "above" if al[0] else "inside"
                    e = {"below": Y - L, "above": Y - Up,
                         "inside": Y - X}[kind]
                    a, b = lo, up
                    if kind == "below":
                        b = poly.min2(up, L)
                    elif kind == "above":
                        a = poly.max2(lo, Up)
                    else:
                        a, b = poly.max2(lo, L), poly.min2(up, Up)
                    return [pt.row(q, s, N) for q, s in
                            [(e, "=")] + box(a, b, X)]
                for beta in itertools.product((0, 1), repeat=len(bn)):
                    P = pt.fix(rows, dict(zip(bn, beta)))
                    for v in vs:
                        if v[0] not in bn + N:
                            P = pt.eliminate(P, v[0])
                    P = P + [pt.row(q, s, N) for q, s in box(lo, up, X)]
                    mic.same_set(ck, "%s.b=%s" % (key, "".join(map(
                        str, beta))), P, spec(*beta), N,
                        "y = clamp(x, lower, upper)", w)
            ck.attempt(key, go, where=w)


def interval(ck):
    f = "leaky_relu_interval"
    w = where(ck.repo, U, f)
    for sn in slopes():
        for cn in cases():
            for kind in ("tensor", "float"):
                lo, up = cases()[cn]
                c = slopes()[sn]
                ip = ck.interp()
                a, b = (t0(ip, lo), t0(ip, up)) if kind == "tensor" else (
                    lo, up)
                key = "leaky_interval.%s.%s.%s" % (sn, cn, kind)

                def go():
                    r = [Rat.of(ip.cells(v)[0] if isinstance(v, Arr) else v)
                         for v in ip.iterate(ip.call(
                             ip.get(U, f), [c, a, b], {}))]
                    g = lambda v: poly.max2(v, Rat.const(0)) + c * poly.min2(
                        v, Rat.const(0))
                    pts = [g(lo), g(up)] + ([Rat.const(0)] if cn ==
                                            "straddle" else [])
                    tl, tu = pts[0], pts[0]
                    for q in pts[1:]:
                        tl, tu = poly.min2(tl, q), poly.max2(tu, q)
                    ck.eq(key + ".lo", r[0], tl, "output interval is the "
                          "range of the unit", w)
                    ck.eq(key + ".up", r[1], tu, "output interval is the "
                          "range of the unit", w)
                ck.attempt(key, go, where=w)


def check(ck):
    for n, g in (("product", product), ("relu", relu), ("leaky", leaky),
                 ("leaky_gradient", leaky_grad), ("abs", absolute),
                 ("max", maximum), ("box_boundary", boundary),
                 ("saturation", saturation), ("interval", interval)):
        ck.attempt(n, lambda: g(ck))
    poly.clear_bounds()
