"""Continuous-time Lyapunov programs, values and losses."""
import itertools

from .. import poly, natives, gurobi_model as gm, mic
from ..poly import Rat
from ..values import Arr, ObjV, ExtV, ListV, Opaque, Undecided, AbsRaise
from . import blocks as bl
from . import c09
from .common import sym, where, F64
from .c11 import T, INF, new_mip
from .c13 import types, lists, at, objective, free, hinge, reduce_
from .c15 import newvars, method, _vt, vec

TITLE = "Continuous-time Lyapunov programs and losses state the conditions"
EXPLANATION = (
    "The derivative, program and loss functions of the continuous-time "
    "Lyapunov classes are evaluated on opaque networks and systems. Programs "
    "are taken apart into the blocks they were assembled from (networks, "
    "absolute values, gradient-times-vector); the remaining rows, types and "
    "the objective are compared as normal forms with the documented "
    "condition. Values at a point are compared with the set of all products "
    "of one-sided gradients and possible derivatives.")
ASSUMPTIONS = ("real arithmetic; block contracts of C08/C09/C12/C27; torch "
               "and gurobipy calls follow their documentation", )
MIN_OBS = 200
M = "continuous_time_lyapunov"
CT, HY = "LyapunovContinuousTimeSystem", "LyapunovContinuousTimeHybridSystem"
N = 2
PAT = ["+-", "-+", "++"]
lam, eps = sym("lam"), sym("eps")
Z, ONE = Rat.const(0), Rat.const(1)
MAX = -1
FP = "relu_to_optimization.ReLUFreePattern."


class Bounds:
    """what the gradient block was built from"""
    def __init__(self, kind, data):
        self.kind, self.data = kind, data


def gao(B, j):
    return sym("%s.Ao.%d" % (B.id, j))


def gradients(W):
    """gradient-times-vector of an opaque network as one more block"""
    ip = W.ip
    W.bounds = {}

    def tokens(b):
        ts = [Opaque("Wz-bounds", (len(W.bounds), i)) for i in range(4)]
        W.bounds[ts[0].key()] = (b, ts)
        return ts

    def ia(ip, args, kw):
        d = dict(zip(["self", "vector_lower", "vector_upper"], args))
        d.update(kw)
        if "_tag" not in ip.attrs(ip.getattr(d["self"], "model")):
            return NotImplemented
        return tuple(tokens(Bounds("IA", (list(ip.cells(d["vector_lower"])),
                                          list(ip.cells(
                                              d["vector_upper"]))))))

    def opt(ip, args, kw):
        d = dict(zip(["self", "prog", "z0", "beta"], args))
        d.update(kw)
        if "_tag" not in ip.attrs(ip.getattr(d["self"], "model")):
            return NotImplemented
        return tuple(tokens(Bounds("opt", (d["prog"], lists(ip, d["z0"]),
                                           lists(ip, d["beta"])))) +
                     [Opaque("z")])

    def block(ip, args, kw):
        d = dict(zip(["self", "z_lo", "z_up", "Wz_lo", "Wz_up"], args))
        d.update(kw)
        m = ip.attrs(ip.getattr(d["self"], "model"))
        if "_tag" not in m:
            return NotImplemented
        nin = m["_nio"][0]
        got = [d[k] for k in ("z_lo", "z_up", "Wz_lo", "Wz_up")]
        b = W.bounds.get(got[0].key()) if isinstance(got[0], Opaque) else None
        B = bl.Block(len(W.blocks), "grad", "grad", nin, 2, 2, 1, {
            "bounds": b[0] if b and all(
                isinstance(g, Opaque) and g == t
                for g, t in zip(got, b[1])) else None})
        B.k = {"in": 3, "eq": 0}
        W.blocks.append(B)
        o = ip.call(ip.get("relu_to_optimization",
                           "ReLUGradientTimesVecMixedIntegerConstraintsReturn"
                           ), [], {})
        for bb, n in (("input", nin), ("slack", 2), ("binary", 2)):
            f = "Ain_%s" % bb
            ip.setattr(o, f, T(ip, [B.s(f, i, j) for i in range(3)
                                    for j in range(n)], (3, n)))
        ip.setattr(o, "rhs_in", T(ip, [B.rhs("in", i) for i in range(3)]))
        ip.setattr(o, "Aout_slack", T(ip, [gao(B, j) for j in range(2)],
                                      (1, 2)))
        return o

    ip.hooks[FP + "_compute_Wz_bounds_IA"] = ia
    ip.hooks[FP + "_compute_Wz_bounds_optimization"] = opt
    ip.hooks[FP + "output_gradient_times_vector_w_bounds"] = block


def gout(i):
    """gradient times vector of one use of a gradient block"""
    return sum((gao(i.b, j) * s for j, s in enumerate(i.slacks)), Z)


def product_rows(p, v, b, lo, up):
    """p = b * v for lo <= v <= up"""
    return [(lo * b - p, "<"), (p - up * b, "<"),
            (v - p + (b - ONE) * up, "<"), (-v + p + (ONE - b) * lo, "<")]


def products(ck, key, rest, cases, vs, w):
    """for each (v, b, lo, up) find the variable that stands for b*v; rows of
    the product are removed from rest; -> slack variables or None"""
    out = []
    forms = {}

    def form(r):
        return (r[1], str(Rat.of(r[0])))
    left = list(rest)
    names = list(vs)
    for n, (v, b, lo, up) in enumerate(cases):
        hit = None
        have = {}
        for r in left:
            have.setdefault(form(r), []).append(r)
        # candidates: continuous variables that occur with b in a row
        cand = []
        for r in left:
            if r[1] == "<" and not poly.diff(r[0], str(b)).is_zero():
                for m in names:
                    if m != str(b) and m not in cand and not poly.diff(
                            r[0], m).is_zero():
                        cand.append(m)
        for m in cand:
            if m in [str(o) for o in out]:
                continue
            want = product_rows(sym(m), v, b, lo, up)
            if all(form(q) in have for q in want):
                hit = (m, want)
                break
        ck.ob("%s.product%d" % (key, n), hit is not None, "the product of "
              "the activation %s and %s is written over its range" % (b, v),
              "bounds %s, %s; rows %s" % (lo, up, [
                  str(r[0]) for r in left if not poly.diff(
                      r[0], str(b)).is_zero()][:6]), w)
        if hit is None:
            return None, left
        for q in hit[1]:
            r = have[form(q)].pop()
            left = [x for x in left if x is not r]
        v_ = vs[hit[0]]
        ck.ob("%s.product%d.free" % (key, n), poly._is_inf(-v_[1]) and
              poly._is_inf(v_[2]) and v_[3] == "C", "the product variable is "
              "continuous with no bound of its own", str(v_), w)
        out.append(sym(hit[0]))
    return out, left


# ------------------------------------------- forward system, ReLU dynamics
class Setup:
    def __init__(self, ck, meth="IA", smeth=None, tag="dyn"):
        poly.clear_bounds()
        self.ck = ck
        self.w = bl.World(ck)
        ip = self.ip = self.w.ip
        gradients(self.w)
        self.lo, self.xs, self.up = bl.box(range(N))
        self.dyn = bl.net(ip, N, N, "dyn")
        self.V = bl.net(ip, N, 1, "phi")
        self.sys = ip.call(ip.get(
            "relu_system", "AutonomousReLUSystemGivenEquilibrium"), [
                F64, T(ip, self.lo), T(ip, self.up), self.dyn,
                T(ip, self.xs)], {
                    "discrete_time_flag": False,
                    "network_bound_propagate_method": method(
                        ip, smeth or meth)})
        self.lyap = ip.call(ip.get(M, CT), [self.sys, self.V], {})
        ip.setattr(self.lyap, "network_bound_propagate_method",
                   method(ip, meth))
        self.xeq = T(ip, self.xs)
        self.A = bl.matrix("R", PAT)
        self.R = T(ip, self.A, (3, N))
        self.k = 3

    def err(self, x):
        return [sum((self.A[i * N + j] * (x[j] - self.xs[j])
                     for j in range(N)), Z) for i in range(self.k)]

    def errb(self):
        return bl.ia(self.A, self.k, [
            -sum((self.A[i * N + j] * self.xs[j] for j in range(N)), Z)
            for i in range(self.k)], self.lo, self.up, PAT)

    def l1(self, x):
        return sum((poly.absv(e) for e in self.err(x)), Z)

    def val(self, x):
        return bl.phi("phi", 0, x) - bl.phi("phi", 0, self.xs) + \
            lam * self.l1(x)

    def m(self, name, *a, **k):
        return self.ip.call(self.ip.getattr(self.lyap, name), list(a), k)


def conv(ip, name="ExpLower"):
    return ip.getattr(ip.get("lyapunov", "ConvergenceEps"), name)


def optimum(ip, o, kind):
    """results of bound programs are named after what was optimised"""
    e, s = gm.objective(ip, o)
    if kind == "obj":
        return poly.fn("opt", "max" if s == MAX else "min", e)
    return None


def program(ck):
    w = where(ck.repo, M, CT + ".lyapunov_derivative_as_milp")
    low, upp = sym("vlow"), sym("vup")
    for meth, b, vt in itertools.product(("IA", "LP", "MIP"), (0, 1, 2, 3),
                                         ("B", "C", "BR")):
        if vt != "B" and b not in (0, 3):
            continue
        key = "ct.%s.b%d.%s" % (meth, b, vt)

        def go(key=key, meth=meth, b=b, vt=vt):
            S = Setup(ck, meth)
            ip = S.ip
            ip.grb_result = optimum
            kw = {"R": S.R, "binary_var_type": _vt(ip, vt)}
            if b & 1:
                kw["lyapunov_lower"] = low
            if b & 2:
                kw["lyapunov_upper"] = upp
            ret = S.m("lyapunov_derivative_as_milp", S.xeq, lam, eps,
                      conv(ip), **kw)
            mip = ip.getattr(ret, "milp")
            x = lists(ip, ip.getattr(ret, "x"))
            xd = lists(ip, ip.getattr(ret, "xdot"))
            insts, rest, vs = S.w.apart(key, mip, w)
            by = {t: [i for i in insts if i.b.tag == t]
                  for t in ("phi", "dyn", "abs", "grad")}
            f, d = at(by["phi"], x), at(by["dyn"], x)
            ck.ob(key + ".networks", None not in (f, d) and
                  len(by["phi"]) == len(by["dyn"]) == 1, "V and the dynamics "
                  "are encoded at the state", "", w)
            for who, i in (("phi", f), ("dyn", d)):
                for j in range(N):
                    for e, bb in (("lo", S.lo), ("up", S.up)):
                        ck.eq("%s.%s.%s%d" % (key, who, e, j),
                              i.b.args[e][j], bb[j], "the network is encoded "
                              "over the state box", w)
            lo, up = S.errb()
            s = bl.norm1(ck, key + ".l1", by["abs"], S.err(x), lo, up, w)
            ck.ob(key + ".l1.once", len(by["abs"]) == S.k, "one norm", str(
                len(by["abs"])), w)
            g = by["grad"]
            ck.ob(key + ".grad", len(g) == 1 and g[0].inputs == xd and
                  g[0].binaries == f.binaries, "the gradient of the network "
                  "at the activation of the encoded network is multiplied "
                  "by the state derivative", str([[str(y) for y in i.inputs
                                                   + i.binaries]
                                                  for i in g]), w)
            g = g[0]
            al = [next(i for i in by["abs"] if i.slacks[0] == sl).binaries[0]
                  for sl in s]
            Rx = [sum((S.A[i * N + j] * xd[j] for j in range(N)), Z)
                  for i in range(S.k)]
            bd = g.b.args["bounds"]
            ck.ob(key + ".grad.kind", bd is not None and bd.kind == (
                "IA" if meth == "IA" else "opt"), "the ranges of the gradient "
                "encoding are computed by the method asked for", str(
                    bd and bd.kind), w)
            if meth == "IA":
                B = d.b
                es = [bl.phi("dyn", k, S.xs) for k in range(N)]
                xl, xu = ([sym("%s.nn_output_%s.%d" % (B.id, e, k)) - es[k]
                           for k in range(N)] for e in ("lo", "up"))
                for e, got, want in (("lo", bd.data[0], xl),
                                     ("up", bd.data[1], xu)):
                    for k in range(N):
                        ck.eq("%s.grad.%s%d" % (key, e, k), got[k], want[k],
                              "range of the state derivative", w)
                Rl, Ru = bl.ia(S.A, S.k, [Z] * S.k, xl, xu, PAT)
            else:
                bp, bz, bb = bd.data
                pi, pr, pv = S.w.apart(key + ".prog", bp, w)
                pby = {t: [i for i in pi if i.b.tag == t]
                       for t in ("phi", "dyn")}
                ck.ob(key + ".prog.nets", len(pby["phi"]) == len(
                    pby["dyn"]) == 1 and len(pi) == 2 and
                    pby["phi"][0].inputs == pby["dyn"][0].inputs,
                    "the bound program has the dynamics and the network at "
                    "the same state", "", w)
                pd, pf = pby["dyn"][0], pby["phi"][0]
                px = pd.inputs
                ck.ob(key + ".prog.state", all(
                    str(p) in pv for p in px) and len(set(map(
                        str, px))) == N and not set(map(str, px)) & set(
                            map(str, bz)), "the bound program is over its "
                    "own states", "", w)
                es = [bl.phi("dyn", k, S.xs) for k in range(N)]
                bl.same_rows(ck, key + ".prog.rows", pr, [
                    (bz[k] - pd.out(k) + es[k], "=") for k in range(N)],
                    "the bound program says xdot = f(x)", w)
                free(ck, key + ".prog.x", list(px), pv, w, S.lo, S.up)
                ck.ob(key + ".prog.binary", bb == pf.binaries, "the gradient "
                      "range is over the activation of the network at that "
                      "state", "%s %s" % (bb, pf.binaries), w)
                types(ck, key + ".prog", [pf], pv, w,
                      "C" if meth == "LP" else "B")
                bR = [sum((S.A[i * N + j] * bz[j] for j in range(N)), Z)
                      for i in range(S.k)]
                Rl = [poly.fn("opt", "min", e) for e in bR]
                Ru = [poly.fn("opt", "max", e) for e in bR]
            pz, rest = products(ck, key, rest, [
                (Rx[i], al[i], Rl[i], Ru[i]) for i in range(S.k)], vs, w)
            if pz is None:
                return
            fs = bl.phi("phi", 0, S.xs)
            V = f.out() - fs + lam * sum(s, Z)
            want = [(xd[k] - d.out(k) + bl.phi("dyn", k, S.xs), "=")
                    for k in range(N)]
            if b & 1:
                want.append((low - V, "<"))
            if b & 2:
                want.append((V - upp, "<"))
            bl.same_rows(ck, key + ".rows", rest, want, "xdot = f(x) and "
                         "lower <= V(x) <= upper, nothing else", w)
            types(ck, key, insts, vs, w, vt)
            free(ck, key, x + xd, vs, w)
            objective(ck, key, ip, mic.mip_model(ip, mip), eps * V + gout(g) +
                      lam * sum((2 * p - r for p, r in zip(pz, Rx)), Z), MAX,
                      w)
            ck.ob(key + ".ret.relu", lists(ip, ip.getattr(
                ret, "relu_binary")) == f.binaries, "returned variables are "
                "those of the encoding", "", w)
            ck.ob(key + ".ret.l1", lists(ip, ip.getattr(
                ret, "l1_binary")) == al, "returned variables are those of "
                "the encoding", "", w)
        ck.attempt(key, go, where=w)
    for et in ("ExpUpper", "Asymp"):
        key = "ct.refuse." + et

        def refuse():
            S = Setup(ck)
            try:
                r = S.m("lyapunov_derivative_as_milp", S.xeq, lam, eps,
                        conv(S.ip, et), R=S.R)
            except AbsRaise:
                r = None
            ck.ob(key, r is None, "a convergence type that is not supported "
                  "is refused", "", w)
        ck.attempt(key, refuse, where=w)


def ct_losses(ck):
    w = where(ck.repo, M, CT + ".lyapunov_derivative_loss_at_samples_and_"
              "next_states")
    w2 = where(ck.repo, "lyapunov", "LyapunovHybridLinearSystem."
               "_lyapunov_gradient_batch")
    mg = sym("margin")
    nb = 2
    for red, wt in (("mean", False), ("mean", True), ("max", False),
                    ("4norm", False)):
        key = "ct.loss.%s.w%d" % (red, wt)

        def go(key=key, red=red, wt=wt):
            S = Setup(ck)
            ip = S.ip
            X = [vec("p%d_" % i, N) for i in range(nb)]
            Y = [vec("q%d_" % i, N) for i in range(nb)]
            D = [[poly.diff(S.val(r), str(c)) for c in r] for r in X]
            wv = [sym("wt%d" % i) for i in range(nb)] if wt else None
            kw = {"R": S.R, "margin": mg, "reduction": red}
            if wt:
                kw["weight"] = T(ip, wv)
            x = T(ip, sum(X, []), (nb, N))
            got = S.m("lyapunov_derivative_loss_at_samples_and_next_states",
                      lam, eps, x, T(ip, sum(Y, []), (nb, N)), S.xeq,
                      conv(ip), **kw)
            ls = [hinge(-(sum((D[i][j] * Y[i][j] for j in range(N)), Z) +
                          eps * S.val(X[i])), mg) for i in range(nb)]
            g = bl.scalar(ip, got)
            want = poly.norm4(ls) if red == "4norm" else reduce_(ls, red, wv)
            ck.eq(key, g, want, "reduction of max(0, Vdot + eps V + margin)",
                  w)
            gr = [e for e in ip.events if e[0] == "autograd"]
            ck.ob(key + ".graph", bool(gr) and all(e[2] for e in gr),
                  "the loss stays differentiable in the network parameters",
                  str(gr), w)
            ck.ob(key + ".flag", ip.getattr(x, "requires_grad") is False,
                  "the samples are left as they were", "", w)
        ck.attempt(key, go, where=w)


# --------------------------------------------------- values at a kink point
def kink(ip, slope):
    """network with one active unit and one unit at its kink at x, a state x
    with x_1 = x*_1 and x_0 > x*_0"""
    for n in ("p0", "p1", "d"):
        poly.set_bounds(n, 0, None, True)
    c = Z
    if slope:
        poly.set_bounds("c", 0, 1, True, True)
        c = sym("c")
    xs = [sym("p0"), sym("p1")]
    x = [sym("p0") + sym("d"), sym("p1")]
    W0 = bl.matrix("W0", ["++", "+-"])
    poly.set_bounds("B0", 0, None, True)
    b0 = [sym("B0"), -(W0[2] * x[0] + W0[3] * x[1])]
    W1 = c09.weights("W1", 1, 2)
    net = c09.Net(ip, [2, 2, 1], [W0, W1], [b0, [sym("B1")]],
                  [c if slope else None])

    def phi(y, pre1):
        z0 = W0[0] * y[0] + W0[1] * y[1] + b0[0]
        return W1[0] * z0 + W1[1] * pre1 + sym("B1")
    # at x*: pre-activation of unit 1 is W0[2] (x*_0 - x_0) < 0
    V0 = phi(x, Z) - phi(xs, c * W0[2] * (xs[0] - x[0]))
    gr = []
    for a in (ONE, c):
        gr.append([W1[0] * W0[j] + W1[1] * a * W0[2 + j] for j in range(2)])
    return net, x, xs, V0, gr


def values_of(ip, v):
    if isinstance(v, Arr):
        return [str(c) for c in ip.cells(v)]
    out = []
    for e in ip.iterate(v):
        out += [str(c) for c in ip.cells(e)] if isinstance(e, Arr) else [
            str(Rat.of(e))]
    return out


def same_values(ck, key, got, want, rule, w):
    a, b = sorted(set(got)), sorted(set(map(str, want)))
    ck.ob(key, a == b, rule, "only in the code: %s; missing: %s" % (
        [x for x in a if x not in b][:2], [x for x in b if x not in a][:2]),
        w)


def ct_value(ck):
    w = where(ck.repo, M, CT + ".lyapunov_derivative")
    for slope in (False, True):
        key = "ct.value.%s" % ("leaky" if slope else "relu")

        def go(key=key, slope=slope):
            poly.clear_bounds()
            W = bl.World(ck)
            ip = W.ip
            net, x, xs, V0, gr = kink(ip, slope)
            A = bl.matrix("R", ["+-", "0+", "-+"])
            dyn = bl.net(ip, N, N, "dyn")
            lo, up = [-sym("p0") * 9, -sym("p1") * 9], [
                (sym("p0") + sym("d")) * 9, sym("p1") * 9]
            sys = ip.call(ip.get("relu_system", "AutonomousReLUSystem"), [
                F64, T(ip, lo), T(ip, up), dyn], {})
            ly = ip.call(ip.get(M, CT), [sys, net.seq], {})
            r = ip.call(ip.getattr(ly, "lyapunov_derivative"), [
                T(ip, x), T(ip, xs), lam, eps], {"R": T(ip, A, (3, N))})
            d = sym("d")
            V = V0 + lam * (A[0] * d - A[4] * d)
            xd = [bl.phi("dyn", k, x) for k in range(N)]
            want = []
            for g in gr:
                for s1 in (1, -1):
                    sg = [1, s1, -1]
                    dv = [g[j] + lam * sum((A[i * N + j] * sg[i]
                                            for i in range(3)), Z)
                          for j in range(N)]
                    want.append(sum((a * b for a, b in zip(dv, xd)), Z) +
                                eps * V)
            same_values(ck, key, values_of(ip, r), want, "all values of "
                        "dV/dx xdot + eps V over the one-sided gradients", w)
        ck.attempt(key, go, where=w)


def ct_tolerance(ck):
    """pre-activations and errors within the tolerance count as zero"""
    w = where(ck.repo, M, CT + ".lyapunov_derivative")

    def q(a, b=1):
        return Rat.const(a) / b
    for n, tol in (("none", None), ("below", q(1, 40)), ("above", q(1, 10))):
        key = "ct.tolerance." + n

        def go(key=key, tol=tol):
            poly.clear_bounds()
            W = bl.World(ck)
            ip = W.ip
            # units: 2 x0 + x1 + 1 and x0 - x1 + c, the second 1/20 at x
            x, xs = [q(2), q(1) + q(1, 20)], [q(1), q(1)]
            W0 = [q(2), q(1), q(1), q(-1)]
            W1 = [sym("W1"), sym("W2")]
            net = c09.Net(ip, [2, 2, 1], [W0, W1], [
                [q(1), q(-9, 10)], [sym("B1")]], [None])
            dyn = bl.net(ip, N, N, "dyn")
            sys = ip.call(ip.get("relu_system", "AutonomousReLUSystem"), [
                F64, T(ip, [q(-9)] * 2), T(ip, [q(9)] * 2), dyn], {})
            ly = ip.call(ip.get(M, CT), [sys, net.seq], {})
            kw = {} if tol is None else {"zero_tol": tol}
            r = ip.call(ip.getattr(ly, "lyapunov_derivative"), [
                T(ip, x), T(ip, xs), lam, eps], kw)
            pre = [2 * x[0] + x[1] + 1, x[0] - x[1] - q(9, 10)]
            # at x*: 4 and -9/10
            V = W1[0] * pre[0] + W1[1] * pre[1] - W1[0] * 4 + lam * (
                q(1) + q(1, 20))
            xd = [bl.phi("dyn", k, x) for k in range(N)]
            both = n == "above"
            want = []
            for a in (ONE, Z) if both else (ONE, ):
                for s in (1, -1) if both else (1, ):
                    g = [W1[0] * 2 + a * W1[1] + lam,
                         W1[0] - a * W1[1] + lam * s]
                    want.append(g[0] * xd[0] + g[1] * xd[1] + eps * V)
            same_values(ck, key, values_of(ip, r), want, "values within the "
                        "given tolerance of zero count as zero, all others "
                        "do not", w)
        ck.attempt(key, go, where=w)


# ------------------------------------------------------------------ hybrid
class Hybrid:
    """a hybrid linear system with two modes and symbolic data"""
    def __init__(self, ck, box=True):
        poly.clear_bounds()
        self.ck = ck
        self.w = bl.World(ck)
        ip = self.ip = self.w.ip
        gradients(self.w)
        self.lo, self.xs, self.up = bl.box(range(N))
        self.V = bl.net(ip, N, 1, "phi")
        self.build(ip)
        self.lyap = ip.call(ip.get(M, HY), [self.sys, self.V], {})
        self.xeq = T(ip, self.xs)
        self.A1 = [ONE, Z, Z, ONE]

    def build(self, ip):
        sys = self.sys = ip.call(ip.get(
            "hybrid_linear_system", "AutonomousHybridLinearSystem"),
            [N, F64], {})
        self.A = [vec("A%d." % i, N * N) for i in range(2)]
        self.g = [bl.matrix("g%d" % i, [p]) for i, p in enumerate(
            ("+-", "-+"))]
        self.bd = []
        for i, pat in enumerate((("-+", "+-"), ("++", "--"))):
            # A_i x in [lo, up]: signs differ so that the clamp at 0 matters
            l, u = [], []
            for j in range(N):
                poly.set_bounds("al%d.%d" % (i, j), *(
                    (0, None) if pat[0][j] == "+" else (None, 0)), True, True)
                poly.set_bounds("aw%d.%d" % (i, j), 0, None, True)
                l.append(sym("al%d.%d" % (i, j)))
                u.append(sym("al%d.%d" % (i, j)) + sym("aw%d.%d" % (i, j))
                         if pat[0][j] == "+" else (
                             sym("aw%d.%d" % (i, j)) if pat[1][j] == "+" else
                             -sym("aw%d.%d" % (i, j))))
            self.bd.append((l, u))

        def np_(cells):
            return ip.new_arr((len(cells), ), list(cells), "np", "float")
        for n, v in {
                "A": ip.new_list([T(ip, a, (N, N)) for a in self.A]),
                "g": ip.new_list([T(ip, a) for a in self.g]),
                "Ai_times_x_lower": ip.new_list([np_(b[0])
                                                 for b in self.bd]),
                "Ai_times_x_upper": ip.new_list([np_(b[1])
                                                 for b in self.bd]),
                "x_lo_all": np_(self.lo), "x_up_all": np_(self.up),
                "num_modes": 2}.items():
            ip.setattr(sys, n, v)
        self.dl, self.du = [], []
        for j in range(N):
            poly.set_bounds("dw%d" % j, 0, None, True)
            self.dl.append(sym("dl%d" % j))
            self.du.append(sym("dl%d" % j) + sym("dw%d" % j))
        ip.setattr(sys, "dx_lower", np_(self.dl))
        ip.setattr(sys, "dx_upper", np_(self.du))
        # the dynamics block of the system itself
        W = self.w
        B = self.B = bl.Block(len(W.blocks), "dyn", "hyb", N, 2 * N, 2, N,
                              {})
        W.blocks.append(B)
        o = ip.call(ip.get("gurobi_torch_mip",
                           "MixedIntegerConstraintsReturn"), [], {})
        W._fill(o, B)
        ip.setattr(o, "Aout_slack", T(ip, [a for j in range(N) for i in
                                           range(2) for a in
                                           self.A[i][j * N:(j + 1) * N]],
                                      (N, 2 * N)))
        ip.setattr(o, "Aout_binary", T(ip, [self.g[i][j] for j in range(N)
                                            for i in range(2)], (N, 2)))
        ip.hooks["hybrid_linear_system.AutonomousHybridLinearSystem."
                 "mixed_integer_constraints"] = lambda ip, a, k: o

    def val(self, x):
        return bl.phi("phi", 0, x) - bl.phi("phi", 0, self.xs) + lam * \
            sum((poly.absv(a - b) for a, b in zip(x, self.xs)), Z)

    def m(self, name, *a, **k):
        return self.ip.call(self.ip.getattr(self.lyap, name), list(a), k)

    def clamp(self, i):
        """range of A_i s_i, s_i being x or 0"""
        return [poly.min2(v, Z) for v in self.bd[i][0]], [
            poly.max2(v, Z) for v in self.bd[i][1]]

    def gclamp(self, i):
        return [poly.min2(v, Z) for v in self.g[i]], [
            poly.max2(v, Z) for v in self.g[i]]


def identity(ip):
    return T(ip, [Rat.of(float(i == j)) for i in range(N)
                  for j in range(N)], (N, N))


def hybrid_programs(ck):
    low, upp = sym("vlow"), sym("vup")
    for name, b, warm, eye in itertools.product(
            ("lyapunov_derivative_as_milp", "lyapunov_derivative_as_milp2"),
            (0, 1, 2, 3), (0, 1), (0, 1)):
        two = name.endswith("2")
        if warm and (two or b) or eye and (warm or b == 3):
            continue
        w = where(ck.repo, M, HY + "." + name)
        key = "hyb.%s.b%d.w%d%s" % ("two" if two else "one", b, warm,
                                    ".eye" * eye)

        def go(key=key, name=name, b=b, warm=warm, two=two, w=w, eye=eye):
            S = Hybrid(ck)
            ip = S.ip
            kw = {"R": identity(ip) if eye else None}
            if b & 1:
                kw["lyapunov_lower"] = low
            if b & 2:
                kw["lyapunov_upper"] = upp
            ws = []
            if warm:
                xw = T(ip, vec("xw", N))
                kw["x_warmstart"] = xw
                ip.hooks["relu_to_optimization.set_activation_warmstart"] = \
                    lambda ip, a, k: ws.append((a, k))
            ret = S.m(name, S.xeq, lam, eps, conv(ip), **kw)
            mip = ip.getattr(ret, "milp")
            x = lists(ip, ip.getattr(ret, "x"))
            insts, rest, vs = S.w.apart(key, mip, w)
            by = {t: [i for i in insts if i.b.tag == t]
                  for t in ("phi", "hyb", "abs", "grad")}
            f, h = at(by["phi"], x), at(by["hyb"], x)
            ck.ob(key + ".parts", None not in (f, h) and len(by["phi"]) ==
                  len(by["hyb"]) == 1, "V and the dynamics are encoded at "
                  "the state", "", w)
            err = [a - c for a, c in zip(x, S.xs)]
            t = bl.norm1(ck, key + ".l1", by["abs"], err, [
                a - c for a, c in zip(S.lo, S.xs)], [
                a - c for a, c in zip(S.up, S.xs)], w, "|x-x*|_1")
            ck.ob(key + ".l1.once", len(by["abs"]) == N, "one norm", str(
                len(by["abs"])), w)
            al = [next(i for i in by["abs"] if i.slacks[0] == sl).binaries[0]
                  for sl in t]
            s, ga = h.slacks, h.binaries
            As = [[sum((S.A[i][j * N + k] * s[i * N + k] for k in range(N)),
                       Z) for j in range(N)] for i in range(2)]
            gg = [[S.g[i][j] * ga[i] for j in range(N)] for i in range(2)]
            if two:
                vecs = [(As[i], S.clamp(i)) for i in range(2)] + [
                    (gg[i], S.gclamp(i)) for i in range(2)]
                want = []
            else:
                xd = sorted(set(str(n) for n in vs) - set(map(str, x)) - set(
                    str(v) for i in insts for v in i.slacks + i.binaries))
                cand = [[sym(c) for c in p]
                        for p in itertools.permutations(xd, N)]
                hit = [p for p in cand if any(
                    i.inputs == p for i in by["grad"])]
                ck.ob(key + ".xdot", len(hit) == 1, "the gradient is "
                      "multiplied by the state derivative", str([
                          [str(q) for q in i.inputs] for i in by["grad"]]),
                      w)
                xd = hit[0]
                vecs = [(xd, (S.dl, S.du))]
                want = [(xd[j] - sum((As[i][j] + gg[i][j] for i in range(2)),
                                     Z), "=") for j in range(N)]
                free(ck, key + ".xdot", xd, vs, w)
            gs = []
            for n, (v, (l, u)) in enumerate(vecs):
                hit = [i for i in by["grad"] if i.inputs == v]
                ck.ob("%s.grad%d" % (key, n), len(hit) == 1 and
                      hit[0].binaries == f.binaries, "the gradient of the "
                      "network at its activation times each term of the "
                      "derivative", str([[str(q) for q in i.inputs]
                                         for i in by["grad"]]), w)
                i = hit[0]
                gs.append(i)
                bd = i.b.args["bounds"]
                ck.ob("%s.grad%d.bounds" % (key, n), bd is not None and
                      bd.kind == "IA" and [str(c) for c in bd.data[0]] == [
                          str(c) for c in l] and [
                              str(c) for c in bd.data[1]] == [
                                  str(c) for c in u], "over its range",
                      str(bd and bd.data), w)
            ck.ob(key + ".grad.once", len(by["grad"]) == len(vecs),
                  "nothing else is multiplied", str(len(by["grad"])), w)
            cases = [(v[j], al[j], l[j], u[j]) for v, (l, u) in vecs
                     for j in range(N)]
            pz, rest = products(ck, key, rest, cases, vs, w)
            if pz is None:
                return
            V = f.out() - bl.phi("phi", 0, S.xs) + lam * sum(t, Z)
            if b & 1:
                want.append((low - V, "<"))
            if b & 2:
                want.append((V - upp, "<"))
            bl.same_rows(ck, key + ".rows", rest, want, "the dynamics and "
                         "lower <= V(x) <= upper, nothing else", w)
            types(ck, key, insts, vs, w)
            free(ck, key, x, vs, w)
            obj = eps * V + sum((gout(i) for i in gs), Z) + lam * sum(
                (2 * p - c[0] for p, c in zip(pz, cases)), Z)
            objective(ck, key, ip, mic.mip_model(ip, mip), obj, MAX, w)
            for fld, e in (("beta", f.binaries), ("gamma", ga)):
                ck.ob(key + ".ret." + fld, lists(ip, ip.getattr(
                    ret, fld)) == e, "returned variables are those of the "
                    "encoding", "", w)
            if warm:
                ck.ob(key + ".warm", len(ws) == 1 and ws[0][0][0] == S.V and
                      lists(ip, ws[0][0][1]) == f.binaries and
                      ws[0][0][2] is xw, "the activation of the network at "
                      "the warm start is given to its binaries", "", w)
        ck.attempt(key, go, where=w)
        def other(name=name, key=key, w=w):
            S = Hybrid(ck)
            R = T(S.ip, [Rat.of(float(i == j) * (1 + i)) for i in range(N)
                         for j in range(N)], (N, N))
            try:
                r = S.m(name, S.xeq, lam, eps, conv(S.ip), R=R)
            except AbsRaise:
                r = None
            ck.ob(key + ".R", r is None, "a state norm other than |x - x*| "
                  "is refused, not ignored", "", w)
        if not (b or warm or eye):
            ck.attempt(key + ".R", other, where=w)
        for et in ("ExpUpper", "Asymp"):
            def refuse():
                S = Hybrid(ck)
                try:
                    r = S.m(name, S.xeq, lam, eps, conv(S.ip, et), R=None)
                except AbsRaise:
                    r = None
                ck.ob(key + ".refuse." + et, r is None, "a convergence type "
                      "that is not supported is refused", "", w)
            ck.attempt(key + ".refuse." + et, refuse, where=w)


def hybrid_terms(ck):
    """the public term functions with their default ranges"""
    for fn in ("add_relu_gradient_times_Aisi",
               "add_relu_gradient_times_gigammai",
               "add_sign_state_error_times_Aisi",
               "add_sign_state_error_times_gigammai"):
        w = where(ck.repo, M, HY + "." + fn)
        for given in (0, 1):
            key = "term.%s.%d" % (fn[4:], given)

            def go(key=key, fn=fn, given=given, w=w):
                S = Hybrid(ck)
                ip = S.ip
                mip = new_mip(ip)
                A = fn.endswith("Aisi")
                grad = "relu" in fn
                v, vv = newvars(ip, mip, 2 * N if A else 2, "v")
                b, bb = newvars(ip, mip, 2, "b")
                kw = {}
                nm = "Aisi" if A else "gigammai"
                rng = [S.clamp(i) if A else S.gclamp(i) for i in range(2)]
                if given:
                    rng = []
                    for i in range(2):
                        l, u = [], []
                        for j in range(N):
                            poly.set_bounds("rw%d.%d" % (i, j), 0, None,
                                            True)
                            l.append(sym("rl%d.%d" % (i, j)))
                            u.append(l[-1] + sym("rw%d.%d" % (i, j)))
                        rng.append((l, u))
                    kw = {nm + "_lower": ip.new_list([T(ip, r[0])
                                                      for r in rng]),
                          nm + "_upper": ip.new_list([T(ip, r[1])
                                                      for r in rng])}
                ret = ip.iterate(S.m(fn, mip, vv, bb, **kw))
                insts, rest, vs = S.w.apart(key, mip, w)
                if A:
                    terms = [[sum((S.A[i][j * N + k] * v[i * N + k]
                                   for k in range(N)), Z) for j in range(N)]
                             for i in range(2)]
                else:
                    terms = [[S.g[i][j] * v[i] for j in range(N)]
                             for i in range(2)]
                z = [lists(ip, l) for l in ip.iterate(ret[0])]
                co = [list(ip.cells(l)) for l in ip.iterate(ret[1])]
                tot = [sum((c * y for c, y in zip(co[i], z[i])), Z)
                       for i in range(2)]
                if grad:
                    for i in range(2):
                        hit = [q for q in insts if q.inputs == terms[i]]
                        ck.ob("%s.%d" % (key, i), len(hit) == 1 and
                              hit[0].binaries == b, "gradient at the given "
                              "activation times the term", "", w)
                        bd = hit[0].b.args["bounds"]
                        ck.ob("%s.%d.range" % (key, i), bd is not None and [
                            str(c) for c in bd.data[0] + bd.data[1]] == [
                                str(c) for c in rng[i][0] + rng[i][1]],
                            "over the range of the term", str(
                                bd and bd.data), w)
                        ck.eq("%s.%d.out" % (key, i), tot[i], gout(hit[0]),
                              "the returned coefficients give the product",
                              w)
                    bl.same_rows(ck, key + ".rows", rest, [], "nothing "
                                 "else", w)
                else:
                    co2 = [list(ip.cells(l)) for l in ip.iterate(ret[2])]
                    pz, rest = products(ck, key, rest, [
                        (terms[i][j], b[j], rng[i][0][j], rng[i][1][j])
                        for i in range(2) for j in range(N)], vs, w)
                    if pz is None:
                        return
                    for i in range(2):
                        own = v[i * N:(i + 1) * N] if A else [v[i]]
                        ck.ob("%s.%d.n" % (key, i), len(co2[i]) == len(own)
                              and len(co[i]) == len(z[i]), "one coefficient "
                              "per variable", "", w)
                        e = tot[i] + sum((c * y for c, y in zip(
                            co2[i], own)), Z)
                        ck.eq("%s.%d.out" % (key, i), e, sum(
                            (2 * pz[i * N + j] - terms[i][j]
                             for j in range(N)), Z), "the coefficients give "
                            "sign(x - x*) times the term", w)
                    bl.same_rows(ck, key + ".rows", rest, [], "nothing "
                                 "else", w)
            ck.attempt(key, go, where=w)


def hybrid_value(ck):
    w = where(ck.repo, M, HY + ".lyapunov_derivative")
    for slope, R in itertools.product((False, True), (False, True)):
        key = "hyb.value.%s.R%d" % ("leaky" if slope else "relu", R)

        def go(key=key, slope=slope, R=R):
            poly.clear_bounds()
            ip = ck.interp()
            net, x, xs, V0, gr = kink(ip, slope)
            sys = ip.call(ip.get(
                "hybrid_linear_system", "AutonomousHybridLinearSystem"),
                [N, F64], {})
            dx = [vec("dx%d." % i, N) for i in range(2)]
            seen = []

            def poss(ip, a, k):
                seen.append([str(c) for c in ip.cells(a[-1])])
                return ip.new_list([T(ip, d) for d in dx])
            ip.hooks["hybrid_linear_system.AutonomousHybridLinearSystem."
                     "possible_dx"] = poss
            ly = ip.call(ip.get(M, HY), [sys, net.seq], {})
            r = ip.call(ip.getattr(ly, "lyapunov_derivative"), [
                T(ip, x), T(ip, xs), lam, eps,
                T(ip, [ONE, Z, Z, ONE], (N, N)) if R else None], {})
            V = V0 + lam * sym("d")
            want = [sum(((g[j] + lam * s[j]) * d[j] for j in range(N)), Z) +
                    eps * V for g in gr for s in ((1, 1), (1, -1))
                    for d in dx]
            same_values(ck, key, values_of(ip, r), want, "all values of "
                        "dV/dx xdot + eps V over the one-sided gradients and "
                        "the possible derivatives", w)
            ck.ob(key + ".at", seen == [[str(c) for c in x]], "the "
                  "derivatives are those at the state", "", w)
        ck.attempt(key, go, where=w)

    # R close to, but not, the identity: refused, or honoured
    def near():
        poly.clear_bounds()
        ip = ck.interp()
        net, x, xs, V0, gr = kink(ip, False)
        sys = ip.call(ip.get(
            "hybrid_linear_system", "AutonomousHybridLinearSystem"),
            [N, F64], {})
        d = vec("dx", N)
        ip.hooks["hybrid_linear_system.AutonomousHybridLinearSystem."
                 "possible_dx"] = lambda ip, a, k: ip.new_list([T(ip, d)])
        ly = ip.call(ip.get(M, HY), [sys, net.seq], {})
        c = Rat.const(5) / 4
        try:
            r = ip.call(ip.getattr(ly, "lyapunov_derivative"), [
                T(ip, x), T(ip, xs), lam, eps,
                T(ip, [c, Z, Z, c], (N, N))], {})
        except AbsRaise:
            return ck.ob("hyb.value.near", True, "an R other than I is "
                         "refused", "", w)
        V = V0 + lam * c * sym("d")
        same_values(ck, "hyb.value.near", values_of(ip, r), [
            sum(((g[j] + lam * c * s[j]) * d[j] for j in range(N)), Z) +
            eps * V for g in gr for s in ((1, 1), (1, -1))],
            "an R other than I is refused, or honoured", w)
    ck.attempt("hyb.value.near", near, where=w)

    # below the equilibrium, the sign of the error is -1
    def below():
        poly.clear_bounds()
        W = bl.World(ck)
        ip = W.ip
        lo, xs, up = bl.box(range(N))
        net = c09.Net(ip, [2, 1, 1], [[Z, Z], [sym("W1")]],
                      [[ONE], [sym("B1")]], [None])
        sys = ip.call(ip.get("hybrid_linear_system",
                             "AutonomousHybridLinearSystem"), [N, F64], {})
        dx = vec("dx.", N)
        ip.hooks["hybrid_linear_system.AutonomousHybridLinearSystem."
                 "possible_dx"] = lambda ip, a, k: ip.new_list([T(ip, dx)])
        ly = ip.call(ip.get(M, HY), [sys, net.seq], {})
        x = [lo[0], up[1]]
        r = ip.call(ip.getattr(ly, "lyapunov_derivative"), [
            T(ip, x), T(ip, xs), lam, eps, None], {})
        V = lam * (xs[0] - lo[0] + up[1] - xs[1])
        same_values(ck, "hyb.value.below", values_of(ip, r), [
            lam * (dx[1] - dx[0]) + eps * V], "the gradient of |x - x*| is "
            "the sign of each error", w)
    ck.attempt("hyb.value.below", below, where=w)


def hybrid_losses(ck):
    w = where(ck.repo, M, HY + ".lyapunov_derivative_loss_at_samples_and_"
              "next_states")
    w2 = where(ck.repo, M, HY + ".lyapunov_derivative_loss_at_samples")
    mg = sym("margin")
    nb = 2
    for et, direct, eye in itertools.product(
            ("ExpLower", "ExpUpper", "Asymp"), (True, False), (0, 1)):
        if eye and et == "Asymp":
            continue
        key = "hyb.loss.%s.%s%s" % (et, "given" if direct else "simulated",
                                    ".eye" * eye)

        def go(key=key, et=et, direct=direct, eye=eye):
            poly.clear_bounds()
            W = bl.World(ck)
            ip = W.ip
            # positive states on both sides of x*; every unit is active
            for i in range(N):
                poly.set_bounds("e%d" % i, 4, 5, True, True)
                poly.set_bounds("hi%d" % i, 6, 7, True, True)
                poly.set_bounds("lo%d" % i, 1, 2, True, True)
            xs = vec("e", N)
            poly.set_bounds("B0", 0, None, True)
            W0, W1 = bl.matrix("W0", ["++"]), [sym("W1")]
            net = c09.Net(ip, [2, 1, 1], [W0, W1], [[sym("B0")],
                                                    [sym("B1")]], [None])
            X = [[sym("hi0"), sym("lo1")], [sym("lo0"), sym("hi1")]]
            sg = [[1, -1], [-1, 1]]
            Y = [vec("q%d_" % i, N) for i in range(nb)]
            sys = ip.call(ip.get("hybrid_linear_system",
                                 "AutonomousHybridLinearSystem"), [N, F64],
                          {})
            ly = ip.call(ip.get(M, HY), [sys, net.seq], {})
            x = T(ip, sum(X, []), (nb, N))
            kw = {"R": identity(ip) if eye else None, "margin": mg}
            if direct:
                args = [lam, eps, x, T(ip, sum(Y, []), (nb, N)),
                        T(ip, xs), conv(ip, et)]
                f = "lyapunov_derivative_loss_at_samples_and_next_states"
            else:
                C = "hybrid_linear_system.AutonomousHybridLinearSystem."

                def mode(ip, a, k):
                    c = [str(q) for q in ip.cells(a[-1])]
                    return [[str(q) for q in r] for r in X].index(c)

                def step(ip, a, k):
                    d = dict(zip(["self", "x", "mode_x"], a))
                    d.update(k)
                    i = mode(ip, [d["x"]], {})
                    m = d.get("mode_x")
                    return T(ip, Y[i] if m in (None, i) else vec("bad", N))
                ip.hooks[C + "mode"] = mode
                ip.hooks[C + "step_forward"] = step
                args = [lam, eps, x, T(ip, xs), conv(ip, et)]
                f = "lyapunov_derivative_loss_at_samples"
            got = bl.scalar(ip, ip.call(ip.getattr(ly, f), args, kw))
            ls = []
            for i in range(nb):
                e1 = sum((s * (X[i][j] - xs[j]) for j, s in enumerate(
                    sg[i])), Z)
                V = W1[0] * sum((W0[j] * (X[i][j] - xs[j])
                                 for j in range(N)), Z) + lam * e1
                vd = sum(((W1[0] * W0[j] + lam * sg[i][j]) * Y[i][j]
                          for j in range(N)), Z)
                ls.append(hinge(-{"ExpLower": vd + eps * V,
                                  "ExpUpper": -(vd + eps * V),
                                  "Asymp": vd + eps * e1}[et], mg))
            ck.eq(key, got, reduce_(ls, "mean", None), "mean of the hinge of "
                  "the condition", w if direct else w2)
            gr = [e for e in ip.events if e[0] == "autograd"]
            ck.ob(key + ".graph", all(e[2] for e in gr), "the loss stays "
                  "differentiable in the network parameters", str(gr), w)
        ck.attempt(key, go, where=w if direct else w2)


def check(ck):
    program(ck)
    ct_losses(ck)
    ct_value(ck)
    ct_tolerance(ck)
    hybrid_programs(ck)
    hybrid_terms(ck)
    hybrid_value(ck)
    hybrid_losses(ck)
