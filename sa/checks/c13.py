"""Lyapunov verification programs and losses against their definitions."""
import itertools
import re

from .. import poly, gurobi_model as gm, mic
from ..poly import Rat
from ..values import Arr, Undecided
from .common import sym, where, F64
from . import blocks as bl
from .c11 import T, INF, addv, new_mip

TITLE = "Lyapunov programs and sample losses state the Lyapunov conditions"
EXPLANATION = (
    "The Lyapunov function, the positivity, derivative and region of "
    "attraction programs and the sample losses of the discrete-time Lyapunov "
    "class are evaluated on opaque networks, a symbolic state box, R and "
    "scalars. The program is taken apart into the blocks it was assembled "
    "from (network encodings, absolute values) and its remaining rows, "
    "variable types and objective are compared, as normal forms, with the "
    "documented condition.")
ASSUMPTIONS = ("real arithmetic; block contracts of C08/C09/C12; torch and "
               "gurobipy calls follow their documentation", )
MIN_OBS = 200
M = "lyapunov"
CLS = "LyapunovDiscreteTimeHybridSystem"
N = 2
PAT = ["+-", "-+", "++"]
lam, eps = sym("lam"), sym("eps")
Z = Rat.const(0)


class Setup:
    def __init__(self, ck, R=True, box=True):
        poly.clear_bounds()
        self.ck = ck
        self.w = bl.World(ck)
        ip = self.ip = self.w.ip
        self.lo, self.xs, self.up = bl.box(range(N))
        self.dyn = bl.net(ip, N, N, "dyn")
        self.V = bl.net(ip, N, 1, "phi")
        self.sys = ip.call(ip.get("relu_system", "AutonomousReLUSystem"), [
            F64, T(ip, self.lo), T(ip, self.up), self.dyn], {})
        self.lyap = ip.call(ip.get(M, CLS), [self.sys, self.V], {})
        self.xeq = T(ip, self.xs)
        if R:
            self.A = bl.matrix("R", PAT)
            self.R = T(ip, self.A, (3, N))
            self.pat = PAT
        else:
            self.A = [Rat.const(c) for c in (1, 0, 0, 1)]
            self.R = None
            self.pat = ["++", "++"]
        self.k = len(self.pat)

    def err(self, x):
        """R (x - x*)"""
        return [sum((self.A[i * N + j] * (x[j] - self.xs[j])
                     for j in range(N)), Z) for i in range(self.k)]

    def errb(self):
        return bl.ia(self.A, self.k, [
            -sum((self.A[i * N + j] * self.xs[j] for j in range(N)), Z)
            for i in range(self.k)], self.lo, self.up, self.pat)

    def val(self, x):
        """V(x)"""
        return bl.phi("phi", 0, x) - bl.phi("phi", 0, self.xs) + \
            lam * self.l1(x)

    def l1(self, x):
        return sum((poly.absv(e) for e in self.err(x)), Z)

    def m(self, name, *a, **k):
        ip = self.ip
        return ip.call(ip.getattr(self.lyap, name), list(a), k)


def vec(pre):
    return [sym("%s%d" % (pre, i)) for i in range(N)]


def value(ck):
    w = where(ck.repo, M, "LyapunovHybridLinearSystem.lyapunov_value")
    for R in (True, False):
        S = Setup(ck, R)
        ip = S.ip
        x = vec("p")

        def go():
            v = S.m("lyapunov_value", T(ip, x), S.xeq, lam, R=S.R)
            ck.eq("value.single.R%d" % R, bl.scalar(ip, v), S.val(x),
                  "V(x) = phi(x) - phi(x*) + lambda |R(x-x*)|_1", w)
            X = [vec("p%d_" % b) for b in range(3)]
            v = S.m("lyapunov_value", T(ip, sum(X, []), (3, N)), S.xeq, lam,
                    R=S.R)
            ck.ob("value.batch.shape.R%d" % R, v.shape == (3, ),
                  "one value per row of a batch", str(v.shape), w)
            for b, c in enumerate(ip.cells(v)):
                ck.eq("value.batch.R%d[%d]" % (R, b), c, S.val(X[b]),
                      "V of each sample", w)
        ck.attempt("value.R%d" % R, go, where=w)
        w2 = where(ck.repo, M, CLS + ".lyapunov_derivative")

        def dv():
            v = ip.iterate(S.m("lyapunov_derivative", T(ip, x), S.xeq, lam,
                               eps, R=S.R))
            ck.ob("derivative.R%d.count" % R, len(v) == 1,
                  "one value per possible next state", str(len(v)), w2)
            nx = [bl.phi("dyn", k, x) for k in range(N)]
            ck.eq("derivative.R%d" % R, bl.scalar(ip, v[0]),
                  S.val(nx) - S.val(x) + eps * S.val(x),
                  "V(x+) - V(x) + eps V(x)", w2)
        ck.attempt("derivative.R%d" % R, dv, where=w2)


def split(S, key, mip, w):
    """take a program apart: instances of phi, of dyn, of |.|, other rows"""
    insts, rest, vs = S.w.apart(key, mip, w)
    nets = {t: [i for i in insts if i.b.tag == t] for t in ("phi", "dyn",
                                                          "abs")}
    return nets, rest, vs


def types(ck, key, insts, vs, w, vt="B"):
    """types and bounds of the block variables"""
    for n, i in enumerate(insts):
        bad = [(str(b), vs[str(b)][1:4]) for b in i.binaries if
               vs[str(b)][3] != ("C" if vt == "BR" else vt) or
               vs[str(b)][1] != Z or vs[str(b)][2] != Rat.const(1)]
        ck.ob("%s.%s%d.binary" % (key, i.b.tag, n), not bad,
              "activation variables have the requested type in [0, 1]",
              str(bad), w)
        bad = [str(s) for s in i.slacks if not (
            poly._is_inf(-vs[str(s)][1]) and poly._is_inf(vs[str(s)][2]) and
            vs[str(s)][3] == "C")]
        ck.ob("%s.%s%d.slack" % (key, i.b.tag, n), not bad,
              "slack variables are continuous and unbounded", str(bad), w)


def free(ck, key, xs, vs, w, lo=None, up=None):
    for i, x in enumerate(xs):
        v = vs.get(str(x))
        if lo is None:
            ok = v and poly._is_inf(-v[1]) and poly._is_inf(v[2])
        else:
            ok = v and v[1] in (lo[i], -INF) and v[2] in (up[i], INF)
        ck.ob("%s.state%d" % (key, i), bool(ok) and v[3] == "C",
              "state variables are continuous with no bound of their own",
              str(v), w)


def lists(ip, v):
    return [gm.vsym(ip, x) for x in ip.iterate(v)]


def inputs_in_box(ck, S, key, inst, w, who):
    for j in range(N):
        ck.eq("%s.%s.lo%d" % (key, who, j), inst.b.args["lo"][j], S.lo[j],
              "the network encoding is built on the state box", w)
        ck.eq("%s.%s.up%d" % (key, who, j), inst.b.args["up"][j], S.up[j],
              "the network encoding is built on the state box", w)


def at(insts, x):
    hit = [i for i in insts if i.inputs == list(x)]
    return hit[0] if len(hit) == 1 else None


def objective(ck, key, ip, m, want, sense, w):
    ck.obj = gm.objective(ip, m)
    e, s = ck.obj
    ck.eq(key + ".objective", e, want, "the objective is the documented "
          "expression", w)
    ck.ob(key + ".sense", s == sense, "optimisation direction",
          "%s, expected %s" % (s, sense), w)


MAX, MIN = -1, 1


def positivity(ck):
    w = where(ck.repo, M, "LyapunovHybridLinearSystem."
              "lyapunov_positivity_as_milp")
    for R in (True, False):
        S = Setup(ck, R)
        ip = S.ip
        key = "positivity.R%d" % R

        def go():
            mip, x = ip.iterate(S.m("lyapunov_positivity_as_milp", S.xeq,
                                    lam, eps, R=S.R))
            x = lists(ip, x)
            nets, rest, vs = split(S, key, mip, w)
            f = at(nets["phi"], x)
            ck.ob(key + ".phi", f is not None and len(nets["phi"]) == 1,
                  "the network is encoded at the state variable", "", w)
            inputs_in_box(ck, S, key, f, w, "phi")
            lo, up = S.errb()
            s = bl.norm1(ck, key, nets["abs"], S.err(x), lo, up, w)
            bl.same_rows(ck, key + ".rows", rest, [], "no further "
                         "constraint", w)
            types(ck, key, sum(nets.values(), []), vs, w)
            free(ck, key, x, vs, w)
            objective(ck, key, ip, mic.mip_model(ip, mip), (eps - lam) * sum(
                s, Z) - f.out() + bl.phi("phi", 0, S.xs), MAX, w)
        ck.attempt(key, go, where=w)


def derivative(ck):
    w = where(ck.repo, M, CLS + ".lyapunov_derivative_as_milp")
    low, upp = sym("vlow"), sym("vup")
    for R, et, b, vt in itertools.product(
            (True, False), ("ExpLower", "ExpUpper", "Asymp"),
            (0, 1, 2, 3), ("B", "C", "BR")):
        if (not R or vt != "B") and b not in (0, 3):
            continue
        if not R and vt != "B":
            continue
        S = Setup(ck, R)
        ip = S.ip
        key = "deriv.%s.R%d.b%d.%s" % (et, R, b, vt)

        def go():
            kw = {"R": S.R, "binary_var_type": vt}
            if b & 1:
                kw["lyapunov_lower"] = low
            if b & 2:
                kw["lyapunov_upper"] = upp
            ret = S.m("lyapunov_derivative_as_milp", S.xeq, lam, eps,
                      ip.getattr(ip.get(M, "ConvergenceEps"), et), **kw)
            mip = ip.getattr(ret, "milp")
            x = lists(ip, ip.getattr(ret, "x"))
            xn = lists(ip, ip.getattr(ret, "x_next"))
            nets, rest, vs = split(S, key, mip, w)
            f, fn, d = at(nets["phi"], x), at(nets["phi"], xn), at(
                nets["dyn"], x)
            ck.ob(key + ".networks", None not in (f, fn, d) and len(
                nets["phi"]) == 2 and len(nets["dyn"]) == 1,
                "V at x, V at the next state and the dynamics at x are "
                "encoded", str([[str(y) for y in i.inputs] for i in
                                nets["phi"] + nets["dyn"]]), w)
            for who, i in (("phi", f), ("phi_next", fn), ("dyn", d)):
                inputs_in_box(ck, S, key, i, w, who)
            lo, up = S.errb()
            s = bl.norm1(ck, key + ".x", [i for i in nets["abs"] if
                                          i.inputs[0] in S.err(x)],
                         S.err(x), lo, up, w)
            sn = bl.norm1(ck, key + ".xn", [i for i in nets["abs"] if
                                            i.inputs[0] in S.err(xn)],
                          S.err(xn), lo, up, w)
            ck.ob(key + ".abs", len(nets["abs"]) == 2 * S.k, "one norm at x, "
                  "one at the next state", str(len(nets["abs"])), w)
            fs = bl.phi("phi", 0, S.xs)
            V = f.out() - fs + lam * sum(s, Z)
            Vn = fn.out() - fs + lam * sum(sn, Z)
            want = [(xn[k] - d.out(k), "=") for k in range(N)]
            if b & 1:
                want.append((low - V, "<"))
            if b & 2:
                want.append((V - upp, "<"))
            bl.same_rows(ck, key + ".rows", rest, want, "x+ = f(x) and "
                         "lower <= V(x) <= upper, nothing else", w)
            types(ck, key, sum(nets.values(), []), vs, w, vt)
            free(ck, key, x + xn, vs, w)
            e = {"ExpLower": Vn - V + eps * V,
                 "ExpUpper": -(Vn - V + eps * V),
                 "Asymp": Vn - V + eps * sum(s, Z)}[et]
            objective(ck, key, ip, mic.mip_model(ip, mip), e, MAX, w)
            if vt == "B":
                for fld, i in (("z", f), ("z_next", fn)):
                    ck.ob(key + ".ret." + fld, lists(ip, ip.getattr(
                        ret, fld)) == i.slacks, "returned variables are the "
                        "ones of the encoding", "", w)
                for fld, i in (("beta", f), ("beta_next", fn),
                               ("gamma", d)):
                    ck.ob(key + ".ret." + fld, lists(ip, ip.getattr(
                        ret, fld)) == i.binaries, "returned variables are "
                        "the ones of the encoding", "", w)
        ck.attempt(key, go, where=w)


def hinge(v, margin):
    """max(0, margin - v)"""
    return poly.relu(margin - v)


def reduce_(ls, red, wt):
    n = len(ls)
    if red == "mean":
        return sum((l * (wt[i] if wt else 1) for i, l in enumerate(ls)),
                   Z) / n
    if red == "max":
        m = ls[0]
        for l in ls[1:]:
            m = poly.max2(m, l)
        return m
    return None


def losses(ck):
    mg = sym("margin")
    w1 = where(ck.repo, M, "LyapunovHybridLinearSystem."
               "lyapunov_positivity_loss_at_samples")
    w2 = where(ck.repo, M, CLS + ".lyapunov_derivative_loss_at_samples")
    w3 = where(ck.repo, M, CLS + ".lyapunov_derivative_loss_at_samples_and_"
               "next_states")
    nb = 2
    for R, red, wt in ((True, "mean", False), (True, "mean", True),
                       (True, "max", False), (True, "4norm", False),
                       (False, "mean", False)):
        S = Setup(ck, R)
        ip = S.ip
        X = [vec("p%d_" % b) for b in range(nb)]
        Y = [vec("q%d_" % b) for b in range(nb)]
        wv = [sym("wt%d" % b) for b in range(nb)] if wt else None
        kw = {"R": S.R, "margin": mg, "reduction": red}
        if wt:
            kw["weight"] = T(ip, wv)

        def cmp(key, got, ls, w, rule):
            ls = [hinge(-l, mg) for l in ls]
            g = bl.scalar(ip, got)
            if red == "4norm":
                ck.eq(key, g, poly.norm4(ls), rule, w)
            else:
                ck.eq(key, g, reduce_(ls, red, wv), rule, w)
        tag = "R%d.%s.w%d" % (R, red, wt)

        def go():
            v = S.m("lyapunov_positivity_loss_at_samples", S.xeq,
                    T(ip, sum(X, []), (nb, N)), lam, eps, **kw)
            cmp("posloss." + tag, v, [-S.val(x) + eps * S.l1(x) for x in X],
                w1, "hinge of -V(x) + eps |R(x-x*)|_1 + margin")
        ck.attempt("posloss." + tag, go, where=w1)
        for et in ("ExpLower", "ExpUpper", "Asymp"):
            def l(x, y):
                V, Vn = S.val(x), S.val(y)
                return {"ExpLower": Vn - V + eps * V,
                        "ExpUpper": -(Vn - V + eps * V),
                        "Asymp": Vn - V + eps * S.l1(x)}[et]
            E = ip.getattr(ip.get(M, "ConvergenceEps"), et)

            def go2():
                v = S.m("lyapunov_derivative_loss_at_samples", lam, eps,
                        T(ip, sum(X, []), (nb, N)), S.xeq, E, **kw)
                cmp("derivloss.%s.%s" % (et, tag), v, [l(x, [
                    bl.phi("dyn", k, x) for k in range(N)]) for x in X], w2,
                    "hinge of the derivative condition + margin")
            ck.attempt("derivloss.%s.%s" % (et, tag), go2, where=w2)

            def go3():
                v = S.m("lyapunov_derivative_loss_at_samples_and_next_states",
                        lam, eps, T(ip, sum(X, []), (nb, N)),
                        T(ip, sum(Y, []), (nb, N)), S.xeq, E, **kw)
                cmp("derivloss2.%s.%s" % (et, tag), v, [
                    l(x, y) for x, y in zip(X, Y)], w3,
                    "hinge of the derivative condition + margin")
            ck.attempt("derivloss2.%s.%s" % (et, tag), go3, where=w3)


def boundary_sets(ck, key, rows, x, names, bins, lo, up, w):
    """the rows over x and bins admit, for each 0/1 choice, one face"""
    from .. import polytope as pt
    al = [str(v) for v in x] + bins
    sysr = [pt.row(e, s, al, "row") for e, s in rows]
    sysr += [pt.le(lo[i], x[i], al, "lb") for i in range(len(x))]
    sysr += [pt.le(x[i], up[i], al, "ub") for i in range(len(x))]
    faces = []
    xn = [str(v) for v in x]
    for beta in itertools.product((0, 1), repeat=len(bins)):
        P = pt.fix(sysr, dict(zip(bins, beta)))
        if sum(beta) != 1:
            mic.same_set(ck, "%s.b%s" % (key, "".join(map(str, beta))), P,
                         None, xn, "exactly one face is selected", w)
            continue
        hit = None
        for i in range(len(x)):
            for side, v in (("lo", lo[i]), ("up", up[i])):
                e = pt.eq(x[i], v, xn, "face")
                r = list(pt.included(P, [e], xn, ck.seed, 2))
                if all(t[1] for t in r):
                    hit = (i, side, v)
        ck.ob("%s.b%s.face" % (key, "".join(map(str, beta))), hit is not None,
              "each choice is one face of the box", "", w)
        if hit is None:
            continue
        faces.append(hit[:2])
        Q = [pt.eq(x[hit[0]], hit[2], xn, "face")]
        Q += [pt.le(lo[i], x[i], xn, "lb") for i in range(len(x))]
        Q += [pt.le(x[i], up[i], xn, "ub") for i in range(len(x))]
        mic.same_set(ck, "%s.b%s" % (key, "".join(map(str, beta))), P, Q, xn,
                     "the whole face of the box", w)
    ck.ob(key + ".all", sorted(faces) == sorted(
        (i, s) for i in range(len(x)) for s in ("lo", "up")),
        "every face of the box can be chosen", str(faces), w)


def roa_boundary(ck):
    w = where(ck.repo, M, "LyapunovHybridLinearSystem."
              "_construct_milp_for_roa_boundary")
    S = Setup(ck)
    ip = S.ip
    key = "roa_boundary"
    for i in range(N):
        poly.set_bounds("x%d.e" % i, 0, None, True, True)
        poly.set_bounds("x%d.g" % i, 0, None, True, True)

    def go():
        mip, x = ip.iterate(S.m("_construct_milp_for_roa_boundary", lam, S.R,
                                S.xeq))
        x = lists(ip, x)
        nets, rest, vs = split(S, key, mip, w)
        f = at(nets["phi"], x)
        inputs_in_box(ck, S, key, f, w, "phi")
        lo, up = S.errb()
        s = bl.norm1(ck, key, nets["abs"], S.err(x), lo, up, w)
        types(ck, key, sum(nets.values(), []), vs, w)
        free(ck, key, x, vs, w, S.lo, S.up)
        objective(ck, key, ip, mic.mip_model(ip, mip), f.out() - bl.phi(
            "phi", 0, S.xs) + lam * sum(s, Z), MIN, w)
        used = {str(v) for i in sum(nets.values(), []) for v in
                i.slacks + i.binaries} | {str(v) for v in x}
        bins = [n for n in vs if n not in used]
        ck.ob(key + ".bins", all(vs[b][3] == "B" for b in bins), "the face "
              "selectors are binary", str([vs[b] for b in bins]), w)
        boundary_sets(ck, key, rest, x, None, bins, S.lo, S.up, w)
    ck.attempt(key, go, where=w)


def roa(ck):
    """x outside the box is in one of the 2n neighbouring boxes"""
    from .. import polytope as pt
    w = where(ck.repo, M, CLS + "._construct_milp_for_roa")
    for inside in (True, False):
        S = Setup(ck)
        ip = S.ip
        for i in range(N):
            for p in ("x%d.e", "x%d.g", "m%d", "q%d"):
                poly.set_bounds(p % i, 0, None, True, True)
        L = [S.lo[i] - sym("m%d" % i) for i in range(N)]
        U = [S.up[i] + sym("q%d" % i) for i in range(N)]
        key = "roa.%s" % ("inside" if inside else "outside")

        def go():
            mip, x, xn, ts, zeta = ip.iterate(S.m(
                "_construct_milp_for_roa", lam, S.R, S.xeq, T(ip, L),
                T(ip, U), inside))
            x, xn, zeta = lists(ip, x), lists(ip, xn), lists(ip, zeta)
            ts = [lists(ip, t) for t in ip.iterate(ts)]
            nets, rest, vs = split(S, key, mip, w)
            f, d = at(nets["phi"], x), at(nets["dyn"], x)
            ck.ob(key + ".networks", None not in (f, d) and len(
                nets["phi"]) == len(nets["dyn"]) == 1,
                "V and the dynamics are encoded at x", "", w)
            inputs_in_box(ck, S, key, d, w, "dyn")
            lo, up = S.errb()
            s = bl.norm1(ck, key, nets["abs"], S.err(x), lo, up, w)
            types(ck, key, sum(nets.values(), []), vs, w)
            free(ck, key, x + xn, vs, w)
            objective(ck, key, ip, mic.mip_model(ip, mip), f.out() - bl.phi(
                "phi", 0, S.xs) + lam * sum(s, Z), MIN, w)
            dyn = [(xn[k] - d.out(k), "=") for k in range(N)]
            got = []
            for e, sn in rest:
                hit = [r for r in dyn if r[1] == sn and (
                    r[0] == e or r[0] == -e)]
                if hit:
                    dyn.remove(hit[0])
                else:
                    got.append((e, sn))
            ck.ob(key + ".dynamics", not dyn, "x+ = f(x)", str(dyn), w)
            out = xn if inside else x
            other = x if inside else xn
            al = [str(v) for v in x + xn + zeta + sum(ts, [])]
            for z in zeta:
                ck.ob("%s.%s.binary" % (key, z), vs[str(z)][3] == "B",
                      "region selectors are binary", str(vs[str(z)]), w)
            sysr = [pt.row(e, sn, al, "row") for e, sn in got]
            keep = [str(v) for v in x + xn]
            boxes = [("up%d" % i, [(S.up[i], U[i]) if j == i else
                                   (S.lo[j], S.up[j]) for j in range(N)])
                     for i in range(N)]
            boxes += [("lo%d" % i, [(L[i], S.lo[i]) if j == i else
                                    (S.lo[j], S.up[j]) for j in range(N)])
                      for i in range(N)]
            seen = []
            for beta in itertools.product((0, 1), repeat=len(zeta)):
                kb = "%s.b%s" % (key, "".join(map(str, beta)))
                P = pt.fix(sysr, dict(zip([str(z) for z in zeta], beta)))
                for t in sum(ts, []):
                    P = pt.eliminate(P, str(t))
                if sum(beta) != 1:
                    mic.same_set(ck, kb, P, None, keep,
                                 "exactly one region is selected", w)
                    continue
                extra = [] if inside else [
                    q for i in range(N) for q in (
                        pt.le(S.lo[i], other[i], keep, "in"),
                        pt.le(other[i], S.up[i], keep, "in"))]
                best = None
                for nm, bx in boxes:
                    Q = extra + [q for i in range(N) for q in (
                        pt.le(bx[i][0], out[i], keep, nm),
                        pt.le(out[i], bx[i][1], keep, nm))]
                    if all(t[1] for t in pt.included(P, Q, keep, ck.seed,
                                                     1)):
                        best = (nm, Q)
                ck.ob(kb + ".region", best is not None, "each choice is one "
                      "of the regions around the box", "", w)
                if best:
                    seen.append(best[0])
                    mic.same_set(ck, kb, P, best[1], keep,
                                 "the whole region", w)
            ck.ob(key + ".all", sorted(seen) == sorted(b[0] for b in boxes),
                  "every region around the box can be chosen", str(seen), w)
        ck.attempt(key, go, where=w)


def renamed(snap, first=0):
    """rows and objective of a program with its variables numbered and its
    blocks counted from `first`"""
    names = {v[0]: sym("var.%d" % i) for i, v in enumerate(snap["vars"])}

    def g(a):
        if a.kind != "sym":
            return None
        m = re.match(r"B(\d+)\.(.*)", a.name)
        if m:
            return sym("Q%d.%s" % (int(m.group(1)) - first, m.group(2)))
        return names.get(a.name)

    def f(e):
        return str(poly.subst(Rat.of(e), g))
    return (sorted((f(e), s) for e, s, _, _ in snap["rows"]),
            [(str(v[1]), str(v[2]), v[3]) for v in snap["vars"]],
            f(snap["obj"]), snap["sense"])


def roa_value(ck):
    """the region of attraction: the smaller of the two exits and the bound"""
    w = where(ck.repo, M, CLS + ".compute_region_of_attraction")
    for bound in (None, "V"):
        key = "roa.value.%s" % bound

        def go(bound=bound, key=key):
            S = Setup(ck)
            ip = S.ip
            for i in range(N):
                for p in ("x%d.e", "x%d.g", "m%d", "q%d"):
                    poly.set_bounds(p % i, 0, None, True, True)
            L = [S.lo[i] - sym("m%d" % i) for i in range(N)]
            U = [S.up[i] + sym("q%d" % i) for i in range(N)]
            ref, n = [], 0
            for inside in (True, False):
                mip = ip.iterate(S.m("_construct_milp_for_roa", lam, S.R,
                                     S.xeq, T(ip, L), T(ip, U), inside))[0]
                ref.append((gm.snapshot(ip, mic.mip_model(ip, mip)), n))
                n = len(S.w.blocks)
            k = ref[1][1]
            # in the order of the calls, or the other way round
            again = [renamed(ref[1][0], k), renamed(ref[0][0], k - n)]
            ref = [renamed(q, 0) for q, _ in ref]
            seen = []

            def status(ip, o):
                seen.append(gm.snapshot(ip, o))
                return gm.STATUS["OPTIMAL"]
            ip.grb_status = status
            ip.grb_result = lambda ip, o, kind: sym("roa.opt%d" % (
                [q["id"] for q in seen].index(ip.attrs(o)["_id"])))
            v = S.m("compute_region_of_attraction", lam, S.R, S.xeq,
                    None if bound is None else sym("roa.V"), T(ip, L), T(ip, U))
            want = poly.min2(sym("roa.opt0"), sym("roa.opt1"))
            if bound:
                want = poly.min2(want, sym("roa.V"))
            ck.eq(key, bl.scalar(ip, v), want, "the smallest of the values "
                  "where trajectories leave and enter the box, and the bound",
                  w)
            # block entries are numbered by call: the second pair of programs
            # repeats the first
            got = [renamed(q, n) for q in seen]
            ck.ob(key + ".programs", len(got) == 2 and
                  (got == ref or got == again), "one program for leaving the box, one for "
                "entering it", "%d programs" % len(got), w)
        ck.attempt(key, go, where=w)


def errors(ck):
    """|R(x - x*)|_i as mixed-integer rows"""
    w = where(ck.repo, M, "LyapunovHybridLinearSystem."
              "add_state_error_l1_constraint")
    for R, z in itertools.product((True, False), (None, False, True)):
        key = "errors.R%d.%s" % (R, z)

        def go(R=R, z=z, key=key):
            S = Setup(ck, R)
            ip = S.ip
            mip = new_mip(ip)
            x = addv(ip, mip, N, lb=-INF)
            kw = {"R": S.R}
            if z is not None:
                kw["binary_for_zero_input"] = z
            s, a = ip.iterate(S.m("add_state_error_l1_constraint", mip,
                                  S.xeq, x, **kw))
            xv = lists(ip, x)
            insts, rest, vs = S.w.apart(key, mip, w)
            lo, up = S.errb()
            out = bl.norm1(ck, key, insts, S.err(xv), lo, up, w)
            bl.same_rows(ck, key + ".rows", rest, [], "nothing else", w)
            ck.ob(key + ".slack", lists(ip, s) == out,
                  "s_i is |R_i (x - x*)|", "", w)
            want = []
            for e in S.err(xv):
                h = [i for i in insts if i.inputs[0] == e]
                want.append(h[0].binaries if h else None)
            got = []
            for v in ip.iterate(a):
                try:
                    got.append([gm.vsym(ip, v)])
                except (Undecided, AttributeError, TypeError, KeyError):
                    got.append(lists(ip, v))
            nb = 3 if z else 1
            ck.ob(key + ".binary", got == want and all(
                len(g) == nb for g in got), "one binary variable per entry "
                "of R(x - x*) unless the zero input gets its own", "%s, "
                "expected %d each" % (got, nb), w)
            types(ck, key, insts, vs, w)
        ck.attempt(key, go, where=w)


def value_rows(ck):
    """V(x) as rows and a linear term"""
    w = where(ck.repo, M, "LyapunovHybridLinearSystem."
              "_lyapunov_value_as_milp")
    for R in (True, False):
        key = "value_rows.R%d" % R

        def go(R=R, key=key):
            S = Setup(ck, R)
            ip = S.ip
            mip = new_mip(ip)
            x = ip.new_list(list(ip.iterate(addv(ip, mip, N, lb=-INF))))
            co, va, const, s = ip.iterate(S.m("_lyapunov_value_as_milp", mip,
                                              x, S.xeq, lam, S.R))
            xv = lists(ip, x)
            nets, rest, vs = split(S, key, mip, w)
            f = at(nets["phi"], xv)
            ck.ob(key + ".phi", f is not None and len(nets["phi"]) == 1,
                  "the network is encoded at the state", "", w)
            inputs_in_box(ck, S, key, f, w, "phi")
            lo, up = S.errb()
            out = bl.norm1(ck, key, nets["abs"], S.err(xv), lo, up, w)
            bl.same_rows(ck, key + ".rows", rest, [], "nothing else", w)
            types(ck, key, sum(nets.values(), []), vs, w)
            ck.ob(key + ".s", lists(ip, s) == out, "s_i is |R_i (x - x*)|",
                  "", w)
            co, va = ip.iterate(co), [lists(ip, v) for v in ip.iterate(va)]
            ck.ob(key + ".sizes", [len(ip.cells(c)) for c in co] ==
                  [len(v) for v in va], "one coefficient per variable", "", w)
            e = bl.scalar(ip, const)
            for c, v in zip(co, va):
                for a, b in zip(ip.cells(c), v):
                    e = e + a * b
            ck.eq(key + ".value", e, f.out() - bl.phi("phi", 0, S.xs) +
                  lam * sum(out, Z), "the coefficients and the constant "
                  "give V(x)", w)
        ck.attempt(key, go, where=w)


def check(ck):
    for n, g in (("value", value), ("value_rows", value_rows),
                 ("errors", errors), ("roa_value", roa_value),
                 ("positivity", positivity),
                 ("derivative", derivative), ("losses", losses),
                 ("roa_boundary", roa_boundary), ("roa", roa)):
        poly.clear_bounds()
        ck.attempt(n, lambda: g(ck))
    poly.clear_bounds()
