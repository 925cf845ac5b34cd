"""System classes: simulation and mixed-integer constraints agree."""
import itertools

from .. import poly, gurobi_model as gm, natives
from ..poly import Rat
from ..values import Arr, ExtV, ObjV
from .common import sym, where, F64
from . import blocks as bl
from .c11 import T, INF, new_mip
from .c13 import types

TITLE = "System constraints describe exactly the simulated dynamics"
EXPLANATION = (
    "For every neural-network system class, step_forward / possible_dx are "
    "evaluated on opaque networks and symbolic states, controls and "
    "equilibria (single and batched) and compared with the documented "
    "dynamics; add_dynamics_constraint is evaluated on a fresh program, the "
    "program is taken apart into the network blocks, and its remaining "
    "equalities are solved for the next state and compared with the same "
    "formula. The box given to the encoder, the reported bounds, the bound "
    "program and the variables reported back are compared with their "
    "definitions; a second pass uses networks with known weights to show "
    "that networks and equilibria are left as they were.")
ASSUMPTIONS = ("real arithmetic; block contracts of C09/C12; torch and "
               "gurobipy calls follow their documentation", )
MIN_OBS = 250
RS, MU = "relu_system", "mip_utils"
Z, ONE = Rat.const(0), Rat.const(1)
DT = Rat.of(1) / Rat.of(4)
METHODS = ("IA", "LP", "MIP", "IA_MIP")


def method(ip, name):
    return ip.getattr(ip.get(MU, "PropagateBoundsMethod"), name)


def ctrl_box(nu, extra=()):
    """control limits, with the equilibrium inside and a tighter / looser
    additional range"""
    lo, eq, up = bl.box(range(nu), pre="u")
    return lo, eq, up


class Kind:
    """one class: how to build it and what it must do"""
    def __init__(self, name, cls, nx, nu, make, f, nn_in, nn_eq, tag="dyn",
                 methods=("IA", ), nout=None):
        self.name, self.cls, self.nx, self.nu = name, cls, nx, nu
        self.make, self.f, self.nn_in, self.nn_eq = make, f, nn_in, nn_eq
        self.tag, self.methods, self.nout = tag, methods, nout or nx


def auto(name, cls, disc, extra, f):
    def make(S):
        ip = S.ip
        a = [F64, T(ip, S.xlo), T(ip, S.xup), S.net]
        k = {"network_bound_propagate_method": S.method}
        if extra:
            a.append(T(ip, S.xeq))
            k["discrete_time_flag"] = disc
        return ip.call(ip.get(RS, cls), a, k)
    return Kind(name, cls, 2, 0, make, f, lambda x, u: x,
                lambda S: S.xeq, methods=METHODS)


def ctrl(name, cls, disc, extra, f):
    def make(S):
        ip = S.ip
        a = [F64, T(ip, S.xlo), T(ip, S.xup), T(ip, S.ulo), T(ip, S.uup),
             S.net]
        k = {}
        if extra:
            a += [T(ip, S.xeq), T(ip, S.ueq)]
            k["discrete_time_flag"] = disc
        return ip.call(ip.get(RS, cls), a, k)
    return Kind(name, cls, 3, 2, make, f, lambda x, u: x + u,
                lambda S: S.xeq + S.ueq)


IDX = [2, 1, 3]


def second(name, cls, residue, nq):
    nx = 2 * nq

    def make(S):
        ip = S.ip
        a = [F64, T(ip, S.xlo), T(ip, S.xup), T(ip, S.ulo), T(ip, S.uup),
             S.net, T(ip, S.xeq[:nq]), T(ip, S.ueq), DT]
        if residue:
            a.append(ip.new_list([Rat.of(i) for i in idx]))
        return ip.call(ip.get(RS, cls), a, {})
    idx = IDX if nq == 2 else [1]

    def nn_in(x, u):
        return ([x[i] for i in idx] if residue else x) + u

    def f(S, x, u, phi, phis):
        q, v = x[:nq], x[nq:]
        vn = [phi[k] - phis[k] + (v[k] if residue else Z)
              for k in range(nq)]
        return [q[k] + (v[k] + vn[k]) * DT / Rat.of(2)
                for k in range(nq)] + vn

    return Kind(name, cls, nx, 2, make, f, nn_in,
                lambda S: nn_in(S.xeq, S.ueq), nout=nq)


KINDS = [
    auto("auto", "AutonomousReLUSystem", None, False,
         lambda S, x, u, p, s: list(p)),
    auto("equi.d", "AutonomousReLUSystemGivenEquilibrium", True, True,
         lambda S, x, u, p, s: [a - b + c for a, b, c in
                                zip(p, s, S.xeq)]),
    auto("equi.c", "AutonomousReLUSystemGivenEquilibrium", False, True,
         lambda S, x, u, p, s: [a - b for a, b in zip(p, s)]),
    auto("resid.d", "AutonomousResidualReLUSystemGivenEquilibrium", True,
         True, lambda S, x, u, p, s: [a - b + c for a, b, c in
                                      zip(p, s, x)]),
    auto("resid.c", "AutonomousResidualReLUSystemGivenEquilibrium", False,
         True, lambda S, x, u, p, s: [a - b for a, b in zip(p, s)]),
    ctrl("relu", "ReLUSystem", None, False,
         lambda S, x, u, p, s: list(p)),
    ctrl("reluequi.d", "ReLUSystemGivenEquilibrium", True, True,
         lambda S, x, u, p, s: [a - b + c for a, b, c in
                                zip(p, s, S.xeq)]),
    ctrl("reluequi.c", "ReLUSystemGivenEquilibrium", False, True,
         lambda S, x, u, p, s: [a - b for a, b in zip(p, s)]),
    second("second", "ReLUSecondOrderSystemGivenEquilibrium", False, 2),
    second("second1", "ReLUSecondOrderSystemGivenEquilibrium", False, 1),
    second("residue", "ReLUSecondOrderResidueSystemGivenEquilibrium", True,
           2),
    second("residue1", "ReLUSecondOrderResidueSystemGivenEquilibrium", True,
           1),
]


class Setup:
    def __init__(self, ck, kind, meth="IA"):
        poly.clear_bounds()
        self.ck, self.kind = ck, kind
        self.w = bl.World(ck)
        ip = self.ip = self.w.ip
        self.method = method(ip, meth)
        self.xlo, self.xeq, self.xup = bl.box(range(kind.nx))
        self.ulo, self.ueq, self.uup = bl.box(range(kind.nu), pre="u")
        if kind.cls.startswith("ReLUSecondOrder"):
            # v* = 0
            nq = kind.nx // 2
            for i in range(nq, kind.nx):
                self.xlo[i] = -sym("x%d.e" % i)
                self.xup[i] = sym("x%d.g" % i)
                self.xeq[i] = Z
        nin = len(kind.nn_in([Z] * kind.nx, [Z] * kind.nu))
        self.net = bl.net(ip, nin, kind.nout, "dyn")
        self.sys = kind.make(self)

    def phis(self):
        e = self.kind.nn_eq(self)
        return [bl.phi("dyn", k, e) for k in range(self.kind.nout)]

    def spec(self, x, u, phi=None):
        k = self.kind
        if phi is None:
            i = k.nn_in(x, u)
            phi = [bl.phi("dyn", j, i) for j in range(k.nout)]
        return k.f(self, x, u, phi, self.phis())

    def m(self, name, *a, **k):
        return self.ip.call(self.ip.getattr(self.sys, name), list(a), k)


def vec(pre, n):
    return [sym("%s%d" % (pre, i)) for i in range(n)]


def solve_for(rows, names):
    """solve equality rows for the named variables by substitution;
    -> ({name: expr}, unused rows) or None"""
    rows = list(rows)
    sol = {}
    for n in names:
        hit = None
        for r in rows:
            if r[1] != "=":
                continue
            c = poly.diff(r[0], n)
            if not c.is_zero() and not any(
                    not poly.diff(c, m).is_zero() for m in names):
                hit = (r, c)
                break
        if hit is None:
            return None, rows
        r, c = hit
        rows.remove(r)
        e = sym(n) - r[0] / c
        f = lambda at: e if at.kind == "sym" and at.name == n else None
        rows = [(poly.subst(q[0], f), q[1]) for q in rows]
        sol = {k: poly.subst(v, f) for k, v in sol.items()}
        sol[n] = e
    return sol, rows


def simulate(ck):
    for K in KINDS:
        f = K.cls + ".step_forward"
        w = where(ck.repo, RS, f)
        rule = "step_forward is the documented dynamics"

        def go(K=K, w=w):
            S = Setup(ck, K)
            ip = S.ip
            x, u = vec("p", K.nx), vec("c", K.nu)
            ar = lambda x, u, sh=None: [T(ip, x, sh and (sh, K.nx))] + (
                [T(ip, u, sh and (sh, K.nu))] if K.nu else [])
            a = ar(x, u)
            v = S.m("step_forward", *a)
            ck.eq_arr(ip, "step.%s" % K.name, v, S.spec(x, u), rule, w)
            ck.eq_arr(ip, "step.%s.state" % K.name, a[0], x,
                      "the state passed in is not modified", w)
            l = ip.iterate(S.m("possible_dx", *ar(x, u)))
            ck.ob("possible.%s.count" % K.name, len(l) == 1,
                  "one successor", str(len(l)), w)
            ck.eq_arr(ip, "possible.%s" % K.name, l[0], S.spec(x, u),
                      "possible_dx is the documented dynamics", w)
            X = [vec("p%d_" % b, K.nx) for b in range(3)]
            U = [vec("c%d_" % b, K.nu) for b in range(3)]
            v = S.m("step_forward", *ar(sum(X, []), sum(U, []), 3))
            ck.ob("step.%s.batch.shape" % K.name, tuple(v.shape) ==
                  (3, K.nx), "one row per sample", str(v.shape), w)
            want = sum([S.spec(X[b], U[b]) for b in range(3)], [])
            for i, (c, e) in enumerate(zip(ip.cells(v), want)):
                ck.eq("step.%s.batch[%d]" % (K.name, i), c, e,
                      "each row of a batch is the dynamics of that sample",
                      w)
            # the equilibrium is a fixed point (discrete) / a zero of the
            # vector field (continuous)
            if K.name not in ("auto", "relu"):
                v = S.m("step_forward", *ar(S.xeq, S.ueq))
                want = [Z] * K.nx if K.name.endswith(".c") else S.xeq
                ck.eq_arr(ip, "equilibrium.%s" % K.name, v, want,
                          "x* (with u*) is an equilibrium", w)
                at = S.ip.getattr(S.sys, "x_equilibrium")
                ck.eq_arr(ip, "equilibrium.%s.kept" % K.name, at, S.xeq,
                          "the equilibrium is not modified", w)
        ck.attempt("step.%s" % K.name, go, where=w)


def lists(ip, v):
    if v is None:
        return None
    return [str(gm.vsym(ip, z)) for z in ip.items(v)]


def take(ck, S, key, mip, x, u, xn, w, reuse=None):
    """program -> block instance, after comparing the rows with the spec"""
    K, ip = S.kind, S.ip
    insts, rest, vs = S.w.apart(key, mip, w)
    ck.ob(key + ".count", len(insts) == 1, "the network appears once",
          str(len(insts)), w)
    if len(insts) != 1:
        return None, vs
    i = insts[0]
    want = K.nn_in(x, u)
    for j, (a, b) in enumerate(zip(i.inputs, want)):
        ck.eq("%s.input%d" % (key, j), a, b,
              "the network input is (state, control) in order", w)
    sol, left = solve_for(rest, [str(v) for v in xn])
    ck.ob(key + ".determined", sol is not None, "the rows determine the "
          "next state", "rows %s" % [(str(r[0])[:80], r[1]) for r in rest],
          w)
    if sol is None:
        return i, vs
    left = [r for r in left if not r[0].is_zero()]
    ck.ob(key + ".left", not left, "no other row constrains the variables",
          str([(str(r[0])[:100], r[1]) for r in left[:3]]), w)
    e = S.spec(x, u, [i.out(k) for k in range(K.nout)])
    for j, n in enumerate(xn):
        ck.eq("%s.next%d" % (key, j), sol[str(n)], e[j],
              "the rows say x_next == dynamics(x, u)", w)
    return i, vs


def ret_ob(ck, S, key, ret, i, x, u, w):
    ip, B = S.ip, i.b
    ck.ob(key + ".ret.slack", lists(ip, ip.getattr(ret, "slack")) ==
          [str(s) for s in i.slacks], "the reported slack variables are "
          "those of the network", "", w)
    ck.ob(key + ".ret.binary", lists(ip, ip.getattr(ret, "binary")) ==
          [str(s) for s in i.binaries], "the reported binary variables are "
          "those of the network", "", w)
    ck.ob(key + ".ret.input", lists(ip, ip.getattr(ret, "nn_input")) ==
          [str(s) for s in S.kind.nn_in(x, u)], "the reported network input "
          "variables are (state, control)", "", w)
    for f, n in (("nn_output", B.nout), ("relu_input", B.ns),
                 ("relu_output", B.ns)):
        for e in ("lo", "up"):
            ck.eq_arr(ip, "%s.ret.%s_%s" % (key, f, e),
                      ip.getattr(ret, "%s_%s" % (f, e)),
                      [sym("%s.%s_%s.%d" % (B.id, f, e, k))
                       for k in range(n)],
                      "bounds are reported under their own names", w)
    for e in ("lo", "up"):
        ck.eq_arr(ip, "%s.ret.nn_input_%s" % (key, e),
                  ip.getattr(ret, "nn_input_" + e), B.args[e],
                  "bounds are reported under their own names", w)


def variables(ck, key, names, vs, w, what):
    bad = [str(n) for n in names if not (
        poly._is_inf(-vs[str(n)][1]) and poly._is_inf(vs[str(n)][2]) and
        vs[str(n)][3] == "C")]
    ck.ob(key, not bad, what + " variables are continuous and unbounded",
          str(bad), w)


def add(ip, S, mip, x, xn, u, vt, **kw):
    a = [mip, x[1], xn[1]] + ([u[1]] if S.kind.nu else [])
    return S.m("add_dynamics_constraint", *a, "s", "b",
               binary_var_type=_vt(ip, vt), **kw)


def _vt(ip, vt):
    if vt == "BR":
        return ip.get("gurobi_torch_mip", "BINARYRELAX")
    return vt


def newvars(ip, mip, n, name):
    if not n:
        return [], ip.new_list([])
    v = ip.call(ip.getattr(mip, "addVars"), [n], {"lb": -INF, "name": name})
    return [gm.vsym(ip, z) for z in ip.items(v)], v


def ia_bounds(S, B):
    """interval bounds of the next state implied by those of the network"""
    out = []
    for e, xb in (("lo", S.xlo), ("up", S.xup)):
        p = [sym("%s.nn_output_%s.%d" % (B.id, e, k))
             for k in range(S.kind.nout)]
        out.append(S.kind.f(S, xb, [], p, S.phis()))
    return out


def auto_mip(ck):
    for K in KINDS:
        if K.nu:
            continue
        w = where(ck.repo, RS, K.cls + ".add_dynamics_constraint")
        for meth, vt in itertools.product(METHODS, ("B", "C", "BR")):
            key = "mip.%s.%s.%s" % (K.name, meth, vt)

            def go(K=K, key=key, meth=meth, vt=vt, w=w):
                S = Setup(ck, K, meth)
                ip = S.ip
                mip = new_mip(ip)
                x, xn = newvars(ip, mip, 2, "x"), newvars(ip, mip, 2, "xn")
                ret = add(ip, S, mip, x, xn, None, vt)
                i, vs = take(ck, S, key, mip, x[0], [], xn[0], w)
                if i is None:
                    return
                types(ck, key, [i], vs, w, vt)
                variables(ck, key + ".free", x[0] + xn[0], vs, w,
                          "no row or bound cuts off states: the state")
                ret_ob(ck, S, key, ret, i, x[0], [], w)
                B = i.b
                for e, b in (("lo", S.xlo), ("up", S.xup)):
                    for j in range(K.nx):
                        ck.eq("%s.box_%s%d" % (key, e, j), B.args[e][j],
                              b[j], "the network is encoded over the state "
                              "box", w)
                ck.ob(key + ".method", B.args["method"] == S.method,
                      "neuron bounds use the method of the system",
                      repr(B.args["method"]), w)
                lo, up = ia_bounds(S, B)
                for nm, want in (("x_next_lb_IA", lo), ("x_next_ub_IA", up)):
                    got = ip.getattr(ret, nm)
                    if meth in ("IA", "IA_MIP"):
                        ck.ob(key + "." + nm + ".given", isinstance(got, Arr),
                              "interval bounds of the next state are "
                              "reported", repr(got), w)
                        if isinstance(got, Arr):
                            ck.eq_arr(ip, key + "." + nm, got, want,
                                      "bounds of the next state follow from "
                                      "those of the network", w)
                    elif isinstance(got, Arr):
                        ck.eq_arr(ip, key + "." + nm, got, want,
                                  "bounds of the next state follow from "
                                  "those of the network", w)
                bp = ip.getattr(ret, "x_next_bound_prog")
                if meth == "IA":
                    return
                ck.ob(key + ".prog.given", isinstance(bp, ObjV),
                      "a program for the bounds of the next state is "
                      "reported", repr(bp), w)
                if not isinstance(bp, ObjV):
                    return
                bx = [gm.vsym(ip, z) for z in ip.items(
                    ip.getattr(ret, "x_var"))]
                bn = [gm.vsym(ip, z) for z in ip.items(
                    ip.getattr(ret, "x_next_bound_var"))]
                ck.ob(key + ".prog.vars", len(bx) == len(bn) == 2 and
                      not set(map(str, bx)) & set(map(str, bn)),
                      "the bound program has its own state and next state",
                      "%s %s" % (bx, bn), w)
                j, vs = take(ck, S, key + ".prog", bp, bx, [], bn, w)
                if j is not None:
                    types(ck, key + ".prog", [j], vs, w,
                          "C" if meth == "LP" and vs[str(
                              j.binaries[0])][3] == "C" else "B")
                    ck.ob(key + ".prog.exact", meth == "LP" or
                          vs[str(j.binaries[0])][3] == "B",
                          "only the LP bound relaxes the binaries", "", w)
                    variables(ck, key + ".prog.free", bx + bn, vs, w,
                              "bound program: state")
            ck.attempt(key, go, where=w)


def ulims(S, case):
    """additional control limits -> (lo, up) kwargs and the effective box"""
    lo, up = list(S.ulo), list(S.uup)
    kl = ku = None
    n = S.kind.nu
    if case in ("lo", "both", "mixed"):
        kl = []
        for j in range(n):
            tight = case != "mixed" or j % 2 == 0
            poly.set_bounds("d%d" % j, 0, None, True)
            kl.append(lo[j] + sym("d%d" % j) * (1 if tight else -1))
            if tight:
                lo[j] = kl[j]
    if case in ("up", "both", "mixed"):
        ku = []
        for j in range(n):
            tight = case != "mixed" or j % 2 == 1
            poly.set_bounds("h%d" % j, 0, None, True)
            ku.append(up[j] + sym("h%d" % j) * (-1 if tight else 1))
            if tight:
                up[j] = ku[j]
    return kl, ku, lo, up


def ctrl_mip(ck):
    for K in KINDS:
        if not K.nu:
            continue
        w = where(ck.repo, RS, K.cls + ".add_dynamics_constraint")
        for case, vt in itertools.product(
                ("none", "lo", "up", "both", "mixed"), ("B", "C", "BR")):
            key = "mip.%s.%s.%s" % (K.name, case, vt)

            def go(K=K, key=key, case=case, vt=vt, w=w):
                S = Setup(ck, K)
                ip = S.ip
                mip = new_mip(ip)
                x, u, xn = (newvars(ip, mip, n, c) for n, c in (
                    (K.nx, "x"), (K.nu, "u"), (K.nx, "xn")))
                kl, ku, lo, up = ulims(S, case)
                kw = {}
                if kl is not None:
                    kw["additional_u_lo"] = T(ip, kl)
                if ku is not None:
                    kw["additional_u_up"] = T(ip, ku)
                ret = add(ip, S, mip, x, xn, u, vt, **kw)
                i, vs = take(ck, S, key, mip, x[0], u[0], xn[0], w)
                if i is None:
                    return
                types(ck, key, [i], vs, w, vt)
                variables(ck, key + ".free", x[0] + u[0] + xn[0], vs, w,
                          "no bound cuts off states: the state and control")
                ret_ob(ck, S, key, ret, i, x[0], u[0], w)
                for e, xb, ub in (("lo", S.xlo, lo), ("up", S.xup, up)):
                    want = K.nn_in(xb, ub)
                    for j in range(len(want)):
                        ck.eq("%s.box_%s%d" % (key, e, j),
                              i.b.args[e][j], want[j],
                              "the network is encoded over the state box "
                              "and the intersection of the control limits",
                              w)
            ck.attempt(key, go, where=w)


# ------------------------------------------------------ networks untouched
def untouched(ck):
    """real networks with constant weights: adding the constraints twice
    leaves parameters, boxes and equilibria alone and gives the same rows"""
    for K in KINDS:
        w = where(ck.repo, RS, K.cls + ".add_dynamics_constraint")
        key = "untouched." + K.name

        def go(K=K, key=key, w=w):
            poly.clear_bounds()
            ip = ck.interp()

            class S:
                pass
            S = S()
            S.ip, S.kind, S.method = ip, K, method(ip, "IA")
            nin = len(K.nn_in([Z] * K.nx, [Z] * K.nu))
            from .c09 import Net
            r = lambda n, s: [Rat.of((7 * i * i + s * i + s) % 11 - 5) /
                              Rat.of(4) for i in range(n)]
            net = Net(ip, [nin, 3, K.nout], [r(3 * nin, 3), r(3 * K.nout, 5)],
                      [r(3, 2), r(K.nout, 4)], [None, None])
            S.net = net.seq
            c = lambda n, v: [Rat.of(v)] * n
            S.xlo, S.xup = c(K.nx, -2), c(K.nx, 3)
            nq = K.nx // 2
            S.xeq = c(K.nx, 1)
            if K.cls.startswith("ReLUSecondOrder"):
                S.xeq = c(nq, 1) + c(nq, 0)
            S.ulo, S.uup, S.ueq = c(K.nu, -1), c(K.nu, 2), c(K.nu, 1)
            S.sys = K.make(S)

            def shot():
                out = []
                for l in net.layers[::2]:
                    for p in ("weight", "bias"):
                        out += [str(v) for v in ip.cells(
                            ip.getattr(l, p))]
                for a in ("x_lo", "x_up", "u_lo", "u_up", "x_equilibrium",
                          "u_equilibrium", "q_equilibrium"):
                    if a in ip.attrs(S.sys):
                        out += [str(v) for v in ip.cells(
                            ip.getattr(S.sys, a))]
                return out

            def rows():
                mip = new_mip(ip)
                x, u, xn = (newvars(ip, mip, n, c) for n, c in (
                    (K.nx, "x"), (K.nu, "u"), (K.nx, "xn")))
                a = [mip, x[1], xn[1]] + ([u[1]] if K.nu else [])
                ip.call(ip.getattr(S.sys, "add_dynamics_constraint"),
                        a + ["s", "b"], {})
                from .. import mic
                m = mic.mip_model(ip, mip)
                vs = [v[0] for v in gm.variables(ip, m)]
                pos = {n: k for k, n in enumerate(vs)}
                out = []
                for e, s, nm, wh in gm.rows(ip, m):
                    c = {pos[n]: str(poly.diff(e, n)) for n in vs
                         if not poly.diff(e, n).is_zero()}
                    k = e
                    for n in vs:
                        k = k - poly.diff(e, n) * sym(n)
                    out.append((s, tuple(sorted(c.items())), str(k)))
                return out
            before = shot()
            a = rows()
            mid = shot()
            ck.ob(key + ".params", before == mid, "adding the constraints "
                  "leaves the network, the boxes and the equilibrium as they "
                  "were", str([(p, q) for p, q in zip(before, mid)
                               if p != q][:3]), w)
            b = rows()
            ck.ob(key + ".again", a == b, "adding the constraints again "
                  "gives the same rows", "%s vs %s" % (
                      [r for r in a if r not in b][:2],
                      [r for r in b if r not in a][:2]), w)
            xs = T(ip, c(K.nx, 2))
            args = [xs] + ([T(ip, c(K.nu, 1))] if K.nu else [])
            v1 = [str(q) for q in ip.cells(ip.call(ip.getattr(
                S.sys, "step_forward"), args, {}))]
            v2 = [str(q) for q in ip.cells(ip.call(ip.getattr(
                S.sys, "step_forward"), args, {}))]
            ck.ob(key + ".step", v1 == v2 and shot() == before,
                  "step_forward leaves the system as it was", "", w)
        ck.attempt(key, go, where=w)


def limits(ck):
    """the box over which mixed_integer_constraints encodes the network"""
    for K in KINDS:
        if not K.nu or K.name.startswith("residue"):
            # the residue system has no mixed_integer_constraints of its own
            continue
        w = where(ck.repo, RS, K.cls + ".mixed_integer_constraints")
        for case in ("own", "lo", "up", "both"):
            key = "limits.%s.%s" % (K.name, case)

            def go(K=K, key=key, case=case, w=w):
                S = Setup(ck, K)
                lo, up, kw = list(S.ulo), list(S.uup), {}
                if case in ("lo", "both"):
                    lo = vec("gl", K.nu)
                    kw["u_lo"] = T(S.ip, lo)
                if case in ("up", "both"):
                    up = vec("gu", K.nu)
                    kw["u_up"] = T(S.ip, up)
                S.m("mixed_integer_constraints", **kw)
                bs = [b for b in S.w.blocks if b.kind == "net"]
                ck.ob(key + ".once", len(bs) == 1, "the network is encoded "
                      "once", str(len(bs)), w)
                for e, xb, ub in (("lo", S.xlo, lo), ("up", S.xup, up)):
                    want = K.nn_in(xb, ub)
                    for j, v in enumerate(want):
                        ck.eq("%s.%s%d" % (key, e, j), bs[0].args[e][j], v,
                              "the network is encoded over the state box "
                              "and the control limits that are given, else "
                              "those of the system", w)
            ck.attempt(key, go, where=w)


# ----------------------------------------------------------- generic forward
FQ = "sa.Forward"


@natives.method(FQ, "mixed_integer_constraints", "lo=None up=None")
def _fmic(ip, o, lo, up):
    d = ip.attrs(o)
    d["_calls"].append((lo, up))
    return d["_block"]


def forward(ck):
    """_add_forward_dynamics_mip_constraints on a generic forward system"""
    f = "_add_forward_dynamics_mip_constraints"
    w = where(ck.repo, RS, f)
    for meth, vt, given in itertools.product(METHODS, ("B", "BR"), (0, 1)):
        key = "forward.%s.%s.%d" % (meth, vt, given)

        def go(meth=meth, vt=vt, given=given, key=key):
            poly.clear_bounds()
            W = bl.World(ck)
            ip = W.ip
            nx, nu = 2, 1
            net = bl.net(ip, nx + nu, nx, "dyn")
            pat = ip.call(ip.get("relu_to_optimization", "ReLUFreePattern"),
                          [net, F64], {})
            lo, xs, up = bl.box(range(nx + nu))
            blk = ip.call(ip.getattr(pat, "output_constraint"), [
                T(ip, lo), T(ip, up), method(ip, meth)], {})
            for e in ("lb", "ub"):
                ip.setattr(blk, "x_next_" + e, T(ip, [sym("xn.%s%d" % (e, k))
                                                      for k in range(nx)]))
            calls = []
            o = ip.new_obj(ExtV(FQ), {
                "x_dim": Rat.of(nx), "u_dim": Rat.of(nu), "dtype": F64,
                "network_bound_propagate_method": method(ip, meth),
                "_block": blk, "_calls": calls})
            mip = new_mip(ip)
            x, u, xn = (newvars(ip, mip, n, c) for n, c in (
                (nx, "x"), (nu, "u"), (nx, "xn")))
            prog = None
            if given:
                pm = new_mip(ip, "GurobiTorchMILP")
                px, pu = newvars(ip, pm, nx, "px"), newvars(ip, pm, nu, "pu")
                prog = ip.call(ip.get(RS, "ControlBoundProg"),
                               [pm, px[1], pu[1]], {})
            al, au = T(ip, [sym("al")]), T(ip, [sym("au")])
            ret = ip.call(ip.get(RS, f), [
                o, mip, x[1], xn[1], u[1], "s", "b", al, au, _vt(ip, vt),
                prog], {})
            ck.ob(key + ".limits", len(calls) == 1 and calls[0][0] is al and
                  calls[0][1] is au, "the control limits are passed on", "",
                  w)

            class S:
                pass
            S = S()
            S.w, S.ip = W, ip
            S.spec = lambda x, u, phi: phi
            S.kind = Kind("f", "", nx, nu, None, None,
                          lambda x, u: x + u, None)
            i, vs = take(ck, S, key, mip, x[0], u[0], xn[0], w)
            if i is None:
                return
            types(ck, key, [i], vs, w, vt)
            ret_ob(ck, S, key, ret, i, x[0], u[0], w)
            if meth == "IA":
                for e in ("lb", "ub"):
                    ck.eq_arr(ip, key + ".x_next_" + e, ip.getattr(
                        ret, "x_next_%s_IA" % e),
                        [sym("xn.%s%d" % (e, k)) for k in range(nx)],
                        "interval bounds are passed on", w)
                return
            bp = ip.getattr(ret, "x_next_bound_prog")
            bx = ip.getattr(ret, "x_var")
            if given:
                ck.ob(key + ".reuse", bp == pm and lists(ip, bx) ==
                      [str(v) for v in px[0]], "the program of the control "
                      "bounds is extended", "", w)
                pin, pu_ = px[0], pu[0]
            else:
                pin = [gm.vsym(ip, z) for z in ip.items(bx)]
                pu_ = None
            pn = [gm.vsym(ip, z) for z in ip.items(
                ip.getattr(ret, "x_next_bound_var"))]
            if pu_ is None:
                insts, rest, vs = W.apart(key + ".peek", bp, w)
                pu_ = insts[0].inputs[nx:] if len(insts) == 1 else []
                ck.ob(key + ".prog.u", len(pu_) == nu and all(
                    str(v) in vs for v in pu_) and not set(map(
                        str, pu_)) & set(map(str, pin + pn)),
                      "the bound program has its own control", "", w)
            j, vs = take(ck, S, key + ".prog", bp, pin, pu_, pn, w)
            if j is not None:
                types(ck, key + ".prog", [j], vs, w,
                      "BR" if meth == "LP" else "B")
                variables(ck, key + ".prog.free", pin + pu_ + pn, vs, w,
                          "bound program:")
        ck.attempt(key, go, where=w)


def dispatch(ck):
    """_add_system_constraint reaches the constraints of the system"""
    w = where(ck.repo, "dynamic_system", "_add_system_constraint")
    for K in KINDS:
        if K.nu:
            continue
        for vt in ("B", "BR"):
            key = "system.%s.%s" % (K.name, vt)

            def go(K=K, key=key, vt=vt):
                S = Setup(ck, K)
                ip = S.ip
                mip = new_mip(ip)
                x, xn = newvars(ip, mip, 2, "x"), newvars(ip, mip, 2, "xn")
                ret = ip.call(ip.get("dynamic_system",
                                     "_add_system_constraint"),
                              [S.sys, mip, x[1], xn[1]],
                              {"binary_var_type": _vt(ip, vt)})
                i, vs = take(ck, S, key, mip, x[0], [], xn[0], w)
                if i is not None:
                    types(ck, key, [i], vs, w, vt)
                    ret_ob(ck, S, key, ret, i, x[0], [], w)
            ck.attempt(key, go, where=w)


def check(ck):
    simulate(ck)
    auto_mip(ck)
    ctrl_mip(ck)
    limits(ck)
    forward(ck)
    dispatch(ck)
    untouched(ck)
