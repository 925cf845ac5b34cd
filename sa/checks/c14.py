"""Barrier functions: values, programs and losses."""
import itertools

from .. import poly, gurobi_model as gm
from ..poly import Rat
from .common import sym, where, F64
from . import blocks as bl
from .c11 import T, INF
from .c13 import types
from .c15 import _vt, solve_for, lists, method
from .c16 import free

TITLE = "Barrier programs and losses state the barrier conditions"
EXPLANATION = (
    "The barrier function, its programs over safe / unsafe regions, its "
    "derivative program and its sample losses are evaluated on opaque "
    "networks; the programs are taken apart and their rows, variable types "
    "and objectives compared with h(x) = phi(x) - phi(x*) + c, max h on "
    "unsafe and max -h on safe regions, and max -h(x+) + (1-eps) h(x).")
ASSUMPTIONS = ("real arithmetic; contracts of the network blocks and of the "
               "system classes (C09, C12, C15); library calls follow their "
               "documentation", )
MIN_OBS = 60
M = "barrier"
CLS = "DiscreteTimeBarrier"
N = 2
c, eps, mg = sym("c"), sym("eps"), sym("margin")
Z = Rat.const(0)


class Setup:
    def __init__(self, ck, hidden=2, meth="IA"):
        poly.clear_bounds()
        poly.set_bounds("c", 0, None, True)
        self.ck = ck
        self.w = bl.World(ck)
        ip = self.ip = self.w.ip
        self.lo, self.xs, self.up = bl.box(range(N))
        self.dyn = bl.net(ip, N, N, "dyn")
        self.phi = bl.net(ip, N, 1, "phi")
        self.sys = ip.call(ip.get("relu_system", "AutonomousReLUSystem"), [
            F64, T(ip, self.lo), T(ip, self.up), self.dyn], {})
        self.bar = ip.call(ip.get(M, CLS), [self.sys, self.phi], {})
        self.meth = method(ip, meth)
        ip.setattr(self.bar, "network_bound_propagate_method", self.meth)
        self.xeq = T(ip, self.xs)

    def h(self, x):
        return bl.phi("phi", 0, x) - bl.phi("phi", 0, self.xs) + c

    def f(self, x):
        return [bl.phi("dyn", k, x) for k in range(N)]

    def m(self, name, *a, **k):
        return self.ip.call(self.ip.getattr(self.bar, name), list(a), k)


def vec(pre):
    return [sym("%s%d" % (pre, i)) for i in range(N)]


def values(ck):
    w = where(ck.repo, M, "Barrier.value")
    S = Setup(ck)
    ip = S.ip
    x = vec("p")

    def go():
        v = S.m("value", T(ip, x), S.xeq, c)
        ck.eq("value", bl.scalar(ip, v), S.h(x),
              "h(x) = phi(x) - phi(x*) + c", w)
        ck.eq("value.star", bl.scalar(ip, S.m("value", S.xeq, S.xeq, c)), c,
              "h(x*) = c", w)
        X = [vec("p%d_" % b) for b in range(3)]
        v = S.m("value", T(ip, sum(X, []), (3, N)), S.xeq, c)
        ck.ob("value.batch.shape", tuple(v.shape) == (3, ),
              "one value per sample", str(v.shape), w)
        for b, e in enumerate(ip.cells(v)):
            ck.eq("value.batch[%d]" % b, e, S.h(X[b]), "h of each sample", w)
        d = S.m("derivative", T(ip, x), S.xeq, c, eps)
        ck.eq("derivative", bl.scalar(ip, d),
              -S.h(S.f(x)) + (1 - eps) * S.h(x),
              "-h(x+) + h(x) - eps h(x)", where(ck.repo, M,
                                                CLS + ".derivative"))
        Y = T(ip, sum(X, []), (3, N))
        d = S.m("derivative", Y, S.xeq, c, eps)
        for b, e in enumerate(ip.cells(d)):
            ck.eq("derivative.batch[%d]" % b, e,
                  -S.h(S.f(X[b])) + (1 - eps) * S.h(X[b]),
                  "the derivative condition of each sample", where(
                      ck.repo, M, CLS + ".derivative"))
        ck.eq_arr(ip, "value.star.kept", S.xeq, S.xs, "x* is not modified",
                  w)
    ck.attempt("value", go, where=w)


def boxed(ck, key, i, S, w):
    for e, b in (("lo", S.lo), ("up", S.up)):
        for j in range(N):
            ck.eq("%s.%s%d" % (key, e, j), i.b.args[e][j], b[j],
                  "networks are encoded over the state box", w)
    ck.ob(key + ".method", i.b.args["method"] == S.meth, "the barrier "
          "network uses the selected bound method", "", w)


def regions(ck):
    w = where(ck.repo, M, "Barrier.value_as_milp")
    for safe, meth in itertools.product((True, False), ("IA", "MIP")):
        key = "region.%s.%s" % ("safe" if safe else "unsafe", meth)

        def go(safe=safe, key=key, meth=meth):
            S = Setup(ck, meth=meth)
            ip = S.ip
            reg = S.w.block("region", N)
            r = ip.iterate(S.m("value_as_milp", S.xeq, c, reg, safe))
            x = [gm.vsym(ip, v) for v in ip.items(r[1])]
            insts, rest, vs = S.w.apart(key, r[0], w)
            by = {t: [i for i in insts if i.b.tag == t]
                  for t in ("region", "phi")}
            ck.ob(key + ".blocks", len(by["region"]) == 1 and
                  len(by["phi"]) == 1 and len(insts) == 2, "the region and "
                  "the barrier network appear once each",
                  str([i.b.tag for i in insts]), w)
            bl.same_rows(ck, key + ".rows", rest, [], "no other row "
                         "constrains the state", w)
            if not by["phi"] or not by["region"]:
                return
            for i in insts:
                for j in range(N):
                    ck.eq("%s.%s.in%d" % (key, i.b.tag, j), i.inputs[j],
                          x[j], "both read the reported state", w)
            boxed(ck, key + ".phi", by["phi"][0], S, w)
            types(ck, key, insts, vs, w, "B")
            free(ck, key + ".free", [str(v) for v in x], vs, w)
            from .. import mic
            e, sense = gm.objective(ip, mic.mip_model(ip, r[0]))
            h = by["phi"][0].out(0) - bl.phi("phi", 0, S.xs) + c
            want = -h if safe else h
            ck.eq(key + ".objective", e * Rat.of(-sense), want,
                  "maximise %s" % ("-h on a safe region" if safe else
                                   "h on an unsafe region"), w)
        ck.attempt(key, go, where=w)


def derivative(ck):
    w = where(ck.repo, M, CLS + ".derivative_as_milp")
    for vt, meth in itertools.product(("B", "C", "BR"), ("IA", "MIP")):
        key = "derivative.%s.%s" % (vt, meth)

        def go(vt=vt, key=key, meth=meth):
            S = Setup(ck, meth=meth)
            ip = S.ip
            r = S.m("derivative_as_milp", S.xeq, c, eps,
                    binary_var_type=_vt(ip, vt))
            mip = ip.getattr(r, "milp")
            g = lambda n: [gm.vsym(ip, v) for v in ip.items(
                ip.getattr(r, n))]
            x, xn = g("x"), g("x_next")
            insts, rest, vs = S.w.apart(key, mip, w)
            dyn = [i for i in insts if i.b.tag == "dyn"]
            ph = {"x": [i for i in insts if i.b.tag == "phi" and
                        i.inputs == x],
                  "x_next": [i for i in insts if i.b.tag == "phi" and
                             i.inputs == xn]}
            ck.ob(key + ".blocks", len(dyn) == 1 and len(insts) == 3 and all(
                len(v) == 1 for v in ph.values()), "the dynamics once, the "
                "barrier network once for the state and once for the next "
                "state", str([(i.b.tag, list(map(str, i.inputs)))
                              for i in insts]), w)
            if len(dyn) != 1 or not all(ph.values()):
                return
            a, b = ph["x"][0], ph["x_next"][0]
            for j in range(N):
                ck.eq("%s.dyn.in%d" % (key, j), dyn[0].inputs[j], x[j],
                      "the dynamics start from the state", w)
            sol, left = solve_for(rest, [str(v) for v in xn])
            ck.ob(key + ".determined", sol is not None,
                  "the rows determine the next state", str(rest)[:200], w)
            if sol is not None:
                left = [q for q in left if not q[0].is_zero()]
                ck.ob(key + ".left", not left, "no other row constrains the "
                      "states", str(left)[:200], w)
                for j in range(N):
                    ck.eq("%s.next%d" % (key, j), sol[str(xn[j])],
                          dyn[0].out(j), "x_next = dynamics(x)", w)
            boxed(ck, key + ".phi", a, S, w)
            boxed(ck, key + ".phi_next", b, S, w)
            types(ck, key, insts, vs, w, vt)
            free(ck, key + ".free", [str(v) for v in x + xn], vs, w)
            for n, i in (("binary_current", a), ("binary_next", b)):
                ck.ob("%s.%s" % (key, n), lists(ip, ip.getattr(r, n)) ==
                      [str(v) for v in i.binaries], "the reported binaries "
                      "are those of the barrier network", "", w)
            from .. import mic
            e, sense = gm.objective(ip, mic.mip_model(ip, mip))
            hv = lambda i: i.out(0) - bl.phi("phi", 0, S.xs) + c
            ck.eq(key + ".objective", e * Rat.of(-sense),
                  -hv(b) + (1 - eps) * hv(a),
                  "maximise -h(x+) + h(x) - eps h(x)", w)
        ck.attempt(key, go, where=w)


def losses(ck):
    w = where(ck.repo, M, CLS + ".derivative_loss_at_samples_and_next_states")
    for red in ("mean", "max", "4norm"):
        key = "loss." + red

        def go(red=red, key=key):
            S = Setup(ck)
            ip = S.ip
            X = [vec("p%d_" % b) for b in range(3)]
            Y = [vec("q%d_" % b) for b in range(3)]
            v = S.m("derivative_loss_at_samples_and_next_states", S.xeq, c,
                    eps, T(ip, sum(X, []), (3, N)), T(ip, sum(Y, []),
                                                      (3, N)),
                    margin=mg, reduction=red)
            l = [poly.max2(-S.h(Y[b]) + (1 - eps) * S.h(X[b]) + mg, Z)
                 for b in range(3)]
            if red == "mean":
                want = (l[0] + l[1] + l[2]) / Rat.of(3)
            elif red == "max":
                want = poly.max2(poly.max2(l[0], l[1]), l[2])
            else:
                want = poly.norm4(l)
            ck.eq(key, bl.scalar(ip, v), want, "%s over the samples of "
                  "max(-h(x+) + (1-eps) h(x) + margin, 0)" % red, w)
        ck.attempt(key, go, where=w)


def check(ck):
    for g in (values, regions, derivative, losses):
        g(ck)
    poly.clear_bounds()
