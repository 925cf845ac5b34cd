"""Control-affine systems: simulation and mixed-integer constraints agree."""
import itertools

from .. import poly, mic
from ..poly import Rat
from ..values import AbsRaise
from .common import sym, where
from . import blocks as bl
from .c11 import T
from .c15 import vec, method

TITLE = "Control-affine systems are encoded as they are simulated"
EXPLANATION = (
    "The control-affine system classes are evaluated on symbolic states, "
    "controls, limits, matrices and opaque networks. dynamics is compared "
    "with f(x) + G(x) clamp(u) with the control below, inside and above its "
    "limits; the constraints returned for f and for the row-major entries of "
    "G are compared - output expression, rows and variable bounds - with "
    "those of the formula, for every combination of absent and present "
    "parts; ranges with the interval range over the box; the trainer with "
    "the documented affine model.")
ASSUMPTIONS = ("real arithmetic; contract of the network blocks (C09); torch "
               "calls follow their documentation", )
MIN_OBS = 150
CA = "control_affine_system"
Z, ONE = Rat.const(0), Rat.const(1)


def limits(nu):
    lo = [sym("u%d.lo" % i) for i in range(nu)]
    up = []
    for i in range(nu):
        poly.set_bounds("u%d.w" % i, 0, None, True)
        up.append(lo[i] + sym("u%d.w" % i))
    return lo, up


def control(nu, pos, lo, up, tag=""):
    """control at a position relative to its limits -> (u, clamped u)"""
    u, c = [], []
    for i in range(nu):
        n = "%sd%d" % (tag, i)
        poly.set_bounds(n, 0, None, True)
        if pos[i] == "below":
            u.append(lo[i] - sym(n))
            c.append(lo[i])
        elif pos[i] == "above":
            u.append(up[i] + sym(n))
            c.append(up[i])
        elif pos[i] == "lower":
            u.append(lo[i])
            c.append(lo[i])
        elif pos[i] == "upper":
            u.append(up[i])
            c.append(up[i])
        else:
            # inside: width split in two positive parts
            poly.set_bounds(n + ".b", 0, None, True)
            up[i] = lo[i] + sym(n) + sym(n + ".b")
            u.append(lo[i] + sym(n))
            c.append(u[i])
    return u, c


POS = ("below", "inside", "above", "lower", "upper")
PAT = ["+-+", "-+-", "++-"]


def outputs(m, names):
    out = []
    for i in range(m.nout):
        e = m._lhs("out", i, names)
        if m.v["Cout"] is not None:
            e = e + Rat.of(m.v["Cout"][i])
        out.append(e)
    return out


def names_of(n):
    return {b: ["%s%d" % (b[0], i) for i in range(n[b])]
            for b in ("input", "slack", "binary")}


def rows_of(m, names):
    rs = []
    for p, s in (("in", "<"), ("eq", "=")):
        for i, b in enumerate(m.v["rhs_" + p] or []):
            e = m._lhs(p, i, names) - Rat.of(b)
            rs.append((e, s))
    return rs


def bounds_of(m):
    d = {}
    for b in ("input", "slack", "binary"):
        for e in ("_lo", "_up"):
            v = m.v[b + e]
            d[b + e] = None if v is None else [str(x) for x in v]
    return d


def mic_ob(ck, ip, key, o, want_out, src, nx, w, n=None):
    """o describes the outputs `want_out` subject to the rows and bounds of
    src (a Mic or None)"""
    try:
        m = mic.Mic(ip, o)
    except mic.Malformed as e:
        ck.ob(key + ".shape", False, "the matrices describe one set of "
              "constraints", str(e), w)
        return
    n = dict(n or (src.n if src else {"input": nx, "slack": 0, "binary": 0}))
    n["input"] = nx
    ok = all(m.n[b] in (0, n[b]) for b in n)
    ck.ob(key + ".vars", ok, "the variables are those of the encoding",
          "%s vs %s" % (m.n, n), w)
    if not ok:
        return
    nm = names_of(n)
    got = outputs(m, nm)
    ck.ob(key + ".nout", len(got) == len(want_out), "number of outputs",
          "%d vs %d" % (len(got), len(want_out)), w)
    if len(got) != len(want_out):
        return
    for i, (a, b) in enumerate(zip(got, want_out)):
        ck.eq("%s.out%d" % (key, i), a, b, "the output is the dynamics term",
              w)
    bl.same_rows(ck, key + ".rows", rows_of(m, nm),
                 rows_of(src, nm) if src else [],
                 "the constraints are those of the encoding", w)
    a, b = bounds_of(m), bounds_of(src) if src else {
        k + e: None for k in ("input", "slack", "binary")
        for e in ("_lo", "_up")}
    ck.ob(key + ".bounds", a == b, "the variable bounds are those of the "
          "encoding", "%s vs %s" % (a, b), w)


# ------------------------------------------------------------ linear system
def linear(ck):
    w = where(ck.repo, CA, "LinearSystem")
    nx, nu = 3, 2

    def build(ip, lo=None, up=None, pat=PAT):
        poly.clear_bounds()
        xlo, xm, xup = bl.box(range(nx))
        if lo is None:
            lo, up = limits(nu)
        A = bl.matrix("A", pat)
        B = vec("B", nx * nu)
        s = ip.call(ip.get(CA, "LinearSystem"), [
            T(ip, A, (nx, nx)), T(ip, B, (nx, nu)), T(ip, xlo), T(ip, xup),
            T(ip, lo), T(ip, up)], {})
        return s, A, B, xlo, xup, lo, up

    for pos in itertools.product(POS, repeat=nu):
        key = "linear.dynamics." + ".".join(pos)

        def go(pos=pos, key=key):
            ip = ck.interp()
            poly.clear_bounds()
            lo, up = limits(nu)
            u, c = control(nu, pos, lo, up)
            A, B = vec("A", nx * nx), vec("B", nx * nu)
            xl, _, xu = bl.box(range(nx))
            s = ip.call(ip.get(CA, "LinearSystem"), [
                T(ip, A, (nx, nx)), T(ip, B, (nx, nu)), T(ip, xl),
                T(ip, xu), T(ip, lo), T(ip, up)], {})
            x = vec("p", nx)
            a = [T(ip, x), T(ip, u)]
            r = ip.call(ip.getattr(s, "dynamics"), a, {})
            want = [sum((A[i * nx + j] * x[j] for j in range(nx)), Z) + sum(
                (B[i * nu + j] * c[j] for j in range(nu)), Z)
                for i in range(nx)]
            ck.eq_arr(ip, key, r, want, "dynamics is f(x) + G(x) clamp(u)",
                      w)
            ck.eq_arr(ip, key + ".x", a[0], x, "the state is not modified",
                      w)
            ck.eq_arr(ip, key + ".u", a[1], u, "the control is not modified",
                      w)
            ck.eq_arr(ip, key + ".lim", ip.getattr(s, "u_up"), up,
                      "the limits are not modified", w)
        ck.attempt(key, go, where=w)

    def encode():
        ip = ck.interp()
        s, A, B, xlo, xup, lo, up = build(ip)
        r = ip.call(ip.getattr(s, "mixed_integer_constraints"), [], {})
        nm = {"input": ["i%d" % k for k in range(nx)], "slack": [],
              "binary": []}
        xs = [sym(n) for n in nm["input"]]
        ax = [sum((A[i * nx + j] * xs[j] for j in range(nx)), Z)
              for i in range(nx)]
        mic_ob(ck, ip, "linear.mip.f", ip.getattr(r, "mip_cnstr_f"), ax,
               None, nx, w)
        mic_ob(ck, ip, "linear.mip.G", ip.getattr(r, "mip_cnstr_G"), B,
               None, nx, w)
        L, U = bl.ia(A, nx, [Z] * nx, xlo, xup, PAT)
        for f, v in (("f_lo", L), ("f_up", U), ("G_flat_lo", B),
                     ("G_flat_up", B)):
            ck.eq_arr(ip, "linear.mip." + f, ip.getattr(r, f), v,
                      "the range of the term over the state box", w)
        x = vec("p", nx)
        ck.eq_arr(ip, "linear.f", ip.call(ip.getattr(s, "f"),
                                          [T(ip, x)], {}),
                  [sum((A[i * nx + j] * x[j] for j in range(nx)), Z)
                   for i in range(nx)], "f = A x", w)
        g = ip.call(ip.getattr(s, "G"), [T(ip, x)], {})
        ck.ob("linear.G.shape", tuple(g.shape) == (nx, nu), "G is nx x nu",
              str(g.shape), w)
        ck.eq_arr(ip, "linear.G", g, B, "G = B", w)
        ck.ob("linear.dims", ip.getattr(s, "x_dim") == nx and
              ip.getattr(s, "u_dim") == nu, "dimensions", "", w)
        for n, v in (("x_lo_all", xlo), ("x_up_all", xup)):
            ck.eq_arr(ip, "linear." + n, ip.getattr(s, n), v,
                      "the state box is reported as given", w)
    ck.attempt("linear.mip", encode, where=w)
    shapes(ck, w)


def refused(ck, key, f, rule, w):
    try:
        f()
        ok, d = False, "accepted"
    except AbsRaise as e:
        ok, d = True, str(e)
    ck.ob(key, ok, rule, d, w)


def shapes(ck, w):
    """wrong shapes and empty boxes are refused"""
    good = {"A": (3, 3), "B": (3, 2), "xlo": (3, ), "xup": (3, ),
            "ulo": (2, ), "uup": (2, )}
    cases = [("A", (3, 2)), ("A", (2, 2)), ("B", (2, 3)), ("B", (3, 3)),
             ("xlo", (3, 1)), ("xup", (2, )), ("ulo", (1, 2)), ("uup", (3, )),
             ("xrange", None), ("urange", None)]
    for n, (f, sh) in enumerate(cases):
        def go(f=f, sh=sh, n=n):
            ip = ck.interp()
            poly.clear_bounds()
            s = dict(good)
            if sh:
                s[f] = sh
            v = {}
            for k, q in s.items():
                m = 1
                for d in q:
                    m *= d
                base = 1 if k.endswith("up") else 0
                v[k] = ip.new_arr(q, [Rat.of(base)] * m, "torch", "float")
            if f == "xrange":
                v["xup"] = T(ip, [ONE, -ONE, ONE])
            if f == "urange":
                v["uup"] = T(ip, [-ONE, ONE])
            refused(ck, "shape.%s%d" % (f, n), lambda: ip.call(
                ip.get(CA, "LinearSystem"), [v["A"], v["B"], v["xlo"],
                                             v["xup"], v["ulo"], v["uup"]],
                {}), "data of the wrong shape, or an empty box, is refused",
                w)
        ck.attempt("shape.%s%d" % (f, n), go, where=w)


# ----------------------------------------------------------- second order
def second(ck):
    w = where(ck.repo, CA, "SecondOrderControlAffineSystem."
              "mixed_integer_constraints")
    cls = "SecondOrderControlAffineSystem"
    for nq, nu in ((2, 2), (1, 1), (2, 1)):
        pats = list(itertools.product((True, False), repeat=4))
        if (nq, nu) != (2, 2):
            pats = pats[:1] + [(False, True, True, True),
                               (False, True, False, True),
                               (False, False, False, True)]
        for pat in pats:
            if not any(pat):
                continue
            key = "second.%d%d.%s" % (nq, nu, "".join(
                "10"[not p] for p in pat))

            def go(nq=nq, nu=nu, pat=pat, key=key):
                second_one(ck, cls, nq, nu, pat, key, w)
            ck.attempt(key, go, where=w)


def part(ip, tag, nx, nout, pat, ns=2, nb=1):
    """constraints of one term, every entry a symbol; pat: which of
    Aout_input, Aout_slack, Aout_binary, Cout are present"""
    o = ip.call(ip.get("gurobi_torch_mip", "MixedIntegerConstraintsReturn"),
                [], {})
    dims = {"input": nx, "slack": ns, "binary": nb}
    for p, k in (("in", 2), ("eq", 1)):
        for b, n in dims.items():
            ip.setattr(o, "A%s_%s" % (p, b), T(ip, vec(
                "%s.A%s_%s." % (tag, p, b), k * n), (k, n)))
        ip.setattr(o, "rhs_" + p, T(ip, vec("%s.r%s." % (tag, p), k)))
    for (b, n), on in zip(dims.items(), pat):
        if on:
            ip.setattr(o, "Aout_" + b, T(ip, vec("%s.Ao_%s." % (tag, b),
                                                 nout * n), (nout, n)))
    if pat[3]:
        ip.setattr(o, "Cout", T(ip, vec(tag + ".C", nout)))
    for b, n in dims.items():
        for e in ("_lo", "_up"):
            ip.setattr(o, b + e, T(ip, vec("%s.%s%s." % (tag, b, e), n)))
    return o


def second_one(ck, cls, nq, nu, pat, key, w):
    ip = ck.interp()
    poly.clear_bounds()
    nx = 2 * nq
    xlo, _, xup = bl.box(range(nx))
    lo, up = limits(nu)
    s = ip.call(ip.get(CA, cls), [T(ip, xlo), T(ip, xup), T(ip, lo),
                                  T(ip, up)], {})
    a = part(ip, "a", nx, nq, pat)
    b = part(ip, "b", nx, nq * nu, pat)
    bd = {n: vec(n + ".", nq if n[0] == "a" else nq * nu)
          for n in ("a_lo", "a_up", "b_lo", "b_up")}
    ip.hooks["%s.%s._mixed_integer_constraints_v" % (CA, cls)] = \
        lambda ip, ar, kw: tuple([a, b] + [T(ip, bd[n]) for n in (
            "a_lo", "a_up", "b_lo", "b_up")])
    ma, mb = mic.Mic(ip, a), mic.Mic(ip, b)
    before = (str(ma.m), str(ma.v), str(mb.m), str(mb.v))
    r = ip.call(ip.getattr(s, "mixed_integer_constraints"), [], {})
    dims = {"input": nx, "slack": 2, "binary": 1}
    nm = names_of(dims)
    v = [sym("i%d" % (nq + k)) for k in range(nq)]
    mic_ob(ck, ip, key + ".f", ip.getattr(r, "mip_cnstr_f"),
           v + outputs(ma, nm), ma, nx, w, dims)
    mic_ob(ck, ip, key + ".G", ip.getattr(r, "mip_cnstr_G"),
           [Z] * (nq * nu) + outputs(mb, nm), mb, nx, w, dims)
    for f, want in (("f_lo", xlo[nq:] + bd["a_lo"]),
                    ("f_up", xup[nq:] + bd["a_up"]),
                    ("G_flat_lo", [Z] * (nq * nu) + bd["b_lo"]),
                    ("G_flat_up", [Z] * (nq * nu) + bd["b_up"])):
        ck.eq_arr(ip, "%s.%s" % (key, f), ip.getattr(r, f), want,
                  "the range of (v, a(x)) and (0, b(x))", w)
    ma, mb = mic.Mic(ip, a), mic.Mic(ip, b)
    ck.ob(key + ".kept", before == (str(ma.m), str(ma.v), str(mb.m),
                                    str(mb.v)),
          "the constraints of a and b are not modified", "", w)


# ------------------------------------------------------ networks (a and b)
def relu(ck):
    cls = "ReluSecondOrderControlAffineSystem"
    w = where(ck.repo, CA, cls)

    def build(ck, nq, nu, meth="IA", pos=None):
        poly.clear_bounds()
        W = bl.World(ck)
        ip = W.ip
        nx = 2 * nq
        xlo, _, xup = bl.box(range(nx))
        lo, up = limits(nu)
        uc = control(nu, pos, lo, up) if pos else None
        na, nb = bl.net(ip, nx, nq, "a"), bl.net(ip, nx, nq * nu, "b")
        s = ip.call(ip.get(CA, cls), [
            T(ip, xlo), T(ip, xup), T(ip, lo), T(ip, up), na, nb,
            method(ip, meth)], {})
        return W, ip, s, xlo, xup, uc

    def spec(nq, nu, x, u):
        a = [bl.phi("a", k, x) for k in range(nq)]
        b = [bl.phi("b", k, x) for k in range(nq * nu)]
        return x[nq:] + [a[i] + sum((b[i * nu + j] * u[j]
                                     for j in range(nu)), Z)
                         for i in range(nq)], a, b

    for nq, nu in ((1, 1), (2, 1), (1, 2), (2, 2), (2, 3)):
        for pos in (("inside", ) * nu, ("above", "below", "inside")[:nu],
                    ("below", "above", "upper")[:nu]):
            key = "relu.dynamics.%d%d.%s" % (nq, nu, ".".join(pos))

            def go(nq=nq, nu=nu, pos=pos, key=key):
                W, ip, s, xlo, xup, (u, c) = build(ck, nq, nu, pos=pos)
                x = vec("p", 2 * nq)
                want, a, b = spec(nq, nu, x, c)
                X = T(ip, x)
                r = ip.call(ip.getattr(s, "dynamics"), [X, T(ip, u)], {})
                ck.eq_arr(ip, key, r, want, "dynamics is (v, a(x) + b(x) "
                          "clamp(u))", w)
                ck.eq_arr(ip, key + ".f", ip.call(ip.getattr(s, "f"), [X],
                                                  {}),
                          x[nq:] + a, "f = (v, a(x))", w)
                g = ip.call(ip.getattr(s, "G"), [X], {})
                ck.ob(key + ".G.shape", tuple(g.shape) == (2 * nq, nu),
                      "G is nx x nu", str(g.shape), w)
                ck.eq_arr(ip, key + ".G", g, [Z] * (nq * nu) + b,
                          "G = (0, b(x)), b(x) row by row", w)
                ck.eq_arr(ip, key + ".x", X, x, "the state is not modified",
                          w)
            ck.attempt(key, go, where=w)
    for (nq, nu), meth in itertools.product(((2, 2), (1, 2)), (
            "IA", "LP", "MIP", "IA_MIP")):
        key = "relu.mip.%d%d.%s" % (nq, nu, meth)

        def go(nq=nq, nu=nu, meth=meth, key=key):
            W, ip, s, xlo, xup, _ = build(ck, nq, nu, meth)
            nx = 2 * nq
            r = ip.call(ip.getattr(s, "mixed_integer_constraints"), [], {})
            ck.ob(key + ".blocks", sorted(B.tag for B in W.blocks) ==
                  ["a", "b"], "both networks are encoded once",
                  str([B.tag for B in W.blocks]), w)
            by = {B.tag: B for B in W.blocks}
            if set(by) != {"a", "b"}:
                return
            for t, B in by.items():
                for e, v in (("lo", xlo), ("up", xup)):
                    for j in range(nx):
                        ck.eq("%s.%s.box_%s%d" % (key, t, e, j),
                              B.args[e][j], v[j], "the network is encoded "
                              "over the state box", w)
                ck.ob("%s.%s.method" % (key, t), B.args["method"] ==
                      method(ip, meth), "bounds use the method of the system",
                      repr(B.args["method"]), w)
            o = {}
            for t, B in by.items():
                q = ip.call(ip.get("relu_to_optimization",
                                   "ReLUMixedIntegerConstraintsReturn"), [],
                            {})
                W._fill(q, B)
                o[t] = mic.Mic(ip, q)
            dims = {"input": nx, "slack": 2, "binary": 2}
            sl = [sym("s0"), sym("s1")]
            val = lambda B: [B.co(k) + sum((B.ao(k, j) * sl[j]
                                            for j in range(2)), Z)
                             for k in range(B.nout)]
            mic_ob(ck, ip, key + ".f", ip.getattr(r, "mip_cnstr_f"),
                   [sym("i%d" % (nq + k)) for k in range(nq)] +
                   val(by["a"]), o["a"], nx, w, dims)
            mic_ob(ck, ip, key + ".G", ip.getattr(r, "mip_cnstr_G"),
                   [Z] * (nq * nu) + val(by["b"]), o["b"], nx, w, dims)
            for f, t, e, pre in (("f_lo", "a", "lo", xlo[nq:]),
                                 ("f_up", "a", "up", xup[nq:]),
                                 ("G_flat_lo", "b", "lo", [Z] * (nq * nu)),
                                 ("G_flat_up", "b", "up", [Z] * (nq * nu))):
                B = by[t]
                ck.eq_arr(ip, "%s.%s" % (key, f), ip.getattr(r, f),
                          pre + [sym("%s.nn_output_%s.%d" % (B.id, e, k))
                                 for k in range(B.nout)],
                          "the range of the term over the state box", w)
        ck.attempt(key, go, where=w)
    for n, (ain, aout, bin_, bout) in enumerate((
            (3, 2, 4, 4), (4, 1, 4, 4), (4, 4, 4, 4), (4, 2, 6, 4),
            (4, 2, 4, 2), (4, 2, 4, 6))):
        def go(n=n, ain=ain, aout=aout, bin_=bin_, bout=bout):
            poly.clear_bounds()
            ip = ck.interp()
            xlo, _, xup = bl.box(range(4))
            lo, up = limits(2)
            refused(ck, "relu.sizes%d" % n, lambda: ip.call(
                ip.get(CA, cls), [T(ip, xlo), T(ip, xup), T(ip, lo),
                                  T(ip, up), bl.net(ip, ain, aout, "a"),
                                  bl.net(ip, bin_, bout, "b"),
                                  method(ip, "IA")], {}),
                "networks of the wrong size are refused", w)
        ck.attempt("relu.sizes%d" % n, go, where=w)

    def odd():
        poly.clear_bounds()
        ip = ck.interp()
        xlo, _, xup = bl.box(range(3))
        lo, up = limits(1)
        refused(ck, "second.odd", lambda: ip.call(
            ip.get(CA, "SecondOrderControlAffineSystem"), [
                T(ip, xlo), T(ip, xup), T(ip, lo), T(ip, up)], {}),
            "a second-order system has an even number of states", w)
    ck.attempt("second.odd", odd, where=w)


# ------------------------------------------------------------------ training
def training(ck):
    fn = "train_control_affine_forward_model"
    w = where(ck.repo, CA, fn)
    for nx, nu, nb in ((2, 1, 3), (3, 2, 2), (1, 2, 2), (2, 1, 1)):
        key = "train.%d%d%d" % (nx, nu, nb)

        def go(nx=nx, nu=nu, nb=nb, key=key):
            poly.clear_bounds()
            ip = ck.interp()
            nf, ng = bl.net(ip, nx, nx, "f"), bl.net(ip, nx, nx * nu, "G")
            xe, ue = vec("xe", nx), vec("ue", nu)
            got = []
            names = ["dataset", "model", "output_fun", "batch_size",
                     "num_epochs", "lr", "additional_variable",
                     "output_fun_args", "verbose"]

            def hook(ip, args, kw):
                d = dict(zip(names, args))
                d.update(kw)
                got.append(d)
                return None
            ip.hooks["utils.train_approximator"] = hook
            data = ip.new_list([])
            X, U = T(ip, xe), T(ip, ue)
            opts = {"batch_size": 7, "verbose": False}
            ip.call(ip.get(CA, fn), [nf, ng, X, U, data, 11, sym("lr")],
                    dict(opts))
            ck.ob(key + ".once", len(got) == 1, "the approximator is trained "
                  "once", str(len(got)), w)
            if len(got) != 1:
                return
            d = got[0]
            ck.ob(key + ".options", d.get("dataset") is data and
                  d.get("num_epochs") == 11 and d.get("batch_size") == 7 and
                  d.get("verbose") is False and
                  Rat.of(d.get("lr")) == sym("lr"),
                  "data set and options are passed on", str(d), w)
            pid = lambda n: [id(p) for p in ip.iterate(ip.call(
                ip.getattr(n, "parameters"), [], {}))]
            trained = pid(d["model"]) + [id(p) for p in ip.iterate(
                d.get("additional_variable"))]
            ck.ob(key + ".parameters", sorted(trained) == sorted(
                pid(nf) + pid(ng)), "the parameters of both networks are "
                "trained, each once", "%d" % len(trained), w)
            p = [vec("p%d_" % b, nx) for b in range(nb)]
            u = [vec("c%d_" % b, nu) for b in range(nb)]
            inp = T(ip, sum([a + b for a, b in zip(p, u)], []),
                    (nb, nx + nu))
            kw = d.get("output_fun_args")
            kw = {} if kw is None else dict(ip.items(kw))
            r = ip.call(d["output_fun"], [d["model"], inp], kw)
            ck.ob(key + ".shape", tuple(r.shape) == (nb, nx), "one row per "
                  "sample", str(r.shape), w)
            want = []

            def model(x, u):
                return [bl.phi("f", i, x) + sum(
                    (bl.phi("G", i * nu + j, x) * u[j] for j in range(nu)),
                    Z) for i in range(nx)]
            for a, b in zip(p, u):
                want += [c - e for c, e in zip(model(a, b), model(xe, ue))]
            ck.eq_arr(ip, key + ".model", r, want, "the trained model is "
                      "f(x) + G(x) u - f(x*) - G(x*) u*", w)
            ck.eq_arr(ip, key + ".xequ", X, xe, "x* is not modified", w)
            ck.eq_arr(ip, key + ".uequ", U, ue, "u* is not modified", w)
        ck.attempt(key, go, where=w)


def check(ck):
    linear(ck)
    second(ck)
    relu(ck)
    training(ck)
