"""Feedback system: the closed loop that is simulated is the one encoded."""
import itertools

from .. import poly, gurobi_model as gm, natives, mic
from ..poly import Rat
from ..values import ExtV
from .common import sym, where, F64
from . import blocks as bl
from .c11 import T, INF, new_mip
from .c13 import types
from .c15 import newvars, solve_for, _vt, lists, method, vec

TITLE = "The closed loop of a feedback system is encoded as it is simulated"
EXPLANATION = (
    "FeedbackSystem is evaluated with an opaque controller network (or a "
    "linear controller with symbolic weights) and an opaque forward system: "
    "compute_u, step_forward and possible_dx against the saturated control "
    "law, and add_dynamics_mip_constraint by taking the program apart into "
    "controller network, saturation blocks and forward dynamics, solving the "
    "remaining equalities, and comparing with the same law. Limits below, "
    "inside, across and above the range of the unsaturated control are "
    "enumerated per channel. Bounds of the control, the box passed to the "
    "forward system, the program for control bounds and the strengthening "
    "cuts are compared with their definitions.")
ASSUMPTIONS = ("real arithmetic; contracts of the network, saturation and "
               "forward blocks (C08, C09, C12, C15, C28); library calls "
               "follow their documentation", )
MIN_OBS = 250
FS = "feedback_system"
CLS = "FeedbackSystem"
Z = Rat.const(0)
NX, NU = 3, 2
# saturation limits as fractions of the range of the unsaturated control
CASES = {"none": (-1, 5), "both": (1, 3), "upper": (-1, 3), "lower": (1, 5),
         "low": (5, 7), "high": (-3, -1), "touch": (0, 4), "inf": None}
PAT = ["+-+", "-+-"]


def Q4(n):
    return Rat.of(n) / Rat.of(4)


class Setup:
    def __init__(self, ck, cases=("both", "none"), linear=None, bias=True):
        poly.clear_bounds()
        self.ck, self.cases, self.linear = ck, cases, linear
        self.w = bl.World(ck)
        ip = self.ip = self.w.ip
        self.xlo, self.xeq, self.xup = bl.box(range(NX))
        self.ulo, self.ueq, self.uup = bl.box(range(NU), pre="u")
        self.dyn = bl.net(ip, NX + NU, NX, "dyn")
        self.fwd = ip.call(ip.get("relu_system",
                                  "ReLUSystemGivenEquilibrium"),
                           [F64, T(ip, self.xlo), T(ip, self.xup),
                            T(ip, self.ulo), T(ip, self.uup), self.dyn,
                            T(ip, self.xeq), T(ip, self.ueq)],
                           {"discrete_time_flag": True})
        self.k = [sym("k%d" % i) for i in range(NU)]     # u*
        if linear:
            self.W = bl.matrix("W", PAT)
            self.b = [sym("b%d" % i) for i in range(NU)] if bias else \
                [Z] * NU
            o = ip.new_obj(ExtV("torch.nn.Linear"))
            d = ip.attrs(o)
            d["in_features"], d["out_features"] = NX, NU
            d["weight"] = T(ip, self.W, (NU, NX))
            d["bias"] = T(ip, self.b) if bias else None
            self.ctl = o
            lo, up = bl.ia(self.W, NU, self.b, self.xlo, self.xup, PAT)
            e = self.phi(self.xeq)
            self.a = [lo[i] - e[i] + self.k[i] for i in range(NU)]
            self.z = [up[i] - e[i] + self.k[i] for i in range(NU)]
        else:
            self.ctl = bl.net(ip, NX, NU, "ctl")
            self.a = [sym("a%d" % i) for i in range(NU)]
            for i in range(NU):
                poly.set_bounds("rng%d" % i, 0, None, True)
            self.z = [self.a[i] + sym("rng%d" % i) for i in range(NU)]
            e = self.phi(self.xeq)
            self.olo = [self.a[i] + e[i] - self.k[i] for i in range(NU)]
            self.oup = [self.z[i] + e[i] - self.k[i] for i in range(NU)]
        self.lim = []
        for i, c in enumerate(cases):
            if CASES[c] is None:
                self.lim.append((-INF, INF))
            else:
                self.lim.append(tuple(self.a[i] + Q4(f) * (
                    self.z[i] - self.a[i]) for f in CASES[c]))
        np_ = lambda v: ip.new_arr((NU, ), [Rat.of(c) for c in v], "np",
                                   "float")
        self.hooks()
        self.sys = ip.call(ip.get(FS, CLS), [
            self.fwd, self.ctl, T(ip, self.xeq), T(ip, self.k),
            np_([l[0] for l in self.lim]), np_([l[1] for l in self.lim])],
            {})

    def phi(self, x):
        if self.linear:
            return [sum((self.W[i * NX + j] * x[j] for j in range(NX)),
                        self.b[i]) for i in range(NU)]
        return [bl.phi("ctl", k, x) for k in range(NU)]

    # ------------------------------------------------- stand-ins of blocks
    def hooks(self):
        ip, W = self.ip, self.w
        self.layer, self.outb, self.sats, self.cuts = [], [], [], []
        P = "relu_to_optimization.ReLUFreePattern."

        def tag(o):
            return ip.attrs(ip.getattr(o, "model")).get("_tag")

        def syms(n, pre):
            return T(ip, [sym("%s.%d" % (pre, i)) for i in range(n)])

        def layer(ip, args, kw):
            if tag(args[0]) != "ctl":
                return NotImplemented
            d = dict(zip(["self", "x_lo", "x_up", "method",
                          "create_prog_callback"], args))
            d.update(kw)
            self.layer.append((ip.cells(d["x_lo"]), ip.cells(d["x_up"]),
                               d["method"]))
            return tuple(syms(2, n) for n in ("pre_lo", "pre_up", "post_lo",
                                              "post_up"))

        def outb(ip, args, kw):
            if tag(args[0]) != "ctl":
                return NotImplemented
            n = ["self", "previous_neuron_input_lo",
                 "previous_neuron_input_up", "network_input_lo",
                 "network_input_up", "method", "create_prog_callback"]
            d = dict(zip(n, args))
            d.update(kw)
            self.outb.append([ip.cells(d[k]) for k in n[1:5]] +
                             [d["method"]])
            return (T(ip, self.olo), T(ip, self.oup))

        def given(ip, args, kw):
            if tag(args[0]) != "ctl":
                return NotImplemented
            n = ["self", "z_pre_relu_lo", "z_pre_relu_up", "x_lo", "x_up"]
            d = dict(zip(n, args))
            d.update(kw)
            o = W._net(ip, [d["self"], d["x_lo"], d["x_up"], None], {})
            W.blocks[-1].args["pre"] = (ip.cells(d[n[1]]), ip.cells(d[n[2]]))
            return o

        def sat(ip, args, kw):
            n = ["mip", "input_var", "output_var", "lower_limit",
                 "upper_limit", "input_lower_bound", "input_upper_bound",
                 "binary_var_type"]
            d = dict(zip(n, args))
            d.update(kw)
            self.sats.append({
                "mip": d["mip"], "in": gm.vsym(ip, d["input_var"]),
                "out": gm.vsym(ip, d["output_var"]),
                "lim": [bl.scalar(ip, d[k]) for k in n[3:5]],
                "rng": [bl.scalar(ip, d[k]) for k in n[5:7]],
                "vt": d["binary_var_type"]})
            return ip.new_list([])

        def cut(ip, args, kw):
            t = tag(args[0])
            d = dict(zip(["self", "pt", "lo", "up"], args))
            for k, v in kw.items():
                d[{"linear_inputs_lo": "lo",
                   "linear_inputs_up": "up"}.get(k, k)] = v
            pt = ip.iterate(d["pt"])
            nin = NX + (NU if t == "dyn" else 0)
            self.cuts.append((t, [ip.cells(p) for p in pt],
                              ip.cells(d["lo"]), ip.cells(d["up"])))
            if self.nocut:
                return (None, None, None, None)
            m = lambda nm, c: T(ip, [sym("cut.%s.%s.%d" % (t, nm, j))
                                     for j in range(c)], (1, c))
            return (m("x", nin), m("s", 2), m("b", 2),
                    T(ip, [sym("cut.%s.rhs" % t)]))
        self.nocut = False
        ip.hooks[P + "_compute_layer_bound"] = layer
        ip.hooks[P + "_compute_network_output_bounds"] = outb
        ip.hooks[P + "_output_constraint_given_bounds"] = given
        ip.hooks[P + "strengthen_mip_at_point"] = cut
        ip.hooks["utils.add_saturation_as_mixed_integer_constraint"] = sat

    # ---------------------------------------------------------------- spec
    def pre(self, phi):
        e = self.phi(self.xeq)
        return [phi[i] - e[i] + self.k[i] for i in range(NU)]

    def u(self, x):
        p = self.pre(self.phi(x))
        return [p[i] if c == "inf" else poly.max2(
            poly.min2(p[i], self.lim[i][1]), self.lim[i][0])
            for i, c in enumerate(self.cases)]

    def dynamics(self, x, u, phi=None):
        p = phi or [bl.phi("dyn", k, x + u) for k in range(NX)]
        return [p[k] - bl.phi("dyn", k, self.xeq + self.ueq) + self.xeq[k]
                for k in range(NX)]

    def ubound(self):
        """range of the saturated control"""
        lo, up = [], []
        for i, c in enumerate(self.cases):
            f = CASES[c] or (-100, 100)
            at = lambda q: self.a[i] + Q4(q) * (self.z[i] - self.a[i])
            lo.append(at(min(max(f[0], 0), f[1])))
            up.append(at(max(min(f[1], 4), f[0])))
        return lo, up

    def m(self, name, *a, **k):
        return self.ip.call(self.ip.getattr(self.sys, name), list(a), k)


CTRL = (("net", None, True), ("linear", True, True), ("nobias", True, False))
PAIRS = (("both", "none"), ("upper", "lower"), ("low", "high"),
         ("inf", "both"), ("inf", "inf"), ("touch", "inf"),
         ("high", "upper"))


def simulate(ck):
    w = where(ck.repo, FS, CLS + ".compute_u")
    for (nm, lin, bias), cases in itertools.product(CTRL, PAIRS):
        key = "law.%s.%s" % (nm, "-".join(cases))

        def go(key=key, lin=lin, bias=bias, cases=cases):
            S = Setup(ck, cases, lin, bias)
            ip = S.ip
            x = vec("p", NX)
            v = S.m("compute_u", T(ip, x))
            ck.ob(key + ".shape", tuple(v.shape) == (NU, ), "one control per "
                  "channel", str(v.shape), w)
            for i, (c, e) in enumerate(zip(ip.cells(v), S.u(x))):
                ck.eq("%s.u%d" % (key, i), c, e, "u = saturate(phi(x) - "
                      "phi(x*) + u*)", w)
            X = [vec("p%d_" % b, NX) for b in range(2)]
            v = S.m("compute_u", T(ip, sum(X, []), (2, NX)))
            ck.ob(key + ".batch.shape", tuple(v.shape) == (2, NU),
                  "one row per sample", str(v.shape), w)
            for i, (c, e) in enumerate(zip(ip.cells(v),
                                           S.u(X[0]) + S.u(X[1]))):
                ck.eq("%s.batch%d" % (key, i), c, e, "each row of a batch is "
                      "the control of that sample", w)
            for f in ("step_forward", "possible_dx"):
                v = S.m(f, T(ip, x))
                if f == "possible_dx":
                    l = ip.iterate(v)
                    ck.ob("%s.%s.count" % (key, f), len(l) == 1,
                          "one successor", str(len(l)), w)
                    v = l[0]
                for i, (c, e) in enumerate(zip(ip.cells(v),
                                               S.dynamics(x, S.u(x)))):
                    ck.eq("%s.%s%d" % (key, f, i), c, e, "the closed loop is "
                          "the forward system under the control law", w)
        ck.attempt(key, go, where=w)


def controller(ck, S, key, insts, mip, x, w, vt):
    """the controller part: instance (or None), saturation records"""
    ip = S.ip
    ctl = [i for i in insts if i.b.tag == "ctl"]
    if S.linear:
        ck.ob(key + ".ctl.count", not ctl, "no network", "", w)
        inst = None
    else:
        ck.ob(key + ".ctl.count", len(ctl) == 1, "the controller network "
              "appears once", str(len(ctl)), w)
        if len(ctl) != 1:
            return None, None
        inst = ctl[0]
        for j in range(NX):
            ck.eq("%s.ctl.in%d" % (key, j), inst.inputs[j], x[j],
                  "the controller reads the current state", w)
        for e, b in (("lo", S.xlo), ("up", S.xup)):
            for j in range(NX):
                ck.eq("%s.ctl.%s%d" % (key, e, j), inst.b.args[e][j], b[j],
                      "the controller is encoded over the state box", w)
        if "pre" in inst.b.args:
            for e, b in zip(("pre_lo", "pre_up"), inst.b.args["pre"]):
                for j in range(2):
                    ck.eq("%s.ctl.%s%d" % (key, e, j), b[j], sym(
                        "%s.%d" % (e, j)), "the neuron bounds are those "
                        "computed for the state box", w)
    return inst, [s for s in S.sats if s["mip"] == mip]


def saturations(ck, S, key, sats, u, w, vt):
    """each finite channel is saturated once, over the right range"""
    ip = S.ip
    want = [i for i, c in enumerate(S.cases) if c != "inf"]
    ck.ob(key + ".sat.channels", sorted(str(s["out"]) for s in sats) ==
          sorted(str(u[i]) for i in want), "each limited channel is "
          "saturated once, and no other", str([str(s["out"])
                                               for s in sats]), w)
    out = {}
    for s in sats:
        i = next((i for i in want if str(u[i]) == str(s["out"])), None)
        if i is None:
            continue
        out[i] = s
        for n, a, b in (("lower", s["lim"][0], S.lim[i][0]),
                        ("upper", s["lim"][1], S.lim[i][1])):
            ck.eq("%s.sat%d.%s" % (key, i, n), a, b,
                  "the limits of the channel", w)
        ck.eq("%s.sat%d.in_lo" % (key, i), s["rng"][0], S.a[i],
              "the range of the unsaturated control", w)
        ck.eq("%s.sat%d.in_up" % (key, i), s["rng"][1], S.z[i],
              "the range of the unsaturated control", w)
        ck.ob("%s.sat%d.type" % (key, i), s["vt"] == _vt(ip, vt),
              "saturation variables have the requested type",
              repr(s["vt"]), w)
    return out


def rows_ob(ck, S, key, rest, vs, insts, inst, sats, x, u, xn, w):
    """solve the remaining equalities and compare with the closed loop"""
    dyn = [i for i in insts if i.b.tag == "dyn"]
    fixed = set(map(str, x))
    for i in insts:
        fixed |= set(map(str, i.slacks + i.binaries))
    fixed |= set(str(u[i]) for i in sats)
    names = [n for n in vs if n not in fixed]
    sol, left = solve_for(rest, names)
    ck.ob(key + ".determined", sol is not None, "the rows determine control "
          "and next state", "%s" % [(str(r[0])[:80], r[1]) for r in rest], w)
    if sol is None:
        return
    left = [r for r in left if not r[0].is_zero()]
    ck.ob(key + ".left", not left, "no other row constrains the variables",
          str([(str(r[0])[:100], r[1]) for r in left[:3]]), w)
    pre = S.pre(S.phi(x) if S.linear else [inst.out(k) for k in range(NU)])
    for i in range(NU):
        v = str(sats[i]["in"]) if i in sats else str(u[i])
        ck.ob("%s.u%d.var" % (key, i), v in sol, "the unsaturated control is "
              "a variable of the program", v, w)
        if v in sol:
            ck.eq("%s.u%d" % (key, i), sol[v], pre[i],
                  "unsaturated control == phi(x) - phi(x*) + u*", w)
    if xn:
        uu = [u[i] if i in sats else pre[i] for i in range(NU)]
        e = S.dynamics(x, uu, [dyn[0].out(k) for k in range(NX)])
        for j in range(NX):
            ck.eq("%s.next%d" % (key, j), sol[str(xn[j])], e[j],
                  "x_next == forward dynamics", w)
        for j, (a, b) in enumerate(zip(dyn[0].inputs, x + u)):
            ck.eq("%s.fwd.in%d" % (key, j), a, b, "the forward system reads "
                  "(x, u)", w)


def free(ck, key, names, vs, w):
    bad = [n for n in names if not (
        poly._is_inf(-vs[n][1]) and poly._is_inf(vs[n][2]) and
        vs[n][3] == "C")]
    ck.ob(key, not bad, "states, controls and auxiliary variables are "
          "continuous and unbounded", str(bad), w)


def encode(ck):
    w = where(ck.repo, FS, CLS + ".add_dynamics_mip_constraint")
    for (nm, lin, bias), cases, vt, meth, via in [
            (c, p, v, "IA", 0) for c in CTRL for p in PAIRS
            for v in ("B",)] + [
            (c, ("both", "inf"), v, m, 0) for c in CTRL
            for v in ("B", "BR", "C") for m in ("IA", "LP", "MIP",
                                                "IA_MIP")] + [
            (c, ("upper", "lower"), v, "IA", 1) for c in CTRL
            for v in ("B", "BR")]:
        key = "loop.%s.%s.%s.%s.%d" % (nm, "-".join(cases), vt, meth, via)

        def go(key=key, lin=lin, bias=bias, cases=cases, vt=vt, meth=meth,
               via=via):
            S = Setup(ck, cases, lin, bias)
            ip = S.ip
            M = method(ip, meth)
            ip.setattr(S.sys, "controller_network_bound_propagate_method", M)
            mip = new_mip(ip)
            x, xn = newvars(ip, mip, NX, "x"), newvars(ip, mip, NX, "xn")
            if via:
                ret = ip.call(ip.get("dynamic_system",
                                     "_add_system_constraint"),
                              [S.sys, mip, x[1], xn[1]],
                              {"binary_var_type": _vt(ip, vt)})
                fr = ip.getattr(ret, "forward_dynamics_return")
                cr = ip.getattr(ret, "controller_mip_cnstr_return")
                u = None
            else:
                r = ip.iterate(S.m("add_dynamics_mip_constraint", mip, x[1],
                                   xn[1], "u", "fs", "fb", "cs", "cb",
                                   binary_var_type=_vt(ip, vt)))
                u = [gm.vsym(ip, v) for v in ip.items(r[0])]
                fr, cr = r[1], r[2]
            insts, rest, vs = S.w.apart(key, mip, w)
            dyn = [i for i in insts if i.b.tag == "dyn"]
            ck.ob(key + ".dyn.count", len(dyn) == 1, "the forward network "
                  "appears once", str(len(dyn)), w)
            if len(dyn) != 1:
                return
            if u is None:
                u = dyn[0].inputs[NX:]
            inst, sats = controller(ck, S, key, insts, mip, x[0], w, vt)
            if sats is None:
                return
            sats = saturations(ck, S, key, sats, u, w, vt)
            rows_ob(ck, S, key, rest, vs, insts, inst, sats, x[0], u, xn[0],
                    w)
            types(ck, key, insts, vs, w, vt)
            blk = set()
            for i in insts:
                blk |= set(map(str, i.slacks + i.binaries))
            free(ck, key + ".free", [n for n in vs if n not in blk], vs, w)
            # control range
            lo, up = S.ubound()
            for n, b in (("u_lower_bound", lo), ("u_upper_bound", up)):
                ck.eq_arr(ip, "%s.%s" % (key, n), ip.getattr(cr, n), b,
                          "the reported control range is that of the "
                          "saturated control", w)
            for e, xb, ub, ob, f in (
                    ("lo", S.xlo, S.ulo, lo, poly.max2),
                    ("up", S.xup, S.uup, up, poly.min2)):
                want = xb + [f(a, b) for a, b in zip(ub, ob)]
                for j in range(NX + NU):
                    ck.eq("%s.dyn.%s%d" % (key, e, j),
                          dyn[0].b.args[e][j], want[j], "the forward system "
                          "is encoded over the state box and the control "
                          "range", w)
            # what is reported
            ck.ob(key + ".slack", lists(ip, ip.getattr(cr, "slack")) ==
                  ([str(s) for s in inst.slacks] if inst else []),
                  "controller slack variables are reported", "", w)
            ck.ob(key + ".binary", lists(ip, ip.getattr(cr, "binary")) ==
                  ([str(s) for s in inst.binaries] if inst else []),
                  "controller binary variables are reported", "", w)
            if inst:
                ck.ob(key + ".nn_input", lists(ip, ip.getattr(
                    cr, "nn_input")) == [str(v) for v in x[0]],
                    "controller input variables are reported", "", w)
                for a, b in (("relu_input_lo", "pre_lo"),
                             ("relu_input_up", "pre_up"),
                             ("relu_output_lo", "post_lo"),
                             ("relu_output_up", "post_up")):
                    ck.eq_arr(ip, "%s.%s" % (key, a), ip.getattr(cr, a),
                              [sym("%s.%d" % (b, j)) for j in range(2)],
                              "neuron bounds are reported under their own "
                              "names", w)
                ck.ob(key + ".layer", len(S.layer) >= 1 and all(
                    list(l[0]) == S.xlo and list(l[1]) == S.xup and
                    l[2] == M for l in S.layer), "neuron bounds are computed "
                    "for the state box with the selected method",
                    str(S.layer)[:200], w)
                pl = [sym("pre_lo.%d" % j) for j in range(2)]
                pu = [sym("pre_up.%d" % j) for j in range(2)]
                ck.ob(key + ".outb", len(S.outb) >= 1 and all(
                    list(l[0]) == pl and list(l[1]) == pu and
                    list(l[2]) == S.xlo and list(l[3]) == S.xup and
                    l[4] == M for l in S.outb), "output bounds are computed "
                    "from the neuron bounds", str(S.outb)[:200], w)
            ck.ob(key + ".fwd.slack", lists(ip, ip.getattr(fr, "slack")) ==
                  [str(s) for s in dyn[0].slacks], "forward slack variables "
                  "are reported", "", w)
            if via:
                for n, want in (
                        ("slack", u + dyn[0].slacks + (
                            inst.slacks if inst else [])),
                        ("binary", dyn[0].binaries + (
                            inst.binaries if inst else []))):
                    ck.ob("%s.system.%s" % (key, n), sorted(lists(
                        ip, ip.getattr(ret, n))) == sorted(map(str, want)),
                        "all variables of the closed loop are reported", "",
                        w)
            # the program for control bounds
            cp = ip.getattr(cr, "control_bound_prog")
            pm = ip.getattr(cp, "prog")
            if meth == "IA":
                return
            px = [gm.vsym(ip, v) for v in ip.items(ip.getattr(cp, "x_var"))]
            pu = [gm.vsym(ip, v) for v in ip.items(ip.getattr(cp, "u_var"))]
            k2 = key + ".prog"
            insts, rest, vs = S.w.apart(k2, pm, w)
            pt = "BR" if meth == "LP" else "B"
            inst, sats = controller(ck, S, k2, insts, pm, px, w, pt)
            if sats is None:
                return
            sats = saturations(ck, S, k2, sats, pu, w, pt)
            rows_ob(ck, S, k2, rest, vs, insts, inst, sats, px, pu, None, w)
            types(ck, k2, insts, vs, w, pt)
            blk = set()
            for i in insts:
                blk |= set(map(str, i.slacks + i.binaries))
            free(ck, k2 + ".free", [n for n in vs if n not in blk], vs, w)
        ck.attempt(key, go, where=w)


def strengthen(ck):
    w = where(ck.repo, FS, CLS + ".strengthen_dynamics_constraint")
    for nocut, (nm, lin, bias) in itertools.product((0, 1), CTRL[:2]):
        key = "cuts.%s.%d" % (nm, nocut)

        def go(key=key, lin=lin, bias=bias, nocut=nocut):
            S = Setup(ck, ("both", "none"), lin, bias)
            ip = S.ip
            S.nocut = bool(nocut)
            ip.grb_given = True
            ip.grb_var_result = lambda ip, o, kind: poly.fn(
                "value", gm.vsym(ip, o))
            mip = new_mip(ip)
            x, xn = newvars(ip, mip, NX, "x"), newvars(ip, mip, NX, "xn")
            r = ip.iterate(S.m("add_dynamics_mip_constraint", mip, x[1],
                               xn[1], "u", "fs", "fb", "cs", "cb"))
            insts, rest0, _ = S.w.apart(key + ".before", mip, w)
            S.m("strengthen_dynamics_constraint", mip, r[1], r[2])
            insts, rest, vs = S.w.apart(key + ".after", mip, w)
            ck.ob(key + ".which", sorted(c[0] for c in S.cuts) ==
                  sorted(["dyn"] + ([] if lin else ["ctl"])),
                  "the forward network and the controller network are "
                  "strengthened", str([c[0] for c in S.cuts]), w)
            new = []
            for t, pt, lo, up in S.cuts:
                i = next(i for i in insts if i.b.tag == t)
                val = lambda l: [poly.fn("value", v) for v in l]
                k2 = "%s.%s" % (key, t)
                ck.ob(k2 + ".point", list(pt[0]) == val(
                    i.inputs + i.slacks) and list(pt[1]) == val(i.binaries),
                    "cuts are chosen at the current values of the network's "
                    "own variables", "%s" % (pt, ), w)
                if t == "dyn":
                    l = [sym("%s.relu_output_lo.%d" % (i.b.id, j))
                         for j in range(2)]
                    h = [sym("%s.relu_output_up.%d" % (i.b.id, j))
                         for j in range(2)]
                else:
                    l = [sym("post_lo.%d" % j) for j in range(2)]
                    h = [sym("post_up.%d" % j) for j in range(2)]
                ck.ob(k2 + ".lo", list(lo) == list(i.b.args["lo"]) + l,
                      "lower bounds of the linear inputs are those of the "
                      "network input and of the neuron outputs", str(lo), w)
                ck.ob(k2 + ".up", list(up) == list(i.b.args["up"]) + h,
                      "upper bounds of the linear inputs are those of the "
                      "network input and of the neuron outputs", str(up), w)
                if nocut:
                    continue
                e = -sym("cut.%s.rhs" % t)
                for nme, vsx in (("x", i.inputs), ("s", i.slacks),
                                 ("b", i.binaries)):
                    for j, v in enumerate(vsx):
                        e = e + sym("cut.%s.%s.%d" % (t, nme, j)) * v
                new.append((e, "<"))
            bl.same_rows(ck, key + ".rows", rest, rest0 + new,
                         "exactly the cuts are added, on the network's own "
                         "variables", w)
        ck.attempt(key, go, where=w)


def check(ck):
    simulate(ck)
    encode(ck)
    strengthen(ck)
