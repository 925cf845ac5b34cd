"""Helpers: networks as vectors, gradient sets, samples, numerical gradients,
approximators, gradient surgery, logs."""
import itertools
import re

from .. import poly, natives
from ..poly import Rat
from ..values import Arr, ExtV, PyFn, AbsRaise, ListV, DictV
from .common import sym as common_sym
from .common import sym, where, F64
from . import blocks as bl
from .c11 import T
from .c09 import Net
from .c22 import data_hooks

TITLE = "Network, sampling, gradient and training helpers do what they state"
EXPLANATION = (
    "The helper functions of utils.py, train_utils.py and training_log.py "
    "are evaluated on symbolic weights, gradients, data and bounds for "
    "several layer widths and sizes and compared, as normal forms, with "
    "their definitions; random draws are replaced by their extreme and inner "
    "values; training helpers are evaluated on an opaque model with the "
    "order of zeroing, back-propagation and steps recorded.")
ASSUMPTIONS = ("real arithmetic; torch, numpy and cvxpy calls follow their "
               "documentation", )
MIN_OBS = 250
U = "utils"
Z, ONE = Rat.const(0), Rat.const(1)
WIDTHS = ((2, 3), (2, 3, 1), (3, 2, 2), (1, 2, 3, 2), (4, 1, 2))
OPT, DS = "sa.Optimizer", "sa.DataSet"


class World:
    def __init__(self, ck):
        poly.clear_bounds()
        self.ip = ck.interp()
        self.steps = 0
        self.opts, self.saved, self.loaders = [], [], []
        data_hooks(self.ip, self)

    def f(self, name, *a, mod=U, **k):
        return self.ip.call(self.ip.get(mod, name), list(a), k)


def vec(n, k):
    return [sym("%s%d" % (n, i)) for i in range(k)]


def count(wd, bias):
    return sum(a * b + (b if bias else 0) for a, b in zip(wd, wd[1:]))


def affine(wd, bias, p, x, c):
    """value of the network whose parameters are the vector p"""
    k = 0
    for n, (a, b) in enumerate(zip(wd, wd[1:])):
        W, k = p[k:k + a * b], k + a * b
        y = [sum((W[i * a + j] * x[j] for j in range(a)), Z)
             for i in range(b)]
        if bias:
            y = [v + q for v, q in zip(y, p[k:k + b])]
            k += b
        if n < len(wd) - 2:
            y = [act(v, c) for v in y]
        x = y
    return x


def act(v, c):
    return poly.max2(v, c * v)


def forward(W, net, x, n):
    r = W.ip.call(net, [T(W.ip, x)], {})
    return W.ip.cells(r)


def linears(ip, net):
    return [l for l in ip.iterate(net) if ip.hasattr(l, "weight")] if hasattr(
        ip, "hasattr") else [l for l in ip.iterate(net)
                             if "weight" in ip.attrs(l)]


def pattern_net(ck, ip, wd, bias, c):
    """a network with symbolic weights"""
    Ws = [vec("W%d_" % k, wd[k] * wd[k + 1]) for k in range(len(wd) - 1)]
    bs = [vec("b%d_" % k, wd[k + 1]) if bias else None
          for k in range(len(wd) - 1)]
    net = Net(ip, list(wd), Ws, bs, [c] * (len(wd) - 2))
    flat = []
    for a, b in zip(Ws, bs):
        flat += a + (b or [])
    return net, flat


def layout(ck, key, ip, net, wd, bias, p, w, copied_from=None):
    ls = linears(ip, net)
    ck.ob(key + ".layers", len(ls) == len(wd) - 1, "one linear layer per "
          "step of the widths", str(len(ls)), w)
    k = 0
    for n, (l, a, b) in enumerate(zip(ls, wd, wd[1:])):
        W = ip.getattr(l, "weight")
        ck.ob("%s.shape%d" % (key, n), tuple(W.shape) == (b, a), "weights "
              "are out x in", str(W.shape), w)
        ck.eq_arr(ip, "%s.weight%d" % (key, n), W, p[k:k + a * b], "weights "
                  "row by row, then the bias, layer by layer", w)
        k += a * b
        v = ip.getattr(l, "bias")
        if bias:
            ck.eq_arr(ip, "%s.bias%d" % (key, n), v, p[k:k + b],
                      "weights, then the bias, layer by layer", w)
            k += b
        else:
            ck.ob("%s.nobias%d" % (key, n), v is None, "no bias", str(v), w)


def networks(ck):
    for wd, bias in itertools.product(WIDTHS, (True, False)):
        tag = "%s.%d" % ("x".join(map(str, wd)), bias)
        n = count(wd, bias)
        p = vec("p", n)
        w = where(ck.repo, U, "setup_relu")

        def setup(tag=tag, wd=wd, bias=bias, p=p, w=w):
            W = World(ck)
            ip = W.ip
            par = T(ip, p)
            net = W.f("setup_relu", tuple(wd), params=par,
                      negative_slope=sym("c"), bias=bias, dtype=F64)
            key = "setup." + tag
            layout(ck, key, ip, net, wd, bias, p, w)
            ls = list(ip.iterate(net))
            ck.ob(key + ".len", len(ls) == 2 * len(wd) - 3, "linear layers "
                  "with an activation between any two", str(len(ls)), w)
            for k, l in enumerate(ls):
                if k % 2:
                    ck.eq("%s.slope%d" % (key, k), ip.getattr(
                        l, "negative_slope"), sym("c"), "leaky ReLU with the "
                        "slope asked for", w)
                    # evaluated on its own, as the encodings do
                    z = vec("z", 2)
                    y = T(ip, z)
                    r = ip.call(l, [y], {})
                    ck.eq_arr(ip, "%s.kept%d" % (key, k), y, z, "an "
                              "activation leaves its input as it was", w)
                    ck.eq_arr(ip, "%s.act%d" % (key, k), r, [
                        sym("c") * a + (1 - sym("c")) * poly.relu(a)
                        for a in z], "leaky ReLU of the input", w)
            # the network has its own parameters
            ip.store_cells(par, vec("other", n))
            layout(ck, key + ".own", ip, net, wd, bias, p, w)
            r = W.f("extract_relu_parameters", net)
            ck.eq_arr(ip, key + ".extract", r, p, "extract_relu_parameters "
                      "inverts setup_relu", w)
            s = ip.iterate(W.f("extract_relu_structure", net))
            ck.ob(key + ".structure", tuple(ip.iterate(s[0])) == tuple(wd) and
                  s[2] is bias, "the structure is read back",
                  "%s" % (s, ), w)
            if len(wd) > 2:
                ck.eq(key + ".structure.slope", s[1], sym("c"), "the slope "
                      "is read back", w)
        ck.attempt("setup." + tag, setup, where=w)
        w2 = where(ck.repo, U, "update_relu_params")

        def update(tag=tag, wd=wd, bias=bias, p=p, w=w2):
            W = World(ck)
            ip = W.ip
            net, flat = pattern_net(ck, ip, wd, bias, sym("c"))
            key = "update." + tag
            r = W.f("extract_relu_parameters", net.seq)
            ck.eq_arr(ip, key + ".extract", r, flat, "weights row by row, "
                      "then the bias, layer by layer", w)
            par = T(ip, p)
            W.f("update_relu_params", net.seq, par)
            layout(ck, key, ip, net.seq, wd, bias, p, w)
            ck.eq_arr(ip, key + ".snapshot", r, flat, "extracted parameters "
                      "are a copy", w)
            r2 = W.f("extract_relu_parameters", net.seq)
            ck.eq_arr(ip, key + ".roundtrip", r2, p, "extract inverts "
                      "update", w)
            # training the network leaves the vector alone
            ck.ob(key + ".own", not any(
                ip.amodel(a).get("shares") == par.addr
                for a in natives.module_params(ip, net.seq)),
                "the network does not share memory with the vector it was "
                "set from", "", w)
        ck.attempt("update." + tag, update, where=w2)
        w3 = where(ck.repo, U, "extract_relu_parameters_grad")

        def grads(tag=tag, wd=wd, bias=bias, w=w3):
            W = World(ck)
            ip = W.ip
            net, flat = pattern_net(ck, ip, wd, bias, sym("c"))
            key = "grads." + tag
            want = []
            for k, l in enumerate(linears(ip, net.seq)):
                for nm in ("weight", "bias"):
                    a = ip.getattr(l, nm)
                    if a is None:
                        continue
                    m = len(ip.cells(a))
                    if (k + (nm == "bias")) % 3 == 2:
                        ip.amodel(a)["grad"] = None
                        want += [Z] * m
                        continue
                    g = vec("g%d%s" % (k, nm), m)
                    ip.amodel(a)["grad"] = T(ip, g, tuple(a.shape))
                    want += g
            r = W.f("extract_relu_parameters_grad", net.seq)
            ck.eq_arr(ip, key, r, want, "gradients in the order of the "
                      "parameters, zero where there is none", w)
            W.f("network_zero_grad", net.seq)
            for k, l in enumerate(linears(ip, net.seq)):
                for nm in ("weight", "bias"):
                    a = ip.getattr(l, nm)
                    g = ip.amodel(a).get("grad") if a is not None else None
                    if g is not None:
                        ck.eq_arr(ip, "%s.zero%d%s" % (key, k, nm), g,
                                  [Z] * len(ip.cells(g)), "all gradients are "
                                  "zero", w)
            r = W.f("extract_relu_parameters", net.seq)
            ck.eq_arr(ip, key + ".kept", r, flat, "the parameters are kept",
                      w)
        ck.attempt("grads." + tag, grads, where=w3)


def structure(ck):
    w = where(ck.repo, U, "extract_relu_structure")

    def go():
        for slopes, ok in ((["relu", "relu"], True), (["relu", "c"], False),
                           (["c", "relu"], False), (["c", "d"], False),
                           (["c", "c"], True)):
            W = World(ck)
            ip = W.ip
            for n in "cd":
                poly.set_bounds(n, 0, None, True)
            poly.set_bounds("d", 0, None, True)
            d = sym("c") + ONE
            cs = [{"relu": None, "c": sym("c"), "d": d}[s] for s in slopes]
            net = Net(ip, [1, 1, 1, 1], [vec("W%d" % k, 1) for k in range(3)],
                      [vec("b%d" % k, 1) for k in range(3)], cs)
            key = "structure." + "-".join(slopes)
            try:
                s = ip.iterate(W.f("extract_relu_structure", net.seq))
            except AbsRaise as e:
                ck.ob(key, not ok, "a network with one slope has a structure",
                      str(e), w)
                continue
            ck.ob(key, ok, "different slopes are refused", str(s), w)
            if ok:
                ck.eq(key + ".slope", s[1], Z if slopes[0] == "relu" else
                      sym("c"), "the slope of the activations", w)
        for pat, ok in (((1, 1), True), ((0, 0), True), ((1, 0), False),
                        ((0, 1), False)):
            W = World(ck)
            ip = W.ip
            net = Net(ip, [1, 1, 1], [vec("W%d" % k, 1) for k in range(2)],
                      [vec("b%d" % k, 1) if q else None
                       for k, q in enumerate(pat)], [sym("c")])
            key = "structure.bias%d%d" % pat
            try:
                s = ip.iterate(W.f("extract_relu_structure", net.seq))
                ck.ob(key, ok and s[2] is bool(pat[0]), "either every layer "
                      "has a bias or none", str(s), w)
            except AbsRaise as e:
                ck.ob(key, not ok, "a uniform network has a structure",
                      str(e), w)
    ck.attempt("structure", go, where=w)


def saving(ck):
    """a saved model rebuilds the same network and keeps its data"""
    cases = {
        "save_second_order_forward_model": ("q_equilibrium", "u_equilibrium",
                                            "dt"),
        "save_controller_model": ("x_lo", "x_up", "u_lo", "u_up"),
        "save_lyapunov_model": ("V_lambda", "lyapunov_positivity_epsilon",
                                "lyapunov_derivative_epsilon", "eps_type")}
    for fn, names in cases.items():
        w = where(ck.repo, U, fn)
        for bias in (True, False):
            key = "%s.%d" % (fn, bias)

            def go(fn=fn, names=names, bias=bias, key=key, w=w):
                W = World(ck)
                ip = W.ip
                wd = (2, 3, 1)
                p = vec("p", count(wd, bias))
                net = W.f("setup_relu", wd, params=T(ip, p),
                          negative_slope=sym("c"), bias=bias, dtype=F64)
                vals = [sym("arg." + n) for n in names]
                extra = []
                if fn == "save_lyapunov_model":
                    R = T(ip, vec("R", 4), (2, 2))
                    ro = ip.call(ip.get("r_options", "FixedROptions"), [R],
                                 {})
                    extra = [ro]
                ip.call(ip.get(U, fn), [net] + vals + extra + ["file"], {})
                ck.ob(key + ".file", len(W.saved) == 1 and
                      W.saved[0][1] == "file", "saved once, in the file "
                      "asked for", str(len(W.saved)), w)
                d = dict(ip.items(W.saved[0][0]))
                for n, v in zip(names, vals):
                    ck.ob("%s.%s" % (key, n), n in d and Rat.of(d[n]) == v,
                          "saved under its name", str(d.get(n)), w)
                if extra:
                    ck.eq_arr(ip, key + ".R", d.get("R"), vec("R", 4),
                              "the value of R", w)
                    ck.ob(key + ".fixed", d.get("fixed_R") is True,
                          "whether R was fixed", str(d.get("fixed_R")), w)
                net2 = W.f("setup_relu", tuple(ip.iterate(
                    d["linear_layer_width"])), params=None,
                    negative_slope=d["negative_slope"], bias=d["bias"],
                    dtype=F64)
                ip.call(ip.getattr(net2, "load_state_dict"),
                        [d["state_dict"]], {})
                layout(ck, key + ".reload", ip, net2, wd, bias, p, w)
                for k, l in enumerate(ip.iterate(net2)):
                    if k % 2:
                        ck.eq(key + ".slope", ip.getattr(
                            l, "negative_slope"), sym("c"), "the same "
                            "activations", w)
            ck.attempt(key, go, where=w)
    saved_r(ck)


D = Rat.of


def saved_r(ck):
    """the matrix R of a saved Lyapunov function and what it was made of"""
    w = where(ck.repo, U, "save_lyapunov_model")
    cases = [("SearchRwithSPDOptions", [(2, 2), D(1) / 7], "R_size:R_size "
              "R_epsilon:epsilon R_variables:_variables"),
             ("SearchRwithSVDOptions", [(3, 2), None],
              "R_size:R_size R_U:U R_V:V R_a:a"),
             ("SearchRfreeOptions", [(3, 2)], "R_size:R_size")]
    for cls, args, spec in cases:
        def go(cls=cls, args=args, spec=spec):
            W = World(ck)
            ip = W.ip
            net = W.f("setup_relu", (2, 3, 1), params=T(ip, vec(
                "p", count((2, 3, 1), True))), negative_slope=sym("c"),
                bias=True, dtype=F64)
            if args[-1] is None:
                args[-1] = ip.new_arr((2, ), [D(2), D(3)], "np")
            o = ip.call(ip.get("r_options", cls), args, {})
            sh = {"SearchRwithSPDOptions": (3, ), "SearchRwithSVDOptions":
                  (2, ), "SearchRfreeOptions": (3, 2)}[cls]
            n = 6 if len(sh) == 2 else sh[0]
            ip.call(ip.getattr(o, "set_variable_value_directly"), [
                ip.new_arr(sh, [D(c) for c in (2, 3, 5, 7, 11, 13)[:n]],
                           "np")], {})
            ip.call(ip.get(U, "save_lyapunov_model"), [net] + [
                sym("a%d" % k) for k in range(4)] + [o, "file"], {})
            d = dict(ip.items(W.saved[0][0]))
            ck.ob("save.%s.fixed" % cls, d.get("fixed_R") is False,
                  "whether R was fixed", str(d.get("fixed_R")), w)
            ck.eq_arr(ip, "save.%s.R" % cls, d.get("R"), [D(c) for c in
                      ip.cells(ip.call(ip.getattr(o, "R"), [], {}))],
                      "the value of R", w)
            for e in spec.split():
                n, a = e.split(":")
                v, g = ip.getattr(o, a), d.get(n)
                if isinstance(v, Arr):
                    ck.eq_arr(ip, "save.%s.%s" % (cls, n), g, [
                        D(c) for c in ip.cells(v)], "what R is made of is "
                        "saved with it", w)
                else:
                    ck.ob("save.%s.%s" % (cls, n), n in d and (
                        g == v or not isinstance(v, tuple) and
                        D(g) == D(v)), "what R is made of is saved with it",
                        str(g), w)
        ck.attempt("save." + cls, go, where=w)


# ----------------------------------------------------------- gradient sets
def rowset(ip, a):
    c = ip.cells(a)
    n = a.shape[1]
    return [tuple(c[i * n:(i + 1) * n]) for i in range(a.shape[0])]


def same_set(ck, key, got, want, rule, w):
    a = sorted(str([str(Rat.of(v)) for v in r]) for r in got)
    b = sorted(str([str(Rat.of(v)) for v in r]) for r in want)
    ck.ob(key, a == b, rule, "%s, expected %s" % (a, b), w)


def l1(ck):
    w = where(ck.repo, U, "l1_gradient")
    # entries: sign, size relative to the tolerance
    kinds = {"p": (1, 3), "n": (-1, 3), "0": (0, 0), "s": (1, 0.5),
             "t": (-1, 0.5), "e": (1, 1)}
    pats = ["p", "n", "0", "pn", "p0", "0n", "00", "0p0", "n00p", "000",
            "ps", "tn", "s0", "e", "pe", "ept", "s0t"]
    for pat, sub, num in itertools.product(pats, (0, 1, 2), (0, 1)):
        if pat in ("000", "s0t") and sub == 2 and not ck.deep:
            continue
        key = "l1.%s.%d" % (pat, sub) + (".numbers" if num else "")

        def go(pat=pat, sub=sub, key=key, num=num):
            W = World(ck)
            ip = W.ip
            poly.set_bounds("tol", 0, None, True)

            def sym(n):
                return common_sym(n) if not num else Rat.const(1) / 10 if \
                    n == "tol" else Rat.const(int(n[1:]) + 1) / 50
            tol = sym("tol") if any(c in "ste" for c in pat) else Z
            x = []
            for k, ch in enumerate(pat):
                s, m = kinds[ch]
                if ch in "pn":
                    poly.set_bounds("x%d" % k, 0, None, True)
                    x.append((sym("x%d" % k) + tol) * s)
                else:
                    x.append(sym("tol") * Rat.of(m) * s if tol is not Z
                             else Z)
            kw = {"zero_tol": tol if tol is not Z else Rat.of(0.)}
            ss = [Rat.const(1) / 3, -Rat.const(1) / 5][:sub]
            if sub:
                kw["subgradient_samples"] = ip.new_arr(
                    (sub, ), ss, "np", "float")
            if tol is Z and len(pat) % 2:
                del kw["zero_tol"]      # 0 unless given
            r = W.f("l1_gradient", T(ip, x), **kw)
            ch = []
            for k, c in enumerate(pat):
                ch.append([ONE] if c == "p" else [-ONE] if c == "n" else
                          [ONE, -ONE] + ss)
            want = list(itertools.product(*ch))
            ck.ob(key + ".shape", tuple(r.shape) == (len(want), len(pat)),
                  "one row per gradient", str(r.shape), w)
            same_set(ck, key, rowset(ip, r), want, "all one-sided and "
                     "sampled gradients of the 1-norm, each once", w)
        ck.attempt(key, go, where=w)


def linf(ck):
    w = where(ck.repo, U, "l_infinity_gradient")
    # multiples of the norm m: exactly, within / outside the tolerance
    for pat in ("P", "N", "Pl", "lN", "PN", "PP", "NlP", "Pn", "pNl", "zz",
                "z", "lPlN"):
        key = "linf." + pat

        def go(pat=pat, key=key):
            W = World(ck)
            ip = W.ip
            poly.set_bounds("tol", 0, None, True)
            poly.set_bounds("m", 0, None, True)
            tol, m = sym("tol"), sym("m") + 4 * sym("tol")
            v = {"P": m, "N": -m, "p": m - tol / 2, "n": tol / 2 - m,
                 "l": (m - tol) / 2, "z": tol / 2}
            x = [v[c] for c in pat]
            r = W.f("l_infinity_gradient", T(ip, x), max_tol=tol)
            if not set(pat) & set("pnz"):
                # without a tolerance: the same entries attain the norm
                x0 = [poly.subst(v, lambda a: Z if a.kind == "sym" and
                                 a.name == "tol" else None) for v in x]
                r0 = W.f("l_infinity_gradient", T(ip, x0))
                same_set(ck, key + ".exact", rowset(ip, r0), rowset(ip, r),
                         "no tolerance unless one is given", w)
            n = len(pat)
            want = []
            for i, c in enumerate(pat):
                for s in ((1, ) if c in "Pp" else (-1, ) if c in "Nn" else
                          (1, -1) if c == "z" else ()):
                    want.append([Rat.const(s) if j == i else Z
                                 for j in range(n)])
            ck.ob(key + ".shape", tuple(r.shape) == (len(want), n), "one row "
                  "per gradient", str(r.shape), w)
            same_set(ck, key, rowset(ip, r), want, "the signed unit vectors "
                     "of the entries that attain the norm", w)
        ck.attempt(key, go, where=w)


def minkowski(ck):
    w = where(ck.repo, U, "minkowski_sum")
    for a, b, tail in ((2, 3, (2, )), (1, 2, (1, )), (3, 1, ()),
                       (2, 2, (2, 3))):
        key = "minkowski.%d.%d.%s" % (a, b, "x".join(map(str, tail)))

        def go(a=a, b=b, tail=tail, key=key):
            W = World(ck)
            ip = W.ip
            n = 1
            for t in tail:
                n *= t
            x, y = vec("x", a * n), vec("y", b * n)
            r = W.f("minkowski_sum", T(ip, x, (a, ) + tail), T(
                ip, y, (b, ) + tail))
            ck.ob(key + ".shape", tuple(r.shape) == (a * b, ) + tail, "all "
                  "pairs", str(r.shape), w)
            ck.eq_arr(ip, key, r, [x[i * n + k] + y[j * n + k]
                                   for i in range(a) for j in range(b)
                                   for k in range(n)],
                      "entry i * |y| + j is x_i + y_j", w)
        ck.attempt(key, go, where=w)
    w2 = where(ck.repo, U, "loss_reduction")

    def red():
        for n in (1, 3):
            for kind in ("mean", "max", "4norm", "sum"):
                W = World(ck)
                ip = W.ip
                x = vec("x", n)
                for v in x:
                    poly.set_bounds(str(v), 0, None)
                key = "reduction.%s.%d" % (kind, n)
                try:
                    r = W.f("loss_reduction", T(ip, x), kind)
                except AbsRaise as e:
                    ck.ob(key, kind == "sum", "known reductions work",
                          str(e), w2)
                    continue
                if kind == "sum":
                    ck.ob(key, False, "an unknown reduction is refused", "",
                          w2)
                    continue
                m = x[0]
                for v in x[1:]:
                    m = poly.max2(m, v)
                want = {"mean": sum(x, Z) / n, "max": m}.get(kind)
                if want is None:
                    want = sum((v * v * v * v for v in x), Z)
                    g = ip.cells(r)[0]
                    ck.eq(key, g * g * g * g, want, "4-norm", w2)
                    continue
                ck.eq(key, ip.cells(r)[0], want, kind, w2)
    ck.attempt("reduction", red, where=w2)


# ----------------------------------------------------------------- samples
def at(v, m, q):
    """v at the value q of draw m"""
    return poly.subst(v, lambda a: Rat.const(q) if a.kind == "sym" and
                      a.name == "r%d" % m else None)


def samples(ck):
    w = where(ck.repo, U, "uniform_sample_in_box")
    for n, d in ((1, 1), (2, 3), (3, 2), (0, 2)):
        key = "box.%d.%d" % (n, d)

        def go(n=n, d=d, key=key):
            W = World(ck)
            ip = W.ip
            draws = []

            def rand(ip, a, k):
                sh = [int(Rat.of(v).const_value()) if not isinstance(
                    v, int) else v for v in (ip.iterate(a[0]) if isinstance(
                        a[0], (tuple, ListV)) else a)]
                m = 1
                for v in sh:
                    m *= v
                c = [sym("r%d" % i) for i in range(m)]
                draws.append(c)
                return T(ip, c, tuple(sh))
            ip.hooks["ext:torch.rand"] = rand
            lo, hi = vec("l", d), vec("h", d)
            r = W.f("uniform_sample_in_box", T(ip, lo), T(ip, hi), n)
            ck.ob(key + ".shape", tuple(r.shape) == (n, d), "one row per "
                  "sample", str(r.shape), w)
            ck.ob(key + ".draws", len(draws) == 1 and len(
                draws[0]) == n * d, "one draw per coordinate", "", w)
            got = ip.cells(r)
            for i in range(n):
                for j in range(d):
                    v = got[i * d + j]
                    own = [x for x in draws[0] if not poly.diff(
                        v, str(x)).is_zero()]
                    ck.ob("%s.own%d.%d" % (key, i, j), len(own) == 1,
                          "every coordinate has its own draw", str(own), w)
                    if len(own) == 1:
                        a, b = (poly.subst(v, lambda at: Rat.const(q)
                                           if at.kind == "sym" and
                                           at.name == str(own[0]) else None)
                                for q in (0, 1))
                        ok = (a - lo[j]).is_zero() and (b - hi[j]).is_zero() \
                            or (a - hi[j]).is_zero() and (b - lo[j]).is_zero()
                        ck.ob("%s.range%d.%d" % (key, i, j), ok and poly.diff(
                            poly.diff(v, str(own[0])), str(own[0])).is_zero(),
                            "the draw covers [lo, hi] evenly", str(v), w)
            used = [str(x) for x in draws[0] if any(not poly.diff(
                v, str(x)).is_zero() for v in got)]
            ck.ob(key + ".distinct", len(used) == n * d, "draws are not "
                  "shared", str(used), w)
        ck.attempt(key, go, where=w)
    w2 = where(ck.repo, U, "uniform_sample_on_box_boundary")
    q = lambda a, b: Rat.const(a) / b
    for d in (1, 2, 3):
        faces = [Z, q(1, 2 ** 24)] + [q(2 * i + 1, 4 * d)
                                      for i in range(2 * d)] + [
            q(1, 2), 1 - q(1, 2 ** 24)]
        key = "boundary.%d" % d

        def go(d=d, faces=faces, key=key):
            W = World(ck)
            ip = W.ip
            n = len(faces)
            lo, hi = vec("l", d), vec("h", d)
            for i in range(n * d):
                poly.set_bounds("r%d" % i, 0, 1, False, True)

            def rand(ip, a, k):
                sh = [v if isinstance(v, int) else int(Rat.of(
                    v).const_value()) for v in (ip.iterate(a[0]) if isinstance(
                        a[0], (tuple, ListV)) else a)]
                if len(sh) == 2:
                    return T(ip, [sym("r%d" % i) for i in range(n * d)],
                             tuple(sh))
                return T(ip, faces, tuple(sh))
            ip.hooks["ext:torch.rand"] = rand
            r = W.f("uniform_sample_on_box_boundary", T(ip, lo), T(ip, hi),
                    n)
            c = ip.cells(r)
            hits = set()
            for i in range(n):
                on = [(j, e) for j in range(d) for e, b in (("lo", lo),
                                                            ("hi", hi))
                      if (c[i * d + j] - b[j]).is_zero()]
                ck.ob("%s.face%d" % (key, i), len(on) == 1, "a sample is on "
                      "one face, its other coordinates inside",
                      str([str(v) for v in c[i * d:i * d + d]]), w2)
                hits |= set(on)
                for j in range(d):
                    if on and on[0][0] == j:
                        continue
                    v = c[i * d + j]
                    own = [m for m in range(n * d) if not poly.diff(
                        v, "r%d" % m).is_zero()]
                    ck.ob("%s.in%d.%d" % (key, i, j), len(own) == 1 and sorted(
                        map(str, (at(v, own[0], 0), at(v, own[0], 1)))) ==
                        sorted(map(str, (lo[j], hi[j]))), "the other "
                        "coordinates cover the box", str(v), w2)
            ck.ob(key + ".all", len(hits) == 2 * d, "every face can be "
                  "drawn", str(sorted(hits)), w2)
        ck.attempt(key, go, where=w2)
    w3 = where(ck.repo, U, "get_meshgrid_samples")
    for mesh in ((3, ), (2, 3), (3, 2, 2), (1, 4)):
        key = "mesh." + "x".join(map(str, mesh))

        def go(mesh=mesh, key=key):
            W = World(ck)
            ip = W.ip
            d = len(mesh)
            lo, hi = vec("l", d), vec("h", d)
            r = W.f("get_meshgrid_samples", T(ip, lo), T(ip, hi),
                    tuple(mesh), F64)
            want = []
            for ix in itertools.product(*[range(m) for m in mesh]):
                want.append([lo[k] if mesh[k] == 1 else lo[k] + (
                    hi[k] - lo[k]) * Rat.const(i) / (mesh[k] - 1)
                    for k, i in enumerate(ix)])
            ck.ob(key + ".shape", tuple(r.shape) == (len(want), d),
                  "one row per grid point", str(r.shape), w3)
            got = rowset(ip, r)
            left = list(want)
            for g in got:
                hit = next((v for v in left if all(
                    (Rat.of(a) - b).is_zero() for a, b in zip(g, v))), None)
                if hit is not None:
                    left.remove(hit)
            ck.ob(key, not left and len(got) == len(want), "every grid point "
                  "once", str([[str(v) for v in r_] for r_ in left][:3]), w3)
        ck.attempt(key, go, where=w3)


# ------------------------------------------------------ numerical gradient
def numerical(ck):
    w = where(ck.repo, U, "compute_numerical_gradient")
    funs = {
        "vector": (2, lambda x: [x[0] * x[1], x[0] * x[0] - 3 * x[1],
                                 Rat.const(5)]),
        "square": (2, lambda x: [x[0] * x[1] * 2, x[1] * x[1]]),
        "one": (1, lambda x: [x[0] * x[0]])}
    for nm, (n, f) in funs.items():
        for opt in (False, True):
            key = "numgrad.%s.%d" % (nm, opt)

            def go(key=key, n=n, f=f, opt=opt):
                W = World(ck)
                ip = W.ip
                fn = PyFn(lambda ip_, a, k: ip.new_arr(
                    (len(f(ip.cells(a[0]))), ), f(ip.cells(a[0])), "np",
                    "float"), "f")
                x = vec("x", n)
                X = ip.new_arr((n, ), x, "np", "float")
                kw = {"dx": sym("dx")} if opt else {}
                if opt:
                    poly.set_bounds("dx", 0, None, True)
                r = W.f("compute_numerical_gradient", fn, X, **kw)
                want = [poly.diff(v, "x%d" % j) for v in f(x)
                        for j in range(n)]
                ck.ob(key + ".shape", tuple(r.shape) == (len(f(x)), n),
                      "row per output, column per input", str(r.shape), w)
                ck.eq_arr(ip, key, r, want, "central differences are exact "
                          "for quadratic functions", w)
                ck.eq_arr(ip, key + ".kept", X, x, "the argument is kept", w)
            ck.attempt(key, go, where=w)

    def two():
        W = World(ck)
        ip = W.ip
        fn = PyFn(lambda ip_, a, k: ip.new_arr((2, ), [
            ip.cells(a[0])[0] * ip.cells(a[1])[0] + ip.cells(a[0])[1],
            ip.cells(a[1])[2] * ip.cells(a[1])[2]], "np", "float"), "f")
        x, y = vec("x", 2), vec("y", 3)
        r = ip.iterate(W.f("compute_numerical_gradient", fn, ip.new_arr(
            (2, ), x, "np", "float"), ip.new_arr((3, ), y, "np", "float")))
        ck.ob("numgrad.two.n", len(r) == 2, "one gradient per argument",
              str(len(r)), w)
        ck.eq_arr(ip, "numgrad.two.x", r[0], [y[0], ONE, Z, Z], "gradient "
                  "with respect to the first argument", w)
        ck.eq_arr(ip, "numgrad.two.y", r[1], [x[0], Z, Z, Z, Z, 2 * y[2]],
                  "gradient with respect to the second argument", w)
    ck.attempt("numgrad.two", two, where=w)

    def number():
        W = World(ck)
        ip = W.ip
        x = vec("x", 3)
        poly.set_bounds("dx", 0, None, True)
        fn = PyFn(lambda ip_, a, k: ip.cells(a[0])[0] * ip.cells(a[0])[1] +
                  2 * ip.cells(a[0])[2], "f")
        for kw in ({}, {"dx": sym("dx")}):
            r = W.f("compute_numerical_gradient", fn, ip.new_arr(
                (3, ), x, "np", "float"), **kw)
            key = "numgrad.number%d" % len(kw)
            ck.ob(key + ".shape", tuple(r.shape) == (3, ), "one entry per "
                  "coordinate for a number", str(r.shape), w)
            ck.eq_arr(ip, key, r, [x[1], x[0], Rat.const(2)], "central "
                      "differences are exact for quadratic functions", w)
    ck.attempt("numgrad.number", number, where=w)

    def view():
        W = World(ck)
        ip = W.ip
        x = vec("x", 2)
        fn = PyFn(lambda ip_, a, k: a[0], "identity")
        r = W.f("compute_numerical_gradient", fn, ip.new_arr(
            (2, ), x, "np", "float"))
        ck.eq_arr(ip, "numgrad.identity", r, [ONE, Z, Z, ONE], "the function "
                  "may return its argument", w)
    ck.attempt("numgrad.identity", view, where=w)


def projection(ck):
    w = where(ck.repo, U, "project_to_polyhedron")
    for case in ("inside", "outside", "boundary", "one"):
        key = "project." + case

        def go(case=case, key=key):
            W = World(ck)
            ip = W.ip
            poly.set_bounds("s", 0, None, True)
            A, x = vec("A", 4), vec("x", 2)
            ax = [A[0] * x[0] + A[1] * x[1], A[2] * x[0] + A[3] * x[1]]
            s = sym("s")
            b = [v + {"inside": s, "outside": -s, "boundary": Z,
                      "one": s}[case] for v in ax]
            if case == "one":
                b[1] = ax[1] - s
            X = T(ip, x)
            seen = []

            def status(ip, p):
                seen.append(p)
                return "optimal"
            ip.cvx_status = status
            r = W.f("project_to_polyhedron", T(ip, A, (2, 2)), T(ip, b), X)
            if case in ("inside", "boundary"):
                ck.eq_arr(ip, key, r, x, "a point of the polyhedron is its "
                          "own projection", w)
                return
            ck.ob(key + ".solved", len(seen) == 1, "one program", str(
                len(seen)), w)
            if len(seen) != 1:
                return
            p = seen[0]
            names = sorted({a.name for e in [p.obj] + [
                q_[0] for q_ in p.rows] for a in e.atoms()
                if a.kind == "sym" and a.name in ip.cvx})
            y = [sym(n) for n in names]
            ck.ob(key + ".vars", len(y) == 2, "one variable per coordinate",
                  str(names), w)
            ck.eq(key + ".objective", p.obj * p.sense, sum((
                (a - c) * (a - c) for a, c in zip(x, y)), Z), "squared "
                "distance to the point", w)
            rows = sorted(str(e if op == "==" else e) for e, op in p.rows)
            want = sorted(str(b[i] - A[2 * i] * y[0] - A[2 * i + 1] * y[1])
                          for i in range(2))
            ck.ob(key + ".rows", rows == want and all(
                op == ">=" for _, op in p.rows), "A y <= b", "%s %s" % (
                    rows, want), w)
            ck.ob(key + ".result", tuple(r.shape) == (2, ) and all(
                not Rat.of(v).is_zero() for v in ip.cells(r)),
                "the solution is returned", str(ip.cells(r)), w)
        ck.attempt(key, go, where=w)


# ---------------------------------------------------------------- training
def later(flat, k, ps):
    """the parameters after k steps of the optimizer"""
    out = list(flat)
    for n in range(1, k + 1):
        i = 0
        for p, m in ps:
            for j in range(m):
                out[i] = out[i] + sym("d%d_%d_%d" % (n, p, j))
                i += 1
    return out


def trainers(ck):
    w = where(ck.repo, U, "train_model")
    for n, bs, ne in ((3, 2, 2), (2, 5, 1), (4, 2, 1)):
        key = "train_model.%d.%d.%d" % (n, bs, ne)

        def go(n=n, bs=bs, ne=ne, key=key):
            W = World(ck)
            ip = W.ip
            net, flat = pattern_net(ck, ip, (2, 1), True, None)
            x = [vec("x%d_" % i, 2) for i in range(n)]
            y = [sym("y%d" % i) for i in range(n)]
            ps = [(p.addr, len(ip.cells(p))) for p in natives.module_params(
                ip, net.seq)]
            ip.events.clear()
            r = W.f("train_model", net.seq, T(ip, sum(x, []), (n, 2)),
                    T(ip, y, (n, 1)), batch_size=bs, num_epoch=ne,
                    learning_rate=sym("lr"))
            ck.ob(key + ".model", r is net.seq, "the trained model is "
                  "returned", "", w)
            params_of(ck, key, W, [net.seq], w, sym("lr"))
            want = []
            for _ in range(ne):
                for js in batches(W, n, bs):
                    p = later(flat, len(want), ps)
                    e = [p[0] * x[j][0] + p[1] * x[j][1] + p[2] - y[j]
                         for j in js]
                    want.append(sum((v * v for v in e), Z) / bs)
            steps(ck, key, W, want, w)
        ck.attempt(key, go, where=w)
    w2 = where(ck.repo, U, "train_approximator")
    for n, bs, ne, add in ((5, 2, 2, False), (6, 3, 1, True),
                           (10, 20, 2, True)):
        key = "approx.%d.%d.%d.%d" % (n, bs, ne, add)

        def go(n=n, bs=bs, ne=ne, add=add, key=key):
            W = World(ck)
            ip = W.ip
            net, flat = pattern_net(ck, ip, (1, 1), True, None)
            x = vec("x", n)
            y = vec("y", n)
            data = ip.hooks["ext:torch.utils.data.TensorDataset"](
                ip, [T(ip, x, (n, 1)), T(ip, y, (n, 1))], {})
            k = int(n * 0.8)
            extra = T(ip, [sym("extra")])
            out = PyFn(lambda ip_, a, kw: T(ip, [
                v * kw["gain"] + (ip.cells(extra)[0] if add else Z)
                for v in ip.cells(ip.call(a[0], [a[1]], {}))],
                tuple(a[1].shape)), "out")
            ps = [(p.addr, len(ip.cells(p))) for p in natives.module_params(
                ip, net.seq)] + ([(extra.addr, 1)] if add else [])
            ip.events.clear()
            ip.call(ip.get(U, "train_approximator"), [
                data, net.seq, out, bs, ne, sym("lr")], {
                    "additional_variable": ip.new_list([extra])
                    if add else None, "output_fun_args": ip.new_dict(
                        {"gain": sym("gain")}), "verbose": False})
            params_of(ck, key, W, [net.seq], w2, sym("lr"),
                      [extra] if add else [])
            want = []
            fl = flat + ([sym("extra")] if add else [])
            for _ in range(ne):
                for js in batches(W, k, bs):
                    p = later(fl, len(want), ps)
                    # random_split: the stand-in hands out the rows in
                    # reversed order
                    rows = [n - 1 - j for j in js]
                    e = [(p[0] * x[j] + p[1]) * sym("gain") + (
                        p[2] if add else Z) - y[j] for j in rows]
                    want.append(sum((v * v for v in e), Z) / len(js))
            steps(ck, key, W, want, w2)
            ck.ob(key + ".count", len(want) == W.steps, "one step per batch "
                  "and epoch", "%d %d" % (W.steps, len(want)), w2)
        ck.attempt(key, go, where=w2)


def batches(W, n, bs):
    return [list(range(i, min(n, i + bs))) for i in range(0, n, bs)]


def params_of(ck, key, W, nets, w, lr, extra=()):
    ip = W.ip
    want = sorted([p.addr for n in nets for p in ip.iterate(ip.call(
        ip.getattr(n, "parameters"), [], {}))] + [e.addr for e in extra])
    ck.ob(key + ".optimizer", len(W.opts) == 1 and sorted(
        p.addr for p in ip.attrs(W.opts[0])["_params"]) == want and
        ip.attrs(W.opts[0])["_kw"].get("lr") == lr, "one optimizer on all "
        "parameters with the learning rate", "", w)


def steps(ck, key, W, want, w):
    """zero, backward on the batch loss, step - in this order per batch"""
    ip = W.ip
    ev = [e for e in ip.events if e[0] in ("opt-zero", "zero_grad",
                                           "backward", "opt-step")]
    order = "".join({"opt-zero": "z", "zero_grad": "z", "backward": "b",
                     "opt-step": "s"}[e[0]] for e in ev)
    ck.ob(key + ".order", re.fullmatch("(z+bs)*z*", order) is not None,
          "gradients are zeroed, then computed, then one step is made",
          order, w)
    got = [ip.cells(e[2])[0] for e in ev if e[0] == "backward"]
    ck.ob(key + ".batches", len(got) == len(want), "one loss per batch and "
          "epoch", "%d, expected %d" % (len(got), len(want)), w)
    for i, (a, b) in enumerate(zip(got, want)):
        ck.eq("%s.loss%d" % (key, i), a, b, "squared error of the batch at "
              "the current parameters", w)


def surgery(ck):
    w = where(ck.repo, "train_utils", "project_gradient")
    modes = ("LOSS1", "LOSS2", "BOTH", "EMPHASIZE_LOSS1", "EMPHASIZE_LOSS2")
    for mode, sg in itertools.product(modes, ("+", "-", "0")):
        key = "surgery.%s.%s" % (mode, sg)

        def go(mode=mode, sg=sg, key=key):
            W = World(ck)
            ip = W.ip
            wd = (1, 1, 1)
            net, flat = pattern_net(ck, ip, wd, True, sym("c"))
            ps = list(ip.iterate(ip.call(ip.getattr(
                net.seq, "parameters"), [], {})))
            n = len(flat)
            for i in range(n):
                for s in "ab":
                    poly.set_bounds("%s%d" % (s, i), 0, None, True)
            g1 = [sym("a%d" % i) for i in range(n)]
            g2 = [sym("b%d" % i) * {"+": 1, "-": -1, "0": 0}[sg]
                  for i in range(n)]
            if sg == "0":
                g1 = [g1[0], g1[1], Z, Z]
                g2 = [Z, Z, sym("b2"), -sym("b3")]
            L = [T(ip, [sym("loss1")], ()), T(ip, [sym("loss2")], ())]
            order = []

            def back(ip_, a, k):
                i = 0 if a[0] is L[0] else 1
                order.append(i)
                off = 0
                for p in ps:
                    m = len(ip.cells(p))
                    g = [g1, g2][i][off:off + m]
                    off += m
                    old = ip.amodel(p).get("grad")
                    if old is not None:
                        ip.store_cells(old, [a_ + b_ for a_, b_ in zip(
                            ip.cells(old), g)])
                    else:
                        ip.amodel(p)["grad"] = T(ip, g, tuple(p.shape))
            ip.backward_hook = back
            md = ip.getattr(ip.get("train_utils", "ProjectGradientMode"),
                            mode)
            r = ip.iterate(W.f("project_gradient", net.seq, L[0], L[1], md,
                               mod="train_utils"))
            ck.ob(key + ".backward", sorted(order) == [0, 1], "each loss is "
                  "differentiated once", str(order), w)
            ck.ob(key + ".flag", ip.truth(r[0]) is (sg == "-"), "projection "
                  "is needed iff the gradients oppose each other",
                  str(r[0]), w)
            ck.eq_arr(ip, key + ".n1", r[1], g1, "gradient of loss 1", w)
            ck.eq_arr(ip, key + ".n2", r[2], g2, "gradient of loss 2", w)
            d = lambda u, v: sum((a * b for a, b in zip(u, v)), Z)
            if sg == "-":
                p1 = [a - d(g1, g2) / d(g2, g2) * b for a, b in zip(g1, g2)]
                p2 = [b - d(g1, g2) / d(g1, g1) * a for a, b in zip(g1, g2)]
            z = [Z] * n
            want = [a + b for a, b in zip(g1, g2)] if sg != "-" else [
                a + b for a, b in zip(*{
                    "LOSS1": (p1, z), "LOSS2": (z, p2), "BOTH": (p1, p2),
                    "EMPHASIZE_LOSS1": (g1, p2),
                    "EMPHASIZE_LOSS2": (p1, g2)}[mode])]
            off = 0
            for k, p in enumerate(ps):
                g = ip.amodel(p).get("grad")
                m = len(ip.cells(p))
                ck.ob("%s.shape%d" % (key, k), isinstance(g, Arr) and tuple(
                    g.shape) == tuple(p.shape), "shape of the parameter", "",
                    w)
                ck.eq_arr(ip, "%s.grad%d" % (key, k), g, want[off:off + m],
                          "the documented descent direction", w)
                off += m
            ck.eq_arr(ip, key + ".kept", W.f("extract_relu_parameters",
                                             net.seq), flat,
                      "the parameters are kept", w)
        ck.attempt(key, go, where=w)


# --------------------------------------------------------------------- log
def logs(ck):
    w = where(ck.repo, "training_log", "TrainingLog")
    for first in (False, True):
        key = "log.%d" % first

        def go(first=first, key=key):
            W = World(ck)
            ip = W.ip
            calls = []
            wr = ip.new_obj(ExtV("sa.Writer"))
            ip.attrs(wr)["add_scalars"] = PyFn(
                lambda ip_, a, k: calls.append((a[0], dict(ip.items(a[1])),
                                                a[2])), "add_scalars")
            lg = ip.call(ip.get("training_log", "TrainingLog"), [2], {
                "prefix": "pre", "writer": wr, "first_value_only": first})
            arr = lambda v: ip.new_arr((2, ), v, "np", "float")
            t = [vec("t%d_" % i, 2) for i in range(3)]
            v = vec("v", 2)
            want = []
            cols = (None, ) if first else (0, 1)
            for i in range(3):
                ip.call(ip.getattr(lg, "add_train_loss"), [arr(t[i])], {})
                for c in cols:
                    want.append(("Train" if first else "Train_%d" % c,
                                 t[i][c or 0], i + 1))
                if i == 1:
                    ip.call(ip.getattr(lg, "add_validation_loss"),
                            [arr(v)], {})
                    for c in cols:
                        want.append(("Validation" if first else
                                     "Validation_%d" % c, v[c or 0], 2))
            got = [(a, Rat.of(b["pre"]), int(Rat.of(s).const_value())
                    if not isinstance(s, int) else s) for a, b, s in calls]
            ck.ob(key + ".written", got == want, "every loss is written once "
                  "under its name at the number of training steps so far",
                  "%s %s" % (got, want), w)
            ck.eq_arr(ip, key + ".train", ip.getattr(lg, "train_losses"),
                      sum(t, []), "all training losses in order", w)
            ck.eq_arr(ip, key + ".valid", ip.getattr(
                lg, "validation_losses"), v, "all validation losses in "
                "order", w)
            cp = ip.call(ip.getattr(ip.get("training_log", "TrainingLog"),
                                    "get_copy"), [lg], {
                "keep_writer": True, "prefix": "other"})
            ip.call(ip.getattr(lg, "add_train_loss"), [arr(vec("z", 2))], {})
            ck.eq_arr(ip, key + ".copy", ip.getattr(cp, "train_losses"),
                      sum(t, []), "a copy keeps the losses so far", w)
            ck.ob(key + ".copy.prefix", ip.getattr(cp, "prefix") == "other"
                  and ip.getattr(lg, "prefix") == "pre" and ip.getattr(
                      cp, "first_value_only") is first, "prefix and mode of "
                  "the copy", "", w)
            cp = ip.call(ip.getattr(ip.get("training_log", "TrainingLog"),
                                    "get_copy"), [lg], {"keep_writer": True})
            ck.ob(key + ".copy.same", ip.getattr(cp, "prefix") == "pre" and
                  ip.getattr(cp, "first_value_only") is first and ip.getattr(
                      cp, "loss_dim") == ip.getattr(lg, "loss_dim"),
                  "a copy keeps what is not given", "", w)
            cp = ip.call(ip.getattr(ip.get("training_log", "TrainingLog"),
                                    "get_copy"), [lg], {
                "keep_writer": True, "first_value_only": not first})
            ck.ob(key + ".copy.mode", ip.getattr(cp, "prefix") == "pre" and
                  ip.getattr(cp, "first_value_only") is (not first),
                  "a copy has the mode asked for", "", w)
        ck.attempt(key, go, where=w)


def conversions(ck):
    w = where(ck.repo, U, "torch_to_numpy")
    for sq in (None, True, False):
        key = "numpy.%s" % sq

        def go(sq=sq, key=key):
            poly.clear_bounds()
            ip = ck.interp()
            shapes = [(1, 3), (2, 2), (3, ), (2, 1, 2), (1, 1)]
            data = [vec("t%d_" % i, numel(sh)) for i, sh in
                    enumerate(shapes)]
            other = ip.new_arr((1, 2), vec("o", 2), "np", "float")
            l = [T(ip, d, sh) for d, sh in zip(data, shapes)] + [other]
            r = ip.iterate(ip.call(ip.get(U, "torch_to_numpy"), [
                ip.new_list(l)], {} if sq is None else {"squeeze": sq}))
            ck.ob(key + ".n", len(r) == len(l), "one array per entry",
                  str(len(r)), w)
            for i, (a, d, sh) in enumerate(zip(r, data, shapes)):
                if sq is not False:
                    sh = tuple(n for n in sh if n != 1)
                ck.ob("%s.%d" % (key, i), a.lib == "np" and tuple(
                    a.shape) == sh, "a numpy array, squeezed when asked for",
                    "%s %s" % (a.lib, a.shape), w)
                ck.eq_arr(ip, "%s.v%d" % (key, i), a, d, "the same values",
                          w)
            ck.ob(key + ".other", r[-1] == other, "what is no tensor is "
                  "passed on", "", w)
        ck.attempt(key, go, where=w)

    w2 = where(ck.repo, U, "find_nearest")
    q = Rat.const
    for i, (a, v, e) in enumerate((
            ((1, 5, 9), 6, 5), ((1, 5, 9), 8, 9), ((5, ), 60, 5),
            ((-7, 3, -1), -2, -1), ((4, 2, 8), 8, 8), ((-9, 9), -100, -9))):
        def near(i=i, a=a, v=v, e=e):
            ip = ck.interp()
            arr = ip.new_arr((len(a), ), [q(z) for z in a], "np", "float")
            r = ip.call(ip.get(U, "find_nearest"), [arr, q(v)], {})
            ck.eq("nearest.%d" % i, r if isinstance(r, (Rat, int)) else bl.scalar(ip, r), q(e),
                  "the entry closest to the value", w2)
        ck.attempt("nearest.%d" % i, near, where=w2)


def numel(sh):
    n = 1
    for k in sh:
        n *= k
    return n


def check(ck):
    for g in (networks, structure, saving, l1, linf, minkowski, samples,
              numerical, projection, trainers, surgery, logs,
              conversions):
        ck.attempt(g.__name__, lambda: g(ck))
    poly.clear_bounds()
