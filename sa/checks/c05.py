"""Line-search optimizers: search direction, step chain, acceptance rule,
returned loss."""
from .. import poly
from ..poly import Rat, sqrt
from ..values import Arr, PyFn, ExtV
from .common import vec, where, sym

TITLE = "Line-search optimizers accept only sufficient decrease"
EXPLANATION = (
    "One and two optimizer steps are evaluated to normal forms over symbolic "
    "parameters, gradients and hyper-parameters. The closure is an abstract "
    "function whose value at the k-th trial is chosen as a normal form on "
    "either side of the acceptance threshold, so each branch is decided by "
    "the sign domain; checked: the trial points are p + alpha_k t d along the "
    "documented direction, the accepted trial is the first one meeting the "
    "decrease test, and the returned loss is the loss at the parameters that "
    "are left in place.")
ASSUMPTIONS = ("torch in-place tensor primitives follow their documented "
               "meaning; floating-point rounding is ignored",)
MIN_OBS = 100
D = Rat.of
SPECS = (("line_search_gd", "LineSearchGD"),
         ("line_search_adam", "LineSearchAdam"))


def param(ip, n, name):
    p = ip.call(ExtV("torch.nn.Parameter"), [vec(ip, n, name)], {})
    return p


def grad(ip, p, name, n):
    ip.amodel(p)["grad"] = vec(ip, n, name)


def setup():
    poly.clear_bounds()
    for n in ("lr", "c1", "mi", "eps"):
        poly.set_bounds(n, 0, None, lo_open=True)
    for n in ("mu", "b1", "b2", "dmp"):
        poly.set_bounds(n, 0, 1, lo_open=True, up_open=True)
    for i in range(2):
        poly.set_bounds("g%d" % i, 0, None, lo_open=True)


def check(ck):
    for mod, cls in SPECS:
        w = where(ck.repo, mod, cls + ".line_search")
        for cfg in ("armijo", "improve", "nodec"):
            if cfg == "nodec" and cls == "LineSearchGD":
                continue
            for k in (0, 1, 2, None):
                ck.attempt("%s.%s.%s" % (cls, cfg, k),
                           lambda: search(ck, mod, cls, cfg, k, w),
                           "line search", w)
    ck.attempt("gd.direction", lambda: gd(ck))
    ck.attempt("adam.direction", lambda: adam(ck))
    poly.clear_bounds()


def direction(ip, P, base, lr):
    """difference quotient of the first trial"""
    return [c - b for c, b in zip(P, base)]


def search(ck, mod, cls, cfg, accept, w):
    setup()
    ip = ck.interp()
    P, Q = param(ip, 2, "p"), param(ip, 1, "q")
    grad(ip, P, "g", 2)
    ip.amodel(Q)["grad"] = None
    kw = {"lr": sym("lr"), "step_size_reduction": D(1) / 2,
          "min_step_size_decrease": D(1) / 5,
          "loss_minimal_decrement": sym("c1") if cfg == "armijo" else
          (0 if cfg == "improve" else None),
          "min_improvement": 0 if cfg == "armijo" else sym("mi")}
    o = ip.call(ip.get(mod, cls), [ip.new_list([P, Q])], kw)
    base = [sym("p0"), sym("p1")]
    trials = []
    alpha = [D(1), D(1) / 2, D(1) / 4]

    def closure(ip, args, kw):
        pts = ip.cells(P)
        trials.append(pts)
        j = len(trials) - 1
        if j > 2:
            return sym("late%d" % j)
        # t d, read off the first trial point (checked against the documented
        # direction separately)
        td = [c - b for c, b in zip(trials[0], base)]
        dec = sum((sym("g%d" % i) * td[i] for i in range(2)), D(0)) * \
            sym("c1") * alpha[j]
        good = accept is not None and j >= accept
        if cfg == "armijo":
            # inside / outside the sufficient-decrease cone
            return sym("loss0") + dec * (D(11) / 10 if good else D(9) / 10)
        return sym("loss0") - sym("mi") * (D(11) / 10 if good else D(9) / 10)
    # the loss0 of LineSearchGD must be a python float
    r = ip.call(ip.getattr(o, "step"), [PyFn(closure, "closure"),
                                        sym("loss0")], {})
    key = "%s.%s.accept=%s" % (cls, cfg, accept)
    n = 3 if accept is None else accept + 1
    ck.ob(key + ".trials", len(trials) == n,
          "the first trial meeting the decrease test is accepted, the search "
          "stops above the minimal step", "%d trials, expected %d" %
          (len(trials), n), w)
    if not trials:
        return
    td = [c - b for c, b in zip(trials[0], base)]
    for j, t in enumerate(trials[:3]):
        for i in range(2):
            ck.eq("%s.trial%d[%d]" % (key, j, i), t[i],
                  base[i] + alpha[j] * td[i],
                  "trial k is p + reduction^k t d", w)
    for i, c in enumerate(ip.cells(P)):
        ck.eq("%s.left[%d]" % (key, i), c, trials[-1][i],
              "parameters are left at the last evaluated point", w)
    ck.eq(key + ".untouched", ip.cells(Q)[0], sym("q0"),
          "a parameter without gradient is not moved", w)
    j = len(trials) - 1
    if j <= 2:
        dec = sum((sym("g%d" % i) * td[i] for i in range(2)), D(0)) * \
            sym("c1") * alpha[j]
        good = accept is not None
        f = D(11) / 10 if good else D(9) / 10
        want = sym("loss0") + dec * f if cfg == "armijo" else \
            sym("loss0") - sym("mi") * f
        got = ip.cells(r)[0] if isinstance(r, Arr) else r
        ck.eq(key + ".loss", got, want,
              "the returned loss is the loss at the parameters left", w)


def two_steps(ck, mod, cls, kw):
    """trial points of two accepted steps; grads g then h; p reset"""
    setup()
    for i in range(2):
        poly.set_bounds("g%d" % i)
    ip = ck.interp()
    P = param(ip, 2, "p")
    grad(ip, P, "g", 2)
    a = dict(kw)
    a.update({"lr": sym("lr"), "loss_minimal_decrement": 0})
    o = ip.call(ip.get(mod, cls), [ip.new_list([P])], a)
    out = []
    for s, (gn, pn) in enumerate((("g", "p"), ("h", "r"), ("k", "s"))):
        grad(ip, P, gn, 2)
        ip.store_cells(P, [sym(pn + "0"), sym(pn + "1")])
        n = []

        def closure(ip, args, kw):
            n.append(1)
            return sym("loss0") - 1
        ip.call(ip.getattr(o, "step"), [PyFn(closure, "c"), sym("loss0")], {})
        out.append([c - sym(pn + str(i))
                    for i, c in enumerate(ip.cells(P))])
    return out


def gd(ck):
    w = where(ck.repo, "line_search_gd", "LineSearchGD.step")
    rule = "the search direction is the documented momentum update"
    lr, mu, wd, dmp = sym("lr"), sym("mu"), sym("wd"), sym("dmp")
    poly.set_bounds("wd", 0, None, lo_open=True)
    for name, kw in (("plain", {}), ("momentum", {"momentum": mu}),
                     ("damped", {"momentum": mu, "dampening": dmp}),
                     ("nesterov", {"momentum": mu, "nesterov": True}),
                     ("decay", {"weight_decay": wd}),
                     ("all", {"weight_decay": wd, "momentum": mu,
                              "nesterov": True})):
        def go():
            got = two_steps(ck, "line_search_gd", "LineSearchGD", kw)
            for i in range(2):
                buf = None
                for s, (gn, pn) in enumerate((("g", "p"), ("h", "r"),
                                              ("k", "s"))):
                    g = sym(gn + str(i))
                    if "weight_decay" in kw:
                        g = g + wd * sym(pn + str(i))
                    d = g
                    if "momentum" in kw:
                        buf = g if buf is None else mu * buf + \
                            (1 - D(kw.get("dampening", 0))) * g
                        d = g + mu * buf if kw.get("nesterov") else buf
                    ck.eq("gd.%s.step%d[%d]" % (name, s, i), got[s][i],
                          -lr * d, rule, w)
        ck.attempt("gd." + name, go, rule, w)


def adam(ck):
    w = where(ck.repo, "line_search_adam", "LineSearchAdam.step_direction")
    rule = "the search direction is the bias-corrected Adam update"
    lr, b1, b2, eps, wd = (sym(n) for n in ("lr", "b1", "b2", "eps", "wd"))
    poly.set_bounds("wd", 0, None, lo_open=True)
    for name, kw in (("plain", {}), ("decay", {"weight_decay": wd}),
                     ("amsgrad", {"amsgrad": True})):
        def go():
            a = {"betas": (b1, b2), "eps": eps}
            a.update(kw)
            got = two_steps(ck, "line_search_adam", "LineSearchAdam", a)
            for i in range(2):
                m, v, vm = D(0), D(0), D(0)
                for s, (gn, pn) in enumerate((("g", "p"), ("h", "r"),
                                              ("k", "s"))):
                    g = sym(gn + str(i))
                    if "weight_decay" in kw:
                        g = g + wd * sym(pn + str(i))
                    m = b1 * m + (1 - b1) * g
                    v = b2 * v + (1 - b2) * g * g
                    vm = poly.max2(vm, v) if s else v
                    vv = vm if kw.get("amsgrad") else v
                    c1, c2 = 1 - b1 ** (s + 1), 1 - b2 ** (s + 1)
                    ck.eq("adam.%s.step%d[%d]" % (name, s, i), got[s][i],
                          -(lr / c1) * m / (sqrt(vv) / sqrt(c2) + eps),
                          rule, w)
        ck.attempt("adam." + name, go, rule, w)
