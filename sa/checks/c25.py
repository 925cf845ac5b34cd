"""Learning dynamics with Lyapunov regularization: losses, roll-outs, loop."""
import itertools

from .. import poly, gurobi_model as gm, natives
from ..poly import Rat
from ..values import Arr, ExtV, ListV, AbsRaise
from .common import sym, where, F64
from . import blocks as bl
from . import c22
from .c11 import T
from .c22 import N, bound, snap, rowsof, same

TITLE = "Dynamics learning uses the documented losses, rollouts and samples"
EXPLANATION = (
    "The dynamics-learning classes are evaluated on opaque dynamics, "
    "Lyapunov, encoder and decoder networks, symbolic samples, weights and "
    "schedule values, with the Lyapunov programs and sample losses replaced "
    "by stand-ins that record their arguments and a solver whose answers are "
    "enumerated. Losses, samples kept, adversarial states, roll-outs, "
    "validation, optimiser steps and saved objects are compared, as normal "
    "forms or event orders, with their definitions.")
ASSUMPTIONS = ("real arithmetic; contracts of the programs and sample losses "
               "(C13); torch, gurobipy and pickle calls follow their "
               "documentation", )
MIN_OBS = 150
DL = "dynamics_learning"
Z, ONE = Rat.const(0), Rat.const(1)
ENC, DEC, WR = "sa.Encoder", "sa.Decoder", "sa.Writer"
for _q in (ENC, DEC):
    natives.EXT_BASES[_q] = ["torch.nn.Module"]
W, H, C = 3, 1, 1                     # image size, channels of one image
PIX = 2 * C * W * H
LOSS_W = ("lyap_pos_loss_at_samples_weight",
          "lyap_der_lo_loss_at_samples_weight",
          "lyap_der_up_loss_at_samples_weight", "lyap_pos_loss_weight",
          "lyap_der_lo_loss_weight", "lyap_der_up_loss_weight",
          "decoded_equilibrium_loss_weight")


def w(ck, q):
    return where(ck.repo, DL, q)


def _rows(ip, o, x, per):
    if not isinstance(x, Arr) or not x.shape or x.size % per or \
            x.size != per * x.shape[0]:
        raise AbsRaise("RuntimeError", "network of %d inputs applied to %s" %
                       (per, getattr(x, "shape", x)), ip.where())
    c = ip.cells(x)
    return [c[i * per:(i + 1) * per] for i in range(x.shape[0])]


def enc(k, row):
    """mean (k < N) and log-variance of the latent state of an image"""
    return poly.fn("enc", k, *row)


def dec(k, z):
    """pixel k of the image of a latent state, in (0, 1)"""
    return poly.fn("sigmoid", poly.fn("dec", k, *z))


@natives.method(ENC, "__call__", "x")
def _enc(ip, o, x):
    if "_fixed" in ip.attrs(o):
        return ip.attrs(o)["_fixed"](ip, o, x)
    r = _rows(ip, o, x, PIX)
    return tuple(ip.new_arr((len(r), N), [enc(j * N + k, row) for row in r
                                          for k in range(N)], "torch",
                            "float") for j in range(2))


@natives.method(DEC, "__call__", "x")
def _dec(ip, o, x):
    r = _rows(ip, o, x, N)
    return ip.new_arr((len(r), 2 * C, W, H), [
        dec(k, row) for row in r for k in range(PIX)], "torch", "float")


for _q in (ENC, DEC):
    natives.EXT_METHODS[(_q, "forward")] = natives.EXT_METHODS[
        (_q, "__call__")]


@natives.method(WR, "add_scalar", "tag value step=None")
def _add(ip, o, tag, value, step):
    v = value
    if isinstance(v, Arr):
        v = ip.cells(v)[0] if v.size == 1 else snap(ip, v)
    ip.attrs(o)["_world"].logs.append((ip.tostr(tag) if not isinstance(
        tag, str) else tag, v, step))


class World(c22.Setup):
    def __init__(self, ck, latent=False, R="given", eq=False, opts=None):
        poly.clear_bounds()
        self.ck, self.kind = ck, "relu"
        ip = self.ip = ck.interp()
        self.steps = 0
        self.opts, self.saved, self.loaders = [], [], []
        self.calls, self.solves, self.logs = [], [], []
        self.script = {}
        c22.data_hooks(ip, self)
        ip.hooks["ext:torch.optim.Adam"] = self.adam
        self.noise = []

        def randn(ip, a, k):
            if len(a) == 1 and isinstance(a[0], Arr):
                sh = a[0].shape
            elif len(a) == 1 and isinstance(a[0], (tuple, ListV)):
                sh = tuple(ip.iterate(a[0]))
            else:
                sh = tuple(a) or tuple(ip.iterate(k["size"]))
            m = 1
            for d in sh:
                m *= d
            new = [sym("nz%d" % (len(self.noise) + i)) for i in range(m)]
            self.noise += new
            return T(ip, new, sh)
        ip.hooks["ext:torch.randn"] = ip.hooks["ext:torch.randn_like"] = randn
        self.lo, self.xs, self.up = bl.box(range(N))
        self.xeq = T(ip, self.xs)
        self.dyn = bl.net(ip, N, N, "dyn")
        self.sys = ip.call(ip.get(
            "relu_system", "AutonomousReLUSystemGivenEquilibrium"), [
                F64, T(ip, self.lo), T(ip, self.up), self.dyn, self.xeq], {})
        self.phi = bl.net(ip, N, 1, "phi")
        self.lyap = ip.call(ip.get("lyapunov",
                                   "LyapunovDiscreteTimeHybridSystem"),
                            [self.sys, self.phi], {})
        self.stubs()
        self.solver()
        self.Rm = None if R is None else T(ip, [
            sym("r%d" % i) for i in range(N * N)], (N, N))
        o = {"dtype": F64, "V_lambda": sym("lam"), "V_eps_pos": sym("ep"),
             "V_eps_der_lo": sym("elo"), "V_eps_der_up": sym("eup"),
             "R": self.Rm, "lyap_loss_optimal": True,
             "lyap_loss_warmstart": False, "lyap_loss_freq": 0,
             "x_dim": N, "z_dim": N, "image_width": W, "image_height": H,
             "use_bce": False, "use_variational": False,
             "kl_weight_lo": sym("kl_lo"), "kl_weight_up": sym("kl_up"),
             "kl_weight_center_step": 4, "kl_weight_steps_lo_to_up": 10}
        for n in LOSS_W:
            o[n] = sym(n)
        for pre in ("x", "z"):
            for b in ("lo", "up"):
                o["%s_%s_stable" % (pre, b)] = T(ip, [
                    Rat.of(-1 if b == "lo" else 1)] * N)
        o.update(opts or {})
        self.opt = ip.call(ip.get(DL, "DynamicsLearningOptions"),
                           [ip.new_dict(o)], {})
        self.writer = ip.new_obj(ExtV(WR), {"_world": self})
        ip.hooks["ext:torch.utils.tensorboard.SummaryWriter"] = \
            lambda ip, a, k: self.writer
        self.latent = latent
        self.train_data = ip.new_list([])
        self.val_data = ip.new_list([])
        args = [self.train_data, self.val_data, self.lyap, self.opt]
        self.deq = None
        if latent:
            self.enc = ip.new_obj(ExtV(ENC), {"weight": natives.param(
                ip, (2, ), "encW")})
            self.dec = ip.new_obj(ExtV(DEC), {"weight": natives.param(
                ip, (2, ), "decW")})
            kw = {}
            if eq:
                self.deq = [sym("de%d" % i) for i in range(PIX)]
                kw["decoded_equilibrium"] = T(ip, self.deq, (2 * C, W, H))
            self.tr = ip.call(ip.get(DL, "LatentSpaceDynamicsLearning"),
                              args + [self.enc, self.dec], kw)
        else:
            self.tr = ip.call(ip.get(DL, "StateSpaceDynamicsLearning"), args,
                              {})

    def adam(self, ip, a, k):
        ps = []
        for g in ip.iterate(a[0]):
            if isinstance(g, Arr):
                ps.append(g)
                continue
            for n, v in ip.items(g).items():
                if n == "params":
                    ps += [v] if isinstance(v, Arr) else list(ip.iterate(v))
                elif n != "lr":
                    raise AbsRaise("TypeError", n, ip.where())
        o = ip.new_obj(ExtV(c22.OPT), {"_params": ps, "_world": self,
                                       "_kind": "Adam", "_kw": dict(k)})
        self.opts.append(o)
        return o

    def setopt(self, **kw):
        for k, v in kw.items():
            self.ip.call(self.ip.getattr(self.opt, "set_option"), [k, v], {})

    def parts(self):
        m = [self.phi, self.dyn] + ([self.enc, self.dec] if self.latent
                                    else [])
        return [p for x in m for p in natives.module_params(self.ip, x)]

    # the learned dynamics, the Lyapunov function of the documentation
    def f(self, x):
        a = [bl.phi("dyn", k, x) for k in range(N)]
        b = [bl.phi("dyn", k, self.xs) for k in range(N)]
        return [a[k] - b[k] + self.xs[k] for k in range(N)]

    def V(self, x):
        d = [a - b for a, b in zip(x, self.xs)]
        v = bl.phi("phi", 0, x) - bl.phi("phi", 0, self.xs)
        for i in range(N):
            e = d[i] if self.Rm is None else sum((
                sym("r%d" % (i * N + j)) * d[j] for j in range(N)), Z)
            v = v + sym("lam") * poly.absv(e)
        return v

    def images(self, n, pre, ch=2 * C):
        return [[sym("%s%d_%d" % (pre, b, k)) for k in range(ch * W * H)]
                for b in range(n)]

    def img(self, rows, ch=2 * C):
        return T(self.ip, sum(rows, []), (len(rows), ch, W, H))

    def etype(self, n):
        return self.ip.getattr(self.ip.get("lyapunov", "ConvergenceEps"), n)


def mean(v):
    return sum(v, Z) / Rat.of(len(v))


def mse(a, b):
    return mean([(x - y) * (x - y) for x, y in zip(a, b)])


def bce(pred, y):
    return mean([-(t * poly.fn("log", p) + (ONE - t) * poly.fn(
        "log", ONE - p)) for p, t in zip(pred, y)])


KINDS = (("pos", "lyap_pos", None, None), ("der", "lyap_der_lo", "ExpLower",
                                           "elo"),
         ("der", "lyap_der_up", "ExpUpper", "eup"))


# --------------------------------------------------- programs and their losses
def programs(ck):
    fn = "DynamicsLearning.lyapunov_loss"
    w_ = w(ck, fn)
    for optimal, warm, R in itertools.product((True, False), (True, False),
                                              ("given", None)):
        key = "lyapunov_loss.%d%d%s" % (optimal, warm, R)

        def go(optimal=optimal, warm=warm, R=R, key=key):
            S = World(ck, R=R)
            ip = S.ip
            S.setopt(lyap_loss_optimal=optimal, lyap_loss_warmstart=warm)
            kw = {k + "_threshold": sym("thr_" + k) for k in (
                "lyap_pos", "lyap_der_lo", "lyap_der_up")}
            last = [snap(ip, S.xeq)] * 3
            for turn in range(2):
                before = len(S.calls)
                ns = len(S.solves)
                r = ip.iterate(S.m("lyapunov_loss", **kw))
                ck.ob("%s.%d.three" % (key, turn), len(r) == 3, "one loss "
                      "per condition", str(len(r)), w_)
                c = [x for x in S.calls[before:] if x[0] in ("pos", "der")]
                got = [x[0] for x in c]
                ck.ob("%s.%d.programs" % (key, turn), sorted(got) == [
                    "der", "der", "pos"], "one program per condition",
                    str(got), w_)
                built = {}
                for tag, b, _ in c:
                    n = "lyap_pos" if tag == "pos" else {
                        id(S.etype("ExpLower")): 1}.get(0, None)
                    if tag == "der":
                        n = "lyap_der_lo" if b["eps_type"] == S.etype(
                            "ExpLower") else "lyap_der_up" \
                            if b["eps_type"] == S.etype("ExpUpper") else "?"
                    built[n] = b
                for i, (tag, n, et, e) in enumerate(KINDS):
                    b = built.get(n)
                    k2 = "%s.%d.%s" % (key, turn, n)
                    ck.ob(k2 + ".built", b is not None, "the program of "
                          "each condition is built", str(list(built)), w_)
                    if b is None:
                        continue
                    want = {"x_equilibrium": snap(ip, S.xeq),
                            "V_lambda": sym("lam"),
                            "R": snap(ip, S.Rm),
                            "V_epsilon" if tag == "pos" else "epsilon":
                            sym("ep") if tag == "pos" else sym(e),
                            "x_warmstart": last[i] if warm else None}
                    bad = [m for m in want if b.get(m) != want[m]]
                    ck.ob(k2 + ".args", not bad, "the program is that of "
                          "the options; the search starts at the last worst "
                          "state when asked for", str([(m, b.get(m), want[m])
                                                       for m in bad]), w_)
                # the stand-ins number the derivative programs in order
                order = [x for x in c if x[0] == "der"]
                for i, (tag, n, et, e) in enumerate(KINDS):
                    k2 = "%s.%d.%s" % (key, turn, n)
                    k = turn if tag == "pos" else 2 * turn + [
                        x[1]["eps_type"] == S.etype(et)
                        for x in order].index(True)
                    ck.eq(k2 + ".loss", bl.scalar(ip, r[i]), sym(
                        n + "_loss_weight") * sym("grad_%s%d_0" % (tag, k)),
                        "weight times the objective of the worst solution",
                        w_)
                    s = [x for x in S.solves[ns:] if x[0] == tag and
                         x[1] == k]
                    ck.ob(k2 + ".once", len(s) == 1, "each program is "
                          "solved once", "", w_)
                    if len(s) != 1:
                        continue
                    cb = s[0][3]
                    ck.ob(k2 + ".callback", (cb is None) == optimal,
                          "the search ends early unless the optimum is "
                          "asked for", "", w_)
                    if cb is not None:
                        terminates(ck, S, k2, cb, sym("thr_" + n), w_)
                    last[i] = ("arr", (N, ), tuple(S.adv(tag, k, 0)))
        ck.attempt(key, go, where=w_)

    for bad in itertools.product((False, True), repeat=3):
        key = "lyapunov_loss.active.%d%d%d" % bad

        def go(bad=bad, key=key):
            S = World(ck)
            ip = S.ip
            S.setopt(lyap_loss_optimal=False)
            exc = ip.get("gurobi_torch_mip", "IncorrectActiveConstraint")
            orig = dict(ip.hooks)
            for c in ("GurobiTorchMILP", "GurobiTorchMIP"):
                n = "gurobi_torch_mip.%s.compute_objective_from_mip_data_" \
                    "and_solution" % c

                def f(ip, a, k, g=orig[n]):
                    t = ip.attrs(ip.getattr(a[0], "gurobi_model"))["_tag"]
                    i = 0 if t[0] == "pos" else 1 + t[1]
                    if bad[i]:
                        e = ip.call(exc, [], {}) if not isinstance(
                            exc, ExtV) else None
                        raise AbsRaise("IncorrectActiveConstraint", "",
                                       ip.where(), e)
                    return g(ip, a, k)
                ip.hooks[n] = f
            r = ip.iterate(S.m("lyapunov_loss"))
            for i, (tag, n, _, _) in enumerate(KINDS):
                k = 0 if tag == "pos" else i - 1
                ck.eq(key + "." + n, bl.scalar(ip, r[i]), Z if bad[i] else
                      sym(n + "_loss_weight") * sym(
                          "grad_%s%d_0" % (tag, k)),
                      "a program stopped where its active constraints do "
                      "not determine the objective contributes nothing, the "
                      "others their loss", w_)
        ck.attempt(key, go, where=w_)

    fn = "DynamicsLearning.adversarial_samples"
    w2 = w(ck, fn)
    pools = ([3, 1], [3, -1], [-1], [2, 0, -1], [1, 2, 3])
    for optimal in (True, False):
        for p in range(len(pools)):
            key = "adversarial.%d.%d" % (optimal, p)

            def go(optimal=optimal, p=p, key=key):
                S = World(ck)
                ip = S.ip
                S.setopt(lyap_loss_optimal=optimal)
                pp = [pools[p], pools[(p + 1) % len(pools)],
                      pools[(p + 3) % len(pools)]]
                S.script[("mip", "pos")] = [("OPTIMAL", sym("o"), sym("o"),
                                             pp[0])]
                S.script[("mip", "der")] = [
                    ("OPTIMAL", sym("o"), sym("o"), q) for q in pp[1:]]
                r = ip.iterate(S.m("adversarial_samples"))
                order = [x[1]["eps_type"] for x in S.calls if x[0] == "der"]
                ck.ob(key + ".order", len(order) == 2, "one program per "
                      "condition", "", w2)
                for i, (tag, n, et, e) in enumerate(KINDS):
                    k = 0 if tag == "pos" else [
                        o == S.etype(et) for o in order].index(True)
                    pool = pp[0] if tag == "pos" else pp[1 + k]
                    want = [S.adv(tag, k, j) for j in range(len(pool))
                            if pool[j] > 0]
                    got = rowsof(ip, r[i]) if isinstance(r[i], Arr) else [
                        ip.cells(x) for x in ip.iterate(r[i])]
                    ck.ob("%s.%s" % (key, n), same(got, want), "the states "
                          "of the solutions that violate the condition",
                          "%s, expected %s" % (got, want), w2)
                    b = [x[1] for x in S.calls if x[0] == tag][k]
                    want = {"x_equilibrium": snap(ip, S.xeq),
                            "V_lambda": sym("lam"), "R": snap(ip, S.Rm),
                            "V_epsilon" if tag == "pos" else "epsilon":
                            sym("ep") if tag == "pos" else sym(e)}
                    bad = [m for m in want if b.get(m) != want[m]]
                    ck.ob("%s.%s.args" % (key, n), not bad, "the program is "
                          "that of the options", str(bad), w2)
                    s = [x for x in S.solves if x[0] == tag and x[1] == k]
                    ck.ob("%s.%s.callback" % (key, n), len(s) == 1 and (
                        s[0][3] is None) == optimal, "the search ends early "
                        "unless the optimum is asked for", "", w2)
            ck.attempt(key, go, where=w2)


def terminates(ck, S, key, cb, thr, w_):
    """the callback stops exactly above the threshold"""
    ip = S.ip
    poly.set_bounds("gap", 0, None, True)
    for above in (True, False):
        ip.grb_cb = {
            "MIPNODE_STATUS": gm.STATUS["OPTIMAL"],
            "MIPNODE_OBJBST": thr + sym("gap") if above else
            thr - sym("gap"), "MIPNODE_SOLCNT": 1}
        n = len(ip.events)
        m = ip.new_obj(ExtV(gm.MODEL), {})
        try:
            ip.call(cb, [m, ExtV("gurobipy.GRB.Callback.MIPNODE")], {})
        except Exception:
            return               # the callback itself is decided by C22
        ev = [e for e in ip.events[n:] if e[0] == "grb-terminate"]
        if above and not ev:
            return
        ck.ob("%s.threshold.%d" % (key, above), bool(ev) == above, "the "
              "search ends only above the given threshold", str(ev), w_)


# ----------------------------------------------------------- sample losses
POS = {"in": Rat.of(1) / Rat.of(2), "low": Rat.of(-2), "high": Rat.of(2),
       "lo": Rat.of(-1), "up": Rat.of(1)}


def sample_losses(ck):
    w_ = w(ck, "DynamicsLearning.lyapunov_loss_at_samples")
    cases = [(("in", "in"), ("in", "in")), (("in", "high"), ("in", "in")),
             (("low", "in"), ("in", "low"), ("up", "lo")),
             (("high", "low"), ), (("high", "high"), ("low", "low")),
             (("lo", "up"), ("in", "high"), ("in", "lo"))]
    for latent in (False, True):
        for var in ((False, True) if latent else (False, )):
            for k, case in enumerate(cases):
                key = "samples.%d%d.%d" % (latent, var, k)

                def go(latent=latent, var=var, case=case, key=key):
                    S = World(ck, latent)
                    ip = S.ip
                    S.setopt(use_variational=var)
                    pts = [[POS[c] for c in r] for r in case]
                    if latent:
                        xs = S.images(len(case), "im")
                        x = S.img(xs)
                        val = {}
                        for b, r in enumerate(pts):
                            for j in range(N):
                                val[(b, j)] = r[j]

                        def e(ip, o, x):
                            return (T(ip, [val[(b, j)] for b in range(
                                len(case)) for j in range(N)], (len(case),
                                                                N)),
                                    T(ip, [sym("lv%d_%d" % (b, j))
                                           for b in range(len(case))
                                           for j in range(N)],
                                      (len(case), N)))
                        # the encoder takes these values
                        d = ip.attrs(S.enc)
                        d["_fixed"] = e
                        if var:
                            # noise moves no sample across the box: zero
                            ip.hooks["ext:torch.randn"] = ip.hooks[
                                "ext:torch.randn_like"] = lambda ip, a, k: \
                                T(ip, [Z] * (N * len(case)),
                                  (len(case), N))
                    else:
                        x = T(ip, sum(pts, []), (len(case), N))
                    r = ip.iterate(S.m("lyapunov_loss_at_samples", x))
                    keep = [p for p, c in zip(pts, case)
                            if not {"low", "high"} & set(c)]
                    ck.ob(key + ".three", len(r) == 3, "one loss per "
                          "condition", "", w_)
                    if not keep:
                        for i in range(3):
                            ck.eq("%s.zero%d" % (key, i), bl.scalar(
                                ip, r[i]), Z, "no sample in the box: no "
                                "loss", w_)
                        ck.ob(key + ".uncalled", not [
                            c for c in S.calls if c[0] in (
                                "ploss", "dloss")], "no sample in the box: "
                            "no loss", "", w_)
                        return
                    c = [x for x in S.calls if x[0] in ("ploss", "dloss")]
                    ck.ob(key + ".calls", sorted(x[0] for x in c) == [
                        "dloss", "dloss", "ploss"], "one loss per condition",
                        "", w_)
                    flat = ("arr", (len(keep), N), tuple(sum(keep, [])))
                    nxt = ("arr", (len(keep), N), tuple(sum((
                        S.f(p) for p in keep), [])))
                    seen = []
                    nd = 0
                    for tag, b, _ in c:
                        if tag == "ploss":
                            n, et, e = "lyap_pos", None, "ep"
                            v = sym("ploss0")
                            want = {"state_samples": flat, "epsilon":
                                    sym("ep")}
                        else:
                            lower = b["eps_type"] == S.etype("ExpLower")
                            n = "lyap_der_lo" if lower else "lyap_der_up"
                            v = sym("dloss%d" % nd)
                            nd += 1
                            want = {"state_samples": flat, "state_next": nxt,
                                    "epsilon": sym("elo" if lower else
                                                   "eup"),
                                    "eps_type": S.etype(
                                        "ExpLower" if lower else
                                        "ExpUpper")}
                        seen.append(n)
                        want.update({"V_lambda": sym("lam"),
                                     "R": snap(ip, S.Rm),
                                     "x_equilibrium": snap(ip, S.xeq)})
                        bad = [m for m in want if not eqv(b.get(m), want[m])]
                        ck.ob("%s.%s.args" % (key, n), not bad, "losses at "
                              "the samples in the box and their next states "
                              "under the learned dynamics", str([
                                  (m, b.get(m), want[m]) for m in bad]), w_)
                        i = ("lyap_pos", "lyap_der_lo",
                             "lyap_der_up").index(n)
                        ck.eq("%s.%s.loss" % (key, n), bl.scalar(ip, r[i]),
                              sym(n + "_loss_at_samples_weight") * v,
                              "weight times the sample loss", w_)
                    ck.ob(key + ".conditions", sorted(seen) == [
                        "lyap_der_lo", "lyap_der_up", "lyap_pos"], "every "
                        "condition has its loss", str(seen), w_)
                ck.attempt(key, go, where=w_)


def eqv(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(eqv(x, y) for x, y in zip(a, b))
    if isinstance(a, Rat) or isinstance(b, Rat):
        try:
            return Rat.of(a) == Rat.of(b)
        except TypeError:
            return False
    return a == b


# ---------------------------------------------------------- dynamics losses
def dynamics_losses(ck):
    w_ = w(ck, "StateSpaceDynamicsLearning.dynamics_loss")
    for n in (1, 3):
        def go(n=n):
            S = World(ck)
            ip = S.ip
            x = [[sym("x%d_%d" % (b, j)) for j in range(N)]
                 for b in range(n)]
            y = [[sym("y%d_%d" % (b, j)) for j in range(N)]
                 for b in range(n)]
            r = S.m("dynamics_loss", S.batch(x), S.batch(y))
            ck.eq("dynamics.state.%d" % n, bl.scalar(ip, r), mse(
                sum((S.f(p) for p in x), []), sum(y, [])), "mean squared "
                "error of the predicted next states", w_)
        ck.attempt("dynamics.state.%d" % n, go, where=w_)

    w2 = w(ck, "LatentSpaceDynamicsLearning.dynamics_loss")
    for n, var, useb, full, eq, it in itertools.product(
            (1, 2), (False, True), (False, True), (False, True),
            (False, True), (0, 7)):
        if it and not var:
            continue
        key = "dynamics.latent.%d%d%d%d%d%d" % (n, var, useb, full, eq, it)

        def go(n=n, var=var, useb=useb, full=full, eq=eq, it=it, key=key):
            S = World(ck, True, eq=eq)
            ip = S.ip
            S.setopt(use_variational=var, use_bce=useb)
            ip.setattr(S.tr, "n_iter", it)
            x = S.images(n, "p")
            y = S.images(n, "q", 2 * C if full else C)
            r = S.m("dynamics_loss", S.img(x), S.img(y, 2 * C if full
                                                     else C))
            rec = (lambda a, p: bce(p, a)) if useb else mse
            want_x, want_n, kl = [], [], []
            ck.ob(key + ".noise", len(S.noise) == (n * N if var else 0),
                  "one noise sample per latent entry", str(S.noise), w2)
            if var and len(S.noise) != n * N:
                return

            def noise(b, j):
                return S.noise[b * N + j]
            for b in range(n):
                mu = [enc(j, x[b]) for j in range(N)]
                lv = [enc(N + j, x[b]) for j in range(N)]
                z = mu
                if var:
                    z = [mu[j] + noise(b, j) * poly.fn(
                        "exp", lv[j] / Rat.of(2)) for j in range(N)]
                    kl.append(sum(((mu[j] * mu[j] + poly.fn("exp", lv[j]) -
                                    lv[j] - ONE) / Rat.of(2)
                                   for j in range(N)), Z))
                want_x += [dec(k, z) for k in range(PIX)]
                want_n += [dec(k, S.f(z)) for k in range(PIX)]
            half = PIX // 2
            tgt = sum((y[b] if full else x[b][half:] + y[b]
                       for b in range(n)), [])
            want = rec(sum(x, []), want_x) + rec(tgt, want_n)
            if var:
                wt = sym("kl_lo") + (sym("kl_up") - sym("kl_lo")) * poly.fn(
                    "sigmoid", Rat.of(it - 4) / Rat.of(10))
                want = want + wt * mean(kl)
            if eq:
                want = want + sym("decoded_equilibrium_loss_weight") * rec(
                    S.deq, [dec(k, S.xs) for k in range(PIX)])
            ck.eq(key, bl.scalar(ip, r), want, "reconstruction of the "
                  "current and of the next images (with the last image of "
                  "the current pair in front), the scheduled KL divergence, "
                  "the decoded equilibrium", w2)
        ck.attempt(key, go, where=w2)


# ----------------------------------------------------------------- roll-outs
def rollouts(ck):
    w_ = w(ck, "StateSpaceDynamicsLearning.rollout")
    for n, R in ((0, "given"), (1, None), (3, "given")):
        def go(n=n, R=R):
            S = World(ck, R=R)
            ip = S.ip
            key = "rollout.state.%d" % n
            x = [sym("x%d" % j) for j in range(N)]
            xi = T(ip, x)
            tr, V = ip.iterate(S.m("rollout", xi, n))
            want = [x]
            for _ in range(n):
                want.append(S.f(want[-1]))
            ck.ob(key + ".shape", tr.shape == (n + 1, N) and V.shape ==
                  (n + 1, ), "one row per step", str((tr.shape, V.shape)),
                  w_)
            ck.eq_arr(ip, key + ".x", tr, sum(want, []), "each state is the "
                      "learned next state of the one before", w_)
            ck.eq_arr(ip, key + ".V", V, [S.V(p) for p in want],
                      "the Lyapunov value of each state", w_)
            ck.eq_arr(ip, key + ".start", xi, x, "the start state is left "
                      "as it was", w_)
            y = [[sym("y%d_%d" % (b, j)) for j in range(N)]
                 for b in range(n + 1)]
            ls = S.m("rollout_loss", S.batch(y))
            p = [y[0]]
            for _ in range(n):
                p.append(S.f(p[-1]))
            ck.eq_arr(ip, key + ".loss", ls, [mse(a, b) for a, b in zip(
                y, p)], "per step, the mean squared error of the roll-out "
                "from the first state", w_)
        ck.attempt("rollout.state.%d" % n, go, where=w_)

    w2 = w(ck, "LatentSpaceDynamicsLearning.rollout")
    for n, mid, useb in itertools.product((0, 1, 2), (False, True),
                                          (False, True)):
        key = "rollout.latent.%d%d%d" % (n, mid, useb)

        def go(n=n, mid=mid, useb=useb, key=key):
            S = World(ck, True)
            ip = S.ip
            S.setopt(use_bce=useb)
            half = PIX // 2

            def roll(im):
                a, b = im[:half], im[half:]
                pics = [a, b]
                zs = [[enc(j, im) for j in range(N)]]
                for k in range(n):
                    z = zs[-1]
                    if mid:
                        p = pics[-2] + pics[-1]
                        z = [enc(j, p) for j in range(N)]
                    z = S.f(z)
                    zs.append(z)
                    pics.append([dec(i, z) for i in range(half, PIX)])
                return pics, zs
            im = S.images(1, "im")[0]
            xi = T(ip, im, (2 * C, W, H))
            tr, V, zt = ip.iterate(S.m("rollout", xi, n,
                                       decode_intermediate=mid))
            pics, zs = roll(im)
            ck.ob(key + ".shape", tr.shape == (n + 2, C, W, H) and V.shape ==
                  (n + 1, ) and zt.shape == (n + 1, N), "one row per step",
                  str((tr.shape, V.shape, zt.shape)), w2)
            ck.eq_arr(ip, key + ".x", tr, sum(pics, []), "the two given "
                      "images, then the decoded next ones", w2)
            ck.eq_arr(ip, key + ".z", zt, sum(zs, []), "the latent states",
                      w2)
            ck.eq_arr(ip, key + ".V", V, [S.V(z) for z in zs],
                      "the Lyapunov value of each latent state", w2)
            ck.eq_arr(ip, key + ".start", xi, im, "the start images are "
                      "left as they were", w2)
            y = S.images(n + 2, "y", C)
            ls = S.m("rollout_loss", S.img(y, C), decode_intermediate=mid)
            pics, _ = roll(y[0] + y[1])
            ck.eq_arr(ip, key + ".loss", ls, [
                bce(p, t) if useb else mse(p, t) for p, t in zip(pics, y)],
                "per step, the reconstruction loss of the roll-out from the "
                "first two images", w2)
        ck.attempt(key, go, where=w2)

    w3 = w(ck, "DynamicsLearning.rollout_validation")
    for latent, m in itertools.product((False, True), (1, 2, 3)):
        key = "validation.%d%d" % (latent, m)

        def go(latent=latent, m=m, key=key):
            S = World(ck, latent)
            ip = S.ip
            before = [tuple(ip.cells(p)) for p in S.parts()]
            if latent:
                data = [S.img(S.images(3, "r%d" % k, C), C)
                        for k in range(m)]
            else:
                data = [S.batch([[sym("r%d_%d_%d" % (k, b, j))
                                  for j in range(N)] for b in range(3)])
                        for k in range(m)]
            ls = [ip.cells(S.m("rollout_loss", d)) for d in data]
            r = S.m("rollout_validation", ip.new_list(data))
            ck.eq_arr(ip, key, r, [mean([q[i] for q in ls])
                                   for i in range(3)], "mean, over the "
                      "roll-outs, of the loss of each step", w3)
            ck.ob(key + ".params", before == [tuple(ip.cells(p))
                                              for p in S.parts()],
                  "validation trains nothing", "", w3)
        ck.attempt(key, go, where=w3)


# ----------------------------------------------------------------- training
def events(S):
    return [e[0] for e in S.ip.events if e[0] in (
        "opt-zero", "backward", "opt-step", "zero_grad")]


def loop(ck):
    w_ = w(ck, "DynamicsLearning.train")
    for latent, freq, epochs, nb, validate, only in (
            (False, 0, 1, 1, False, False), (False, 0, 2, 2, True, False),
            (False, 1, 1, 2, True, False), (False, 2, 2, 3, False, False),
            (False, 2, 1, 2, True, True), (True, 0, 1, 1, True, False),
            (True, 2, 2, 1, True, False), (True, 1, 1, 1, False, True),
            (False, 3, 2, 2, True, None), (False, 2, 0, 2, True, False)):
        key = "train.%d.f%d.e%d.b%d.v%d.%s" % (latent, freq, epochs, nb,
                                               validate, only)

        def go(latent=latent, freq=freq, epochs=epochs, nb=nb,
               validate=validate, only=only, key=key):
            S = World(ck, latent)
            ip = S.ip
            S.setopt(lyap_loss_freq=freq)
            for i in range(3):
                n = KINDS[i][1]
            cls = "LatentSpace" if latent else "StateSpace"
            log = []
            hk = ip.hooks

            def dynl(ip, a, k):
                a = list(bound(ip, "self x x_next", a, k, "dyn").values())
                i = len([x for x in log if x[0] == "dyn"])
                log.append(("dyn", a[1], a[2], S.steps))
                return T(ip, [sym("dynl%d" % i)], ())
            hk["%s.%sDynamicsLearning.dynamics_loss" % (DL, cls)] = dynl

            def samp(ip, a, k):
                a = list(bound(ip, "self state_samples", a, k,
                               "samples").values())
                i = len([x for x in log if x[0] == "samp"])
                log.append(("samp", a[1], S.steps))
                return tuple(T(ip, [sym("s%d_%d" % (i, j))], ())
                             for j in range(3))
            hk["%s.%sDynamicsLearning.lyapunov_loss_at_samples" % (
                DL, cls)] = samp

            def lyl(ip, a, k):
                b = bound(ip, "self lyap_pos_threshold=0 "
                          "lyap_der_lo_threshold=0 lyap_der_up_threshold=0",
                          a, k, "lyapunov_loss")
                i = len([x for x in log if x[0] == "mip"])
                log.append(("mip", b, S.steps))
                r = tuple(T(ip, [sym("m%d_%d" % (i, j))], ())
                          for j in range(3))
                for t in r:
                    ip.amodel(t)["requires_grad"] = True
                return r
            hk[DL + ".DynamicsLearning.lyapunov_loss"] = lyl

            def data(pre, n, sizes):
                out = []
                for b in range(n):
                    k = sizes[b % len(sizes)]
                    if latent:
                        p = (S.img(S.images(k, "%sx%d" % (pre, b))),
                             S.img(S.images(k, "%sy%d" % (pre, b), C), C))
                    else:
                        p = tuple(S.batch([[sym("%s%s%d_%d_%d" % (
                            pre, c, b, i, j)) for j in range(N)]
                            for i in range(k)]) for c in "xy")
                    out.append(p)
                return out
            tr = data("t", nb, (2, ))
            va = data("v", 2, (2, 1))
            ip.setattr(S.tr, "train_dataloader", ip.new_list(tr))
            ip.setattr(S.tr, "validation_dataloader", ip.new_list(va))
            if only is not None:
                S.m("reset_optimizer", **({"lyapunov_only": True} if only
                                          else {}))
            p0 = {p.addr: tuple(ip.cells(p)) for p in S.parts()}
            S.m("train", epochs, validate=validate)
            # the optimiser
            ck.ob(key + ".optimizer", len(S.opts) == 1, "one optimiser is "
                  "used", str(len(S.opts)), w_)
            want = natives.module_params(ip, S.phi) if only else S.parts()
            d = ip.attrs(S.opts[0])
            ck.ob(key + ".params", sorted(p.addr for p in d["_params"]) ==
                  sorted(p.addr for p in want), "it trains every network, "
                  "or the Lyapunov network only", "", w_)
            # the course of the steps, the losses of each
            it = 0
            di = si = mi = st = 0
            exp_back = []
            steps = []
            for e in range(epochs):
                for b in range(nb):
                    exp_back.append(sum((sym("s%d_%d" % (si, j))
                                         for j in range(3)),
                                        sym("dynl%d" % di)))
                    steps.append(("dyn", tr[b], st))
                    di, si, st = di + 1, si + 1, st + 1
                    if freq > 0 and it % freq == 0:
                        exp_back.append(sum((sym("m%d_%d" % (mi, j))
                                             for j in range(3)), Z))
                        steps.append(("mip", si, st, tr[b]))
                        si, mi, st = si + 1, mi + 1, st + 1
                    it += 1
                if validate:
                    for _ in va:
                        di, si = di + 1, si + 1
            back = [ev for ev in ip.events if ev[0] == "backward"]
            ck.ob(key + ".losses", len(back) == len(exp_back), "one loss "
                  "per step", "%d, expected %d" % (len(back),
                                                   len(exp_back)), w_)
            for k, (ev, v) in enumerate(zip(back, exp_back)):
                ck.eq("%s.loss%d" % (key, k), bl.scalar(ip, ev[2]), v,
                      "dynamics loss + sample losses; or the sum of the "
                      "program losses", w_)
            ck.ob(key + ".steps", S.steps == st, "one step per batch, one "
                  "more every lyap_loss_freq batches", "%d, expected %d" % (
                      S.steps, st), w_)
            clean, nback, ok = False, 0, True
            for n in events(S):
                if n == "opt-zero":
                    clean, nback = True, 0
                elif n == "backward":
                    nback += 1
                    ok = ok and clean
                elif n == "opt-step":
                    ok = ok and clean and nback == 1
                    clean, nback = False, 0
            ck.ob(key + ".order", ok, "every step uses the gradient of one "
                  "loss, from zero", str(events(S)), w_)
            dl = [x for x in log if x[0] == "dyn"]
            sl = [x for x in log if x[0] == "samp"]
            ml = [x for x in log if x[0] == "mip"]
            td = [x for x in dl if any(x[1].addr == t[0].addr for t in tr)]
            exp = [x for x in steps if x[0] == "dyn"]
            ck.ob(key + ".batches", len(td) == len(exp) and all(
                g[1].addr == e[1][0].addr and g[2].addr == e[1][1].addr and
                g[3] == e[2] for g, e in zip(td, exp)), "each batch is "
                "learned once per epoch, with the parameters of the time",
                "", w_)
            exp = [x for x in steps if x[0] == "mip"]
            ok = len(ml) == len(exp)
            for g, e in zip(ml, exp):
                ok = ok and g[2] == e[2] and all(eqv(g[1][
                    n + "_threshold"], sym("s%d_%d" % (e[1], j)))
                    for j, n in enumerate(("lyap_pos", "lyap_der_lo",
                                           "lyap_der_up")))
            ck.ob(key + ".thresholds", ok, "programs are solved with the "
                  "current parameters, down to the loss at the samples of "
                  "the batch", str(ml)[:300], w_)
            # validation trains nothing (steps counted above), is logged
            if validate and epochs:
                lg = {}
                for tag, v, step in S.logs:
                    if "validate" in tag:
                        lg.setdefault(tag, []).append((v, step))
                vd = [i for i, x in enumerate(dl) if any(
                    x[1].addr == t[0].addr and x[2].addr == t[1].addr
                    for t in va)]
                ck.ob(key + ".validated", len(vd) == epochs * len(va),
                      "the validation data is used every epoch", str(vd),
                      w_)
                vs = [i for i, x in enumerate(sl) if any(
                    x[1].addr == t[0].addr for t in va)]
                for e in range(epochs):
                    i = vd[e * 2:e * 2 + 2]
                    j = vs[e * 2:e * 2 + 2]
                    if len(i) != 2 or len(j) != 2:
                        break
                    ws = [Rat.of(2) / Rat.of(3), ONE / Rat.of(3)]
                    exp = {"Dynamics": sum((ws[a] * sym("dynl%d" % i[a])
                                            for a in range(2)), Z)}
                    for q, n in enumerate(("LyapunovPosSamples",
                                           "LyapunovDerSamples/low",
                                           "LyapunovDerSamples/up")):
                        exp[n] = sum((ws[a] * sym("s%d_%d" % (j[a], q))
                                      for a in range(2)), Z)
                    for n, v in exp.items():
                        g = lg.get(n + "/validate", [])
                        if e >= len(g):
                            continue          # names are not documented
                        ck.eq("%s.val%d.%s" % (key, e, n), g[e][0], v,
                              "validation losses are means over the "
                              "validation samples", w_)
            if only:
                keep = [p for p in S.parts() if p.addr not in {
                    q.addr for q in want}]
                ck.ob(key + ".only", all(tuple(ip.cells(p)) == p0[p.addr]
                                         for p in keep), "only the Lyapunov "
                      "network is trained", "", w_)
        ck.attempt(key, go, where=w_)


def saving(ck):
    """networks are saved every save_rate epochs and at the end"""
    w_ = where(ck.repo, DL, "DynamicsLearning.train")
    for rate, path, epochs in ((0, None, 2), (0, "p", 2), (1, "p", 2),
                               (2, "p", 4)):
        key = "saving.%d.%s.%d" % (rate, path, epochs)

        def go(rate=rate, path=path, epochs=epochs, key=key):
            S = World(ck)
            ip, saved = S.ip, []
            bat = [tuple(S.batch([[sym("%s%d_%d" % (c, i, j))
                                   for j in range(N)] for i in range(2)])
                         for c in "xy")]
            ip.setattr(S.tr, "train_dataloader", ip.new_list(bat))
            ip.setattr(S.tr, "validation_dataloader", ip.new_list([]))

            ip.hooks[DL + ".StateSpaceDynamicsLearning."
                     "lyapunov_loss_at_samples"] = ip.hooks[
                DL + ".DynamicsLearning.lyapunov_loss_at_samples"] = \
                lambda ip, a, k: tuple(T(ip, [sym("s%d" % j)], ())
                                       for j in range(3))

            def save(ip, a, k):
                saved.append((norm1(ip, a, k), S.steps))
            ip.hooks[DL + ".StateSpaceDynamicsLearning.save"] = save
            S.m("train", epochs, validate=False, save_rate=rate,
                save_path=path)
            ck.ob(key + ".path", all(p == path for p, _ in saved),
                  "saved where asked for", str(saved), w_)
            ck.ob(key + ".end", bool(saved) == (path is not None) and (
                path is None or saved[-1][1] == S.steps == epochs),
                "saved at the end of training if there is a path",
                str(saved), w_)
            mid = [s_ for _, s_ in saved[:-1]]
            ck.ob(key + ".rate", len(mid) == (epochs // rate if rate else 0)
                  and all(b - a == rate for a, b in zip(mid, mid[1:])),
                  "saved every save_rate epochs", str(mid), w_)
        ck.attempt(key, go, where=w_)


def norm1(ip, a, k):
    return bound(ip, "self save_path", a, k, "save")["save_path"]


# ---------------------------------------------------------------- save, load
def persist(ck):
    FILE = "sa.File"
    for latent, there in itertools.product((False, True), (False, True)):
        cls = "LatentSpace" if latent else "StateSpace"
        cls += "DynamicsLearning"
        w_ = w(ck, cls + ".save")
        key = "save.%s.%s" % (cls, "old" if there else "new")

        def go(latent=latent, cls=cls, key=key, w_=w_, there=there):
            S = World(ck, latent, eq=latent)
            ip = S.ip
            disk, dirs = {}, {"dir"} if there else set()
            text = lambda v: v if isinstance(v, str) else ip.tostr(v)

            def isdir(ip, a, k):
                return text(a[0]) in dirs or text(a[0]) in disk

            def mkdir(ip, a, k):
                ok = k.get("exist_ok", a[2] if len(a) > 2 else False)
                if text(a[0]) in dirs and not ip.truth(ok):
                    raise AbsRaise("FileExistsError", text(a[0]), ip.where())
                dirs.add(text(a[0]))

            def open_(ip, a, k):
                name = a[0] if isinstance(a[0], str) else ip.tostr(a[0])
                mode = a[1] if len(a) > 1 else k.get("mode", "r")
                if "w" in mode:
                    if "/" in name and name.rsplit("/", 1)[0] not in dirs:
                        raise AbsRaise("FileNotFoundError", name, ip.where())
                    disk[name] = []
                elif name not in disk:
                    raise AbsRaise("FileNotFoundError", name, ip.where())
                return ip.new_obj(ExtV(FILE), {"_n": name, "_p": 0,
                                               "_m": mode})

            def dump(ip, a, k):
                d = ip.attrs(a[1])
                if "wb" not in d["_m"] and "w+b" not in d["_m"]:
                    raise AbsRaise("TypeError", "text file", ip.where())
                disk[d["_n"]].append(a[0])

            def load(ip, a, k):
                d = ip.attrs(a[0])
                if "b" not in d["_m"]:
                    raise AbsRaise("TypeError", "text file", ip.where())
                if d["_p"] >= len(disk[d["_n"]]):
                    raise AbsRaise("EOFError", "Ran out of input",
                                   ip.where())
                d["_p"] += 1
                return disk[d["_n"]][d["_p"] - 1]
            ip.hooks["ext:pickle.dump"] = dump
            ip.hooks["ext:pickle.load"] = load
            ip.hooks["ext:os.path.exists"] = isdir
            ip.hooks["ext:os.path.isdir"] = isdir
            ip.hooks["ext:os.makedirs"] = mkdir
            ip.hooks["ext:os.mkdir"] = mkdir
            ip.hooks["ext:os.path.join"] = lambda ip, a, k: "/".join(a)
            from ..values import PyFn
            old = natives.BUILTINS["open"]
            natives.BUILTINS["open"] = PyFn(open_, "open")
            try:
                S.m("save", "dir")
                r = ip.call(ip.getattr(ip.get(DL, cls), "load"), [
                    "dir", S.train_data, S.val_data, S.opt], {})
            finally:
                natives.BUILTINS["open"] = old
            names = ["lyap", "train_dataloader", "validation_dataloader",
                     "opt"]
            if latent:
                names += ["encoder", "decoder"]
            for n in names:
                a, b = ip.getattr(S.tr, n), ip.getattr(r, n)
                ck.ob("%s.%s" % (key, n), a == b or getattr(
                    a, "addr", None) == getattr(b, "addr", 0), "a learner "
                    "that is saved and loaded has the same parts", "%r %r" %
                    (a, b), w_)
            if latent:
                ck.eq_arr(ip, key + ".equilibrium", ip.getattr(
                    r, "decoded_equilibrium"), S.deq, "a learner that is "
                    "saved and loaded has the same parts", w_)
        ck.attempt(key, go, where=w_)


def check(ck):
    programs(ck)
    sample_losses(ck)
    dynamics_losses(ck)
    rollouts(ck)
    loop(ck)
    persist(ck)
    saving(ck)
