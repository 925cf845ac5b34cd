"""Training loops: what is certified, learned from, trained and restored."""
import itertools

from .. import poly, gurobi_model as gm, natives, polytope as pt, mic
from ..poly import Rat
from ..values import Arr, ExtV, ObjV, PyFn, AbsRaise, Undecided
from .common import sym, where, F64
from . import blocks as bl
from .c11 import T, INF, new_mip
from .c15 import newvars

TITLE = "Training certifies, learns and restores what it claims"
EXPLANATION = (
    "Trainer, its verification programs, losses and loops are evaluated on a "
    "stand-in Lyapunov function (or barrier) whose programs, sample losses "
    "and solver answers are symbols or enumerated cases: every solver status, "
    "pools of several solutions, samples, weights, early termination, warm "
    "starts, autonomous, hybrid and feedback systems. The verdicts, "
    "adversarial states, losses, pools, optimiser steps and restored "
    "parameters are compared with their definitions.")
ASSUMPTIONS = ("real arithmetic; contracts of the programs and sample losses "
               "(C13, C14); torch, gurobipy and wandb calls follow their "
               "documentation", )
MIN_OBS = 300
TR = "train_lyapunov_barrier"
LY = "lyapunov.LyapunovHybridLinearSystem."
LD = "lyapunov.LyapunovDiscreteTimeHybridSystem."
Z = Rat.const(0)
N, NU = 2, 1
MAX, MIN = -1, 1
HAS_SOL = ("OPTIMAL", "TIME_LIMIT", "INTERRUPTED", "SOLUTION_LIMIT",
           "NODE_LIMIT", "SUBOPTIMAL", "USER_OBJ_LIMIT", "ITERATION_LIMIT")
DS = "sa.TensorDataset"
OPT = "sa.Optimizer"


def w(ck, q):
    return where(ck.repo, TR, q)


def q(n):
    return Rat.of(n)


# ------------------------------------------------------------- data loading
def _rows(ip, t, idx):
    c = ip.cells(t)
    n = len(c) // max(t.shape[0], 1) if t.shape[0] else 0
    return ip.new_arr((len(idx), ) + tuple(t.shape[1:]),
                      [c[i * n + k] for i in idx for k in range(n)],
                      "torch", "float")


@natives.method(DS, "__len__", "")
def _ds_len(ip, o):
    return len(ip.attrs(o)["_idx"])


@natives.method(DS, "__getitem__", "k")
def _ds_get(ip, o, k):
    d = ip.attrs(o)
    if isinstance(k, int):
        return tuple(ip.getitem(t, d["_idx"][k]) for t in d["_t"])
    return tuple(_rows(ip, t, d["_idx"]) for t in d["_t"])


@natives.method(OPT, "zero_grad", "set_to_none=True")
def _zero(ip, o, s):
    ip.events.append(("opt-zero", ip.where(), o))


@natives.method(OPT, "step", "closure=None")
def _step(ip, o, c):
    d = ip.attrs(o)
    n = d["_world"].steps = d["_world"].steps + 1
    ip.events.append(("opt-step", ip.where(), o))
    for p in d["_params"]:
        ip.store_cells(p, [c + sym("d%d_%d_%d" % (n, p.addr, i))
                           for i, c in enumerate(ip.cells(p))])


def data_hooks(ip, S):
    def ds(ip, a, k):
        n = {t.shape[0] for t in a}
        if len(n) != 1:
            raise AbsRaise("AssertionError", "Size mismatch", ip.where())
        return ip.new_obj(ExtV(DS), {"_t": tuple(a),
                                     "_idx": list(range(n.pop()))})

    def split(ip, a, k):
        d = ip.attrs(a[0])
        n = [x for x in ip.iterate(a[1])]
        idx = list(reversed(d["_idx"]))      # some permutation
        if sum(n) != len(idx):
            raise AbsRaise("ValueError", "lengths", ip.where())
        out = []
        for m in n:
            out.append(ip.new_obj(ExtV(DS), {"_t": d["_t"],
                                             "_idx": idx[:m]}))
            idx = idx[m:]
        return ip.new_list(out)

    def dl(ip, a, k):
        bs = a[1] if len(a) > 1 else k.get("batch_size", 1)
        if not isinstance(bs, int):
            bs = int(Rat.of(bs).const_value())
        if bs <= 0:
            raise AbsRaise("ValueError", "batch_size", ip.where())
        d = ip.attrs(a[0])
        ix = d["_idx"]
        S.loaders.append((a[0], bs))
        return ip.new_list([ip.new_list([
            _rows(ip, t, ix[i:i + bs]) for t in d["_t"]])
            for i in range(0, len(ix), bs)])

    def opt(name):
        def f(ip, a, k):
            ps = ip.iterate(a[0])
            for p in ps:
                if not isinstance(p, Arr):
                    raise AbsRaise("TypeError", "optimizer of %r" % (p, ),
                                   ip.where())
            o = ip.new_obj(ExtV(OPT), {"_params": ps, "_world": S,
                                       "_kind": name, "_kw": dict(k)})
            if len(a) > 1:
                ip.attrs(o)["_kw"]["lr"] = a[1]
            S.opts.append(o)
            return o
        return f
    H = ip.hooks
    H["ext:torch.utils.data.TensorDataset"] = ds
    H["ext:torch.utils.data.random_split"] = split
    H["ext:torch.utils.data.DataLoader"] = dl
    H["ext:torch.optim.Adam"] = opt("Adam")
    H["ext:torch.optim.SGD"] = opt("SGD")

    def save(ip, a, k):
        S.saved.append((a[0], a[1]))
    H["ext:torch.save"] = save
    for n in ("wandb.log", "wandb.config.update", "wandb.init"):
        H["ext:" + n] = lambda ip, a, k: None


def bound(ip, spec, args, kw, name):
    ps = natives.parse_spec(spec)
    return dict(zip([n[1][0] for n in ps], natives.bind(
        ip, ps, args, kw, name)))


def snap(ip, v):
    """value of an argument at the time of the call"""
    if isinstance(v, Arr):
        return ("arr", tuple(v.shape), tuple(ip.cells(v)))
    return v


class Setup:
    """a trainer over stand-ins; kind: relu, hybrid, feedback, linear"""
    def __init__(self, ck, kind="relu", R="free", barrier=False):
        poly.clear_bounds()
        self.ck, self.kind = ck, kind
        ip = self.ip = ck.interp()
        self.steps = 0
        self.opts, self.saved, self.loaders = [], [], []
        self.calls, self.solves = [], []
        self.script = {}
        data_hooks(ip, self)
        self.lo, self.xs, self.up = bl.box(range(N))
        self.xeq = T(ip, self.xs)
        if kind == "hybrid":
            self.sys = ip.call(ip.get("hybrid_linear_system",
                                      "AutonomousHybridLinearSystem"),
                               [N, F64], {})
            for k in range(2):
                ip.call(ip.getattr(self.sys, "add_mode"), [
                    T(ip, [sym("A%d%d%d" % (k, i, j)) for i in range(N)
                           for j in range(N)], (N, N)),
                    T(ip, [sym("g%d%d" % (k, i)) for i in range(N)]),
                    T(ip, [sym("P%d%d%d" % (k, i, j)) for i in range(3)
                           for j in range(N)], (3, N)),
                    T(ip, [sym("q%d%d" % (k, i)) for i in range(3)])], {
                        "check_polyhedron_bounded": False})
        elif kind in ("feedback", "linear"):
            ulo, self.ueq, uup = bl.box(range(NU), pre="u")
            dyn = bl.net(ip, N + NU, N, "dyn")
            fwd = ip.call(ip.get("relu_system", "ReLUSystem"), [
                F64, T(ip, self.lo), T(ip, self.up), T(ip, ulo), T(ip, uup),
                dyn], {})
            if kind == "linear":
                self.ctl = ip.new_obj(ExtV("torch.nn.Linear"))
                d = ip.attrs(self.ctl)
                d["in_features"], d["out_features"] = N, NU
                for n, s in (("weight", (NU, N)), ("bias", (NU, ))):
                    a = T(ip, [sym("c%s%d" % (n, i)) for i in range(
                        s[0] * (s[1] if len(s) > 1 else 1))], s)
                    ip.amodel(a)["param"] = "ctl." + n
                    d[n] = a
            else:
                self.ctl = bl.net(ip, N, NU, "ctl")
            np_ = lambda v: ip.new_arr((NU, ), v, "np", "float")
            self.sys = ip.call(ip.get("feedback_system", "FeedbackSystem"), [
                fwd, self.ctl, self.xeq, T(ip, self.ueq),
                np_(ulo), np_(uup)], {})
        else:
            self.sys = ip.call(ip.get("relu_system", "AutonomousReLUSystem"),
                               [F64, T(ip, self.lo), T(ip, self.up),
                                bl.net(ip, N, N, "dyn")], {})
        self.phi = bl.net(ip, N, 1, "phi")
        self.lyap = ip.call(ip.get("lyapunov",
                                   "LyapunovDiscreteTimeHybridSystem"),
                            [self.sys, self.phi], {})
        self.lam = sym("lam")
        if R == "fixed":
            self.Ro = ip.call(ip.get("r_options", "FixedROptions"), [
                T(ip, [sym("r%d" % i) for i in range(N * N)], (N, N))], {})
        else:
            self.Ro = ip.call(ip.get("r_options", "SearchRfreeOptions"),
                              [(N, N)], {})
            ip.call(ip.getattr(self.Ro, "set_variable_value"), [ip.new_arr(
                (N, N), [sym("r%d" % i) for i in range(N * N)], "np",
                "float")], {})
        self.tr = ip.call(ip.get(TR, "Trainer"), [], {})
        self.stubs()
        self.solver()
        if kind != "none":
            ip.call(ip.getattr(self.tr, "add_lyapunov"), [
                self.lyap, self.lam, self.xeq, self.Ro], {})
        for n in ("lyapunov_positivity_epsilon",
                  "lyapunov_derivative_epsilon", "learning_rate",
                  "lyapunov_positivity_sample_margin",
                  "lyapunov_derivative_sample_margin", "momentum"):
            ip.setattr(self.tr, n, sym(n))
        for n in ("lyapunov_positivity_sample_cost_weight",
                  "lyapunov_derivative_sample_cost_weight",
                  "lyapunov_positivity_mip_cost_weight",
                  "lyapunov_derivative_mip_cost_weight",
                  "lyapunov_positivity_convergence_tol",
                  "lyapunov_derivative_convergence_tol"):
            poly.set_bounds(n, 0, None, True)
            ip.setattr(self.tr, n, sym(n))
        if barrier:
            self.bar = ip.call(ip.get("barrier", "DiscreteTimeBarrier"),
                               [self.sys, bl.net(ip, N, 1, "h")], {})
            poly.set_bounds("bc", 0, None, True)
            poly.set_bounds("beps", 0, None, True)
            ip.call(ip.getattr(self.tr, "add_barrier"), [
                self.bar, self.xeq, sym("bc"), sym("beps")], {})

    def set(self, **kw):
        for k, v in kw.items():
            self.ip.setattr(self.tr, k, v)

    def m(self, name, *a, **k):
        return self.ip.call(self.ip.getattr(self.tr, name), list(a), k)

    # --------------------------------------------------------- stand-ins
    def milp(self, tag, n=N):
        ip = self.ip
        mip = ip.call(ip.get("gurobi_torch_mip", "GurobiTorchMILP"), [F64],
                      {})
        x = newvars(ip, mip, n, "x")
        k = len([c for c in self.calls if c[0] == tag])
        ip.call(ip.getattr(mip, "setObjective"), [
            ip.new_list([T(ip, [sym("o%s%d_%d" % (tag, k, i))
                                for i in range(n)])]),
            ip.new_list([x[1]]), Z, MAX], {})
        ip.attrs(ip.getattr(mip, "gurobi_model"))["_tag"] = (tag, k)
        return mip, x[1]

    def stubs(self):
        H, S = self.ip.hooks, self

        def log(tag, b):
            ip = S.ip
            b = {k: snap(ip, v) for k, v in b.items()}
            S.calls.append((tag, b, S.steps))

        def pos(ip, a, k):
            b = bound(ip, "self x_equilibrium V_lambda V_epsilon R=None "
                      "x_warmstart=None", a, k, "positivity")
            r = S.milp("pos")
            log("pos", b)
            return r
        H[LY + "lyapunov_positivity_as_milp"] = pos

        def ret(mip, x):
            d = {"milp": mip, "x": x}
            if S.kind == "hybrid":
                d["gamma"] = newvars(S.ip, mip, 2, "gamma")[1]
            return S.ip.new_obj(ExtV("sa.Return"), d)

        def der(ip, a, k):
            b = bound(ip, "self x_equilibrium V_lambda epsilon eps_type "
                      "R=None lyapunov_lower=None lyapunov_upper=None "
                      "x_warmstart=None binary_var_type=None", a, k, "der")
            r = S.milp("der")
            log("der", b)
            return ret(*r)
        H[LD + "lyapunov_derivative_as_milp"] = der

        def stren(ip, a, k):
            b = bound(ip, "self x_equilibrium V_lambda epsilon epsilon_type "
                      "num_strengthen_pts R=None lyapunov_lower=None "
                      "lyapunov_upper=None x_warmstart=None", a, k, "str")
            r = S.milp("der")
            b["eps_type"] = b.pop("epsilon_type")
            log("der", b)
            return ret(*r)
        H[LD + "strengthen_lyapunov_derivative_as_milp"] = stren

        def sbin(ip, a, k):
            log("binary", bound(ip, "self ret opts=None", a, k, "bin"))
        H[LD + "strengthen_lyapunov_derivative_milp_binary"] = sbin

        def loss(tag, spec):
            def f(ip, a, k):
                b = bound(ip, spec, a, k, tag)
                i = len([c for c in S.calls if c[0] == tag])
                log(tag, b)
                v = S.script.get(tag)
                v = sym("%s%d" % (tag, i)) if v is None else v[
                    i] if i < len(v) else v[-1]
                r = ip.new_arr((), [Rat.of(v)], "torch", "float")
                return r
            return f
        H[LY + "lyapunov_positivity_loss_at_samples"] = loss(
            "ploss", "self x_equilibrium state_samples V_lambda epsilon "
            "R=None margin=0 reduction=mean weight=None")
        H[LD + "lyapunov_derivative_loss_at_samples_and_next_states"] = loss(
            "dloss", "self V_lambda epsilon state_samples state_next "
            "x_equilibrium eps_type R=None margin=0 reduction=mean "
            "weight=None")

        def obj(ip, a, k):
            b = bound(ip, "self solution_number=0 penalty=0", a, k, "cobj")
            m = ip.getattr(b["self"], "gurobi_model")
            d = ip.attrs(m)
            t = d.get("_tag", ("m", 0))
            v = sym("grad_%s%d_%s" % (t[0], t[1], b["solution_number"]))
            pen = Rat.of(b["penalty"])
            if not (pen.is_const() and 0 <= pen.const_value() * 10**6 <= 1):
                # far from the optimum it stands for
                v = v + poly.fn("regularised", pen)
            S.calls.append(("cobj", {"tag": t, "n": b["solution_number"],
                                     "penalty": b["penalty"],
                                     "obj": gm.objective(ip, m),
                                     "solves": d["_solves"]}, S.steps))
            if d["_sense"] == MIN:
                v = v + sym("min")
            return ip.new_arr((), [v], "torch", "float")
        for c in ("GurobiTorchMILP", "GurobiTorchMIP"):
            H["gurobi_torch_mip.%s.compute_objective_from_mip_data_and_"
              "solution" % c] = obj

        def val(ip, a, k):
            b = bound(ip, "self x_star c region safe_flag", a, k, "value")
            r = S.milp("bval")
            log("bval", b)
            return r
        H["barrier.Barrier.value_as_milp"] = val

        def bder(ip, a, k):
            b = bound(ip, "self x_star c epsilon inf_norm_term=None "
                      "binary_var_type=None", a, k, "bder")
            r = S.milp("bder")
            log("bder", b)
            return ret(*r)
        H["barrier.DiscreteTimeBarrier.derivative_as_milp"] = bder
        H["barrier.DiscreteTimeBarrier.derivative_loss_at_samples_and_next_"
          "states"] = loss("bloss", "self x_star c epsilon state_samples "
                           "state_next margin=0 reduction=mean")

    def extra(self, i):
        return [sym("cl%d_%d" % (i, j)) for j in range(N)]

    def solver(self):
        """answers of the solver per program tag: script[tag] is a list of
        (status, objective, bound, pool) where pool lists PoolObjVal"""
        ip, S = self.ip, self

        def answer(o):
            d = ip.attrs(o)
            tag, k = d.get("_tag", ("m", 0))
            a = S.script.get(("mip", tag))
            n = d["_solves"] - 1 if tag == "m" else k
            if a is None:
                return ("OPTIMAL", sym("obj_%s%d" % (tag, k)), sym(
                    "obj_%s%d" % (tag, k)), [q(1)])
            return a[n] if n < len(a) else a[-1]

        def status(ip, o):
            d = ip.attrs(o)
            tag, k = d.get("_tag", ("m", 0))
            S.solves.append((tag, k, dict(ip.items(d["_params"])),
                             d["_callback"], gm.snapshot(ip, o), S.steps))
            st = answer(o)[0]
            if isinstance(st, str):
                return gm.STATUS[st]
            return st

        def result(ip, o, kind):
            d = ip.attrs(o)
            st, ob, bd, pool = answer(o)
            if kind in ("obj", "PoolObjVal") and not pool:
                raise AbsRaise("AttributeError", "no solution", ip.where())
            if kind == "obj":
                return Rat.of(ob)
            if kind == "bound":
                return Rat.of(bd)
            if kind == "PoolObjVal":
                i = ip.items(d["_params"]).get("SolutionNumber", 0)
                if not isinstance(i, int):
                    i = int(Rat.of(i).const_value())
                if i >= len(pool):
                    raise AbsRaise("GurobiError", "SolutionNumber",
                                   ip.where())
                return Rat.of(pool[i])

        def var(ip, o, kind):
            d = ip.attrs(o)
            md = ip.attrs(d["_model"])
            tag, k = md.get("_tag", ("m", md["_solves"]))
            pool = answer(d["_model"])[3]
            if not pool:
                raise AbsRaise("AttributeError", "no solution", ip.where())
            i = ip.items(md["_params"]).get("SolutionNumber", 0)
            if not isinstance(i, int):
                i = int(Rat.of(i).const_value())
            if kind == "x":
                i = 0
            if i >= len(pool):
                raise AbsRaise("GurobiError", "SolutionNumber", ip.where())
            if "gamma" in str(d.get("VarName", d.get("_name", ""))) or (
                    S.kind == "hybrid" and d["_k"] >= N):
                return Rat.of(1 if (i + k) % 2 == d["_k"] - N else 0)
            return S.xn(tag, k, i, d["_k"])
        ip.grb_status = status
        ip.grb_result = result
        ip.grb_var_result = var
        ip.grb_solcount = lambda ip, o: len(answer(o)[3])

    def xn(self, tag, k, i, j):
        return sym("x_%s%d_%d_%d" % (tag, k, i, j))

    def adv(self, tag, k, i):
        return [self.xn(tag, k, i, j) for j in range(N)]

    def nxt(self, x, mode=None):
        """next state of the stand-in system (with its current parameters)"""
        ip = self.ip
        if self.kind == "hybrid":
            return [sum((sym("A%d%d%d" % (mode, i, j)) * x[j]
                         for j in range(N)), sym("g%d%d" % (mode, i)))
                    for i in range(N)]
        r = ip.call(ip.getattr(self.sys, "step_forward"), [T(ip, x)], {})
        return ip.cells(r)

    def R(self):
        return snap(self.ip, self.ip.call(self.ip.getattr(self.Ro, "R"), [],
                                          {}))

    def samples(self, n, pre):
        return [[sym("%s%d_%d" % (pre, b, j)) for j in range(N)]
                for b in range(n)]

    def batch(self, rows):
        return T(self.ip, sum(rows, []), (len(rows), N))


def rowsof(ip, v):
    c = ip.cells(v)
    n = v.shape[1] if len(v.shape) == 2 else N
    return [c[i * n:(i + 1) * n] for i in range(len(c) // n)] if n else []


def same(a, b):
    return len(a) == len(b) and all(
        len(x) == len(y) and all(Rat.of(s) == Rat.of(t)
                                 for s, t in zip(x, y))
        for x, y in zip(a, b))


def certificate(st, got, ob, bd):
    ob, bd = Rat.of(ob), Rat.of(bd)
    m = poly.max2(ob, bd)
    ok = [bd, m] + ([ob] if st == "OPTIMAL" else [])
    return any(Rat.of(got) == v for v in ok)


def pools():
    for sel in (True, False):
        for n, pool in ((1, [3]), (1, [-3]), (1, [2, 1]), (3, [2, 1]),
                        (3, [2, 0, -1]), (2, [3, 2, 1]), (3, [-1, -2, -3]),
                        (2, [3, -1, 1])):
            yield sel, n, pool


def mips(ck):
    """solve_positivity_mip, solve_lyap_derivative_mip"""
    for tag, name, pre in (("pos", "solve_positivity_mip",
                            "lyapunov_positivity"),
                           ("der", "solve_lyap_derivative_mip",
                            "lyapunov_derivative")):
        w_ = w(ck, "Trainer." + name)
        kinds = ("relu", ) if tag == "pos" else ("relu", "hybrid",
                                                 "feedback", "linear")
        runs = [("relu", st, True, 1, [3]) for st in sorted(gm.STATUS)]
        runs += [(k, "OPTIMAL") + p for k in kinds for p in pools()]
        for kind, st, sel, n, pool in runs:
            key = "%s.%s.%s.sel%d.n%d.%s" % (tag, kind, st, sel, n, "_".join(
                map(str, pool)))

            def go(tag=tag, name=name, pre=pre, kind=kind, st=st, sel=sel,
                   n=n, pool=pool, key=key):
                S = Setup(ck, kind)
                ip = S.ip
                sol = st in HAS_SOL
                S.script[("mip", tag)] = [(st, sym("obj"), sym("bnd"),
                                           pool if sol else [])]
                S.set(**{pre + "_mip_pool_solutions": n,
                         "add_adversarial_state_only": sel})
                try:
                    r = ip.iterate(S.m(name))
                except AbsRaise as e:
                    ck.ob(key + ".raises", not sol, "programs with a "
                          "solution are used", str(e), w_)
                    return
                ck.ob(key + ".solution", sol, "no result is returned without "
                      "a solution", "", w_)
                if not sol:
                    return
                ck.ob(key + ".bound", certificate(st, r[1], sym("obj"), sym(
                    "bnd")), "the value returned bounds the maximum: the "
                    "optimum, or the bound if the solver stopped before "
                    "optimality", str(r[1]), w_)
                ck.ob(key + ".mip", isinstance(r[0], ObjV) and ip.attrs(
                    ip.getattr(r[0], "gurobi_model")).get("_tag") ==
                    (tag, 0), "the program is returned", "", w_)
                idx = [i for i in range(min(n, len(pool)))
                       if not sel or pool[i] > 0]
                ck.ob(key + ".adversarial", len(r[2].shape) == 2 and
                      r[2].shape[1] == N and same(
                          rowsof(ip, r[2]), [S.adv(tag, 0, i) for i in idx]),
                      "the adversarial states are the pool solutions (which "
                      "violate the condition)", str(ip.cells(r[2])), w_)
                if tag == "der":
                    want = [S.nxt(S.adv(tag, 0, i), i % 2) for i in idx]
                    ck.ob(key + ".next", len(r[3].shape) == 2 and
                          same(rowsof(ip, r[3]), want), "with their next "
                          "states", str(ip.cells(r[3])), w_)
                s = [x for x in S.solves if x[0] == tag]
                ck.ob(key + ".once", len(s) == 1, "one solve", "", w_)
                p = s[0][2]
                if n > 1:
                    ck.ob(key + ".pool", str(p.get("PoolSolutions")) ==
                          str(n), "the pool keeps that many solutions",
                          str(p), w_)
                    if tag == "pos":
                        ck.ob(key + ".search", str(p.get("PoolSearchMode"))
                              == "2", "the best solutions are kept", str(p),
                              w_)
                ck.ob(key + ".callback", s[0][3] is None, "no early "
                      "termination unless asked for", "", w_)
            ck.attempt(key, go, where=w_)

        def options(tag=tag, name=name, pre=pre, w_=w_):
            """arguments, early termination, warm start, parameters"""
            for R, kind in itertools.product(("free", "fixed"), kinds):
                for strength, binary in itertools.product((0, 3), (0, 1)):
                    if tag == "pos" and (strength or binary):
                        continue
                    S = Setup(ck, kind, R)
                    ip = S.ip
                    key = "%s.options.%s.%s.%d%d" % (tag, R, kind, strength,
                                                     binary)
                    et = ip.getattr(ip.get("lyapunov", "ConvergenceEps"),
                                    "Asymp")
                    S.set(**{pre + "_mip_term_threshold": sym("thr"),
                             pre + "_mip_warmstart": True,
                             "lyapunov_derivative_eps_type": et,
                             "derivative_mip_num_strengthen_pts": strength,
                             "derivative_mip_strengthen_binary": bool(
                                 binary)})
                    if tag == "der":
                        S.set(lyapunov_derivative_mip_params=ip.new_dict({
                            "OutputFlag": False, "TimeLimit": sym("tl")}))
                    last = None
                    for k in range(2):
                        S.m(name)
                        c = [x[1] for x in S.calls if x[0] == tag]
                        ck.ob(key + ".%d.built" % k, len(c) == k + 1,
                              "one program is built", "", w_)
                        c = c[-1]
                        want = {"x_equilibrium": snap(ip, S.xeq),
                                "V_lambda": S.lam, "R": S.R(),
                                "x_warmstart": last}
                        if tag == "pos":
                            want["V_epsilon"] = sym(
                                "lyapunov_positivity_epsilon")
                        else:
                            want["epsilon"] = sym(
                                "lyapunov_derivative_epsilon")
                            want["eps_type"] = et
                        bad = [n for n in want if c.get(n) != want[n]]
                        ck.ob(key + ".%d.args" % k, not bad, "the program is "
                              "that of the trainer's settings", str([
                                  (n, c.get(n), want[n]) for n in bad]), w_)
                        if tag == "der":
                            ck.ob(key + ".%d.pts" % k, c.get(
                                "num_strengthen_pts", 0) == strength,
                                "the program is strengthened when asked for",
                                str(c), w_)
                            b = [x[1] for x in S.calls if x[0] == "binary"]
                            ck.ob(key + ".%d.binary" % k, len(b) == (
                                k + 1) * binary, "binaries are strengthened "
                                "when asked for", str(len(b)), w_)
                            p = [x for x in S.solves if x[0] == tag][-1][2]
                            ck.ob(key + ".%d.params" % k, p.get(
                                "TimeLimit") == sym("tl"), "the solver "
                                "parameters are used", str(p), w_)
                        s = [x for x in S.solves if x[0] == tag][-1]
                        ck.ob(key + ".%d.callback" % k, s[3] is not None,
                              "the search terminates early when asked for",
                              "", w_)
                        last = snap(ip, ip.getattr(S.tr, pre +
                                                   "_last_x_adv"))
                        ck.ob(key + ".%d.warm" % k, last == (
                            "arr", (N, ), tuple(S.adv(tag, k, 0))), "the "
                            "worst state starts the next search", str(last),
                            w_)
        ck.attempt(tag + ".options", options, where=w_)


def callback(ck):
    """get_gurobi_terminate_if_callback"""
    w_ = where(ck.repo, "utils", "get_gurobi_terminate_if_callback")
    cbs = ("MIPNODE", "MIP", "MIPSOL", "PRESOLVE", "POLLING", "SIMPLEX")
    for at, cnt, st, d in itertools.product(
            cbs, (0, 1, 3), ("OPTIMAL", "INFEASIBLE", "CUTOFF"),
            (1, 0, -1)):
        if at != "MIPNODE" and (cnt, st, d) != (1, "OPTIMAL", 1):
            continue
        key = "terminate.%s.%d.%s.%d" % (at, cnt, st, d)

        def go(at=at, cnt=cnt, st=st, d=d, key=key):
            ip = ck.interp()
            poly.clear_bounds()
            f = ip.call(ip.get("utils", "get_gurobi_terminate_if_callback"),
                        [], {"threshold": sym("thr")})
            m = ip.getattr(ip.call(ip.get(
                "gurobi_torch_mip", "GurobiTorchMILP"), [F64], {}),
                "gurobi_model")
            code = lambda n: ip.getattr(ip.getattr(ip.getattr(
                ip.get("utils", "gurobipy"), "GRB"), "Callback"), n)

            ip.grb_cb = {code(n): v for n, v in (
                ("MIPNODE_SOLCNT", cnt), ("MIPNODE_STATUS", gm.STATUS[st]),
                ("MIPNODE_OBJBST", sym("thr") + d))}
            n0 = len(ip.events)
            ip.call(f, [m, code(at)], {})
            t = [e for e in ip.events[n0:] if "terminate" in e[0]]
            want = at == "MIPNODE" and cnt > 0 and st == "OPTIMAL" and d > 0
            ck.ob(key, bool(t) == want, "the search stops only when a "
                  "solution above the threshold was found", str(t), w_)
        ck.attempt(key, go, where=w_)


def barrier_mips(ck):
    name = "solve_barrier_value_mip"
    w_ = w(ck, "Trainer." + name)
    sts = ["OPTIMAL"] + [s for s in sorted(gm.STATUS) if s != "OPTIMAL"]
    runs = [(True, n, s, p) for n, s, p in ((1, "OPTIMAL", [1]),
                                            (2, "OPTIMAL", [2, -1, -2]),
                                            (3, "OPTIMAL", [-1]))]
    runs += [(f, 1, s, [1]) for s in sts for f in (True, False)]
    for safe, n, st, pool in runs:
        key = "bval.safe%d.n%d.%s.%d" % (safe, n, st, len(pool))

        def go(safe=safe, n=n, st=st, pool=pool, key=key):
            S = Setup(ck, barrier=True)
            ip = S.ip
            sol = st in HAS_SOL
            regs = {f: [ip.new_obj(ExtV("sa.Region"), {"n": (f, k)})
                        for k in range(2 + f)] for f in (True, False)}
            S.set(safe_regions=ip.new_list(regs[True]),
                  unsafe_regions=ip.new_list(regs[False]),
                  barrier_value_mip_pool_solutions=n)
            S.script[("mip", "bval")] = [
                (st, sym("obj%d" % k), sym("bnd%d" % k),
                 pool if sol else []) for k in range(3)]
            try:
                r = ip.iterate(S.m(name, safe))
            except AbsRaise as e:
                ck.ob(key + ".raises", not sol, "programs with a solution "
                      "are used", str(e), w_)
                return
            ck.ob(key + ".solution", sol, "no result is returned without a "
                  "solution", "", w_)
            if not sol:
                return
            c = [x[1] for x in S.calls if x[0] == "bval"]
            ck.ob(key + ".regions", [x["region"] for x in c] == regs[safe]
                  and all(x["safe_flag"] is safe and x["c"] == sym("bc") and
                          x["x_star"] == snap(ip, S.xeq) for x in c),
                  "one program per region of that kind", str(c), w_)
            mm, oo, aa = [ip.iterate(v) for v in r]
            ck.ob(key + ".count", len(mm) == len(oo) == len(aa) ==
                  len(regs[safe]), "one result per region", "", w_)
            for k in range(len(oo)):
                ck.ob("%s.bound%d" % (key, k), certificate(
                    st, oo[k], sym("obj%d" % k), sym("bnd%d" % k)),
                    "the value returned bounds the maximum of its region",
                    str(oo[k]), w_)
                ck.ob("%s.adversarial%d" % (key, k), same(
                    rowsof(ip, aa[k]), [S.adv("bval", k, i)
                                        for i in range(min(n, len(pool)))]),
                    "the adversarial states are the pool solutions", str(
                        ip.cells(aa[k])), w_)
                ck.ob("%s.mip%d" % (key, k), ip.attrs(ip.getattr(
                    mm[k], "gurobi_model")).get("_tag") == ("bval", k),
                    "programs are returned in order", "", w_)
            if n > 1:
                ck.ob(key + ".pool", all(
                    str(s[2].get("PoolSolutions")) == str(n) and
                    str(s[2].get("PoolSearchMode")) == "2"
                    for s in S.solves), "the pool keeps the best solutions",
                    "", w_)
        ck.attempt(key, go, where=w_)
    name2 = "solve_barrier_derivative_mip"
    w2 = w(ck, "Trainer." + name2)
    runs = [(True, 1, s, [1]) for s in sts] + [
        (sel, n, "OPTIMAL", p) for sel, n, p in pools()]
    for sel, n, st, pool in runs:
        key = "bder.%s.sel%d.n%d.%s" % (st, sel, n, "_".join(map(str, pool)))

        def go2(sel=sel, n=n, st=st, pool=pool, key=key):
            S = Setup(ck, barrier=True)
            ip = S.ip
            sol = st in HAS_SOL
            S.script[("mip", "bder")] = [(st, sym("obj"), sym("bnd"),
                                          pool if sol else [])]
            S.set(barrier_derivative_mip_pool_solutions=n,
                  add_adversarial_state_only=sel,
                  barrier_derivative_mip_params=ip.new_dict({
                      "TimeLimit": sym("tl")}))
            try:
                r = ip.iterate(S.m(name2))
            except AbsRaise as e:
                ck.ob(key + ".raises", not sol, "programs with a solution "
                      "are used", str(e), w2)
                return
            ck.ob(key + ".solution", sol, "no result is returned without a "
                  "solution", "", w2)
            if not sol:
                return
            c = [x[1] for x in S.calls if x[0] == "bder"]
            ck.ob(key + ".args", len(c) == 1 and c[0]["x_star"] == snap(
                ip, S.xeq) and c[0]["c"] == sym("bc") and c[0]["epsilon"] ==
                sym("beps"), "the program is that of the trainer's settings",
                str(c), w2)
            ck.ob(key + ".bound", certificate(st, r[1], sym("obj"), sym(
                "bnd")), "the value returned bounds the maximum", str(r[1]),
                w2)
            idx = [i for i in range(min(n, len(pool)))
                   if not sel or pool[i] > 0]
            ck.ob(key + ".adversarial", len(r[2].shape) == 2 and
                  r[2].shape[1] == N and same(
                      rowsof(ip, r[2]), [S.adv("bder", 0, i) for i in idx]),
                  "the adversarial states are the pool solutions (which "
                  "violate the condition)", str(ip.cells(r[2])), w2)
            p = S.solves[-1][2]
            ck.ob(key + ".params", p.get("TimeLimit") == sym("tl") and (
                n == 1 or (str(p.get("PoolSolutions")) == str(n) and
                           str(p.get("PoolSearchMode")) == "2")),
                  "the solver parameters are used", str(p), w2)
        ck.attempt(key, go2, where=w2)


def sample_losses(ck):
    """lyapunov_sample_loss, barrier_sample_loss"""
    w_ = w(ck, "Trainer.lyapunov_sample_loss")
    for np_, nd, wp, wd, red in itertools.product(
            (0, 2), (0, 3), ("wp", 0), ("wd", 0), ("mean", "max")):
        key = "loss.%d.%d.%s.%s.%s" % (np_, nd, wp, wd, red)

        def go(np_=np_, nd=nd, wp=wp, wd=wd, red=red, key=key):
            S = Setup(ck)
            ip = S.ip
            et = ip.getattr(ip.get("lyapunov", "ConvergenceEps"), "ExpUpper")
            S.set(sample_loss_reduction=red, lyapunov_derivative_eps_type=et)
            P, D, E = S.samples(np_, "p"), S.samples(nd, "d"), S.samples(
                nd, "e")
            wt = [sym(v) if v else q(0) for v in (wp, wd)]
            for v in wt:
                poly.set_bounds(str(v), 0, None, True)
            r = ip.iterate(S.m("lyapunov_sample_loss", S.batch(P), S.batch(D),
                               S.batch(E), *wt))
            for k, (tag, v, n, x) in enumerate((("ploss", wp, np_, P),
                                                ("dloss", wd, nd, D))):
                want = sym(v) * sym(tag + "0") if v and n else Z
                ck.eq("%s.%s" % (key, tag), bl.scalar(ip, r[k]), want,
                      "weight times the loss at the samples", w_)
                c = [x[1] for x in S.calls if x[0] == tag]
                if not (v and n):
                    continue
                p = ("positivity", "derivative")[k]
                want = {"state_samples": ("arr", (n, N), tuple(sum(x, []))),
                        "x_equilibrium": snap(ip, S.xeq), "R": S.R(),
                        "V_lambda": S.lam, "reduction": red, "weight": None,
                        "epsilon": sym("lyapunov_%s_epsilon" % p),
                        "margin": sym("lyapunov_%s_sample_margin" % p)}
                if k:
                    want["state_next"] = ("arr", (n, N), tuple(sum(E, [])))
                    want["eps_type"] = et
                bad = [m for m in want if not c or c[0].get(m) != want[m]]
                ck.ob("%s.%s.args" % (key, tag), not bad, "the loss is that "
                      "of the trainer's settings", str([
                          (m, c[0].get(m) if c else None) for m in bad]), w_)
        ck.attempt(key, go, where=w_)
    w2 = w(ck, "Trainer.barrier_sample_loss")
    for ns, nu, nd in itertools.product((0, 1, 2), (0, 2), (0, 2)):
        for red in ("mean", "max"):
            for zero in (None, 0, 1, 2):
                key = "bloss.%d%d%d.%s.%s" % (ns, nu, nd, red, zero)
                if zero is not None and red == "max":
                    continue

                def gb(ns=ns, nu=nu, nd=nd, red=red, zero=zero, key=key):
                    S = Setup(ck, barrier=True)
                    ip = S.ip
                    S.set(sample_loss_reduction=red)
                    xs = [S.samples(n, t) for n, t in ((ns, "s"), (nu, "u"),
                                                       (nd, "d"))]
                    wt = [sym("w%d" % i) for i in range(3)]
                    for i in range(3):
                        poly.set_bounds("w%d" % i, 0, None, True)
                    if zero is not None:
                        wt[zero] = q(0)
                    r = ip.iterate(S.m("barrier_sample_loss", *[
                        S.batch(x) for x in xs], *wt))
                    h = lambda x: bl.phi("h", 0, x) - bl.phi(
                        "h", 0, S.xs) + sym("bc")
                    for k, sg in ((0, -1), (1, 1)):
                        v = [poly.relu(sg * h(x)) for x in xs[k]]
                        want = Z
                        if v and k != zero:
                            want = sum(v, Z) / q(len(v))
                            if red == "max":
                                want = v[0]
                                for e in v[1:]:
                                    want = poly.max2(want, e)
                            want = want * wt[k]
                        ck.eq("%s.%d" % (key, k), bl.scalar(ip, r[k]), want,
                              "weight times the violation of the sign of h",
                              w2)
                    ck.eq(key + ".2", bl.scalar(ip, r[2]), wt[2] * sym(
                        "bloss0") if nd and zero != 2 else Z,
                        "weight times the derivative loss", w2)
                    c = [x[1] for x in S.calls if x[0] == "bloss"]
                    if nd and zero != 2:
                        nx = [S.nxt(x) for x in xs[2]]
                        want = {"x_star": snap(ip, S.xeq), "c": sym("bc"),
                                "epsilon": sym("beps"), "margin": 0,
                                "reduction": red,
                                "state_samples": ("arr", (nd, N), tuple(
                                    sum(xs[2], []))),
                                "state_next": ("arr", (nd, N), tuple(
                                    sum(nx, [])))}
                        bad = [m for m in want if not c or
                               c[0].get(m) != want[m]]
                        ck.ob(key + ".args", not bad, "the loss is that of "
                              "the trainer's settings, at the samples and "
                              "their next states", str(bad), w2)
                ck.attempt(key, gb, where=w2)


WS = ("lyapunov_positivity_sample_cost_weight",
      "lyapunov_derivative_sample_cost_weight",
      "lyapunov_positivity_mip_cost_weight",
      "lyapunov_derivative_mip_cost_weight")


def total(ck):
    """total_loss"""
    name = "total_loss"
    w_ = w(ck, "Trainer." + name)
    opts = [dict()]
    opts += [{"pm": v} for v in (None, 0)] + [{"dm": v} for v in (None, 0)]
    opts += [{"pm": a, "dm": b} for a in (None, 0) for b in (None, 0)]
    opts += [{"addp": True}, {"addd": True}, {"addp": True, "addd": True}]
    opts += [{"addp": True, "addd": True, "pm": a, "dm": b}
             for a in (None, 0, "w") for b in (None, 0, "w")]
    opts += [{"gap": True}, {"ps": 0}, {"ds": 0}]
    opts += [{"addp": True, "addd": True, "size": k, "np": a, "nd": b}
             for k in (1, 2, 3, 4) for a, b in ((2, 3), (3, 2), (0, 4))]
    opts += [{"kind": "hybrid", "addp": True, "addd": True},
             {"kind": "feedback", "addp": True, "addd": True}]
    for o in opts:
        key = "total." + ".".join("%s=%s" % (k, o[k]) for k in sorted(o))

        def go(o=o, key=key):
            S = Setup(ck, o.get("kind", "relu"))
            ip = S.ip
            np_, nd = o.get("np", 2), o.get("nd", 2)
            size = o.get("size", 100)
            addp, addd = o.get("addp", False), o.get("addd", False)
            n = 2
            S.script[("mip", "pos")] = [("OPTIMAL", q(3), q(3), [3, 1])]
            S.script[("mip", "der")] = [("OPTIMAL", q(4), q(4), [4, 2])]
            S.script[("mip", "m")] = [("OPTIMAL", q(1), q(1), [1])]
            S.set(add_positivity_adversarial_state=addp,
                  add_derivative_adversarial_state=addd,
                  max_sample_pool_size=size,
                  lyapunov_positivity_mip_pool_solutions=n,
                  lyapunov_derivative_mip_pool_solutions=n)
            P, D, E = S.samples(np_, "p"), S.samples(nd, "d"), S.samples(
                nd, "e")
            wt = []
            for s in ("ps", "ds", "pm", "dm"):
                v = o.get(s, "w")
                if v == "w":
                    poly.set_bounds("w" + s, 0, None, True)
                    v = sym("w" + s)
                elif v == 0:
                    v = q(0)
                wt.append(v)
            gap = q(0)
            ip.hooks["%s.Trainer.solve_boundary_gap_mip" % TR] = \
                lambda ip, a, k: (ip.new_arr((), [sym("gap")], "torch",
                                             "float"), sym("g0"), sym("g1"),
                                  S.xeq, S.xeq)
            if o.get("gap"):
                gap = sym("wg")
                poly.set_bounds("wg", 0, None, True)
            r = S.m(name, S.batch(P), S.batch(D), S.batch(E), *wt, gap)
            L = ip.getattr(r, "lyap_loss")
            g = lambda nm: ip.getattr(L, nm)
            for nm, wv, t, ob in (("positivity", wt[2], "pos", 3),
                                  ("derivative", wt[3], "der", 4)):
                v = g(nm + "_mip_obj")
                if wv is None:
                    ck.ob("%s.%s.obj" % (key, nm), v is None, "no program "
                          "is solved", str(v), w_)
                else:
                    ck.eq("%s.%s.obj" % (key, nm), Rat.of(v), q(ob),
                          "the maximum found", w_)
                want = Z if wv is None or wv == q(0) else wv * sym(
                    "grad_%s0_0" % t)
                ck.eq("%s.%s.miploss" % (key, nm), bl.scalar(ip, g(
                    nm + "_mip_loss")), want, "weight times the objective "
                    "at the worst state, as a function of the parameters",
                    w_)
            if wt[2] is not None and addp:
                P = P + [S.adv("pos", 0, i) for i in range(n)]
            if wt[3] is not None and addd:
                A = [S.adv("der", 0, i) for i in range(n)]
                D = D + A
                E = E + [S.nxt(x, i % 2) for i, x in enumerate(A)]
            for nm, v in (("positivity_state_samples", P),
                          ("derivative_state_samples", D),
                          ("derivative_state_samples_next", E)):
                ck.ob("%s.%s" % (key, nm), same(rowsof(ip, g(nm)), v),
                      "adversarial states are added to the samples when "
                      "asked for", str(ip.cells(g(nm))), w_)
            tot = Z
            for tag, nm, wv, xs in (("ploss", "positivity", wt[0], P),
                                    ("dloss", "derivative", wt[1], D)):
                c = [x[1] for x in S.calls if x[0] == tag]
                on = wv != q(0) and len(xs) > 0
                want = wv * sym(tag + "0") if on else Z
                tot = tot + want
                ck.eq("%s.%s.loss" % (key, nm), bl.scalar(ip, g(
                    nm + "_sample_loss")), want, "loss at the samples", w_)
                if on:
                    ck.ob("%s.%s.pool" % (key, nm), len(c) == 1 and
                          c[0]["state_samples"][2] == tuple(sum(
                              xs[-size:], [])), "the loss is over the most "
                          "recent samples", str(c), w_)
                if on and tag == "dloss":
                    ck.ob(key + ".pool.next", c[0]["state_next"][2] == tuple(
                        sum(E[-size:], [])), "next states go with their "
                        "states", str(c), w_)
            for k in (2, 3):
                if wt[k] is not None and wt[k] != q(0):
                    tot = tot + wt[k] * sym("grad_%s0_0" % (
                        "pos", "der")[k - 2])
            if o.get("gap"):
                tot = tot + sym("wg") * sym("gap")
            ck.eq(key + ".loss", bl.scalar(ip, ip.getattr(r, "loss")), tot,
                  "the loss is the sum of its terms", w_)
            c = [x[1] for x in S.calls if x[0] == "cobj"]
            ck.ob(key + ".solved", all(x["n"] == 0 and x["solves"] >= 1
                                       for x in c),
                  "gradients are taken at the best solution of a solved "
                  "program", str(c), w_)
        ck.attempt(key, go, where=w_)


class Quiet:
    """collects the verdict of a comparison"""
    def __init__(self, ck):
        self.ok, self.seed, self.deep = True, ck.seed, ck.deep

    def ob(self, key, ok, *a, **k):
        self.ok = self.ok and ok is True

    def __getattr__(self, n):
        raise Undecided("comparison needs %s" % n, None, None)


def boundary_gap(ck):
    """solve_boundary_gap_mip: max V - min V over the boundary of the box"""
    name = "solve_boundary_gap_mip"
    w_ = w(ck, "Trainer." + name)
    sts = ["OPTIMAL"] + [s for s in sorted(gm.STATUS) if s != "OPTIMAL"]
    for a, b in [("OPTIMAL", s) for s in sts] + [(s, "OPTIMAL")
                                                 for s in sts[1:]]:
        key = "gap.%s.%s" % (a, b)

        def go(a=a, b=b, key=key):
            S = Setup(ck)
            ip = S.ip
            seen = []

            def val(ip, args, kw):
                d = bound(ip, "self mip x x_equilibrium V_lambda R", args, kw,
                          "value")
                x = ip.iterate(d["x"])
                d = {k: snap(ip, v) for k, v in d.items()}
                seen.append((d, [gm.vsym(ip, v) for v in x]))
                return (ip.new_list([T(ip, [sym("c0"), sym("c1")])]),
                        ip.new_list([ip.new_list(x)]),
                        ip.new_arr((), [sym("vc")], "torch", "float"), None)
            ip.hooks[LY + "_lyapunov_value_as_milp"] = val
            sol = [s in HAS_SOL for s in (a, b)]
            S.script[("mip", "m")] = [
                (s, sym("obj%d" % k), sym("bnd%d" % k), [1] if sol[k] else
                 []) for k, s in enumerate((a, b))]
            try:
                r = ip.iterate(S.m(name))
            except AbsRaise as e:
                ck.ob(key + ".raises", (a, b) != ("OPTIMAL", "OPTIMAL"),
                      "the gap is computed from two optima", str(e), w_)
                return
            ck.ob(key + ".status", a == b == "OPTIMAL", "no gap is returned "
                  "unless both optima are proved", "", w_)
            if not a == b == "OPTIMAL":
                return
            xs = seen[0][1]
            ck.ob(key + ".args", len({str(s[1]) for s in seen}) == 1 and all(
                s[0]["x_equilibrium"] == snap(ip, S.xeq) and
                s[0]["V_lambda"] == S.lam and s[0]["R"] == S.R()
                for s in seen), "V is that of the trainer", str(seen), w_)
            V = sym("c0") * xs[0] + sym("c1") * xs[1] + sym("vc")
            c = [x[1] for x in S.calls if x[0] == "cobj"]
            ck.ob(key + ".gradient", len(c) == 2 and all(
                x["n"] == 0 for x in c), "both values as functions of the "
                "parameters", str(c), w_)
            sense = set()
            for k, s in enumerate(S.solves):
                e, sn = s[4]["obj"], s[4]["sense"]
                sense.add(sn)
                ck.eq("%s.obj%d" % (key, k), e, V, "the objective is V", w_)
                names = [v[0] for v in s[4]["vars"]]
                bn = [v[0] for v in s[4]["vars"] if v[3] == "B"]
                rows = [pt.row(-e if o == ">" else e, "<" if o == ">" else o,
                               names) for e, o, _, _ in s[4]["rows"]]
                rest = [n for n in names if n not in bn]
                ck.ob("%s.vars%d" % (key, k), rest == [str(x) for x in xs],
                      "variables are x and binaries", str(names), w_)
                bx = [t for j in range(N) for t in (
                    (S.lo[j] - xs[j], "<"), (xs[j] - S.up[j], "<"))]
                faces = [[pt.row(e, s, rest) for e, s in bx + [
                    (xs[j] - v[j], "=")]] for j in range(N)
                    for v in (S.lo, S.up)]
                hit = set()
                bad = []
                for beta in itertools.product((0, 1), repeat=len(bn)):
                    P = pt.fix(rows, dict(zip(bn, beta)))
                    for f, face in enumerate(faces + [None]):
                        Q = Quiet(ck)
                        mic.same_set(Q, "f", P, face, rest, "", w_)
                        if Q.ok:
                            hit.add(f)
                            break
                    else:
                        bad.append(beta)
                ck.ob("%s.boundary%d" % (key, k), not bad and hit >= set(
                    range(2 * N)), "x ranges over the faces of the box",
                    "%s %s" % (bad, hit), w_)
            ck.ob(key + ".senses", sense == {MAX, MIN}, "largest and "
                  "smallest V", str(sense), w_)
            mx = [k for k, s in enumerate(S.solves) if s[4]["sense"] == MAX]
            if len(S.solves) != 2 or len(mx) != 1:
                ck.ob(key + ".solves", False, "one program of each sense",
                      "", w_)
                return
            # symbols of the stand-in results
            g = bl.scalar(ip, r[0])
            ck.ob(key + ".gap", g == -sym("min"), "largest minus smallest",
                  str(g), w_)
            ck.eq(key + ".min", Rat.of(r[1]), sym("obj%d" % (1 - mx[0])),
                  "the smallest V", w_)
            ck.eq(key + ".max", Rat.of(r[2]), sym("obj%d" % mx[0]),
                  "the largest V", w_)
            for nm, v, k in (("xmin", r[3], 2 - mx[0]), ("xmax", r[4],
                                                         1 + mx[0])):
                ck.ob("%s.%s" % (key, nm), ip.cells(v) == [
                    S.xn("m", k, 0, j) for j in range(N)], "where it is "
                    "attained", str(ip.cells(v)), w_)
        ck.attempt(key, go, where=w_)


def barrier_loss(ck):
    """compute_barrier_loss"""
    name = "compute_barrier_loss"
    w_ = w(ck, "Trainer." + name)
    cases = list(itertools.product(("w", 0, None), repeat=3))
    runs = [(c, 50, (2, 1, 3), 2, 1) for c in cases]
    runs += [(("w", "w", "w"), k, (2, 1, 3), 2, 1) for k in (1, 2, 3, 4)]
    runs += [(("w", "w", "w"), 50, (0, 0, 0), 2, 2),
             (("w", "w", "w"), 50, (2, 2, 2), 0, 0),
             (("w", "w", "w"), 2, (3, 3, 3), 1, 0)]
    for wts, size, ns, rs, ru in runs:
        key = "barrier.%s.%d.%s.%d%d" % ("_".join(map(str, wts)), size,
                                         "".join(map(str, ns)), rs, ru)

        def go(wts=wts, size=size, ns=ns, rs=rs, ru=ru, key=key):
            S = Setup(ck, barrier=True)
            ip = S.ip
            S.script[("mip", "bval")] = [
                ("OPTIMAL", sym("ob%d" % k), sym("ob%d" % k), [2, 1])
                for k in range(6)]
            S.script[("mip", "bder")] = [("OPTIMAL", q(7), q(7), [2, 1])]
            S.set(safe_regions=ip.new_list([ip.new_obj(ExtV("sa.Region"))
                                            for _ in range(rs)]),
                  unsafe_regions=ip.new_list([ip.new_obj(ExtV("sa.Region"))
                                              for _ in range(ru)]),
                  barrier_value_mip_pool_solutions=2,
                  barrier_derivative_mip_pool_solutions=2,
                  max_sample_pool_size=size)
            X = [S.samples(n, t) for n, t in zip(ns, "sud")]
            sw = [sym("sw%d" % i) for i in range(3)]
            mw = [None if v is None else q(0) if v == 0 else sym("mw%d" % i)
                  for i, v in enumerate(wts)]
            for n in ("sw", "mw"):
                for i in range(3):
                    poly.set_bounds("%s%d" % (n, i), 0, None, True)
            r = S.m(name, *[S.batch(x) for x in X], *sw, *mw)
            g = lambda n: ip.getattr(r, n)
            # programs in the order they were built
            built = [x for x in S.calls if x[0] in ("bval", "bder")]
            at = {True: [], False: []}
            kk = 0
            for t, b, _ in built:
                if t == "bval":
                    at[b["safe_flag"]].append(kk)
                    kk += 1
            for i, (nm, flag, cnt) in enumerate((("safe", True, rs),
                                                 ("unsafe", False, ru))):
                ob, ls = g(nm + "_mip_obj"), g(nm + "_mip_loss")
                ck.ob("%s.%s.built" % (key, nm), len(at[flag]) == (
                    0 if mw[i] is None else cnt), "one program per region "
                    "when asked for", str(at), w_)
                if mw[i] is None:
                    ck.ob("%s.%s.none" % (key, nm), ob is None and ls is
                          None, "no program is solved", "", w_)
                    continue
                ck.ob("%s.%s.obj" % (key, nm), [Rat.of(v) for v in
                      ip.iterate(ob)] == [sym("ob%d" % k) for k in at[flag]],
                      "the maximum of each region", "", w_)
                if mw[i] == q(0):
                    ck.ob("%s.%s.noloss" % (key, nm), ls is None, "no loss",
                          "", w_)
                else:
                    ck.ob("%s.%s.loss" % (key, nm), [
                        bl.scalar(ip, v) for v in ip.iterate(ls)] == [
                            mw[i] * sym("grad_bval%d_0" % k)
                            for k in at[flag]], "weight times the objective "
                        "of each region", str(ls), w_)
                for k in at[flag]:
                    X[i] = X[i] + [S.adv("bval", k, n) for n in range(2)]
            ob, ls = g("derivative_mip_obj"), g("derivative_mip_loss")
            if mw[2] is None:
                ck.ob(key + ".der.none", ob is None and ls is None and not [
                    t for t in built if t[0] == "bder"],
                      "no program is solved", "", w_)
            else:
                ck.eq(key + ".der.obj", Rat.of(ob), q(7), "the maximum", w_)
                if mw[2] == q(0):
                    ck.ob(key + ".der.noloss", ls is None, "no loss", "", w_)
                else:
                    ck.eq(key + ".der.loss", bl.scalar(ip, ls), mw[2] * sym(
                        "grad_bder0_0"), "weight times the objective", w_)
                X[2] = X[2] + [S.adv("bder", 0, n) for n in range(2)]
            for nm, x in zip(("safe", "unsafe", "derivative"), X):
                ck.ob("%s.%s.samples" % (key, nm), same(rowsof(ip, g(
                    nm + "_state_samples")), x), "adversarial states are "
                    "added to the samples", str(ip.cells(g(
                        nm + "_state_samples"))), w_)
            h = lambda x: bl.phi("h", 0, x) - bl.phi("h", 0, S.xs) + sym("bc")
            for i, (nm, sg) in enumerate((("safe", -1), ("unsafe", 1))):
                v = [poly.relu(sg * h(x)) for x in X[i][-size:]]
                ck.eq("%s.%s.sample" % (key, nm), bl.scalar(ip, g(
                    nm + "_sample_loss")), sw[i] * sum(v, Z) / q(
                        len(v)) if v else Z, "loss at the most recent "
                    "samples", w_)
            c = [x[1] for x in S.calls if x[0] == "bloss"]
            if X[2]:
                ck.ob(key + ".der.sample", len(c) == 1 and c[0][
                    "state_samples"][2] == tuple(sum(X[2][-size:], [])) and
                    bl.scalar(ip, g("derivative_sample_loss")) == sw[2] *
                    sym("bloss0"), "loss at the most recent samples", str(c),
                    w_)
        ck.attempt(key, go, where=w_)


# ---------------------------------------------------------------- loops
def params(S, search=True):
    ip = S.ip
    ps = list(natives.module_params(ip, S.phi))
    if S.kind in ("feedback", "linear") and search:
        ps += natives.module_params(ip, S.ctl)
    if ip.getattr(S.Ro, "fixed_R") is not True:
        ps.append(ip.getattr(S.Ro, "_variables"))
    return ps


def state(S):
    """values of everything that is trained"""
    ip = S.ip
    return tuple(tuple(ip.cells(p)) for p in params(S)) + (S.R()[2], )


def order(ck, key, S, w_, want):
    """zero_grad, then one backward of the loss, then step; `want` steps"""
    ev = [(e[0], e) for e in S.ip.events
          if e[0] in ("opt-zero", "backward", "opt-step", "zero_grad")]
    clean, back, n = False, 0, 0
    ok = True
    for nm, e in ev:
        if nm in ("opt-zero", ):
            clean, back = True, 0
        elif nm == "backward":
            back += 1
            ok = ok and clean
        elif nm == "opt-step":
            ok = ok and clean and back == 1
            clean, back = False, 0
            n += 1
    ck.ob(key + ".order", ok, "every step uses the gradient of one loss, "
          "from zero", str([x[0] for x in ev][:12]), w_)
    ck.ob(key + ".steps", n == want, "one step per iteration that is not "
          "certified", "%d, %d expected" % (n, want), w_)


def optimizer(ck, key, S, w_, kind="Adam", search=True):
    ip = S.ip
    want = sorted(p.addr for p in params(S, search))
    for k, o in enumerate(S.opts):
        d = ip.attrs(o)
        ck.ob("%s.opt%d.params" % (key, k), sorted(
            p.addr for p in d["_params"]) == want, "the optimiser holds the "
            "current parameters of V, R and (if asked for) the controller",
            "%s %s" % (sorted(p.addr for p in d["_params"]), want), w_)
        ck.ob("%s.opt%d.kind" % (key, k), d["_kind"] == kind and d["_kw"].get(
            "lr") == sym("learning_rate") and (
                kind != "SGD" or d["_kw"].get("momentum") ==
                sym("momentum")), "with the trainer's settings",
            str((d["_kind"], d["_kw"])), w_)
    ck.ob(key + ".opt", len(S.opts) >= 1, "an optimiser is used", "", w_)


def loop(ck):
    """Trainer.train"""
    name = "train"
    w_ = w(ck, "Trainer." + name)
    lo, hi = -1, 5                # objectives below, above the tolerance (1)
    runs = []
    for n in (1, 2, 3):
        for seq in itertools.product(itertools.product((lo, hi), repeat=2),
                                     repeat=n):
            if n == 3 and (seq[0] == (lo, lo) or seq[1] == (lo, lo)):
                continue
            runs.append(("relu", n, seq, "OPTIMAL", "Adam", True))
    for kind in ("hybrid", "feedback", "linear"):
        for s in (True, False):
            runs.append((kind, 2, ((hi, hi), (hi, hi)), "OPTIMAL", "SGD", s))
            runs.append((kind, 2, ((lo, hi), (lo, lo)), "OPTIMAL", "Adam",
                         s))
    for st in ("TIME_LIMIT", "INTERRUPTED", "NODE_LIMIT"):
        runs.append(("relu", 2, ((lo, lo), (lo, lo)), st, "Adam", True))
    for kind, n, seq, st, opt, search in runs:
        key = "train.%s.%s.%s.%s.%d" % (kind, "_".join(
            "%d%d" % (a > 0, b > 0) for a, b in seq), st, opt, search)

        def go(kind=kind, n=n, seq=seq, st=st, opt=opt, search=search,
               key=key):
            S = Setup(ck, kind)
            ip = S.ip
            for t, k in (("pos", 0), ("der", 1)):
                S.script[("mip", t)] = [
                    (st, q(v[k]), q(v[k] if st == "OPTIMAL" else hi), [v[k]])
                    for v in seq]
            S.set(lyapunov_positivity_convergence_tol=q(1),
                  lyapunov_derivative_convergence_tol=q(1),
                  max_iterations=n, optimizer=opt, search_controller=search,
                  add_positivity_adversarial_state=True,
                  add_derivative_adversarial_state=True)
            X = S.samples({"feedback": 1, "linear": 2}.get(kind, 3), "p")
            if kind == "hybrid":
                # the samples are in mode 0
                C = "hybrid_linear_system.AutonomousHybridLinearSystem."
                ip.hooks[C + "mode"] = lambda ip, a, k: 0
            given = S.batch(X)
            now = []
            real = ip.hooks[LD + "lyapunov_derivative_loss_at_samples_and_"
                            "next_states"]

            def dl(ip, a, k):
                r = real(ip, a, k)
                c = [x for x in S.calls if x[0] == "dloss"][-1][1]
                xs = c["state_samples"][2]
                xs = [list(xs[i * N:i * N + N])
                      for i in range(len(xs) // N)]
                ys = c["state_next"][2]
                if kind != "hybrid":
                    now.append(tuple(sum((S.nxt(x) for x in xs), [])) == ys)
                return r
            ip.hooks[LD + "lyapunov_derivative_loss_at_samples_and_next_"
                     "states"] = dl
            st0 = state(S)
            r = S.m(name, given)
            r = ip.iterate(r)
            hit = [i for i, v in enumerate(seq[:n])
                   if v == (lo, lo) and st == "OPTIMAL"]
            last = hit[0] if hit else n - 1
            ck.ob(key + ".verdict", r[0] is bool(hit), "certified iff both "
                  "maxima are below their tolerance", str(r[0]), w_)
            order(ck, key, S, w_, last if hit else n)
            optimizer(ck, key, S, w_, opt, search)
            if hit:
                # nothing is changed after the certificate
                cc = [x for x in S.calls if x[0] in ("pos", "der")]
                ck.ob(key + ".certified", cc[-1][2] == cc[-2][2] == S.steps,
                      "the certified parameters are the final ones", str(
                          [(c[0], c[2]) for c in cc]), w_)
                if not last:
                    ck.ob(key + ".untouched", state(S) == st0, "certified "
                          "parameters are kept", "", w_)
            for k, (t, i) in enumerate((("pos", 0), ("der", 1))):
                v = seq[last][i]
                ck.ob("%s.obj%d" % (key, k), Rat.of(r[2 + k]) == q(
                    v if st == "OPTIMAL" else hi), "the last maxima are "
                    "returned", str(r[2 + k]), w_)
            W = [sym(x) for x in WS]
            ck.eq(key + ".loss", Rat.of(bl.scalar(ip, r[1])) if isinstance(
                r[1], Arr) else Rat.of(r[1]), W[0] * sym(
                "ploss%d" % last) + W[1] * sym("dloss%d" % last) + W[2] * sym(
                    "grad_pos%d_0" % last) + W[3] * sym("grad_der%d_0" % last),
                "the loss is returned", w_)
            b = [e[2] for e in ip.events if e[0] == "backward"]
            ck.ob(key + ".learned", [bl.scalar(ip, x) for x in b] == [
                W[0] * sym("ploss%d" % j) + W[1] * sym("dloss%d" % j) +
                W[2] * sym("grad_pos%d_0" % j) + W[3] * sym(
                    "grad_der%d_0" % j) for j in range(len(b))],
                "the total loss is minimised", str([bl.scalar(ip, x)
                                                    for x in b]), w_)
            for t, tag in (("pos", "ploss"), ("der", "dloss")):
                cs = [x[1] for x in S.calls if x[0] == tag]
                xs = list(X)
                for j, c in enumerate(cs):
                    if seq[j][t == "der"] > 0:
                        xs = xs + [S.adv(t, j, 0)]
                    ck.ob("%s.%s%d" % (key, tag, j), c["state_samples"][2]
                          == tuple(sum(xs, [])), "violating states are kept "
                          "in the training set", str(c["state_samples"]),
                          w_)
            ck.ob(key + ".next", all(now), "next states are those of the "
                  "current controller", str(now), w_)
            ck.ob(key + ".given", ip.cells(given) == sum(X, []),
                  "the caller's samples are not changed", "", w_)
        ck.attempt(key, go, where=w_)


def settings(ck):
    """training parameters, saved networks, get/set of parameters"""
    w_ = w(ck, "Trainer._training_params")
    for kind, R, search in itertools.product(
            ("relu", "hybrid", "feedback", "linear"), ("free", "fixed"),
            (True, False)):
        key = "params.%s.%s.%d" % (kind, R, search)

        def go(kind=kind, R=R, search=search, key=key):
            S = Setup(ck, kind, R)
            ip = S.ip
            S.set(search_controller=search)
            r = ip.iterate(S.m("_training_params"))
            ck.ob(key, sorted(p.addr for p in r) == sorted(
                p.addr for p in params(S, search)), "V, R and (if asked "
                "for) the controller are trained", str(r), w_)
            before = state(S)
            addr = [p.addr for p in params(S)]
            old = S.m("_get_current_training_params")
            for p in params(S):
                ip.store_cells(p, [c + sym("chg%d" % p.addr)
                                   for c in ip.cells(p)])
            ck.ob(key + ".changed", state(S) != before, "", "", w_)
            S.m("_set_training_params", old)
            wg = w(ck, "Trainer._set_training_params")
            ck.ob(key + ".restored", state(S) == before, "parameters taken "
                  "before are put back", "", wg)
            ck.ob(key + ".inplace", [p.addr for p in params(S)] == addr,
                  "an optimiser holding the parameters keeps training them",
                  "", wg)
            for p in params(S):
                ip.store_cells(p, [c + sym("chh%d" % p.addr)
                                   for c in ip.cells(p)])
            S.m("_set_training_params", old)
            ck.ob(key + ".again", state(S) == before, "parameters taken "
                  "are a copy", "", wg)
        ck.attempt(key, go, where=w_)
        ws = w(ck, "Trainer._save_network")

        def save(kind=kind, R=R, search=search, key=key):
            for path, every, it in itertools.product((None, "/d"), (1, 3),
                                                     range(5)):
                S = Setup(ck, kind, R)
                ip = S.ip
                S.set(save_network_path=path, save_network_iterations=every)
                S.m("_save_network", it)
                want = {}
                if path and it % every == 0:
                    want = {"/d/lyapunov.pt": S.phi, "/d/R.pt": S.R()}
                    if kind in ("feedback", "linear"):
                        want["/d/controller.pt"] = S.ctl
                got = {f: snap(ip, o) for o, f in S.saved}
                ck.ob("%s.save.%s.%d.%d" % (key, bool(path), every, it),
                      got == want and len(S.saved) == len(want),
                      "networks and R are saved every so many iterations",
                      str(S.saved), ws)
        if search:
            ck.attempt(key + ".save", save, where=ws)
    wa = w(ck, "Trainer.add_lyapunov")

    def refuse():
        S = Setup(ck, barrier=True)
        ip = S.ip
        bad = {"lambda": (S.lyap, 1, S.xeq, S.Ro),
               "x": (S.lyap, S.lam, None, S.Ro),
               "shape": (S.lyap, S.lam, T(ip, [sym("p")]), S.Ro),
               "outside": (S.lyap, S.lam, T(ip, [
                   S.up[0] + 1, S.xs[1]]), S.Ro),
               "R": (S.lyap, S.lam, S.xeq, T(ip, [sym("p")]))}
        for k, a in bad.items():
            try:
                S.m("add_lyapunov", *a)
                ok = False
            except AbsRaise:
                ok = True
            ck.ob("add.lyapunov." + k, ok, "unusable settings are refused",
                  "", wa)
        for k, a in (("c", (S.bar, S.xeq, 1, sym("beps"))),
                     ("eps", (S.bar, S.xeq, sym("bc"), 1)),
                     ("neg", (S.bar, S.xeq, sym("bc"), -sym("beps")))):
            try:
                S.m("add_barrier", *a)
                ok = False
            except AbsRaise:
                ok = True
            ck.ob("add.barrier." + k, ok, "unusable settings are refused",
                  "", w(ck, "Trainer.add_barrier"))
    ck.attempt("add", refuse, where=wa)


def on_samples(ck):
    """train_lyapunov_on_samples: the best epoch is restored"""
    name = "train_lyapunov_on_samples"
    w_ = w(ck, "Trainer." + name)
    for kind, R, seq in itertools.product(
            ("relu", "linear", "feedback"), ("free", "fixed"),
            ((3, 1, 2), (1, 2, 3), (3, 2, 1), (2, 2, 1), (1, 2, 1), (5, ))):
        key = "samples.%s.%s.%s" % (kind, R, "".join(map(str, seq)))

        def go(kind=kind, R=R, seq=seq, key=key):
            S = Setup(ck, kind, R)
            ip = S.ip
            for n in WS[:2]:
                ip.setattr(S.tr, n, q(1))
            # 2 batches of nb for training, 1 sample for testing
            nb = 3 if kind == "linear" else 2
            X = S.samples(2 * nb + 1, "p")
            S.script["ploss"] = [Rat.of(v) for e in seq
                                 for v in (9, 8, e)]
            S.script["dloss"] = [Rat.of(v) for e in seq
                                 for v in (7, 6, 0)]
            seen = []
            real = ip.hooks[LY + "lyapunov_positivity_loss_at_samples"]

            def pl(ip, a, k):
                seen.append(state(S))
                return real(ip, a, k)
            ip.hooks[LY + "lyapunov_positivity_loss_at_samples"] = pl
            S.m(name, S.batch(X), len(seq), nb)
            ck.ob(key + ".calls", len(seen) == 3 * len(seq), "two batches "
                  "and a test per epoch", str(len(seen)), w_)
            if len(seen) != 3 * len(seq):
                return
            k = seq.index(min(seq))
            ck.ob(key + ".best", state(S) == seen[3 * k + 2], "the "
                  "parameters of the epoch with the smallest test loss are "
                  "returned", "epochs with these parameters: %s" % [
                      i for i in range(len(seq))
                      if seen[3 * i + 2] == state(S)], w_)
            order(ck, key, S, w_, 2 * len(seq))
            optimizer(ck, key, S, w_)
            c = [x[1] for x in S.calls if x[0] == "ploss"]
            d = [x[1] for x in S.calls if x[0] == "dloss"]
            pts = lambda t: [tuple(t[2][i:i + N])
                             for i in range(0, len(t[2]), N)]
            tr = {p for j, b in enumerate(c) if j % 3 < 2
                  for p in pts(b["state_samples"])}
            te = {p for j, b in enumerate(c) if j % 3 == 2
                  for p in pts(b["state_samples"])}
            ck.ob(key + ".split", not tr & te and tr | te == {
                tuple(x) for x in X}, "samples are divided into training "
                "and test samples", str(te), w_)
            ck.ob(key + ".same", [b["state_samples"] for b in c] == [
                b["state_samples"] for b in d], "both losses use the same "
                "samples", "", w_)
            ck.ob(key + ".nomip", not [x for x in S.calls if x[0] in (
                "pos", "der", "cobj")], "no program is solved", "", w_)
        ck.attempt(key, go, where=w_)


def descent(ck):
    """_batch_descent_on_samples: the best parameters are kept"""
    name = "_batch_descent_on_samples"
    w_ = w(ck, "Trainer." + name)
    # (positivity, derivative) of the whole set: at first and per epoch
    seqs = (((3, 1), (2, 1), (4, 0)), ((1, 0), (2, 0), (3, 3)),
            ((3, 3), (1, 4), (4, 0)), ((3, 3), (0, 0), (5, 5)),
            ((3, 3), (0, 2), (2, 0)), ((2, 2), (3, 1), (2, 2)),
            ((2, 2), (4, 4), (0, 0)), ((0, 0), (0, 0)), ((1, 1), ))
    for kind, R, seq in itertools.product(("relu", "linear"),
                                          ("free", "fixed"), seqs):
        key = "descent.%s.%s.%s" % (kind, R, "_".join(
            "%d%d" % v for v in seq))

        def go(kind=kind, R=R, seq=seq, key=key):
            S = Setup(ck, kind, R)
            ip = S.ip
            for n in WS[:2]:
                ip.setattr(S.tr, n, q(1))
            nb = 2
            for k, t in enumerate(("ploss", "dloss")):
                S.script[t] = [Rat.of(seq[0][k])] + [
                    Rat.of(v) for e in seq[1:]
                    for v in [sym("%s_b" % t)] * nb + [e[k]]]
            seen = []
            real = ip.hooks[LY + "lyapunov_positivity_loss_at_samples"]

            def pl(ip, a, k):
                seen.append(state(S))
                return real(ip, a, k)
            ip.hooks[LY + "lyapunov_positivity_loss_at_samples"] = pl
            now = []
            real2 = ip.hooks[LD + "lyapunov_derivative_loss_at_samples_and_"
                             "next_states"]

            def dl(ip, a, k):
                r = real2(ip, a, k)
                c = [x for x in S.calls if x[0] == "dloss"][-1][1]
                xs = c["state_samples"][2]
                xs = [list(xs[i * N:i * N + N])
                      for i in range(len(xs) // N)]
                now.append(tuple(sum((S.nxt(x) for x in xs), [])) ==
                           c["state_next"][2])
                return r
            ip.hooks[LD + "lyapunov_derivative_loss_at_samples_and_next_"
                     "states"] = dl
            op = ip.hooks["ext:torch.optim.Adam"](
                ip, [S.m("_training_params")], {})
            o = ip.call(ip.getattr(S.tr, "AdversarialTrainingOptions"), [],
                        {})
            ip.setattr(o, "num_batches", nb)
            ip.setattr(o, "num_epochs_per_mip", len(seq) - 1)
            P, D = S.samples(4, "p"), S.samples(3, "d")
            one = lambda n: ip.new_arr((n, ), [Rat.const(1)] * n, "torch",
                                       "float")
            S.m(name, S.batch(P), S.batch(D), op, one(4), one(3), o)
            zero = [j for j in range(1, len(seq)) if seq[j] == (0, 0)]
            if zero:
                best, n = zero[0], zero[0]
            else:
                tot = [sum(v) for v in seq]
                best, n = tot.index(min(tot)), len(seq) - 1
            ck.ob(key + ".evaluations", len(seen) == 1 + n * (nb + 1),
                  "the loss is evaluated at first and after each epoch, "
                  "until it vanishes", str(len(seen)), w_)
            if len(seen) != 1 + n * (nb + 1):
                return
            ck.ob(key + ".best", state(S) == seen[best * (nb + 1)],
                  "the parameters with the smallest loss are kept",
                  "evaluations with these parameters: %s" % [
                      i for i in range(n + 1)
                      if seen[i * (nb + 1)] == state(S)], w_)
            order(ck, key, S, w_, n * nb)
            b = [bl.scalar(ip, e[2]) for e in ip.events
                 if e[0] == "backward"]
            ck.ob(key + ".learned", all(
                x == sym("ploss_b") + sym("dloss_b") for x in b),
                "the sum of both losses of the batch is minimised", str(b),
                w_)
            ck.ob(key + ".next", all(now), "next states are those of the "
                  "current controller", str(now), w_)
            c = [x[1] for x in S.calls if x[0] == "ploss"]
            d = [x[1] for x in S.calls if x[0] == "dloss"]
            for t, cs, X in (("p", c, P), ("d", d, D)):
                for i in range(n + 1):
                    ck.ob("%s.%s.full%d" % (key, t, i), cs[i * (nb + 1)][
                        "state_samples"][2] == tuple(sum(X, [])),
                        "over all samples", "", w_)
                for i in range(n):
                    pts = sum((list(b["state_samples"][2]) for b in cs[
                        i * (nb + 1) + 1:(i + 1) * (nb + 1)]), [])
                    ck.ob("%s.%s.batches%d" % (key, t, i), sorted(
                        str(v) for v in pts) == sorted(
                            str(v) for v in sum(X, [])),
                        "each sample is learned from once per epoch", "",
                        w_)
        ck.attempt(key, go, where=w_)


def adversarial(ck):
    """train_adversarial"""
    name = "train_adversarial"
    w_ = w(ck, "Trainer." + name)
    lo, hi = -1, 5
    runs = []
    for n in (1, 2, 3):
        for seq in itertools.product(itertools.product((lo, hi), repeat=2),
                                     repeat=n):
            if n == 3 and (lo, lo) in seq[:2] or n == 3 and seq[
                    0] != (hi, hi):
                continue
            runs.append(("relu", seq, {}))
    H = ((hi, hi), ) * 3
    runs += [(k, H, {"opt": o}) for k in ("relu", "linear", "hybrid")
             for o in ("Adam", "SGD")]
    runs += [("relu", H, {"pp": a, "pd": b}) for a, b in (
        (2, 3), (3, 2), (1, 4), (4, 1))]
    runs += [("relu", H[:2], {"perturb": 2})]
    runs += [("relu", H[:2], {"cluster": 1}), ("linear", (
        (hi, lo), (lo, hi)), {"cluster": 1})]
    runs += [("relu", ((lo, lo), ) * 2, {"st": s})
             for s in ("TIME_LIMIT", "INTERRUPTED")]
    for kind, seq, o in runs:
        key = "adversarial.%s.%s.%s" % (kind, "_".join(
            "%d%d" % (a > 0, b > 0) for a, b in seq), ".".join(
                "%s=%s" % i for i in sorted(o.items())))

        def go(kind=kind, seq=seq, o=o, key=key):
            S = Setup(ck, kind)
            ip = S.ip
            st = o.get("st", "OPTIMAL")
            for t, k in (("pos", 0), ("der", 1)):
                S.script[("mip", t)] = [
                    (st, q(v[k]), q(v[k] if st == "OPTIMAL" else hi), [v[k]])
                    for v in seq]
            S.set(lyapunov_positivity_convergence_tol=q(1),
                  lyapunov_derivative_convergence_tol=q(1),
                  max_iterations=len(seq), optimizer=o.get("opt", "Adam"),
                  add_positivity_adversarial_state=True,
                  add_derivative_adversarial_state=True)
            op = ip.call(ip.getattr(S.tr, "AdversarialTrainingOptions"), [],
                         {})
            pp, pd = o.get("pp", 50), o.get("pd", 50)
            for n, v in (("positivity_samples_pool_size", pp),
                         ("derivative_samples_pool_size", pd),
                         ("perturb_derivative_sample_count", o.get(
                             "perturb", 0)),
                         ("perturb_derivative_sample_std", sym("std"))):
                ip.setattr(op, n, v)
            clustered = []

            def clu(ip, a, k):
                b = bound(ip, "x radius", a, k, "cluster")
                clustered.append((snap(ip, b["x"]), Rat.of(b["radius"])))
                n = b["x"].shape[0]
                return (ip.new_arr((1, N), S.extra(len(clustered)),
                                   "torch", "float"), ip.new_arr(
                                       (1, ), [Rat.of(n)], "torch", "float"))
            if o.get("cluster"):
                ip.setattr(op, "adversarial_cluster_radius", q(3))
                ip.hooks["%s._cluster_adversarial_states" % TR] = clu
            learned, one = [], []
            ps = params(S)

            def desc(ip, a, k):
                b = bound(ip, "self P D optimizer np nd options", a, k,
                          "descent")
                learned.append((snap(ip, b["P"]), snap(ip, b["D"]),
                                b["optimizer"], len(S.calls)))
                for e in ("p", "d"):
                    one.append(tuple(b["n" + e].shape) == (
                        b[e.upper()].shape[0], ) and all(
                            (Rat.of(c) - 1).is_zero()
                            for c in ip.cells(b["n" + e])))
                S.steps += 1
                for p in ps:
                    ip.store_cells(p, [c + sym("l%d" % S.steps)
                                       for c in ip.cells(p)])
            ip.hooks["%s.Trainer._batch_descent_on_samples" % TR] = desc
            P, D = S.samples(2, "p"), S.samples(2, "d")
            gp, gd = S.batch(P), S.batch(D)
            r = ip.iterate(S.m(name, gp, gd, op))
            hit = [i for i, v in enumerate(seq)
                   if v == (lo, lo) and st == "OPTIMAL"]
            n = hit[0] if hit else len(seq)
            ck.ob(key + ".verdict", r[0] is bool(hit), "certified iff both "
                  "maxima are below their tolerance", str(r[0]), w_)
            ck.ob(key + ".iterations", len(learned) == n, "descends unless "
                  "certified", str(len(learned)), w_)
            cc = [x for x in S.calls if x[0] in ("pos", "der")]
            ck.ob(key + ".programs", [x[2] for x in cc] == sum(
                ([i, i] for i in range(n + bool(hit))), []),
                "both programs are solved for the current parameters",
                str([(x[0], x[2]) for x in cc]), w_)
            if not o.get("cluster"):
                ck.ob(key + ".weights", all(one), "every state counts once",
                      str(one), w_)
            pert = o.get("perturb", 0)
            for i in range(n + bool(hit)):
                v = seq[i]
                if o.get("cluster"):
                    for t, j in (("pos", 0), ("der", 1)):
                        g = clustered[2 * i + j] if len(
                            clustered) > 2 * i + j else None
                        x = [S.adv(t, i, 0)] if v[j] > 0 else []
                        ck.ob("%s.%s%d.clustered" % (key, t, i),
                              g is not None and g[1] == q(3) and
                              list(g[0][2]) == sum(x, []),
                              "the violating states are clustered with the "
                              "radius", str(g), w_)
                    P = P + [S.extra(2 * i + 1)]
                    D = D + [S.extra(2 * i + 2)]
                elif v[0] > 0:
                    P = P + [S.adv("pos", i, 0)]
                P = P[-pp:]
                if v[1] > 0 and not o.get("cluster"):
                    D = D + [S.adv("der", i, 0)]
                    if pert:
                        D = D + [None] * pert
                D = D[-pd:]
                got = learned[i][:2] if i < len(learned) else (
                    snap(ip, r[1]), snap(ip, r[2]))
                for t, g, x in (("p", got[0], P), ("d", got[1], D)):
                    ck.ob("%s.%s%d.shape" % (key, t, i), tuple(g[1]) == (
                        len(x), N), "one sample per row", str(g[1]), w_)
                    rows = [list(g[2][j:j + N])
                            for j in range(0, len(g[2]), N)]
                    ok = len(rows) == len(x) and all(
                        e is None or a == e for a, e in zip(rows, x))
                    ck.ob("%s.%s%d" % (key, t, i), ok, "the most recent "
                          "samples and violating states are learned from",
                          str(rows), w_)
                    if None in x and ok:
                        base = S.adv("der", i, 0)
                        new = [a for a, e in zip(rows, x) if e is None][-
                                                                       pert:]
                        dif = [(a[j] - base[j]) / sym("std") for a in new
                               for j in range(N)]
                        ck.ob("%s.%s%d.perturbed" % (key, t, i), len(
                            {str(z) for z in dif}) == len(dif) and all(
                            not z.syms() & {"std"} for z in dif)
                            if hasattr(dif[0], "syms") else len(
                                {str(z) for z in dif}) == len(dif),
                            "perturbed with independent noise of the given "
                            "deviation", str(dif), w_)
            S.opts_k = [x[2] for x in learned]
            want = sorted(p.addr for p in params(S))
            for i, x in enumerate(S.opts_k):
                d = ip.attrs(x)
                ck.ob("%s.opt%d" % (key, i), sorted(
                    p.addr for p in d["_params"]) == want and d[
                        "_kind"] == o.get("opt", "Adam") and d["_kw"].get(
                            "lr") == sym("learning_rate") and (
                                d["_kind"] != "SGD" or d["_kw"].get(
                                    "momentum") == sym("momentum")),
                    "the optimiser "
                    "holds the current parameters", str(d["_kind"]), w_)
            ck.ob(key + ".given", ip.cells(gp) == sum(S.samples(2, "p"), [])
                  and ip.cells(gd) == sum(S.samples(2, "d"), []),
                  "the caller's samples are not changed", "", w_)
            for t, v, x in (("p", r[1], P), ("d", r[2], D)):
                if None not in x:
                    ck.ob("%s.%s.returned" % (key, t), same(rowsof(ip, v),
                                                            x),
                          "the training set is returned", "", w_)
        ck.attempt(key, go, where=w_)


def cluster(ck):
    """_cluster_adversarial_states"""
    name = "_cluster_adversarial_states"
    w_ = w(ck, name)
    for n in range(1, 6):
        for far in itertools.product((0, 1), repeat=n - 1):
            key = "cluster.%d.%s" % (n, "".join(map(str, far)))

            def go(n=n, far=far, key=key):
                ip = ck.interp()
                poly.clear_bounds()
                poly.set_bounds("rad", 0, None, True)
                x = [[sym("a"), sym("b")]]
                for k, f in enumerate(far):
                    d = [(3, 0), (0, 2), (-3, 1), (0, -2)][k] if f else (
                        (Rat.of(1) / 2, Rat.of(1) / 2), (0, 0),
                        (Rat.of(-3) / 5, Rat.of(4) / 5), (1, 0))[k]
                    x.append([x[-1][j] + sym("rad") * d[j]
                              for j in range(2)])
                t = ip.new_arr((n, 2), sum(x, []), "torch", "float")
                r = ip.iterate(ip.call(ip.get(TR, name), [t, sym("rad")],
                                       {}))
                keep = [0] + [k + 1 for k, f in enumerate(far) if f]
                ck.ob(key + ".kept", same(rowsof(ip, r[0]), [x[k]
                                                             for k in keep]),
                      "the first state of each cluster is kept", str(
                          ip.cells(r[0])), w_)
                cnt = [b - a for a, b in zip(keep, keep[1:] + [n])]
                got = ip.cells(r[1])
                ck.ob(key + ".count", [Rat.of(c) for c in got] == [
                    q(c) for c in cnt], "with the size of each cluster",
                    str(got), w_)
                ck.ob(key + ".input", ip.cells(t) == sum(x, []),
                      "the argument is not changed", "", w_)
            ck.attempt(key, go, where=w_)

    def empty():
        ip = ck.interp()
        t = ip.new_arr((0, 2), [], "torch", "float")
        r = ip.iterate(ip.call(ip.get(TR, name), [t, sym("rad")], {}))
        ck.ob("cluster.0", tuple(r[0].shape) == (0, 2) and
              tuple(r[1].shape) == (0, ), "no states, no clusters", str(r),
              w_)
    ck.attempt("cluster.0", empty, where=w_)


def approximator(ck):
    """TrainValueApproximator"""
    cls = "TrainValueApproximator"
    name = "train_with_cost_to_go"
    w_ = w(ck, cls + "." + name)
    for R, n, ep, ok in itertools.product((True, False), (1, 2, 3), (1, 3),
                                          (None, 0, 1)):
        key = "value.R%d.n%d.e%d.%s" % (R, n, ep, ok)
        if ok is not None and ok >= ep:
            continue

        def go(R=R, n=n, ep=ep, ok=ok, key=key):
            S = Setup(ck)
            ip = S.ip
            tr = ip.call(ip.get(TR, cls), [], {})
            ip.setattr(tr, "max_epochs", ep)
            ip.setattr(tr, "learning_rate", sym("learning_rate"))
            ip.setattr(tr, "convergence_tolerance", q(1))
            X = S.samples(n, "p")
            v = [sym("v%d" % i) for i in range(n)]
            pairs = ip.new_list([(T(ip, x), ip.new_arr(
                (), [c], "torch", "float")) for x, c in zip(X, v)])
            losses = []

            def mse(ip, a, k):
                def f(ip, a, k):
                    x, y = [ip.cells(t) for t in a]
                    if len(x) != len(y):
                        raise Undecided("MSELoss broadcast", None,
                                        ip.where())
                    losses.append(sum(((s - t)**2 for s, t in zip(x, y)),
                                      Z) / q(len(x)))
                    j = len(losses) - 1
                    return ip.new_arr((), [q(1 if ok is not None and
                                             j >= ok else 9 + j)], "torch",
                                      "float")
                return PyFn(f, "mse")
            ip.hooks["ext:torch.nn.MSELoss"] = mse
            A = [sym("r%d" % i) for i in range(N * N)]
            r = ip.iterate(ip.call(ip.getattr(tr, name), [
                S.phi, pairs, S.lam, S.xeq, T(ip, A, (N, N)) if R else
                None], {}))
            ck.ob(key + ".verdict", r[0] is (ok is not None), "true iff the "
                  "loss reached the tolerance", str(r[0]), w_)
            k = ok if ok is not None else ep - 1
            ck.ob(key + ".loss", Rat.of(r[1]) == q(1 if ok is not None else
                                                   9 + k), "the last loss",
                  str(r[1]), w_)
            if R is False:
                A = [Rat.const(c) for c in (1, 0, 0, 1)]
            val = lambda x: bl.phi("phi", 0, x) - bl.phi("phi", 0, S.xs) + \
                S.lam * sum((poly.absv(sum((A[i * N + j] * (
                    x[j] - S.xs[j]) for j in range(N)), Z))
                    for i in range(N)), Z)
            want = sum(((val(x) - c)**2 for x, c in zip(X, v)), Z) / q(n)
            ck.ob(key + ".losses", len(losses) == k + 1 and all(
                e == want for e in losses), "the loss is the mean squared "
                "difference of V and the cost-to-go", str(losses[:1]), w_)
            order(ck, key, S, w_, ok if ok is not None else ep)
            d = ip.attrs(S.opts[0])
            ck.ob(key + ".params", sorted(p.addr for p in d["_params"]) ==
                  sorted(p.addr for p in natives.module_params(ip, S.phi)),
                  "the network is trained", "", w_)
        ck.attempt(key, go, where=w_)
    w2 = w(ck, cls + ".train")

    def train():
        S = Setup(ck, "hybrid")
        ip = S.ip
        got = []

        def gen(ip, a, k):
            got.append(bound(ip, "system x0 T cost discrete x_goal=None "
                             "pruner=None", a, k, "gen"))
            return "samples"
        ip.hooks["hybrid_linear_system.generate_cost_to_go_samples"] = gen

        def fit(ip, a, k):
            got.append(bound(ip, "self network x0_value_samples V_lambda "
                             "x_equilibrium R", a, k, "fit"))
            return "fit"
        ip.hooks["%s.%s.%s" % (TR, cls, name)] = fit
        tr = ip.call(ip.get(TR, cls), [], {})
        X = S.samples(3, "p")
        cost, prune = PyFn(None, "c"), PyFn(None, "p")
        goal, R = T(ip, [sym("g"), sym("h")]), T(ip, [sym("r")])
        r = ip.call(ip.getattr(tr, "train"), [
            S.sys, S.phi, S.lam, S.xeq, cost, S.batch(X), 7, True, R],
            {"x_goal": goal, "pruner": prune})
        g, f = got
        ck.ob("value.train.samples", g["system"] ==
              S.sys and g["T"] == 7 and g["cost"] is cost and
              g["discrete"] is True and g["x_goal"] is goal and
              g["pruner"] is prune and [ip.cells(x) for x in ip.iterate(
                  g["x0"])] == X, "cost-to-go of the given states", str(g),
              w2)
        ck.ob("value.train.fit", r == "fit" and f["network"] == S.phi and
              f["x0_value_samples"] == "samples" and f["V_lambda"] == S.lam
              and f["x_equilibrium"] is S.xeq and f["R"] is R,
              "the network is fitted to them", str(f), w2)
    ck.attempt("value.train", train, where=w2)


def check(ck):
    mips(ck)
    callback(ck)
    barrier_mips(ck)
    sample_losses(ck)
    total(ck)
    boundary_gap(ck)
    barrier_loss(ck)
    loop(ck)
    settings(ck)
    on_samples(ck)
    descent(ck)
    adversarial(ck)
    cluster(ck)
    approximator(ck)
