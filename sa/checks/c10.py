"""Answers of the solver: a value is used only under a status that supports
it."""
from .. import poly, gurobi_model as gm, mic
from ..poly import Rat
from ..values import Arr, AbsRaise, ListV
from .common import sym, where, F64
from . import blocks as bl, c13, c26
from .c11 import T, new_mip, addv, INF
from .c09 import Net, free_pattern, have, method
from .c15 import newvars, vec

TITLE = "Solver answers are used only under a status that supports them"
EXPLANATION = (
    "Every function of the library that turns the answer of a solver into a "
    "number is evaluated with the status of each of its solves enumerated "
    "over all statuses of the solver, one solve at a time; the optimal "
    "values are symbols named after the solve. The result must be the "
    "documented value for OPTIMAL / INFEASIBLE / UNBOUNDED, an exception for "
    "every other status, and may mention the value of a solve only if that "
    "solve was optimal; where INFEASIBLE and UNBOUNDED mean different "
    "things, dual reductions must be off at that solve.")
ASSUMPTIONS = ("the status enumeration of gurobipy; optimal values are those "
               "of the program solved", )
MIN_OBS = 150
Z, ONE = Rat.const(0), Rat.const(1)
MAX, MIN = -1, 1
RO = "relu_to_optimization"


class Site:
    """run(ip) -> list of numbers; values[status](sense) -> number for the
    statuses with a documented meaning"""
    def __init__(self, key, w, n, run, opt=None, values=None, dual=False,
                 tolerated=(), combine=None, pos=None):
        self.key, self.w, self.n, self.run = key, w, n, run
        self.values = values or {}
        self.dual, self.tolerated = dual, tolerated
        self.combine, self.pos = combine, pos


def numbers(ip, v, out=None):
    out = [] if out is None else out
    if isinstance(v, Arr):
        out.extend(ip.cells(v))
    elif isinstance(v, (tuple, list)):
        for x in v:
            numbers(ip, x, out)
    elif isinstance(v, ListV):
        for x in ip.items(v):
            numbers(ip, x, out)
    elif v is not None:
        out.append(Rat.of(v))
    return out


def names_in(v):
    seen, todo = set(), [Rat.of(v)]
    while todo:
        r = todo.pop()
        for a in r.atoms():
            if a.kind == "sym":
                seen.add(a.name)
            else:
                for x in getattr(a, "args", ()):
                    if isinstance(x, Rat):
                        todo.append(x)
    return seen


def trial(ck, site, bad, status):
    """(result numbers or None if refused, per-solve records)"""
    recs = []
    poly.clear_bounds()

    def hook(ip):
        def st(ip, o):
            k = len(recs)
            recs.append((o, gm.objective(ip, o)[1], dict(ip.items(
                ip.attrs(o)["_params"]))))
            poly.set_bounds("opt%d" % k, *((0, None, True, True) if
                                           recs[k][1] == MAX else
                                           (None, 0, True, True)))
            return gm.STATUS[status if k == bad else "OPTIMAL"]

        def res(ip, o, kind):
            ks = [k for k, r in enumerate(recs) if r[0] is o]
            if not ks:
                return None
            return sym("opt%d" % ks[-1]) if kind in ("obj", "PoolObjVal") \
                else None

        def var(ip, o, kind):
            m = ip.attrs(o)["_model"]
            ks = [k for k, r in enumerate(recs) if r[0] is m]
            return sym("opt%d.v%d" % (ks[-1], ip.attrs(o)["_k"])) \
                if ks else None
        ip.grb_status, ip.grb_result = st, res
        if site.pos is None:
            ip.grb_var_result = var
    try:
        r = numbers(None, None) if False else site.run(hook)
    except AbsRaise as e:
        return None, recs, e
    return r, recs, None


def examine(ck, site):
    base, recs, e = trial(ck, site, -1, "OPTIMAL")
    ck.ob(site.key + ".optimal", base is not None and len(recs) == site.n,
          "optimal programs give a result", "%s solves, %s" % (len(recs), e),
          site.w)
    if base is None or len(recs) != site.n:
        return
    if site.combine is None:
        got = set().union(*[names_in(v) for v in base])
        ck.ob(site.key + ".used", any(
            n.startswith("opt") for n in got), "the result comes from the "
            "solver", str(sorted(got)), site.w)
    sts = sorted(gm.STATUS) if ck.deep else [
        s for s in sorted(gm.STATUS) if s not in (
            "CUTOFF", "INPROGRESS", "ITERATION_LIMIT", "MEM_LIMIT",
            "WORK_LIMIT")]
    for k in range(site.n):
        if site.dual:
            ck.ob("%s.dual%d" % (site.key, k), Rat.of(recs[k][2].get(
                "DualReductions", 1)).is_zero(), "infeasible and unbounded "
                "are told apart (DualReductions = 0)", "", site.w)
        for s in sts:
            if s == "OPTIMAL":
                continue
            key = "%s.solve%d.%s" % (site.key, k, s)
            r, rc, e = trial(ck, site, k, s)
            if s in site.tolerated:
                continue
            if s in site.values:
                if r is None:
                    ck.ob(key, site.values[s] == "may refuse", "documented "
                          "answer for the status", "refused: %s" % e, site.w)
                    continue
                want = site.values[s]
                if want == "may refuse":
                    pass
                else:
                    want = want(k, recs[k][1], base)
                    if want is None or r == [] and want == []:
                        ck.ob(key, (r == []) == (want == [] or want is None),
                              "no value is reported", str(r), site.w)
                    else:
                        ck.ob(key + ".n", len(r) == len(want), "documented "
                              "answer for the status", "%s" % r, site.w)
                        for i, (a, b) in enumerate(zip(r, want)):
                            ck.eq("%s[%d]" % (key, i), a, b, "documented "
                                  "answer for the status", site.w)
                    continue
            else:
                ck.ob(key, r is None, "a program that was not solved has no "
                      "answer", str(r), site.w)
                continue
            bad = [n for v in r for n in names_in(v)
                   if n.split(".")[0] == "opt%d" % k]
            ck.ob(key + ".unused", not bad, "the value of a solve is used "
                  "only if it was optimal", str(bad), site.w)


def swap(extreme):
    """result with entry of the k-th solve replaced"""
    def f(k, sense, base):
        return [Rat.of(extreme(sense)) if str(v) == "opt%d" % k else v
                for v in base]
    return f


BOUND = {"INFEASIBLE": swap(lambda s: INF * s),
         "UNBOUNDED": swap(lambda s: -INF * s)}


# ------------------------------------------------------------------- sites
def sites(ck):
    out = []

    def site(*a, **k):
        out.append(Site(*a, **k))

    # bounds of a linear function of the network's units
    for mt in ("LP", "MIP"):
        def neuron(hook, mt=mt):
            ip = ck.interp()
            hook(ip)
            poly.set_bounds("c", 0, 1, True, True)
            net = Net(ip, [2, 1, 1], [vec("W", 2), vec("V", 1)],
                      [vec("b", 1), vec("d", 1)], [sym("c")])
            rp = free_pattern(ip, net)
            np_ = lambda v: ip.new_arr((len(v), ), v, "np", "float")
            lo, _, hi = bl.box(["0", "1"])
            poly.set_bounds("pl", None, 0, True, True)
            poly.set_bounds("pu", 0, None, True, True)
            r = ip.iterate(ip.call(have(
                ip, rp, "_compute_linear_output_bound_by_optimization"), [
                    1, 0, np_([sym("pl")]), np_([sym("pu")]), np_(lo),
                    np_(hi), None,
                    "C" if mt == "LP" else "B"], {}))
            return numbers(ip, r[0]) + numbers(ip, r[1])
        w = where(ck.repo, RO, "ReLUFreePattern._compute_linear_output_bound_"
                  "by_optimization")
        site("neuron." + mt, w, 2, neuron, values=BOUND, dual=True)

        def outputs(hook, mt=mt):
            ip = ck.interp()
            hook(ip)
            net = Net(ip, [2, 1, 1], [vec("W", 2), vec("V", 1)],
                      [vec("b", 1), vec("d", 1)], [None])
            rp = free_pattern(ip, net)
            lo, _, hi = bl.box(["0", "1"])
            ret = ip.call(ip.getattr(rp, "output_constraint"), [
                T(ip, lo), T(ip, hi), method(ip, mt)], {})
            v = []
            for n in ("relu_input_lo", "relu_input_up", "nn_output_lo",
                      "nn_output_up"):
                v += numbers(ip, ip.getattr(ret, n))
            return v
        site("encoding." + mt, where(ck.repo, RO, "ReLUFreePattern."
                                     "output_constraint"), 4, outputs,
             values={"INFEASIBLE": "may refuse", "UNBOUNDED": "may refuse"},
             dual=True)

    def products(hook):
        ip = ck.interp()
        hook(ip)
        net = Net(ip, [1, 1, 1], [vec("W", 1), vec("V", 1)],
                  [vec("b", 1), vec("d", 1)], [None])
        rp = free_pattern(ip, net)
        mip = new_mip(ip, "GurobiTorchMILP")
        z, b = newvars(ip, mip, 1, "z"), newvars(ip, mip, 1, "beta")
        r = ip.call(have(ip, rp, "_compute_Wz_bounds_optimization"), [
            mic.mip_model(ip, mip), z[1], b[1]], {})
        return sum([numbers(ip, v) for v in ip.iterate(r)[:4]], [])
    site("gradient", where(ck.repo, RO, "ReLUFreePattern._compute_Wz_bounds_"
                           "optimization"), 8, products)

    def maxy(hook):
        ip = ck.interp()
        hook(ip)
        poly.set_bounds("c", 0, 1, True, True)
        r = ip.call(ip.get("mip_utils", "_max_y_given_linear_input"), [
            sym("c"), T(ip, vec("w", 2)), T(ip, [sym("b")], ()),
            T(ip, vec("a", 2), (1, 2)), T(ip, vec("f", 1)),
            T(ip, vec("k", 1)), T(ip, vec("x", 2))], {})
        return numbers(ip, r)
    site("maxy", where(ck.repo, "mip_utils", "_max_y_given_linear_input"), 1,
         maxy)

    def lp(hook):
        ip = ck.interp()
        hook(ip)
        N = lambda v, sh: ip.new_arr(sh, list(v), "np", "float")
        r = ip.call(ip.get("mip_utils", "compute_range_by_lp"), [
            N(vec("A", 2), (1, 2)), N(vec("b", 1), (1, )), N(vec("l", 2),
                                                             (2, )),
            N(vec("u", 2), (2, )), N(vec("C", 2), (1, 2)), N(vec("d", 1),
                                                             (1, ))], {})
        return numbers(ip, r)
    site("range", where(ck.repo, "mip_utils", "compute_range_by_lp"), 2, lp,
         values={"INFEASIBLE": "may refuse", "UNBOUNDED": BOUND["UNBOUNDED"]})

    def poly_(hook):
        ip = ck.interp()
        hook(ip)
        return numbers(ip, ip.call(ip.get(
            "utils", "compute_bounds_from_polytope"), [
                T(ip, vec("P", 4), (2, 2)), T(ip, vec("q", 2)), 1], {}))
    site("polytope", where(ck.repo, "utils", "compute_bounds_from_polytope"),
         2, poly_, values=BOUND, dual=True)

    def lpcost(hook):
        ip = ck.interp()
        hook(ip)
        poly.set_bounds("s", 0, None, True)
        # x <= q at x = q is active: value c q + d
        ip.grb_var_result = lambda ip, o, kind: sym("q")
        r = ip.call(ip.get("utils", "linear_program_cost"), [
            T(ip, vec("c", 1)), T(ip, [sym("d")], ()), T(ip, [1], (1, 1)),
            T(ip, [sym("q")]), T(ip, [], (0, 1)), T(ip, [])], {})
        return numbers(ip, r)
    none = lambda k, s, base: []
    site("lpcost", where(ck.repo, "utils", "linear_program_cost"), 1, lpcost,
         values={s: none for s in gm.STATUS if s != "OPTIMAL"}, combine=True,
         pos=True)

    # regions of attraction
    for up in (None, "V"):
        def roa(hook, up=up):
            S = c13.Setup(ck)
            ip = S.ip
            hook(ip)
            for i in range(2):
                for p in ("m%d", "q%d"):
                    poly.set_bounds(p % i, 0, None, True, True)
            lo = [S.lo[i] - sym("m%d" % i) for i in range(2)]
            hi = [S.up[i] + sym("q%d" % i) for i in range(2)]
            if up:
                poly.set_bounds("V", 0, None, True)
            return numbers(ip, S.m("compute_region_of_attraction", c13.lam,
                                   S.R, S.xeq, None if up is None else
                                   sym("V"), T(ip, lo), T(ip, hi)))

        def without(k, s, base, up=up):
            v = sym("opt%d" % (1 - k))
            return [poly.min2(v, sym("V")) if up else v]
        site("roa.%s" % up, where(ck.repo, "lyapunov", c13.CLS +
                                  ".compute_region_of_attraction"), 2, roa,
             values={"INFEASIBLE": without}, dual=True)

    # continuous time derivative: bounds of R xdot
    for mt in ("LP", "MIP"):
        def ct(hook, mt=mt):
            S = c26.Setup(ck, mt)
            ip = S.ip
            hook(ip)
            ret = S.m("lyapunov_derivative_as_milp", S.xeq, c26.lam, c26.eps,
                      c26.conv(ip), R=S.R)
            m = mic.mip_model(ip, ip.getattr(ret, "milp"))
            v = [e for e, _, _, _ in gm.rows(ip, m)]
            return [e for e in v if any(n.startswith("opt")
                                        for n in names_in(e))]
        site("Rxdot." + mt, where(ck.repo, "continuous_time_lyapunov",
                                  c26.CT + ".lyapunov_derivative_as_milp"),
             6, ct)

    # objectives of solved programs
    for f, ok in (("get_active_constraint_indices_and_binary_val", ()),
                  ("compute_objective_from_mip_data_and_solution",
                   ("INTERRUPTED", "TIME_LIMIT"))):
        def objective(hook, f=f):
            ip = ck.interp()
            hook(ip)
            ip.hooks["ext:numpy.linalg.cond"] = lambda ip, a, k: Rat.const(1)
            mip = new_mip(ip, "GurobiTorchMILP")
            x = addv(ip, mip, 1, lb=-INF)
            b = addv(ip, mip, 1, vtype="B")
            m = mic.mip_model(ip, mip)
            ip.grb_solcount = lambda ip, o: 1
            ip.call(ip.getattr(mip, "addLConstr"), [
                ip.new_list([T(ip, [2, 3])]),
                ip.new_list([ip.new_list(x + b)])],
                {"sense": "<", "rhs": T(ip, [13], ())})
            ip.call(ip.getattr(mip, "setObjective"), [
                ip.new_list([T(ip, [2, 7])]),
                ip.new_list([ip.new_list(x + b)])],
                {"constant": Z, "sense": -1})
            ip.call(ip.getattr(m, "optimize"), [], {})
            ip.grb_result = lambda ip, o, kind: Rat.const(17)
            ip.grb_var_result = lambda ip, o, kind: [
                Rat.const(5), Rat.const(1)][ip.attrs(o)["_k"]]
            r = ip.call(ip.getattr(mip, f), [], {})
            return numbers(ip, r) if isinstance(r, Arr) else []
        site("objective." + f[:11], where(
            ck.repo, "gurobi_torch_mip", "GurobiTorchMIP." + f), 1,
            objective, tolerated=ok, combine=True, pos=True)
    return out


def check(ck):
    for s in sites(ck):
        ck.attempt(s.key, lambda s=s: examine(ck, s), where=s.w)
    poly.clear_bounds()
