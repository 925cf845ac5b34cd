"""Abstract cvxpy: variables are arrays of fresh symbols, constraints are
conditions over them, a problem records objective and conditions; nothing is
solved."""
from . import natives, poly
from .natives import EXT_CONST, EXT_CLASSES, EXT_PROPS, ext
from .poly import Rat
from .values import Arr, Cond, ExtV, ObjV, ListV, AbsRaise, Undecided, PyFn

PROB = "cvxpy.Problem"
OBJ = "cvxpy.Objective"
for _s in ("GUROBI", "OSQP", "ECOS", "SCS", "CLARABEL", "MOSEK", "CVXOPT",
           "GLPK", "SCIPY"):
    EXT_CONST["cvxpy." + _s] = _s
for _s in ("optimal", "infeasible", "unbounded", "optimal_inaccurate",
           "infeasible_inaccurate", "unbounded_inaccurate",
           "infeasible_or_unbounded", "user_limit"):
    EXT_CONST["cvxpy." + _s.upper()] = _s


def vars_of(ip):
    """symbols of all variables made so far"""
    if not hasattr(ip, "cvx"):
        ip.cvx = []
    return ip.cvx


def _variable(ip, o, args, kw):
    sh = args[0] if args else kw.pop("shape", ())
    if isinstance(sh, (ListV, Arr)):
        sh = tuple(ip.iterate(sh))
    sh = tuple(sh) if isinstance(sh, tuple) else (sh, )
    if not all(isinstance(n, int) and not isinstance(n, bool) for n in sh):
        raise Undecided("shape of a cvxpy variable", None, ip.where())
    bad = [k for k in kw if k not in ("name", "nonneg", "nonpos", "integer",
                                      "boolean")]
    if bad:
        raise Undecided("cvxpy.Variable(%s)" % bad, None, ip.where())
    n = 1
    for k in sh:
        n *= k
    c = getattr(ip, "cvx_count", 0)
    ip.cvx_count = c + 1
    cells = [Rat.sym("cv%d.%d" % (c, i)) for i in range(n)]
    vars_of(ip).extend(str(x) for x in cells)
    ip.cvx_attr = getattr(ip, "cvx_attr", {})
    for k in ("nonneg", "nonpos", "integer", "boolean"):
        if kw.get(k):
            for x in cells:
                ip.cvx_attr.setdefault(str(x), []).append(k)
    return ip.new_arr(sh, cells, "np", "float")


EXT_CLASSES["cvxpy.Variable"] = _variable


def _scalar(ip, v):
    if isinstance(v, Arr):
        c = ip.cells(v)
        if len(c) != 1:
            raise AbsRaise("ValueError", "the objective has %d entries" %
                           len(c), ip.where())
        v = c[0]
    if v is None or isinstance(v, (str, Cond)):
        raise AbsRaise("ValueError", "objective %r" % (v, ), ip.where())
    return natives.thaw(ip, Rat.of(v))


def _objective(sense):
    def f(ip, o, args, kw):
        e = args[0] if args else kw.get("expr")
        return ip.new_obj(ExtV(OBJ), {"_e": _scalar(ip, e), "_s": sense})
    return f


EXT_CLASSES["cvxpy.Maximize"] = _objective(-1)
EXT_CLASSES["cvxpy.Minimize"] = _objective(1)


def flatten(ip, v):
    """constraints as [(expr, op)], op in '>=', '=='; the expression is
    compared with zero"""
    if isinstance(v, Arr):
        return [r for c in ip.cells(v) for r in flatten(ip, c)]
    if isinstance(v, ListV):
        return [r for c in ip.items(v) for r in flatten(ip, c)]
    if isinstance(v, tuple):
        return [r for c in v for r in flatten(ip, c)]
    if v is True:
        return []
    if v is False:
        return [(Rat.const(-1), ">=")]
    if isinstance(v, Cond):
        if v.op == "ge":
            return [(v.a, ">=")]
        if v.op == "eq":
            return [(v.a, "==")]
        if v.op == "and":
            return [r for c in v.a for r in flatten(ip, c)]
        if v.op == "gt" or v.op == "not":
            raise AbsRaise("NotImplementedError", "strict inequalities are "
                           "not allowed", ip.where())
    raise Undecided("constraint %r" % (v, ), None, ip.where())


def _problem(ip, o, args, kw):
    obj = args[0] if args else kw.get("objective")
    cons = args[1] if len(args) > 1 else kw.get("constraints")
    if not (isinstance(obj, ObjV) and isinstance(obj.cls, ExtV) and
            obj.cls.q == OBJ):
        raise AbsRaise("DCPError", "no objective", ip.where())
    n = getattr(ip, "cvx_probs", 0)
    ip.cvx_probs = n + 1
    ip.attrs(o).update({
        "_id": n, "_obj": ip.attrs(obj)["_e"], "_sense":
        ip.attrs(obj)["_s"],
        "_rows": tuple((natives.thaw(ip, e), op) for e, op in flatten(ip, cons))
        if cons is not None else (),
        "_status": None})


EXT_CLASSES[PROB] = _problem


class Prob:
    def __init__(self, ip, o):
        d = ip.attrs(o)
        self.id, self.obj, self.sense = d["_id"], d["_obj"], d["_sense"]
        self.rows = list(d["_rows"])

    def value(self):
        """a name for the optimal value that depends only on the problem"""
        return poly.fn("cvx" + ("max" if self.sense < 0 else "min"), self.obj,
                       *[r for e, s in self.rows for r in [e]])


def _solve(ip, args, kw):
    o = args[0]
    p = Prob(ip, o)
    h = getattr(ip, "cvx_status", None)
    st = (h(ip, p) if h else None) or "optimal"
    ip.attrs(o)["_status"] = st
    ip.events.append(("cvx-solve", ip.where(), p))
    if st in ("optimal", "optimal_inaccurate"):
        ip.cvx_solved = p
    else:
        ip.cvx_solved = None
    return _value(ip, o)


natives.EXT_METHODS[(PROB, "solve")] = PyFn(_solve, PROB + ".solve")


def _value(ip, o):
    d = ip.attrs(o)
    st = d["_status"]
    if st is None:
        return None
    p = Prob(ip, o)
    inf = Rat.of(poly.INF)
    if st.startswith("optimal"):
        h = getattr(ip, "cvx_value", None)
        v = h(ip, p) if h else None
        return Rat.sym("cvp%d.value" % p.id) if v is None else v
    if st.startswith("infeasible"):
        return inf if p.sense > 0 else -inf
    if st.startswith("unbounded"):
        return -inf if p.sense > 0 else inf
    return None


EXT_PROPS[(PROB, "value")] = _value
EXT_PROPS[(PROB, "status")] = lambda ip, o: ip.attrs(o)["_status"]


@ext("cvxpy.sum_squares", "x")
def _sumsq(ip, lib, x):
    c = ip.cells(x) if isinstance(x, Arr) else [x]
    r = Rat.const(0)
    for v in c:
        r = r + Rat.of(v) * Rat.of(v)
    return r


def value_of(ip, v):
    """.value of an expression of solved variables"""
    p = getattr(ip, "cvx_solved", None)
    if p is None:
        return None
    names = set(vars_of(ip))

    def at(a):
        if a.kind == "sym" and a.name in names:
            return Rat.sym("cvp%d.%s" % (p.id, a.name))
        return None
    if isinstance(v, Arr):
        return ip.new_arr(v.shape, [poly.subst(Rat.of(c), at)
                                    for c in ip.cells(v)], "np", "float")
    return poly.subst(Rat.of(v), at)


def has_vars(ip, v):
    names = set(getattr(ip, "cvx", ()))
    if not names:
        return False
    cs = ip.cells(v) if isinstance(v, Arr) else [v]
    return any(isinstance(c, Rat) and any(
        a.kind == "sym" and a.name in names for a in c.atoms()) for c in cs)
