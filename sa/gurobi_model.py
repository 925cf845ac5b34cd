"""Abstract model of the parts of gurobipy the repository uses.

Nothing is solved.  A model object records variables, linear rows and the
objective as normal forms over one symbol per variable; the result attributes
(status, ObjVal, x ...) are symbols or members of the finite status domain a
check enumerates."""
from fractions import Fraction

from . import poly, natives
from .poly import Rat
from .values import Arr, ListV, DictV, ObjV, ExtV, Opaque, Undecided, \
    AbsRaise, Cond
from .natives import EXT, EXT_CONST, EXT_CLASSES, EXT_PROPS, method, bind, \
    parse_spec, thaw

STATUS = {"LOADED": 1, "OPTIMAL": 2, "INFEASIBLE": 3, "INF_OR_UNBD": 4,
          "UNBOUNDED": 5, "CUTOFF": 6, "ITERATION_LIMIT": 7,
          "NODE_LIMIT": 8, "TIME_LIMIT": 9, "SOLUTION_LIMIT": 10,
          "INTERRUPTED": 11, "NUMERIC": 12, "SUBOPTIMAL": 13,
          "INPROGRESS": 14, "USER_OBJ_LIMIT": 15, "WORK_LIMIT": 16,
          "MEM_LIMIT": 17}
for _k, _v in STATUS.items():
    EXT_CONST["gurobipy.GRB." + _k] = _v
    EXT_CONST["gurobipy.GRB.Status." + _k] = _v
for _k, _v in {"CONTINUOUS": "C", "BINARY": "B", "INTEGER": "I",
               "EQUAL": "=", "LESS_EQUAL": "<", "GREATER_EQUAL": ">",
               "MAXIMIZE": -1, "MINIMIZE": 1, "INFINITY": poly.INF}.items():
    EXT_CONST["gurobipy.GRB." + _k] = _v
for _k in ("OutputFlag", "SolutionNumber", "DualReductions", "PoolSolutions",
           "PoolSearchMode", "TimeLimit", "MIPFocus", "SolutionLimit",
           "MIPGap", "NonConvex", "Threads", "FeasibilityTol",
           "OptimalityTol", "IntFeasTol", "BestObjStop", "BestBdStop",
           "Presolve", "Method", "Cutoff", "NodeLimit", "MIPGapAbs",
           "InfUnbdInfo", "PoolGap"):
    EXT_CONST["gurobipy.GRB.Param." + _k] = _k
    EXT_CONST["gurobipy.GRB.param." + _k] = _k
for _k in ("MIPGap", "ObjVal", "X", "Xn", "LB", "UB", "VType", "VarName",
           "Status", "SolCount", "ObjBound", "RHS", "Sense", "PoolObjVal",
           "PoolObjBound", "NumVars", "NumConstrs", "IIS"):
    EXT_CONST["gurobipy.GRB.Attr." + _k] = _k
    EXT_CONST["gurobipy.GRB.attr." + _k] = _k
for _i, _k in enumerate(("POLLING", "PRESOLVE", "SIMPLEX", "MIP", "MIPSOL",
                         "MIPNODE")):
    EXT_CONST["gurobipy.GRB.Callback." + _k] = _i
for _k in ("MIPNODE_STATUS", "MIPNODE_SOLCNT", "MIPNODE_OBJBST",
           "MIPNODE_OBJBND", "MIPSOL_OBJ", "MIPSOL_OBJBST", "MIP_OBJBST",
           "MIPSOL_OBJBND", "MIP_SOLCNT", "MIP_OBJBND", "MIPSOL_SOLCNT",
           "RUNTIME"):
    EXT_CONST["gurobipy.GRB.Callback." + _k] = "cb:" + _k

MODEL, VAR, LIN, QUAD, CONSTR, TEMP = (
    "gurobipy." + x for x in ("Model", "Var", "LinExpr", "QuadExpr",
                              "Constr", "TempConstr"))
natives.EXT_BASES["gurobipy.MIPModel"] = [MODEL]


def is_a(v, q):
    return isinstance(v, ObjV) and isinstance(v.cls, ExtV) and v.cls.q == q


def tof(ip, v):
    """number / 1-element array -> Rat"""
    if isinstance(v, Arr):
        c = ip.cells(v)
        if len(c) != 1:
            raise Undecided("array of %d where a number is expected" %
                            len(c), None, ip.where())
        v = c[0]
    if isinstance(v, Opaque):
        raise Undecided("number is %r" % (v, ), None, ip.where())
    if v is None or isinstance(v, str):
        raise AbsRaise("GurobiError", "unsupported value %r in an expression"
                       % (v, ), ip.where())
    return Rat.of(v)


def expr_of(ip, v):
    """linear/quadratic expression value -> Rat over variable symbols"""
    if is_a(v, VAR):
        return ip.attrs(v)["_sym"]
    if is_a(v, LIN) or is_a(v, QUAD):
        return ip.attrs(v)["_e"]
    return tof(ip, v)


def lin(ip, e, q=LIN):
    return ip.new_obj(ExtV(q), {"_e": e})


# ------------------------------------------------------------------- model
def _model_init(ip, o, args, kw):
    n = getattr(ip, "grb_count", 0)
    ip.grb_count = n + 1
    ip.attrs(o).update({
        "_id": n, "_vars": ip.new_list([]), "_rows": ip.new_list([]),
        "_params": ip.new_dict({}), "_obj": Rat.const(0), "_sense": 1,
        "_solves": 0, "_status": STATUS["LOADED"],
        "_objset": False, "ModelSense": 1})


EXT_CLASSES[MODEL] = _model_init


def seq(ip, v, n=None):
    if isinstance(v, Arr):
        return list(ip.cells(v))
    if isinstance(v, DictV):
        return list(ip.items(v).values())
    if isinstance(v, (ListV, tuple)):
        return [tof(ip, x) if isinstance(x, Arr) else x
                for x in ip.iterate(v)]
    return [v] * (1 if n is None else n)


def _new_var(ip, m, lb, ub, vtype, name):
    vs = ip.attrs(m)["_vars"]
    k = len(ip.items(vs))
    s = "g%d.v%d" % (ip.attrs(m)["_id"], k)
    if vtype == "B":
        lb = poly.max2(Rat.const(0), Rat.of(lb))
        ub = poly.min2(Rat.const(1), Rat.of(ub))
    lb, ub = (thaw(ip, Rat.of(x)) for x in (lb, ub))
    v = ip.new_obj(ExtV(VAR), {
        "_sym": Rat.sym(s), "_model": m, "_k": k, "lb": Rat.of(lb),
        "ub": Rat.of(ub), "vtype": vtype, "VarName": name})
    ip.items(vs).append(v)
    return v


@method(MODEL, "addVars", "*idx lb=None ub=None obj=0 vtype=None name=")
def _addvars(ip, o, idx, lb, ub, obj, vtype, name):
    raise Undecided("addVars binding", None, ip.where())


def _addvars2(ip, args, kw):
    o, idx = args[0], args[1:]
    kw = dict(kw)
    lb = kw.pop("lb", Rat.const(0))
    ub = kw.pop("ub", poly.INF)
    vt = kw.pop("vtype", "C")
    name = kw.pop("name", "")
    kw.pop("obj", None)
    if kw:
        raise Undecided("addVars(%s)" % sorted(kw), None, ip.where())
    # trailing positional lb, ub ... after integer sizes are not modelled
    import itertools
    dims = []
    for i in idx:
        if isinstance(i, (ListV, tuple, range)):
            dims.append([ip.hkey(x) for x in ip.iterate(i)])
        else:
            dims.append(list(range(ip.as_index(i))))
    keys = list(itertools.product(*dims))
    if len(dims) == 1:
        keys = [k[0] for k in keys]
    n = len(keys)
    lbs, ubs = seq(ip, lb, n), seq(ip, ub, n)
    vts = list(vt) if isinstance(vt, str) and len(vt) == n and n > 1 else (
        ip.iterate(vt) if isinstance(vt, ListV) else [vt] * n)
    if len(lbs) != n or len(ubs) != n or len(vts) != n:
        raise AbsRaise("GurobiError", "addVars: bound length", ip.where())
    d = {}
    for k, key in enumerate(keys):
        d[key] = _new_var(ip, o, lbs[k], ubs[k], vts[k], "%s[%s]" % (name,
                                                                     key))
    return ip.new_dict(d)


natives.EXT_METHODS[(MODEL, "addVars")].fn = _addvars2


@method(MODEL, "addVar", "lb=None ub=None obj=0 vtype=None name=None")
def _addvar(ip, o, lb, ub, obj, vtype, name):
    return _new_var(ip, o, 0 if lb is None else tof(ip, lb),
                    poly.INF if ub is None else tof(ip, ub),
                    vtype or "C", name or "")


@method(MODEL, "addMVar", "shape lb=None ub=None obj=0 vtype=None name=None")
def _addmvar(ip, o, shape, lb, ub, obj, vtype, name):
    """an array of the variables' symbols"""
    sh = tuple(ip.as_index(k) for k in ip.iterate(shape)) if isinstance(
        shape, (ListV, tuple)) else (ip.as_index(shape), )
    n = 1
    for k in sh:
        n *= k
    lbs = seq(ip, 0 if lb is None else lb, n)
    ubs = seq(ip, poly.INF if ub is None else ub, n)
    if len(lbs) == 1:
        lbs = lbs * n
    if len(ubs) == 1:
        ubs = ubs * n
    vts = ip.iterate(vtype) if isinstance(vtype, ListV) else \
        [vtype or "C"] * n
    if not len(lbs) == len(ubs) == len(vts) == n:
        raise AbsRaise("GurobiError", "addMVar: bound length", ip.where())
    return ip.new_arr(sh, [ip.attrs(_new_var(
        ip, o, tof(ip, lbs[k]), tof(ip, ubs[k]), vts[k], "%s[%d]" % (
            name or "", k)))["_sym"] for k in range(n)], "np", "float")


@method(MODEL, "setMObjective", "Q c constant xQ_L=None xQ_R=None xc=None "
        "sense=None")
def _setmobj(ip, o, Q, c, constant, xl, xr, xc, sense):
    allv = list(ip.items(ip.attrs(o)["_vars"]))
    e = tof(ip, constant)
    if c is not None:
        xs = allv if xc is None else seq(ip, xc)
        cs = seq(ip, c)
        if len(cs) != len(xs):
            raise AbsRaise("GurobiError", "setMObjective: %d coefficients, "
                           "%d variables" % (len(cs), len(xs)), ip.where())
        for a, x in zip(cs, xs):
            e = e + tof(ip, a) * expr_of(ip, x)
    if Q is not None:
        ls = allv if xl is None else seq(ip, xl)
        rs = allv if xr is None else seq(ip, xr)
        if not isinstance(Q, Arr) or tuple(Q.shape) != (len(ls), len(rs)):
            raise AbsRaise("GurobiError", "setMObjective: shape of Q",
                           ip.where())
        cells = ip.cells(Q)
        for i, a in enumerate(ls):
            for j, b in enumerate(rs):
                e = e + tof(ip, cells[i * len(rs) + j]) * expr_of(
                    ip, a) * expr_of(ip, b)
    _setobj(ip, o, e, sense)


SENSE = {"<": "<", "<=": "<", ">": ">", ">=": ">", "=": "=", "==": "="}


def _add_row(ip, m, e, sense, name):
    if sense not in SENSE:
        raise Undecided("constraint sense %r" % (sense, ), None, ip.where())
    c = ip.new_obj(ExtV(CONSTR), {"_e": thaw(ip, e), "_sense": SENSE[sense],
                                  "ConstrName": name, "_model": m,
                                  "_where": ip.where()})
    ip.items(ip.attrs(m)["_rows"]).append(c)
    return c


def _addlconstr(ip, o, lhs, sense, rhs, name):
    if is_a(lhs, TEMP):
        d = ip.attrs(lhs)
        if isinstance(sense, str) and sense not in SENSE:
            name = sense
        return _add_row(ip, o, d["_e"], d["_sense"], name)
    if isinstance(lhs, Arr) and sense is None:
        return ip.new_list([_addlconstr(ip, o, c, None, None, name)
                            for c in ip.cells(lhs)])
    if isinstance(lhs, Cond) and lhs.op in ("ge", "eq"):
        return _add_row(ip, o, lhs.a, ">" if lhs.op == "ge" else "=", name)
    if isinstance(lhs, (bool, Cond)) or sense is None:
        raise Undecided("addLConstr(%r)" % (lhs, ), None, ip.where())
    e = expr_of(ip, lhs) - expr_of(ip, 0 if rhs is None else rhs)
    return _add_row(ip, o, e, sense, name)


method(MODEL, "addLConstr", "lhs sense=None rhs=None name=None")(_addlconstr)
method(MODEL, "addConstr", "lhs sense=None rhs=None name=None")(_addlconstr)


@method(MODEL, "addConstrs", "gen name=None")
def _addconstrs(ip, o, gen, name):
    return ip.new_list([_addlconstr(ip, o, c, None, None, name)
                        for c in ip.iterate(gen)])


@method(MODEL, "addMConstr", "A x sense b name=None")
def _addmconstr(ip, o, A, x, sense, b, name):
    xs = seq(ip, x) if x is not None else list(ip.items(
        ip.attrs(o)["_vars"]))
    if not isinstance(A, Arr) or len(A.shape) != 2:
        raise Undecided("addMConstr matrix %r" % (A, ), None, ip.where())
    r, c = A.shape
    if c != len(xs):
        raise AbsRaise("GurobiError", "addMConstr: %d columns, %d variables" %
                       (c, len(xs)), ip.where())
    bs = seq(ip, b, r)
    if len(bs) != r:
        raise AbsRaise("GurobiError", "addMConstr: %d rows, %d rhs" %
                       (r, len(bs)), ip.where())
    cells = ip.cells(A)
    out = []
    for i in range(r):
        e = -tof(ip, bs[i])
        for j in range(c):
            a = tof(ip, cells[i * c + j])
            if not a.is_zero():
                e = e + a * expr_of(ip, xs[j])
        out.append(_add_row(ip, o, e, sense, name))
    return ip.new_list(out)


@method(MODEL, "setObjective", "e sense=None")
def _setobj(ip, o, e, sense):
    d = ip.attrs(o)
    d["_obj"] = thaw(ip, expr_of(ip, e))
    if sense is not None:
        d["_sense"] = sense
        d["ModelSense"] = sense
    else:
        # the model keeps its sense
        d["_sense"] = d.get("ModelSense", 1)
    d["_objset"] = True
    ip.events.append(("grb-objective", ip.where(), o))


@method(MODEL, "getObjective", "i=None")
def _getobj(ip, o, i):
    return lin(ip, ip.attrs(o)["_obj"])


@method(MODEL, "update", "")
def _update(ip, o):
    return None


for _n in ("write", "computeIIS", "printQuality", "printStats", "dispose",
           "reset", "tune", "resetParams"):
    method(MODEL, _n, "*a")(lambda ip, o, a: None)


@method(MODEL, "terminate", "")
def _terminate(ip, o):
    ip.events.append(("grb-terminate", ip.where(), o))


@method(MODEL, "cbGet", "what")
def _cbget(ip, o, what):
    ip.events.append(("grb-cbget", ip.where(), what))
    h = getattr(ip, "grb_cb", {})
    return h.get(what, Rat.sym("%s" % (what, )) if isinstance(what, str)
                 else Opaque("cbGet", (what, )))


@method(MODEL, "setParam", "p v verbose=None")
def _setparam(ip, o, p, v, verbose):
    ip.items(ip.attrs(o)["_params"])[p] = v
    ip.events.append(("grb-param", ip.where(), o, p, v))


@method(MODEL, "getParamInfo", "p")
def _getparaminfo(ip, o, p):
    df = Rat.sym("default:%s" % (p, ))
    cur = ip.items(ip.attrs(o)["_params"]).get(p, df)
    return (p, ExtV("builtins.float"), cur, Rat.const(0), poly.INF, df)


@method(MODEL, "remove", "what")
def _remove(ip, o, what):
    ws = ip.iterate(what) if isinstance(what, (ListV, tuple)) else [what]
    for attr in ("_rows", "_vars"):
        lst = ip.items(ip.attrs(o)[attr])
        for w in ws:
            if w in lst:
                lst.remove(w)


@method(MODEL, "getVars", "")
def _getvars(ip, o):
    return ip.new_list(list(ip.items(ip.attrs(o)["_vars"])))


@method(MODEL, "getConstrs", "")
def _getconstrs(ip, o):
    return ip.new_list(list(ip.items(ip.attrs(o)["_rows"])))


@method(MODEL, "getVarByName", "n")
def _byname(ip, o, n):
    for v in ip.items(ip.attrs(o)["_vars"]):
        if ip.attrs(v)["VarName"] == n:
            return v
    return None


@method(MODEL, "getAttr", "n objs=None")
def _getattr(ip, o, n, objs):
    if objs is None:
        return ip.getattr(o, n)
    return ip.new_list([ip.getattr(v, n) for v in seq(ip, objs)])


@method(MODEL, "setAttr", "n a b=None")
def _setattr(ip, o, n, a, b):
    if b is None:
        ip.setattr(o, n, a)
        return
    vs = seq(ip, a)
    for v, x in zip(vs, seq(ip, b, len(vs))):
        ip.setattr(v, n, x)


@method(MODEL, "relax", "")
def _relax(ip, o):
    raise Undecided("Model.relax", None, ip.where())


@method(MODEL, "optimize", "callback=None")
def _optimize(ip, o, callback):
    d = ip.attrs(o)
    d["_solves"] = d["_solves"] + 1
    d["_callback"] = callback
    h = getattr(ip, "grb_status", None)
    d["_status"] = h(ip, o) if h else STATUS["OPTIMAL"]
    d["_solved"] = _program(ip, o)
    ip.events.append(("grb-optimize", ip.where(), o, callback))


class Program:
    """what was optimised last, compared by identity of rows and variables"""
    def __init__(self, obj, sense, rows, bounds):
        self.v = (obj, sense, rows, bounds)

    def __eq__(self, o):
        return isinstance(o, Program) and all(
            a is b or a == b for a, b in zip(self.v, o.v))

    def __hash__(self):
        return hash((self.v[1], len(self.v[2])))


def _program(ip, o):
    d = ip.attrs(o)
    return Program(d["_obj"], d["_sense"], tuple(ip.items(d["_rows"])),
                   tuple((ip.attrs(v)["lb"], ip.attrs(v)["ub"],
                          ip.attrs(v)["vtype"])
                         for v in ip.items(d["_vars"])))


def snapshot(ip, o):
    d = ip.attrs(o)
    return {"obj": d["_obj"], "sense": d["_sense"], "id": d["_id"],
            "rows": rows(ip, o), "vars": variables(ip, o),
            "params": dict(ip.items(d["_params"])), "solve": d["_solves"]}


def _need_solve(ip, d, kind):
    """results exist once the program has been solved (ip.grb_given: the
    solver's answer is an input of the analysis)"""
    if d["_solves"] == 0 and not getattr(ip, "grb_given", False):
        raise AbsRaise("AttributeError", "Unable to retrieve attribute %s: "
                       "the model has not been optimized" % kind, ip.where())


def _result(kind):
    def f(ip, o):
        d = ip.attrs(o)
        if not isinstance(d["_solves"], int):
            raise Undecided("number of solves differs between paths", None,
                            ip.where())
        _need_solve(ip, d, kind)
        num = ip.items(d["_params"]).get("SolutionNumber", 0)
        ip.events.append(("grb-read", ip.where(), o, kind, d["_status"],
                          d["_solves"], num))
        h = getattr(ip, "grb_result", None)
        if kind in ("obj", "bound") and "_solved" in d and not (
                d["_solved"] == _program(ip, o)):
            # a result of a program that has been changed since
            return Rat.sym("g%d.stale.%s" % (d["_id"], kind))
        if h:
            r = h(ip, o, kind)
            if r is not None:
                return r
        if kind == "PoolObjVal":
            return Rat.sym("g%d.s%d.obj[%s]" % (d["_id"], d["_solves"], num))
        return Rat.sym("g%d.s%d.%s" % (d["_id"], d["_solves"], kind))
    return f


for _n, _k in (("ObjVal", "obj"), ("objVal", "obj"), ("objval", "obj"),
               ("PoolObjVal", "PoolObjVal"), ("ObjBound", "bound"),
               ("objBound", "bound"), ("Runtime", "runtime"),
               ("MIPGap", "gap"), ("PoolObjBound", "poolbound"),
               ("NodeCount", "nodes"), ("IterCount", "iters")):
    EXT_PROPS[(MODEL, _n)] = _result(_k)


def _status(ip, o):
    d = ip.attrs(o)
    ip.events.append(("grb-status", ip.where(), o, d["_status"]))
    return d["_status"]


EXT_PROPS[(MODEL, "status")] = _status
EXT_PROPS[(MODEL, "Status")] = _status


def _solcount(ip, o):
    h = getattr(ip, "grb_solcount", None)
    return h(ip, o) if h else 1


EXT_PROPS[(MODEL, "solCount")] = _solcount
EXT_PROPS[(MODEL, "SolCount")] = _solcount


def _count(kind):
    def f(ip, o):
        vs = ip.items(ip.attrs(o)["_vars"])
        if kind == "rows":
            return len(ip.items(ip.attrs(o)["_rows"]))
        if kind == "vars":
            return len(vs)
        return len([v for v in vs if ip.attrs(v)["vtype"] in kind])
    return f


for _n, _k in (("NumVars", "vars"), ("numVars", "vars"), ("numvars", "vars"),
               ("NumConstrs", "rows"), ("numConstrs", "rows"),
               ("numconstrs", "rows"), ("NumBinVars", "B"),
               ("numbinvars", "B"), ("numBinVars", "B"),
               ("NumIntVars", "BI"), ("numintvars", "BI"),
               ("numIntVars", "BI")):
    EXT_PROPS[(MODEL, _n)] = _count(_k)


class _Params:
    pass


def _params(ip, o):
    return ip.new_obj(ExtV("gurobipy.Params"), {"_model": o})


EXT_PROPS[(MODEL, "Params")] = _params
EXT_PROPS[(MODEL, "params")] = _params


# --------------------------------------------------------------------- var
def _var_result(kind):
    def f(ip, o):
        d = ip.attrs(o)
        m = d["_model"]
        md = ip.attrs(m)
        _need_solve(ip, md, kind)
        num = ip.items(md["_params"]).get("SolutionNumber", 0)
        ip.events.append(("grb-read", ip.where(), m, kind, md["_status"],
                          md["_solves"], num))
        h = getattr(ip, "grb_var_result", None)
        if h:
            r = h(ip, o, kind)
            if r is not None:
                return r
        if kind == "x":
            num = 0
        return Rat.sym("g%s.s%s.x%s[%s]" % (md["_id"], md["_solves"],
                                           d["_k"], num))
    return f


for _n in ("x", "X"):
    EXT_PROPS[(VAR, _n)] = _var_result("x")
for _n in ("xn", "Xn"):
    EXT_PROPS[(VAR, _n)] = _var_result("xn")


def _alias(a, b):
    EXT_PROPS[(VAR, a)] = lambda ip, o: ip.attrs(o)[b]

    def setter(ip, o, v):
        if b in ("lb", "ub"):
            v = thaw(ip, tof(ip, v))
        ip.attrs(o)[b] = v
        ip.events.append(("grb-varset", ip.where(), o, b, v))
    EXT_PROPS[(VAR, "=" + a)] = setter


for _a, _bb in (("LB", "lb"), ("Lb", "lb"), ("UB", "ub"), ("Ub", "ub"),
                ("VType", "vtype"), ("Vtype", "vtype"), ("varName",
                                                         "VarName"),
                ("varname", "VarName")):
    _alias(_a, _bb)
for _bb in ("lb", "ub", "vtype"):
    _alias(_bb, _bb)


@method(VAR, "getAttr", "n")
def _vgetattr(ip, o, n):
    return ip.getattr(o, n)


@method(VAR, "setAttr", "n v")
def _vsetattr(ip, o, n, v):
    ip.setattr(o, n, v)


# ------------------------------------------------------------- expressions
def _linexpr(ip, o, args, kw):
    args = list(args) + list(kw.values())
    if not args:
        e = Rat.const(0)
    elif len(args) == 1:
        a = args[0]
        if isinstance(a, (ListV, tuple)):
            e = Rat.const(0)
            for c, v in (ip.iterate(t) for t in ip.iterate(a)):
                e = e + tof(ip, c) * expr_of(ip, v)
        else:
            e = expr_of(ip, a)
    else:
        c, v = args
        cs, vs = seq(ip, c), seq(ip, v)
        if is_a(v, VAR):
            vs = [v]
        if len(cs) != len(vs):
            raise AbsRaise("GurobiError", "LinExpr: %d coefficients, %d "
                           "variables" % (len(cs), len(vs)), ip.where())
        e = Rat.const(0)
        for a, b in zip(cs, vs):
            if not is_a(b, VAR):
                raise Undecided("LinExpr over %r" % (b, ), None, ip.where())
            e = e + tof(ip, a) * expr_of(ip, b)
    ip.attrs(o)["_e"] = e


EXT_CLASSES[LIN] = _linexpr
EXT_CLASSES[QUAD] = _linexpr


def _quicksum(ip, lib, xs):
    e = Rat.const(0)
    for x in ip.iterate(xs):
        e = e + expr_of(ip, x)
    return lin(ip, e)


EXT["gurobipy.quicksum"] = (_quicksum, parse_spec("xs"), "np")


def _add(ip, o, e, mult):
    d = ip.attrs(o)
    d["_e"] = d["_e"] + expr_of(ip, e) * (Rat.const(1) if mult is None else
                                          tof(ip, mult))


def _add_terms(ip, o, c, v, v2):
    d = ip.attrs(o)
    cs = seq(ip, c)
    vs = [v] if is_a(v, VAR) else seq(ip, v)
    ws = [None] * len(vs) if v2 is None else (
        [v2] if is_a(v2, VAR) else seq(ip, v2))
    if len(cs) == 1 and len(vs) > 1:
        cs = cs * len(vs)
    for a, b, w in zip(cs, vs, ws):
        t = tof(ip, a) * expr_of(ip, b)
        d["_e"] = d["_e"] + (t if w is None else t * expr_of(ip, w))


def _add_const(ip, o, c):
    d = ip.attrs(o)
    d["_e"] = d["_e"] + tof(ip, c)


for _q in (LIN, QUAD):
    method(_q, "add", "e mult=None")(_add)
    method(_q, "addTerms", "c v v2=None")(_add_terms)
    method(_q, "addConstant", "c")(_add_const)
    method(_q, "getValue", "")(lambda ip, o: Opaque("getValue"))

GE = (VAR, LIN, QUAD)


def _is_ge(v):
    return isinstance(v, ObjV) and isinstance(v.cls, ExtV) and v.cls.q in GE


def _binop(ip, op, a, b):
    if not (_is_ge(a) or _is_ge(b)):
        return NotImplemented
    for x in (a, b):
        if not _is_ge(x) and not isinstance(x, (int, Rat, Arr)):
            return NotImplemented
    for x, y, first in ((a, b, True), (b, a, False)):
        if isinstance(x, Arr) and x.size != 1:
            raise Undecided("array times gurobi expression", None,
                            ip.where())
    x, y = expr_of(ip, a), expr_of(ip, b)
    if op == "Add":
        r = x + y
    elif op == "Sub":
        r = x - y
    elif op == "Mult":
        r = x * y
    elif op == "Div":
        r = x / y
    elif op == "Pow":
        r = x**int(y.const_value())
    else:
        return NotImplemented
    return lin(ip, r, QUAD if op in ("Mult", "Pow") and _is_ge(a) and
               _is_ge(b) else LIN)


def _compare(ip, op, a, b):
    if not (_is_ge(a) or _is_ge(b)):
        return NotImplemented
    if is_a(a, VAR) and is_a(b, VAR) and op == "Eq":
        return a == b
    if op not in ("LtE", "GtE", "Eq"):
        return NotImplemented
    for x in (a, b):
        if not _is_ge(x) and not isinstance(x, (int, Rat, Arr)):
            return NotImplemented
    e = expr_of(ip, a) - expr_of(ip, b)
    return ip.new_obj(ExtV(TEMP), {"_e": e, "_sense": {
        "LtE": "<", "GtE": ">", "Eq": "="}[op]})


def _neg(ip, v):
    return lin(ip, -expr_of(ip, v))


natives.NATIVE_BINOPS.append(_binop)
natives.NATIVE_COMPARES.append(_compare)


# ------------------------------------------------------------ for the checks
def rows(ip, model):
    """[(expr, sense, name, where)] with expr (<,=,>) 0"""
    out = []
    for c in ip.items(ip.attrs(model)["_rows"]):
        d = ip.attrs(c)
        out.append((d["_e"], d["_sense"], d["ConstrName"], d["_where"]))
    return out


def variables(ip, model):
    """[(symbol name, lb, ub, vtype, VarName)]"""
    out = []
    for v in ip.items(ip.attrs(model)["_vars"]):
        d = ip.attrs(v)
        out.append((str(d["_sym"]), Rat.of(d["lb"]), Rat.of(d["ub"]),
                    d["vtype"], d["VarName"]))
    return out


def objective(ip, model):
    d = ip.attrs(model)
    return d["_obj"], d["_sense"]


def vsym(ip, v):
    return ip.attrs(v)["_sym"]
