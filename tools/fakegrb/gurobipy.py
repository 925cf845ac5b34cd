"""A small stand-in for gurobipy on top of scipy's MILP solver, good enough
to run the repository's programs (linear objectives, one solution)."""
import math
import numpy as np
from scipy.optimize import milp, LinearConstraint, Bounds
from scipy.sparse import csr_matrix


class _NS:
    pass


class _Meta(type):
    def __getattr__(cls, n):          # other status names, for cvxpy
        if n.isupper():
            return 'GRB_' + n
        raise AttributeError(n)


class GRB(metaclass=_Meta):
    INFINITY = 1e100
    CONTINUOUS, BINARY, INTEGER = "C", "B", "I"
    EQUAL, LESS_EQUAL, GREATER_EQUAL = "=", "<", ">"
    MAXIMIZE, MINIMIZE = -1, 1
    LOADED, OPTIMAL, INFEASIBLE, INF_OR_UNBD, UNBOUNDED, INTERRUPTED, \
        TIME_LIMIT = 1, 2, 3, 4, 5, 11, 9

    class Status:
        LOADED, OPTIMAL, INFEASIBLE, INF_OR_UNBD, UNBOUNDED, INTERRUPTED, \
            TIME_LIMIT = 1, 2, 3, 4, 5, 11, 9

    class Param:
        pass

    class Attr:
        pass

    class Callback:
        MIPNODE, MIP, MIPNODE_STATUS, MIPNODE_SOLCNT, MIPNODE_OBJBST, \
            MIPNODE_OBJBND, MIPSOL = 5, 3, 5001, 5002, 5003, 5004, 4


for _n in ("OutputFlag DualReductions SolutionNumber PoolSolutions "
           "PoolSearchMode TimeLimit Threads Presolve MIPFocus SolutionLimit "
           "MIPGap FeasibilityTol").split():
    setattr(GRB.Param, _n, _n)
for _n in ("NumVars NumConstrs NumBinVars NumIntVars PoolObjVal MIPGap ObjVal "
           "X VarName LB UB VType Start ObjBound").split():
    setattr(GRB.Attr, _n, _n)


class GurobiError(Exception):
    pass


def _f(v):
    return float(v)


class LinExpr:
    def __init__(self, a=None, b=None):
        self.t = []
        self.c = 0.
        if a is None:
            pass
        elif b is not None:
            if isinstance(b, Var):
                self.t = [(_f(a), b)]
            else:
                self.t = [(_f(x), y) for x, y in zip(list(a), list(b))]
        elif isinstance(a, LinExpr):
            self.t, self.c = list(a.t), a.c
        elif isinstance(a, Var):
            self.t = [(1., a)]
        elif isinstance(a, (list, tuple)):
            self.t = [(_f(x), y) for x, y in a]
        else:
            self.c = _f(a)

    def addTerms(self, cs, vs):
        self.t += LinExpr(cs, vs).t

    def addConstant(self, c):
        self.c += _f(c)

    def add(self, e, m=1.):
        e = LinExpr(e)
        self.t += [(m * c, v) for c, v in e.t]
        self.c += m * e.c

    def size(self):
        return len(self.t)

    def getCoeff(self, i):
        return self.t[i][0]

    def getVar(self, i):
        return self.t[i][1]

    def getConstant(self):
        return self.c

    def getValue(self):
        return self.c + sum(c * v.x for c, v in self.t)

    def __add__(self, o):
        r = LinExpr(self)
        r.add(o)
        return r
    __radd__ = __iadd__ = __add__

    def __neg__(self):
        return self * -1.

    def __sub__(self, o):
        r = LinExpr(self)
        r.add(o, -1.)
        return r

    def __rsub__(self, o):
        return LinExpr(o) - self

    def __mul__(self, k):
        r = LinExpr()
        r.t = [(c * _f(k), v) for c, v in self.t]
        r.c = self.c * _f(k)
        return r
    __rmul__ = __mul__

    def __truediv__(self, k):
        return self * (1. / k)

    def __le__(self, o):
        return (self - o, "<")

    def __ge__(self, o):
        return (self - o, ">")

    def __eq__(self, o):
        return (self - o, "=")
    __hash__ = None


class QuadExpr(LinExpr):
    pass


class Var:
    def __init__(self, m, i, lb, ub, obj, vt, nm):
        self._m, self.index = m, i
        self.lb, self.ub, self.obj, self.vtype, self.VarName = \
            lb, ub, obj, vt, nm
        self.Start = None

    def _get(self):
        if self._m._x is None:
            raise GurobiError("Unable to retrieve attribute 'x'")
        return self._m._x[self.index]
    x = X = Xn = xn = property(_get)
    LB = property(lambda s: s.lb, lambda s, v: setattr(s, "lb", v))
    UB = property(lambda s: s.ub, lambda s, v: setattr(s, "ub", v))
    VType = property(lambda s: s.vtype, lambda s, v: setattr(s, "vtype", v))
    varName = varname = property(lambda s: s.VarName)
    start = property(lambda s: s.Start, lambda s, v: setattr(s, "Start", v))

    def setAttr(self, k, v):
        setattr(self, k, v)

    def getAttr(self, k):
        return getattr(self, k)

    def __add__(self, o):
        return LinExpr(self) + o
    __radd__ = __add__

    def __sub__(self, o):
        return LinExpr(self) - o

    def __rsub__(self, o):
        return LinExpr(o) - LinExpr(self)

    def __neg__(self):
        return LinExpr(self) * -1.

    def __mul__(self, k):
        return LinExpr(self) * k
    __rmul__ = __mul__

    def __le__(self, o):
        return LinExpr(self) <= o

    def __ge__(self, o):
        return LinExpr(self) >= o

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, Var):
            return False
        return LinExpr(self) == o


class Constr:
    def __init__(self, m, expr, sense, rhs, nm):
        self._m, self.expr, self.sense, self.rhs, self.ConstrName = \
            m, expr, sense, rhs, nm

    def _act(self):
        return sum(c * v.x for c, v in self.expr.t)
    slack = Slack = property(lambda s: s.rhs - s._act())
    RHS = property(lambda s: s.rhs)
    Sense = property(lambda s: s.sense)


class tupledict(dict):
    def select(self, *a):
        return list(self.values())

    def sum(self, *a):
        return LinExpr([1.] * len(self), list(self.values()))


class Model:
    def __init__(self, name="", env=None):
        object.__setattr__(self, "_x", None)
        self._v, self._c = [], []
        self._obj, self._sense = LinExpr(), 1
        self.status = 1
        self.params = {}
        self.Params = _NS()
        self.solCount = 0

    def addVar(self, lb=0., ub=GRB.INFINITY, obj=0., vtype="C", name=""):
        if vtype == "B":
            lb, ub = max(_f(lb), 0.), min(_f(ub), 1.)
        v = Var(self, len(self._v), _f(lb), _f(ub), obj, vtype, name)
        self._v.append(v)
        return v

    def addVars(self, *idx, lb=0., ub=GRB.INFINITY, obj=0., vtype="C",
                name=""):
        n = idx[0]
        keys = list(range(n)) if isinstance(n, (int, np.integer)) else list(n)
        r = tupledict()

        def pick(b, i, k):
            if isinstance(b, dict):
                return b[k]
            if hasattr(b, "__len__") and not isinstance(b, str):
                return b[i]
            return b
        for i, k in enumerate(keys):
            r[k] = self.addVar(pick(lb, i, k), pick(ub, i, k), obj,
                               pick(vtype, i, k), "%s[%s]" % (name, k))
        return r

    def addLConstr(self, e, sense=None, rhs=None, name=""):
        if isinstance(e, tuple):
            if isinstance(sense, str):
                name = sense
            e, sense = e
            rhs = 0.
        d = LinExpr(e) - rhs
        lhs = LinExpr()
        lhs.t = d.t
        c = Constr(self, lhs, sense, -d.c, name)
        self._c.append(c)
        return c
    addConstr = addLConstr

    def addMConstr(self, A, x, sense, b, name=""):
        A = A.toarray() if hasattr(A, "toarray") else np.asarray(A)
        x = self._v if x is None else list(x)
        n = A.shape[0]
        ss = sense if not isinstance(sense, str) or len(sense) > 1 \
            else [sense] * n
        out = []
        for i in range(n):
            e = LinExpr()
            e.t = [(_f(a), v) for a, v in zip(A[i], x) if a != 0]
            out.append(self.addLConstr(e, ss[i], _f(b[i]), name))
        return out

    def addConstrs(self, gen, name=""):
        return [self.addLConstr(g) for g in gen]

    def setObjective(self, e, sense=None):
        self._obj = LinExpr(e)
        if sense is not None:
            self._sense = sense

    def getObjective(self):
        return self._obj

    def setMObjective(self, *a, **k):
        raise NotImplementedError("quadratic objective")

    def setParam(self, k, v):
        self.params[k] = v
        setattr(self.Params, k, v)

    def update(self):
        pass

    def write(self, f):
        pass

    def computeIIS(self):
        pass

    def terminate(self):
        pass

    def getVars(self):
        return list(self._v)

    def getConstrs(self):
        return list(self._c)

    def remove(self, o):
        for x in (o.values() if isinstance(o, dict) else
                  o if isinstance(o, (list, tuple)) else [o]):
            if isinstance(x, Constr):
                self._c = [c for c in self._c if c is not x]
            else:
                self._v = [v for v in self._v if v is not x]
                for i, v in enumerate(self._v):
                    v.index = i

    def getAttr(self, k, objs=None):
        if objs is not None:
            if isinstance(objs, dict):
                return {a: getattr(b, k) for a, b in objs.items()}
            return [getattr(b, k) for b in objs]
        return getattr(self, k)

    NumVars = property(lambda s: len(s._v))
    NumConstrs = property(lambda s: len(s._c))
    NumBinVars = property(lambda s: sum(v.vtype == "B" for v in s._v))
    numvars = numVars = NumVars
    numbinvars = numBinVars = NumBinVars
    numintvars = numIntVars = NumIntVars = NumBinVars
    Status = property(lambda s: s.status)
    SolCount = property(lambda s: s.solCount)
    MIPGap = 0.

    def _val(self):
        if self._x is None:
            raise GurobiError("Unable to retrieve attribute 'objVal'")
        return self._obj.getValue()
    ObjVal = objVal = PoolObjVal = ObjBound = property(_val)

    def optimize(self, callback=None):
        n = len(self._v)
        c = np.zeros(n)
        for k, v in self._obj.t:
            c[v.index] += k * self._sense
        inf = lambda z: math.copysign(np.inf, z) if abs(z) >= 1e20 else z
        lb = np.array([inf(v.lb) for v in self._v])
        ub = np.array([inf(v.ub) for v in self._v])
        rows, cols, vals, lo, up = [], [], [], [], []
        for i, r in enumerate(self._c):
            for k, v in r.expr.t:
                rows.append(i)
                cols.append(v.index)
                vals.append(k)
            lo.append(-np.inf if r.sense[0] == "<" else r.rhs)
            up.append(np.inf if r.sense[0] == ">" else r.rhs)
        kw = {}
        if self._c:
            kw["constraints"] = LinearConstraint(
                csr_matrix((vals, (rows, cols)), (len(self._c), n)), lo, up)
        if n and np.any(lb > ub):
            self._x, self.solCount, self.status = None, 0, GRB.INFEASIBLE
            return
        r = milp(c, integrality=np.array([v.vtype in "BI" for v in self._v],
                                         dtype=int),
                 bounds=Bounds(lb, ub), **kw)
        self._x, self.solCount = None, 0
        if r.status == 0:
            self.status, self._x, self.solCount = GRB.OPTIMAL, r.x, 1
        elif r.status == 2:
            self.status = GRB.INFEASIBLE
        elif r.status == 3:
            self.status = GRB.UNBOUNDED
        elif r.status == 4:
            z = milp(np.zeros(n), integrality=np.array(
                [v.vtype in "BI" for v in self._v], dtype=int),
                bounds=Bounds(lb, ub), **kw)
            self.status = GRB.UNBOUNDED if z.status == 0 else GRB.INFEASIBLE
        else:
            self.status = GRB.TIME_LIMIT


def quicksum(it):
    r = LinExpr()
    for e in it:
        r.add(e)
    return r
