"""Reading MixedIntegerConstraintsReturn objects and recorded gurobi models as
polyhedral systems."""
from . import poly, polytope as pt, gurobi_model as gm
from .poly import Rat
from .values import Arr, Undecided


class Malformed(Exception):
    """the returned matrices cannot describe one set of constraints"""


def _mat(ip, m):
    if m is None:
        return None
    if len(m.shape) != 2:
        raise Malformed("matrix of shape %s" % (m.shape, ))
    c = ip.cells(m)
    return [c[i * m.shape[1]:(i + 1) * m.shape[1]] for i in range(m.shape[0])]


def _vecc(ip, v):
    if v is None:
        return None
    return list(ip.cells(v)) if isinstance(v, Arr) else [v]


FIELDS = ["A%s_%s" % (a, b) for a in ("out", "in", "eq")
          for b in ("input", "slack", "binary")]
VFIELDS = ["Cout", "rhs_in", "rhs_eq", "input_lo", "input_up", "slack_lo",
           "slack_up", "binary_lo", "binary_up"]


class Mic:
    """normal forms of one MixedIntegerConstraintsReturn"""
    def __init__(self, ip, o):
        d = {f: ip.getattr(o, f) for f in FIELDS + VFIELDS}
        self.raw = d
        self.shape = {f: (None if d[f] is None else tuple(
            d[f].shape if isinstance(d[f], Arr) else ())) for f in d}
        self.m = {f: _mat(ip, d[f]) for f in FIELDS}
        self.v = {f: _vecc(ip, d[f]) for f in VFIELDS}
        self.n = {}
        for b in ("input", "slack", "binary"):
            ns = {len(self.m["A%s_%s" % (a, b)][0])
                  for a in ("out", "in", "eq")
                  if self.m["A%s_%s" % (a, b)]}
            for e in ("_lo", "_up"):
                if self.v[b + e] is not None:
                    ns.add(len(self.v[b + e]))
            if len(ns) > 1:
                raise Malformed("inconsistent number of %s variables: %s" %
                                (b, sorted(ns)))
            self.n[b] = ns.pop() if ns else 0
        self.nout = len(self.v["Cout"]) if self.v["Cout"] is not None else 0
        for b in ("input", "slack", "binary"):
            if self.m["Aout_" + b] is not None:
                if self.v["Cout"] is not None and \
                        len(self.m["Aout_" + b]) != len(self.v["Cout"]):
                    raise Malformed("Aout_%s has %d rows, Cout %d" % (
                        b, len(self.m["Aout_" + b]), len(self.v["Cout"])))
                self.nout = len(self.m["Aout_" + b])
            for a in ("in", "eq"):
                m, r = self.m["A%s_%s" % (a, b)], self.v["rhs_" + a]
                if m is not None and len(m) != len(r or []):
                    raise Malformed("A%s_%s has %d rows, rhs_%s %d" % (
                        a, b, len(m), a, len(r or [])))

    def _lhs(self, part, i, names):
        e = Rat.const(0)
        for b in ("input", "slack", "binary"):
            m = self.m["A%s_%s" % (part, b)]
            if m is None:
                continue
            for a, x in zip(m[i], names[b]):
                e = e + Rat.of(a) * Rat.sym(x)
        return e

    def rows(self, names, out=None, allnames=None, bounds=True):
        """names: dict input/slack/binary -> symbol names; out: names of the
        output variables (rows y = ... are added)"""
        al = allnames or (names["input"] + names["slack"] + names["binary"] +
                          list(out or []))
        rs = []
        for i, b in enumerate(self.v["rhs_in"] or []):
            rs.append(pt.le(self._lhs("in", i, names), b, al, "in%d" % i))
        for i, b in enumerate(self.v["rhs_eq"] or []):
            rs.append(pt.eq(self._lhs("eq", i, names), b, al, "eq%d" % i))
        if out is not None:
            for i, y in enumerate(out):
                e = self._lhs("out", i, names)
                if self.v["Cout"] is not None:
                    e = e + Rat.of(self.v["Cout"][i])
                rs.append(pt.eq(Rat.sym(y), e, al, "out%d" % i))
        if bounds:
            for b in ("input", "slack", "binary"):
                for e in ("_lo", "_up"):
                    vs = self.v[b + e]
                    for i, v in enumerate(vs or []):
                        v = Rat.of(v)
                        if poly._is_inf(v) or poly._is_inf(-v):
                            continue
                        x = Rat.sym(names[b][i])
                        rs.append(pt.le(v, x, al, b + e) if e == "_lo" else
                                  pt.le(x, v, al, b + e))
        return rs

    def names(self, x="x", s="s", b="b"):
        return {"input": ["%s%d" % (x, i) for i in range(self.n["input"])],
                "slack": ["%s%d" % (s, i) for i in range(self.n["slack"])],
                "binary": ["%s%d" % (b, i) for i in range(self.n["binary"])]}


def mip_model(ip, mip):
    """the recorded gurobi model behind a GurobiTorchMIP object"""
    return ip.getattr(mip, "gurobi_model")


def model_rows(ip, model, bounds=True):
    """(variables, rows) of a recorded gurobi model"""
    vs = gm.variables(ip, model)
    names = [v[0] for v in vs]
    rs = []
    for e, s, nm, w in gm.rows(ip, model):
        rs.append(pt.row(e, s, names, "%s@%s" % (nm, w)))
    if bounds:
        for n, lb, ub, vt, nm in vs:
            if not poly._is_inf(-lb):
                rs.append(pt.le(lb, Rat.sym(n), names, nm + ".lb"))
            if not poly._is_inf(ub):
                rs.append(pt.le(Rat.sym(n), ub, names, nm + ".ub"))
    return vs, rs


def same_set(ck, key, P, Q, names, rule, where, what=("code", "spec")):
    """obligations P == Q as polyhedra; P is the code's encoding"""
    if Q is None:
        r = pt.empty(P, names, ck.seed)
        ck.ob(key + ".excluded", r[0], rule, r[2], where, proof=r[1])
        return
    for a, b, t in ((P, Q, "sound"), (Q, P, "complete")):
        for i, (q, ok, proof, det) in enumerate(pt.included(
                a, b, names, ck.seed, 8 if ck.deep else 4)):
            ck.ob("%s.%s[%d]" % (key, t, i), ok, rule, "%s %s" % (q.label,
                                                                  det),
                  where, proof=proof)
