"""Opaque networks and generic constraint blocks: the encoders of networks and
absolute values are replaced by blocks whose every entry is a fresh symbol, so
that a program assembled from them can be taken apart again and compared with
the program the documentation asks for. The contracts assumed of the blocks
are discharged by C08 (units) and C09 (networks)."""
from .. import poly, mic, natives, gurobi_model as gm
from ..poly import Rat, Atom
from ..values import Arr, ExtV, Undecided
from .common import sym
from .c11 import T, INF

Q = "sa.Net"
natives.EXT_BASES[Q] = ["torch.nn.Sequential", "torch.nn.Module"]
Z = Rat.const(0)


def net(ip, nin, nout, tag, hidden=2, slope=None):
    """a network whose function is an uninterpreted symbol"""
    inner = natives.make_net(ip, [nin, hidden, nout], tag + ".", slope)
    o = ip.new_obj(ExtV(Q), dict(ip.attrs(inner)))
    ip.attrs(o)["_tag"] = tag
    ip.attrs(o)["_nio"] = (nin, nout)
    return o


def phi(tag, k, cells):
    return poly.fn(tag, k, *[Rat.of(c) for c in cells])


@natives.method(Q, "__call__", "x")
def _call(ip, o, x):
    d = ip.attrs(o)
    nin, nout = d["_nio"]
    if not isinstance(x, Arr):
        raise Undecided("network input %r" % (x, ), None, ip.where())
    if not x.shape or x.shape[-1] != nin:
        from ..values import AbsRaise
        raise AbsRaise("RuntimeError", "network of %d inputs applied to "
                       "shape %s" % (nin, x.shape), ip.where())
    c = ip.cells(x)
    out = []
    for r in range(len(c) // nin):
        row = c[r * nin:(r + 1) * nin]
        out += [phi(d["_tag"], k, row) for k in range(nout)]
    return ip.new_arr(tuple(x.shape[:-1]) + (nout, ), out, "torch", "float")


natives.EXT_METHODS[(Q, "forward")] = natives.EXT_METHODS[(Q, "__call__")]


class Block:
    """one generic block returned by an encoder"""
    def __init__(self, i, kind, tag, nin, ns, nb, nout, args):
        self.id, self.kind, self.tag = "B%d" % i, kind, tag
        self.nin, self.ns, self.nb, self.nout = nin, ns, nb, nout
        self.args = args
        self.k = {"in": 2, "eq": 1}
        self.used = 0

    def s(self, f, i, j):
        return sym("%s.%s.%d.%d" % (self.id, f, i, j))

    def rhs(self, p, i):
        return sym("%s.rhs_%s.%d" % (self.id, p, i))

    def ao(self, k, j):
        return sym("%s.Ao.%d.%d" % (self.tag, k, j))

    def co(self, k):
        return sym("%s.Co.%d" % (self.tag, k))


class Inst:
    """one use of a block in a program"""
    def __init__(self, block, inputs, slacks, binaries):
        self.b, self.inputs = block, inputs
        self.slacks, self.binaries = slacks, binaries

    def out(self, k=0):
        """the expression that stands for output k of the network"""
        e = self.b.co(k)
        for j, s in enumerate(self.slacks):
            e = e + self.b.ao(k, j) * s
        return e


class World:
    def __init__(self, ck, abs_too=True):
        self.ck = ck
        self.ip = ip = ck.interp()
        self.blocks = []
        ip.hooks["relu_to_optimization.ReLUFreePattern.output_constraint"] = \
            self._net
        if abs_too:
            ip.hooks["utils.absolute_value_as_mixed_integer_constraint"] = \
                self._abs

    def _fill(self, o, B):
        ip = self.ip
        for p in ("in", "eq"):
            for b, n in (("input", B.nin), ("slack", B.ns),
                         ("binary", B.nb)):
                f = "A%s_%s" % (p, b)
                ip.setattr(o, f, T(ip, [B.s(f, i, j) for i in range(B.k[p])
                                        for j in range(n)], (B.k[p], n)))
            ip.setattr(o, "rhs_" + p, T(ip, [B.rhs(p, i)
                                             for i in range(B.k[p])]))

    def _net(self, ip, args, kw):
        names = ["self", "x_lo", "x_up", "method"]
        d = dict(zip(names, args))
        d.update(kw)
        model = ip.getattr(d["self"], "model")
        m = ip.attrs(model)
        if "_tag" not in m:
            return NotImplemented
        nin, nout = m["_nio"]
        B = Block(len(self.blocks), "net", m["_tag"], nin, 2, 2, nout, {
            "lo": list(ip.cells(d["x_lo"])), "up": list(ip.cells(d["x_up"])),
            "method": d["method"]})
        self.blocks.append(B)
        o = ip.call(ip.get("relu_to_optimization",
                           "ReLUMixedIntegerConstraintsReturn"), [], {})
        self._fill(o, B)
        ip.setattr(o, "Aout_slack", T(ip, [
            B.ao(k, j) for k in range(nout) for j in range(B.ns)],
            (nout, B.ns)))
        ip.setattr(o, "Cout", T(ip, [B.co(k) for k in range(nout)]))
        ip.setattr(o, "nn_input_lo", d["x_lo"])
        ip.setattr(o, "nn_input_up", d["x_up"])
        for f, n in (("nn_output", nout), ("relu_input", B.ns),
                     ("relu_output", B.ns)):
            for e in ("lo", "up"):
                ip.setattr(o, "%s_%s" % (f, e), T(ip, [
                    sym("%s.%s_%s.%d" % (B.id, f, e, i)) for i in range(n)]))
        return o

    def _abs(self, ip, args, kw):
        d = dict(zip(["x_lo", "x_up", "binary_for_zero_input"], args))
        d.update(kw)
        z = d.get("binary_for_zero_input", False)
        nb = 3 if ip.truth(z) is True else 1
        B = Block(len(self.blocks), "abs", "abs", 1, 1, nb, 0, {
            "lo": [scalar(ip, d["x_lo"])], "up": [scalar(ip, d["x_up"])]})
        self.blocks.append(B)
        o = ip.call(ip.get("gurobi_torch_mip",
                           "MixedIntegerConstraintsReturn"), [], {})
        self._fill(o, B)
        return o

    def block(self, tag, nin, ns=2, nb=2):
        """a block handed to the code as an argument"""
        B = Block(len(self.blocks), "given", tag, nin, ns, nb, 0, {})
        self.blocks.append(B)
        o = self.ip.call(self.ip.get("gurobi_torch_mip",
                                     "MixedIntegerConstraintsReturn"), [], {})
        self._fill(o, B)
        return o

    # ------------------------------------------------------------- take apart
    def apart(self, key, mip, w, rule="every block row is in the program "
              "exactly once, on one set of variables"):
        """-> (instances, other rows [(expr, sense)], variables)"""
        ip, ck = self.ip, self.ck
        m = mip if "_rows" in ip.attrs(mip) else mic.mip_model(ip, mip)
        rows = []
        for e, s, nm, wh in gm.rows(ip, m):
            rows.append((-e, "<") if s == ">" else (e, s))
        vs = {v[0]: v for v in gm.variables(ip, m)}
        rest, insts = list(rows), []
        for B in self.blocks:
            found = {}
            for p in ("in", "eq"):
                for i in range(B.k[p]):
                    found[p, i] = [r for r in rest if not poly.diff(
                        r[0], str(B.rhs(p, i))).is_zero()]
            if not any(found.values()):
                continue
            uses = len(found["in", 0])
            if uses == 0 or any(len(v) != uses for v in found.values()):
                ck.ob("%s.%s.%s" % (key, B.id, B.tag), False, rule, "rows %s"
                      % {k: len(v) for k, v in found.items()}, w)
                for v in found.values():
                    rest = [r for r in rest if r not in v]
                continue
            for n in range(uses):
                e0 = found["in", 0][n][0]
                ex = {b: [poly.diff(e0, str(B.s("Ain_" + b, 0, j)))
                          for j in range(m)]
                      for b, m in (("input", B.nin), ("slack", B.ns),
                                   ("binary", B.nb))}
                good = True
                for (p, i), v in found.items():
                    want = -B.rhs(p, i)
                    for b in ex:
                        for j, x in enumerate(ex[b]):
                            want = want + B.s("A%s_%s" % (p, b), i, j) * x
                    hit = [r for r in v if r[1] == (
                        "<" if p == "in" else "=") and (
                            r[0] == want or p == "eq" and -r[0] == want)]
                    good &= len(hit) >= 1
                    if hit:
                        v.remove(hit[0])
                        rest = [r for r in rest if r is not hit[0]]
                        if p == "in" and i == 0:
                            # keep the positions of the remaining uses
                            found["in", 0].insert(n, hit[0])
                names = [str(x) for b in ("slack", "binary") for x in ex[b]]
                good &= all(m in vs for m in names) and len(set(names)) == \
                    len(names)
                ck.ob("%s.%s.%s%s" % (key, B.id, B.tag, "" if uses == 1 else
                                      "#%d" % n), good, rule,
                      "%s" % {b: [str(x) for x in ex[b]] for b in ex}, w)
                if good:
                    B.used += 1
                    insts.append(Inst(B, ex["input"], ex["slack"],
                                      ex["binary"]))
            own = [set(map(str, i.slacks + i.binaries)) for i in insts
                   if i.b is B]
            if len(own) > 1:
                ck.ob("%s.%s.%s.apart" % (key, B.id, B.tag), all(
                    not (p & q) for n, p in enumerate(own)
                    for q in own[:n]), "each use of a block has its own "
                    "slack and binary variables", "", w)
        return insts, rest, vs


def scalar(ip, v):
    return Rat.of(ip.cells(v)[0] if isinstance(v, Arr) else v)


def same_rows(ck, key, got, want, rule, w):
    """two lists of (expr, sense), as sets up to the sign of equalities"""
    def form(e, s):
        e = Rat.of(e)
        return (s, min(str(e), str(-e)) if s == "=" else str(e))
    a = sorted(form(*r) for r in got)
    b = sorted(form(*r) for r in want)
    ck.ob(key, a == b, rule, "only in the program: %s; missing: %s" % (
        [x for x in a if x not in b][:3], [x for x in b if x not in a][:3]),
        w)


def norm1(ck, key, insts, rows, lo, up, w, names="|R(x-x*)|_1"):
    """the abs instances stand for |row| over the expressions `rows`; returns
    their slacks in order, or None"""
    left = list(insts)
    out = []
    for k, e in enumerate(rows):
        hit = [i for i in left if i.inputs[0] == e]
        ck.ob("%s.term%d" % (key, k), len(hit) >= 1,
              names + ": one absolute value per row of R", "looking for %s "
              "among %s" % (e, [str(i.inputs[0]) for i in left]), w)
        if not hit:
            return None
        i = hit[0]
        left.remove(i)
        ck.eq("%s.term%d.lo" % (key, k), i.b.args["lo"][0], lo[k],
              "the bounds of the absolute value are the range of its "
              "argument over the box", w)
        ck.eq("%s.term%d.up" % (key, k), i.b.args["up"][0], up[k],
              "the bounds of the absolute value are the range of its "
              "argument over the box", w)
        out.append(i.slacks[0])
    for i in left:
        insts_left = i
    return out


def box(names, pre="x", eq=None):
    """box lo_i <= up_i, and an interior-or-boundary point; symbols with
    decidable order"""
    lo, up, st = [], [], []
    for n in names:
        for t in ("e", "g"):
            poly.set_bounds("%s%s.%s" % (pre, n, t), 0, None, True)
        lo.append(sym("%s%s.lo" % (pre, n)))
        st.append(lo[-1] + sym("%s%s.e" % (pre, n)))
        up.append(st[-1] + sym("%s%s.g" % (pre, n)))
    return lo, st, up


def matrix(name, rows):
    """symbols whose signs follow the pattern, e.g. ['+-', '-+']"""
    out = []
    for i, r in enumerate(rows):
        for j, c in enumerate(r):
            n = "%s.%d.%d" % (name, i, j)
            if c == "0":
                out.append(Rat.const(0))
                continue
            poly.set_bounds(n, 0 if c == "+" else None,
                            None if c == "+" else 0, True, True)
            out.append(sym(n))
    return out


def ia(A, rows, b, lo, up, pat):
    """interval arithmetic range of A x + b"""
    n = len(lo)
    L, U = [], []
    for i in range(rows):
        a = A[i * n:(i + 1) * n]
        L.append(sum((a[j] * (lo[j] if pat[i][j] == "+" else up[j])
                      for j in range(n)), Rat.of(b[i])))
        U.append(sum((a[j] * (up[j] if pat[i][j] == "+" else lo[j])
                      for j in range(n)), Rat.of(b[i])))
    return L, U
