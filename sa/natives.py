"""Transfer functions of the abstract interpreter for Python builtins and for
the numpy / torch operations the repository uses."""
from fractions import Fraction
import itertools
import math

from . import poly
from .poly import Rat, R0, R1
from .values import *
from .interp import _UNSET

EXT = {}
EXT_CONST = {
    "torch.int": ExtV("torch.int32"), "torch.long": ExtV("torch.int64"),
    "torch.double": ExtV("torch.float64"),
    "numpy.pi": poly.PI, "math.pi": poly.PI, "torch.pi": poly.PI,
    "numpy.inf": poly.INF, "math.inf": poly.INF, "torch.inf": poly.INF,
    "numpy.newaxis": None, "sys.maxsize": 2**63 - 1,
}
EXT_CLASSES = {}      # q -> init(ip, obj, args, kw)
EXT_METHODS = {}      # (q, name) -> PyFn
EXT_BASES = {}        # q -> list of base q
EXT_PROPS = {}        # (q, name) -> fn(ip, obj)
IGNORED_KW = {"memory_format", "device", "requires_grad", "pin_memory", "out_dtype", "order",
              "copy", "layout", "non_blocking", "size_average"}


def parse_spec(spec):
    out = []
    for p in spec.split():
        star = p.startswith("*")
        p = p.lstrip("*")
        has = "=" in p
        names, d = (p.split("=", 1) + [None])[:2] if has else (p, None)
        names = names.split("|")
        val = {"None": None, "False": False, "True": True}.get(d, d) \
            if has else _UNSET
        if isinstance(val, str) and val.lstrip("-").isdigit():
            val = int(val)
        elif isinstance(val, str) and val.count(".") == 1 and \
                val.replace(".", "0").isdigit():
            val = Rat.of(float(val))
        out.append((star, names, val))
    return out


def ext(qs, spec):
    ps = parse_spec(spec)

    def deco(f):
        for q in qs.split():
            lib = "torch" if q.startswith("torch") else "np"
            EXT[q] = (f, ps, lib)
        return f
    return deco


def method(q, name, spec="*args"):
    ps = parse_spec(spec)

    def deco(f):
        def g(ip, args, kw):
            return f(ip, args[0], *bind(ip, ps, args[1:], kw, q + "." + name))
        EXT_METHODS[(q, name)] = PyFn(g, q + "." + name)
        return f
    return deco


def bind(ip, ps, args, kw, q):
    vals = []
    args = list(args)
    kw = dict(kw)
    for star, names, d in ps:
        if star:
            vals.append(tuple(args))
            args = []
            continue
        if args:
            vals.append(args.pop(0))
            continue
        for n in names:
            if n in kw:
                vals.append(kw.pop(n))
                break
        else:
            if d is _UNSET:
                raise AbsRaise("TypeError", "%s missing %s" % (q, names[0]),
                               ip.where())
            vals.append(d)
    if args:
        raise Undecided("too many arguments to %s" % q, None, ip.where())
    for k in kw:
        if k not in IGNORED_KW:
            raise Undecided("unmodelled argument %s of %s" % (k, q), None,
                            ip.where())
    return vals


def call_ext(ip, q, args, kw):
    h = ip.hooks.get("ext:" + q)
    if h is not None:
        r = h(ip, args, kw)
        if r is not NotImplemented:
            return r
    ip.stats["natives"].add(q)
    if q in EXT and q[:6] in ("torch.", "numpy."):
        # an argument that is an array on one path only
        for i, x in enumerate(args):
            if isinstance(x, Phi) and (isinstance(x.a, Arr) or
                                       isinstance(x.b, Arr)):
                return ip.on_phi(x, lambda v: call_ext(
                    ip, q, args[:i] + [v] + args[i + 1:], kw))
    if q in EXT:
        f, ps, lib = EXT[q]
        out = None
        if isinstance(kw.get("out"), Arr) and not any(
                "out" in names for _, names, _ in ps):
            kw = dict(kw)
            out = kw.pop("out")
        if out is not None:
            r = f(ip, lib, *bind(ip, ps, args, kw, q))
            ip.store_cells(out, ip.cells(r) if isinstance(r, Arr)
                           else [r] * out.size)
            return out
        vals = bind(ip, ps, args, kw, q)
        r = f(ip, lib, *vals)
        if kw.get("requires_grad") is True and isinstance(r, Arr):
            ip.amodel(r)["requires_grad"] = True
        return r
    if q in EXT_CLASSES:
        o = ip.new_obj(ExtV(q))
        r = EXT_CLASSES[q](ip, o, args, kw)
        return o if r is None else r
    if q.startswith("builtins.") and (q.endswith("Error") or q.endswith(
            "Exception") or q.endswith("Interrupt") or q.endswith("Warning")):
        return ip.new_obj(ExtV(q), {"args": tuple(args)})
    ip.stats["unmodelled"].add(q)
    return Opaque(q, tuple(args) + tuple(v for _, v in sorted(kw.items())))


def ext_attr(ip, o, name):
    q = o.q + "." + name
    if q in EXT_CONST:
        return EXT_CONST[q]
    if (o.q, name) in EXT_METHODS:
        return EXT_METHODS[(o.q, name)]
    if name == "__name__":
        return o.q.split(".")[-1]
    if q in ("torch.nn.functional", "numpy.linalg", "torch.linalg"):
        return ExtV(q)
    return ExtV(q)


def ext_mro(q):
    out = [q]
    for b in EXT_BASES.get(q, ()):
        for x in ext_mro(b):
            if x not in out:
                out.append(x)
    return out


def ext_class_attr(ip, q, name):
    for b in ext_mro(q):
        if (b, name) in EXT_METHODS:
            return EXT_METHODS[(b, name)]
        if name == "__init__" and b in EXT_CLASSES:
            init = EXT_CLASSES[b]

            def g(ip, args, kw, init=init):
                init(ip, args[0], args[1:], kw)
                return None
            return PyFn(g, b + ".__init__")
    return _UNSET


def obj_ext_bases(o):
    """ext base names of an object's class"""
    c = o.cls
    if isinstance(c, ExtV):
        return ext_mro(c.q)
    out = []
    for b in c.mro():
        if isinstance(b, ExtV):
            out.extend(ext_mro(b.q))
    return out


# --------------------------------------------------------------------- arrays
def scal(ip, lib, v):
    return v


def wrap(ip, shape, cells, lib, dtype=None):
    shape = tuple(shape)
    cells = list(cells)
    if lib == "np" and shape == ():
        return cells[0]
    return ip.new_arr(shape, cells, lib, dtype)


def is_num(x):
    return isinstance(x, (int, Rat, Cond)) or isinstance(x, Opaque)


def dtname(x):
    """'int'/'float'/'bool'/None of a dtype argument"""
    if x is None:
        return None
    n = x.q if isinstance(x, ExtV) else (x.name if isinstance(x, PyFn)
                                         else x if isinstance(x, str) else
                                         None)
    if n is None:
        return None
    n = n.split(".")[-1]
    if n.startswith("int") or n in ("long", "uint8", "LongTensor",
                                    "IntTensor"):
        return "int"
    if n.startswith("bool") or n == "BoolTensor":
        return "bool"
    if n.startswith("float") or n in ("double", "FloatTensor",
                                      "DoubleTensor"):
        return "float"
    return None


def cell_dt(c):
    if isinstance(c, (bool, Cond)):
        return "bool"
    if isinstance(c, int):
        return "int"
    if isinstance(c, Rat):
        return "float"
    return "object"


def to_arr(ip, x, lib="np"):
    if isinstance(x, Arr):
        return x
    if isinstance(x, (ListV, tuple, range)):
        return make_array(ip, x, lib)
    a = ip.new_arr((), [x], lib, cell_dt(x))
    return a


def nested(ip, x):
    """-> (shape, cells)"""
    if isinstance(x, Arr):
        return x.shape, ip.cells(x)
    if isinstance(x, (ListV, tuple, range, list)):
        items = ip.iterate(x)
        if not items:
            return (0, ), []
        sub = [nested(ip, y) for y in items]
        s0 = sub[0][0]
        for s, _ in sub:
            if s != s0:
                raise AbsRaise("ValueError", "inhomogeneous array %s vs %s" %
                               (s, s0), ip.where())
        return (len(items), ) + s0, [c for _, cs in sub for c in cs]
    return (), [x]


def conv(ip, c, dt):
    if dt == "int":
        if isinstance(c, Rat) and c.is_const():
            return int(c.const_value())
        if isinstance(c, bool):
            return int(c)
        if isinstance(c, Rat):
            return poly.fn("trunc", c)
        if isinstance(c, Cond):
            return ind(c)
        return c
    if dt == "float":
        if isinstance(c, bool):
            return Rat.const(int(c))
        if isinstance(c, int):
            return Rat.const(c)
        if isinstance(c, Cond):
            return ind(c)
        return c
    if dt == "bool":
        if isinstance(c, (bool, Cond)):
            return c
        if isinstance(c, (int, Rat)):
            return ip.truth(c)
        return c
    return c


def make_array(ip, x, lib, dtype=None):
    shape, cells = nested(ip, x)
    dt = dtname(dtype)
    if dt is None:
        kinds = set(cell_dt(c) for c in cells)
        if isinstance(x, Arr):
            dt = ip.dtype(x)
        elif kinds == {"bool"}:
            dt = "bool"
        elif kinds and kinds <= {"int", "bool"}:
            dt = "int"
            # 0-d float tensors hold ints too
            if _has_float_arr(ip, x):
                dt = "float"
        elif "object" in kinds:
            dt = "object"
        else:
            dt = "float"
    if dt != "object":
        cells = [conv(ip, c, dt) for c in cells]
    if lib == "np" and ip.live is not None:
        cells = [freeze(ip, c) for c in cells]
    r = ip.new_arr(shape, cells, lib, dt)
    return r


def _has_float_arr(ip, x):
    if isinstance(x, Arr):
        return ip.dtype(x) == "float"
    if isinstance(x, (ListV, tuple, list)):
        return any(_has_float_arr(ip, y) for y in ip.iterate(x))
    return False


def copy_arr(ip, a, lib=None, dtype=None):
    return ip.new_arr(a.shape, ip.cells(a), lib or a.lib,
                      dtype or ip.dtype(a))


def ew1(ip, f, arr, dtype=None):
    cells = ip.cells(arr)
    if len(cells) > 64:
        memo, out = {}, []
        for c in cells:
            k = id(c)
            if k not in memo:
                memo[k] = f(c)
            out.append(memo[k])
        cells = out
    else:
        cells = [f(c) for c in cells]
    if dtype is None:
        k = set(cell_dt(c) for c in cells)
        dtype = "bool" if k == {"bool"} else ip.dtype(arr)
        if dtype == "bool" and k != {"bool"} and k:
            dtype = "float"
    return wrap(ip, arr.shape, cells, arr.lib, dtype)


def bshape(ip, s, t):
    n = max(len(s), len(t))
    s = (1, ) * (n - len(s)) + tuple(s)
    t = (1, ) * (n - len(t)) + tuple(t)
    out = []
    for a, b in zip(s, t):
        if a == b or b == 1:
            out.append(a)
        elif a == 1:
            out.append(b)
        else:
            raise AbsRaise("ValueError", "shape mismatch %s %s" % (s, t),
                           ip.where())
    return tuple(out)


def strides(shape):
    st = []
    k = 1
    for d in reversed(shape):
        st.append(k)
        k *= d
    return tuple(reversed(st))


def bindex(shape, target):
    """flat indices into shape for every element of the broadcast target"""
    n = len(target)
    s = (1, ) * (n - len(shape)) + tuple(shape)
    st = strides(s)
    st = tuple(0 if d == 1 else k for d, k in zip(s, st))
    return [sum(i * k for i, k in zip(ix, st))
            for ix in itertools.product(*[range(d) for d in target])]


def bcast_cells(ip, a, target):
    c = ip.cells(a)
    if a.shape == tuple(target):
        return c
    return [c[i] for i in bindex(a.shape, target)]


def join_lib(a, b):
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a.lib == b.lib:
            return a.lib
        return "torch"
    return a.lib if isinstance(a, Arr) else b.lib


def ew2(ip, f, a, b, dtype=None):
    lib = join_lib(a, b)
    if isinstance(a, Arr) and isinstance(b, Arr) and a.lib != b.lib and \
            a.shape != () and b.shape != ():
        ip.events.append(("mixed-lib", ip.where(), a, b))
    a, b = to_arr(ip, a, lib), to_arr(ip, b, lib)
    sh = bshape(ip, a.shape, b.shape)
    cells = [f(x, y) for x, y in zip(bcast_cells(ip, a, sh),
                                     bcast_cells(ip, b, sh))]
    if dtype is None:
        da, db = ip.dtype(a), ip.dtype(b)
        k = set(cell_dt(c) for c in cells)
        if k == {"bool"}:
            dtype = "bool"
        elif "object" in (da, db):
            dtype = "object"
        elif "float" in (da, db) or "float" in k:
            dtype = "float"
        elif k and k <= {"int", "bool"}:
            dtype = "int"
        else:
            dtype = "float" if k else "float"
    return wrap(ip, sh, cells, lib, dtype)


def cop(ip, op, x, y):
    if is_num(x) and is_num(y):
        return ip.scalar_op(op, x, y)
    return ip.binop(op, x, y)


def arr_binop(ip, op, a, b):
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        arr = a if isinstance(a, Arr) else b
        if op != "MatMult":
            return ew2(ip, lambda x, y: cop(ip, op, x, y), a, b)
        return Opaque("opMatMult", (a, b))
    for x in (a, b):
        if x is None or isinstance(x, (str, DictV)):
            raise AbsRaise("TypeError", "operand %r" % (x, ), ip.where())
    if isinstance(a, (ListV, tuple)):
        a = make_array(ip, a, b.lib)
    if isinstance(b, (ListV, tuple)):
        b = make_array(ip, b, a.lib)
    if op == "MatMult":
        return matmul(ip, a, b)
    return ew2(ip, lambda x, y: cop(ip, op, x, y), a, b)


def _dot(ip, xs, ys):
    tot = None
    for x, y in zip(xs, ys):
        p = cop(ip, "Mult", x, y)
        tot = p if tot is None else cop(ip, "Add", tot, p)
    return R0 if tot is None else tot


def matmul(ip, a, b):
    if not isinstance(a, Arr) or not isinstance(b, Arr) or not a.shape or \
            not b.shape:
        raise AbsRaise("ValueError", "matmul of scalar", ip.where())
    lib = join_lib(a, b)
    sa, sb = a.shape, b.shape
    if len(sa) > 2 or len(sb) > 2:
        return batch_matmul(ip, a, b, lib)
    A = ip.cells(a)
    B = ip.cells(b)
    m, k = (1, sa[0]) if len(sa) == 1 else sa
    k2, n = (sb[0], 1) if len(sb) == 1 else sb
    if k != k2:
        raise AbsRaise("ValueError", "matmul shapes %s %s" % (sa, sb),
                       ip.where())
    rows = [A[i * k:(i + 1) * k] for i in range(m)]
    cols = [B[j::n] for j in range(n)]
    cells = [_dot(ip, r, c) for r in rows for c in cols]
    sh = ((m, ) if len(sa) == 2 else ()) + ((n, ) if len(sb) == 2 else ())
    dt = None
    da, db = ip.dtype(a), ip.dtype(b)
    dt = "int" if da == db == "int" else (
        "object" if "object" in (da, db) else "float")
    return wrap(ip, sh, cells, lib, dt)


def batch_matmul(ip, a, b, lib):
    sa, sb = a.shape, b.shape
    if len(sa) == 1 or len(sb) == 1:
        raise Undecided("batched matvec", None, ip.where())
    bs = bshape(ip, sa[:-2], sb[:-2])
    ia, ib = bindex(sa[:-2], bs), bindex(sb[:-2], bs)
    m, k = sa[-2:]
    k2, n = sb[-2:]
    if k != k2:
        raise AbsRaise("ValueError", "matmul shapes", ip.where())
    A, B = ip.cells(a), ip.cells(b)
    cells = []
    for p, q in zip(ia, ib):
        a0 = A[p * m * k:(p + 1) * m * k]
        b0 = B[q * k * n:(q + 1) * k * n]
        for i in range(m):
            for j in range(n):
                cells.append(_dot(ip, a0[i * k:(i + 1) * k], b0[j::n]))
    return wrap(ip, bs + (m, n), cells, lib, "float")


def arr_compare(ip, op, a, b):
    if isinstance(a, (ListV, tuple)):
        a = make_array(ip, a, b.lib)
    if isinstance(b, (ListV, tuple)):
        b = make_array(ip, b, a.lib)
    for x in (a, b):
        if isinstance(x, ObjV):
            r = native_compare(ip, op, a, b)
            if r is not NotImplemented:
                return r

    def f(x, y):
        if is_num(x) and is_num(y):
            return ip.scalar_cmp(op, x, y)
        return ip.compare(op, x, y)
    r = ew2(ip, f, a, b)
    if isinstance(r, Arr):
        ip.st.meta[r.addr]["dtype"] = "bool"
    return r


# ------------------------------------------------------------------- indexing
def _expand_key(ip, arr, key):
    key = list(key)
    n = sum(1 for k in key if k is not None and k is not Ellipsis and
            not (isinstance(k, Arr) and ip.dtype(k) == "bool"))
    n += sum(len(k.shape) for k in key if isinstance(k, Arr) and
             ip.dtype(k) == "bool")
    if any(k is Ellipsis for k in key):
        i = [j for j, k in enumerate(key) if k is Ellipsis][0]
        key[i:i + 1] = [SliceV(None, None, None)] * (len(arr.shape) - n)
    else:
        key += [SliceV(None, None, None)] * (len(arr.shape) - n)
    return key


def select(ip, arr, key):
    """-> (shape, positions into arr.idx, is_view)"""
    if len(key) == 1 and isinstance(key[0], (bool, Cond)):
        raise Undecided("boolean scalar index", None, ip.where())
    key = _expand_key(ip, arr, key)
    st = strides(arr.shape)
    dims = []      # list of ("s", [offsets]) | ("n",) | ("a", shape, offs)
    d = 0
    view = True
    for k in key:
        if k is None:
            dims.append(("s", [0]))
            continue
        if isinstance(k, (ListV, range)):
            k = make_array(ip, k, "np")
        if isinstance(k, Arr) and ip.dtype(k) == "bool":
            bs = k.shape
            if tuple(arr.shape[d:d + len(bs)]) != tuple(bs):
                raise AbsRaise("IndexError", "boolean index shape",
                               ip.where())
            cs = [ip.truth(c) for c in ip.cells(k)]
            if not all(isinstance(c, bool) for c in cs):
                raise Undecided("symbolic boolean mask", None, ip.where())
            sst = st[d:d + len(bs)]
            offs = []
            for ix, c in zip(itertools.product(*[range(x) for x in bs]), cs):
                if c:
                    offs.append(sum(i * s for i, s in zip(ix, sst)))
            dims.append(("a", (len(offs), ), offs))
            d += len(bs)
            view = False
            continue
        if d >= len(arr.shape):
            raise AbsRaise("IndexError", "too many indices", ip.where())
        size = arr.shape[d]
        if isinstance(k, SliceV):
            dims.append(("s", [i * st[d] for i in range(size)[k.py()]]))
        elif isinstance(k, Arr) and k.shape != ():
            offs = []
            for c in ip.cells(k):
                i = ip.as_index(c)
                if not -size <= i < size:
                    raise AbsRaise("IndexError", "index %d of %d" %
                                   (i, size), ip.where())
                offs.append((i % size) * st[d])
            dims.append(("a", k.shape, offs))
            view = False
        else:
            i = ip.as_index(k)
            if not -size <= i < size:
                raise AbsRaise("IndexError", "index %d of %d" % (i, size),
                               ip.where())
            dims.append(("i", (i % size) * st[d]))
        d += 1
    base = sum(x[1] for x in dims if x[0] == "i")
    adv = [x for x in dims if x[0] == "a"]
    parts = []
    if len(adv) > 1:
        sh = ()
        for x in adv:
            sh = bshape(ip, sh, x[1])
        tot = [0] * _prod(sh)
        for x in adv:
            for j, i in enumerate(bindex(x[1], sh)):
                tot[j] += x[2][i]
        done = False
        for x in dims:
            if x[0] == "a":
                if not done:
                    parts.append((sh, tot))
                    done = True
            elif x[0] == "s":
                parts.append(((len(x[1]), ), x[1]))
    else:
        for x in dims:
            if x[0] == "a":
                parts.append((x[1], x[2]))
            elif x[0] == "s":
                parts.append(((len(x[1]), ), x[1]))
    shape = ()
    for s, _ in parts:
        shape += tuple(s)
    pos = [base + sum(c) for c in itertools.product(*[p[1] for p in parts])]
    return shape, pos, view


def _prod(s):
    n = 1
    for d in s:
        n *= d
    return n


def arr_get(ip, arr, key):
    if len(key) == 1 and isinstance(key[0], Arr) and \
            ip.dtype(key[0]) == "bool" and key[0].shape == arr.shape:
        cs = [ip.truth(c) for c in ip.cells(key[0])]
        if not all(isinstance(c, bool) for c in cs):
            return MaskedSel(ip, arr, cs)
    shape, pos, view = select(ip, arr, key)
    if arr.lib == "np" and shape == () and view:
        return ip.st.heap[arr.addr][arr.idx[pos[0]]]
    if view:
        return Arr(arr.addr, shape, [arr.idx[p] for p in pos], arr.lib)
    h = ip.st.heap[arr.addr]
    return ip.new_arr(shape, [h[arr.idx[p]] for p in pos], arr.lib,
                      ip.dtype(arr))


def MaskedSel(ip, arr, cs):
    return ip.new_obj(ExtV("maskedsel"),
                      {"arr": arr, "mask": tuple(cs),
                       "cells": tuple(ip.cells(arr))})


def arr_set(ip, arr, key, v):
    if len(key) == 1 and isinstance(key[0], Arr) and \
            ip.dtype(key[0]) == "bool" and key[0].shape == arr.shape:
        cs = [ip.truth(c) for c in ip.cells(key[0])]
        if not all(isinstance(c, bool) for c in cs):
            old = ip.cells(arr)
            if isinstance(v, Arr) and v.shape == ():
                v = ip.cells(v)[0]
            if isinstance(v, (int, Rat, Cond)):
                new = [v] * len(old)
            elif isinstance(v, ObjV) and v.cls == ExtV("maskedsel") and \
                    ip.attrs(v)["mask"] == tuple(cs):
                new = ip.attrs(v)["cells"]
            else:
                raise Undecided("masked store", None, ip.where())
            ip.store_cells(arr, [ite_scalar(c, n, o)
                                 for c, n, o in zip(cs, new, old)])
            return
    shape, pos, view = select(ip, arr, key)
    t = Arr(arr.addr, shape, [arr.idx[p] for p in pos], arr.lib)
    if isinstance(v, (ListV, tuple)):
        v = make_array(ip, v, arr.lib)
    if isinstance(v, Arr):
        s = tuple(v.shape)
        if shape == () and s and arr.lib == v.lib == "np" and all(
                isinstance(x, (int, Rat)) for x in key):
            # one element of a numpy array takes a scalar (numpy >= 2.4)
            raise AbsRaise("ValueError", "setting an array element with a "
                           "sequence", ip.where())
        # extra leading ones are allowed
        while len(s) > len(shape) and s[0] == 1:
            s = s[1:]
        v = Arr(v.addr, s, v.idx, v.lib)
        if bshape(ip, shape, s) != tuple(shape):
            raise AbsRaise("ValueError", "cannot assign %s into %s" %
                           (v.shape, shape), ip.where())
        ip.store_cells(t, bcast_cells(ip, v, shape))
    else:
        ip.store_cells(t, [v] * len(pos))


# ----------------------------------------------------------------- reductions
def axis_groups(shape, axis, keep):
    n = len(shape)
    axes = range(n) if axis is None else [
        a % n for a in (axis if isinstance(axis, tuple) else (axis, ))]
    axes = set(axes)
    st = strides(shape)
    outer = [range(d) if i not in axes else (0, )
             for i, d in enumerate(shape)]
    inner = [range(d) if i in axes else (0, ) for i, d in enumerate(shape)]
    groups = []
    offs = [sum(i * s for i, s in zip(ix, st))
            for ix in itertools.product(*inner)]
    for ix in itertools.product(*outer):
        b = sum(i * s for i, s in zip(ix, st))
        groups.append([b + o for o in offs])
    osh = tuple((1 if i in axes else d) for i, d in enumerate(shape)
                if keep or i not in axes)
    return osh, groups


def as_axis(ip, a):
    if a is None:
        return None
    if isinstance(a, (tuple, ListV)):
        return tuple(ip.as_index(x) for x in ip.iterate(a))
    return ip.as_index(a)


def reduce(ip, a, axis, keep, f, dtype=None):
    axis = as_axis(ip, axis)
    if axis is not None and not isinstance(axis, tuple) and a.shape and \
            not -len(a.shape) <= axis < len(a.shape):
        raise AbsRaise("IndexError", "dimension out of range", ip.where())
    c = ip.cells(a)
    osh, groups = axis_groups(a.shape, axis, keep)
    return wrap(ip, osh, [f([c[i] for i in g]) for g in groups], a.lib,
                dtype or ip.dtype(a))


def csum(ip, xs):
    tot = R0
    first = True
    for x in xs:
        if first:
            tot, first = ip.num(x), False
        else:
            tot = cop(ip, "Add", tot, x)
    return tot


def cmax(ip, x, y):
    if isinstance(x, Opaque) or isinstance(y, Opaque):
        return Opaque("max", (x, y))
    x, y = ip.num(x), ip.num(y)
    if isinstance(x, int) and isinstance(y, int):
        return max(x, y)
    d = ip.decide(c_ge(Rat.of(x) - Rat.of(y)))
    if d is True:
        return x
    if d is False:
        return y
    return poly.max2(Rat.of(x), Rat.of(y))


def cneg(ip, x):
    if isinstance(x, Opaque):
        return Opaque("neg", (x, ))
    return -ip.num(x)


def cmin(ip, x, y):
    return cneg(ip, cmax(ip, cneg(ip, x), cneg(ip, y)))


def cabs(ip, x):
    if isinstance(x, Opaque):
        return Opaque("abs", (x, ))
    x = ip.num(x)
    if isinstance(x, int):
        return abs(x)
    d = ip.decide(c_ge(x))
    if d is True:
        return x
    if d is False:
        return -x
    return poly.absv(x)


def cfn(name):
    table = {"sin": poly.sin, "cos": poly.cos, "tan": poly.tan,
             "sqrt": poly.sqrt, "exp": poly.exp, "log": poly.log}
    f = table.get(name)
    if f is None:
        def f(x):
            return poly.fn(name, x)

    def g(ip, x):
        if isinstance(x, Opaque):
            return Opaque(name, (x, ))
        return f(Rat.of(ip.num(x)))
    return g


def tot(f):
    import functools
    return lambda ip, xs: functools.reduce(lambda x, y: f(ip, x, y), xs)


def cast_scalar(ip, x, lib):
    """apply scalar function uniformly to scalars/arrays"""
    if isinstance(x, (ListV, tuple)):
        return make_array(ip, x, lib)
    return x


def map1(ip, lib, f, x, dtype="float"):
    x = cast_scalar(ip, x, lib)
    if isinstance(x, Arr):
        return ew1(ip, lambda c: f(ip, c), x, dtype)
    if isinstance(x, Phi):
        return ip.on_phi(x, lambda y: map1(ip, lib, f, y, dtype))
    if lib == "torch" and is_num(x):
        raise AbsRaise("TypeError", "torch function of python scalar",
                       ip.where())
    return f(ip, x)


for _n, _names in {
        "sin": "numpy.sin torch.sin math.sin", "cos":
        "numpy.cos torch.cos math.cos", "tan": "numpy.tan torch.tan math.tan",
        "sqrt": "numpy.sqrt torch.sqrt math.sqrt",
        "exp": "numpy.exp torch.exp math.exp",
        "log": "numpy.log torch.log math.log",
        "sigmoid": "torch.sigmoid torch.nn.functional.sigmoid",
        "tanh": "numpy.tanh torch.tanh torch.nn.functional.tanh",
        "asin": "numpy.arcsin torch.asin torch.arcsin math.asin",
        "acos": "numpy.arccos torch.acos torch.arccos math.acos",
        "ceil": "numpy.ceil math.ceil torch.ceil",
        "floor": "numpy.floor math.floor torch.floor",
        "round": "numpy.round torch.round",
        "atan": "numpy.arctan torch.atan math.atan"}.items():
    def _mk(n):
        f0 = cfn(n)

        def f(ip, x):
            if n in ("ceil", "floor", "round"):
                y = ip.num(x)
                if isinstance(y, int):
                    return y
                if isinstance(y, Rat) and y.is_const():
                    v = {"ceil": math.ceil, "floor": math.floor,
                         "round": round}[n](y.const_value())
                    return int(v)
            return f0(ip, x)
        ext(_names, "x")(lambda ip, lib, x: map1(ip, lib, f, x))
    _mk(_n)


@ext("numpy.abs numpy.absolute torch.abs numpy.fabs", "x")
def _abs(ip, lib, x):
    x = cast_scalar(ip, x, lib)
    if isinstance(x, Arr):
        return ew1(ip, lambda c: cabs(ip, c), x)
    return cabs(ip, x)


@ext("numpy.square torch.square", "x")
def _square(ip, lib, x):
    return ip.binop("Mult", x, x)


@ext("numpy.sign torch.sign", "x")
def _sign(ip, lib, x):
    def f(ip, c):
        r = Rat.of(ip.num(c))
        return poly.ind_gt(r) - poly.ind_gt(-r)
    return map1(ip, lib, f, x)


@ext("torch.nn.functional.relu torch.relu", "x inplace=False")
def _relu(ip, lib, x, inplace):
    return overwrite(ip, x, ew1(ip, lambda c: crelu(ip, c, R0), x), inplace)


def overwrite(ip, x, r, inplace):
    """the result of an operation that may work in place"""
    if inplace is not None and isinstance(x, Arr) and isinstance(r, Arr) \
            and ip.truth(inplace) is True:
        ip.store_cells(x, ip.cells(r))
        return x
    return r


def crelu(ip, c, slope):
    """leaky relu as max/min of the normal form"""
    if isinstance(c, Opaque):
        return Opaque("relu", (c, ))
    c = Rat.of(ip.num(c))
    d = ip.decide(c_ge(c))
    if d is True:
        return c
    if d is False:
        return slope * c
    # slope*c + (1-slope)*relu(c)
    return slope * c + (1 - Rat.of(slope)) * poly.relu(c)


@ext("torch.relu_ torch.nn.functional.relu_", "x")
def _relu_in(ip, lib, x):
    return _relu(ip, lib, x, True)


@ext("torch.nn.functional.leaky_relu_", "x negative_slope=None")
def _lrelu_in(ip, lib, x, s):
    return _lrelu(ip, lib, x, s, True)


@ext("torch.nn.functional.leaky_relu", "x negative_slope=None inplace=False")
def _lrelu(ip, lib, x, s, inplace):
    s = Rat.const(Fraction(1, 100)) if s is None else Rat.of(s)
    return overwrite(ip, x, ew1(ip, lambda c: crelu(ip, c, s), x), inplace)


@ext("numpy.power torch.pow math.pow", "x y")
def _pow(ip, lib, x, y):
    return ip.binop("Pow", x, y)


@ext("numpy.add torch.add", "x y alpha=1")
def _fadd(ip, lib, x, y, al):
    return ip.binop("Add", x, y if al == 1 else ip.binop("Mult", y, al))


@ext("numpy.subtract torch.sub", "x y alpha=1")
def _fsub(ip, lib, x, y, al):
    return ip.binop("Sub", x, y if al == 1 else ip.binop("Mult", y, al))


@ext("numpy.multiply torch.mul", "x y")
def _fmul(ip, lib, x, y):
    return ip.binop("Mult", x, y)


@ext("numpy.divide torch.div torch.true_divide", "x y")
def _fdiv(ip, lib, x, y):
    return ip.binop("Div", x, y)


@ext("numpy.negative torch.neg", "x")
def _fneg(ip, lib, x):
    return ip.unary("USub", x)


@ext("numpy.dot numpy.matmul torch.dot torch.matmul torch.mm torch.mv "
     "torch.bmm", "x y")
def _fdot(ip, lib, x, y):
    if isinstance(x, Phi):
        return ip.on_phi(x, lambda v: _fdot(ip, lib, v, y))
    if isinstance(y, Phi):
        return ip.on_phi(y, lambda v: _fdot(ip, lib, x, v))
    x = cast_scalar(ip, x, lib)
    y = cast_scalar(ip, y, lib)
    if isinstance(x, Arr) and isinstance(y, Arr) and x.shape and y.shape:
        return matmul(ip, x, y)
    return ip.binop("Mult", x, y)


@ext("numpy.outer torch.outer torch.ger", "x y")
def _outer(ip, lib, x, y):
    x, y = to_arr(ip, x, lib), to_arr(ip, y, lib)
    return wrap(ip, (x.size, y.size),
                [cop(ip, "Mult", a, b) for a in ip.cells(x)
                 for b in ip.cells(y)], lib, "float")


@ext("numpy.cross torch.cross torch.linalg.cross", "x y dim|axis=None")
def _cross(ip, lib, x, y, dim):
    x, y = to_arr(ip, x, lib), to_arr(ip, y, lib)
    if x.shape != y.shape:
        raise Undecided("broadcast cross", None, ip.where())
    ax = as_axis(ip, dim)
    if ax is None:
        ax = -1
        if lib == "torch":
            ax = [i for i, d in enumerate(x.shape) if d == 3][0]
    _, gr = axis_groups(x.shape, ax, False)
    cx, cy = ip.cells(x), ip.cells(y)
    out = [None] * x.size
    for g in gr:
        if len(g) != 3:
            raise AbsRaise("ValueError", "cross dims", ip.where())
        for k in range(3):
            i, j = g[(k + 1) % 3], g[(k + 2) % 3]
            out[g[k]] = cop(ip, "Sub", cop(ip, "Mult", cx[i], cy[j]),
                            cop(ip, "Mult", cx[j], cy[i]))
    return wrap(ip, x.shape, out, join_lib(x, y), "float")


@ext("torch.einsum numpy.einsum", "spec *ops")
def _einsum(ip, lib, spec, ops):
    if len(ops) == 1 and isinstance(ops[0], (ListV, tuple)):
        ops = ip.iterate(ops[0])
    spec = spec.replace(" ", "")
    lhs, _, rhs = spec.partition("->")
    ins = lhs.split(",")
    if "->" not in spec:
        rhs = "".join(sorted(c for c in set("".join(ins))
                             if "".join(ins).count(c) == 1))
    size = {}
    for s, o in zip(ins, ops):
        if len(s) != len(o.shape):
            raise AbsRaise("RuntimeError", "einsum rank", ip.where())
        for c, d in zip(s, o.shape):
            if size.setdefault(c, d) != d:
                raise AbsRaise("RuntimeError", "einsum size", ip.where())
    inner = sorted(set(size) - set(rhs))
    cs = [ip.cells(o) for o in ops]
    sts = [strides(o.shape) for o in ops]
    out = []
    for ix in itertools.product(*[range(size[c]) for c in rhs]):
        env = dict(zip(rhs, ix))
        t = R0
        for iy in itertools.product(*[range(size[c]) for c in inner]):
            env.update(zip(inner, iy))
            p = None
            for s, c, st in zip(ins, cs, sts):
                e = c[sum(env[k] * q for k, q in zip(s, st))]
                p = e if p is None else cop(ip, "Mult", p, e)
            t = cop(ip, "Add", t, p)
        out.append(t)
    return wrap(ip, tuple(size[c] for c in rhs), out, ops[0].lib, "float")


# -- creation
def shape_arg(ip, args):
    if len(args) == 1:
        a = args[0]
        if isinstance(a, (tuple, ListV)):
            args = ip.iterate(a)
        elif isinstance(a, Arr) and a.shape:
            args = ip.iterate(a)
    return tuple(ip.as_index(x) for x in args)


def _filled(name, val):
    def f(ip, lib, shape, dtype):
        sh = shape_arg(ip, shape)
        return _fill(ip, lib, sh, val, dtype)

    def fn_np(ip, lib, shape, dtype):
        return f(ip, lib, (shape, ), dtype)
    ext("numpy." + name, "shape dtype=None")(fn_np)
    ext("torch." + name, "*shape dtype=None size=None")(
        lambda ip, lib, shape, dtype, size: f(
            ip, lib, shape if size is None else (size, ), dtype))
    ext("numpy.%s_like torch.%s_like" % (name, name), "x dtype=None")(
        lambda ip, lib, x, dtype: _fill(
            ip, to_arr(ip, x, lib).lib, to_arr(ip, x, lib).shape, val,
            dtype, ip.dtype(to_arr(ip, x, lib)) if dtype is None else None))


def _fill(ip, lib, sh, val, dtype, dflt=None):
    dt = dtname(dtype) or dflt or "float"
    n = _prod(sh)
    if n > 40000:
        raise Undecided("array too large", None, ip.where())
    v = val
    if v == "empty":
        v = Opaque("uninit")
        a = ip.new_arr(sh, [v] * n, lib, dt)
        return a
    if dt == "bool":
        v = bool(v) if isinstance(v, int) else v
    elif dt == "float" and type(v) is int:
        v = Rat.const(v)
    return ip.new_arr(sh, [v] * n, lib, dt)


_filled("zeros", 0)
_filled("ones", 1)
_filled("empty", "empty")


@ext("numpy.full torch.full", "shape|size fill_value dtype=None")
def _full(ip, lib, shape, v, dtype):
    sh = shape_arg(ip, (shape, ))
    if isinstance(v, Arr) and v.size == 1:
        v = ip.cells(v)[0]
    if isinstance(v, Arr):
        a = ip.new_arr(sh, bcast_cells(ip, v, sh), lib, "float")
        return a
    dt = dtname(dtype) or ("bool" if isinstance(v, (bool, Cond)) else
                           "int" if isinstance(v, int) else "float")
    return ip.new_arr(sh, [conv(ip, v, dt)] * _prod(sh), lib, dt)


@ext("numpy.full_like torch.full_like", "x fill_value dtype=None")
def _full_like(ip, lib, x, v, dtype):
    return ip.new_arr(x.shape, [conv(ip, ip.num(v), ip.dtype(x))] * x.size,
                      x.lib, ip.dtype(x))


@ext("numpy.eye torch.eye numpy.identity", "n m|M=None dtype=None")
def _eye(ip, lib, n, m, dtype):
    n = ip.as_index(n)
    m = n if m is None else ip.as_index(m)
    return ip.new_arr((n, m), [R1 if i == j else R0 for i in range(n)
                               for j in range(m)], lib,
                      dtname(dtype) or "float")


@ext("numpy.diag torch.diag", "x k|diagonal=0")
def _diag(ip, lib, x, k):
    x = to_arr(ip, x, lib)
    c = ip.cells(x)
    if len(x.shape) == 1:
        n = x.shape[0] + abs(k)
        out = [R0] * (n * n)
        for i in range(x.shape[0]):
            r, q = (i, i + k) if k >= 0 else (i - k, i)
            out[r * n + q] = c[i]
        return ip.new_arr((n, n), out, x.lib, "float")
    m, n = x.shape
    d = [c[i * n + i + k] for i in range(m) if 0 <= i + k < n]
    return ip.new_arr((len(d), ), d, x.lib, ip.dtype(x))


ext("numpy.diagonal torch.diagonal", "x k=0")(_diag)


@ext("numpy.arange torch.arange", "*a dtype=None")
def _arange(ip, lib, a, dtype):
    a = [ip.num(x) for x in a]
    if all(isinstance(x, int) for x in a):
        r = list(range(*a))
        return ip.new_arr((len(r), ), r, lib, dtname(dtype) or "int")
    lo, hi, st = (R0, a[0], R1) if len(a) == 1 else (
        a[0], a[1], a[2] if len(a) > 2 else R1)
    lo, hi, st = Rat.of(lo), Rat.of(hi), Rat.of(st)
    k = (hi - lo) / st
    if not k.is_const():
        raise Undecided("symbolic arange", None, ip.where())
    n = max(0, math.ceil(k.const_value()))
    return ip.new_arr((n, ), [lo + st * i for i in range(n)], lib, "float")


@ext("numpy.linspace torch.linspace", "lo|start up|stop|end n|num|steps=50 "
     "dtype=None endpoint=True")
def _linspace(ip, lib, lo, up, n, dtype, endpoint):
    n = ip.as_index(n)
    lo, up = Rat.of(ip.num(lo)), Rat.of(ip.num(up))
    k = n - 1 if endpoint else n
    return ip.new_arr((n, ), [lo + (up - lo) * Fraction(i, k) if k else lo
                              for i in range(n)], lib, "float")


@ext("numpy.array numpy.asarray", "x dtype=None ndmin=None")
def _nparray(ip, lib, x, dtype, ndmin):
    if isinstance(x, Opaque):
        return x
    if isinstance(x, Phi):
        return ip.on_phi(x, lambda y: _nparray(ip, lib, y, dtype, ndmin))
    return make_array(ip, x, "np", dtype)


@ext("torch.tensor torch.as_tensor torch.asarray", "x dtype=None")
def _tensor(ip, lib, x, dtype):
    if isinstance(x, Opaque):
        return Opaque("tensor", (x, ))
    return cut(ip, make_array(ip, x, "torch", dtype))


# -------------------------------------------------------------- gradient cuts
# With ip.live set (a predicate on atoms), the values that autograd no longer
# connects to the trainable symbols are renamed: W -> W'. Branches are decided
# on the original values.
FROZEN = "\u2032"


def frozen_atom(a):
    return a.kind in ("sym", "fn") and a.name.endswith(FROZEN)


def freeze(ip, v):
    if ip.live is None or not isinstance(v, Rat) or v.is_const():
        return v
    memo = ip.frozen_memo
    r = memo.get(v)
    if r is None:
        r = memo[v] = poly.subst(v, lambda a: _freeze_atom(ip, a))
    return r


def _freeze_atom(ip, a):
    if a.kind not in ("sym", "fn") or a.name.endswith(FROZEN) or \
            not ip.live(a):
        return None
    if a.kind == "fn":
        return poly.fn(a.name + FROZEN, *[
            freeze(ip, x) if isinstance(x, Rat) else x for x in a.args])
    poly.copy_bounds(a.name, a.name + FROZEN)
    return Rat.sym(a.name + FROZEN)


def thaw(ip, v):
    if ip.live is None or not isinstance(v, Rat) or v.is_const():
        return v
    r = ip.thaw_memo.get(v)
    if r is None:
        r = ip.thaw_memo[v] = poly.subst(v, thaw_atom)
    return r


def thaw_atom(a):
    if not frozen_atom(a):
        return None
    if a.kind == "fn":
        return poly.fn(a.name[:-1], *[
            poly.subst(x, thaw_atom) if isinstance(x, Rat) else x
            for x in a.args])
    return Rat.sym(a.name[:-1])


def cut(ip, r):
    """r as a constant"""
    if ip.live is None or not isinstance(r, Arr):
        return r
    return ip.new_arr(r.shape, [freeze(ip, c) for c in ip.cells(r)], r.lib,
                      ip.dtype(r))


@ext("torch.Tensor torch.DoubleTensor torch.FloatTensor torch.LongTensor",
     "*a")
def _Tensor(ip, lib, a):
    if len(a) == 1 and isinstance(a[0], (ListV, tuple, Arr)):
        return make_array(ip, a[0], "torch")
    sh = tuple(ip.as_index(x) for x in a)
    return ip.new_arr(sh, [Opaque("uninit")] * _prod(sh), "torch", "float")


@ext("torch.sparse.DoubleTensor torch.sparse.FloatTensor "
     "torch.sparse_coo_tensor torch.sparse.LongTensor",
     "indices values size dtype=None")
def _sparse(ip, lib, indices, values, size, dtype):
    """duplicated indices add up, as in the coalesced tensor"""
    sh = tuple(ip.as_index(x) for x in ip.iterate(size))
    ind = to_arr(ip, indices, "torch")
    val = to_arr(ip, values, "torch")
    if len(ind.shape) != 2 or ind.shape[0] != len(sh):
        raise AbsRaise("RuntimeError", "sparse indices of shape %s for size "
                       "%s" % (ind.shape, sh), ip.where())
    n = ind.shape[1]
    if val.shape != (n, ):
        raise AbsRaise("RuntimeError", "sparse values of shape %s for %d "
                       "indices" % (val.shape, n), ip.where())
    ix = [ip.as_index(x) for x in ip.cells(ind)]
    out = [R0] * _prod(sh)
    for k, v in enumerate(ip.cells(val)):
        p = 0
        for d, m in enumerate(sh):
            i = ix[d * n + k]
            if not 0 <= i < m:
                raise AbsRaise("RuntimeError", "sparse index %d out of "
                               "range %d" % (i, m), ip.where())
            p = p * m + i
        out[p] = ip.scalar_op("Add", out[p], v)
    return ip.new_arr(sh, out, "torch", "float")


@ext("torch.from_numpy", "x")
def _from_numpy(ip, lib, x):
    if isinstance(x, Opaque):
        return x
    if isinstance(x, Arr) and x.lib == "torch":
        raise AbsRaise("TypeError", "from_numpy of a tensor", ip.where())
    if not isinstance(x, Arr):
        raise AbsRaise("TypeError", "from_numpy expects ndarray",
                       ip.where())
    return Arr(x.addr, x.shape, x.idx, "torch")


@ext("torch.Size", "x")
def _Size(ip, lib, x):
    return tuple(ip.iterate(x))


def _rand(ip, shape, lib, kind="rnd"):
    """uni: uniform on [0, 1); nrm: standard normal; rnd: anything"""
    cells = []
    for _ in range(_prod(shape)):
        k = ip.next_addr
        ip.next_addr += 1
        n = "%s%d" % (kind, k)
        if kind == "uni":
            poly.set_bounds(n, 0, 1, up_open=True)
        cells.append(Rat.sym(n))
    return wrap(ip, shape, cells, lib, "float")


for _n, _k in (("rand", "uni"), ("randn", "nrm")):
    def _mk(kind, n):
        ext("torch." + n, "*shape dtype=None")(
            lambda ip, lib, shape, dtype: _rand(ip, shape_arg(ip, shape), lib,
                                                kind))
        ext("numpy.random." + n, "*shape")(
            lambda ip, lib, shape: _rand(
                ip, shape_arg(ip, shape) if shape else (), lib, kind))
        ext("torch.%s_like" % n, "x dtype=None")(
            lambda ip, lib, x, dt: _rand(ip, x.shape, lib, kind))
    _mk(_k, _n)


@ext("numpy.random.normal numpy.random.uniform", "a=0 b=1 size=None")
def _nnorm(ip, lib, a, b, size):
    sh = shape_arg(ip, (size, )) if size is not None else bshape(
        ip, to_arr(ip, a).shape, to_arr(ip, b).shape)
    return _rand(ip, sh, lib)


# -- joining
def seq(ip, x):
    if isinstance(x, Arr):
        return [arr_get(ip, x, (i, )) for i in range(x.shape[0])]
    return ip.iterate(x)


def concat(ip, lib, xs, axis):
    for x in xs:
        if isinstance(x, Opaque):
            raise Undecided("concatenation of %r" % (x, ), None, ip.where())
    xs = [x if isinstance(x, Arr) else to_arr(ip, x, lib) for x in xs]
    if not xs:
        raise AbsRaise("ValueError", "empty concatenation", ip.where())
    if lib == "torch":
        xs2 = [x for x in xs if x.shape != (0, )]
        if xs2:
            xs = xs2
    if any(x.shape == () for x in xs):
        for x in xs:
            if x.shape == () and isinstance(ip.cells(x)[0], Opaque):
                raise Undecided("concatenation of %r" % ip.cells(x)[0],
                                None, ip.where())
        raise AbsRaise("RuntimeError",
                       "zero-dimensional tensor cannot be concatenated",
                       ip.where())
    if axis is None:
        xs = [Arr(x.addr, (x.size, ), x.idx, x.lib) for x in xs]
        axis = 0
    n = len(xs[0].shape)
    if not -n <= axis < n:
        raise AbsRaise("IndexError", "axis out of range", ip.where())
    axis %= n
    s0 = xs[0].shape
    for x in xs:
        if len(x.shape) != n or any(
                p != q for i, (p, q) in enumerate(zip(x.shape, s0))
                if i != axis):
            raise AbsRaise("RuntimeError", "concatenation shapes %s" %
                           [x.shape for x in xs], ip.where())
    outer = _prod(s0[:axis])
    inner = _prod(s0[axis + 1:])
    cells = []
    cs = [ip.cells(x) for x in xs]
    for o in range(outer):
        for x, c in zip(xs, cs):
            k = x.shape[axis] * inner
            cells.extend(c[o * k:(o + 1) * k])
    sh = s0[:axis] + (sum(x.shape[axis] for x in xs), ) + s0[axis + 1:]
    dts = set(ip.dtype(x) for x in xs)
    dt = dts.pop() if len(dts) == 1 else ("object" if "object" in dts
                                          else "float")
    lb = "torch" if any(x.lib == "torch" for x in xs) else "np"
    if len(set(x.lib for x in xs)) > 1:
        ip.events.append(("mixed-lib", ip.where()))
    return ip.new_arr(sh, cells, lb, dt)


@ext("numpy.concatenate torch.cat torch.concat torch.concatenate",
     "xs axis|dim=0 dtype=None")
def _cat(ip, lib, xs, axis, dtype):
    if isinstance(xs, Opaque):
        return Opaque("cat", (xs, ))
    return concat(ip, lib, seq(ip, xs), as_axis(ip, axis))


@ext("numpy.stack torch.stack", "xs axis|dim=0")
def _stack(ip, lib, xs, axis):
    xs = [to_arr(ip, x, lib) for x in seq(ip, xs)]
    if not xs:
        raise AbsRaise("RuntimeError", "stack expects a non-empty list",
                       ip.where())
    for x in xs:
        if x.shape != xs[0].shape:
            raise AbsRaise("RuntimeError", "stack shapes", ip.where())
    n = len(xs[0].shape) + 1
    ax = as_axis(ip, axis) % n
    ys = [Arr(x.addr, x.shape[:ax] + (1, ) + x.shape[ax:], x.idx, x.lib)
          for x in xs]
    return concat(ip, lib, ys, ax)


@ext("numpy.vstack torch.vstack", "xs")
def _vstack(ip, lib, xs):
    ys = []
    for x in seq(ip, xs):
        x = to_arr(ip, x, lib)
        if len(x.shape) < 2:
            x = Arr(x.addr, (1, x.size), x.idx, x.lib)
        ys.append(x)
    return concat(ip, lib, ys, 0)


@ext("numpy.hstack torch.hstack", "xs")
def _hstack(ip, lib, xs):
    ys = []
    for x in seq(ip, xs):
        x = to_arr(ip, x, lib)
        if not x.shape:
            x = Arr(x.addr, (1, ), x.idx, x.lib)
        ys.append(x)
    if not ys:
        raise AbsRaise("ValueError", "empty hstack", ip.where())
    return concat(ip, lib, ys, 0 if len(ys[0].shape) == 1 else 1)


@ext("numpy.append", "a b axis=None")
def _append(ip, lib, a, b, axis):
    a, b = to_arr(ip, a), to_arr(ip, b)
    if axis is None:
        a = Arr(a.addr, (a.size, ), a.idx, a.lib)
        b = Arr(b.addr, (b.size, ), b.idx, b.lib)
        return concat(ip, lib, [a, b], 0)
    return concat(ip, lib, [a, b], axis)


@ext("torch.block_diag scipy.linalg.block_diag", "*xs")
def _block_diag(ip, lib, xs):
    ms = []
    for x in xs:
        x = to_arr(ip, x, lib)
        if len(x.shape) < 2:
            x = Arr(x.addr, (1, x.size), x.idx, x.lib)
        ms.append(x)
    R = sum(m.shape[0] for m in ms)
    C = sum(m.shape[1] for m in ms)
    out = [R0] * (R * C)
    r = c = 0
    for m in ms:
        cs = ip.cells(m)
        for i in range(m.shape[0]):
            for j in range(m.shape[1]):
                out[(r + i) * C + c + j] = cs[i * m.shape[1] + j]
        r += m.shape[0]
        c += m.shape[1]
    return ip.new_arr((R, C), out, lib, "float")


# -- reductions
@ext("numpy.sum torch.sum", "x axis|dim=None keepdims|keepdim=False "
     "dtype=None")
def _sum(ip, lib, x, axis, keep, dtype):
    if isinstance(x, Opaque):
        return Opaque("sum", (x, ))
    x = to_arr(ip, x, lib)
    dt = ip.dtype(x)
    return reduce(ip, x, axis, keep, lambda xs: csum(ip, xs),
                  "int" if dt == "bool" and all(
                      isinstance(c, bool) for c in ip.cells(x)) else
                  "float" if dt == "bool" else dt)


@ext("numpy.prod torch.prod", "x axis|dim=None keepdims|keepdim=False")
def _fprod(ip, lib, x, axis, keep):
    x = to_arr(ip, x, lib)

    def f(xs):
        r = 1
        for y in xs:
            r = cop(ip, "Mult", r, y)
        return r
    return reduce(ip, x, axis, keep, f)


@ext("numpy.mean torch.mean numpy.average", "x axis|dim=None "
     "keepdims|keepdim=False dtype=None")
def _mean(ip, lib, x, axis, keep, dtype):
    if isinstance(x, Opaque):
        return Opaque("mean", (x, ))
    x = to_arr(ip, x, lib)
    return reduce(ip, x, axis, keep, lambda xs: cop(
        ip, "Mult", csum(ip, xs), Rat.const(Fraction(1, len(xs)))) if xs
        else Opaque("nan"), "float")


@ext("numpy.linalg.norm torch.norm torch.linalg.norm "
     "torch.linalg.vector_norm",
     "x p|ord=None dim|axis=None keepdim|keepdims=False")
def _norm(ip, lib, x, p, dim, keep):
    if isinstance(x, Opaque):
        return Opaque("norm", (x, ))
    x = to_arr(ip, x, lib)
    if p == "fro":
        p = None
    if isinstance(p, Rat) and p.is_const():
        p = p.const_value()

    def f(xs):
        if any(isinstance(c, Opaque) for c in xs):
            return Opaque("norm", tuple(xs))
        xs = [Rat.of(ip.num(c)) for c in xs]
        if p is None or p == 2:
            return poly.sqrt(csum(ip, [c * c for c in xs]))
        if p == 1:
            return csum(ip, [cabs(ip, c) for c in xs])
        if isinstance(p, Rat) and p == poly.INF:
            r = cabs(ip, xs[0])
            for c in xs[1:]:
                r = cmax(ip, r, cabs(ip, c))
            return r
        if p == 4:
            return poly.norm4(xs)
        raise Undecided("norm order %r" % (p, ), None, ip.where())
    return reduce(ip, x, dim, keep, f, "float")


def _argopaque(ip, x, name, axis, keep):
    return reduce(ip, x, axis, keep,
                  lambda xs: _argsel(ip, name, xs), "int")


def _argsel(ip, name, xs):
    if all(isinstance(c, (int, Rat)) for c in xs):
        best = 0
        for i in range(1, len(xs)):
            d = Rat.of(xs[i]) - Rat.of(xs[best])
            if name == "argmin":
                d = -d
            t = ip.decide(c_gt(d))
            if t is None:
                break
            if t:
                best = i
        else:
            return best
    return Opaque(name, tuple(xs))


def _extreme(name):
    f = cmax if name == "max" else cmin

    def g(ip, lib, x, dim, keep):
        if isinstance(x, Opaque):
            return Opaque(name, (x, dim))
        if isinstance(dim, Arr) or (isinstance(x, Arr) and isinstance(
                dim, (Rat, ))):
            return ew2(ip, lambda a, b: f(ip, a, b), x, dim)
        x = to_arr(ip, x, lib)
        if x.size == 0:
            raise AbsRaise("RuntimeError", "%s of empty" % name, ip.where())
        r = reduce(ip, x, dim, keep, lambda xs: tot(f)(ip, xs))
        if dim is not None and x.lib == "torch":
            i = _argopaque(ip, x, "arg" + name, dim, keep)
            return ip.new_obj(ExtV("namedtuple:torch.return_types"),
                              {"values": r, "indices": i,
                               "__order__": ("values", "indices")})
        return r
    return g


ext("numpy.max torch.max numpy.amax torch.amax", "x dim|axis|other=None "
    "keepdim|keepdims=False")(_extreme("max"))
ext("numpy.min torch.min numpy.amin torch.amin", "x dim|axis|other=None "
    "keepdim|keepdims=False")(_extreme("min"))


@ext("numpy.argmax torch.argmax", "x dim|axis=None keepdim=False")
def _argmax(ip, lib, x, dim, keep):
    return _argopaque(ip, to_arr(ip, x, lib), "argmax", dim, keep)


@ext("numpy.argmin torch.argmin", "x dim|axis=None keepdim=False")
def _argmin(ip, lib, x, dim, keep):
    return _argopaque(ip, to_arr(ip, x, lib), "argmin", dim, keep)


@ext("numpy.maximum torch.maximum", "x y")
def _maximum(ip, lib, x, y):
    x, y = cast_scalar(ip, x, lib), cast_scalar(ip, y, lib)
    if isinstance(x, Arr) or isinstance(y, Arr):
        return ew2(ip, lambda a, b: cmax(ip, a, b), x, y)
    return cmax(ip, x, y)


@ext("numpy.minimum torch.minimum", "x y")
def _minimum(ip, lib, x, y):
    x, y = cast_scalar(ip, x, lib), cast_scalar(ip, y, lib)
    if isinstance(x, Arr) or isinstance(y, Arr):
        return ew2(ip, lambda a, b: cmin(ip, a, b), x, y)
    return cmin(ip, x, y)


@ext("torch.clamp numpy.clip torch.clip", "x lo|min|a_min=None "
     "up|max|a_max=None")
def _clamp(ip, lib, x, lo, up):
    r = cast_scalar(ip, x, lib)
    if lo is not None:
        r = _maximum(ip, lib, r, lo)
    if up is not None:
        r = _minimum(ip, lib, r, up)
    if isinstance(r, Arr) and isinstance(x, Arr) and r.addr == x.addr:
        r = copy_arr(ip, r)
    return r


@ext("numpy.all torch.all", "x dim|axis=None keepdim|keepdims=False")
def _all(ip, lib, x, dim, keep):
    x = to_arr(ip, x, lib)
    return reduce(ip, x, dim, keep,
                  lambda xs: c_and([ip.truth(c) for c in xs]), "bool")


@ext("numpy.any torch.any", "x dim|axis=None keepdim|keepdims=False")
def _any(ip, lib, x, dim, keep):
    x = to_arr(ip, x, lib)
    return reduce(ip, x, dim, keep,
                  lambda xs: c_or([ip.truth(c) for c in xs]), "bool")


@ext("numpy.logical_and torch.logical_and", "x y")
def _land(ip, lib, x, y):
    return ip.binop("BitAnd", x, y)


@ext("numpy.logical_or torch.logical_or", "x y")
def _lor(ip, lib, x, y):
    return ip.binop("BitOr", x, y)


@ext("numpy.logical_not torch.logical_not", "x")
def _lnot(ip, lib, x):
    return ip.unary("Invert", x)


for _n, _o in (("le", "LtE"), ("lt", "Lt"), ("ge", "GtE"), ("gt", "Gt"),
               ("eq", "Eq"), ("ne", "NotEq")):
    ext("torch." + _n, "x y")(
        lambda ip, lib, x, y, o=_o: ip.compare(o, x, y))
for _n, _o in (("less_equal", "LtE"), ("less", "Lt"),
               ("greater_equal", "GtE"), ("greater", "Gt"),
               ("equal", "Eq"), ("not_equal", "NotEq")):
    ext("numpy." + _n, "x y")(
        lambda ip, lib, x, y, o=_o: ip.compare(o, x, y))


@ext("torch.equal numpy.array_equal", "x y")
def _equal(ip, lib, x, y):
    x, y = to_arr(ip, x, lib), to_arr(ip, y, lib)
    if x.shape != y.shape:
        return False
    return c_and([ip.truth(ip.scalar_cmp("Eq", a, b))
                  for a, b in zip(ip.cells(x), ip.cells(y))])


@ext("numpy.isinf torch.isinf", "x")
def _isinf(ip, lib, x):
    return map1(ip, lib, lambda ip, c: isinstance(c, Rat) and (
        c == poly.INF or -c == poly.INF), x, "bool")


@ext("numpy.isnan torch.isnan", "x")
def _isnan(ip, lib, x):
    return map1(ip, lib, lambda ip, c: Cond("opq", Opaque("isnan", (c, )))
                if isinstance(c, Opaque) else False, x, "bool")


@ext("numpy.isfinite torch.isfinite", "x")
def _isfinite(ip, lib, x):
    return ip.unary("Invert" if isinstance(x, Arr) else "Not",
                    _isinf(ip, lib, x))


@ext("numpy.allclose torch.allclose numpy.isclose torch.isclose",
     "x y rtol=None atol=None")
def _allclose(ip, lib, x, y, r, a):
    return Cond("opq", Opaque("allclose", (x, y)))


@ext("numpy.where torch.where", "c x=None y=None")
def _where(ip, lib, c, x, y):
    if x is None:
        c = to_arr(ip, c, lib)
        cs = [ip.truth(v) for v in ip.cells(c)]
        if not all(isinstance(v, bool) for v in cs):
            raise Undecided("where on symbolic mask", None, ip.where())
        ixs = [ix for ix, v in zip(itertools.product(
            *[range(d) for d in c.shape]), cs) if v]
        return tuple(ip.new_arr((len(ixs), ), [ix[k] for ix in ixs], lib,
                                "int") for k in range(len(c.shape)))
    lb = lib
    c, x, y = to_arr(ip, c, lb), to_arr(ip, x, lb), to_arr(ip, y, lb)
    sh = bshape(ip, bshape(ip, c.shape, x.shape), y.shape)
    cells = []
    for cc, a, b in zip(bcast_cells(ip, c, sh), bcast_cells(ip, x, sh),
                        bcast_cells(ip, y, sh)):
        t = ip.truth(cc)
        cells.append(a if t is True else b if t is False else
                     ite_scalar(t, ip.num(a) if not isinstance(
                         a, (bool, Cond)) else a, ip.num(b) if not isinstance(
                             b, (bool, Cond)) else b))
    return wrap(ip, sh, cells, lb, None)


@ext("torch.nonzero numpy.argwhere", "x as_tuple=False")
def _nonzero(ip, lib, x, as_tuple):
    cs = [ip.truth(v) for v in ip.cells(x)]
    if not all(isinstance(v, bool) for v in cs):
        raise Undecided("nonzero on symbolic mask", None, ip.where())
    ixs = [ix for ix, v in zip(itertools.product(
        *[range(d) for d in x.shape]), cs) if v]
    if as_tuple:
        return tuple(ip.new_arr((len(ixs), ), [ix[k] for ix in ixs], lib,
                                "int") for k in range(len(x.shape)))
    return ip.new_arr((len(ixs), len(x.shape)), [i for ix in ixs
                                                 for i in ix], lib, "int")


@ext("numpy.nonzero", "x")
def _npnonzero(ip, lib, x):
    return _where(ip, lib, x, None, None)


@ext("numpy.cumsum torch.cumsum", "x axis|dim=None")
def _cumsum(ip, lib, x, axis):
    x = to_arr(ip, x, lib)
    if len(x.shape) != 1:
        raise Undecided("cumsum nd", None, ip.where())
    out = []
    t = R0
    for c in ip.cells(x):
        t = cop(ip, "Add", t, c)
        out.append(t)
    return ip.new_arr(x.shape, out, x.lib, "float")


@ext("numpy.diff", "x")
def _npdiff(ip, lib, x):
    c = ip.cells(x)
    return ip.new_arr((len(c) - 1, ), [cop(ip, "Sub", b, a)
                                       for a, b in zip(c, c[1:])], x.lib)


@ext("numpy.arctan2 torch.atan2 torch.arctan2 math.atan2", "y x")
def _atan2(ip, lib, y, x):
    def f(a, b):
        return poly.fn("atan2", Rat.of(ip.num(a)), Rat.of(ip.num(b)))
    if isinstance(x, Arr) or isinstance(y, Arr):
        return ew2(ip, f, y, x)
    return f(y, x)


# -- linear algebra
def _det(ip, M):
    n = len(M)
    if n == 1:
        return M[0][0]
    t = R0
    for j in range(n):
        if M[0][j].is_zero():
            continue
        sub = [r[:j] + r[j + 1:] for r in M[1:]]
        t = t + M[0][j] * _det(ip, sub) * (-1)**j
    return t


def rmat(ip, a):
    n = a.shape[1]
    c = [Rat.of(ip.num(x)) for x in ip.cells(a)]
    return [c[i * n:(i + 1) * n] for i in range(a.shape[0])]


def _gauss(ip, M, E):
    """M^-1 E for a matrix of numbers (E may be symbolic)"""
    n = len(M)
    M, E = [list(r) for r in M], [list(r) for r in E]
    for i in range(n):
        p = next((k for k in range(i, n) if not M[k][i].is_zero()), None)
        if p is None:
            raise AbsRaise("LinAlgError", "singular matrix", ip.where())
        M[i], M[p], E[i], E[p] = M[p], M[i], E[p], E[i]
        d = M[i][i]
        M[i], E[i] = [v / d for v in M[i]], [v / d for v in E[i]]
        for k in range(n):
            if k != i and not M[k][i].is_zero():
                f = M[k][i]
                M[k] = [a - f * b for a, b in zip(M[k], M[i])]
                E[k] = [a - f * b for a, b in zip(E[k], E[i])]
    return E


@ext("numpy.linalg.inv torch.inverse torch.linalg.inv", "x")
def _inv(ip, lib, x):
    if len(x.shape) != 2 or x.shape[0] != x.shape[1]:
        raise AbsRaise("LinAlgError", "inv of %s" % (x.shape, ), ip.where())
    n = x.shape[0]
    M = rmat(ip, x)
    if n > 3:
        off = all(M[i][j].is_zero() for i in range(n) for j in range(n)
                  if i != j)
        if off:
            return ip.new_arr((n, n), [M[i][i].inv() if i == j else R0
                                       for i in range(n) for j in range(n)],
                              x.lib, "float")
        if all(M[i][j].is_const() for i in range(n) for j in range(n)):
            E = [[R1 if i == j else R0 for j in range(n)] for i in range(n)]
            X = _gauss(ip, M, E)
            return ip.new_arr((n, n), [v for r in X for v in r], x.lib,
                              "float")
        args = tuple(M[i][j] for i in range(n) for j in range(n))
        return ip.new_arr((n, n), [poly.fn("inv%d_%d" % (i, j), *args)
                                   for i in range(n) for j in range(n)],
                          x.lib, "float")
    d = _det(ip, M)
    out = []
    for i in range(n):
        for j in range(n):
            sub = [r[:i] + r[i + 1:] for k, r in enumerate(M) if k != j]
            out.append((_det(ip, sub) if n > 1 else R1) * (-1)**(i + j) / d)
    return ip.new_arr((n, n), out, x.lib, "float")


@ext("numpy.linalg.det torch.det torch.linalg.det", "x")
def _fdet(ip, lib, x):
    return wrap(ip, (), [_det(ip, rmat(ip, x))], x.lib, "float")


@ext("numpy.linalg.solve torch.linalg.solve", "A b")
def _solve(ip, lib, A, b):
    n = A.shape[0]
    if n <= 3:
        return matmul(ip, _inv(ip, lib, A), b)
    M = rmat(ip, A)
    if all(M[i][j].is_const() for i in range(n) for j in range(n)):
        one = len(b.shape) == 1
        X = _gauss(ip, M, [[Rat.of(ip.num(c))] for c in ip.cells(b)] if one
                   else rmat(ip, b))
        return ip.new_arr(b.shape, [v for r in X for v in r], A.lib, "float")
    args = tuple(M[i][j] for i in range(n) for j in range(n))
    if len(b.shape) != 1:
        raise Undecided("solve with matrix rhs", None, ip.where())
    rhs = tuple(Rat.of(ip.num(c)) for c in ip.cells(b))
    return ip.new_arr((n, ), [poly.fn("solve%d" % i, *(args + rhs))
                              for i in range(n)], A.lib, "float")


@ext("numpy.linalg.cholesky torch.linalg.cholesky torch.cholesky", "A")
def _chol(ip, lib, A):
    n = A.shape[0]
    args = tuple(Rat.of(ip.num(c)) for c in ip.cells(A))
    return ip.new_arr((n, n), [poly.fn("chol%d_%d" % (i, j), *args)
                               if j <= i else R0 for i in range(n)
                               for j in range(n)], A.lib, "float")


@ext("numpy.linalg.svd", "A")
def _svd(ip, lib, A):
    n, m = A.shape
    args = tuple(Rat.of(ip.num(c)) for c in ip.cells(A))
    k = min(n, m)
    U = ip.new_arr((n, n), [poly.fn("svdU%d_%d" % (i, j), *args)
                            for i in range(n) for j in range(n)], A.lib)
    S = ip.new_arr((k, ), [poly.fn("nneg", Rat.of(i), *args)
                           for i in range(k)], A.lib)
    V = ip.new_arr((m, m), [poly.fn("svdV%d_%d" % (i, j), *args)
                            for i in range(m) for j in range(m)], A.lib)
    return (U, S, V)


# -- shape manipulation
def reshape(ip, a, shape):
    shape = [ip.as_index(s) for s in shape]
    n = a.size
    if -1 in shape:
        k = 1
        for s in shape:
            if s != -1:
                k *= s
        if k == 0:
            if n != 0:
                raise AbsRaise("RuntimeError", "reshape", ip.where())
            shape[shape.index(-1)] = 0
        else:
            if n % k:
                raise AbsRaise("RuntimeError", "reshape %s to %s" %
                               (a.shape, shape), ip.where())
            shape[shape.index(-1)] = n // k
    if _prod(shape) != n:
        raise AbsRaise("RuntimeError", "reshape %s to %s" %
                       (a.shape, shape), ip.where())
    return Arr(a.addr, shape, a.idx, a.lib)


@ext("numpy.reshape torch.reshape", "x shape")
def _reshape(ip, lib, x, shape):
    return reshape(ip, to_arr(ip, x, lib), shape_arg(ip, (shape, )))


@ext("torch.flatten numpy.ravel", "x start_dim=0 end_dim=-1")
def _flatten(ip, lib, x, s, e):
    x = to_arr(ip, x, lib)
    n = len(x.shape)
    if n == 0:
        return reshape(ip, x, (1, ))
    s, e = s % n, e % n
    return reshape(ip, x, x.shape[:s] + (_prod(x.shape[s:e + 1]), ) +
                   x.shape[e + 1:])


def permute(ip, a, perm):
    n = len(a.shape)
    perm = [p % n for p in perm]
    st = strides(a.shape)
    sh = tuple(a.shape[p] for p in perm)
    s2 = [st[p] for p in perm]
    idx = [a.idx[sum(i * s for i, s in zip(ix, s2))]
           for ix in itertools.product(*[range(d) for d in sh])]
    return Arr(a.addr, sh, idx, a.lib)


def transpose(ip, a):
    return permute(ip, a, list(reversed(range(len(a.shape)))))


@ext("numpy.transpose", "x axes=None")
def _nptrans(ip, lib, x, axes):
    if axes is None:
        return transpose(ip, x)
    return permute(ip, x, ip.iterate(axes))


@ext("torch.transpose numpy.swapaxes", "x a b")
def _ttrans(ip, lib, x, a, b):
    n = len(x.shape)
    p = list(range(n))
    p[a % n], p[b % n] = p[b % n], p[a % n]
    return permute(ip, x, p)


@ext("torch.t", "x")
def _t(ip, lib, x):
    return transpose(ip, x)


@ext("numpy.squeeze torch.squeeze", "x dim|axis=None")
def _squeeze(ip, lib, x, dim):
    if isinstance(x, Opaque):
        return x
    x = to_arr(ip, x, lib)
    d = as_axis(ip, dim)
    if d is None:
        sh = tuple(s for s in x.shape if s != 1)
    else:
        n = len(x.shape)
        d = d % n if n else 0
        sh = tuple(s for i, s in enumerate(x.shape) if i != d or s != 1)
    r = Arr(x.addr, sh, x.idx, x.lib)
    return r


@ext("torch.unsqueeze numpy.expand_dims", "x dim|axis")
def _unsq(ip, lib, x, dim):
    d = as_axis(ip, dim) % (len(x.shape) + 1)
    return Arr(x.addr, x.shape[:d] + (1, ) + x.shape[d:], x.idx, x.lib)


@ext("torch.tile numpy.tile", "x *reps")
def _tile(ip, lib, x, reps):
    return repeat_t(ip, to_arr(ip, x, lib), shape_arg(ip, reps))


def repeat_t(ip, x, reps):
    n = max(len(reps), len(x.shape))
    sh = (1, ) * (n - len(x.shape)) + x.shape
    reps = (1, ) * (n - len(reps)) + tuple(reps)
    st = strides(sh)
    out = tuple(a * b for a, b in zip(sh, reps))
    c = ip.cells(x)
    cells = [c[sum((i % d) * s for i, d, s in zip(ix, sh, st))]
             for ix in itertools.product(*[range(d) for d in out])]
    return ip.new_arr(out, cells, x.lib, ip.dtype(x))


@ext("numpy.repeat torch.repeat_interleave", "x n|repeats axis|dim=None")
def _nprepeat(ip, lib, x, n, axis):
    x = to_arr(ip, x, lib)
    ax = as_axis(ip, axis)
    if ax is None:
        x = reshape(ip, x, (-1, ))
        ax = 0
    n = ip.as_index(n)
    k = SliceV(None, None, None)
    idx = make_array(ip, ip.new_list([i for i in range(x.shape[ax])
                                      for _ in range(n)]), "np")
    return arr_get(ip, x, (k, ) * ax + (idx, ))


@ext("torch.split", "x n dim=0")
def _split(ip, lib, x, n, dim):
    d = as_axis(ip, dim)
    sizes = []
    if isinstance(n, (ListV, tuple)):
        sizes = [ip.as_index(i) for i in ip.iterate(n)]
    else:
        n = ip.as_index(n)
        k = x.shape[d]
        while k > 0:
            sizes.append(min(n, k))
            k -= n
    out = []
    p = 0
    for s in sizes:
        out.append(arr_get(ip, x, (SliceV(None, None, None), ) * d +
                           (SliceV(p, p + s, None), )))
        p += s
    return tuple(out)


@ext("torch.chunk", "x n dim=0")
def _chunk(ip, lib, x, n, dim):
    k = x.shape[dim]
    return _split(ip, lib, x, -(-k // n), dim)


@ext("numpy.flip torch.flip", "x axis|dims=None")
def _flip(ip, lib, x, ax):
    ax = as_axis(ip, ax)
    n = len(x.shape)
    axs = range(n) if ax is None else [a % n for a in (
        ax if isinstance(ax, tuple) else (ax, ))]
    r = arr_get(ip, x, tuple(SliceV(None, None, -1 if i in axs else None)
                             for i in range(n)))
    return r


@ext("numpy.fliplr", "x")
def _fliplr(ip, lib, x):
    return _flip(ip, lib, x, 1)


@ext("numpy.size", "x axis=None")
def _size(ip, lib, x, axis):
    x = to_arr(ip, x, lib)
    return x.size if axis is None else x.shape[axis]


@ext("numpy.shape", "x")
def _shape(ip, lib, x):
    return to_arr(ip, x, lib).shape


@ext("numpy.ndim", "x")
def _ndim(ip, lib, x):
    return len(to_arr(ip, x, lib).shape)


@ext("torch.numel", "x")
def _numel(ip, lib, x):
    return x.size


@ext("numpy.copy torch.clone", "x")
def _copy(ip, lib, x):
    x = to_arr(ip, x, lib)
    return copy_arr(ip, x)


@ext("torch.detach", "x")
def _detach(ip, lib, x):
    return m_detach(ip, [x], {})


@ext("numpy.isscalar", "x")
def _isscalar(ip, lib, x):
    return isinstance(x, (int, Rat, str))


@ext("torch.is_tensor", "x")
def _istensor(ip, lib, x):
    return isinstance(x, Arr) and x.lib == "torch"


@ext("numpy.meshgrid torch.meshgrid", "*xs indexing=None")
def _meshgrid(ip, lib, xs, indexing):
    if len(xs) == 1 and isinstance(xs[0], (ListV, tuple)):
        xs = ip.iterate(xs[0])
    xs = [to_arr(ip, x, lib) for x in xs]
    ij = indexing == "ij" or (indexing is None and lib == "torch")
    sh = tuple(x.size for x in xs)
    out = []
    for k, x in enumerate(xs):
        c = ip.cells(x)
        a = ip.new_arr(sh, [c[ix[k]] for ix in itertools.product(
            *[range(d) for d in sh])], lib)
        if not ij and len(sh) >= 2:
            a = permute(ip, a, [1, 0] + list(range(2, len(sh))))
            a = copy_arr(ip, a)
        out.append(a)
    return ip.new_list(out)


@ext("numpy.testing.assert_allclose", "a b rtol=None atol=None")
def _assert_close(ip, lib, a, b, r, t):
    return None


@ext("torch.autograd.functional.jacobian", "f x")
def _jac(ip, lib, f, x):
    return Opaque("jacobian", (x, ))


@ext("torch.no_grad torch.inference_mode torch.autograd.no_grad", "")
def _nograd(ip, lib):
    return Opaque("ctx:nograd")


@ext("torch.enable_grad", "")
def _grad(ip, lib):
    return Opaque("ctx:grad")


@ext("torch.set_grad_enabled", "x")
def _sgrad(ip, lib, x):
    return Opaque("ctx:grad" if ip.truth(x) is True else "ctx:nograd")


# ---------------------------------------------------------- array attributes
def m_detach(ip, args, kw):
    return cut(ip, args[0])


def m_item(ip, args, kw):
    a = args[0]
    if a.size != 1:
        raise AbsRaise("ValueError", "item() of %d elements" % a.size,
                       ip.where())
    return freeze(ip, ip.cells(a)[0])


def m_numpy(ip, args, kw):
    a = args[0]
    if ip.st.meta.get(a.addr, {}).get("requires_grad"):
        raise AbsRaise("RuntimeError", "numpy() on tensor requiring grad",
                       ip.where())
    if ip.live is not None:
        r = cut(ip, a)
        return Arr(r.addr, r.shape, r.idx, "np")
    return Arr(a.addr, a.shape, a.idx, "np")


def m_reshape(ip, args, kw):
    if "order" in kw or "shape" in kw:
        raise Undecided("reshape order", None, ip.where())
    return reshape(ip, args[0], shape_arg(ip, args[1:]))


def m_transpose(ip, args, kw):
    a = args[0]
    if a.lib == "torch":
        return _ttrans(ip, "torch", a, args[1], args[2])
    if len(args) == 1:
        return transpose(ip, a)
    return permute(ip, a, shape_arg(ip, args[1:]))


def m_permute(ip, args, kw):
    return permute(ip, args[0], shape_arg(ip, args[1:]))


def m_copy(ip, args, kw):
    return copy_arr(ip, args[0])


def m_tolist(ip, args, kw):
    a = cut(ip, args[0])
    if a.shape == ():
        return ip.cells(a)[0]
    if len(a.shape) == 1:
        return ip.new_list(ip.cells(a))
    return ip.new_list([m_tolist(ip, [arr_get(ip, a, (i, ))], {})
                        for i in range(a.shape[0])])


def m_same(ip, args, kw):
    a = args[0]
    d = None
    for x in list(args[1:]) + list(kw.values()):
        d = dtname(x) or d
    if d and d != ip.dtype(a):
        return ip.new_arr(a.shape, [conv(ip, c, d) for c in ip.cells(a)],
                          a.lib, d)
    return a


def m_astype(ip, args, kw):
    a = args[0]
    d = dtname(args[1] if len(args) > 1 else kw.get("dtype")) or ip.dtype(a)
    return ip.new_arr(a.shape, [conv(ip, c, d) for c in ip.cells(a)], a.lib,
                      d)


def m_fill(ip, args, kw):
    a, v = args
    ip.store_cells(a, [ip.num(v)] * a.size)
    return a


def m_zero(ip, args, kw):
    ip.store_cells(args[0], [R0] * args[0].size)
    return args[0]


def m_repeat(ip, args, kw):
    a = args[0]
    if a.lib == "torch":
        return repeat_t(ip, a, shape_arg(ip, args[1:]))
    return _nprepeat(ip, "np", a, args[1], kw.get("axis") if len(args) < 3
                     else args[2])


def m_expand(ip, args, kw):
    a = args[0]
    sh = list(shape_arg(ip, args[1:]))
    off = len(sh) - len(a.shape)
    for i in range(len(sh)):
        if sh[i] == -1:
            sh[i] = a.shape[i - off]
    ix = bindex(a.shape, sh)
    return Arr(a.addr, sh, [a.idx[i] for i in ix], a.lib)


def m_size(ip, args, kw):
    a = args[0]
    d = args[1] if len(args) > 1 else kw.get("dim")
    return tuple(a.shape) if d is None else a.shape[ip.as_index(d)]


def m_reqgrad(ip, args, kw):
    v = args[1] if len(args) > 1 else kw.get("requires_grad", True)
    ip.amodel(args[0])["requires_grad"] = ip.truth(v)
    return args[0]


def m_inplace(op):
    def f(ip, args, kw):
        a = args[0]
        v = args[1]
        al = kw.get("alpha", args[2] if len(args) > 2 else 1)
        if al != 1:
            if len(args) > 2:   # deprecated add_(alpha, v)
                v, al = args[2], args[1]
            v = ip.binop("Mult", v, al)
        ip.inplace(a, op, v)
        return a
    return f


def m_addcmul(sign):
    def f(ip, args, kw):
        a, t1, t2 = args[:3]
        v = kw.get("value", 1)
        if len(args) == 4:
            v, t1, t2 = args[1:]
        p = ip.binop("Mult" if sign == "mul" else "Div", t1, t2)
        ip.inplace(a, "Add", ip.binop("Mult", p, v))
        return a
    return f


def m_copy_(ip, args, kw):
    a, b = args[:2]
    b = to_arr(ip, b, a.lib)
    ip.store_cells(a, bcast_cells(ip, b, a.shape))
    return a


def m_unary_(name):
    def f(ip, args, kw):
        a = args[0]
        r = call_ext(ip, "torch." + name, [a] + list(args[1:]), kw)
        ip.store_cells(a, ip.cells(r))
        return a
    return f


def m_backward(ip, args, kw):
    h = getattr(ip, "backward_hook", None)
    if h is not None:
        return h(ip, args, kw)
    ip.events.append(("backward", ip.where(), args[0]))
    return None


def m_fwd(name, lib=None):
    def f(ip, args, kw):
        lb = args[0].lib
        q = ("torch." if lb == "torch" else "numpy.") + name
        if q not in EXT:
            q = ("numpy." if lb == "torch" else "torch.") + name
        return call_ext(ip, q, args, kw)
    return f


def m_flatten(ip, args, kw):
    a = args[0]
    r = reshape(ip, a, (-1, ))
    return copy_arr(ip, r) if a.lib == "np" else r


def m_cpu(ip, args, kw):
    return args[0]


def m_addmm(ip, args, kw):
    raise Undecided("addmm", None, ip.where())


def m_new(val):
    def f(ip, args, kw):
        return _fill(ip, args[0].lib, shape_arg(ip, args[1:]), val,
                     kw.get("dtype"))
    return f


def m_selectdim(ip, args, kw):
    a, d, i = args
    return arr_get(ip, a, (SliceV(None, None, None), ) * ip.as_index(d) +
                   (i, ))


def m_register(ip, args, kw):
    return None


ARR_METHODS = {
    "detach": m_detach, "item": m_item, "numpy": m_numpy,
    "reshape": m_reshape, "view": m_reshape, "transpose": m_transpose,
    "permute": m_permute, "copy": m_copy, "clone": m_copy,
    "tolist": m_tolist, "to": m_same, "type": m_same, "double": m_cpu,
    "float": m_cpu, "astype": m_astype, "cpu": m_cpu, "cuda": m_cpu,
    "contiguous": m_cpu, "fill": m_fill, "fill_": m_fill, "zero_": m_zero,
    "repeat": m_repeat, "expand": m_expand, "size": m_size,
    "requires_grad_": m_reqgrad, "add_": m_inplace("Add"),
    "sub_": m_inplace("Sub"), "mul_": m_inplace("Mult"),
    "div_": m_inplace("Div"), "pow_": m_inplace("Pow"),
    "addcmul_": m_addcmul("mul"), "addcdiv_": m_addcmul("div"),
    "copy_": m_copy_, "sqrt_": m_unary_("sqrt"), "abs_": m_unary_("abs"),
    "clamp_": m_unary_("clamp"), "relu_": m_unary_("relu"),
    "exp_": m_unary_("exp"), "neg_": m_unary_("neg"),
    "backward": m_backward, "flatten": m_flatten,
    "new_zeros": m_new(0), "new_ones": m_new(1), "select": m_selectdim,
    "register_hook": m_register, "retain_grad": m_register,
    "type_as": m_cpu, "to_dense": m_cpu, "ravel": m_flatten,
}
for _n in ("sum mean max min abs all any norm dot squeeze unsqueeze sin cos "
           "exp log sqrt pow sign prod argmax argmin cumsum nonzero clamp "
           "clip matmul mm mv t split chunk numel diagonal diag flip square "
           "add sub mul div neg outer sigmoid tanh relu inverse isinf isnan "
           "le lt ge gt eq ne cross bmm amax amin equal maximum "
           "minimum det logical_and round floor ceil swapaxes tile").split():
    ARR_METHODS.setdefault(_n, m_fwd(_n))


def arr_attr(ip, a, name):
    if name == "shape":
        return a.shape
    if name == "T":
        return transpose(ip, a)
    if name == "mT":
        n = len(a.shape)
        return permute(ip, a, list(range(n - 2)) + [n - 1, n - 2])
    if name == "dtype":
        d = ip.dtype(a)
        if ip.st.meta.get(a.addr, {}).get("i32"):
            return ExtV("torch.int32" if a.lib == "torch" else "numpy.int32")
        if a.lib == "torch":
            return ExtV({"float": "torch.float64", "int": "torch.int64",
                         "bool": "torch.bool"}.get(d, "torch.float64"))
        return ExtV({"float": "numpy.float64", "int": "numpy.int64",
                     "bool": "numpy.bool_"}.get(d, "numpy.object_"))
    if name == "size" and a.lib == "np":
        return a.size
    if name == "ndim":
        return len(a.shape)
    if name == "data":
        return cut(ip, a)
    if name == "device":
        return ExtV("torch.device.cpu")
    if name == "requires_grad":
        return ip.st.meta.get(a.addr, {}).get("requires_grad", False)
    if name == "grad":
        return ip.st.meta.get(a.addr, {}).get("grad")
    if name == "grad_fn":
        return None
    if name == "is_sparse":
        return False
    if name == "is_leaf":
        return True
    if name == "flat":
        return reshape(ip, a, (-1, ))
    if name == "value":
        from . import cvxpy_model
        if cvxpy_model.has_vars(ip, a):
            return cvxpy_model.value_of(ip, a)
    f = ARR_METHODS.get(name)
    if f is not None:
        return NativeM(f, a, name)
    raise Undecided("array attribute %s" % name, None, ip.where())


def arr_setattr(ip, a, name, v):
    if name == "requires_grad":
        ip.amodel(a)["requires_grad"] = ip.truth(v)
    elif name == "data":
        v = to_arr(ip, v, a.lib)
        if tuple(v.shape) != tuple(a.shape):
            c = list(ip.cells(v))
            a.shape, a.idx = tuple(v.shape), tuple(range(len(c)))
            ip.st.heap[a.addr] = c
        ip.store_cells(a, list(ip.cells(v)))
        # the tensor shares the memory of v from here on
        ip.amodel(a)["shares"] = v.addr
    elif name == "grad":
        ip.amodel(a)["grad"] = v
    else:
        raise Undecided("array setattr %s" % name, None, ip.where())


# -------------------------------------------------------------- native objects
def native_iter(ip, o):
    for b in obj_ext_bases(o):
        if b in ("torch.nn.Sequential", "torch.nn.ModuleList"):
            return list(ip.items(ip.attrs(o)["_layers"]))
        if b.startswith("namedtuple:"):
            d = ip.attrs(o)
            return [d[k] for k in d["__order__"]]
        if (b, "__iter__") in EXT_METHODS:
            return ip.iterate(EXT_METHODS[(b, "__iter__")].fn(ip, [o], {}))
    return None


def native_getitem(ip, o, k):
    for b in obj_ext_bases(o):
        if b in ("torch.nn.Sequential", "torch.nn.ModuleList"):
            r = ip.getitem(ip.attrs(o)["_layers"], k)
            if isinstance(r, ListV):
                s = ip.new_obj(ExtV(b))
                ip.attrs(s)["_layers"] = r
                return s
            return r
        if b.startswith("namedtuple:"):
            return ip.getitem(tuple(native_iter(ip, o)), k)
        if (b, "__getitem__") in EXT_METHODS:
            return EXT_METHODS[(b, "__getitem__")].fn(ip, [o, k], {})
    return NotImplemented


def native_setitem(ip, o, k, v):
    for b in obj_ext_bases(o):
        if (b, "__setitem__") in EXT_METHODS:
            return EXT_METHODS[(b, "__setitem__")].fn(ip, [o, k, v], {})
    return NotImplemented


NATIVE_BINOPS = []
NATIVE_COMPARES = []


def native_binop(ip, op, a, b):
    for f in NATIVE_BINOPS:
        r = f(ip, op, a, b)
        if r is not NotImplemented:
            return r
    return NotImplemented


def native_compare(ip, op, a, b):
    for f in NATIVE_COMPARES:
        r = f(ip, op, a, b)
        if r is not NotImplemented:
            return r
    return NotImplemented


def native_attr(ip, o, name):
    for b in obj_ext_bases(o):
        if (b, name) in EXT_PROPS:
            return EXT_PROPS[(b, name)](ip, o)
    if "torch.nn.Module" in obj_ext_bases(o) and name in ("training", ):
        return True
    return NotImplemented


def native_setattr(ip, o, name, v):
    for b in obj_ext_bases(o):
        if (b, "=" + name) in EXT_PROPS:
            EXT_PROPS[(b, "=" + name)](ip, o, v)
            return True
    return False


def native_call(ip, o, args, kw):
    for b in obj_ext_bases(o):
        if (b, "__call__") in EXT_METHODS:
            if isinstance(o.cls, ClassV) and b == "torch.nn.Module":
                continue
            return EXT_METHODS[(b, "__call__")].fn(ip, [o] + list(args), kw)
    return NotImplemented


# --- torch.nn
EXT_CLASSES["torch.nn.Module"] = lambda ip, o, a, k: None
for _c in ("Linear", "ReLU", "LeakyReLU", "Sequential", "ModuleList", "Tanh",
           "Sigmoid", "Softplus"):
    EXT_BASES["torch.nn." + _c] = ["torch.nn.Module"]
EXT_BASES["torch.nn.ReLU"] = ["torch.nn.Module"]
EXT_BASES["builtins.Exception"] = []


def param(ip, shape, prefix, requires_grad=True):
    if len(shape) == 2:
        cells = [Rat.sym("%s_%d_%d" % (prefix, i, j))
                 for i in range(shape[0]) for j in range(shape[1])]
    else:
        cells = [Rat.sym("%s_%d" % (prefix, i)) for i in range(shape[0])]
    a = ip.new_arr(shape, cells, "torch", "float")
    ip.amodel(a)["requires_grad"] = requires_grad
    ip.amodel(a)["param"] = prefix
    return a


def _linear_init(ip, o, args, kw):
    i, j, bias = bind(ip, parse_spec("in_features out_features bias=True "
                                     "dtype=None"), args, kw, "Linear")[:3]
    i, j = ip.as_index(i), ip.as_index(j)
    n = getattr(ip, "linear_count", 0)
    ip.linear_count = n + 1
    d = ip.attrs(o)
    d["in_features"], d["out_features"] = i, j
    d["weight"] = param(ip, (j, i), "W%d" % n)
    d["bias"] = param(ip, (j, ), "b%d" % n) if ip.truth(bias) else None


EXT_CLASSES["torch.nn.Linear"] = _linear_init


def make_linear(ip, nin, nout, prefix, bias=True):
    o = ip.new_obj(ExtV("torch.nn.Linear"))
    d = ip.attrs(o)
    d["in_features"], d["out_features"] = nin, nout
    d["weight"] = param(ip, (nout, nin), prefix + "W")
    d["bias"] = param(ip, (nout, ), prefix + "b") if bias else None
    return o


def make_relu(ip, slope=None):
    if slope is None:
        o = ip.new_obj(ExtV("torch.nn.ReLU"))
        return o
    o = ip.new_obj(ExtV("torch.nn.LeakyReLU"))
    ip.attrs(o)["negative_slope"] = Rat.of(slope)
    return o


def make_seq(ip, layers):
    o = ip.new_obj(ExtV("torch.nn.Sequential"))
    ip.attrs(o)["_layers"] = ip.new_list(layers)
    return o


def make_net(ip, sizes, prefix, slope=None, bias=True, last_bias=None):
    ls = []
    for k in range(len(sizes) - 1):
        last = k == len(sizes) - 2
        b = bias if not last or last_bias is None else last_bias
        ls.append(make_linear(ip, sizes[k], sizes[k + 1],
                              "%s%d" % (prefix, k), b))
        if not last:
            ls.append(make_relu(ip, slope))
    return make_seq(ip, ls)


@method("torch.nn.Linear", "__call__", "x")
def _linear_call(ip, o, x):
    d = ip.attrs(o)
    if isinstance(x, Opaque):
        return Opaque("linear", (o, x))
    r = matmul(ip, x, transpose(ip, d["weight"]))
    if d["bias"] is not None:
        r = ip.binop("Add", r, d["bias"])
    return r


EXT_METHODS[("torch.nn.Linear", "forward")] = EXT_METHODS[
    ("torch.nn.Linear", "__call__")]


def _relu_init(ip, o, a, k):
    i = a[0] if a else k.get("inplace", False)
    if i is not False:
        ip.attrs(o)["inplace"] = i


EXT_CLASSES["torch.nn.ReLU"] = _relu_init


def _lrelu_init(ip, o, a, k):
    s = a[0] if a else k.get("negative_slope",
                             Rat.const(Fraction(1, 100)))
    ip.attrs(o)["negative_slope"] = s
    i = a[1] if len(a) > 1 else k.get("inplace", False)
    if i is not False:
        ip.attrs(o)["inplace"] = i


EXT_CLASSES["torch.nn.LeakyReLU"] = _lrelu_init


@method("torch.nn.ReLU", "__call__", "x")
def _relu_call(ip, o, x):
    return overwrite(ip, x, ew1(ip, lambda c: crelu(ip, c, R0), x),
                     ip.attrs(o).get("inplace"))


@method("torch.nn.LeakyReLU", "__call__", "x")
def _lrelu_call(ip, o, x):
    s = Rat.of(ip.num(ip.attrs(o)["negative_slope"]))
    return overwrite(ip, x, ew1(ip, lambda c: crelu(ip, c, s), x),
                     ip.attrs(o).get("inplace"))


for _c in ("ReLU", "LeakyReLU"):
    EXT_METHODS[("torch.nn." + _c, "forward")] = EXT_METHODS[
        ("torch.nn." + _c, "__call__")]
for _c in ("Tanh", "Sigmoid"):
    EXT_CLASSES["torch.nn." + _c] = lambda ip, o, a, k: None

    def _mkact(n):
        @method("torch.nn." + n, "__call__", "x")
        def f(ip, o, x):
            return call_ext(ip, "torch." + n.lower(), [x], {})
    _mkact(_c)


def _seq_init(ip, o, a, k):
    ip.attrs(o)["_layers"] = ip.new_list(a)


EXT_CLASSES["torch.nn.Sequential"] = _seq_init
EXT_CLASSES["torch.nn.ModuleList"] = lambda ip, o, a, k: ip.attrs(
    o).__setitem__("_layers", ip.new_list(ip.iterate(a[0]) if a else []))


@method("torch.nn.Sequential", "__call__", "x")
def _seq_call(ip, o, x):
    for l in ip.items(ip.attrs(o)["_layers"]):
        x = ip.call(l, [x], {})
    return x


EXT_METHODS[("torch.nn.Sequential", "forward")] = EXT_METHODS[
    ("torch.nn.Sequential", "__call__")]


@method("torch.nn.ModuleList", "append", "x")
def _ml_append(ip, o, x):
    ip.items(ip.attrs(o)["_layers"]).append(x)


for _c in ("torch.nn.Sequential", "torch.nn.ModuleList"):
    @method(_c, "__len__", "")
    def _seq_len(ip, o):
        return len(ip.items(ip.attrs(o)["_layers"]))


def module_params(ip, o):
    out = []
    seen = set()

    def rec(v):
        if isinstance(v, Arr):
            if ip.st.meta.get(v.addr, {}).get("param") and \
                    v.addr not in seen:
                seen.add(v.addr)
                out.append(v)
        elif isinstance(v, ObjV):
            if v.addr in seen:
                return
            seen.add(v.addr)
            if "torch.nn.Module" in obj_ext_bases(v):
                for x in ip.attrs(v).values():
                    rec(x)
        elif isinstance(v, ListV) and v.addr not in seen:
            seen.add(v.addr)
            for x in ip.items(v):
                rec(x)
    rec(o)
    return out


@method("torch.nn.Module", "parameters", "")
def _mod_params(ip, o):
    return ip.new_list(module_params(ip, o))


def _sd_names(ip, o):
    """names of the parameters by position in the module tree"""
    count, out = {}, []
    for p in module_params(ip, o):
        k = len(p.shape)
        count[k] = count.get(k, -1) + 1
        out.append(("%d.%s" % (count[k], "weight" if k > 1 else "bias"), p))
    return out


@method("torch.nn.Module", "state_dict", "")
def _mod_sd(ip, o):
    # state_dict entries alias the live parameters
    return ip.new_dict(dict(_sd_names(ip, o)))


@method("torch.nn.Module", "load_state_dict", "sd strict=True")
def _mod_lsd(ip, o, sd, strict):
    if not isinstance(sd, DictV):
        ip.events.append(("load_state_dict", ip.where(), o, sd))
        return None
    src = ip.items(sd)
    own = _sd_names(ip, o)
    if ip.truth(strict) and set(src) != {n for n, _ in own}:
        raise AbsRaise("RuntimeError", "state_dict keys", ip.where())
    for n, p in own:
        if n in src:
            if tuple(src[n].shape) != tuple(p.shape):
                raise AbsRaise("RuntimeError", "size mismatch", ip.where())
            ip.store_cells(p, ip.cells(src[n]))


for _n in ("eval", "train", "to", "double", "float", "type", "cpu",
           "requires_grad_", "cuda"):
    @method("torch.nn.Module", _n, "*a dtype=None")
    def _mod_self(ip, o, a, dtype, _n=_n):
        h = getattr(ip, "module_convert", None)
        if h is not None:
            h(o, _n, a + (dtype, ))
        return o


@method("torch.nn.Module", "zero_grad", "set_to_none=False")
def _mod_zg(ip, o, s):
    ip.events.append(("zero_grad", ip.where(), o))
    for p in module_params(ip, o):
        ip.amodel(p)["grad"] = None


@ext("torch.nn.Parameter torch.nn.parameter.Parameter torch.autograd.Variable",
     "x requires_grad=True")
def _Param(ip, lib, x, rg):
    r = Arr(x.addr, x.shape, x.idx, "torch")
    ip.amodel(r)["requires_grad"] = rg
    ip.amodel(r)["param"] = ip.st.meta[r.addr].get("param") or \
        "param%d" % r.addr
    return r


# --- optimizers
def _opt_init(ip, o, args, kw):
    params, defaults = bind(ip, parse_spec("params defaults"), args, kw,
                            "Optimizer")
    ps = ip.iterate(params)
    groups = []
    if ps and isinstance(ps[0], DictV):
        for g in ps:
            d = dict(ip.items(defaults))
            d.update(ip.items(g))
            groups.append(ip.new_dict(d))
    else:
        d = dict(ip.items(defaults))
        d["params"] = ip.new_list(ps)
        groups.append(ip.new_dict(d))
    at = ip.attrs(o)
    at["param_groups"] = ip.new_list(groups)
    at["defaults"] = defaults
    st = ip.new_dict({})
    ip.st.meta[st.addr] = {"__default__": PyFn(
        lambda ip, a, k: ip.new_dict({}), "dict")}
    at["state"] = st


EXT_CLASSES["torch.optim.Optimizer"] = _opt_init
EXT_CLASSES["torch.optim.optimizer.Optimizer"] = _opt_init


@method("torch.optim.Optimizer", "zero_grad", "set_to_none=True")
def _opt_zg(ip, o, s):
    ip.events.append(("zero_grad", ip.where(), o))


EXT_METHODS[("torch.optim.optimizer.Optimizer", "zero_grad")] = EXT_METHODS[
    ("torch.optim.Optimizer", "zero_grad")]


@method("torch.optim.Optimizer", "__setstate__", "s")
def _opt_ss(ip, o, s):
    return None


EXT_METHODS[("torch.optim.optimizer.Optimizer", "__setstate__")] = \
    EXT_METHODS[("torch.optim.Optimizer", "__setstate__")]


# ------------------------------------------------------------------- builtins
def _b(name, spec):
    ps = parse_spec(spec)

    def deco(f):
        def g(ip, args, kw):
            return f(ip, *bind(ip, ps, args, kw, name))
        BUILTINS[name] = PyFn(g, name)
        return f
    return deco


BUILTINS = {}
TYPE_NAMES = ("float int bool str list tuple dict set object complex bytes "
              "type frozenset slice property staticmethod classmethod super "
              "range").split()
for _t in TYPE_NAMES:
    BUILTINS[_t] = ExtV("builtins." + _t)
for _t in ("Exception BaseException ValueError TypeError KeyError IndexError "
           "RuntimeError NotImplementedError AttributeError AssertionError "
           "ZeroDivisionError StopIteration ImportError OSError IOError "
           "KeyboardInterrupt LookupError ArithmeticError NameError Warning "
           "UserWarning DeprecationWarning RuntimeWarning FileNotFoundError "
           "ModuleNotFoundError SystemExit").split():
    BUILTINS[_t] = ExtV("builtins." + _t)
BUILTINS["NotImplemented"] = Opaque("NotImplemented")
BUILTINS["Ellipsis"] = Ellipsis
BUILTINS["__name__"] = "module"
BUILTINS["__file__"] = "file"
BUILTINS["__debug__"] = True
BUILTINS["super"] = ExtV("builtins.super")


@_b("len", "x")
def _len(ip, x):
    if isinstance(x, (tuple, str, range)):
        return len(x)
    if isinstance(x, (ListV, DictV, SetV)):
        return len(ip.items(x))
    if isinstance(x, Arr):
        if not x.shape:
            raise AbsRaise("TypeError", "len of 0-d", ip.where())
        return x.shape[0]
    if isinstance(x, ObjV):
        r = ip.find_method(x, "__len__")
        if r is not None:
            return ip.call(r, [], {})
        it = native_iter(ip, x)
        if it is not None:
            return len(it)
    if isinstance(x, Phi):
        return ip.on_phi(x, lambda y: _len(ip, y))
    if isinstance(x, ClassV) and x.is_enum:
        return len(ip.iterate(x))
    if x is None or isinstance(x, (Rat, int)):
        raise AbsRaise("TypeError", "object has no len()", ip.where())
    raise Undecided("len of %r" % (x, ), None, ip.where())


@ext("builtins.range", "*a")
def _range(ip, lib, a):
    return range(*[ip.as_index(x) for x in a])


@_b("print", "*a sep=None end=None file=None flush=None")
def _print(ip, *a):
    return None


@_b("enumerate", "x start=0")
def _enum(ip, x, start):
    return ip.new_list([(i + start, v) for i, v in enumerate(ip.iterate(x))])


@_b("zip", "*xs strict=False")
def _zip(ip, xs, strict):
    return ip.new_list([tuple(t) for t in zip(*[ip.iterate(x) for x in xs])])


@_b("map", "f *xs")
def _map(ip, f, xs):
    return ip.new_list([ip.call(f, list(t), {})
                        for t in zip(*[ip.iterate(x) for x in xs])])


@_b("filter", "f xs")
def _filter(ip, f, xs):
    out = []
    for x in ip.iterate(xs):
        t = ip.truth(x if f is None else ip.call(f, [x], {}))
        if not isinstance(t, bool):
            raise Undecided("filter", None, ip.where())
        if t:
            out.append(x)
    return ip.new_list(out)


@_b("reversed", "x")
def _reversed(ip, x):
    return ip.new_list(list(reversed(ip.iterate(x))))


@_b("iter", "x")
def _iter(ip, x):
    return ip.new_list(ip.iterate(x))


@_b("next", "x d=None")
def _next(ip, x, d):
    if isinstance(x, ListV):
        if ip.items(x):
            return ip.items(x).pop(0)
        raise AbsRaise("StopIteration", "", ip.where())
    raise Undecided("next", None, ip.where())


@_b("sorted", "x key=None reverse=False")
def _sorted(ip, x, key, rev):
    items = ip.iterate(x)
    ks = items if key is None else [ip.call(key, [i], {}) for i in items]

    def kk(k):
        if isinstance(k, Rat):
            if not k.is_const():
                raise Undecided("sorted on symbols", None, ip.where())
            return k.const_value()
        if isinstance(k, (int, str)):
            return k
        if isinstance(k, tuple):
            return tuple(kk(y) for y in k)
        raise Undecided("sorted on %r" % (k, ), None, ip.where())
    order = sorted(range(len(items)), key=lambda i: kk(ks[i]),
                   reverse=bool(rev))
    return ip.new_list([items[i] for i in order])


def _minmax(name):
    f = cmax if name == "max" else cmin

    def g(ip, xs, key, default):
        if len(xs) == 1:
            xs = ip.iterate(xs[0])
        if key is not None:
            raise Undecided("%s with key" % name, None, ip.where())
        if not xs:
            raise AbsRaise("ValueError", "empty", ip.where())
        if all(isinstance(x, Arr) for x in xs) and all(
                x.size == 1 for x in xs):
            r = xs[0]
            for y in xs[1:]:
                r = ew2(ip, lambda a, b: f(ip, a, b), r, y)
            return r
        return tot(f)(ip, [ip.num(x) for x in xs])
    _b(name, "*xs key=None default=None")(g)


_minmax("max")
_minmax("min")


@_b("sum", "x start=0")
def _bsum(ip, x, start):
    t = start
    for i in ip.iterate(x):
        t = ip.binop("Add", t, i)
    return t


@_b("abs", "x")
def _babs(ip, x):
    if isinstance(x, Arr):
        return ew1(ip, lambda c: cabs(ip, c), x)
    return cabs(ip, x)


@_b("any", "x")
def _bany(ip, x):
    return c_or([ip.truth(i) for i in ip.iterate(x)])


@_b("all", "x")
def _ball(ip, x):
    return c_and([ip.truth(i) for i in ip.iterate(x)])


@_b("round", "x n=None")
def _bround(ip, x, n):
    x = ip.num(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Rat) and x.is_const() and n is None:
        return round(x.const_value())
    return poly.fn("round", Rat.of(x))


@_b("pow", "x y")
def _bpow(ip, x, y):
    return ip.binop("Pow", x, y)


@_b("divmod", "x y")
def _bdivmod(ip, x, y):
    return (ip.binop("FloorDiv", x, y), ip.binop("Mod", x, y))


@_b("callable", "x")
def _callable(ip, x):
    return isinstance(x, (FuncV, BoundV, PyFn, NativeM, ClassV, ExtV)) or (
        isinstance(x, ObjV) and ip.find_method(x, "__call__") is not None)


@_b("getattr", "o name default=_UNSET")
def _getattr(ip, o, name, default):
    if default == "_UNSET":
        return ip.getattr(o, name)
    try:
        return ip.getattr(o, name, default)
    except AbsRaise as e:
        if e.kind == "AttributeError":
            return default
        raise


@_b("hasattr", "o name")
def _hasattr(ip, o, name):
    try:
        ip.getattr(o, name)
        return True
    except AbsRaise as e:
        if e.kind == "AttributeError":
            return False
        raise
    except Undecided:
        if isinstance(o, Arr):
            return False
        raise


@_b("setattr", "o name v")
def _setattr(ip, o, name, v):
    ip.setattr(o, name, v)


@_b("id", "x")
def _id(ip, x):
    return Opaque("id", (x, ))


@_b("repr", "x")
def _repr(ip, x):
    return ip.tostr(x)


@_b("open", "*a")
def _open(ip, a):
    return Opaque("file")


@_b("input", "*a")
def _input(ip, a):
    return Opaque("input")


def type_of(ip, x):
    if isinstance(x, ObjV):
        return x.cls
    n = None
    if isinstance(x, bool):
        n = "bool"
    elif isinstance(x, int):
        n = "int"
    elif isinstance(x, Rat):
        n = "float"
    elif isinstance(x, str):
        n = "str"
    elif isinstance(x, tuple):
        n = "tuple"
    elif isinstance(x, ListV):
        n = "list"
    elif isinstance(x, DictV):
        n = "dict"
    elif isinstance(x, SetV):
        n = "set"
    elif isinstance(x, Arr):
        return ExtV("numpy.ndarray" if x.lib == "np" else "torch.Tensor")
    elif x is None:
        n = "NoneType"
    elif isinstance(x, ClassV):
        n = "type"
    if n is None:
        return Opaque("type", (x, ))
    return ExtV("builtins." + n)


@ext("builtins.type", "*x")
def _type(ip, lib, x):
    return type_of(ip, x[0])


def isinst(ip, x, t):
    if isinstance(t, (tuple, ListV)):
        return c_or([isinst(ip, x, y) for y in ip.iterate(t)])
    if isinstance(x, Phi):
        return c_or([c_and([x.cond, isinst(ip, x.a, t)]),
                     c_and([c_not(x.cond), isinst(ip, x.b, t)])])
    if isinstance(x, Opaque):
        return Cond("opq", Opaque("isinstance", (x, keyof(t) if not
                                                 isinstance(t, ClassV)
                                                 else t.qualname)))
    if isinstance(t, ClassV):
        if not isinstance(x, ObjV):
            return False
        return isinstance(x.cls, ClassV) and t in x.cls.mro()
    if isinstance(t, ExtV):
        q = t.q
        if q == "builtins.object":
            return True
        if isinstance(x, ObjV):
            return q in obj_ext_bases(x)
        if q in ("numbers.Number", "numbers.Real"):
            return isinstance(x, (int, Rat))
        if q in ("builtins.float", "numpy.float64", "numpy.floating"):
            return isinstance(x, Rat)
        if q in ("builtins.int", "numpy.integer", "numpy.int64"):
            return isinstance(x, int)
        if q in ("collections.abc.Iterable", "typing.Iterable",
                 "collections.Iterable"):
            return isinstance(x, (tuple, ListV, DictV, SetV, str, Arr))
        if q == "torch.Tensor" or q == "torch.FloatTensor":
            return isinstance(x, Arr) and x.lib == "torch"
        ty = type_of(ip, x)
        return isinstance(ty, ExtV) and ty.q == q
    if t is None or isinstance(t, (int, Rat, str, Arr, ObjV)):
        raise AbsRaise("TypeError", "isinstance() arg 2 must be a type",
                       ip.where())
    raise Undecided("isinstance against %r" % (t, ), None, ip.where())


@_b("isinstance", "x t")
def _isinstance(ip, x, t):
    return isinst(ip, x, t)


@_b("issubclass", "c t")
def _issubclass(ip, c, t):
    if isinstance(c, ClassV):
        return t in c.mro()
    return c == t


@ext("builtins.float", "x=0")
def _float(ip, lib, x):
    if isinstance(x, str):
        s = x.strip().lower()
        if s in ("inf", "infinity", "+inf"):
            return poly.INF
        if s == "-inf":
            return -poly.INF
        if s == "nan":
            return Opaque("nan")
        return Rat.const(Fraction(s))
    if isinstance(x, Opaque):
        return Opaque("float", (x, ))
    return Rat.of(ip.num(x))


@ext("builtins.int", "x=0 base=10")
def _int(ip, lib, x, base):
    if isinstance(x, str):
        return int(x, base)
    if isinstance(x, Opaque):
        return Opaque("int", (x, ))
    x = ip.num(x)
    if isinstance(x, int):
        return int(x)
    if x.is_const():
        return int(x.const_value())
    return poly.fn("trunc", x)


@ext("builtins.bool", "x=False")
def _bool(ip, lib, x):
    return ip.truth(x)


@ext("builtins.str", "x=None")
def _str(ip, lib, x):
    return ip.tostr(x)


@ext("builtins.list", "x=None")
def _list(ip, lib, x):
    return ip.new_list([] if x is None else ip.iterate(x))


@ext("builtins.tuple", "x=None")
def _tuple(ip, lib, x):
    return tuple([] if x is None else ip.iterate(x))


def _set(ip, lib, x):
    return SetV(ip.alloc(set([] if x is None else [ip.hkey(i) for i in
                                                   ip.iterate(x)])))


ext("builtins.set builtins.frozenset", "x=None")(_set)
ext("builtins.slice", "a b=_N c=None")(
    lambda ip, lib, a, b, c: SliceV(None, ip.as_index(a), None)
    if b == "_N" else SliceV(ip.as_index(a), ip.as_index(b),
                             ip.as_index(c)))
EXT_CLASSES["builtins.object"] = lambda ip, o, a, k: None


def _dict(ip, o, a, kw):
    d = {}
    if a:
        if isinstance(a[0], DictV):
            d.update(ip.items(a[0]))
        else:
            for p in ip.iterate(a[0]):
                k, v = ip.iterate(p)
                d[ip.hkey(k)] = v
    d.update(kw)
    return ip.new_dict(d)


EXT_CLASSES["builtins.dict"] = _dict
EXT_CLASSES["collections.OrderedDict"] = _dict


def _defaultdict(ip, o, a, kw):
    d = ip.new_dict({})
    if a:
        ip.st.meta[d.addr] = {"__default__": a[0]}
    return d


EXT_CLASSES["collections.defaultdict"] = _defaultdict


@ext("collections.namedtuple", "name fields defaults=None")
def _namedtuple(ip, lib, name, fields, defaults):
    if isinstance(fields, str):
        fs = fields.replace(",", " ").split()
    else:
        fs = list(ip.iterate(fields))
    df = [] if defaults is None else ip.iterate(defaults)

    def mk(ip, args, kw):
        kw = dict(kw)
        d = {}
        for i, f in enumerate(fs):
            if i < len(args):
                d[f] = args[i]
            elif f in kw:
                d[f] = kw.pop(f)
            elif i >= len(fs) - len(df):
                d[f] = df[i - (len(fs) - len(df))]
            else:
                raise AbsRaise("TypeError", "namedtuple missing " + f,
                               ip.where())
        if kw or len(args) > len(fs):
            raise AbsRaise("TypeError", "namedtuple arguments", ip.where())
        d["__order__"] = tuple(fs)
        return ip.new_obj(ExtV("namedtuple:" + name), d)
    return PyFn(mk, "namedtuple:" + name)


@ext("itertools.product", "*xs repeat=1")
def _product(ip, lib, xs, repeat):
    return ip.new_list([tuple(t) for t in itertools.product(
        *([ip.iterate(x) for x in xs] * repeat))])


@ext("itertools.combinations", "x r")
def _comb(ip, lib, x, r):
    return ip.new_list([tuple(t) for t in itertools.combinations(
        ip.iterate(x), r)])


@ext("itertools.permutations", "x r=None")
def _perm(ip, lib, x, r):
    return ip.new_list([tuple(t) for t in itertools.permutations(
        ip.iterate(x), r)])


@ext("itertools.chain", "*xs")
def _chain(ip, lib, xs):
    return ip.new_list([y for x in xs for y in ip.iterate(x)])


@ext("itertools.chain.from_iterable", "xs")
def _chain2(ip, lib, xs):
    return ip.new_list([y for x in ip.iterate(xs) for y in ip.iterate(x)])


@ext("functools.reduce", "f xs init=_N")
def _freduce(ip, lib, f, xs, init):
    xs = ip.iterate(xs)
    if init == "_N":
        r, xs = xs[0], xs[1:]
    else:
        r = init
    for x in xs:
        r = ip.call(f, [r, x], {})
    return r


@ext("functools.partial", "f *a")
def _partial(ip, lib, f, a):
    return PyFn(lambda ip, args, kw: ip.call(f, list(a) + list(args), kw),
                "partial")


@ext("functools.wraps", "f *a")
def _wraps(ip, lib, f, a):
    return PyFn(lambda ip, args, kw: args[0], "wraps")


@ext("copy.deepcopy", "x")
def _deepcopy(ip, lib, x):
    memo = {}

    def rec(v):
        if isinstance(v, (Arr, )):
            if v.addr not in memo:
                a = ip.alloc(list(ip.st.heap[v.addr]))
                ip.st.meta[a] = dict(ip.st.meta.get(v.addr, {}))
                memo[v.addr] = a
            return Arr(memo[v.addr], v.shape, v.idx, v.lib)
        if isinstance(v, (ListV, DictV, SetV)):
            if v.addr not in memo:
                h = ip.st.heap[v.addr]
                a = ip.alloc(type(h)())
                memo[v.addr] = a
                if isinstance(h, dict):
                    ip.st.heap[a] = {k: rec(y) for k, y in h.items()}
                elif isinstance(h, list):
                    ip.st.heap[a] = [rec(y) for y in h]
                else:
                    ip.st.heap[a] = set(h)
                if v.addr in ip.st.meta:
                    ip.st.meta[a] = dict(ip.st.meta[v.addr])
            return type(v)(memo[v.addr])
        if isinstance(v, ObjV):
            if isinstance(v.cls, ClassV) and v.cls.is_enum:
                return v
            if v.addr not in memo:
                a = ip.alloc({})
                memo[v.addr] = a
                ip.st.heap[a] = {k: rec(y)
                                 for k, y in ip.st.heap[v.addr].items()}
            return ObjV(memo[v.addr], v.cls)
        if isinstance(v, tuple):
            return tuple(rec(y) for y in v)
        return v
    return rec(x)


@ext("copy.copy", "x")
def _copycopy(ip, lib, x):
    if isinstance(x, ListV):
        return ip.new_list(ip.items(x))
    if isinstance(x, DictV):
        return ip.new_dict(ip.items(x))
    if isinstance(x, ObjV):
        return ip.new_obj(x.cls, ip.attrs(x))
    if isinstance(x, Arr):
        return copy_arr(ip, x)
    return x


@ext("warnings.warn", "*a category=None stacklevel=None")
def _warn(ip, lib, a, c, s):
    return None


@ext("math.isinf", "x")
def _misinf(ip, lib, x):
    return isinstance(x, Rat) and (x == poly.INF or -x == poly.INF)


# ----------------------------------------------------------- builtin methods
def lm(name):
    def deco(f):
        LIST_M[name] = f
        return f
    return deco


LIST_M = {}
DICT_M = {}
SET_M = {}


@lm("append")
def _l_append(ip, a, k):
    ip.items(a[0]).append(a[1])


@lm("extend")
def _l_extend(ip, a, k):
    ip.items(a[0]).extend(ip.iterate(a[1]))


@lm("insert")
def _l_insert(ip, a, k):
    ip.items(a[0]).insert(ip.as_index(a[1]), a[2])


@lm("pop")
def _l_pop(ip, a, k):
    try:
        return ip.items(a[0]).pop(*[ip.as_index(x) for x in a[1:]])
    except IndexError:
        raise AbsRaise("IndexError", "pop", ip.where())


@lm("copy")
def _l_copy(ip, a, k):
    return ip.new_list(ip.items(a[0]))


@lm("clear")
def _l_clear(ip, a, k):
    ip.items(a[0]).clear()


@lm("reverse")
def _l_rev(ip, a, k):
    ip.items(a[0]).reverse()


@lm("index")
def _l_index(ip, a, k):
    for i, x in enumerate(ip.iterate(a[0])):
        t = ip.truth(ip.compare("Eq", x, a[1]))
        if t is True:
            return i
        if t is not False:
            raise Undecided("list.index", None, ip.where())
    raise AbsRaise("ValueError", "not in list", ip.where())


@lm("count")
def _l_count(ip, a, k):
    n = 0
    for x in ip.iterate(a[0]):
        t = ip.truth(ip.compare("Eq", x, a[1]))
        if not isinstance(t, bool):
            raise Undecided("list.count", None, ip.where())
        n += t
    return n


@lm("remove")
def _l_remove(ip, a, k):
    i = _l_index(ip, a, k)
    del ip.items(a[0])[i]


@lm("sort")
def _l_sort(ip, a, k):
    r = _sorted(ip, a[0], k.get("key"), k.get("reverse", False))
    ip.st.heap[a[0].addr][:] = ip.items(r)


def dm(name):
    def deco(f):
        DICT_M[name] = f
        return f
    return deco


@dm("keys")
def _d_keys(ip, a, k):
    return ip.new_list(list(ip.items(a[0]).keys()))


@dm("values")
def _d_values(ip, a, k):
    return ip.new_list([ip.getitem(a[0], x) for x in ip.items(a[0])])


@dm("items")
def _d_items(ip, a, k):
    return ip.new_list([(x, ip.getitem(a[0], x)) for x in ip.items(a[0])])


@dm("get")
def _d_get(ip, a, k):
    kk = ip.hkey(a[1])
    if kk in ip.items(a[0]):
        return ip.items(a[0])[kk]
    return a[2] if len(a) > 2 else k.get("default")


@dm("update")
def _d_update(ip, a, k):
    if len(a) > 1:
        ip.items(a[0]).update(ip.items(a[1]))
    ip.items(a[0]).update(k)


@dm("pop")
def _d_pop(ip, a, k):
    kk = ip.hkey(a[1])
    if kk in ip.items(a[0]):
        return ip.items(a[0]).pop(kk)
    if len(a) > 2:
        return a[2]
    raise AbsRaise("KeyError", str(kk), ip.where())


@dm("setdefault")
def _d_setdefault(ip, a, k):
    return ip.items(a[0]).setdefault(ip.hkey(a[1]), a[2] if len(a) > 2
                                     else None)


@dm("copy")
def _d_copy(ip, a, k):
    return ip.new_dict(ip.items(a[0]))


@dm("clear")
def _d_clear(ip, a, k):
    ip.items(a[0]).clear()


def _s(name, f):
    SET_M[name] = f


_s("add", lambda ip, a, k: ip.items(a[0]).add(ip.hkey(a[1])))
_s("update", lambda ip, a, k: [ip.items(a[0]).add(ip.hkey(x))
                               for b in a[1:] for x in ip.iterate(b)] and
   None)
_s("discard", lambda ip, a, k: ip.items(a[0]).discard(ip.hkey(a[1])))
_s("remove", lambda ip, a, k: ip.items(a[0]).discard(ip.hkey(a[1])))
_s("copy", lambda ip, a, k: SetV(ip.alloc(set(ip.items(a[0])))))
_s("union", lambda ip, a, k: SetV(ip.alloc(set(ip.items(a[0])).union(
    *[[ip.hkey(x) for x in ip.iterate(b)] for b in a[1:]]))))
_s("intersection", lambda ip, a, k: SetV(ip.alloc(set(
    ip.items(a[0])).intersection(*[[ip.hkey(x) for x in ip.iterate(b)]
                                   for b in a[1:]]))))
_s("difference", lambda ip, a, k: SetV(ip.alloc(set(
    ip.items(a[0])).difference(*[[ip.hkey(x) for x in ip.iterate(b)]
                                 for b in a[1:]]))))
_s("issubset", lambda ip, a, k: set(ip.items(a[0])) <= set(
    ip.hkey(x) for x in ip.iterate(a[1])))


def builtin_attr(ip, o, name):
    if name == "value" and isinstance(o, Rat):
        from . import cvxpy_model
        if cvxpy_model.has_vars(ip, o):
            return cvxpy_model.value_of(ip, o)
    if isinstance(o, ListV):
        f = LIST_M.get(name)
        if f:
            return NativeM(f, o, name)
    elif isinstance(o, DictV):
        f = DICT_M.get(name)
        if f:
            return NativeM(f, o, name)
    elif isinstance(o, SetV):
        f = SET_M.get(name)
        if f:
            return NativeM(f, o, name)
    elif isinstance(o, tuple):
        if name in ("index", "count"):
            return NativeM(LIST_M[name], o, name)
        if name == "numel":
            return NativeM(lambda ip, a, k: _prod(a[0]), o, name)
    elif isinstance(o, str):
        return NativeM(lambda ip, a, k: _strm(ip, name, a, k), o, name)
    elif isinstance(o, (Rat, int, Cond)):
        if name == "item":
            return NativeM(lambda ip, a, k: a[0], o, name)
        if name in ("copy", "sum", "squeeze", "astype", "conjugate", "max",
                    "min"):
            return NativeM(lambda ip, a, k: a[0], o, name)
        if name == "real":
            return o
        if name == "imag":
            return R0
        if name == "shape":
            return ()
        if name == "size":
            return 1
        if name == "T":
            return o
        if name == "all" or name == "any":
            return NativeM(lambda ip, a, k: ip.truth(a[0]), o, name)
        if name == "reshape":
            return NativeM(lambda ip, a, k: reshape(
                ip, to_arr(ip, a[0]), shape_arg(ip, a[1:])), o, name)
        if name == "dot":
            return NativeM(lambda ip, a, k: ip.binop("Mult", a[0], a[1]), o,
                           name)
        if name == "dtype":
            return ExtV("numpy.float64")
        raise Undecided("attribute %s of a number" % name, None, ip.where())
    for t, py in ((ListV, list), (DictV, dict), (SetV, set), (tuple, tuple)):
        if isinstance(o, t) and hasattr(py, name):
            raise Undecided("%s.%s" % (py.__name__, name), None, ip.where())
    raise AbsRaise("AttributeError", "%r has no attribute %s" % (o, name),
                   ip.where())


def _strm(ip, name, a, k):
    s = a[0]
    args = []
    for x in a[1:]:
        if isinstance(x, (str, int, tuple)):
            args.append(x)
        elif isinstance(x, ListV):
            args.append([y if isinstance(y, str) else ip.tostr(y)
                         for y in ip.items(x)])
        else:
            args.append(ip.tostr(x))
    if name == "format":
        try:
            return s.format(*args, **{q: (v if isinstance(v, (str, int))
                                          else ip.tostr(v))
                                      for q, v in k.items()})
        except Exception:
            return s
    if name in ("split", "rsplit"):
        return ip.new_list(getattr(s, name)(*args))
    if name in ("join", "replace", "strip", "lower", "upper", "startswith",
                "endswith", "lstrip", "rstrip", "find", "count", "index",
                "zfill", "isdigit", "title"):
        return getattr(s, name)(*args)
    raise Undecided("str.%s" % name, None, ip.where())


# torch.nn.HingeEmbeddingLoss, torch.nn.MSELoss: the documented formulas
def _loss_init(spec):
    ps = parse_spec(spec)

    def init(ip, o, a, k):
        for p, v in zip(ps, bind(ip, ps, list(a), dict(k), "loss")):
            ip.attrs(o)[p[1][0]] = v
    return init


def _loss_reduce(ip, o, r):
    red = ip.attrs(o)["reduction"]
    if red == "none":
        return r
    if red not in ("mean", "sum"):
        raise AbsRaise("ValueError", "%s is not a valid value for reduction"
                       % (red, ), ip.where())
    return call_ext(ip, "torch." + red, [r], {})


for _c, _s in (("HingeEmbeddingLoss", "margin=1. size_average=None "
                "reduce=None reduction=mean"),
               ("MSELoss", "size_average=None reduce=None reduction=mean"),
               ("L1Loss", "size_average=None reduce=None reduction=mean"),
               ("BCELoss", "weight=None size_average=None reduce=None "
                "reduction=mean")):
    EXT_BASES["torch.nn." + _c] = ["torch.nn.Module"]
    EXT_CLASSES["torch.nn." + _c] = _loss_init(_s)


@method("torch.nn.HingeEmbeddingLoss", "__call__", "x y")
def _hinge_call(ip, o, x, y):
    m = ip.attrs(o)["margin"]

    def f(a, t):
        t = Rat.of(ip.num(t))
        if t == Rat.const(-1):
            return crelu(ip, Rat.of(ip.num(m)) - Rat.of(ip.num(a)), R0)
        if t == Rat.const(1):
            return a
        if t.is_const():
            # neither target: both terms are added
            return crelu(ip, Rat.of(ip.num(m)) - Rat.of(ip.num(a)),
                         R0) + Rat.of(ip.num(a))
        raise Undecided("hinge embedding target %s" % t, None, ip.where())
    return _loss_reduce(ip, o, ew2(ip, f, x, y))


@method("torch.nn.MSELoss", "__call__", "x y")
def _mse_call(ip, o, x, y):
    d = ip.binop("Sub", x, y)
    return _loss_reduce(ip, o, ip.binop("Mult", d, d))


@method("torch.nn.L1Loss", "__call__", "x y")
def _l1_call(ip, o, x, y):
    return _loss_reduce(ip, o, call_ext(ip, "torch.abs",
                                        [ip.binop("Sub", x, y)], {}))


def bce(ip, x, y):
    """-(y log x + (1 - y) log(1 - x)), element by element"""
    def lg(v):
        return call_ext(ip, "torch.log", [v], {})
    one = Rat.const(1)
    a = ip.binop("Mult", y, lg(x))
    b = ip.binop("Mult", ip.binop("Sub", one, y),
                 lg(ip.binop("Sub", one, x)))
    return ip.binop("Sub", ip.binop("Sub", R0, a), b)


def _same_size(ip, x, y):
    if isinstance(x, Arr) and isinstance(y, Arr) and x.shape != y.shape:
        raise AbsRaise("ValueError", "target size %s, input size %s" % (
            y.shape, x.shape), ip.where())


@method("torch.nn.BCELoss", "__call__", "x y")
def _bce_call(ip, o, x, y):
    if ip.attrs(o)["weight"] is not None:
        raise Undecided("weighted BCELoss", None, ip.where())
    _same_size(ip, x, y)
    return _loss_reduce(ip, o, bce(ip, x, y))


def _fn_reduce(ip, r, red):
    if red == "none":
        return r
    if red not in ("mean", "sum"):
        raise AbsRaise("ValueError", "%s is not a valid value for reduction"
                       % (red, ), ip.where())
    return call_ext(ip, "torch." + red, [r], {})


@ext("torch.nn.functional.binary_cross_entropy", "input target weight=None "
     "size_average=None reduce=None reduction=mean")
def _f_bce(ip, lib, x, y, w, s, r, red):
    if w is not None:
        raise Undecided("weighted BCE", None, ip.where())
    _same_size(ip, x, y)
    return _fn_reduce(ip, bce(ip, x, y), red)


@ext("torch.nn.functional.mse_loss", "input target size_average=None "
     "reduce=None reduction=mean")
def _f_mse(ip, lib, x, y, s, r, red):
    d = ip.binop("Sub", x, y)
    return _fn_reduce(ip, ip.binop("Mult", d, d), red)


@ext("torch.nn.functional.l1_loss", "input target size_average=None "
     "reduce=None reduction=mean")
def _f_l1(ip, lib, x, y, s, r, red):
    return _fn_reduce(ip, call_ext(ip, "torch.abs", [
        ip.binop("Sub", x, y)], {}), red)


for _c, _f in (("Sigmoid", "torch.sigmoid"), ("Tanh", "torch.tanh")):
    EXT_BASES["torch.nn." + _c] = ["torch.nn.Module"]
    EXT_CLASSES["torch.nn." + _c] = lambda ip, o, a, k: None

    def _mk(c, f):
        @method("torch.nn." + c, "__call__", "x")
        def _act(ip, o, x):
            return call_ext(ip, f, [x], {})
        EXT_METHODS[("torch.nn." + c, "forward")] = EXT_METHODS[
            ("torch.nn." + c, "__call__")]
    _mk(_c, _f)


# ------------------------------------------------------------------- queues
def _queue_init(kind):
    def init(ip, o, args, kw):
        m = args[0] if args else kw.get("maxsize", 0)
        d = ip.attrs(o)
        d["_items"] = ip.new_list([])
        d["_kind"] = kind
        d["maxsize"] = m
    return init


for _q, _kd in (("queue.Queue", "fifo"), ("queue.LifoQueue", "lifo"),
                ("queue.SimpleQueue", "fifo")):
    EXT_CLASSES[_q] = _queue_init(_kd)
    EXT_BASES[_q] = []

    @method(_q, "put", "x block=True timeout=None")
    def _q_put(ip, o, x, b, t):
        d = ip.attrs(o)
        n = ip.as_index(d["maxsize"])
        it = ip.items(d["_items"])
        if 0 < n <= len(it):
            raise AbsRaise("Deadlock", "put on a full queue blocks forever",
                           ip.where())
        it.append(x)

    @method(_q, "get", "block=True timeout=None")
    def _q_get(ip, o, b, t):
        d = ip.attrs(o)
        it = ip.items(d["_items"])
        if not it:
            raise AbsRaise("Deadlock", "get on an empty queue blocks "
                           "forever", ip.where())
        return it.pop(0 if d["_kind"] == "fifo" else -1)

    EXT_METHODS[(_q, "put_nowait")] = EXT_METHODS[(_q, "put")]
    EXT_METHODS[(_q, "get_nowait")] = EXT_METHODS[(_q, "get")]

    @method(_q, "qsize", "")
    def _q_size(ip, o):
        return len(ip.items(ip.attrs(o)["_items"]))

    @method(_q, "empty", "")
    def _q_empty(ip, o):
        return not ip.items(ip.attrs(o)["_items"])

    @method(_q, "full", "")
    def _q_full(ip, o):
        d = ip.attrs(o)
        return 0 < ip.as_index(d["maxsize"]) <= len(ip.items(d["_items"]))


@ext("collections.deque", "xs=None maxlen=None")
def _deque(ip, lib, xs, maxlen):
    if maxlen is not None:
        raise Undecided("deque with maxlen", None, ip.where())
    return ip.new_list([] if xs is None else ip.iterate(xs))


@lm("popleft")
def _l_popleft(ip, a, k):
    try:
        return ip.items(a[0]).pop(0)
    except IndexError:
        raise AbsRaise("IndexError", "pop from an empty deque", ip.where())


@lm("appendleft")
def _l_appendleft(ip, a, k):
    ip.items(a[0]).insert(0, a[1])


@lm("extendleft")
def _l_extendleft(ip, a, k):
    for x in ip.iterate(a[1]):
        ip.items(a[0]).insert(0, x)


# ------------------------------------------------------- reverse-mode autograd
@ext("torch.autograd.grad", "outputs inputs grad_outputs=None "
     "retain_graph=None create_graph=False only_inputs=True "
     "allow_unused=None is_grads_batched=False materialize_grads=False")
def _autograd(ip, lib, outputs, inputs, go, rg, cg, oi, au, b, mg):
    """derivative of the normal forms of the outputs with respect to the
    symbols of the inputs"""
    outs = [outputs] if isinstance(outputs, Arr) else ip.iterate(outputs)
    ins = [inputs] if isinstance(inputs, Arr) else ip.iterate(inputs)
    gos = [None] * len(outs) if go is None else (
        [go] if isinstance(go, Arr) else ip.iterate(go))
    for x in ins:
        if not isinstance(x, Arr) or ip.st.meta.get(x.addr, {}).get(
                "requires_grad") is not True:
            raise AbsRaise("RuntimeError", "a tensor without gradient is "
                           "differentiated by", ip.where())
    ip.events.append(("autograd", ip.where(), cg is True))
    terms = []
    for o, g in zip(outs, gos):
        c = ip.cells(o)
        if g is None and len(c) != 1:
            raise AbsRaise("RuntimeError", "grad can be implicitly created "
                           "only for scalar outputs", ip.where())
        gc = [Rat.const(1)] if g is None else ip.cells(g)
        if len(gc) != len(c):
            raise AbsRaise("RuntimeError", "Mismatch in shape", ip.where())
        terms += list(zip(c, gc))
    out = []
    for x in ins:
        res = []
        seen = set()
        for v in ip.cells(x):
            if not isinstance(v, Rat) or not poly.is_symbol(v) or \
                    str(v) in seen:
                raise Undecided("derivative by %s" % (v, ), None, ip.where())
            seen.add(str(v))
            e = Rat.const(0)
            for c, g in terms:
                if not isinstance(c, Rat) or not isinstance(g, Rat):
                    raise Undecided("derivative of %r" % (c, ), None,
                                    ip.where())
                e = e + poly.diff(c, str(v)) * g
            res.append(e)
        out.append(ip.new_arr(x.shape, res, "torch", "float"))
    return tuple(out)
