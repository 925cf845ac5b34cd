"""Precision domain: every float array is double, single or unknown.

Sources: what a check hands in is double; a factory has the precision of its
dtype argument and, without one, PyTorch's default (single), NumPy's double.
Operations promote as the libraries do (a 0-dimensional tensor does not raise
the precision of one with dimensions)."""
import re
import struct
from fractions import Fraction

from . import natives, poly
from .poly import Rat
from .values import Arr, BoundV, ClassV, DictV, ExtV, FuncV, ListV, NativeM, ObjV, Phi, PyFn

FACTORY = {"zeros", "ones", "empty", "full", "eye", "rand", "randn",
           "linspace", "arange", "randint", "normal", "identity", "logspace",
           "tri", "randperm"}
CONVERT = {"tensor", "as_tensor", "asarray", "array"}
SAME = {"matmul", "mm", "mv", "dot", "bmm", "inner", "addmm", "linear",
        "vdot"}
SINGLE, DOUBLE = 32, 64
RNG = re.compile(r"(uni|nrm|rnd)\d+$")


def bits(d):
    """precision of a dtype argument"""
    n = d.q if isinstance(d, ExtV) else d.name if isinstance(d, PyFn) else \
        d if isinstance(d, str) else None
    n = (n or "").split(".")[-1]
    if n in ("float64", "double", "float", "DoubleTensor", "float_"):
        # torch.float is single, the builtin and numpy's are double
        return SINGLE if isinstance(d, ExtV) and d.q == "torch.float" \
            else DOUBLE
    if n in ("float32", "FloatTensor", "half", "float16", "bfloat16"):
        return SINGLE
    return None


def exact(c):
    """representable in single precision whatever the symbols are"""
    if isinstance(c, bool) or not isinstance(c, (int, Rat)):
        return True
    if isinstance(c, Rat):
        if not c.is_const():
            # a scaled random draw is as good in single precision
            try:
                c = poly.subst(c, lambda a: Rat.of(0) if a.kind == "sym" and
                               RNG.match(a.name) else None)
            except Exception:
                return False
            if c in (poly.INF, -poly.INF):
                return True
            if not c.is_const():
                return False
        c = c.const_value()
    c = Fraction(c)
    try:
        return Fraction(struct.unpack("f", struct.pack("f", float(c)))[0]) \
            == c
    except OverflowError:
        return False


def install(ip):
    singles = {}        # address -> where
    ip.singles = singles
    ip.mismatches = []

    def prec(a):
        m = ip.st.meta.get(a.addr, {})
        p = m.get("prec")
        return DOUBLE if p is None and a.lib == "np" else p

    def floats(v, acc, depth=0):
        if isinstance(v, Arr):
            if ip.dtype(v) == "float":
                acc.append(v)
        elif isinstance(v, (tuple, list)):
            for x in v:
                floats(x, acc, depth + 1)
        elif isinstance(v, ListV) and depth < 3:
            for x in ip.items(v):
                floats(x, acc, depth + 1)
        return acc

    def promote(arrs, lib):
        if not arrs:
            return SINGLE if lib == "torch" else DOUBLE
        big = [a for a in arrs if a.shape != ()] or arrs
        ps = {prec(a) for a in big}
        if DOUBLE in ps:
            return DOUBLE
        return None if None in ps else SINGLE

    def mark(r, p, where=None):
        if isinstance(r, Phi):
            mark(r.a, p, where)
            mark(r.b, p, where)
        elif isinstance(r, (tuple, list)):
            for x in r:
                mark(x, p, where)
        elif isinstance(r, ListV):
            for x in ip.items(r):
                mark(x, p, where)
        elif isinstance(r, Arr) and p is not None and \
                ip.dtype(r) == "float":
            m = ip.st.meta.setdefault(r.addr, {})
            if "prec" not in m:
                m["prec"] = p
                site(p)
                if p == SINGLE:
                    singles[r.addr] = (where or ip.where(), None)

    def mismatch(name, arrs, args=()):
        for x in args:
            if isinstance(x, Arr) and arrs and x.lib == "torch" and \
                    ip.dtype(x) != "float":
                ip.mismatches.append((name, ip.where()))
        ps = {prec(a) for a in arrs}
        if SINGLE in ps and DOUBLE in ps and all(
                a.lib == "torch" for a in arrs):
            ip.mismatches.append((name, ip.where()))
        elif ps == {DOUBLE}:
            site("same")

    ip.prec_sites = {}

    def site(p):
        d = ip.prec_sites.setdefault(ip.where(), {})
        d[p] = d.get(p, 0) + 1

    base_arr = ip.new_arr

    def new_arr(shape, cells, lib="np", dtype=None):
        a = base_arr(shape, cells, lib, dtype)
        if lib == "torch" and not ip.stack and ip.dtype(a) == "float":
            ip.st.meta[a.addr]["prec"] = DOUBLE
        return a
    ip.new_arr = new_arr

    class Nat:
        def __getattr__(self, n):
            return getattr(natives, n)

        def call_ext(self, ip, q, args, kw):
            lib, _, name = q.partition(".")
            if "ext:" + q in ip.hooks or lib not in ("torch", "numpy"):
                r = natives.call_ext(ip, q, args, kw)
                if "ext:" + q in ip.hooks:
                    mark(r, DOUBLE)     # stated by the check
                return r
            name = name.split(".")[-1]
            acc = floats(tuple(args) + tuple(kw.values()), [])
            if name in SAME:
                mismatch(name, acc, args)
            r = natives.call_ext(ip, q, args, kw)
            d = kw.get("dtype")
            if d is None and q in natives.EXT:
                names = [n for _, n, _ in natives.EXT[q][1]]
                for i, n in enumerate(names[:len(args)]):
                    if "dtype" in n and not any(
                            s for s, _, _ in natives.EXT[q][1]):
                        d = args[i]
            p = bits(d) if d is not None else None
            base = name[:-5] if name.endswith("_like") else name
            if p is None and d is None:
                if name == "from_numpy":
                    p = promote(acc, "np")
                elif name.endswith("_like"):
                    p = promote(acc, lib)
                elif base in FACTORY:
                    p = SINGLE if lib == "torch" else DOUBLE
                elif name in CONVERT:
                    p = promote(acc, lib)
                elif lib == "torch":
                    p = promote(acc, "torch")
            if name == "Linear" and isinstance(r, ObjV):
                p = p or SINGLE
                for w in ("weight", "bias"):
                    v = ip.attrs(r).get(w)
                    if isinstance(v, Arr):
                        ip.st.meta[v.addr].pop("prec", None)
                        mark(v, p)
                return r
            mark(r, p)
            return r

        def arr_binop(self, ip, op, a, b):
            acc = floats((a, b), [])
            if op == "MatMult":
                mismatch("@", acc, (a, b))
            r = natives.arr_binop(ip, op, a, b)
            lib = "torch" if any(isinstance(x, Arr) and x.lib == "torch"
                                 for x in (a, b)) else "np"
            if isinstance(r, Arr) and r.lib == lib and ip.dtype(r) == "float":
                mark(r, promote(acc, lib))
            return r

        def arr_get(self, ip, a, k):
            r = natives.arr_get(ip, a, k)
            mark(r, prec(a))
            return r

        def ew1(self, ip, f, a, dtype=None):
            r = natives.ew1(ip, f, a, dtype)
            mark(r, prec(a))
            return r

        def arr_attr(self, ip, a, name):
            if name == "dtype" and prec(a) == SINGLE and \
                    ip.dtype(a) == "float":
                return ExtV("torch.float32" if a.lib == "torch" else
                            "numpy.float32")
            r = natives.arr_attr(ip, a, name)
            if isinstance(r, Arr) and r.addr != a.addr:
                mark(r, prec(a))
            return r

        def arr_setattr(self, ip, a, name, v):
            natives.arr_setattr(ip, a, name, v)
            if name == "data" and isinstance(v, Arr):
                ip.st.meta[a.addr].pop("prec", None)
                singles.pop(a.addr, None)
                mark(a, prec(v))

        def native_call(self, ip, o, args, kw):
            r = natives.native_call(ip, o, args, kw)
            if isinstance(o.cls, ExtV) and o.cls.q.startswith("torch.nn."):
                acc = floats(tuple(args), [])
                if o.cls.q == "torch.nn.Linear":
                    w = ip.attrs(o).get("weight")
                    if isinstance(w, Arr):
                        mismatch("Linear", acc + [w], args)
                if acc:
                    mark(r, promote(acc, "torch"))
            return r

    def convert(o, name, a):
        p = {"double": DOUBLE, "float": SINGLE}.get(name)
        for d in a:
            p = p or bits(d)
        if p is not None:
            for w in natives.module_params(ip, o):
                ip.st.meta[w.addr].pop("prec", None)
                singles.pop(w.addr, None)
                mark(w, p)
    ip.module_convert = convert
    ip.nat = Nat()
    base_call = ip.call

    def call(f, args, kw):
        if isinstance(f, NativeM) and isinstance(f.self_, Arr):
            a = f.self_
            acc = floats((a, ) + tuple(args) + tuple(kw.values()), [])
            if f.name in SAME:
                mismatch(f.name, acc, (a, ) + tuple(args))
            r = base_call(f, args, kw)
            p = None
            for d in list(args) + list(kw.values()):
                if isinstance(d, (ExtV, PyFn)):
                    p = p or bits(d)
            if f.name == "double":
                p = DOUBLE
            elif f.name == "float":
                p = SINGLE
            if p is not None and isinstance(r, Arr) and prec(a) != p and \
                    ip.dtype(r) == "float":
                # a conversion makes a new array
                if r.addr == a.addr:
                    r = base_arr(r.shape, ip.cells(r), r.lib, "float")
                else:
                    ip.st.meta[r.addr].pop("prec", None)
                mark(r, p)
            elif f.name == "numpy":
                mark(r, prec(a))
            elif ip.dtype(a) == "float" or acc:
                mark(r, promote(acc or [a], a.lib))
            return r
        r = base_call(f, args, kw)
        if not ip.stack and isinstance(f, (BoundV, FuncV, ClassV)):
            sweep()
            given(f, r)
        return r
    ip.call = call

    def sweep():
        for a, (w, ok) in list(singles.items()):
            c = ip.st.heap.get(a)
            if c is None or a in ip.lossy_at or ok is not None and \
                    len(ok) == len(c) and all(
                        x is y for x, y in zip(ok, c)):
                continue
            bad = [x for x in c if not exact(x)]
            if bad:
                ip.lossy.append((w, bad[0]))
                ip.lossy_at.add(a)
            singles[a] = (w, list(c))
    ip.lossy = []
    ip.lossy_at = set()
    ip.given = {}
    ip.handed = 0

    def name(f):
        f = f.func if isinstance(f, BoundV) else f
        q = getattr(f, "qualname", None) or f.name
        return q.split(".")[::-1]

    def given(f, r):
        """single-precision arrays in the result"""
        todo, seen = [(r, "")], set()
        while todo:
            v, p = todo.pop()
            if isinstance(v, (tuple, list)):
                todo += [(x, "%s[%d]" % (p, i)) for i, x in enumerate(v)]
            elif isinstance(v, Phi):
                todo += [(v.a, p), (v.b, p)]
            elif isinstance(v, (Arr, ObjV, ListV, DictV)):
                if v.addr in seen:
                    continue
                seen.add(v.addr)
                pl = ip.st.heap.get(v.addr)
                if isinstance(v, Arr):
                    ip.handed += 1
                    if v.lib == "torch" and (
                            v.addr in singles or
                            ("." in p or not name(f)[0].startswith("_")) and
                            ip.dtype(v) not in ("float", "bool")):
                        k = (".".join(name(f)[::-1]), p)
                        ip.given.setdefault(k, singles[v.addr][0]
                                            if v.addr in singles else None)

                elif isinstance(v, ListV):
                    todo += [(x, "%s[%d]" % (p, i))
                             for i, x in enumerate(pl)]
                elif pl:
                    todo += [(x, "%s.%s" % (p, n)) for n, x in pl.items()
                             if isinstance(n, str)]
