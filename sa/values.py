"""Abstract values of the interpreter."""
from .poly import Rat, sign, R0, R1
from . import poly


class Undecided(Exception):
    """The analysis cannot represent something it needs."""
    def __init__(self, reason, node=None, where=None):
        Exception.__init__(self, reason)
        self.reason = reason
        self.node = node
        self.where = where

    def __str__(self):
        return "%s%s" % (self.reason, " at %s" % self.where
                         if self.where else "")


class AbsRaise(Exception):
    """The analysed program raises on every path of the current context."""
    def __init__(self, kind, msg="", where=None, value=None):
        Exception.__init__(self, kind, msg)
        self.kind, self.msg, self.where, self.value = kind, msg, where, value

    def __str__(self):
        return "%s(%s)%s" % (self.kind, self.msg, " at %s" % self.where
                             if self.where else "")


class Opaque:
    """A value about which nothing is known; structurally identified."""
    __slots__ = ("desc", "args", "tag")
    counter = [0]

    def __init__(self, desc, args=(), tag=None):
        self.desc, self.args, self.tag = desc, tuple(args), tag

    def key(self):
        return ("opq", self.desc, tuple(keyof(a) for a in self.args))

    def __eq__(self, o):
        return isinstance(o, Opaque) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return "<%s%s>" % (self.desc, "(%s)" % ", ".join(
            map(str, self.args)) if self.args else "")


def keyof(v):
    if isinstance(v, Rat):
        return v.key()
    if isinstance(v, (Opaque, )):
        return v.key()
    if isinstance(v, Arr):
        return ("arr", v.addr, v.shape, v.idx)
    if isinstance(v, (ListV, DictV, ObjV, SetV)):
        return (type(v).__name__, v.addr)
    if isinstance(v, tuple):
        return tuple(keyof(x) for x in v)
    if isinstance(v, Cond):
        return v.key()
    try:
        hash(v)
        return v
    except TypeError:
        return repr(v)


class Cond:
    """Symbolic boolean."""
    __slots__ = ("op", "a", "_k")

    def __init__(self, op, a):
        self.op, self.a = op, a
        self._k = None

    def key(self):
        if self._k is None:
            if self.op in ("gt", "ge", "eq"):
                self._k = (self.op, self.a.key())
            elif self.op == "not":
                self._k = ("not", self.a.key())
            elif self.op in ("and", "or"):
                self._k = (self.op, tuple(x.key() for x in self.a))
            else:
                self._k = (self.op, keyof(self.a))
        return self._k

    def __eq__(self, o):
        return isinstance(o, Cond) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        if self.op in ("gt", "ge", "eq"):
            return "(%s %s 0)" % (self.a, {"gt": ">", "ge": ">=",
                                           "eq": "=="}[self.op])
        if self.op == "not":
            return "not %s" % (self.a, )
        if self.op in ("and", "or"):
            return "(" + (" %s " % self.op).join(map(str, self.a)) + ")"
        return "?%s" % (self.a, )


def normc(r):
    """scale by positive content so that equivalent comparisons coincide"""
    if r.den == poly._PONE and r.num and not r.is_const():
        _, c = poly.p_content(r.num)
        return r / Rat.const(c)
    return r


def c_gt(r):
    s = sign(r)
    if s == "+":
        return True
    if s in ("-", "0", "<=0"):
        return False
    return Cond("gt", normc(r))


def c_ge(r):
    s = sign(r)
    if s in ("+", "0", ">=0"):
        return True
    if s == "-":
        return False
    return Cond("ge", normc(r))


def c_eq(r):
    s = sign(r)
    if s == "0":
        return True
    if s in ("+", "-"):
        return False
    _, r = poly._norm_sign(normc(r))
    return Cond("eq", r)


def c_not(c):
    if isinstance(c, bool):
        return not c
    if c.op == "not":
        return c.a
    if c.op == "gt":
        return c_ge(-c.a)
    if c.op == "ge":
        return c_gt(-c.a)
    if c.op == "and":
        return c_or([c_not(x) for x in c.a])
    if c.op == "or":
        return c_and([c_not(x) for x in c.a])
    return Cond("not", c)


def c_and(cs):
    out = []
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        if c.op == "and":
            out.extend(x for x in c.a if x not in out)
        elif c not in out:
            out.append(c)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    for c in out:
        if c_not(c) in out:
            return False
    return Cond("and", tuple(sorted(out, key=str)))


def c_or(cs):
    out = []
    for c in cs:
        if c is False:
            continue
        if c is True:
            return True
        if c.op == "or":
            out.extend(x for x in c.a if x not in out)
        elif c not in out:
            out.append(c)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    for c in out:
        if c_not(c) in out:
            return True
    return Cond("or", tuple(sorted(out, key=str)))


def ind(c):
    """indicator of a condition, as a scalar normal form"""
    if c is True:
        return R1
    if c is False:
        return R0
    if c.op == "gt":
        return poly.ind_gt(c.a)
    if c.op == "ge":
        return R1 - poly.ind_gt(-c.a)
    if c.op == "eq":
        return R1 - poly.ind_gt(c.a) - poly.ind_gt(-c.a)
    if c.op == "not":
        return R1 - ind(c.a)
    if c.op == "and":
        r = R1
        for x in c.a:
            r = r * ind(x)
        return r
    if c.op == "or":
        r = R1
        for x in c.a:
            r = r * (R1 - ind(x))
        return R1 - r
    return Rat.atom(poly.Atom.get("ind", "?", (repr(c), )))


def ite_scalar(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, (bool, Cond)) and isinstance(b, (bool, Cond)):
        return c_or([c_and([c, a]), c_and([c_not(c), b])])
    if type(a) is int and type(b) is int and a == b:
        return a
    a, b = Rat.of(a), Rat.of(b)
    if a == b:
        return a
    if c.op == "gt":
        return poly.ite_gt(c.a, a, b)
    if c.op == "ge":
        return poly.ite_gt(-c.a, b, a)
    if c.op == "not":
        return ite_scalar(c.a, b, a)
    return b + ind(c) * (a - b)


class Arr:
    """View into a storage cell list: shape + flat storage indices."""
    __slots__ = ("addr", "shape", "idx", "lib")

    def __init__(self, addr, shape, idx, lib):
        self.addr, self.shape, self.idx, self.lib = addr, tuple(shape), \
            tuple(idx), lib

    def __repr__(self):
        return "Arr@%d%s[%s]" % (self.addr, self.shape, self.lib)

    @property
    def size(self):
        return len(self.idx)


class _Ref:
    __slots__ = ("addr", )

    def __init__(self, addr):
        self.addr = addr

    def __eq__(self, o):
        return type(self) is type(o) and self.addr == o.addr

    def __hash__(self):
        return hash((type(self).__name__, self.addr))

    def __repr__(self):
        return "%s@%d" % (type(self).__name__, self.addr)


class ListV(_Ref):
    pass


class DictV(_Ref):
    pass


class SetV(_Ref):
    pass


class ObjV:
    __slots__ = ("addr", "cls")

    def __init__(self, addr, cls):
        self.addr, self.cls = addr, cls

    def __eq__(self, o):
        return isinstance(o, ObjV) and self.addr == o.addr

    def __hash__(self):
        return hash(("obj", self.addr))

    def __repr__(self):
        return "<%s@%d>" % (getattr(self.cls, "name", self.cls), self.addr)


class FuncV:
    __slots__ = ("node", "module", "closure", "name", "owner", "defaults",
                 "kwdefaults", "decor", "fa")

    def __init__(self, node, module, closure, name, owner, defaults,
                 kwdefaults, decor=None):
        self.node, self.module, self.closure = node, module, closure
        self.name, self.owner = name, owner
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.decor = decor
        self.fa = None

    @property
    def qualname(self):
        o = self.owner.name + "." if self.owner is not None else ""
        return self.module.short + "." + o + self.name

    def __repr__(self):
        return "<func %s>" % self.qualname


class BoundV:
    __slots__ = ("func", "self_")

    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __eq__(self, o):
        return isinstance(o, BoundV) and self.func == o.func and \
            self.self_ == o.self_

    def __hash__(self):
        return hash((self.func, self.self_))

    def __repr__(self):
        return "<bound %r of %r>" % (self.func, self.self_)


class ClassV:
    def __init__(self, name, module, bases, node):
        self.name, self.module, self.bases, self.node = name, module, bases, \
            node
        self.attrs = {}
        self.is_enum = False
        self._mro = None

    @property
    def qualname(self):
        return self.module.short + "." + self.name

    def mro(self):
        if self._mro is None:
            seqs = []
            for b in self.bases:
                seqs.append(b.mro() if isinstance(b, ClassV) else [b])
            seqs.append(list(self.bases))
            out = [self]
            seqs = [list(s) for s in seqs if s]
            while any(seqs):
                for s in seqs:
                    if not s:
                        continue
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    raise Undecided("inconsistent mro of " + self.name)
                out.append(h)
                for t in seqs:
                    if t and t[0] == h:
                        t.pop(0)
                seqs = [s for s in seqs if s]
            self._mro = out
        return self._mro

    def __repr__(self):
        return "<class %s>" % self.qualname


class ExtV:
    """A dotted name outside the repository, e.g. numpy.zeros."""
    __slots__ = ("q", )

    def __init__(self, q):
        self.q = q

    @property
    def name(self):
        return self.q

    def __eq__(self, o):
        return isinstance(o, ExtV) and self.q == o.q

    def __hash__(self):
        return hash(("ext", self.q))

    def __repr__(self):
        return "ext:" + self.q


class NativeM:
    """bound native method"""
    __slots__ = ("fn", "self_", "name")

    def __init__(self, fn, self_, name):
        self.fn, self.self_, self.name = fn, self_, name

    def __repr__(self):
        return "<native %s of %r>" % (self.name, self.self_)


class PyFn:
    """A native function value supplied by a check."""
    __slots__ = ("fn", "name")

    def __init__(self, fn, name="<native>"):
        self.fn, self.name = fn, name

    def __repr__(self):
        return "<pyfn %s>" % self.name


class SuperV:
    __slots__ = ("cls", "self_")

    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class Phi:
    """Gated join of two non-mergeable values."""
    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def __repr__(self):
        return "phi(%r ? %r : %r)" % (self.cond, self.a, self.b)


class SliceV:
    __slots__ = ("lo", "up", "step")

    def __init__(self, lo, up, step):
        self.lo, self.up, self.step = lo, up, step

    def py(self):
        return slice(self.lo, self.up, self.step)


class ModV:
    __slots__ = ("name", )

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<module %s>" % self.name
