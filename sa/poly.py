"""Algebraic normal forms: Laurent polynomials with rational coefficients over
interned atoms (symbols, sin/cos/sqrt/abs/exp..., indicators, uninterpreted
functions), plus fractions of those.  This is the value-numbering domain of the
abstract interpreter: two expressions get the same normal form iff the rewrite
theory below proves them equal.

Rewrite theory: ring axioms, sin^2 -> 1-cos^2, sqrt(a)^2 -> a, |a|^2 -> a^2,
[c]^2 -> [c], angle addition, max/min/relu/clamp -> |.|, log exp, ....
"""
from fractions import Fraction
import math
import random

ZERO = Fraction(0)
ONE = Fraction(1)


class Atom:
    __slots__ = ("id", "kind", "name", "args", "_ivl")
    table = {}
    byid = []

    @staticmethod
    def get(kind, name, args=()):
        key = (kind, name, args)
        a = Atom.table.get(key)
        if a is None:
            a = Atom()
            a.id = len(Atom.byid)
            a.kind, a.name, a.args = kind, name, args
            a._ivl = None
            Atom.table[key] = a
            Atom.byid.append(a)
        return a

    def __repr__(self):
        if self.kind == "sym":
            return self.name
        if self.kind == "ind":
            return "[%s%s0]" % (self.args[0], self.name)
        return "%s(%s)" % (self.name, ", ".join(str(x) for x in self.args))


# ---------------------------------------------------------------- polynomials
# Poly: dict mono -> Fraction ; mono: tuple of (atom_id, exp) sorted by id

def p_const(c):
    c = Fraction(c)
    return {(): c} if c else {}


def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        n = d.get(k, 0) + e
        if n:
            d[k] = n
        else:
            d.pop(k, None)
    return tuple(sorted(d.items()))


def p_add(a, b, k=ONE):
    r = dict(a)
    for m, c in b.items():
        n = r.get(m, ZERO) + k * c
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return r


def p_scale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def _reduce_mono(m):
    """None if m is reduced, else a Poly equal to m."""
    for i, (aid, e) in enumerate(m):
        if e >= 2:
            at = Atom.byid[aid]
            k = at.kind
            if k == "sin" or k == "sqrt" or k == "abs" or k == "ind":
                rest = m[:i] + m[i + 1:]
                if k == "ind":
                    return {_mono_mul(rest, ((aid, 1), )): ONE}
                low = ((aid, e - 2), ) if e > 2 else ()
                base = {_mono_mul(rest, low): ONE}
                if k == "sin":
                    c = Atom.get("cos", "cos", at.args)
                    sq = {(): ONE, ((c.id, 2), ): -ONE}
                elif k == "sqrt":
                    r = at.args[0]
                    if r.den != {(): ONE}:
                        continue
                    sq = r.num
                else:
                    r = at.args[0]
                    if r.den != {(): ONE}:
                        continue
                    sq = p_mul(r.num, r.num)
                return p_mul(base, sq)
    return None


MAXTERMS = 60000


class Blowup(Exception):
    pass


def p_mul(a, b):
    if len(a) > len(b):
        a, b = b, a
    if len(a) * len(b) > 4000000:
        raise Blowup()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = _mono_mul(m1, m2)
            r[m] = r.get(m, ZERO) + c1 * c2
    out = {}
    dirty = []
    for m, c in r.items():
        if not c:
            continue
        red = None
        for aid, e in m:
            if e >= 2 and Atom.byid[aid].kind in _REDUCIBLE:
                red = _reduce_mono(m)
                break
        if red is None:
            n = out.get(m, ZERO) + c
            if n:
                out[m] = n
            else:
                out.pop(m, None)
        else:
            dirty.append((red, c))
    for red, c in dirty:
        out = p_add(out, red, c)
    if len(out) > MAXTERMS:
        raise Blowup()
    return out


_REDUCIBLE = {"sin", "sqrt", "abs", "ind"}


def p_is_const(a):
    return not a or (len(a) == 1 and () in a)


def p_exactdiv(a, b):
    """a / b if exact as polynomials (no reductions used), else None."""
    if not a:
        return {}
    if not b:
        return None
    # lead terms by sorted tuple with a fixed monomial order (lex on dense exps)
    atoms = set()
    for p in (a, b):
        for m in p:
            for aid, e in m:
                atoms.add(aid)
                if e < 0:
                    return None
    order = sorted(atoms)

    def key(m):
        d = dict(m)
        return tuple(d.get(x, 0) for x in order)

    lb = max(b, key=key)
    kb = key(lb)
    cb = b[lb]
    rem = dict(a)
    q = {}
    steps = 0
    while rem:
        steps += 1
        if steps > 3000:
            return None
        la = max(rem, key=key)
        ka = key(la)
        if any(x < y for x, y in zip(ka, kb)):
            return None
        mq = tuple((x, u - v) for x, u, v in zip(order, ka, kb) if u - v)
        cq = rem[la] / cb
        q[mq] = q.get(mq, ZERO) + cq
        for m, c in b.items():
            mm = _mono_mul(m, mq)
            n = rem.get(mm, ZERO) - cq * c
            if n:
                rem[mm] = n
            else:
                rem.pop(mm, None)
    return q


def p_content(a):
    """gcd monomial (may be negative exps) and positive numeric content."""
    mins = None
    num = 0
    den = 1
    for m, c in a.items():
        d = dict(m)
        if mins is None:
            mins = d
        else:
            for k in list(mins):
                mins[k] = min(mins[k], d.get(k, 0))
            for k, e in d.items():
                if k not in mins:
                    mins[k] = min(0, e)
        num = math.gcd(num, c.numerator)
        den = den * c.denominator // math.gcd(den, c.denominator)
    mono = tuple(sorted((k, e) for k, e in (mins or {}).items() if e))
    return mono, Fraction(num, den) if num else ONE


def _mono_inv(m):
    return tuple((k, -e) for k, e in m)


_PONE = {(): ONE}


class Rat:
    __slots__ = ("num", "den", "_h", "_key")

    def __init__(self, num, den=None):
        if den is None:
            den = _PONE
        if not num:
            den = _PONE
        elif den != _PONE:
            num, den = Rat._norm(num, den)
        self.num = num
        self.den = den
        self._h = None
        self._key = None

    @staticmethod
    def _norm(num, den):
        if not den:
            raise ZeroDivisionError("division by symbolic zero")
        if len(den) == 1:
            (m, c), = den.items()
            inv = {_mono_inv(m): ONE / c}
            return p_mul(num, inv), _PONE
        mono, cont = p_content(den)
        # leading coefficient sign by smallest sorted monomial repr
        lead = min(den)
        if den[lead] < 0:
            cont = -cont
        if mono or cont != 1:
            inv = {_mono_inv(mono): ONE / cont}
            den = p_mul(den, inv)
            num = p_mul(num, inv)
            if den == _PONE:
                return num, den
        # try exact division (strip monomial content of num first)
        mn, cn = p_content(num)
        n2 = {_mono_mul(m, _mono_inv(mn)): c for m, c in num.items()}
        if len(n2) * len(den) < 20000:
            q = p_exactdiv(n2, den)
            if q is not None:
                return p_mul(q, {mn: ONE}), _PONE
            if len(n2) > 1:
                q = p_exactdiv(den, n2)
                if q is not None and len(q) >= 1:
                    return Rat._norm({mn: ONE}, q)
        return num, den

    # -- construction
    @staticmethod
    def const(c):
        return Rat(p_const(c))

    @staticmethod
    def atom(a):
        return Rat({((a.id, 1), ): ONE})

    @staticmethod
    def sym(name):
        return Rat.atom(Atom.get("sym", name))

    @staticmethod
    def of(x):
        if isinstance(x, Rat):
            return x
        if isinstance(x, bool):
            return Rat.const(int(x))
        if isinstance(x, (int, Fraction)):
            return Rat.const(x)
        if isinstance(x, float):
            return Rat.const(Fraction(repr(x)))
        raise TypeError("not a scalar: %r" % (x, ))

    # -- queries
    def is_const(self):
        return self.den == _PONE and p_is_const(self.num)

    def const_value(self):
        return self.num.get((), ZERO)

    def is_zero(self):
        return not self.num

    def key(self):
        if self._key is None:
            self._key = (frozenset(self.num.items()),
                         None if self.den is _PONE or self.den == _PONE else
                         frozenset(self.den.items()))
        return self._key

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        if isinstance(o, (int, Fraction)) and not isinstance(o, bool):
            return self.is_const() and self.const_value() == o
        return isinstance(o, Rat) and self.key() == o.key()

    def atoms(self, deep=True):
        out = set()
        stack = [self]
        seen = set()
        while stack:
            r = stack.pop()
            if r in seen:
                continue
            seen.add(r)
            for p in (r.num, r.den):
                for m in p:
                    for aid, _ in m:
                        a = Atom.byid[aid]
                        if a not in out:
                            out.add(a)
                            if deep:
                                for x in a.args:
                                    if isinstance(x, Rat):
                                        stack.append(x)
        return out

    # -- arithmetic
    def __add__(self, o):
        o = Rat.of(o)
        if self.den == o.den:
            return Rat(p_add(self.num, o.num), self.den)
        return Rat(p_add(p_mul(self.num, o.den), p_mul(o.num, self.den)),
                   p_mul(self.den, o.den))

    __radd__ = __add__

    def __neg__(self):
        return Rat(p_scale(self.num, -ONE), self.den)

    def __sub__(self, o):
        return self + (-Rat.of(o))

    def __rsub__(self, o):
        return Rat.of(o) + (-self)

    def __mul__(self, o):
        o = Rat.of(o)
        if not self.num or not o.num:
            return R0
        if self.den == _PONE and o.den == _PONE:
            return Rat(p_mul(self.num, o.num))
        return Rat(p_mul(self.num, o.num), p_mul(self.den, o.den))

    __rmul__ = __mul__

    def inv(self):
        if not self.num:
            raise ZeroDivisionError("division by symbolic zero")
        if self.den == _PONE:
            return Rat(_PONE, self.num)
        return Rat(self.den, self.num)

    def __truediv__(self, o):
        return self * Rat.of(o).inv()

    def __rtruediv__(self, o):
        return Rat.of(o) * self.inv()

    def __pow__(self, n):
        if isinstance(n, Rat):
            if not n.is_const():
                return fn("pow", self, n)
            n = n.const_value()
        n = Fraction(n)
        if n.denominator == 1:
            n = int(n)
            if n < 0:
                return (self**(-n)).inv()
            r = R1
            b = self
            while n:
                if n & 1:
                    r = r * b
                b = b * b if n > 1 else b
                n >>= 1
            return r
        if n.denominator == 2:
            return sqrt(self)**int(n.numerator)
        return fn("pow", self, Rat.const(n))

    def __repr__(self):
        def ps(p):
            if not p:
                return "0"
            out = []
            for m, c in sorted(p.items(), key=lambda t: str(t[0])):
                ms = "*".join("%s%s" % (Atom.byid[a], "" if e == 1 else
                                        "^%d" % e) for a, e in m)
                if not ms:
                    out.append(str(c))
                elif c == 1:
                    out.append(ms)
                elif c == -1:
                    out.append("-" + ms)
                else:
                    out.append("%s*%s" % (c, ms))
            return " + ".join(out)
        s = ps(self.num)
        if self.den != _PONE:
            s = "(%s)/(%s)" % (s, ps(self.den))
        if len(s) > 400:
            s = s[:400] + "..."
        return s


R0 = Rat({})
R1 = Rat.const(1)
PI = Rat.sym("pi")
INF = Rat.sym("inf")
(_INF_MONO, _), = INF.num.items()


def fn(name, *args):
    return Rat.atom(Atom.get("fn", name, tuple(args)))


def norm4(cells):
    """(sum of fourth powers) ** 1/4, without expanding the powers"""
    cells = [Rat.of(c) for c in cells]
    return fn("norm4", *sorted((min(c, -c, key=str) for c in cells), key=str))


# ------------------------------------------------------------------ intervals
NINF = float("-inf")
PINF = float("inf")
# bounds of symbols: name -> (lo, lo_open, up, up_open); set per context
BOUNDS = {}


def set_bounds(name, lo=None, up=None, lo_open=False, up_open=False):
    # symbols are finite reals: an infinite end is never attained
    BOUNDS[name] = (NINF if lo is None else lo, lo_open or lo is None,
                    PINF if up is None else up, up_open or up is None)
    for a in Atom.byid:
        a._ivl = None


def copy_bounds(a, b):
    """bounds of symbol a also for the new symbol b"""
    if a in BOUNDS and BOUNDS.get(b) != BOUNDS[a]:
        BOUNDS[b] = BOUNDS[a]
        t = Atom.table.get(("sym", b, ()))
        if t is not None:
            t._ivl = None


def clear_bounds():
    BOUNDS.clear()
    for a in Atom.byid:
        a._ivl = None


def _iv_add(a, b):
    return (a[0] + b[0], a[1] or b[1], a[2] + b[2], a[3] or b[3])


def _m(x, y):
    if x == 0 or y == 0:
        return 0
    return x * y


def _iv_mul(a, b):
    c = []
    for (x, xo) in ((a[0], a[1]), (a[2], a[3])):
        for (y, yo) in ((b[0], b[1]), (b[2], b[3])):
            v = _m(x, y)
            # zero endpoint reached if either zero endpoint is closed
            if v == 0:
                o = not ((x == 0 and not xo) or (y == 0 and not yo))
            else:
                o = xo or yo
            c.append((v, o))
    lo = min(v for v, _ in c)
    up = max(v for v, _ in c)
    lo_o = all(o for v, o in c if v == lo)
    up_o = all(o for v, o in c if v == up)
    # interior zero: product interval containing zero in interior is fine
    return (lo, lo_o, up, up_o)


def _iv_pow(a, e):
    if e < 0:
        if a[0] > 0 or (a[0] == 0 and a[1]) or a[2] < 0 or (a[2] == 0
                                                            and a[3]):
            lo, lo_o, up, up_o = a

            def rec(x, neg):
                if x == 0:
                    return NINF if neg else PINF
                if x in (NINF, PINF):
                    return 0
                return Fraction(1) / x if not isinstance(x, float) else 1 / x
            neg = a[2] < 0 or (a[2] == 0 and a[3])
            a = (rec(up, neg), up_o, rec(lo, neg), lo_o)
            if not neg:
                a = (rec(up, False), up_o, rec(lo, False), lo_o)
            e = -e
        else:
            return (NINF, True, PINF, True)
    if e % 2 == 0:
        lo, lo_o, up, up_o = a
        if lo >= 0:
            b = (_m(lo, lo), lo_o, _m(up, up), up_o)
        elif up <= 0:
            b = (_m(up, up), up_o, _m(lo, lo), lo_o)
        else:
            if abs(lo) > abs(up):
                m, mo = lo, lo_o
            elif abs(lo) < abs(up):
                m, mo = up, up_o
            else:
                m, mo = up, lo_o and up_o
            b = (0, False, _m(m, m), mo)
        r = b
        for _ in range(e // 2 - 1):
            r = _iv_mul(r, b)
        return r
    r = a
    for _ in range(e - 1):
        r = _iv_mul(r, a)
    return r


FULL = (NINF, True, PINF, True)


def atom_interval(a):
    if a._ivl is not None:
        return a._ivl
    k = a.kind
    if k == "sym":
        if a.name == "pi":
            r = (Fraction(314, 100), True, Fraction(315, 100), True)
        elif a.name == "inf":
            r = (Fraction(10)**30, True, PINF, True)
        else:
            r = BOUNDS.get(a.name)
            if r is None and a.name.startswith("~"):
                r = BOUNDS.get(a.name[1:])
            if r is None:
                r = FULL
    elif k in ("sin", "cos"):
        r = (-1, False, 1, False)
    elif k in ("sqrt", "abs"):
        iv = interval(a.args[0])
        if k == "abs":
            if iv[0] > 0 or (iv[0] == 0 and iv[1]):
                r = iv
            elif iv[2] < 0 or (iv[2] == 0 and iv[3]):
                r = (-iv[2], iv[3], -iv[0], iv[1])
            else:
                r = (0, False, max(-iv[0], iv[2]), False)
        else:
            op = iv[0] > 0 or (iv[0] == 0 and iv[1])
            r = (0, op, PINF, True)
            if iv[0] > 0 and not isinstance(iv[0], float):
                b = Fraction(math.isqrt(math.floor(iv[0] * 10**12)), 10**6)
                if b > 0:
                    r = (b, iv[1] or b * b != iv[0], PINF, True)
            if not isinstance(iv[2], float):
                b = Fraction(math.isqrt(math.floor(max(iv[2], 0) * 10**12)),
                             10**6)
                if b * b != iv[2]:
                    r = (r[0], r[1], b + Fraction(1, 10**6), True)
                else:
                    r = (r[0], r[1], b, iv[3])
    elif k == "ind":
        r = (0, False, 1, False)
    elif k == "fn" and a.name in ("exp", ):
        r = (0, True, PINF, True)
    elif k == "fn" and a.name in ("sigmoid", ):
        r = (0, True, 1, True)
    elif k == "fn" and a.name in ("norm", "norm4", "softplus", "nneg"):
        r = (0, False, PINF, True)
    else:
        r = FULL
    a._ivl = r
    return r


def _p_interval(p):
    tot = (0, False, 0, False)
    for m, c in p.items():
        iv = (c, False, c, False)
        for aid, e in m:
            iv = _iv_mul(iv, _iv_pow(atom_interval(Atom.byid[aid]), e))
        tot = _iv_add(tot, iv)
        if tot[0] != tot[0]:
            tot = (NINF, True, tot[2], tot[3])
        if tot[2] != tot[2]:
            tot = (tot[0], tot[1], PINF, True)
    return tot


def interval(r):
    n = _p_interval(r.num)
    if r.den == _PONE:
        return n
    d = _iv_pow(_p_interval(r.den), -1)
    return _iv_mul(n, d)


def sign(r):
    """'+', '-', '0', '>=0', '<=0' or None (unknown)."""
    if r.is_zero():
        return "0"
    if r.den == _PONE:
        # finite terms cannot outweigh a pure infinity
        ci = r.num.get(_INF_MONO)
        if ci is not None and not any(
                m != _INF_MONO and any(e[0] == _INF_MONO[0][0] for e in m)
                for m in r.num):
            return "+" if ci > 0 else "-"
    iv = interval(r)
    if iv[0] > 0 or (iv[0] == 0 and iv[1]):
        return "+"
    if iv[2] < 0 or (iv[2] == 0 and iv[3]):
        return "-"
    if iv[0] == 0:
        return ">=0"
    if iv[2] == 0:
        return "<=0"
    return None


# ---------------------------------------------------------- function builders
def _terms(r):
    return [(m, c) for m, c in r.num.items()]


def _norm_sign(r):
    """(s, r') with r = s*r', s in {1,-1}, canonical leading sign."""
    if not r.num:
        return 1, r
    lead = min(r.num)
    if r.num[lead] < 0:
        return -1, -r
    return 1, r


def _pi_multiple(r):
    """r = q*pi exactly -> Fraction q, else None."""
    if r.is_zero():
        return ZERO
    if r.den == _PONE and len(r.num) == 1:
        (m, c), = r.num.items()
        if m == ((Atom.get("sym", "pi").id, 1), ):
            return c
    return None


def sin(r):
    r = Rat.of(r)
    q = _pi_multiple(r)
    if q is not None:
        q = q % 2
        t = {ZERO: 0, Fraction(1, 2): 1, ONE: 0, Fraction(3, 2): -1}
        if q in t:
            return Rat.const(t[q])
    s, r = _norm_sign(r)
    if r.den == _PONE and len(r.num) > 1:
        items = sorted(r.num.items())
        a = Rat(dict(items[:1]))
        b = Rat(dict(items[1:]))
        return (sin(a) * cos(b) + cos(a) * sin(b)) * s
    if r.den == _PONE and len(r.num) == 1:
        (m, c), = r.num.items()
        if c.denominator == 1 and abs(c) > 1 and abs(c) <= 8 and m:
            a = Rat({m: ONE})
            b = Rat({m: c - 1})
            return (sin(a) * cos(b) + cos(a) * sin(b)) * s
    return Rat.atom(Atom.get("sin", "sin", (r, ))) * s


def cos(r):
    r = Rat.of(r)
    q = _pi_multiple(r)
    if q is not None:
        q = q % 2
        t = {ZERO: 1, Fraction(1, 2): 0, ONE: -1, Fraction(3, 2): 0}
        if q in t:
            return Rat.const(t[q])
    _, r = _norm_sign(r)
    if r.den == _PONE and len(r.num) > 1:
        items = sorted(r.num.items())
        a = Rat(dict(items[:1]))
        b = Rat(dict(items[1:]))
        return cos(a) * cos(b) - sin(a) * sin(b)
    if r.den == _PONE and len(r.num) == 1:
        (m, c), = r.num.items()
        if c.denominator == 1 and abs(c) > 1 and abs(c) <= 8 and m:
            a = Rat({m: ONE})
            b = Rat({m: c - 1})
            return cos(a) * cos(b) - sin(a) * sin(b)
    return Rat.atom(Atom.get("cos", "cos", (r, )))


def tan(r):
    return sin(r) / cos(r)


def _isqrt_frac(f):
    n, d = f.numerator, f.denominator
    if n < 0:
        return None
    a, b = math.isqrt(n), math.isqrt(d)
    if a * a == n and b * b == d:
        return Fraction(a, b)
    return None


def sqrt(r):
    r = Rat.of(r)
    if r.is_zero():
        return R0
    if r.is_const():
        q = _isqrt_frac(r.const_value())
        if q is not None:
            return Rat.const(q)
    if r.den != _PONE:
        # sqrt(n/d) = sqrt(n*d)/|d| ; keep as sqrt(n)/sqrt(d)
        return sqrt(Rat(r.num)) / sqrt(Rat(r.den))
    # pull out perfect-square positive content
    mono, cont = p_content(r.num)
    q = _isqrt_frac(cont)
    out = R1
    if q is not None and q != 1:
        r = Rat(p_scale(r.num, ONE / cont))
        out = Rat.const(q)
    if len(r.num) == 1:
        (m, c), = r.num.items()
        if c == 1:
            ev = tuple((k, e // 2) for k, e in m if e % 2 == 0)
            od = tuple((k, e) for k, e in m if e % 2)
            if ev:
                return out * absv(Rat({ev: ONE})) * (sqrt(Rat({od: ONE}))
                                                     if od else R1)
        if len(m) + (c != 1) > 1 or (m and m[0][1] != 1):
            # a product of positive things: one root each
            fs = [Rat({((k, 1), ): ONE}) for k, e in m]
            if all(sign(f) in ("+", ">=0") for f in fs) and c > 0:
                for f, (k, e) in zip(fs, m):
                    out = out * f ** (e // 2)
                    if e % 2:
                        out = out * sqrt(f)
                return out * sqrt(Rat.const(c)) if c != 1 else out
    return out * Rat.atom(Atom.get("sqrt", "sqrt", (r, )))


def absv(r):
    r = Rat.of(r)
    if r.is_const():
        return Rat.const(abs(r.const_value()))
    s = sign(r)
    if s in ("+", ">=0"):
        return r
    if s in ("-", "<=0"):
        return -r
    _, r = _norm_sign(r)
    if r.den != _PONE:
        return absv(Rat(r.num)) / absv(Rat(r.den))
    mono, cont = p_content(r.num)
    k = Rat.const(cont)
    r = r / k
    if len(r.num) == 1:
        (m, c), = r.num.items()
        if len(m) > 1 or m[0][1] != 1:
            for aid, e in m:
                base = Rat({((aid, 1), ): ONE})
                k = k * absv_atom(base)**e
            return k
    return k * Rat.atom(Atom.get("abs", "abs", (r, )))


def absv_atom(r):
    s = sign(r)
    if s in ("+", ">=0"):
        return r
    if s in ("-", "<=0"):
        return -r
    _, r = _norm_sign(r)
    return Rat.atom(Atom.get("abs", "abs", (r, )))


HALF = Rat.const(Fraction(1, 2))


def max2(a, b):
    a, b = Rat.of(a), Rat.of(b)
    if _is_inf(a):
        return a
    if _is_inf(b):
        return b
    if _is_inf(-a):
        return b
    if _is_inf(-b):
        return a
    return (a + b + absv(a - b)) * HALF


def _is_inf(r):
    return r == INF


def min2(a, b):
    return -max2(-Rat.of(a), -Rat.of(b))


def relu(a):
    return max2(a, R0)


def ind_gt(r):
    """[r > 0]"""
    r = Rat.of(r)
    s = sign(r)
    if s == "+":
        return R1
    if s in ("-", "0", "<=0"):
        return R0
    if r.den == _PONE:
        _, cont = p_content(r.num)
        r = r / Rat.const(cont)
    return Rat.atom(Atom.get("ind", ">", (r, )))


def ite_gt(r, a, b):
    """a if r > 0 else b"""
    r, a, b = Rat.of(r), Rat.of(a), Rat.of(b)
    if a == b:
        return a
    s = sign(r)
    if s == "+":
        return a
    if s in ("-", "0", "<=0"):
        return b
    d = a - b
    q = None
    if r.den == _PONE and d.den == _PONE and not r.is_const():
        q = p_exactdiv(d.num, r.num)
    if q is not None:
        return b + Rat(q) * relu(r)
    return b + ind_gt(r) * d


def exp(r):
    r = Rat.of(r)
    if r.is_zero():
        return R1
    return fn("exp", r)


def log(r):
    r = Rat.of(r)
    if r == 1:
        return R0
    if len(r.num) == 1 and r.den == _PONE:
        (m, c), = r.num.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            at = Atom.byid[m[0][0]]
            if at.kind == "fn" and at.name == "exp":
                return at.args[0]
    return fn("log", r)


# ------------------------------------------------------------- substitution
def subst(r, f, cache=None):
    """Rebuild r with every symbol atom mapped through f(atom)->Rat|None."""
    if cache is None:
        cache = {}

    def sub_atom(at):
        if at in cache:
            return cache[at]
        v = f(at)
        if v is None:
            if not at.args:
                v = Rat.atom(at)
            else:
                args = tuple(sub_rat(x) if isinstance(x, Rat) else x
                             for x in at.args)
                if args == at.args:
                    v = Rat.atom(at)
                elif at.kind == "sin":
                    v = sin(args[0])
                elif at.kind == "cos":
                    v = cos(args[0])
                elif at.kind == "sqrt":
                    v = sqrt(args[0])
                elif at.kind == "abs":
                    v = absv(args[0])
                elif at.kind == "ind":
                    v = ind_gt(args[0])
                elif at.kind == "fn" and at.name == "exp":
                    v = exp(args[0])
                elif at.kind == "fn" and at.name == "log":
                    v = log(args[0])
                else:
                    v = Rat.atom(Atom.get(at.kind, at.name, args))
        cache[at] = v
        return v

    def sub_poly(p):
        tot = R0
        for m, c in p.items():
            t = Rat.const(c)
            for aid, e in m:
                t = t * sub_atom(Atom.byid[aid])**e
            tot = tot + t
        return tot

    def sub_rat(x):
        if all(f(a) is None for a in x.atoms()):
            return x
        n = sub_poly(x.num)
        if x.den != _PONE:
            n = n / sub_poly(x.den)
        return n
    return sub_rat(r)


def is_symbol(r):
    a = list(r.atoms(False))
    return len(a) == 1 and a[0].kind == "sym" and r == Rat.atom(a[0])


def diff(r, name):
    """Formal partial derivative with respect to symbol `name`."""
    return _diff(r, name, {})


def _diff(r, name, cache):
    def d_atom(at):
        if at in cache:
            return cache[at]
        k = at.kind
        if k == "sym":
            v = R1 if at.name == name else R0
        elif k == "sin":
            v = cos(at.args[0]) * _diff(at.args[0], name, cache)
        elif k == "cos":
            v = -sin(at.args[0]) * _diff(at.args[0], name, cache)
        elif k == "sqrt":
            da = _diff(at.args[0], name, cache)
            v = R0 if da.is_zero() else HALF * da / Rat.atom(at)
        elif k == "abs":
            da = _diff(at.args[0], name, cache)
            v = R0 if da.is_zero() else da * (ind_gt(at.args[0]) * 2 - 1)
        elif k == "ind":
            v = R0
        elif k == "fn" and at.name == "exp":
            v = Rat.atom(at) * _diff(at.args[0], name, cache)
        elif k == "fn" and at.name == "log":
            v = _diff(at.args[0], name, cache) / at.args[0]
        elif k == "fn" and at.name == "atan2":
            y, x = at.args
            dy, dx = _diff(y, name, cache), _diff(x, name, cache)
            v = (x * dy - y * dx) / (x * x + y * y) if not (
                dy.is_zero() and dx.is_zero()) else R0
        elif k == "fn" and at.name in ("asin", "acos"):
            da = _diff(at.args[0], name, cache)
            v = R0 if da.is_zero() else da / sqrt(1 - at.args[0]**2)
            if at.name == "acos":
                v = -v
        else:
            v = R0
            for i, x in enumerate(at.args):
                if isinstance(x, Rat):
                    dx = _diff(x, name, cache)
                    if not dx.is_zero():
                        v = v + dx * Rat.atom(
                            Atom.get("fn", "D%d[%s]" % (i, at.name), at.args))
        cache[at] = v
        return v

    def d_poly(p):
        tot = R0
        for m, c in p.items():
            for i, (aid, e) in enumerate(m):
                da = d_atom(Atom.byid[aid])
                if da.is_zero():
                    continue
                rest = m[:i] + (((aid, e - 1), ) if e != 1 else ()) + m[i + 1:]
                tot = tot + Rat({rest: c * e}) * da
        return tot
    n = d_poly(r.num)
    if r.den == _PONE:
        return n
    dd = d_poly(r.den)
    return (n * Rat(r.den) - Rat(r.num) * dd) / (Rat(r.den) * Rat(r.den))


# -------------------------------------------------------------- evaluation of
# normal forms (polynomial identity testing, used only when two normal forms
# differ syntactically)
class EvalError(Exception):
    pass


def evaluate(r, env, cache):
    def ev_atom(at):
        if at in cache:
            return cache[at]
        k = at.kind
        if k == "sym":
            v = env(at.name)
        else:
            a = [evaluate(x, env, cache) if isinstance(x, Rat) else x
                 for x in at.args]
            if k == "sin":
                v = math.sin(a[0])
            elif k == "cos":
                v = math.cos(a[0])
            elif k == "sqrt":
                if a[0] < 0:
                    raise EvalError()
                v = math.sqrt(a[0])
            elif k == "abs":
                v = abs(a[0])
            elif k == "ind":
                v = 1. if a[0] > 0 else 0.
            elif at.name == "exp":
                if a[0] > 50:
                    raise EvalError()
                v = math.exp(a[0])
            elif at.name == "log":
                if a[0] <= 0:
                    raise EvalError()
                v = math.log(a[0])
            elif at.name == "sigmoid":
                v = 1 / (1 + math.exp(-a[0]))
            elif at.name == "tanh":
                v = math.tanh(a[0])
            elif at.name == "norm4":
                v = sum(x ** 4 for x in a) ** .25
            elif at.name == "atan2":
                v = math.atan2(a[0], a[1])
            elif at.name == "asin":
                if abs(a[0]) > 1:
                    raise EvalError()
                v = math.asin(a[0])
            elif at.name == "acos":
                if abs(a[0]) > 1:
                    raise EvalError()
                v = math.acos(a[0])
            elif at.name == "pow":
                if a[0] <= 0:
                    raise EvalError()
                v = a[0]**a[1]
            elif at.name == "solve_entry":
                v = _hashval(at.name, a)
            else:
                v = _hashval(at.name, a)
        cache[at] = v
        return v

    def ev_poly(p):
        t = g = 0.
        for m, c in p.items():
            x = float(c)
            for aid, e in m:
                b = ev_atom(Atom.byid[aid])
                if e < 0 and b == 0:
                    raise EvalError()
                x *= b**e
            t += x
            g += abs(x)
        return t, g
    n, g = ev_poly(r.num)
    if r.den != _PONE:
        d, gd = ev_poly(r.den)
        if abs(d) < 1e-12:
            raise EvalError()
        n /= d
        g = g / abs(d) + abs(n) * gd / abs(d)
    if g > cache.get("mag", 0.):
        cache["mag"] = g
    return n


def _hashval(name, args):
    key = [name]
    for x in args:
        key.append("%.7e" % x if isinstance(x, (int, float)) else repr(x))
    return random.Random("|".join(key)).uniform(0.3, 2.0)


def sample_env(seed, scale=1., over=None):
    vals = dict(over or {})

    def env(name):
        if name == "pi":
            return math.pi
        if name == "inf":
            return 1e30
        if name not in vals:
            b = BOUNDS.get(name)
            r = random.Random("%s|%s" % (seed, name))
            if b is None and name.startswith("~"):
                return env(name[1:])
            lo, up = -1.3 * scale, 1.3 * scale
            if b is not None:
                lo = float(b[0]) if b[0] != NINF else (
                    min(-1.3, float(b[2]) - 2) if b[2] != PINF else -1.3)
                up = float(b[2]) if b[2] != PINF else max(1.3, lo + 2)
            w = (up - lo)
            vals[name] = r.uniform(lo + 0.05 * w, up - 0.05 * w)
        return vals[name]
    env.vals = vals
    return env


def equal(a, b, seed=1, samples=8):
    """(True, None) if equal; (False, witness) otherwise."""
    a, b = Rat.of(a), Rat.of(b)
    if a == b:
        return True, None
    try:
        d = a - b
        if d.is_zero():
            return True, None
        # clear negative exponents and re-reduce
        mono, _ = p_content(d.num)
        neg = tuple((k, -e) for k, e in mono if e < 0)
        if neg and not p_mul(d.num, {neg: ONE}):
            return True, None
    except Blowup:
        pass
    good = 0
    tries = 0
    kinks = [at for at in (set(a.atoms(True)) | set(b.atoms(True)))
             if at.kind in ("abs", "ind")]
    seen = {at: set() for at in kinks}

    def probe(env):
        """compare at one point; None outside the domain"""
        cache = {}
        try:
            x = evaluate(a, env, cache)
            y = evaluate(b, env, cache)
            for at in kinks:
                v = evaluate(at.args[0], env, cache)
                if v != 0:
                    seen[at].add(v > 0)
        except (EvalError, OverflowError, ZeroDivisionError):
            return None
        if abs(x - y) > 1e-7 * (1 + abs(x) + abs(y)) + \
                1e-11 * cache.get("mag", 0.):
            return (x, y, dict(env.vals))
        return True
    while good < samples and tries < 200:
        tries += 1
        r = probe(sample_env("%s:%s" % (seed, tries),
                             (1., 1., 3., 0.2, 12.)[tries % 5]
                             if tries % 7 else 1.))
        if r is None:
            continue
        if r is not True:
            return False, r
        good += 1
    if good == 0:
        return None, None
    # steer to the side of every kink that the samples have not reached
    for at in sorted(kinks, key=repr)[:24]:
        if len(seen[at]) == 2:
            continue
        names = sorted(x.name for x in at.args[0].atoms(True)
                       if x.kind == "sym" and x.name not in ("pi", "inf"))
        n = 0
        for nm in names[:8]:
            bd = BOUNDS.get(nm)
            for v in (0.0213, 0.3171, 1.4637, 2.2373, 5.113, 20.37,
                          101.3, 1003.7):
                for sg in (-1, 1):
                    w = sg * v
                    if bd is not None and not (bd[0] <= w <= bd[2]):
                        continue
                    n += 1
                    r = probe(sample_env("%s:k%d" % (seed, n), 1., {nm: w}))
                    if r is not None and r is not True:
                        return False, r
            if len(seen[at]) == 2:
                break
    return True, None
