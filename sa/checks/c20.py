"""The spring-loaded inverted pendulum's apex-to-apex return map, its
linearisation and its simulation."""
from fractions import Fraction

from .. import poly
from ..poly import Rat
from ..values import Arr, ListV, ExtV, Phi, Cond, c_gt, c_not
from ..interp import Undecided
from .common import sym, where
from .c02 import make_slip

TITLE = "Spring-loaded pendulum: return map, its linearisation, simulation"
EXPLANATION = (
    "solve_ivp is replaced by an uninterpreted flow: the field it is given "
    "is evaluated at a symbolic state and compared with the stance (or "
    "flight) dynamics, or the variational equation of it; its initial state, "
    "its start time and its events (guard expression, direction, terminal) "
    "are obligations, and it answers with symbols for the final state, the "
    "sensitivities and the event time.  The map's answer, the twelve "
    "gradients and every row of the linear approximation are then compared "
    "with the composition of the phases and its derivative, which the check "
    "computes by the chain rule from the phase maps.")
ASSUMPTIONS = ("scipy.integrate.solve_ivp follows its documentation; rounding "
               "and integration tolerance are ignored", )
MIN_OBS = 300
MOD = "spring_loaded_inverted_pendulum"
HYB = "slip_hybrid_linear_system"
IVP = "ext:scipy.integrate.solve_ivp"


def w(ck, m, cls="SLIP", mod=MOD):
    return where(ck.repo, mod, cls + "." + m)


def truthy(ip, v):
    return v is not None and ip.truth(v) is True


class Flow:
    """what solve_ivp answers, call by call"""
    def __init__(self, ck, ip, o, key, answers, events=True):
        self.ck, self.ip, self.o, self.key = ck, ip, o, key
        self.answers = list(answers)
        self.calls = []
        self.l0 = sym("l0")
        self.pi = None
        ip.hooks[IVP] = self

    def field(self, fun, n, k):
        ip, ck = self.ip, self.ck
        ys = [sym("y%d" % i) for i in range(n)]
        f = ip.call(fun, [sym("tt"), ip.new_arr((n,), ys, "np")], {})
        f = ip.cells(f)
        ref = flight(ys) if n == 4 else stance(ys)
        if n == 30:
            J = [[poly.diff(r, "y%d" % j) for j in range(5)] for r in ref]
            for i in range(5):
                for j in range(5):
                    ref.append(sum((J[i][m] * ys[5 + 5 * m + j]
                                    for m in range(5)), Rat.const(0)))
        rule = "the field integrated is the dynamics of the phase" if \
            n != 30 else "the sensitivity obeys the variational equation"
        if len(f) != len(ref):
            ck.ob(k + ".field", False, rule, "%d entries" % len(f), self.w)
            return
        for i, (a, b) in enumerate(zip(f, ref)):
            ck.eq("%s.field[%d]" % (k, i), a, b, rule, self.w)

    def horizon(self, t0, t1, kw, k):
        ck, ip = self.ck, self.ip
        d = Rat.of(ip.num(t1)) - Rat.of(ip.num(t0))
        s = poly.sign(d)
        ck.ob(k + ".horizon", True if s == "+" or poly._is_inf(t1) else None
              if s is None else False, "the integration runs forward in time",
              str(d), self.w)
        rt = kw.get("rtol")
        if rt is not None:
            s = (poly.sign(Rat.of(ip.num(rt))),
                 poly.sign(Rat.const(Fraction(1, 1000)) -
                           Rat.of(ip.num(rt))))
            ck.ob(k + ".rtol", s[0] == "+" and s[1] in ("+", ">=0", "0"),
                  "no looser tolerance than the solver's default", str(rt),
                  self.w)

    def guards(self, evs, n, k, guard, walls):
        """which event is the guard; every other one must be a wall"""
        ip, ck = self.ip, self.ck
        ys = [sym("y%d" % i) for i in range(n)]
        evs = [] if evs is None else ip.iterate(evs) if isinstance(
            evs, (ListV, tuple)) else [evs]
        evs = [(e, ip.call(e, [sym("tt"), ip.new_arr((n,), ys, "np")], {}))
               for e in evs]
        found, hit = None, set()
        for j, (e, r) in enumerate(evs):
            if isinstance(r, Arr):
                r = ip.cells(r)[0]
            r = Rat.of(r)
            d = Rat.of(ip.num(ip.getattr(e, "direction", 0)))
            t = truthy(ip, ip.getattr(e, "terminal", None))
            for sgn in (1, -1):
                if r == guard[0] * Rat.const(sgn):
                    found = j
                    ck.ob("%s.event" % k, t, "the phase ends at its guard",
                          "the event is not terminal", self.w)
                    ck.eq("%s.direction" % k, d * Rat.const(sgn), guard[1],
                          "the guard is crossed in the right direction "
                          "only", self.w)
            for wl, (g, gd) in enumerate(walls):
                for sgn in (1, -1):
                    if r == g * Rat.const(sgn):
                        hit.add(wl)
                        ck.ob("%s.wall%d" % (k, wl), t,
                              "a fall ends the stance",
                              "the event is not terminal", self.w)
                        dd = d * Rat.const(sgn)
                        ck.ob("%s.wall%d.direction" % (k, wl),
                              dd == Rat.const(0) or dd == Rat.const(gd),
                              "a fall is noticed when the mass comes down",
                              str(d), self.w)
        ck.ob("%s.guard" % k, found is not None,
              "the phase ends at its guard", "no event is %s; events %s" % (
                  guard[0], [str(r) for _, r in evs]), self.w)
        for wl in range(len(walls)):
            known = len(hit) == len(walls) or len(evs) == 1 + len(walls) or \
                len(evs) <= 1
            ck.ob("%s.wall%d.seen" % (k, wl),
                  True if wl in hit else False if known else None,
                  "a fall ends the stance", "events %s" % [
                      str(r) for _, r in evs], self.w)
        return found, len(evs)

    def __call__(self, ip, a, kw):
        ck = self.ck
        fun = a[0] if a else kw["fun"]
        span = a[1] if len(a) > 1 else kw["t_span"]
        y0 = a[2] if len(a) > 2 else kw["y0"]
        evs = kw.get("events")
        c0 = ip.cells(y0) if isinstance(y0, Arr) else ip.iterate(y0)
        n = len(c0)
        no = len(self.calls)
        k = "%s.ivp%d" % (self.key, no)
        ans = self.answers[no] if no < len(self.answers) else None
        t0, t1 = ip.iterate(span)
        self.calls.append((n, c0, t0, list(ip.st.pc)))
        self.horizon(t0, t1, kw, k)
        if ans is None:
            ck.ob(k, None, "phases", "one integration more than expected",
                  self.w)
            raise Exception("unexpected integration")
        self.field(fun, n, k)
        if n == 4:
            th = ans["theta"]
            g, wl = (sym("y1") - self.l0 * poly.cos(th), -1), []
        else:
            pi = PI(ip)
            g = (sym("y0") - self.l0, 1)
            wl = [(sym("y1") + pi / 2, -1), (sym("y1") - pi / 2, 1)]
        j, ne = self.guards(evs, n, k, g, wl)
        T, Y = ans["t"], ans["y"]
        if len(Y) != n:
            Y = (Y + [sym("?%d" % i) for i in range(n)])[:n]
        tev = []
        for i in range(ne):
            hit = ans["end"] == "guard" and i == j or \
                ans["end"] == "fall" and i != j and i == (1 if j == 0 else 0)
            tev.append(ip.new_arr((1,) if hit else (0,), [T] if hit else [],
                                  "np"))
        y = ip.new_arr((n, 4), [x for i in range(n) for x in (
            c0[i], sym("m%d_1" % i), sym("m%d_2" % i), Y[i])], "np")
        return ip.new_obj(ExtV("scipy.OdeResult"), {
            "y": y, "t": ip.new_arr((4,), [
                t0, sym("mt1"), sym("mt2"), T], "np"),
            "t_events": ip.new_list(tev), "success": True,
            "status": 1 if ans["end"] != "time" else 0, "message": "ok"})


def PI(ip):
    return Rat.of(ip.num(ip.nat.ext_attr(ip, ExtV("numpy"), "pi")))


def setup(ck, key, answers, mth, cls="SLIP", mod=MOD):
    poly.clear_bounds()
    ip = ck.interp()
    o = make_slip(ip)
    poly.set_bounds("h", 0, None, lo_open=True)
    F = Flow(ck, ip, o, key, answers)
    F.w = w(ck, mth, cls, mod)
    return ip, o, F


TH = sym("th")
LO = [None] + [sym("L%d" % i) for i in range(1, 5)]
PH = [[sym("P%d%d" % (i, j)) for j in range(5)] for i in range(5)]


def lo_state():
    return [sym("l0")] + LO[1:]


def vz_lo():
    return -sym("l0") * poly.sin(LO[1]) * LO[3] + LO[2] * poly.cos(LO[1])


def fall_time():
    return poly.sqrt(sym("h") * 2 / sym("g"))


def pre_td():
    t = fall_time()
    return [sym("p") + sym("v") * t, sym("l0") * poly.cos(TH), sym("v"),
            -sym("g") * t]


def flight(y):
    return [y[2], y[3], Rat.const(0), -sym("g")]


def stance(y):
    r, th, rd, td = y[:4]
    return [rd, td, r * td * td - sym("g") * poly.cos(th) + sym("k") * (
        sym("l0") - r) / sym("m"),
        sym("g") * poly.sin(th) / r - 2 * rd * td / r, Rat.const(0)]


def touchdown(y, th):
    s, c, l0 = poly.sin(th), poly.cos(th), sym("l0")
    return [l0, th, y[3] * c - y[2] * s, -(y[2] * c + y[3] * s) / l0,
            y[0] + l0 * s]


def liftoff(y):
    r, th, rd, td, foot = y
    s, c = poly.sin(th), poly.cos(th)
    return [foot - r * s, r * c, -r * c * td - rd * s, rd * c - r * s * td]


def is_none(ip, r, n):
    xs = ip.iterate(r) if isinstance(r, (tuple, ListV)) else [r]
    return len(xs) == n and all(x is None for x in xs)


SIGNS = [("fwd", "+", "+"), ("bwd", "-", "-"), ("up", "0", "+"),
         ("upb", "0", "-"), ("fwd0", "+", "0")]


def bound(name, s):
    if s == "+":
        poly.set_bounds(name, 0, None, lo_open=True)
    elif s == "-":
        poly.set_bounds(name, None, 0, up_open=True)


def apex_map(ck):
    rule = "the next apex is the composition of fall, stance and ascent"
    W = w(ck, "apex_map")
    z = sym("h") + sym("l0") * poly.cos(TH)

    def run(key, end, vz=None, sv="+", st="+", height=None, answers=None):
        ip, o, F = setup(ck, key, [{
            "end": end, "t": sym("T"), "y": lo_state()}]
            if answers is None else answers, "apex_map")
        bound("v", sv)
        bound("th", st)
        v = sym("v") if sv != "0" else Rat.const(0)
        th = TH if st != "0" else Rat.const(0)
        if vz is not None:
            ip.facts.append(c_gt(vz_lo()) if vz else c_gt(-vz_lo()))
        r = ip.call(ip.getattr(o, "apex_map"), [
            sym("p"), z if height is None else height, v, th], {})
        return ip, o, F, r
    for nm, sv, st in SIGNS[:2]:
        def go(nm=nm, sv=sv, st=st):
            k = "map." + nm
            ip, o, F, r = run(k, "guard", True, sv, st)
            if not ck.ob(k + ".phases", len(F.calls) == 1 and
                         F.calls[0][0] == 5, rule, F.calls, W):
                return
            post = touchdown(pre_td(), TH)
            for i in range(5):
                ck.eq("%s.post_td[%d]" % (k, i), F.calls[0][1][i], post[i],
                      "stance starts at the state after touchdown", W)
            lo = liftoff(lo_state())
            ta = lo[3] / sym("g")
            ref = [lo[0] + lo[2] * ta, lo[1] + lo[3] * ta / 2, lo[2],
                   fall_time() + sym("T") - F.calls[0][2] + ta]
            xs = ip.iterate(r)
            ck.ob(k + ".size", len(xs) == 4, rule, len(xs), W)
            for i, (a, b) in enumerate(zip(xs, ref)):
                if a is None:
                    ck.ob("%s[%d]" % (k, i), False, rule, "None", W)
                else:
                    ck.eq("%s[%d]" % (k, i), a, b, rule, W)
        ck.attempt("map." + nm, go, rule, W)
    none = "no return map where there is no next apex"

    def lift():
        ip, o, F, r = run("map.lift", "guard")
        split(ck, "map.lift.cond", ip, r, 4, vz_lo(), none, W)

    def foot():
        ip, o, F, r = run("map.foot", "guard", True, height=sym("z"))
        split(ck, "map.foot.cond", ip, r, 4,
              sym("z") - sym("l0") * poly.cos(TH), none, W)
    ck.attempt("map.lift", lift, none, W)
    ck.attempt("map.foot", foot, none, W)
    for nm, end, vz, sv, st, ht in (
            ("fall", "fall", True, "+", "+", None),
            ("time", "time", True, "+", "+", None),
            ("down", "guard", False, "+", "+", None),
            ("below", "guard", True, "+", "+",
             sym("l0") * poly.cos(TH) - sym("h")),
            ("backleg", "guard", True, "+", "-", None),
            ("foreleg", "guard", True, "-", "+", None)):
        def bad(nm=nm, end=end, vz=vz, sv=sv, st=st, ht=ht):
            k = "map.none." + nm
            ip, o, F, r = run(k, end, vz, sv, st, ht)
            ck.ob(k, is_none(ip, r, 4), none, r, W)
        ck.attempt("map.none." + nm, bad, none, W)


def margin(c):
    """what an order comparison compares with zero"""
    while isinstance(c, Cond) and c.op == "not":
        c = c.a
    return c.a if isinstance(c, Cond) and c.op in ("gt", "ge") else None


def about(c, f, seed):
    """does the condition compare f with zero?"""
    m, f = margin(c), margin(c_gt(f))
    return m is not None and f is not None and (poly.equal(m, f, seed)[0] is True or
                              poly.equal(-m, f, seed)[0] is True)


def split(ck, key, ip, r, n, f, rule, W):
    """the answer is None on one side of f = 0 and given on the other"""
    xs = ip.iterate(r) if isinstance(r, (tuple, ListV)) else [r]
    if isinstance(r, Phi):
        cs = [r.cond]
        sides = [ip.iterate(y) for y in (r.a, r.b)]
    elif len(xs) == n and all(isinstance(x, Phi) for x in xs):
        cs = [x.cond for x in xs]
        sides = [[x.a for x in xs], [x.b for x in xs]]
    else:
        ck.ob(key, None if any(isinstance(x, Phi) for x in xs) else False,
              rule, "not decided by %s: %s" % (f, str(r)[:200]), W)
        return None
    ok = all(about(c, f, ck.seed) for c in cs)
    ck.ob(key, ok, rule, "decided by %s instead of %s" % (cs[0], f), W)
    if not ok:
        return None
    f = margin(c_gt(f))
    pos = cs[0].op in ("gt", "ge") and poly.equal(
        margin(cs[0]), f, ck.seed)[0] or cs[0].op == "not" and not \
        poly.equal(margin(cs[0]), f, ck.seed)[0]
    yes, no = sides if pos else sides[::-1]
    ck.ob(key + ".sides", all(y is None for y in no) and
          all(y is not None for y in yes), rule, str(r)[:200], W)
    return yes


class Chain:
    """the phases and the derivative of their composition with respect to
    (p, z, v, theta), computed by the chain rule"""
    def __init__(self, ip, o):
        g = sym("g")
        self.td = pre_td()
        self.post = touchdown(self.td, TH)
        self.lo = lo_state()
        self.post_lo = liftoff(self.lo)
        rd = LO[2]
        f = stance(self.lo)
        # event time: r(T) = l0
        self.dT = [-PH[0][k] / rd for k in range(5)]
        self.G = [[PH[j][k] + f[j] * self.dT[k] for k in range(5)]
                  for j in range(5)]
        ta = self.post_lo[3] / g
        self.apex = [self.post_lo[0] + self.post_lo[2] * ta,
                     self.post_lo[1] + self.post_lo[3] * ta / 2,
                     self.post_lo[2]]
        self.time = fall_time() + sym("T") + ta

    def base(self, f, j):
        """d f / d input j, f over p, h, v, theta"""
        if j == 3:
            return poly.diff(f, "th") + poly.diff(f, "h") * sym("l0") * \
                poly.sin(TH)
        return poly.diff(f, ("p", "h", "v")[j])

    def d_post(self, j):
        return [self.base(x, j) for x in self.post]

    def d(self, f, j):
        """total derivative of f over the inputs, L1..L4 and T"""
        dp = self.d_post(j)
        r = self.base(f, j)
        for m in range(1, 5):
            s = sum((self.G[m][k] * dp[k] for k in range(5)), Rat.const(0))
            r = r + poly.diff(f, "L%d" % m) * s
        s = sum((self.dT[k] * dp[k] for k in range(5)), Rat.const(0))
        return r + poly.diff(f, "T") * s


def stance30(end="guard"):
    return {"end": end, "t": sym("T"),
            "y": lo_state() + [x for r in PH for x in r]}


NAMES = ["dx_next_apex_dx_apex", "dx_next_apex_dleg_angle", "x_next_apex",
         "dt_next_apex_dx_apex", "dt_next_apex_dleg_angle", "t_next_apex",
         "dx_pre_td_dx_apex", "dx_pre_td_dleg_angle", "x_pre_td",
         "dx_post_lo_dx_apex", "dx_post_lo_dleg_angle", "x_post_lo"]


def gradient(ck):
    rule = "the gradient is the derivative of the return map"
    m = "apex_to_apex_gradient"
    W = w(ck, m)

    def run(key, end="guard", vz=True, z=None):
        ip, o, F = setup(ck, key, [stance30(end)], m)
        if vz is not None:
            ip.facts.append(c_gt(vz_lo()) if vz else c_gt(-vz_lo()))
        x = ip.new_arr((3,), [
            sym("p"), sym("h") + sym("l0") * poly.cos(TH)
            if z is None else z, sym("v")], "np")
        r = ip.call(ip.getattr(o, m), [x, TH], {})
        return ip, o, F, r

    def go():
        k = "gradient"
        ip, o, F, r = run(k)
        if not ck.ob(k + ".phases", len(F.calls) == 1 and
                     F.calls[0][0] == 30, rule, F.calls, W):
            return
        C = Chain(ip, o)
        for i in range(5):
            ck.eq("%s.post_td[%d]" % (k, i), F.calls[0][1][i], C.post[i],
                  "stance starts at the state after touchdown", W)
            for j in range(5):
                ck.eq("%s.eye[%d,%d]" % (k, i, j),
                      F.calls[0][1][5 + 5 * i + j], 1 if i == j else 0,
                      "the sensitivity starts at the identity", W)
        xs = ip.iterate(r)
        if not ck.ob(k + ".size", len(xs) == 12, rule, len(xs), W):
            return
        C.time = C.time - F.calls[0][2]
        for a, f in ((0, C.apex), (3, [C.time]), (6, C.td), (9, C.post_lo)):
            ref = [[C.d(y, j) for j in range(3)] for y in f]
            th = [C.d(y, 3) for y in f]
            for q, want in ((a, [y for row in ref for y in row]),
                            (a + 1, th), (a + 2, f)):
                got = xs[q]
                got = ip.cells(got) if isinstance(got, Arr) else [got]
                if not ck.ob("%s.%s.size" % (k, NAMES[q]),
                             len(got) == len(want), rule,
                             "%d entries" % len(got), W):
                    continue
                for i, (u, v) in enumerate(zip(got, want)):
                    if u is None:
                        ck.ob("%s.%s[%d]" % (k, NAMES[q], i), False, rule,
                              "None", W)
                    else:
                        ck.eq("%s.%s[%d]" % (k, NAMES[q], i), u, v, rule, W)
    ck.attempt("gradient", go, rule, W)
    none = "no gradient where there is no next apex"

    def lift():
        ip, o, F, r = run("gradient.lift", vz=None)
        split(ck, "gradient.lift.cond", ip, r, 12, vz_lo(), none, W)

    def foot():
        ip, o, F, r = run("gradient.foot", z=sym("z"))
        split(ck, "gradient.foot.cond", ip, r, 12,
              sym("z") - sym("l0") * poly.cos(TH), none, W)
    ck.attempt("gradient.lift", lift, none, W)
    ck.attempt("gradient.foot", foot, none, W)
    for nm, end, vz, z in (("fall", "fall", True, None),
                           ("time", "time", True, None),
                           ("down", "guard", False, None),
                           ("below", "guard", True, sym("l0") *
                            poly.cos(TH) - sym("h"))):
        def bad(nm=nm, end=end, vz=vz, z=z):
            ip, o, F, r = run("gradient.none." + nm, end, vz, z)
            ck.ob("gradient.none." + nm, is_none(ip, r, 12), none, r, W)
        ck.attempt("gradient.none." + nm, bad, none, W)





def stone(ip, left, right):
    S = ip.get(MOD, "SteppingStone")
    inf = ip.nat.ext_attr(ip, ExtV("numpy"), "inf")
    return ip.call(S, [neg(ip, inf) if left is None else left,
                       inf if right is None else right, sym("sh")], {})


def neg(ip, x):
    return -Rat.of(ip.num(x))


def touching(ck):
    rule = "time to touchdown: ballistic, onto the stone"
    m = "time_to_touchdown"
    W = w(ck, m)

    def run(key, above=True, left=True, right=True, fl=True):
        ip, o, F = setup(ck, key, [], m)
        poly.set_bounds("h", 0, None, lo_open=True)
        foot = sym("sh") + (sym("h") if above else -sym("h"))
        z = foot + sym("l0") * poly.cos(TH)
        t = (poly.sqrt(sym("w") * sym("w") + 2 * sym("g") * sym("h")) +
             sym("w")) / sym("g")
        fx = sym("p") + sym("l0") * poly.sin(TH) + sym("v") * t
        # distances of the foot inside the stone
        poly.set_bounds("dl", 0, None, lo_open=True)
        poly.set_bounds("dr", 0, None, lo_open=True)
        s = stone(ip, fx - sym("dl") if left else fx + sym("dl"),
                  fx + sym("dr") if right else fx - sym("dr"))
        x = ip.new_arr((4,), [sym("p"), z, sym("v"), sym("w")], "np")
        r = ip.call(ip.getattr(o, m), [x, s, TH], {})
        c = ip.call(ip.getattr(o, "can_touch_stepping_stone"), [x, s, TH],
                    {})
        return ip, r, c, t

    def go():
        ip, r, c, t = run("touch")
        if r is None:
            ck.ob("touch.time", False, rule, "None", W)
        else:
            r = ip.cells(r)[0] if isinstance(r, Arr) else r
            ck.eq("touch.time", r, t, rule, W)
        ck.ob("touch.can", ip.truth(c) is True, rule, c,
              w(ck, "can_touch_stepping_stone"))
    ck.attempt("touch", go, rule, W)
    for nm, kw in (("below", {"above": False}), ("left", {"left": False}),
                   ("right", {"right": False})):
        def bad(nm=nm, kw=kw):
            ip, r, c, t = run("touch." + nm, **kw)
            ck.ob("touch.none." + nm, r is None, rule, r, W)
            ck.ob("touch.cannot." + nm, ip.truth(c) is False, rule, c,
                  w(ck, "can_touch_stepping_stone"))
        ck.attempt("touch.none." + nm, bad, rule, W)


def linear(ck):
    rule = "the linear map is the first-order expansion of the return map"
    crule = "each constraint is the first-order expansion of the condition"
    m = "apex_map_linear_approximation"
    W = w(ck, m, "SlipHybridLinearSystem", HYB)

    def run(key, left, right, end="guard", vz=True, z=None, touch=True):
        ip, o, F = setup(ck, key, [stance30(end)], m,
                         "SlipHybridLinearSystem", HYB)
        ip.facts.append(c_gt(vz_lo()) if vz else c_gt(-vz_lo()))
        s = ip.call(ip.get(HYB, "SlipHybridLinearSystem"), [
            sym("m"), sym("l0"), sym("k"), sym("g")], {})
        fx = pre_td()[0] + sym("l0") * poly.sin(TH)
        poly.set_bounds("dl", 0, None, lo_open=True)
        poly.set_bounds("dr", 0, None, lo_open=True)
        if not touch:
            left = right = True
        lf = fx - sym("dl") if touch else fx + sym("dl")
        rt = fx + sym("dr")
        if not touch:
            rt = fx + sym("dl") + sym("dr")
        st = stone(ip, lf if left else None, rt if right else None)
        z = sym("h") + sym("l0") * poly.cos(TH) if z is None else z
        x = [sym("p"), z + sym("sh"), sym("v")]
        r = ip.call(ip.getattr(s, m), [ip.new_arr((3,), x, "np"), st, TH],
                    {})
        return ip, o, F, r, x, lf, rt, fx
    for left in (True, False):
        for right in (True, False):
            def go(left=left, right=right):
                k = "linear.%d%d" % (left, right)
                ip, o, F, r, x, lf, rt, fx = run(k, left, right)
                xs = ip.iterate(r)
                if not ck.ob(k + ".size", len(xs) == 8, rule, len(xs), W):
                    return
                if not ck.ob(k + ".exists", all(
                        q is not None and not isinstance(q, Phi)
                        for q in xs), rule, "None although there is a next "
                        "apex: %s" % str(xs[0])[:200], W):
                    return
                C = Chain(ip, o)
                A, B, c, at, bt, ct, P, q = [
                    ip.cells(y) if isinstance(y, Arr) else [y] for y in xs]
                nxt = [C.apex[0], C.apex[1] + sym("sh"), C.apex[2]]
                X = x + [TH]
                for i in range(3):
                    for j in range(3):
                        ck.eq("%s.A[%d,%d]" % (k, i, j), A[3 * i + j],
                              C.d(C.apex[i], j), rule, W)
                    ck.eq("%s.B[%d]" % (k, i), B[i], C.d(C.apex[i], 3), rule,
                          W)
                    v = sum((Rat.of(A[3 * i + j]) * X[j] for j in range(3)),
                            Rat.of(B[i]) * TH + Rat.of(c[i]))
                    ck.eq("%s.value[%d]" % (k, i), v, nxt[i], rule, W)
                tm = C.time - F.calls[0][2]
                for j in range(3):
                    ck.eq("%s.a_t[%d]" % (k, j), at[j], C.d(tm, j), rule, W)
                ck.eq(k + ".b_t", bt[0], C.d(tm, 3), rule, W)
                ck.eq(k + ".t", sum((Rat.of(at[j]) * X[j] for j in range(3)),
                                    Rat.of(bt[0]) * TH + Rat.of(ct[0])),
                      tm, rule, W)
                want = [("foot", sym("h")), ("upward", C.post_lo[3])]
                if left:
                    want.append(("left", None))
                if right:
                    want.append(("right", None))
                if not ck.ob(k + ".rows", len(P) == 4 * len(want) and
                             len(q) == len(want), crule,
                             "%d rows" % len(q), W):
                    return
                rows = [(P[4 * i:4 * i + 4], q[i]) for i in range(len(q))]
                foot = C.td[0] + sym("l0") * poly.sin(TH)
                for nm, g in want:
                    if nm == "foot":
                        # z - l0 cos(theta) - stone height
                        d = [Rat.const(0), Rat.const(1), Rat.const(0),
                             sym("l0") * poly.sin(TH)]
                    elif nm == "upward":
                        d = [C.d(g, j) for j in range(4)]
                    else:
                        s = 1 if nm == "left" else -1
                        d = [C.base(foot, j) * Rat.const(s)
                             for j in range(4)]
                        g = sym("dl" if nm == "left" else "dr")
                    best = None
                    for Pr, qr in rows:
                        gv = Rat.of(qr) - sum(
                            (Rat.of(Pr[j]) * X[j] for j in range(4)),
                            Rat.const(0))
                        diffs = [j for j in range(4) if not poly.equal(
                            Rat.of(Pr[j]), -d[j], ck.seed)[0]]
                        val = poly.equal(gv, g, ck.seed)[0]
                        sc = len(diffs) + (not val)
                        if best is None or sc < best[0]:
                            best = (sc, diffs, val, gv, Pr)
                    ck.ob("%s.row.%s" % (k, nm), best[0] == 0, crule,
                          "nearest row: coefficients %s differ, slack %s at "
                          "the expansion point where the condition has %s" %
                          (best[1], best[3], g), W)
            ck.attempt("linear.%d%d" % (left, right), go, rule, W)
    none = "no linear map where there is no next apex"
    for nm, kw in (("fall", {"end": "fall"}), ("time", {"end": "time"}),
                   ("down", {"vz": False}),
                   ("below", {"z": sym("l0") * poly.cos(TH) - sym("h")}),
                   ("miss", {"touch": False})):
        def bad(nm=nm, kw=kw):
            ip, o, F, r, x, lf, rt, fx = run("linear.none." + nm, False,
                                             False, **kw)
            ck.ob("linear.none." + nm, is_none(ip, r, 8), none, r, W)
        ck.attempt("linear.none." + nm, bad, none, W)

    def stones():
        ip, o, F = setup(ck, "stones", [], m)
        s = ip.call(ip.get(HYB, "SlipHybridLinearSystem"), [
            sym("m"), sym("l0"), sym("k"), sym("g")], {})
        for i in range(2):
            poly.set_bounds("wd%d" % i, 0, None, lo_open=True)
            ip.call(ip.getattr(s, "add_stepping_stone"), [
                sym("l%d" % i), sym("l%d" % i) + sym("wd%d" % i),
                sym("hh%d" % i)], {})
        L = ip.iterate(ip.getattr(s, "stepping_stones"))
        W2 = w(ck, "add_stepping_stone", "SlipHybridLinearSystem", HYB)
        r2 = "the stones are kept in the order they are added"
        if ck.ob("stones.n", len(L) == 2, r2, len(L), W2):
            for i, q in enumerate(L):
                for f, v in (("left", sym("l%d" % i)),
                             ("right", sym("l%d" % i) + sym("wd%d" % i)),
                             ("height", sym("hh%d" % i))):
                    ck.eq("stones.%d.%s" % (i, f), ip.getattr(q, f), v, r2,
                          W2)
    ck.attempt("stones", stones, rule, W)


def simulate(ck):
    rule = "phases follow each other and stop at a fall"
    m = "simulate"
    W = w(ck, m)

    def td(i):
        return [sym("D%d_%d" % (i, j)) for j in range(4)]

    def lo(i):
        return [sym("l0")] + [sym("L%d_%d" % (i, j)) for j in range(1, 5)]

    def run(key, n, fall=None, sink=None, free=False):
        poly.clear_bounds()
        ths = [sym("a%d" % i) for i in range(n)]
        answers = []
        for i in range(n):
            # theta stays in (-1, 1) in stance unless it falls
            poly.set_bounds("L%d_1" % i, Fraction(-3, 2),
                            Fraction(3, 2))
        ip0 = ck.interp()
        pi = PI(ip0)
        for i in range(n):
            y = lo(i)
            if fall is not None and fall[0] == i:
                y[1] = pi / 2 * Rat.const(fall[1])
            answers.append({"end": "guard", "t": sym("T%d" % (2 * i)),
                            "y": td(i), "theta": ths[i]})
            answers.append({"end": "guard" if not fall or fall[0] != i
                            else "fall", "t": sym("T%d" % (2 * i + 1)),
                            "y": y})
        ip = ck.interp()
        o = make_slip(ip)
        poly.set_bounds("h", 0, None, lo_open=True)
        for i in range(n):
            poly.set_bounds("L%d_1" % i, Fraction(-3, 2),
                            Fraction(3, 2))
        F = Flow(ck, ip, o, key, answers)
        F.w = W
        x0 = [sym("x0"), sym("h") + sym("l0") * poly.cos(ths[0]), sym("x2"),
              sym("x3")]
        start, t = x0, Rat.const(0)
        ref, ds = [], []
        for i in range(n):
            post = touchdown(td(i), ths[i])
            ref.append((4, start, t))
            ref.append((5, post, sym("T%d" % (2 * i))))
            if fall is not None and fall[0] == i:
                break
            pl = liftoff(lo(i))
            ta = pl[3] / sym("g")
            start = [pl[0] + pl[2] * ta, pl[1] + pl[3] * ta / 2, pl[2],
                     Rat.const(0)]
            t = sym("T%d" % (2 * i + 1)) + ta
            if i + 1 < n:
                d = start[1] - sym("l0") * poly.cos(ths[i + 1])
                ds.append(d)
                if free:
                    continue
                if sink == i + 1:
                    ip.facts.append(c_not(c_gt(d)))
                    break
                ip.facts.append(c_gt(d))
        k = key
        try:
            r = ip.call(ip.getattr(o, m), [ip.new_arr((4,), x0, "np"),
                                           ip.new_list(ths)], {})
            L = ip.iterate(r)
        except Undecided:
            if not free:
                ck.ob(key + ".phases", None if len(F.calls) == len(ref) else
                      False, rule, "%d integrations, %d phases" % (
                          len(F.calls), len(ref)), W)
                return
            L = None
        if free:
            for i, (nn, c, t, pc) in enumerate(F.calls):
                want = ds[:i // 2]
                ck.ob("%s.%d.cond" % (k, i), len(pc) == len(want) and all(
                    about(c, d, ck.seed) for c, d in zip(pc, want)),
                    "a further step is simulated while the mass is above the "
                    "touchdown height", "on %s" % (pc, ), W)
            ck.ob(k + ".calls", len(F.calls) == len(ref), rule,
                  len(F.calls), W)
            return
        ck.ob(k + ".phases", len(F.calls) == len(ref) and
              len(L) == len(ref), rule,
              "%d integrations, %d results, %d phases" % (
                  len(F.calls), len(L), len(ref)), W)
        for i, (a, b) in enumerate(zip(F.calls, ref)):
            ck.ob("%s.%d.kind" % (k, i), a[0] == b[0], rule, a[0], W)
            ck.eq("%s.%d.t0" % (k, i), a[2], b[2],
                  "time is continuous over the phases", W)
            for j, (u, v) in enumerate(zip(a[1], b[1])):
                ck.eq("%s.%d.start[%d]" % (k, i, j), u, v, rule, W)
        for i, q in enumerate(L):
            if i < len(ref):
                y = ip.cells(ip.getattr(q, "y"))
                ck.eq("%s.%d.result" % (k, i), y[3], answers[i]["y"][0],
                      "the results are in the order of the phases", W)
    for nm, n, kw in (("one", 1, {}), ("two", 2, {}), ("three", 3, {}),
                      ("free2", 2, {"free": True}),
                      ("free3", 3, {"free": True}),
                      ("fall_right", 2, {"fall": (0, 1)}),
                      ("fall_left", 2, {"fall": (0, -1)}),
                      ("fall_later", 3, {"fall": (1, 1)}),
                      ("sink", 3, {"sink": 1}), ("sink2", 3, {"sink": 2})):
        ck.attempt("simulate." + nm, lambda nm=nm, n=n, kw=kw: run(
            "simulate." + nm, n, **kw), rule, W)


def check(ck):
    apex_map(ck)
    gradient(ck)
    touching(ck)
    linear(ck)
    simulate(ck)
