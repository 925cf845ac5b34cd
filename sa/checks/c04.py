"""Integrators and simulators: order conditions, held control, the vector
field handed to the ODE solver."""
from .. import poly
from ..poly import Rat
from ..values import Arr, PyFn, ExtV, Undecided
from .common import plant, vec, where, sym, EX

TITLE = "Simulation holds the control and integrates the given dynamics"
EXPLANATION = (
    "The fixed-step integrator is evaluated to normal forms over a symbolic "
    "step length with a generic polynomial vector field truncated at dt^5; "
    "the Taylor coefficients of one step are compared with the Lie-derivative "
    "expansion of the exact flow through order 4, and the control value that "
    "reaches every evaluation of the vector field is compared with the "
    "controller at the initial state. Calls of the library ODE solver are "
    "intercepted at the abstract level: the vector field, the time span and "
    "the initial state handed to it are compared with the plant's dynamics "
    "under a held control.")
ASSUMPTIONS = ("scipy.integrate.solve_ivp integrates the function it is given",
               "floating-point rounding is ignored")
MIN_OBS = 60
D = Rat.of


def trunc(r, name, order):
    """drop powers of `name` above order (Taylor, polynomial case)"""
    out, cur, f = D(0), D(r), 1
    z = sym(name)
    for k in range(order + 1):
        c = poly.subst(cur, lambda a: D(0) if not a.args and a.name == name
                       else None)
        out = out + c * z ** k / f
        cur = poly.diff(cur, name)
        f *= k + 1
        if cur.is_zero():
            break
    return out


def coeffs(r, name, order):
    out, cur, f = [], D(r), 1
    for k in range(order + 1):
        out.append(poly.subst(cur, lambda a: D(0)
                              if not a.args and a.name == name else None) / f)
        cur = poly.diff(cur, name)
        f *= k + 1
    return out


def field(y, u, full=True):
    """a planar polynomial vector field on which the elementary differentials
    of order <= 4 are independent"""
    a = [sym("a%d" % i) for i in range(6)]
    f0 = a[0] + a[1] * y[0] * u
    f1 = a[2] * y[1] + a[3] * y[0] ** 3 + a[4] * y[0] * y[1] + a[5] * y[0] ** 2
    return [f0, f1]


def check(ck):
    ck.attempt("rk4", lambda: rk4(ck))
    ck.attempt("ivp", lambda: ivps(ck))


def rk4(ck):
    w = where(ck.repo, "integrator", "rk4_constant_control")
    rule = "one step agrees with the exact flow through order 4"
    held = "the control of the initial state is held for every stage"
    for lib in ("np", "torch"):
        def go():
            ip = ck.interp()
            calls, ctl = [], []

            def controller(ip, args, kw):
                ctl.append(tuple(ip.cells(args[0])))
                c = ip.cells(args[0])
                return ip.new_arr((1,), [poly.fn("pi", c[0], c[1])], lib)

            def dyn(ip, args, kw):
                y = [trunc(c, "dt", 4) for c in ip.cells(args[0])]
                u = ip.cells(args[1])[0]
                calls.append(u)
                return ip.new_arr((2,), [trunc(c, "dt", 4)
                                         for c in field(y, sym("v"))], lib)
            x0 = ip.new_arr((2,), [sym("y0"), sym("y1")], lib)
            r = ip.call(ip.get("integrator", "rk4_constant_control"),
                        [PyFn(dyn, "f"), PyFn(controller, "pi"), x0,
                         sym("dt"), 1], {})
            x, u = r
            pi0 = poly.fn("pi", sym("y0"), sym("y1"))
            y = [sym("y0"), sym("y1")]
            f = field(y, sym("v"))
            exact = [list(y)]
            g = list(y)
            for k in range(4):
                g = [poly.diff(c, "y0") * f[0] + poly.diff(c, "y1") * f[1]
                     for c in g]
                exact.append(list(g))
            fact = 1
            xc = [trunc(c, "dt", 4) for c in ip.cells(x)]
            for i in range(2):
                cs = coeffs(xc[i], "dt", 4)
                fact = 1
                for k in range(5):
                    fact *= max(k, 1)
                    ck.eq("rk4.%s.order%d[%d]" % (lib, k, i), cs[k],
                          exact[k][i] / fact, rule, w)
            for j, c in enumerate(calls):
                ck.eq("rk4.%s.held[%d]" % (lib, j), c, pi0, held, w)
            ck.eq("rk4.%s.returned" % lib, ip.cells(u)[0], pi0, held, w)
            for i, c in enumerate(ip.cells(x0)):
                ck.eq("rk4.%s.x0[%d]" % (lib, i), c, sym("y%d" % i),
                      "the caller's initial state is not modified", w)
        ck.attempt("rk4." + lib, go, rule, w)

    def multi():
        # linear field: n steps are the n-fold composition of one step
        res = {}
        for n in (0, 1, 2, 3):
            ip = ck.interp()
            calls, ctl = [], []

            def controller(ip, args, kw):
                ctl.append(ip.cells(args[0])[0])
                return ip.new_arr((1,), [poly.fn("pi", ip.cells(args[0])[0])],
                                  "np")

            def dyn(ip, args, kw):
                calls.append(ip.cells(args[1])[0])
                return ip.new_arr((1,), [sym("a") * ip.cells(args[0])[0] +
                                         ip.cells(args[1])[0]], "np")
            x0 = ip.new_arr((1,), [sym("y0")], "np")
            x, u = ip.call(ip.get("integrator", "rk4_constant_control"),
                           [PyFn(dyn, "f"), PyFn(controller, "pi"), x0,
                            sym("dt"), n], {})
            res[n] = ip.cells(x)[0]
            for j, c in enumerate(calls):
                ck.eq("rk4.steps%d.held[%d]" % (n, j), c,
                      poly.fn("pi", sym("y0")), held, w)
            ck.eq("rk4.steps%d.u" % n, ip.cells(u)[0],
                  poly.fn("pi", sym("y0")), held, w)
        P = poly.fn("pi", sym("y0"))
        z = sym("y0")
        step = poly.subst(res[1], lambda a: sym("P") if a.name == "pi"
                          else None)
        cur = z
        for n in (0, 1, 2, 3):
            if n:
                cur = poly.subst(step, lambda a, c=cur: c if not a.args and
                                 a.name == "y0" else None)
            got = poly.subst(res[n], lambda a: sym("P") if a.name == "pi"
                             else None)
            ck.eq("rk4.steps%d.composition" % n, got, cur,
                  "n steps compose n single steps", w)
    ck.attempt("rk4.multi", multi, rule, w)


def ivp_hook(log, n, lib="np", tag="Y", cols=3):
    def hook(ip, args, kw):
        a = list(args)
        fun = a[0] if a else kw["fun"]
        span = a[1] if len(a) > 1 else kw["t_span"]
        y0 = a[2] if len(a) > 2 else kw["y0"]
        log.append((fun, span, y0, kw))
        m = len(ip.cells(y0)) if isinstance(y0, Arr) else n
        y = ip.new_arr((m, cols), [sym("%s%d_%d" % (tag, i, j))
                                   for i in range(m) for j in range(cols)],
                       "np")
        t = ip.new_arr((cols,), [sym("%st%d" % (tag, j))
                                 for j in range(cols)], "np")
        return ip.new_obj(ExtV("scipy.OdeResult"),
                          {"y": y, "t": t, "status": 0, "success": True,
                           "message": "ok"})
    return hook


def field_ob(ck, ip, key, entry, f_ref, y_syms, span, y0, rule, w,
             extra=None):
    fun, sp, got0, kw = entry
    n = len(y_syms)
    y = ip.new_arr((n,), list(y_syms), "np")
    r = ip.call(fun, [sym("t"), y], {})
    got = ip.cells(r) if isinstance(r, Arr) else ip.iterate(r)
    if len(got) != len(f_ref):
        ck.ob(key + ".field", False, rule, "field has %d entries, state %d" %
              (len(got), len(f_ref)), w)
    else:
        for i in range(len(f_ref)):
            ck.eq("%s.field[%d]" % (key, i), got[i], f_ref[i], rule, w)
    s = ip.iterate(sp)
    ck.eq(key + ".t0", s[0], span[0], "the time span is the requested one", w)
    ck.eq(key + ".t1", s[1], span[1], "the time span is the requested one", w)
    c0 = ip.cells(got0) if isinstance(got0, Arr) else ip.iterate(got0)
    for i in range(len(y0)):
        ck.eq("%s.y0[%d]" % (key, i), c0[i], y0[i],
              "integration starts at the given state", w)


def ivps(ck):
    rule = "the integrated field is the plant's dynamics with the control held"
    for pn, libs, keep in (("acceleration_car", ("np",), 3),
                           ("unicycle", ("np", "torch"), 3),
                           ("quadrotor2d", ("np", "torch"), 6)):
        p = plant(pn)
        w = where(ck.repo, p.mod, p.cls + ".next_pose")
        for lib in libs:
            def go():
                ip = ck.interp()
                o = p.make(ip)
                log = []
                ip.hooks["ext:scipy.integrate.solve_ivp"] = ivp_hook(
                    log, p.nx)
                x, u = vec(ip, p.nx, "x", lib), vec(ip, p.nu, "u", lib)
                r = ip.call(ip.getattr(o, "next_pose"), [x, u, sym("dt")], {})
                ys = [sym("z%d" % i) for i in range(p.nx)]
                ref = ip.cells(ip.call(
                    ip.getattr(o, "dynamics"),
                    [ip.new_arr((p.nx,), ys, "np"), vec(ip, p.nu, "u", "np")],
                    {}))
                k = "%s.next_pose.%s" % (pn, lib)
                if len(log) != 1:
                    ck.ob(k, None, rule, "%d solver calls" % len(log), w)
                    return
                field_ob(ck, ip, k, log[0], ref, ys, (0, sym("dt")),
                         [sym("x%d" % i) for i in range(p.nx)], rule, w)
                c = ip.cells(r)
                ck.ob(k + ".size", len(c) == keep, "result is the pose",
                      len(c), w)
                for i in range(min(keep, len(c))):
                    ck.eq("%s.final[%d]" % (k, i), c[i], sym("Y%d_2" % i),
                          "the result is the state at the final time", w)
            ck.attempt("%s.next_pose.%s" % (pn, lib), go, rule, w)

    w = where(ck.repo, "utils", "simulate_plant_with_controller")

    def sim():
        ip = ck.interp()
        log = []
        ip.hooks["ext:scipy.integrate.solve_ivp"] = ivp_hook(log, 2)

        def phi(ip, args, kw):
            c = ip.cells(args[0])
            return ip.new_arr((2,), [poly.fn("phi0", *c), poly.fn("phi1", *c)],
                              "torch")

        def dyn(ip, args, kw):
            c = ip.cells(args[0]) + ip.cells(args[1])
            return ip.new_arr((2,), [poly.fn("f0", *c), poly.fn("f1", *c)],
                              "np")
        pl = ip.new_obj(ExtV("plant"), {"dynamics": PyFn(dyn, "dyn")})
        for i in range(2):
            poly.set_bounds("dlt%d" % i, 0, None)
        up = [sym("ul%d" % i) + sym("dlt%d" % i) for i in range(2)]
        span = (D(0), sym("T"))
        poly.set_bounds("T", 0, None)
        ip.hooks["ext:numpy.arange"] = lambda ip, a, k: ip.new_arr(
            (1,), [sym("tev")], "np")
        ip.call(ip.get("utils", "simulate_plant_with_controller"),
                [pl, PyFn(phi, "phi"), span, vec(ip, 2, "xe"),
                 vec(ip, 2, "ue"), vec(ip, 2, "ul"),
                 ip.new_arr((2,), up, "torch"), vec(ip, 2, "x", "np")], {})
        ys = [sym("z0"), sym("z1")]
        u = []
        for i in range(2):
            raw = poly.fn("phi%d" % i, *ys) - poly.fn(
                "phi%d" % i, sym("xe0"), sym("xe1")) + sym("ue%d" % i)
            u.append(poly.max2(poly.min2(raw, up[i]), sym("ul%d" % i)))
        ref = [poly.fn("f%d" % i, *(ys + u)) for i in range(2)]
        field_ob(ck, ip, "simulate_plant", log[0], ref, ys, span,
                 [sym("x0"), sym("x1")],
                 "the closed loop uses the saturated network control", w)
    ck.attempt("simulate_plant", sim, rule, w)

    w2 = where(ck.repo, "utils", "step_system")

    def steps():
        ip = ck.interp()

        def f(ip, args, kw):
            return ip.new_arr((1,), [poly.fn("f", ip.cells(args[0])[0])],
                              "torch")
        s = ip.new_obj(ExtV("system"), {"step_forward": PyFn(f, "f")})
        r = ip.call(ip.get("utils", "step_system"),
                    [s, vec(ip, 1, "x"), 3], {})
        xs = ip.iterate(r)
        ck.ob("step_system.len", len(xs) == 4, "path has steps + 1 states",
              len(xs), w2)
        cur = sym("x0")
        for i, x in enumerate(xs):
            ck.eq("step_system[%d]" % i, ip.cells(x)[0], cur,
                  "state n+1 = step(state n)", w2)
            cur = poly.fn("f", cur)
    ck.attempt("step_system", steps, rule, w2)

    w3 = where(ck.repo, "hybrid_linear_system",
               "compute_continuous_time_system_cost_to_go")

    def ctg():
        ip = ck.interp()
        log = []
        ip.hooks["ext:scipy.integrate.solve_ivp"] = ivp_hook(log, 3)
        C = ip.get("hybrid_linear_system", "AutonomousHybridLinearSystem")

        def f(ip, args, kw):
            c = ip.cells(args[0])
            return ip.new_arr((2,), [poly.fn("f0", *c), poly.fn("f1", *c)],
                              "torch")

        def cost(ip, args, kw):
            return ip.new_arr((), [poly.fn("l", *ip.cells(args[0]))], "torch")
        s = ip.new_obj(C, {"step_forward": PyFn(f, "f"), "x_dim": 2,
                           "dtype": ExtV("torch.float64")})
        r = ip.call(ip.get("hybrid_linear_system",
                           "compute_continuous_time_system_cost_to_go"),
                    [s, vec(ip, 2, "x"), D(3), PyFn(cost, "l")], {})
        ys = [sym("z0"), sym("z1"), sym("zc")]
        ref = [poly.fn("f0", *ys[:2]), poly.fn("f1", *ys[:2]),
               poly.fn("l", *ys[:2])]
        k = "cost_to_go"
        field_ob(ck, ip, k, log[0], ref, ys, (0, 3),
                 [sym("x0"), sym("x1"), 0],
                 "the cost integrates the running cost along the system", w3)
        ck.eq(k + ".total", ip.cells(r[0])[0] if isinstance(r[0], Arr)
              else r[0], sym("Y2_2"), "total cost is the final value", w3)
        ck.eq_arr(ip, k + ".traj", r[1], [sym("Y%d_%d" % (i, j))
                                          for i in range(2)
                                          for j in range(3)],
                  "trajectory states", w3)
        ck.eq_arr(ip, k + ".togo", r[2], [sym("Y2_2") - sym("Y2_%d" % j)
                                          for j in range(3)],
                  "cost-to-go = total - accumulated", w3)
    ck.attempt("cost_to_go", ctg, rule, w3)
