"""Hand-written linearizations are the Jacobians of the dynamics they sit
next to."""
from .. import poly
from ..poly import Rat
from ..values import ObjV
from .common import PLANTS, plant, vec, where, jac_ob, sym, EX, F64

TITLE = "Hand-written gradients equal the Jacobians of the model"
EXPLANATION = (
    "The dynamics function is evaluated to normal forms over symbolic state, "
    "input and parameters and differentiated symbolically; every entry the "
    "hand-written gradient function writes must have the same normal form. "
    "Covers both back ends where a gradient has two.")
ASSUMPTIONS = ("numpy / torch element-wise primitives follow their documented "
               "meaning; floating-point rounding is ignored",)
MIN_OBS = 300

GRADS = [("rocket", "linearized_dynamics", ("np",), True),
         ("rocket2", "linearized_dynamics", ("np",), True),
         ("quadrotor2d", "linearized_dynamics", ("np", "torch"), True),
         ("quadrotor3d", "dynamics_gradient", ("np",), True),
         ("unicycle", "dynamics_gradient", ("np", "torch"), True),
         ("pendulum", "dynamics_gradient", ("torch",), False)]


def check(ck):
    rule = "gradient entry == derivative of the dynamics"
    for pn, meth, libs, with_u in GRADS:
        p = plant(pn)
        w = where(ck.repo, p.mod, p.cls + "." + meth)
        for lib in libs:
            def go():
                ip = ck.interp()
                o = p.make(ip)
                x, u = vec(ip, p.nx, "x", lib), vec(ip, p.nu, "u", lib)
                f = ip.cells(ip.call(ip.getattr(o, "dynamics"), [x, u], {}))
                r = ip.call(ip.getattr(o, meth), [x, u] if with_u else [x],
                            {})
                A, B = ip.items(r) if not isinstance(r, tuple) else r
                jac_ob(ck, ip, "%s.%s.%s.A" % (pn, meth, lib), A, f,
                       ["x%d" % i for i in range(p.nx)], rule, w)
                jac_ob(ck, ip, "%s.%s.%s.B" % (pn, meth, lib), B, f,
                       ["u%d" % i for i in range(p.nu)], rule, w)
            ck.attempt("%s.%s.%s" % (pn, meth, lib), go, rule, w)
    for lib in ("np", "torch"):
        w = where(ck.repo, "geometry_transform", "rpy2rotmat_gradient")

        def go():
            ip = ck.interp()
            r = vec(ip, 3, "r", lib)
            R = ip.cells(ip.call(ip.get("geometry_transform", "rpy2rotmat"),
                                 [r], {}))
            G = ip.call(ip.get("geometry_transform", "rpy2rotmat_gradient"),
                        [r], {})
            for k in range(3):
                for i, c in enumerate(ip.cells(G[k])):
                    ck.eq("rpy2rotmat_gradient.%s#%d[%d]" % (lib, k, i), c,
                          poly.diff(R[i], "r%d" % k), rule, w)
        ck.attempt("rpy2rotmat_gradient." + lib, go, rule, w)
    slip(ck)


def make_slip(ip):
    ip.assume_true = True
    C = ip.get("spring_loaded_inverted_pendulum", "SLIP")
    for n in ("m", "l0", "k", "g"):
        poly.set_bounds(n, 0, None, lo_open=True)
    return ip.call(C, [sym("m"), sym("l0"), sym("k"), sym("g")], {})


def slip(ck):
    rule = "gradient entry == derivative of the map"
    mod = "spring_loaded_inverted_pendulum"
    w = lambda m: where(ck.repo, mod, "SLIP." + m)

    def stance():
        ip = ck.interp()
        o = make_slip(ip)
        x = vec(ip, 5, "s", "np")
        f = ip.cells(ip.call(ip.getattr(o, "stance_dynamics"), [x], {}))
        J = ip.call(ip.getattr(o, "stance_dynamics_gradient"), [x], {})
        jac_ob(ck, ip, "slip.stance_dynamics_gradient", J, f,
               ["s%d" % i for i in range(5)], rule,
               w("stance_dynamics_gradient"))
    ck.attempt("slip.stance", stance, rule, w("stance_dynamics_gradient"))

    def td():
        ip = ck.interp()
        o = make_slip(ip)
        x = vec(ip, 4, "s", "np")
        f = ip.cells(ip.call(ip.getattr(o, "touchdown_transition"),
                             [x, sym("th")], {}))
        g = ip.call(ip.getattr(o, "touchdown_transition_gradient"),
                    [x, sym("th")], {})
        jac_ob(ck, ip, "slip.touchdown_transition_gradient.state", g[0], f,
               ["s%d" % i for i in range(4)], rule,
               w("touchdown_transition_gradient"))
        jac_ob(ck, ip, "slip.touchdown_transition_gradient.angle", g[1], f,
               ["th"], rule, w("touchdown_transition_gradient"))
    ck.attempt("slip.touchdown", td, rule, w("touchdown_transition_gradient"))

    def lo():
        # the map is used on the lift-off guard r = l0 only: column 0 (dr)
        # multiplies a zero row and is not constrained
        ip = ck.interp()
        o = make_slip(ip)
        x = vec(ip, 5, "s", "np")
        f = ip.cells(ip.call(ip.getattr(o, "liftoff_transition"), [x], {}))
        f = [poly.subst(c, lambda a: sym("l0") if not a.args and a.name == "s0"
                        else None)
             for c in f]
        xg = ip.new_arr((5,), [sym("l0")] + [sym("s%d" % i)
                                             for i in range(1, 5)], "np")
        J = ip.cells(ip.call(ip.getattr(o, "liftoff_transition_gradient"),
                             [xg], {}))
        for i in range(4):
            for j in range(1, 5):
                ck.eq("slip.liftoff_transition_gradient[%d,%d]" % (i, j),
                      J[i * 5 + j], poly.diff(f[i], "s%d" % j), rule,
                      w("liftoff_transition_gradient"))
    ck.attempt("slip.liftoff", lo, rule, w("liftoff_transition_gradient"))

    def apex():
        ip = ck.interp()
        o = make_slip(ip)
        poly.set_bounds("z3", 0, None, lo_open=True)
        x = ip.new_arr((4,), [sym("z%d" % i) for i in range(4)], "np")
        r = ip.call(ip.getattr(o, "liftoff_to_apex_gradient"), [x], {})
        grad, xa, dt, t = r
        names = ["z%d" % i for i in range(4)]
        k = "slip.liftoff_to_apex_gradient"
        jac_ob(ck, ip, k + ".state", grad, ip.cells(xa), names, rule,
               w("liftoff_to_apex_gradient"))
        jac_ob(ck, ip, k + ".time", dt, [Rat.of(t)], names, rule,
               w("liftoff_to_apex_gradient"))
    ck.attempt("slip.apex", apex, rule, w("liftoff_to_apex_gradient"))

    def a2td():
        ip = ck.interp()
        o = make_slip(ip)
        # height above the touchdown height, positive
        poly.set_bounds("h", 0, None, lo_open=True)
        th = sym("th")
        height = sym("h") + sym("l0") * poly.cos(th)
        x = ip.new_arr((3,), [sym("px"), height, sym("vx")], "np")
        r = ip.call(ip.getattr(o, "apex_to_touchdown_gradient"), [x, th], {})
        J, Jt, xp, dtx, dtt, t = r
        k = "slip.apex_to_touchdown_gradient"
        ww = w("apex_to_touchdown_gradient")
        # chain rule: with height fixed, d/dth of g(h = z - l0 cos th, th)
        dh_dth = sym("l0") * poly.sin(th)

        def d_th(f):
            return poly.diff(f, "th") + poly.diff(f, "h") * dh_dth

        def d_x(f, j):
            return poly.diff(f, ("px", "h", "vx")[j])
        xc, Jc, Jtc = ip.cells(xp), ip.cells(J), ip.cells(Jt)
        for i in range(4):
            for j in range(3):
                ck.eq("%s.state[%d,%d]" % (k, i, j), Jc[i * 3 + j],
                      d_x(xc[i], j), rule, ww)
            ck.eq("%s.angle[%d]" % (k, i), Jtc[i], d_th(xc[i]), rule, ww)
        dc = ip.cells(dtx)
        for j in range(3):
            ck.eq("%s.time[%d]" % (k, j), dc[j], d_x(Rat.of(t), j), rule, ww)
        ck.eq(k + ".time_angle", dtt, d_th(Rat.of(t)), rule, ww)
        # the time itself: ballistic fall to the touchdown height
        ck.eq(k + ".fall", Rat.of(t) * Rat.of(t) * sym("g") / 2, sym("h"),
              "t_td is the ballistic fall time", ww)
        ck.eq(k + ".height", xc[1], sym("l0") * poly.cos(th),
              "pre-touchdown height is on the guard", ww)
    ck.attempt("slip.apex_to_touchdown", a2td, rule,
               w("apex_to_touchdown_gradient"))
