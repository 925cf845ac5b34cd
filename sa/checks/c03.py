"""Plant models obey the mechanics they document."""
from .. import poly
from ..poly import Rat, sin, cos, sqrt, diff, subst
from ..values import Arr
from .common import plant, vec, where, sym, EX
from .c02 import make_slip

TITLE = "Plant models obey the mechanics they document"
EXPLANATION = (
    "Each model is evaluated to normal forms over symbolic state, input and "
    "parameters and compared with the Newton-Euler / Euler-Lagrange equations "
    "derived independently from its kinetic and potential energy (symbolic "
    "differentiation), its non-holonomic constraint, its equilibrium and, for "
    "rotations, orthonormality. The solver call inside the pole model is "
    "intercepted at the abstract level so its mass matrix and bias vector are "
    "compared entry by entry.")
ASSUMPTIONS = ("numpy / torch element-wise primitives follow their documented "
               "meaning; floating-point rounding is ignored",
               "linear solves return the solution of their system")
MIN_OBS = 90

D = Rat.of


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
            a[0] * b[1] - a[1] * b[0]]


def mm(A, B, n=3):
    return [[sum((A[i][k] * B[k][j] for k in range(n)), D(0))
             for j in range(n)] for i in range(n)]


def sub_syms(r, m):
    return subst(D(r), lambda a: m.get(a.name) if not a.args else None)


def ddt(f, names, rates):
    return sum((diff(D(f), n) * r for n, r in zip(names, rates)), D(0))


def run_dyn(ck, pname, lib="np"):
    p = plant(pname)
    ip = ck.interp()
    o = p.make(ip)
    x, u = vec(ip, p.nx, "x", lib), vec(ip, p.nu, "u", lib)
    f = ip.cells(ip.call(ip.getattr(o, "dynamics"), [x, u], {}))
    X = [sym("x%d" % i) for i in range(p.nx)]
    U = [sym("u%d" % i) for i in range(p.nu)]
    A = {}
    for n in p.params:
        A[n] = D(ip.getattr(o, n))
    return ip, o, p, f, X, U, A, where(ck.repo, p.mod, p.cls + ".dynamics")


def check(ck):
    for name, f in (("rotation", rotation), ("rocket", rocket),
                    ("rocket2", rocket2), ("pendulum", pendulum),
                    ("quadrotor2d", quad2d), ("quadrotor3d", quad3d),
                    ("unicycle", unicycle), ("acceleration_car", accel),
                    ("pole", pole), ("slip", slip)):
        ck.attempt(name, lambda: f(ck), "equations of motion")


def rotation(ck):
    w = where(ck.repo, "geometry_transform", "rpy2rotmat")
    for lib in ("np", "torch"):
        ip = ck.interp()
        c = ip.cells(ip.call(ip.get("geometry_transform", "rpy2rotmat"),
                             [vec(ip, 3, "r", lib)], {}))
        R = [c[0:3], c[3:6], c[6:9]]
        for i in range(3):
            for j in range(3):
                ck.eq("rotation.%s.orthonormal[%d,%d]" % (lib, i, j),
                      sum((R[i][k] * R[j][k] for k in range(3)), D(0)),
                      1 if i == j else 0, "R R' = I", w)
        x = cross(R[0], R[1])
        ck.eq("rotation.%s.det" % lib,
              sum((x[k] * R[2][k] for k in range(3)), D(0)), 1, "det R = 1",
              w)
        r, p, y = sym("r0"), sym("r1"), sym("r2")
        ref = mm(mm([[cos(y), -sin(y), D(0)], [sin(y), cos(y), D(0)],
                     [D(0), D(0), D(1)]],
                    [[cos(p), D(0), sin(p)], [D(0), D(1), D(0)],
                     [-sin(p), D(0), cos(p)]]),
                 [[D(1), D(0), D(0)], [D(0), cos(r), -sin(r)],
                  [D(0), sin(r), cos(r)]])
        for i in range(3):
            for j in range(3):
                ck.eq("rotation.%s.zyx[%d,%d]" % (lib, i, j), R[i][j],
                      ref[i][j], "R = Rz(yaw) Ry(pitch) Rx(roll)", w)


def rocket(ck):
    for lib in ("np", "torch"):
        ip, o, p, f, X, U, A, w = run_dyn(ck, "rocket", lib)
        m, I, L, g = A["mass"], A["inertia"], A["length"], A["gravity"]
        s, c = sin(X[2]), cos(X[2])
        fx, fz = c * U[0] - s * U[1], s * U[0] + c * U[1]
        k = "rocket.%s." % lib
        for i in range(3):
            ck.eq(k + "kinematics[%d]" % i, f[i], X[3 + i],
                  "q' is the velocity state", w)
        ck.eq(k + "force_x", m * f[3], fx, "m a = F", w)
        ck.eq(k + "force_z", m * (f[4] + g), fz, "m (a + g) = F", w)
        # the thrust acts at the bottom, L/2 below the centre of mass
        rx, rz = L / 2 * s, -(L / 2) * c
        ck.eq(k + "moment", I * f[5], -(rz * fx - rx * fz),
              "I theta'' = r x F", w)
    ip = ck.interp()
    o = p.make(ip)
    ht = D(ip.getattr(o, "hover_thrust"))
    eq = ip.cells(ip.call(ip.getattr(o, "dynamics"),
                          [ip.new_arr((6,), [D(0)] * 6, "np"),
                           ip.new_arr((2,), [D(0), ht], "np")], {}))
    for i in range(6):
        ck.eq("rocket.hover[%d]" % i, eq[i], 0, "hover is an equilibrium",
              where(ck.repo, p.mod, "Rocket.hover_thrust"))


def rocket2(ck):
    for lib in ("np", "torch"):
        ip, o, p, f, X, U, A, w = run_dyn(ck, "rocket2", lib)
        m, I, L, g = A["mass"], A["inertia"], A["length"], A["gravity"]
        s, c, td = sin(X[2]), cos(X[2]), X[5]
        fx, fz = c * U[0] - s * U[1], s * U[0] + c * U[1]
        k = "rocket2.%s." % lib
        for i in range(3):
            ck.eq(k + "kinematics[%d]" % i, f[i], X[3 + i],
                  "q' is the velocity state", w)
        # centre of mass = bottom + L/2 (-sin, cos)
        thdd = f[5]
        ax = f[3] - L / 2 * (c * thdd - s * td * td)
        az = f[4] - L / 2 * (s * thdd + c * td * td)
        ck.eq(k + "force_x", m * ax, fx, "m a_com = F", w)
        ck.eq(k + "force_z", m * (az + g), fz, "m (a_com + g) = F", w)
        ck.eq(k + "moment", I * thdd, L / 2 * U[0], "I theta'' = r x F", w)


def pendulum(ck):
    for lib in ("np", "torch"):
        ip, o, p, f, X, U, A, w = run_dyn(ck, "pendulum", lib)
        m, g, L, b = A["mass"], A["gravity"], A["length"], A["damping"]
        k = "pendulum.%s." % lib
        ck.eq(k + "kinematics", f[0], X[1], "theta' is the velocity state",
              w)
        x = vec(ip, 2, "x", lib)
        E = scal(ip, ip.call(ip.getattr(o, "kinetic_energy"), [x], {}))
        V = scal(ip, ip.call(ip.getattr(o, "potential_energy"), [x], {}))
        ck.eq(k + "kinetic", E, m * L * L * X[1] * X[1] / 2,
              "T = m l^2 w^2 / 2", w)
        ck.eq(k + "potential", V, -m * g * L * cos(X[0]),
              "V = -m g l cos(theta)", w)
        ck.eq(k + "power", ddt(E + V, ["x0", "x1"], f),
              X[1] * (U[0] - b * X[1]), "dE/dt = u w - b w^2", w)


def scal(ip, v):
    if isinstance(v, Arr):
        c = ip.cells(v)
        assert len(c) == 1
        return D(c[0])
    return D(v)


def quad2d(ck):
    for lib in ("np", "torch"):
        ip, o, p, f, X, U, A, w = run_dyn(ck, "quadrotor2d", lib)
        m, I, L, g = A["mass"], A["inertia"], A["length"], A["gravity"]
        T = U[0] + U[1]
        k = "quadrotor2d.%s." % lib
        for i in range(3):
            ck.eq(k + "kinematics[%d]" % i, f[i], X[3 + i],
                  "q' is the velocity state", w)
        ck.eq(k + "force_x", m * f[3], -sin(X[2]) * T, "m a = F", w)
        ck.eq(k + "force_z", m * (f[4] + g), cos(X[2]) * T, "m (a+g) = F", w)
        ck.eq(k + "moment", I * f[5], L * (U[0] - U[1]), "I theta'' = tau", w)
    ip = ck.interp()
    o = p.make(ip)
    ue = ip.getattr(o, "u_equilibrium")
    eq = ip.cells(ip.call(ip.getattr(o, "dynamics"),
                          [ip.new_arr((6,), [D(0)] * 6, "torch"), ue], {}))
    for i in range(6):
        ck.eq("quadrotor2d.hover[%d]" % i, eq[i], 0,
              "u_equilibrium is an equilibrium",
              where(ck.repo, p.mod, "Quadrotor2D.u_equilibrium"))


def quad3d(ck):
    p = plant("quadrotor3d")
    for lib in ("np", "torch"):
        ip = ck.interp()
        o = p.make(ip)
        # symbolic diagonal inertia
        In = [sym("Ix"), sym("Iy"), sym("Iz")]
        for n in ("Ix", "Iy", "Iz"):
            poly.set_bounds(n, 0, None, lo_open=True)
        ip.attrs(o)["inertia"] = ip.new_arr((3,), In, "np", "float64")
        x, u = vec(ip, 12, "x", lib), vec(ip, 4, "u", lib)
        f = ip.cells(ip.call(ip.getattr(o, "dynamics"), [x, u], {}))
        X = [sym("x%d" % i) for i in range(12)]
        U = [sym("u%d" % i) for i in range(4)]
        m, g = D(ip.getattr(o, "mass")), D(ip.getattr(o, "gravity"))
        L = D(ip.getattr(o, "arm_length"))
        z = D(ip.getattr(o, "z_torque_to_force_factor"))
        w = where(ck.repo, p.mod, "Quadrotor.dynamics")
        k = "quadrotor3d.%s." % lib
        ip2 = ck.interp()
        rc = ip2.cells(ip2.call(ip2.get("geometry_transform", "rpy2rotmat"),
                                [ip2.new_arr((3,), X[3:6], "np")], {}))
        R = [rc[0:3], rc[3:6], rc[6:9]]
        T = U[0] + U[1] + U[2] + U[3]
        for i in range(3):
            ck.eq(k + "position[%d]" % i, f[i], X[6 + i],
                  "p' is the velocity state", w)
            ck.eq(k + "force[%d]" % i,
                  m * (f[6 + i] + (g if i == 2 else 0)), R[i][2] * T,
                  "m (a + g e3) = R e3 * total thrust", w)
        om = X[9:12]
        S = [[D(0), -om[2], om[1]], [om[2], D(0), -om[0]],
             [-om[1], om[0], D(0)]]
        RS = mm(R, S)
        names = ["x3", "x4", "x5"]
        for i in range(3):
            for j in range(3):
                ck.eq(k + "attitude[%d,%d]" % (i, j),
                      ddt(R[i][j], names, f[3:6]), RS[i][j],
                      "R' = R [omega]x", w)
        tau = [L * (U[1] - U[3]), L * (U[2] - U[0]),
               z * (U[0] - U[1] + U[2] - U[3])]
        gy = cross(om, [In[i] * om[i] for i in range(3)])
        for i in range(3):
            ck.eq(k + "euler[%d]" % i, In[i] * f[9 + i] + gy[i], tau[i],
                  "I omega' + omega x I omega = tau(u)", w)
    ip = ck.interp()
    o = p.make(ip)
    ht = D(ip.getattr(o, "hover_thrust"))
    eq = ip.cells(ip.call(ip.getattr(o, "dynamics"),
                          [ip.new_arr((12,), [D(0)] * 12, "np"),
                           ip.new_arr((4,), [ht] * 4, "np")], {}))
    for i in range(12):
        ck.eq("quadrotor3d.hover[%d]" % i, eq[i], 0,
              "hover_thrust is an equilibrium",
              where(ck.repo, p.mod, "Quadrotor"))


def unicycle(ck):
    for lib in ("np", "torch"):
        ip, o, p, f, X, U, A, w = run_dyn(ck, "unicycle", lib)
        k = "unicycle.%s." % lib
        ck.eq(k + "no_slip", f[0] * sin(X[2]) - f[1] * cos(X[2]), 0,
              "no lateral velocity", w)
        ck.eq(k + "speed", f[0] * cos(X[2]) + f[1] * sin(X[2]), U[0],
              "speed along the heading is the first input", w)
        ck.eq(k + "turn", f[2], U[1], "theta' is the second input", w)


def accel(ck):
    for lib in ("np", "torch"):
        ip, o, p, f, X, U, A, w = run_dyn(ck, "acceleration_car", lib)
        k = "acceleration_car.%s." % lib
        ck.eq(k + "no_slip", f[0] * sin(X[2]) - f[1] * cos(X[2]), 0,
              "no lateral velocity", w)
        ck.eq(k + "speed", f[0] * cos(X[2]) + f[1] * sin(X[2]), X[3],
              "speed along the heading is the velocity state", w)
        ck.eq(k + "turn", f[2], U[0], "theta' is the first input", w)
        ck.eq(k + "accel", f[3], U[1], "vel' is the second input", w)


def pole(ck):
    p = plant("pole")
    w = where(ck.repo, p.mod, "Pole.dynamics")
    ms, me, ln = sym("m_s"), sym("m_e"), sym("len")
    for lib in ("np", "torch"):
        ip = ck.interp()
        o = p.make(ip)
        g = D(ip.getattr(o, "gravity"))
        seen = []

        def hook(ip_, args, kw):
            seen.append((ip_.cells(args[0]), ip_.cells(args[1])))
            return ip_.new_arr((5,), [sym("vd%d" % i) for i in range(5)],
                               lib)
        ip.hooks["ext:numpy.linalg.solve"] = hook
        ip.hooks["ext:torch.linalg.solve"] = hook
        x, u = vec(ip, 7, "x", lib), vec(ip, 3, "u", lib)
        f = ip.cells(ip.call(ip.getattr(o, "dynamics"), [x, u], {}))
        k = "pole.%s." % lib
        X = [sym("x%d" % i) for i in range(7)]
        if len(seen) != 1:
            # a different algorithm: judge the accelerations themselves
            vd = f[2:7]
        else:
            vd = [sym("vd%d" % i) for i in range(5)]
            for i in range(5):
                ck.eq(k + "acceleration[%d]" % i, f[2 + i], vd[i],
                      "state derivative is the solution of M v' = F - C", w)
        ck.eq(k + "kinematics[0]", f[0], X[5], "x_AB' is the velocity", w)
        ck.eq(k + "kinematics[1]", f[1], X[6], "y_AB' is the velocity", w)
        # independent Lagrangian; q = (xA, yA, zA, x0, x1)
        qn = ["qx", "qy", "qz", "x0", "x1"]
        vn = ["x2", "x3", "x4", "x5", "x6"]
        v = [sym(n) for n in vn]
        zab = sqrt(ln * ln - X[0] * X[0] - X[1] * X[1])
        zd = -(X[0] * X[5] + X[1] * X[6]) / zab
        vb = [v[0] + v[3], v[1] + v[4], v[2] + zd]
        T = (me * (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]) +
             ms * (vb[0] * vb[0] + vb[1] * vb[1] + vb[2] * vb[2])) / 2
        V = me * g * sym("qz") + ms * g * (sym("qz") + zab)
        Lg = T - V
        force = [sym("u0"), sym("u1"), sym("u2"), D(0), D(0)]
        lhs = []
        for i in range(5):
            pi = diff(Lg, vn[i])
            e = ddt(pi, qn, v) - diff(Lg, qn[i])
            lhs.append((e, [diff(pi, n) for n in vn]))
        if len(seen) == 1:
            M, b = seen[0]
            for i in range(5):
                for j in range(5):
                    ck.eq(k + "mass[%d,%d]" % (i, j), M[i * 5 + j],
                          lhs[i][1][j], "M = d2L / dv dv", w)
                bias = force[i] - b[i]
                key = k + "bias[%d]" % i
                if i == 2:
                    # the sign of the product term of the sphere's vertical
                    # acceleration: a recorded finding has its own key
                    off = 4 * ms * X[0] * X[1] * X[5] * X[6] / zab**3
                    r, _ = poly.equal(bias + 0, lhs[i][0] + off, ck.seed)
                    if r:
                        key += ".sign_of_xd*yd_term"
                ck.eq(key, bias, lhs[i][0],
                      "C = d/dt(dL/dv) - dL/dq at v' = 0", w)
        else:
            for i in range(5):
                e = lhs[i][0] + sum((lhs[i][1][j] * vd[j]
                                     for j in range(5)), D(0))
                ck.eq(k + "lagrange[%d]" % i, e, force[i],
                      "Euler-Lagrange equation", w)


def slip(ck):
    mod = "spring_loaded_inverted_pendulum"
    W = lambda m: where(ck.repo, mod, "SLIP." + m)
    ip = ck.interp()
    o = make_slip(ip)
    m, l0, kk, g = sym("m"), sym("l0"), sym("k"), sym("g")

    def call(n, *a):
        return ip.call(ip.getattr(o, n), list(a), {})
    s = vec(ip, 5, "s", "np")
    S = [sym("s%d" % i) for i in range(5)]
    f = ip.cells(call("stance_dynamics", s))
    sn = ["s0", "s1", "s2", "s3"]
    T = m * (S[2] * S[2] + S[0] * S[0] * S[3] * S[3]) / 2
    V = m * g * S[0] * cos(S[1]) + kk * (l0 - S[0]) * (l0 - S[0]) / 2
    ck.eq("slip.stance.r", f[0], S[2], "r' is the velocity state",
          W("stance_dynamics"))
    ck.eq("slip.stance.theta", f[1], S[3], "theta' is the velocity state",
          W("stance_dynamics"))
    ck.eq("slip.stance.foot", f[4], 0, "the foot does not move",
          W("stance_dynamics"))
    L = T - V
    for i in (0, 1):
        e = ddt(diff(L, sn[2 + i]), sn, f[:4]) - diff(L, sn[i])
        ck.eq("slip.stance.lagrange[%d]" % i, e, 0,
              "Euler-Lagrange equation of the stance phase",
              W("stance_dynamics"))
    E = scal(ip, call("stance_phase_energy", s))
    ck.eq("slip.stance.energy", E, T + V, "stance energy is T + V",
          W("stance_phase_energy"))
    y = vec(ip, 4, "y", "np")
    Y = [sym("y%d" % i) for i in range(4)]
    ff = ip.cells(call("flight_dynamics", y))
    Ef = scal(ip, call("flight_phase_energy", y))
    for i, ref in enumerate((Y[2], Y[3], D(0), -g)):
        ck.eq("slip.flight[%d]" % i, ff[i], ref, "ballistic flight",
              W("flight_dynamics"))
    ck.eq("slip.flight.energy", Ef,
          m * (Y[2] * Y[2] + Y[3] * Y[3]) / 2 + m * g * Y[1],
          "flight energy is T + V", W("flight_phase_energy"))
    th = sym("th")
    ck.eq("slip.touchdown_guard", scal(ip, call("touchdown_guard", y, th)),
          Y[1] - l0 * cos(th), "guard is the foot height",
          W("touchdown_guard"))
    ck.eq("slip.liftoff_guard", scal(ip, call("liftoff_guard", s)),
          S[0] - l0, "guard is the spring extension", W("liftoff_guard"))
    ck.eq("slip.apex_guard", scal(ip, call("apex_guard", y)), Y[3],
          "guard is the vertical velocity", W("apex_guard"))
    # touchdown then lift-off of the same state is the identity
    yt = ip.new_arr((4,), [Y[0], l0 * cos(th), Y[2], Y[3]], "np")
    post = call("touchdown_transition", yt, th)
    pc = ip.cells(post)
    ck.eq("slip.touchdown.length", pc[0], l0, "touchdown at rest length",
          W("touchdown_transition"))
    ck.eq("slip.touchdown.angle", pc[1], th, "touchdown keeps the leg angle",
          W("touchdown_transition"))
    ck.eq("slip.touchdown.foot", pc[4], Y[0] + l0 * sin(th),
          "the foot is below the leg", W("touchdown_transition"))
    back = ip.cells(call("liftoff_transition", post))
    for i, ref in enumerate(ip.cells(yt)):
        ck.eq("slip.round_trip[%d]" % i, back[i], ref,
              "lift-off undoes touchdown", W("liftoff_transition"))
    ck.eq("slip.touchdown.energy",
          scal(ip, call("stance_phase_energy", post)),
          scal(ip, call("flight_phase_energy", yt)),
          "touchdown conserves energy", W("touchdown_transition"))
    sl = ip.new_arr((5,), [l0] + S[1:], "np")
    lo = call("liftoff_transition", sl)
    ck.eq("slip.liftoff.energy", scal(ip, call("flight_phase_energy", lo)),
          scal(ip, call("stance_phase_energy", sl)),
          "lift-off conserves energy", W("liftoff_transition"))
    # velocity after lift-off is the time derivative of the body position
    loc = ip.cells(call("liftoff_transition", s))
    px, pz = S[4] - S[0] * sin(S[1]), S[0] * cos(S[1])
    ck.eq("slip.liftoff.vx", loc[2], ddt(px, ["s0", "s1"], S[2:4]),
          "velocity is the derivative of the position",
          W("liftoff_transition"))
    ck.eq("slip.liftoff.vz", loc[3], ddt(pz, ["s0", "s1"], S[2:4]),
          "velocity is the derivative of the position",
          W("liftoff_transition"))
