"""Simulated image / state data: every row is the transition it is labelled
with."""
from .. import poly, natives
from ..poly import Rat
from ..values import Arr, PyFn, ExtV, BoundV
from .common import vec, where, sym, F64

TITLE = "Generated data rows are the transitions they are labelled with"
EXPLANATION = (
    "The data generator is evaluated with the physics engine replaced by an "
    "abstract transition system (state token, step counter, symbolic "
    "pixels); the state and the pixels in every row of the returned tensors "
    "are compared with the simulation instant the documentation assigns to "
    "that row. Sampling bounds are decided in the interval domain.")
ASSUMPTIONS = ("the physics engine returns the state it holds; images are "
               "square", "floating-point rounding is ignored")
MIN_OBS = 200
D = Rat.of
MOD = "pybullet_data_generation"
CLS = "PybulletSampleGenerator"
RES = 2


class World:
    """abstract physics engine"""
    def __init__(self, nj):
        self.nj = nj
        self.events = []
        self.init = {}
        self.steps = 0

    def hooks(self, ip):
        def h(name, f):
            ip.hooks["ext:pybullet." + name] = f
        nop = lambda ip, a, k: None
        for n in ("connect", "setGravity", "setPhysicsEngineParameter",
                  "computeViewMatrix", "computeProjectionMatrixFOV",
                  "setJointMotorControl2", "disconnect"):
            h(n, lambda ip, a, k, n=n: Rat.sym("pb_" + n))

        def ts(ip, a, k):
            self.dt = D(a[0])
        h("setTimeStep", ts)
        h("getNumJoints", lambda ip, a, k: self.nj)

        def step(ip, a, k):
            self.steps += 1
        h("stepSimulation", step)
        h("saveState", lambda ip, a, k: 77)

        def restore(ip, a, k):
            self.events.append("restore")
            self.steps = 0
            self.init = {}
        h("restoreState", restore)

        def rjs(ip, a, k):
            a = norm(ip, "bodyUniqueId jointIndex targetValue "
                     "targetVelocity=0 physicsClientId=0", a, k)
            v = a[3]
            self.init["q%d" % a[1]] = scalar(ip, a[2])
            self.init["v%d" % a[1]] = scalar(ip, v)
            self.events.append(("set", self.steps))
        h("resetJointState", rjs)

        def rbp(ip, a, k):
            a = norm(ip, "bodyUniqueId posObj ornObj physicsClientId=0", a,
                     k)
            for i, c in enumerate(cells(ip, a[1])):
                self.init["p%d" % i] = c
            for i, c in enumerate(cells(ip, a[2])):
                self.init["o%d" % i] = c
        h("resetBasePositionAndOrientation", rbp)

        def rbv(ip, a, k):
            a = norm(ip, "objectUniqueId linearVelocity=None "
                     "angularVelocity=None physicsClientId=0", a, k)
            for n, v in (("l", a[1]), ("w", a[2])):
                for i, c in enumerate(cells(ip, v) if v is not None else ()):
                    self.init["%s%d" % (n, i)] = c
        h("resetBaseVelocity", rbv)
        h("getQuaternionFromEuler", lambda ip, a, k: tuple(
            poly.fn("quat%d" % i, *cells(ip, a[0])) for i in range(4)))
        h("getEulerFromQuaternion", lambda ip, a, k: tuple(
            poly.fn("euler%d" % i, *cells(ip, a[0])) for i in range(3)))

        def img(ip, a, k):
            out = []
            for i in range(RES):
                for j in range(RES):
                    for c in range(4):
                        n = self.px(self.steps, c, i, j)
                        poly.set_bounds(n, 0, 255)
                        out.append(sym(n))
            rgb = ip.new_arr((RES, RES, 4), out, "np")
            self.events.append(("image", self.steps))
            return (RES, RES, rgb, Rat.sym("depth"), Rat.sym("seg"))
        h("getCameraImage", img)

        def js(ip, a, k):
            a = norm(ip, "bodyUniqueId jointIndices physicsClientId=0", a, k)
            ids = ip.iterate(a[1])
            return tuple((self.val("q%d" % i), self.val("v%d" % i), 0, 0)
                         for i in ids)
        h("getJointStates", js)

        def js1(ip, a, k):
            a = norm(ip, "bodyUniqueId jointIndex physicsClientId=0", a, k)
            return (self.val("q%d" % a[1]), self.val("v%d" % a[1]), 0, 0)
        h("getJointState", js1)
        h("getBasePositionAndOrientation", lambda ip, a, k: (
            tuple(self.val("p%d" % i) for i in range(3)),
            tuple(self.val("o%d" % i) for i in range(4))))
        h("getBaseVelocity", lambda ip, a, k: (
            tuple(self.val("l%d" % i) for i in range(3)),
            tuple(self.val("w%d" % i) for i in range(3))))

    def px(self, steps, c, i, j):
        return "px_t%d_%d_%d_%d" % (steps, c, i, j)

    def val(self, n):
        return sym("%s_t%d" % (n, self.steps))


def norm(ip, spec, a, k):
    return natives.bind(ip, natives.parse_spec(spec), a, k, spec)


def scalar(ip, v):
    return ip.cells(v)[0] if isinstance(v, Arr) else D(v)


def cells(ip, v):
    if isinstance(v, Arr):
        return ip.cells(v)
    return [scalar(ip, c) for c in ip.iterate(v)]


def make(ck, joint, gray, nj=2):
    ip = ck.interp()
    wd = World(nj)
    wd.hooks(ip)
    cb = PyFn(lambda ip, a, k: 5, "load")
    o = ip.call(ip.get(MOD, CLS), [cb, joint],
                {"image_width": RES, "image_height": RES, "grayscale": gray,
                 "dtype": F64})
    wd.events.clear()
    return ip, wd, o


def check(ck):
    poly.clear_bounds()
    for joint in (True, False):
        for gray in (True, False):
            ck.attempt("sample.%s.%s" % (joint, gray),
                       lambda: sample(ck, joint, gray))
    for gray in (True, False):
        ck.attempt("rollout", lambda: rollout(ck, gray))
        for normal in (False, True):
            ck.attempt("dataset", lambda: dataset(ck, gray, normal))
    ck.attempt("data_to_rollouts", lambda: d2r(ck))
    ck.attempt("add_noise", lambda: noise(ck))
    ck.attempt("show", lambda: dataloader(ck))
    poly.clear_bounds()


def sample(ck, joint, gray):
    w = where(ck.repo, MOD, CLS + ".generate_sample")
    ip, wd, o = make(ck, joint, gray)
    key = "sample.%s.%s" % ("joint" if joint else "body",
                            "gray" if gray else "rgb")
    nx = 4 if joint else 12
    x0 = vec(ip, nx, "x")
    ns = 3
    # dt = 2 * ns simulation steps
    dt = wd.dt * 2 * ns
    r = ip.call(ip.getattr(o, "generate_sample"), [x0, dt], {})
    x1, X, Xn = r
    ck.ob(key + ".restored", wd.events[:1] == ["restore"],
          "a sample starts from the saved world state", wd.events[:2], w)
    X0 = [sym("x%d" % i) for i in range(nx)]
    if joint:
        for i in range(2):
            ck.eq("%s.q0[%d]" % (key, i), wd.init.get("q%d" % i, 0), X0[i],
                  "the initial joint state is the given one", w)
            ck.eq("%s.v0[%d]" % (key, i), wd.init.get("v%d" % i, 0),
                  X0[2 + i], "the initial joint state is the given one", w)
        want = [sym("%s%d_t%d" % (n, i, 2 * ns)) for n in "qv"
                for i in range(2)]
    else:
        for i in range(3):
            for n, off in (("p", 0), ("l", 6), ("w", 9)):
                ck.eq("%s.%s0[%d]" % (key, n, i), wd.init.get(n + str(i), 0),
                      X0[off + i], "the initial body state is the given one",
                      w)
        for i in range(4):
            ck.eq("%s.o0[%d]" % (key, i), wd.init.get("o%d" % i, 0),
                  poly.fn("quat%d" % i, *X0[3:6]),
                  "the initial orientation is the given one", w)
        T = 2 * ns
        want = [sym("p%d_t%d" % (i, T)) for i in range(3)] + \
            [poly.fn("euler%d" % i, *[sym("o%d_t%d" % (j, T))
                                      for j in range(4)])
             for i in range(3)] + \
            [sym("l%d_t%d" % (i, T)) for i in range(3)] + \
            [sym("w%d_t%d" % (i, T)) for i in range(3)]
    ck.eq_arr(ip, key + ".x_next", x1, want,
              "the next state is the state after dt", w)
    wts = [D(c) for c in ip.iterate(ip.getattr(o, "grayscale_weight"))] \
        if gray else None
    if gray:
        for a, b in zip(wts, (D(2989) / 10000, D(587) / 1000, D(114) / 1000)):
            ck.eq(key + ".weight", a, b, "luma weights", w)

    def pixels(times):
        out = []
        for t in times:
            if gray:
                for i in range(RES):
                    for j in range(RES):
                        out.append(sum((wts[c] * sym(wd.px(t, c, i, j))
                                        for c in range(3)), D(0)) / 255)
            else:
                for c in range(3):
                    for i in range(RES):
                        for j in range(RES):
                            out.append(sym(wd.px(t, c, i, j)) / 255)
        return out
    nc = 1 if gray else 3
    for nm, got, times in (("X", X, (0, ns)), ("X_next", Xn, (2 * ns, ))):
        ck.ob("%s.%s.shape" % (key, nm), got.shape ==
              (nc * len(times), RES, RES), "image tensor shape", got.shape, w)
        ck.eq_arr(ip, "%s.%s" % (key, nm), got, pixels(times),
                  "image frames are taken at 0, dt/2 and dt and scaled to "
                  "[0, 1]", w)


def stub_sample(ip, o, wd, gray, log):
    nc = 1 if gray else 3

    def f(ip, args, kw):
        x, dt = norm(ip, "x0 dt", args[1:] if args and not isinstance(
            args[0], Arr) else args, kw)
        c = ip.cells(x)
        log.append((tuple(c), dt))
        n = nc * RES * RES
        return (ip.new_arr((len(c), ), [poly.fn("F%d" % i, *c)
                                        for i in range(len(c))], "torch"),
                ip.new_arr((2 * nc, RES, RES),
                           [poly.fn("I%d" % i, *c) for i in range(2 * n)],
                           "torch"),
                ip.new_arr((nc, RES, RES), [poly.fn("J%d" % i, *c)
                                            for i in range(n)], "torch"))
    ip.hooks[MOD + "." + CLS + ".generate_sample"] = f
    return nc * RES * RES


def F(x, k=1):
    for _ in range(k):
        x = [poly.fn("F%d" % i, *x) for i in range(len(x))]
    return x


def frames(x, n):
    return [poly.fn("I%d" % i, *x) for i in range(2 * n)]


def roll_ref(x0, N, n):
    xs = [x0]
    for k in range(N):
        xs.append(F(xs[-1]))
    im = frames(x0, n)
    ims = [im[:n], im[n:]]
    for k in range(N):
        ims.append([poly.fn("J%d" % i, *xs[k]) for i in range(n)])
    return xs, ims


def rollout(ck, gray):
    w = where(ck.repo, MOD, CLS + ".generate_rollout")
    ip, wd, o = make(ck, True, gray, 1)
    log = []
    n = stub_sample(ip, o, wd, gray, log)
    N = 3
    r = ip.call(ip.getattr(o, "generate_rollout"),
                [vec(ip, 2, "x"), sym("dt"), N], {})
    x, X = r
    xs, ims = roll_ref([sym("x0"), sym("x1")], N, n)
    key = "rollout.%s" % ("gray" if gray else "rgb")
    ck.eq_arr(ip, key + ".x", x, [c for s in xs for c in s],
              "state k+1 of a rollout is the successor of state k", w)
    ck.eq_arr(ip, key + ".X", X, [c for s in ims for c in s],
              "image k of a rollout belongs to instant k", w)
    for c, dt in log:
        ck.eq(key + ".dt", dt, sym("dt"), "time step is the given one", w)


def dataset(ck, gray, normal):
    w = where(ck.repo, MOD, CLS + ".generate_dataset")
    ip, wd, o = make(ck, True, gray, 1)
    log = []
    n = stub_sample(ip, o, wd, gray, log)
    N, R = 1, 3
    if normal:
        N, R = 3, 2
    for i in range(2):
        poly.set_bounds("gap%d" % i, 0, None)
    lo = [sym("lo%d" % i) for i in range(2)]
    up = [lo[i] + sym("gap%d" % i) for i in range(2)]
    kw = {}
    if normal:
        kw = {"x_mean": vec(ip, 2, "mean"), "x_std": vec(ip, 2, "std")}
    x, xn, X, Xn = ip.call(
        ip.getattr(o, "generate_dataset"),
        [ip.new_arr((2, ), lo, "torch"), ip.new_arr((2, ), up, "torch"),
         sym("dt"), N, R], kw)
    key = "dataset.%s.%s" % ("gray" if gray else "rgb",
                             "normal" if normal else "uniform")
    xc, per = ip.cells(x), 2
    starts = []
    for r in range(R):
        x0 = xc[r * N * per:r * N * per + per]
        starts.append(tuple(c.key() for c in x0))
        for i in range(2):
            s1, s2 = poly.sign(x0[i] - lo[i]), poly.sign(up[i] - x0[i])
            if s1 is None or s2 is None:
                # a clamp: decided by substituting the extremes
                z = x0[i]
                ok = clamp_in(z, lo[i], up[i])
            else:
                ok = s1 in ("+", ">=0", "0") and s2 in ("+", ">=0", "0")
            ck.ob("%s.box%d[%d]" % (key, r, i), ok,
                  "initial states lie in the sampling box", str(x0[i])[:160],
                  w)
        xs, ims = roll_ref(list(x0), N, n)
        for k in range(N):
            row = r * N + k
            nm = "%s.row%d" % (key, row)
            got = [a[row * s:(row + 1) * s] for a, s in (
                (xc, per), (ip.cells(xn), per), (ip.cells(X), 2 * n),
                (ip.cells(Xn), n))]
            want = [xs[k], xs[k + 1], ims[k] + ims[k + 1], ims[k + 2]]
            for lab, g, t in zip(("x", "x_next", "X", "X_next"), got, want):
                ck.eq_arr(ip, "%s.%s" % (nm, lab),
                          ip.new_arr((len(g), ), g, "torch"), t,
                          "row n holds (state n, state n+1, frames n, n+1, "
                          "frame n+2) of its rollout", w)
    ck.ob(key + ".fresh", len(set(starts)) == R,
          "every rollout draws its own initial state", "", w)


def clamp_in(z, lo, up):
    """z = max(min(y, up), lo) (or the other nesting): in [lo, up] for
    lo <= up, decided on the terms"""
    a = poly.equal(poly.max2(z, lo), z)[0]
    b = poly.equal(poly.min2(z, up), z)[0]
    return True if a and b else (False if a is False or b is False else None)


def d2r(ck):
    w = where(ck.repo, MOD, CLS + ".data_to_rollouts")
    ip, wd, o = make(ck, True, False, 1)
    log = []
    n = stub_sample(ip, o, wd, False, log)
    x = ip.new_arr((3, 2), [sym("d%d" % i) for i in range(6)], "torch")
    rx, rX = ip.call(ip.getattr(o, "data_to_rollouts"),
                     [x, sym("dt"), 1], {})
    for k, (a, b) in enumerate(zip(ip.iterate(rx), ip.iterate(rX))):
        xs, ims = roll_ref([sym("d%d" % (2 * k)), sym("d%d" % (2 * k + 1))],
                           1, n)
        ck.eq_arr(ip, "data_to_rollouts.x%d" % k, a,
                  [c for s in xs for c in s],
                  "rollout k starts at state k", w)
        ck.eq_arr(ip, "data_to_rollouts.X%d" % k, b,
                  [c for s in ims for c in s],
                  "rollout k starts at state k", w)
    ck.ob("data_to_rollouts.count", len(ip.iterate(rx)) == 3 and
          len(ip.iterate(rX)) == 3, "one rollout per initial state", "", w)


def noise(ck):
    w = where(ck.repo, MOD, "add_noise")
    ip = ck.interp()
    x = ip.new_arr((3, 2), [sym("d%d" % i) for i in range(6)], "torch")
    s = vec(ip, 2, "s")
    r = ip.call(ip.get(MOD, "add_noise"), [x, s], {})
    for i, c in enumerate(ip.cells(x)):
        ck.eq("add_noise.input[%d]" % i, c, sym("d%d" % i),
              "the clean data set is not modified", w)
    seen = set()
    for i, c in enumerate(ip.cells(r)):
        e = [a for a in c.atoms(True) if a.name.startswith("nrm")]
        ck.ob("add_noise.one[%d]" % i, len(e) == 1 and e[0].name not in seen,
              "independent normal noise per entry", str(e), w)
        if len(e) != 1:
            continue
        seen.add(e[0].name)
        j = i % 2
        scale = sym("s%d" % j) * (poly.absv(sym("d%d" % j)) +
                                  poly.absv(sym("d%d" % (2 + j))) +
                                  poly.absv(sym("d%d" % (4 + j)))) / 3
        ck.eq("add_noise[%d]" % i, c, sym("d%d" % i) + scale *
              sym(e[0].name), "noise std is the given percentage of the "
              "mean magnitude of its column", w)


def dataloader(ck):
    w = where(ck.repo, MOD, "get_dataloader")
    ip = ck.interp()
    log = []

    def ds(ip, a, k):
        log.append(("ds", a))
        return ip.new_obj(ExtV("sa.ds"), {"t": ip.new_list(a)})

    def dl(ip, a, k):
        log.append(("dl", a, k))
        return 9
    ip.hooks["ext:torch.utils.data.TensorDataset"] = ds
    ip.hooks["ext:torch.utils.data.DataLoader"] = dl
    x, y = vec(ip, 2, "x"), vec(ip, 2, "y")
    ip.call(ip.get(MOD, "get_dataloader"), [x, y, 7], {})
    ok = len(log) == 2 and list(log[0][1]) == [x, y] or (
        len(log) == 2 and len(log[0][1]) == 2 and
        log[0][1][0].addr == x.addr and log[0][1][1].addr == y.addr)
    ck.ob("get_dataloader.pairs", ok, "inputs are paired with their targets",
          "", w)
    if len(log) == 2:
        k = log[1][2]
        bs = k.get("batch_size", log[1][1][1] if len(log[1][1]) > 1 else None)
        ck.ob("get_dataloader.batch", bs == 7, "batch size is the given one",
              bs, w)
