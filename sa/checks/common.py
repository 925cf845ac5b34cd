"""Slots shared by the checks: plants, symbol builders, derivative helpers."""
from .. import poly, cvxpy_model, gurobi_model  # noqa: F401
from ..poly import Rat
from ..values import Arr, ExtV, ObjV, Undecided

F64 = ExtV("torch.float64")
EX = "examples."


def sym(n):
    return Rat.sym(n)


def vec(ip, n, name, lib="torch", names=None):
    return ip.new_arr((n,), [sym(names[i] if names else "%s%d" % (name, i))
                             for i in range(n)], lib)


def mat(ip, r, c, name, lib="torch"):
    return ip.new_arr((r, c), [sym("%s%d_%d" % (name, i, j))
                               for i in range(r) for j in range(c)], lib)


def const(ip, vals, lib="torch", shape=None):
    vals = [Rat.of(v) for v in vals]
    return ip.new_arr(shape or (len(vals),), vals, lib)


def where(repo, mod, qual):
    """file:line of a definition, for reports only"""
    try:
        m = repo.mod(mod)
    except Exception:
        return mod + "." + qual
    import ast
    node = m.tree
    for part in qual.split("."):
        node = next((c for c in ast.walk(node)
                     if isinstance(c, (ast.FunctionDef, ast.ClassDef)) and
                     c.name == part), None)
        if node is None:
            return "%s (%s)" % (m.path, qual)
    return "%s:%d" % (m.path, node.lineno)


# plant table: name -> module, class, constructor args, nx, nu, parameters
# whose value is a literal in __init__ and which become symbols
class Plant:
    def __init__(self, name, mod, cls, nx, nu, args=(), params=(),
                 backends=("np", "torch")):
        self.name, self.mod, self.cls = name, mod, cls
        self.nx, self.nu, self.args = nx, nu, args
        self.params, self.backends = params, backends

    def make(self, ip):
        ip.symbolize = set(self.params)
        C = ip.get(self.mod, self.cls)
        args = self.args() if callable(self.args) else self.args
        o = ip.call(C, list(args), {})
        ip.symbolize = set()
        return o


PLANTS = [
    Plant("rocket", EX + "rocket.rocket", "Rocket", 6, 2,
          params=("length", "mass", "inertia", "gravity")),
    Plant("rocket2", EX + "rocket.rocket", "Rocket2", 6, 2,
          params=("length", "mass", "inertia", "gravity")),
    Plant("pendulum", EX + "pendulum.pendulum", "Pendulum", 2, 1, (F64,),
          params=("mass", "gravity", "length", "damping")),
    Plant("quadrotor2d", EX + "quadrotor2d.quadrotor_2d", "Quadrotor2D", 6, 2,
          (F64,), params=("length", "mass", "inertia", "gravity")),
    Plant("quadrotor3d", EX + "quadrotor3d.quadrotor", "Quadrotor", 12, 4,
          (F64,), params=("mass", "gravity", "arm_length",
                          "z_torque_to_force_factor")),
    Plant("unicycle", EX + "car.unicycle", "Unicycle", 3, 2, (F64,)),
    Plant("acceleration_car", EX + "car.acceleration_car", "AccelerationCar",
          4, 2, (F64,)),
    Plant("pole", EX + "pole.pole", "Pole", 7, 3,
          lambda: (sym("m_s"), sym("m_e"), sym("len")),
          params=("gravity",)),
]


def plant(name):
    return next(p for p in PLANTS if p.name == name)


def jac_ob(ck, ip, key, J, f_cells, xs, rule, w):
    """J[i][j] == d f_i / d x_j"""
    cells = ip.cells(J)
    n = len(f_cells)
    if isinstance(J, Arr) and len(J.shape) >= 1 and \
            len(cells) != n * len(xs):
        ck.ob(key, False, rule, "shape %s is not %dx%d" %
              (J.shape, n, len(xs)), w)
        return
    for i in range(n):
        for j, x in enumerate(xs):
            ck.eq("%s[%d,%d]" % (key, i, j), cells[i * len(xs) + j],
                  poly.diff(f_cells[i], x), rule, w)
