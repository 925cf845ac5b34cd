"""Plant models and rotations: the array back end and the tensor back end
compute the same function."""
import ast
from .common import PLANTS, vec, where, EX

TITLE = "Plant models agree across array and tensor inputs"
EXPLANATION = (
    "Both back-end branches of every dual-back-end model function are "
    "evaluated by abstract interpretation of the current source into rational "
    "normal forms over symbolic state, input and plant parameters (global "
    "value numbering); the rule is: equal normal form, element by element. "
    "Functions that branch on the array type are counted from the syntax "
    "tree.")
ASSUMPTIONS = ("numpy / torch element-wise primitives follow their documented "
               "meaning; floating-point rounding is ignored",)
MIN_OBS = 60

METHODS = [
    ("rocket", "dynamics", "xu"), ("rocket2", "dynamics", "xu"),
    ("pendulum", "dynamics", "xu"), ("pendulum", "potential_energy", "x"),
    ("pendulum", "kinetic_energy", "x"),
    ("quadrotor2d", "dynamics", "xu"),
    ("quadrotor2d", "linearized_dynamics", "xu"),
    ("quadrotor3d", "dynamics", "xu"), ("unicycle", "dynamics", "xu"),
    ("unicycle", "dynamics_gradient", "xu"),
    ("acceleration_car", "dynamics", "xu"), ("pole", "dynamics", "xu"),
]


def _flat(ip, v):
    from ..values import Arr, ListV
    if isinstance(v, tuple):
        out = []
        for e in v:
            out += _flat(ip, e)
        return out
    if isinstance(v, ListV):
        return _flat(ip, tuple(ip.items(v)))
    if isinstance(v, Arr):
        return [(v.shape, ip.cells(v))]
    return [((), [v])]


def count_dual(repo):
    """functions whose body tests isinstance against both array classes"""
    out = []
    for name, m in repo.modules.items():
        tree = m.tree
        for f in ast.walk(tree):
            if not isinstance(f, ast.FunctionDef):
                continue
            names = set()
            for c in ast.walk(f):
                if isinstance(c, ast.If):
                    for d in ast.walk(c.test):
                        if isinstance(d, ast.Call) and \
                                isinstance(d.func, ast.Name) and \
                                d.func.id == "isinstance":
                            names.add(ast.unparse(d.args[1]))
            if {"np.ndarray", "torch.Tensor"} <= names:
                out.append("%s.%s" % (name, f.name))
    return sorted(out)


def check(ck):
    rule = "array branch == tensor branch"
    plants = {p.name: p for p in PLANTS}
    for pn, meth, sig in METHODS:
        p = plants[pn]
        w = where(ck.repo, p.mod, p.cls + "." + meth)

        def go():
            res = []
            for lib in ("np", "torch"):
                ip = ck.interp()
                o = p.make(ip)
                a = [vec(ip, p.nx, "x", lib)]
                if "u" in sig:
                    a.append(vec(ip, p.nu, "u", lib))
                res.append(_flat(ip, ip.call(ip.getattr(o, meth), a, {})))
            (ra, rb) = res
            key = "%s.%s" % (pn, meth)
            if len(ra) != len(rb):
                ck.ob(key, False, rule, "different number of results", w)
                return
            for k, ((sa, ca), (sb, cb)) in enumerate(zip(ra, rb)):
                if tuple(sa) != tuple(sb):
                    ck.ob("%s#%d" % (key, k), False, rule,
                          "shape %s vs %s" % (sa, sb), w)
                    continue
                for i, (x, y) in enumerate(zip(ca, cb)):
                    ck.eq("%s#%d[%d]" % (key, k, i), x, y, rule, w)
        ck.attempt("%s.%s" % (pn, meth), go, rule, w)
    for fname in ("rpy2rotmat", "rpy2rotmat_gradient"):
        w = where(ck.repo, "geometry_transform", fname)

        def go():
            res = []
            for lib in ("np", "torch"):
                ip = ck.interp()
                v = ip.call(ip.get("geometry_transform", fname),
                            [vec(ip, 3, "rpy", lib)], {})
                res.append(_flat(ip, v))
            for k, ((sa, ca), (sb, cb)) in enumerate(zip(*res)):
                for i, (x, y) in enumerate(zip(ca, cb)):
                    ck.eq("%s#%d[%d]" % (fname, k, i), x, y, rule, w)
        ck.attempt(fname, go, rule, w)
    ck.sites = len(count_dual(ck.repo))
