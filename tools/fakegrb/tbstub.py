"""import tbstub before the repository: torch.utils.tensorboard stand-in."""
import sys
import types
m = types.ModuleType("torch.utils.tensorboard")


class SummaryWriter:
    def __init__(self, *a, **k):
        pass

    def __getattr__(self, n):
        return lambda *a, **k: None


m.SummaryWriter = SummaryWriter
sys.modules["torch.utils.tensorboard"] = m
sys.modules["gurobipy"] = None          # cvxpy must not see the stand-in
import cvxpy  # noqa: E402,F401
del sys.modules["gurobipy"]
_solve = cvxpy.Problem.solve


def solve(self, *a, **k):
    k.pop("solver", None)
    a = [x for x in a if not isinstance(x, str)]
    return _solve(self, *a, **k)


cvxpy.Problem.solve = solve
