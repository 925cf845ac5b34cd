"""Second set of planted changes (see mkseed.py)."""
import sys
sys.path.insert(0, "/verif/tools")
from mkseed import seed
G = {"gurobipy.py": open("/verif/tools/fakegrb/gurobipy.py").read()}
PRE = '''
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.modules["gurobipy"] = None          # cvxpy must not see the stand-in
import cvxpy  # noqa: F401
del sys.modules["gurobipy"]
import gurobipy
import numpy as np
import torch
torch.manual_seed(0)
D = torch.float64
'''
WB = dict(G)
WB["wandb.py"] = "def init(*a, **k):\n    pass\n\n\ndef log(*a, **k):\n    pass\n"
only = set(sys.argv[1:])


def S(id, *a, **k):
    if not only or id in only:
        seed(id, *a, **k)


S("s06_concat_slack_up", "C12", [("gurobi_torch_mip.py", """        ret.slack_up = stack_bounds(cnstr1.slack_up, cnstr2.slack_up,
                                    num_slack1, num_slack2, True)""",
"""        ret.slack_up = stack_bounds(cnstr1.slack_up, cnstr2.slack_up,
                                    num_slack1, num_slack2, False)""")],
  "two blocks with separate slack variables of which exactly one has upper bounds",
  "the slack variables of the block without upper bounds get the upper bound -inf: the concatenated block is infeasible",
  PRE + '''
from neural_network_lyapunov import gurobi_torch_mip as g
a, b = g.MixedIntegerConstraintsReturn(), g.MixedIntegerConstraintsReturn()
for c in (a, b):
    c.Ain_input = torch.ones((1, 2), dtype=D)
    c.Ain_slack = torch.ones((1, 2), dtype=D)
    c.rhs_in = torch.ones(1, dtype=D)
a.slack_up = torch.tensor([1., 2.], dtype=D)
r = g.concatenate_mixed_integer_constraints(a, b, False, False, False)
assert torch.all(r.slack_up == torch.tensor([1, 2, np.inf, np.inf], dtype=D))
''', G)

S("s07_max_bigm", "C08", [("utils.py", """        (nx, nx), dtype=dtype), torch.diag(max_x_up - x_lo)),
                               dim=0)
    ret.rhs_in = torch.cat((torch.zeros((nx, ), dtype=dtype), max_x_up - x_lo))""",
"""        (nx, nx), dtype=dtype), torch.diag(x_up - x_lo)),
                               dim=0)
    ret.rhs_in = torch.cat((torch.zeros((nx, ), dtype=dtype), x_up - x_lo))""")],
  "inputs with different upper bounds, another input taking its larger upper bound",
  "the big-M of an input that is not the maximum is its own range: points where the maximum exceeds it are cut off",
  PRE + '''
from neural_network_lyapunov import utils
r = utils.max_as_mixed_integer_constraint(
    torch.tensor([-1., -1.], dtype=D), torch.tensor([1., 4.], dtype=D))
x = torch.tensor([-1., 4.], dtype=D)
y = x.max().reshape(1)
z = torch.tensor([0., 1.], dtype=D)
assert torch.all(r.Ain_input @ x + r.Ain_slack @ y + r.Ain_binary @ z
                 <= r.rhs_in + 1e-9)
assert torch.all((r.Aeq_binary @ z - r.rhs_eq).abs() < 1e-9)
''', G)

S("s08_ia_negative_slope", "C09", [("mip_utils.py",
"            output_lo[torch.logical_and(input_lo < 0, input_up > 0)] = 0",
"            output_up[torch.logical_and(input_lo < 0, input_up > 0)] = 0")],
  "a leaky ReLU with a negative slope < 0 whose input range contains 0 in its interior",
  "interval of the unit's output misses values (the range below min(c*lo, up) down to 0 and the whole upper part)",
  PRE + '''
from neural_network_lyapunov import mip_utils
la = torch.nn.LeakyReLU(-0.5)
lo, up = torch.tensor([-1.], dtype=D), torch.tensor([2.], dtype=D)
a, b = mip_utils.propagate_bounds(la, lo, up)
y = la(torch.linspace(-1, 2, 50, dtype=D))
assert a <= y.min() and b >= y.max(), (a, b)
''', G)

S("s09_pattern_at_zero", "C27", [("relu_to_optimization.py",
"                    elif layer_x[i] < 0:", "                    elif layer_x[i] <= 0:")],
  "a point at which the input of a unit is exactly zero",
  "only one of the two consistent activation patterns is returned",
  PRE + '''
from neural_network_lyapunov import relu_to_optimization as r
n = torch.nn.Sequential(torch.nn.Linear(1, 2), torch.nn.ReLU(), torch.nn.Linear(2, 1)).double()
with torch.no_grad():
    n[0].weight[:] = torch.tensor([[1.], [2.]])
    n[0].bias[:] = torch.tensor([0., 1.])
p = r.compute_all_relu_activation_patterns(n, torch.zeros(1, dtype=D))
assert sorted(p) == [[[False, True]], [[True, True]]], p
''', G)

S("s10_residue_batch", "C15", [("relu_system.py",
"""            q_next = q_start + (v_start + v_next) * self.dt / 2
            return torch.cat((q_next, v_next), dim=-1)""",
"""            q_next = q_start + v_next * self.dt
            return torch.cat((q_next, v_next), dim=-1)""")],
  "a batch of states (two-dimensional tensor) with non-zero acceleration",
  "batches are integrated with backward Euler positions, single states (and the MIP rows) with the midpoint rule",
  PRE + '''
from neural_network_lyapunov import relu_system
n = torch.nn.Sequential(torch.nn.Linear(3, 4), torch.nn.ReLU(), torch.nn.Linear(4, 1)).double()
t = lambda *a: torch.tensor(a, dtype=D)
s = relu_system.ReLUSecondOrderResidueSystemGivenEquilibrium(
    D, t(-1, -1), t(1, 1), t(-1), t(1), n, t(0), t(0), 0.1, [0, 1])
x = torch.rand((3, 2), dtype=D)
u = torch.rand((3, 1), dtype=D)
b = s.step_forward(x, u)
for i in range(3):
    assert torch.allclose(b[i], s.step_forward(x[i], u[i]))
''', G)

S("s11_saturation_bound", "C16", [("feedback_system.py",
"""    u_upper_bound = torch.max(
        torch.min(torch.from_numpy(u_upper_limit), u_pre_sat_up),
        torch.from_numpy(u_lower_limit))""",
"""    u_upper_bound = torch.min(torch.from_numpy(u_upper_limit),
                              torch.max(u_pre_sat_up, u_pre_sat_lo.clone()))"""),
("feedback_system.py", """    assert (torch.all(u_lower_bound <= u_upper_bound))
""", """    u_lower_bound = torch.min(u_lower_bound, u_upper_bound)
""")],
  "a controller whose unsaturated output lies below the lower limit over the whole state box",
  "the reported range of the control is below the limits and does not contain the saturated control",
  PRE + '''
from neural_network_lyapunov import feedback_system as f, gurobi_torch_mip as g
m = g.GurobiTorchMIP(D)
u, v = m.addVars(1, lb=-10.), m.addVars(1, lb=-10.)
t = lambda *a: torch.tensor(a, dtype=D)
lo, up = f._add_input_saturation_constraint(
    m, u, v, np.array([-1.]), np.array([1.]), t(-4.), t(-3.), D, "B")
assert lo[0] <= -1. <= up[0], (lo, up)
''', G)

S("s12_barrier_safe_sign", "C14", [("barrier.py",
"""        ) - self.barrier_relu(x_star).squeeze() + c
        if safe_flag:
            objective_coeff = [-objective_coeff[0]]
            objective_constant *= -1
""", """        ) - self.barrier_relu(x_star).squeeze()
        if safe_flag:
            objective_coeff = [-objective_coeff[0]]
            objective_constant *= -1
        objective_constant += c
""")],
  "value_as_milp over the safe region (safe_flag=True)",
  "the program of the safe region maximises -h(x) + 2c instead of -h(x)",
  PRE + '''
from neural_network_lyapunov import barrier, relu_system, gurobi_torch_mip as g
n = torch.nn.Sequential(torch.nn.Linear(2, 4), torch.nn.ReLU(), torch.nn.Linear(4, 1)).double()
d = torch.nn.Sequential(torch.nn.Linear(2, 3), torch.nn.ReLU(), torch.nn.Linear(3, 2)).double()
t = lambda *a: torch.tensor(a, dtype=D)
s = relu_system.AutonomousReLUSystem(D, t(-1, -1), t(1, 1), d)
b = barrier.DiscreteTimeBarrier(s, n)
reg = g.MixedIntegerConstraintsReturn()
reg.Ain_input = torch.cat((torch.eye(2, dtype=D), -torch.eye(2, dtype=D)))
reg.rhs_in = t(0.5, 0.5, 0.5, 0.5)
xs = t(0.1, 0.2)
milp, x = b.value_as_milp(xs, 0.3, reg, True)
milp.gurobi_model.optimize()
xv = torch.tensor([v.x for v in x], dtype=D)
assert abs(milp.gurobi_model.ObjVal + b.value(xv, xs, 0.3).item()) < 1e-6
''', G)

S("s13_svd_wide", "C19", [("r_options.py",
"""                (Sigma_diag,
                 torch.zeros((self.R_size[0], self.R_size[1] - self.R_size[0]),
                             dtype=torch.float64)),
                dim=1)""",
"""                (torch.zeros((self.R_size[0], self.R_size[1] - self.R_size[0]),
                             dtype=torch.float64), Sigma_diag),
                dim=1)""")],
  "a wide matrix R (fewer rows than columns) in the SVD parametrization",
  "the zero block of Sigma stands before the diagonal block: R() is not the matrix that was set",
  '''
import numpy as np
from neural_network_lyapunov import r_options
o = r_options.SearchRwithSVDOptions((2, 3), np.array([0.1, 0.2]))
R = np.array([[1., 2., 0.5], [0.3, -1., 2.]])
o.set_variable_value(R)
assert np.allclose(o.R().detach().numpy(), R)
''')

S("s14_second_order_zero_rows", "C29", [("control_affine_system.py",
"""        ret.f_lo = torch.cat((self.x_lo[self.nq:], a_lo))""",
"""        ret.f_lo = torch.cat((self.x_lo[:self.nq], a_lo))""")],
  "a second order system whose position and velocity limits differ",
  "the reported lower bound of f(x) is the position limit, not the velocity limit, in the first nq entries",
  PRE + '''
from neural_network_lyapunov import control_affine_system as c, mip_utils
mk = lambda o: torch.nn.Sequential(torch.nn.Linear(2, 3), torch.nn.ReLU(), torch.nn.Linear(3, o)).double()
t = lambda *a: torch.tensor(a, dtype=D)
s = c.ReluSecondOrderControlAffineSystem(
    t(-1, -5), t(1, 5), t(-1), t(1), mk(1), mk(1), mip_utils.PropagateBoundsMethod.IA)
r = s.mixed_integer_constraints()
f = s.f(t(0, -5))
assert torch.all(f >= r.f_lo - 1e-9) and torch.all(f <= r.f_up + 1e-9)
''', G)

S("s15_index_set_negative_weight", "C28", [("mip_utils.py",
"        elif w[i] < 0 and xhat[i] > (1 - beta_hat) * up[i] + beta_hat * lo[i]:",
"        elif w[i] < 0 and xhat[i] > (1 - beta_hat) * lo[i] + beta_hat * up[i]:")],
  "a negative weight and a fractional binary value other than 1/2",
  "the index set is not the most violated one: a violated facet is missed at the point",
  PRE + '''
import itertools
from neural_network_lyapunov import mip_utils as m
w, b = torch.tensor([1., -2.], dtype=D), torch.tensor(0.3, dtype=D)
lo, up = -torch.ones(2, dtype=D), torch.ones(2, dtype=D)


def rhs(I, x, be):
    a, k, c = m.strengthen_relu_mip_w_indices(0., w, b, lo, up, I)
    return (a @ x + k * be + c).item()


for be in (0.2, 0.5, 0.8):
    for x in itertools.product((-0.9, -0.3, 0.1, 0.7), repeat=2):
        x = torch.tensor(x, dtype=D)
        best = min(rhs(set(I), x, be) for k in range(3) for I in itertools.combinations(range(2), k))
        assert rhs(m.find_index_set_to_strengthen(w, lo, up, x, be), x, be) < best + 1e-9
''', G)

S("s16_pwl_positivity_row", "C21", [("simple_pwl_lyapunov.py",
"""            self.lyapunov_positivity_epsilon *
            sign_v_minus_xstar @ self.x_equilibrium""",
"""            sign_v_minus_xstar @ self.x_equilibrium""")],
  "an equilibrium away from the origin and a positivity epsilon other than 1",
  "the positivity rows require V(v) >= eps1*sign'v - sign'x* instead of eps1*|v - x*|_1",
  '''
import numpy as np
import cvxpy as cp
from neural_network_lyapunov import simple_pwl_lyapunov as s
p = s.SimplePWLLyapunov(1, 1, 0.1, 0.1, np.array([2.]), 0)
k = len(p.constraints)
p.add_lyapunov_positivity_in_mode(0, np.array([[3.]]), np.array([1]))
c = p.constraints[k]
p.c.value = np.array([[0.3]])
p.d.value = np.array([-0.6])
p.s1.value = np.array([0.])
p.s2.value = np.array([0.])
# V(3) = 0.3 >= 0.1 * |3 - 2|: the row holds with s2 = 0
assert np.all(c.value()), c
p.c.value = np.array([[0.05]])
p.d.value = np.array([-0.1])
# V(3) = 0.05 < 0.1
assert not np.all(c.value()), c
''')

S("s17_positivity_loss_weight", "C13", [("lyapunov.py",
"""                R @ (state_samples - x_equilibrium).T, p=1, dim=0)
        if reduction == "mean":
            if weight is not None:
                assert (weight.shape == (state_samples.shape[0], ))
                return torch.mean(weight * torch.nn.HingeEmbeddingLoss(
                    margin=margin, reduction="none")(loss, torch.tensor(-1).to(
                        state_samples.device)))""",
"""                R @ (state_samples - x_equilibrium).T, p=1, dim=0)
        if reduction == "mean":
            if weight is not None:
                assert (weight.shape == (state_samples.shape[0], ))
                return torch.mean(torch.nn.HingeEmbeddingLoss(
                    margin=margin, reduction="none")(
                        weight * loss, torch.tensor(-1).to(
                            state_samples.device)))""")],
  "weighted samples together with a non-zero margin",
  "the weight scales the condition inside the hinge, not the loss of the sample: the margin is not weighted",
  PRE + '''
from neural_network_lyapunov import lyapunov, relu_system
n = torch.nn.Sequential(torch.nn.Linear(2, 4), torch.nn.ReLU(), torch.nn.Linear(4, 1)).double()
d = torch.nn.Sequential(torch.nn.Linear(2, 3), torch.nn.ReLU(), torch.nn.Linear(3, 2)).double()
t = lambda *a: torch.tensor(a, dtype=D)
s = relu_system.AutonomousReLUSystem(D, t(-1, -1), t(1, 1), d)
ly = lyapunov.LyapunovDiscreteTimeHybridSystem(s, n)
x = torch.rand((4, 2), dtype=D)
w = t(1., 2., 3., 4.)
f = lambda x, wt: ly.lyapunov_positivity_loss_at_samples(
    t(0, 0), x, 0.1, 0.5, R=torch.eye(2, dtype=D), margin=0.7, weight=wt)
a = f(x, w)
b = sum(w[i] * f(x[i:i + 1], None) for i in range(4)) / 4
assert torch.allclose(a, b), (a, b)
''', G)

S("s18_hybrid_u_up_default", "C24", [("hybrid_linear_system.py",
"            if torch.all(self.P[i] @ torch.cat((x, u)) <= self.q[i]):\n                next_states.append(self.A[i] @ x + self.B[i] @ u + self.c[i])",
"            if torch.all(self.P[i] @ torch.cat((x, u)) <= self.q[i]):\n                if len(next_states) > 0 and i + 1 == self.num_modes:\n                    break\n                next_states.append(self.A[i] @ x + self.B[i] @ u + self.c[i])")],
  "a state and control on the boundary shared by the last mode and another",
  "possible_dx leaves out the next state of the last mode",
  PRE + '''
from neural_network_lyapunov import hybrid_linear_system as h
s = h.HybridLinearSystem(1, 1, D)
t = lambda *a: torch.tensor(a, dtype=D)
P = torch.tensor([[1., 0.], [-1., 0.], [0., 1.], [0., -1.]], dtype=D)
s.add_mode(t([1.]), t([1.]), t(0.), P, t(0., 1., 1., 1.))
s.add_mode(t([2.]), t([1.]), t(1.), P, t(1., 0., 1., 1.))
r = s.possible_dx(t(0.), t(0.5))
assert len(r) == 2, r
''', G)

S("s19_active_rows_order", "C11", [("gurobi_torch_mip.py",
"            Ain_active_zeta = Ain_zeta[active_ineq_row_indices_list]\n            rhs_in_active = rhs_in[active_ineq_row_indices_list]",
"            Ain_active_zeta = Ain_zeta[active_ineq_row_indices_list]\n            rhs_in_active = rhs_in[sorted(active_ineq_row_indices)]")],
  "a set of active rows whose iteration order is not sorted (row numbers beyond the hash table size)",
  "right hand sides of the active rows are paired with the wrong rows",
  PRE + '''
from neural_network_lyapunov import gurobi_torch_mip as g
m = g.GurobiTorchMILP(D)
x = m.addVars(1, lb=-gurobipy.GRB.INFINITY)
for i in range(40):
    m.addLConstr([torch.tensor([1. + i], dtype=D)], [x], rhs=10. * i, sense="<")
act = {33, 8, 1, 16}
A, b = m.get_active_constraints(act, torch.zeros(0, dtype=D))
assert list(act) != sorted(act)
for k in range(4):
    assert abs(b[k] - 10 * (A[k, 0] - 1)) < 1e-9, (A, b)
''', G)
