"""Third set of planted changes (see mkseed.py)."""
import sys
sys.path.insert(0, "/verif/tools")
sys.argv = sys.argv[:1] + (sys.argv[1:] or ["none"])
import seeds2
from seeds2 import S, PRE, G, WB

seeds2.only.discard("none")


S("s20_slip_stone_height", "C20", [("slip_hybrid_linear_system.py",
"        q[0, 0] = -self.slip.l0 * cos_theta - stepping_stone.height -\\\n",
"        q[0, 0] = -self.slip.l0 * cos_theta + stepping_stone.height -\\\n")],
  "a stepping stone whose height is not zero",
  "the row 'the foot starts above the stone' is off by twice the height of the stone",
  PRE + '''
from neural_network_lyapunov import slip_hybrid_linear_system as h
from neural_network_lyapunov import spring_loaded_inverted_pendulum as p
s = h.SlipHybridLinearSystem(80., 1., 20000., 9.81)
st = p.SteppingStone(-np.inf, np.inf, 0.5)
x, th = np.array([0., 1.7, 3.]), 0.3
P, q = s.apex_map_linear_approximation(x, st, th)[6:]
slack = q[:, 0] - P @ np.append(x, th)
gap = x[1] - np.cos(th) - 0.5
assert np.min(np.abs(slack - gap)) < 1e-9, (slack, gap)
''', G)

S("s21_controller_equilibrium_detached", "C17", [("feedback_system.py",
"""            self.controller_network(self.x_equilibrium) + self.u_equilibrium
        if len(x.shape) == 1:""",
"""            self.controller_network(self.x_equilibrium).detach() + \\
            self.u_equilibrium
        if len(x.shape) == 1:""")],
  "back-propagating a loss through the control of the network controller",
  "the gradient misses how the network's value at the equilibrium depends on the weights",
  PRE + '''
from neural_network_lyapunov import feedback_system as f, relu_system, utils
fw = utils.setup_relu((3, 2, 2), None, bias=True, negative_slope=0.1, dtype=D)
ctl = utils.setup_relu((2, 3, 1), None, bias=True, negative_slope=0.1, dtype=D)
x_eq, u_eq = torch.tensor([.1, .2], dtype=D), torch.tensor([.3], dtype=D)
lo, up = torch.tensor([-2., -2.], dtype=D), torch.tensor([2., 2.], dtype=D)
sys_f = relu_system.ReLUSystemGivenEquilibrium(
    D, lo, up, torch.tensor([-9.], dtype=D), torch.tensor([9.], dtype=D), fw,
    x_eq, u_eq, True)
fb = f.FeedbackSystem(sys_f, ctl, x_eq, u_eq, np.array([-9.]), np.array([9.]))
x = torch.tensor([.5, -.4], dtype=D)
b = ctl[0].bias
fb.compute_u(x).sum().backward()
g = b.grad.clone()
num = torch.zeros_like(b)
for i in range(3):
    v = []
    for d in (1e-6, -1e-6):
        with torch.no_grad():
            b[i] += d
            v.append(fb.compute_u(x).sum().item())
            b[i] -= d
    num[i] = (v[0] - v[1]) / 2e-6
assert torch.allclose(g, num, atol=1e-6), (g, num)
''', G)

S("s22_lp_bound_status", "C10", [("relu_to_optimization.py",
"""            linear_output_lo = -np.inf
        elif prog.gurobi_model.status == gurobipy.GRB.Status.INFEASIBLE:
            linear_output_lo = np.inf
        return""",
"""            linear_output_lo = -np.inf
        else:
            linear_output_lo = np.inf
        return""")],
  "the solver stopping the minimization of a neuron bound without a proof (time limit, numerical trouble)",
  "a lower bound of +inf is reported for a program that was not solved",
  PRE + '''
from neural_network_lyapunov import mip_utils, relu_to_optimization as r, utils
net = utils.setup_relu((2, 2, 2, 1), None, bias=True, negative_slope=0.1,
                       dtype=D)
fp = r.ReLUFreePattern(net, D)
opt = gurobipy.Model.optimize


def stopped(self, *a):
    r = opt(self, *a)
    if self._sense == gurobipy.GRB.MINIMIZE:
        self.status = gurobipy.GRB.Status.TIME_LIMIT
    return r


gurobipy.Model.optimize = stopped
try:
    b = fp._compute_layer_bound(
        torch.tensor([-1., -1.], dtype=D), torch.tensor([1., 1.], dtype=D),
        mip_utils.PropagateBoundsMethod.MIP)
except (UnboundLocalError, AssertionError, Exception) as e:
    print("refused", repr(e))
else:
    assert False, b
''', G)

S("s23_best_network_by_reference", "C22", [("train_lyapunov_barrier.py",
"""        params["lyap_relu_params"] = copy.deepcopy(
            self.lyapunov_hybrid_system.lyapunov_relu.state_dict())""",
"""        params["lyap_relu_params"] = \\
            self.lyapunov_hybrid_system.lyapunov_relu.state_dict()""")],
  "an epoch after the best one changing the Lyapunov network",
  "the network kept as the best one follows the later steps: the last, not the best, network is left in place",
  PRE + '''
from neural_network_lyapunov import lyapunov, r_options, relu_system, utils
from neural_network_lyapunov import train_lyapunov_barrier as t
dyn = utils.setup_relu((2, 3, 2), None, bias=True, negative_slope=0.1, dtype=D)
x_eq = torch.zeros(2, dtype=D)
s = relu_system.AutonomousReLUSystemGivenEquilibrium(
    D, torch.tensor([-1., -1.], dtype=D), torch.tensor([1., 1.], dtype=D),
    dyn, x_eq)
V = utils.setup_relu((2, 4, 1), None, bias=True, negative_slope=0.1, dtype=D)
L = lyapunov.LyapunovDiscreteTimeHybridSystem(s, V)
tr = t.Trainer()
tr.add_lyapunov(L, 0.1, x_eq, r_options.FixedROptions(
    torch.eye(2, dtype=D)))
tr.learning_rate = 2.
tr.lyapunov_positivity_epsilon = 0.5
tr.lyapunov_derivative_epsilon = 0.5
seen = []
total = tr.total_loss


def loss(*a, **k):
    r = total(*a, **k)
    if a[0].shape[0] == 10:
        # the first epoch is the best one
        r.loss = torch.tensor(float(len(seen)), dtype=D)
        seen.append([p.detach().clone() for p in V.parameters()])
    return r


tr.total_loss = loss
tr.train_lyapunov_on_samples(torch.rand(50, 2, dtype=D) * 2 - 1, 4, 7)
end = [p.detach() for p in V.parameters()]
assert any(not torch.equal(a, b) for a, b in zip(seen[0], seen[-1]))
assert all(torch.equal(a, b) for a, b in zip(seen[0], end))
''', WB)

S("s24_next_image_prefix", "C25", [("dynamics_learning.py",
"            x_next_ = torch.cat((x[:, x_next.shape[1]:, :, :], x_next), dim=1)",
"            x_next_ = torch.cat((x[:, :x_next.shape[1], :, :], x_next), dim=1)")],
  "a data set whose next sample is a single image, with two different current images",
  "the prediction is compared with the older instead of the last current image followed by the next one",
  PRE + '''
import types
from neural_network_lyapunov import dynamics_learning as d
o = d.LatentSpaceDynamicsLearning.__new__(d.LatentSpaceDynamicsLearning)
o.opt = d.DynamicsLearningOptions({"use_bce": False, "use_variational": False})
o.decoded_equilibrium = None
o.writer = None
o.log = lambda *a: None
x, x_next = torch.rand(3, 2, 2, 2, dtype=D), torch.rand(3, 1, 2, 2, dtype=D)
truth = torch.cat((x[:, 1:], x_next), dim=1)
o.vae_forward = lambda y: (y, truth, None, None, None)
assert o.dynamics_loss(x, x_next).item() == 0
''', dict(G, **{"pybullet_utils_stub.txt": ""}) if False else G)

S("s25_margin_sign", "C26", [("continuous_time_lyapunov.py",
"""            hinge_loss_all = torch.nn.HingeEmbeddingLoss(
                margin=margin,
                reduction="none")(-(Vdot + epsilon * V),
                                  torch.tensor(-1.).to(state_samples.device))
        else:
            raise NotImplementedError

        if reduction == "mean":
            if weight is None:""",
"""            hinge_loss_all = torch.clamp(Vdot + epsilon * V, min=0.) + margin
        else:
            raise NotImplementedError

        if reduction == "mean":
            if weight is None:""")],
  "a positive margin and a sample satisfying the condition by more than the margin",
  "the margin is added to the loss of every sample instead of tightening the condition",
  PRE + '''
from neural_network_lyapunov import continuous_time_lyapunov as c, lyapunov
from neural_network_lyapunov import relu_system, utils
dyn = utils.setup_relu((2, 3, 2), None, bias=True, negative_slope=0.1, dtype=D)
s = relu_system.AutonomousReLUSystemGivenEquilibrium(
    D, torch.tensor([-1., -1.], dtype=D), torch.tensor([1., 1.], dtype=D),
    dyn, torch.zeros(2, dtype=D), False)
V = utils.setup_relu((2, 3, 1), torch.zeros(13, dtype=D), bias=True,
                     negative_slope=0.1, dtype=D)
L = c.LyapunovContinuousTimeSystem(s, V)
x = torch.tensor([[.5, -.4], [.9, .3]], dtype=D)
r = L.lyapunov_derivative_loss_at_samples_and_next_states(
    0.5, 0.1, x, -5 * x, torch.zeros(2, dtype=D),
    lyapunov.ConvergenceEps.ExpLower, R=torch.eye(2, dtype=D), margin=0.1)
# V = 0.5 |x|_1, dV/dt + 0.1 V = -4.9 V < -0.1: no loss
assert r.item() == 0, r
''', G)

S("s26_boundary_faces", "C30", [("utils.py",
"        samples_in_box[i, boundary_face_index] = lo[\n            boundary_face_index] if boundary_face_rand[i] < 0 else hi[",
"        samples_in_box[i, boundary_face_index] = lo[\n            boundary_face_index] if boundary_face_rand[i] < -0.5 else hi[")],
  "sampling the lower face of the first half of the coordinates",
  "the lower faces of the first coordinates are never sampled: |r| * x_dim is their index only while |r| < 0.5",
  PRE + '''
from neural_network_lyapunov import utils
lo, hi = torch.tensor([-1., -2.], dtype=D), torch.tensor([3., 4.], dtype=D)
x = utils.uniform_sample_on_box_boundary(lo, hi, 2000)
for i in range(2):
    assert torch.any(x[:, i] == lo[i]) and torch.any(x[:, i] == hi[i]), i
''', G)

S("s27_setup_relu_inplace", "C18", [("utils.py",
"        layers[2 * i + 1] = torch.nn.LeakyReLU(negative_slope)",
"        layers[2 * i + 1] = torch.nn.LeakyReLU(negative_slope, inplace=True)")],
  "evaluating the layers one at a time, as the bound propagation does, with a negative pre-activation bound",
  "the activation overwrites the bounds of its input: the pre-activation bounds of the encoding become post-activation bounds",
  PRE + '''
from neural_network_lyapunov import mip_utils, utils
net = utils.setup_relu((2, 3, 1), None, bias=True, negative_slope=0.1, dtype=D)
lo = torch.tensor([-2., -1., .5], dtype=D)
up = torch.tensor([-1., 3., 4.], dtype=D)
lo0, up0 = lo.clone(), up.clone()
a, b = mip_utils.propagate_bounds(net[1], lo, up)
assert torch.equal(lo, lo0) and torch.equal(up, up0), (lo, up)
''', G)

S("s28_hybrid_bounds_narrowed", "C18", [("hybrid_linear_system.py",
"""            x_lo_all = np.maximum(self.x_lo_all, x_lo_np)
        else:""",
"""            x_lo_all = np.maximum(self.x_lo_all,
                                  x_lo_np,
                                  out=self.x_lo_all)
        else:""")],
  "asking for the constraints within a smaller box first, and for the constraints of the whole domain afterwards",
  "the first question narrows the domain of the system for good",
  PRE + '''
from neural_network_lyapunov import hybrid_linear_system as h
s = h.AutonomousHybridLinearSystem(2, D)
P = torch.cat((torch.eye(2), -torch.eye(2))).to(D)
s.x_lo.append(np.array([-1., -1.]))
s.x_up.append(np.array([1., 1.]))
s.x_lo_all, s.x_up_all = np.array([-1., -1.]), np.array([1., 1.])
s.A.append(torch.eye(2, dtype=D))
s.g.append(torch.zeros(2, dtype=D))
s.P.append(P)
s.q.append(torch.ones(4, dtype=D))
s.num_modes = 1
a = s.mixed_integer_constraints()
s.mixed_integer_constraints(np.array([.5, .5]), np.array([1., 1.]))
b = s.mixed_integer_constraints()
assert torch.equal(a.rhs_in, b.rhs_in) and torch.equal(
    a.Ain_binary, b.Ain_binary)
''', G)

S("s29_value_moves_samples", "C18", [("lyapunov.py",
"""                V_lambda * torch.norm(R @ (
                    x - x_equilibrium).T, p=1,
                    dim=0)""",
"""                V_lambda * torch.norm(R @ x.sub_(x_equilibrium).T, p=1,
                                      dim=0)""")],
  "a batch of states and an equilibrium away from the origin",
  "the batch is translated by the equilibrium: the next use of the same samples sees other states",
  PRE + '''
from neural_network_lyapunov import lyapunov, relu_system, utils
dyn = utils.setup_relu((2, 3, 2), None, bias=True, negative_slope=0.1, dtype=D)
s = relu_system.AutonomousReLUSystem(
    D, torch.tensor([-1., -1.], dtype=D), torch.tensor([1., 1.], dtype=D), dyn)
V = utils.setup_relu((2, 3, 1), None, bias=True, negative_slope=0.1, dtype=D)
L = lyapunov.LyapunovDiscreteTimeHybridSystem(s, V)
x = torch.rand(5, 2, dtype=D)
x_eq = torch.tensor([.3, -.2], dtype=D)
with torch.no_grad():
    a = L.lyapunov_value(x, x_eq, .5)
    b = L.lyapunov_value(x, x_eq, .5)
assert torch.allclose(a, b), (a, b)
''', G)

S("s30_range_single", "C23", [("mip_utils.py",
"""    output_lb = torch.empty(b.shape, dtype=b.dtype)
    output_ub = torch.empty(b.shape, dtype=b.dtype)
""",
"""    output_lb = torch.empty(b.shape)
    output_ub = torch.empty(b.shape)
""")],
  "an affine layer whose exact range is not representable in single precision",
  "the bounds are rounded to single precision: the lower bound exceeds values the layer takes",
  PRE + '''
from neural_network_lyapunov import mip_utils
A = torch.tensor([[1., -1.]], dtype=D)
b = torch.tensor([.1], dtype=D)
lo = torch.tensor([0., 0.], dtype=D)
up = torch.tensor([1., .7], dtype=D)
l, u = mip_utils.compute_range_by_IA(A, b, lo, up)
for x in (torch.tensor([0., .7], dtype=D), torch.tensor([1., 0.], dtype=D)):
    y = (A @ x + b)[0]
    assert l[0] <= y + 1e-12 and y <= u[0] + 1e-12, (l, u, y)
    assert min(y - l[0], u[0] - y) < 1e-12, (l, u, y)
''', G)

S("s31_rhs_single", "C23", [("gurobi_torch_mip.py",
"            rhs_tensor = torch.tensor(rhs, dtype=self.dtype)\n",
"            rhs_tensor = torch.as_tensor(rhs)\n")],
  "a right-hand side given as a number that single precision cannot hold",
  "the constraint data used for gradients differs from the constraint given",
  PRE + '''
from neural_network_lyapunov import gurobi_torch_mip as g
mip = g.GurobiTorchMILP(D)
x = mip.addVars(1, lb=0., vtype=gurobipy.GRB.CONTINUOUS)
mip.addLConstr([torch.tensor([1.], dtype=D)], [x], sense="<", rhs=.1)
rhs = [float(r) for r in mip.rhs_in]
assert any(abs(abs(r) - .1) < 1e-12 for r in rhs), rhs
''', G)

S("s32_scalar_bound_single", "C23", [("gurobi_torch_mip.py",
"            ub = torch.full((num_vars, ), ub, dtype=self.dtype)\n",
"            ub = torch.full((num_vars, ), float(ub))\n")],
  "a scalar upper bound that single precision cannot hold",
  "the recorded bound row (and the bound given to the solver) is rounded",
  PRE + '''
from neural_network_lyapunov import gurobi_torch_mip as g
mip = g.GurobiTorchMILP(D)
mip.addVars(2, lb=0., ub=.7, vtype=gurobipy.GRB.CONTINUOUS)
rhs = [float(r) for r in mip.rhs_in]
assert any(abs(r - .7) < 1e-12 for r in rhs), rhs
''', G)

S("s33_default_binary_relaxed", "C31", [("relu_system.py",
"""                                mip: gurobi_torch_mip.GurobiTorchMIP,
                                x_var,
                                x_next_var,
                                u_var,
                                slack_var_name,
                                binary_var_name,
                                additional_u_lo: torch.Tensor = None,
                                additional_u_up: torch.Tensor = None,
                                binary_var_type=gurobipy.GRB.BINARY,
""",
"""                                mip: gurobi_torch_mip.GurobiTorchMIP,
                                x_var,
                                x_next_var,
                                u_var,
                                slack_var_name,
                                binary_var_name,
                                additional_u_lo: torch.Tensor = None,
                                additional_u_up: torch.Tensor = None,
                                binary_var_type=gurobipy.GRB.CONTINUOUS,
""")],
  "building the dynamics of a second order residue system without naming the binary type",
  "the activation variables are continuous: the program is a relaxation and its states are no trajectory",
  PRE + '''
from neural_network_lyapunov import relu_system, utils, gurobi_torch_mip as g
net = utils.setup_relu((3, 4, 1), None, bias=True, negative_slope=0.1, dtype=D)
net[0].weight.data = torch.tensor([[1., -2., .5]] * 4, dtype=D)
net[0].bias.data = torch.zeros(4, dtype=D)
s = relu_system.ReLUSecondOrderResidueSystemGivenEquilibrium(
    D, torch.tensor([-1., -1.], dtype=D), torch.tensor([1., 1.], dtype=D),
    torch.tensor([-1.], dtype=D), torch.tensor([1.], dtype=D), net,
    torch.tensor([0.], dtype=D), torch.tensor([0.], dtype=D), .1, [0, 1])
mip = g.GurobiTorchMILP(D)
x = mip.addVars(2, lb=-gurobipy.GRB.INFINITY)
xn = mip.addVars(2, lb=-gurobipy.GRB.INFINITY)
u = mip.addVars(1, lb=-gurobipy.GRB.INFINITY)
r = s.add_dynamics_constraint(mip, x, xn, u, "s", "b")
mip.gurobi_model.update()
kinds = {getattr(b, "vtype", None) or b.VType for b in r.binary}
assert len(r.binary) == 4 and kinds == {gurobipy.GRB.BINARY}, kinds
''', G)

S("s34_gradient_default_tolerance", "C31", [("utils.py",
"""                          x: torch.Tensor,
                          *,
                          zero_tol: float = 0.) -> torch.Tensor:
""",
"""                          x: torch.Tensor,
                          *,
                          zero_tol: float = 1e-3) -> torch.Tensor:
""")],
  "a state whose activation is within 1e-3 of a kink, no tolerance given",
  "a gradient the network does not have at that state is returned as one of its gradients",
  PRE + '''
from neural_network_lyapunov import utils
net = utils.setup_relu((1, 1, 1), None, bias=True, negative_slope=0., dtype=D)
net[0].weight.data = torch.tensor([[1.]], dtype=D)
net[0].bias.data = torch.tensor([0.], dtype=D)
g = utils.relu_network_gradient(net, torch.tensor([5e-4], dtype=D))
assert g.shape[0] == 1, g
''', G)

S("s35_stale_equilibrium_output", "C32", [("lyapunov.py",
"""        relu_at_equilibrium = self.lyapunov_relu.forward(x_equilibrium)
        if x.shape == (self.system.x_dim, ):
            # A single state.
""",
"""        # The equilibrium does not move, no need to evaluate it every time.
        if getattr(self, "_x_eq", None) is not x_equilibrium:
            self._x_eq = x_equilibrium
            self._relu_at_equilibrium = self.lyapunov_relu.forward(
                x_equilibrium)
        relu_at_equilibrium = self._relu_at_equilibrium
        if x.shape == (self.system.x_dim, ):
            # A single state.
""")],
  "asking the same Lyapunov object twice with a training step in between",
  "the Lyapunov value subtracts the network output at the equilibrium from before the step, so V(x*) != 0",
  PRE + '''
from neural_network_lyapunov import lyapunov, relu_system, utils
f = utils.setup_relu((2, 3, 2), None, bias=True, negative_slope=0.1, dtype=D)
v = utils.setup_relu((2, 3, 1), None, bias=True, negative_slope=0.1, dtype=D)
xe = torch.tensor([.2, .1], dtype=D)
lo = torch.tensor([-1., -1.], dtype=D)
s = relu_system.AutonomousReLUSystemGivenEquilibrium(D, lo, -lo, f, xe, True)
l = lyapunov.LyapunovDiscreteTimeHybridSystem(s, v)
assert abs(l.lyapunov_value(xe, xe, .5)) < 1e-9
with torch.no_grad():
    for p in v.parameters():
        p += 1.
assert abs(l.lyapunov_value(xe, xe, .5)) < 1e-9, l.lyapunov_value(xe, xe, .5)
''', G)

S("s36_memoized_bounds", "C32", [("relu_to_optimization.py",
"""        self.model = model
""",
"""        # The network is only read here; keep our own copy such that nobody
        # changes it while a program is being built.
        import copy
        self.model = copy.deepcopy(model)
""")],
  "changing the network parameters in place after the ReLU encoding object was made",
  "the mixed-integer encoding keeps describing the network as it was before the training step",
  PRE + '''
from neural_network_lyapunov import relu_to_optimization as ro, utils, mip_utils
v = utils.setup_relu((2, 3, 1), None, bias=True, negative_slope=0.1, dtype=D)
p = ro.ReLUFreePattern(v, D)
lo = torch.tensor([-1., -1.], dtype=D)
def enc(q):
    return q.output_constraint(lo, -lo, mip_utils.PropagateBoundsMethod.IA)
enc(p)
with torch.no_grad():
    for q in v.parameters():
        q += 1.
a, b = enc(p), enc(ro.ReLUFreePattern(v, D))
assert torch.allclose(a.rhs_in, b.rhs_in), (a.rhs_in, b.rhs_in)
assert torch.allclose(a.Aout_slack, b.Aout_slack)
''', G)

S("s37_controller_output_memo", "C32", [("feedback_system.py",
"""        relu_x_equilibrium = self.controller_network(self.x_equilibrium)

""",
"""        relu_x_equilibrium = self._controller_at(self.x_equilibrium)

"""), ("feedback_system.py",
"""    def _add_network_controller_mip_constraint_given_relu_bound(
            self, prog, x_var,""",
"""    @functools.lru_cache(maxsize=None)
    def _controller_at(self, x):
        return self.controller_network(x)

    def _add_network_controller_mip_constraint_given_relu_bound(
            self, prog, x_var,"""), ("feedback_system.py",
"""import numpy as np
""",
"""import functools

import numpy as np
""")],
  "building the closed-loop program twice with a change of the controller in between",
  "the controller constraint of the second program uses the controller's output at the equilibrium from before the change",
  PRE + '''
from neural_network_lyapunov import feedback_system, relu_system, utils
from neural_network_lyapunov import gurobi_torch_mip as g
import numpy as np
f = utils.setup_relu((3, 3, 2), None, bias=True, negative_slope=0.1, dtype=D)
c = utils.setup_relu((2, 3, 1), None, bias=True, negative_slope=0.1, dtype=D)
lo = torch.tensor([-1., -1.], dtype=D)
xe, ue = torch.zeros(2, dtype=D), torch.zeros(1, dtype=D)
fs = relu_system.ReLUSystemGivenEquilibrium(
    D, lo, -lo, torch.tensor([-1.], dtype=D), torch.tensor([1.], dtype=D), f,
    xe, ue, True)
def sys():
    return feedback_system.FeedbackSystem(
        fs, c, xe, ue, np.array([-1.]), np.array([1.]))
def rhs(s):
    mip = g.GurobiTorchMILP(D)
    x = mip.addVars(2, lb=-gurobipy.GRB.INFINITY)
    xn = mip.addVars(2, lb=-gurobipy.GRB.INFINITY)
    s.add_dynamics_mip_constraint(mip, x, xn, "u", "fs", "fb", "cs", "cb")
    return torch.stack([r.reshape(()).detach() for r in mip.rhs_eq])
s = sys()
rhs(s)
with torch.no_grad():
    for p in c.parameters():
        p += .3
a, b = rhs(s), rhs(sys())
assert torch.allclose(a, b), (a, b)
''', G)
