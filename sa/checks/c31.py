"""Leaving an optional argument or option out means its documented default."""
import ast

from ..poly import Rat
from ..values import FuncV, BoundV, Undecided, AbsRaise
from ..interp import PKG
from .common import where

TITLE = "Defaults"
EXPLANATION = (
    "For every public function with optional arguments, the value its "
    "parameter is bound to when the argument is left out (the default "
    "expression, evaluated in its module) is compared with the documented "
    "default; overriding and duck-typed implementations of one operation "
    "must agree on their defaults; and the options of a freshly built "
    "trainer are compared with the documented ones.")
ASSUMPTIONS = (
    "a default None that the function resolves itself is not decided here",
    "what the function does with the value is the other checks' subject")
MIN_OBS = 60

B, C, INF = "B", "C", float("inf")
IA, F64, NPF64 = "<IA>", "<float64>", "<npfloat64>"
SAMPLE = {"margin": 0., "reduction": "mean"}
NB = {"network_bound_propagate_method": IA}
BV = {"binary_var_type": B}
LS = {"loss_minimal_decrement": 1e-4, "min_step_size_decrease": 1e-4,
      "step_size_reduction": .2, "min_improvement": 0.}
DT = {"dtype": F64}
L = "lyapunov.LyapunovHybridLinearSystem."
LD = "lyapunov.LyapunovDiscreteTimeHybridSystem."
CT = "continuous_time_lyapunov.LyapunovContinuousTimeSystem."
CH = "continuous_time_lyapunov.LyapunovContinuousTimeHybridSystem."
G = "gurobi_torch_mip."
RS = "relu_system."
DL = "dynamics_learning."
DOC = {
    "barrier.DiscreteTimeBarrier.derivative_as_milp": BV,
    "barrier.DiscreteTimeBarrier.derivative_loss_at_samples_and_next_states":
    SAMPLE,
    CT + "lyapunov_derivative": {"zero_tol": 0.},
    CT + "lyapunov_derivative_as_milp": BV,
    CT + "lyapunov_derivative_loss_at_samples_and_next_states":
    dict(SAMPLE, zero_tol=1e-8),
    CH + "lyapunov_derivative_loss_at_samples": SAMPLE,
    CH + "lyapunov_derivative_loss_at_samples_and_next_states": SAMPLE,
    "control_affine_system.train_control_affine_forward_model":
    {"batch_size": 50, "verbose": True},
    "dynamic_system._add_system_constraint": BV,
    DL + "DynamicsLearning.reset_optimizer": {"lyapunov_only": False},
    DL + "DynamicsLearning.lyapunov_loss": {
        "lyap_pos_threshold": 0., "lyap_der_lo_threshold": 0.,
        "lyap_der_up_threshold": 0.},
    DL + "DynamicsLearning.train": {"validate": False, "save_rate": 0},
    DL + "LatentSpaceDynamicsLearning.rollout": {"decode_intermediate": False},
    DL + "LatentSpaceDynamicsLearning.rollout_loss":
    {"decode_intermediate": False},
    "feedback_system.FeedbackSystem.add_dynamics_mip_constraint": BV,
    G + "GurobiTorchMIP.addVars": {"lb": 0, "ub": INF, "vtype": C},
    G + "GurobiTorchMIP.add_mixed_integer_linear_constraints": BV,
    G + "GurobiTorchMIP.get_active_constraint_indices_and_binary_val":
    {"solution_number": 0, "active_constraint_tolerance": 1e-6},
    G + "GurobiTorchMIP.compute_objective_from_mip_data_and_solution":
    {"solution_number": 0, "active_constraint_tolerance": 1e-6,
     "penalty": 0., "objective_tol": 1e-3},
    G + "GurobiTorchMILP.compute_objective_from_mip_data": {"penalty": 0.},
    G + "GurobiTorchMIQP.compute_objective_from_mip_data": {"penalty": 1e-8},
    "hybrid_linear_system.HybridLinearSystem.add_mode":
    {"check_polyhedron_bounded": False},
    "hybrid_linear_system.HybridLinearSystem.add_dynamics_constraint": BV,
    "hybrid_linear_system.AutonomousHybridLinearSystem.add_mode":
    {"check_polyhedron_bounded": False},
    "line_search_adam.LineSearchAdam.__init__":
    dict(LS, lr=1e-3, betas=(.9, .999), eps=1e-8, weight_decay=0,
         amsgrad=False),
    "line_search_gd.LineSearchGD.__init__":
    dict(LS, momentum=0, dampening=0, weight_decay=0, nesterov=False),
    L + "add_lyap_relu_output_constraint": BV,
    L + "add_state_error_l1_constraint":
    {"binary_var_type": B, "binary_for_zero_input": False},
    L + "lyapunov_positivity_loss_at_samples": SAMPLE,
    LD + "lyapunov_derivative_as_milp": BV,
    LD + "lyapunov_derivative_loss_at_samples": SAMPLE,
    LD + "lyapunov_derivative_loss_at_samples_and_next_states": SAMPLE,
    "pybullet_data_generation.PybulletSampleGenerator.__init__": {
        "image_width": 80, "image_height": 80, "grayscale": False,
        "camera_eye_position": [0, -3, 0],
        "camera_target_position": [0, 0, 0],
        "camera_up_vector": [0, 0, 1], "gui": False, "dtype": F64},
    "pybullet_data_generation.show_sample": {"clamp": False},
    RS + "_add_dynamics_constraint_autonmous": BV,
    RS + "_add_dynamics_mip_constraints": BV,
    RS + "AutonomousReLUSystem.__init__": NB,
    RS + "AutonomousReLUSystem.add_dynamics_constraint": BV,
    RS + "AutonomousReLUSystemGivenEquilibrium.__init__":
    dict(NB, discrete_time_flag=True),
    RS + "AutonomousReLUSystemGivenEquilibrium.add_dynamics_constraint": BV,
    RS + "AutonomousResidualReLUSystemGivenEquilibrium.__init__":
    dict(NB, discrete_time_flag=True),
    RS + "AutonomousResidualReLUSystemGivenEquilibrium."
    "add_dynamics_constraint": BV,
    RS + "ReLUSystem.add_dynamics_constraint": BV,
    RS + "ReLUSystemGivenEquilibrium.add_dynamics_constraint": BV,
    RS + "ReLUSecondOrderSystemGivenEquilibrium.add_dynamics_constraint": BV,
    RS + "ReLUSecondOrderResidueSystemGivenEquilibrium."
    "add_dynamics_constraint": BV,
    "spring_loaded_inverted_pendulum.SLIP.__init__": {"dtype": NPF64},
    "train_utils.project_gradient": {"retain_graph": False},
    "training_log.TrainingLog.__init__":
    {"prefix": "", "first_value_only": False},
    "training_log.TrainingLog.get_copy": {"keep_writer": False},
    "utils.replace_binary_continuous_product": DT,
    "utils.leaky_relu_gradient_times_x": DT,
    "utils.replace_relu_with_mixed_integer_constraint": DT,
    "utils.replace_leaky_relu_mixed_integer_constraint": DT,
    "utils.absolute_value_as_mixed_integer_constraint":
    {"binary_for_zero_input": False},
    "utils.torch_to_numpy": {"squeeze": True},
    "utils.train_model": {"batch_size": 100, "num_epoch": 1000,
                          "learning_rate": 1e-3, "print_loss": False},
    "utils.setup_relu": {"negative_slope": .01, "bias": True, "dtype": F64},
    "utils.get_gurobi_terminate_if_callback": {"threshold": 0.},
    "utils.train_approximator": {"verbose": True},
    "utils.relu_network_gradient": {"zero_tol": 0.},
    "utils.l1_gradient": {"zero_tol": 0.},
    "utils.l_infinity_gradient": {"max_tol": 0.},
}
TR = "train_lyapunov_barrier."
OPTIONS = {
    TR + "Trainer": {
        "lyapunov_positivity_sample_cost_weight": 1.,
        "lyapunov_positivity_sample_margin": 0.,
        "lyapunov_derivative_sample_cost_weight": 1.,
        "lyapunov_derivative_sample_margin": 0.,
        "lyapunov_positivity_mip_cost_weight": 10.,
        "lyapunov_positivity_mip_pool_solutions": 1,
        "lyapunov_derivative_mip_cost_weight": 10.,
        "lyapunov_derivative_mip_pool_solutions": 1,
        "boundary_value_gap_mip_cost_weight": 0.,
        "output_flag": False,
        "lyapunov_positivity_epsilon": .01,
        "lyapunov_derivative_epsilon": .01,
        "lyapunov_positivity_convergence_tol": 1e-6,
        "lyapunov_derivative_convergence_tol": 3e-5,
        "barrier_value_mip_pool_solutions": 1,
        "barrier_derivative_mip_pool_solutions": 1,
        "learning_rate": .003, "max_iterations": 1000,
        "optimizer": "Adam", "enable_wandb": False,
        "save_network_path": None, "save_network_iterations": 10,
        "momentum": 0.,
        "add_positivity_adversarial_state": False,
        "add_derivative_adversarial_state": False,
        "max_sample_pool_size": 500, "search_controller": True,
        "lyapunov_positivity_mip_term_threshold": None,
        "lyapunov_derivative_mip_term_threshold": None,
        "lyapunov_positivity_mip_warmstart": False,
        "lyapunov_derivative_mip_warmstart": False,
        "add_adversarial_state_only": True,
        "sample_loss_reduction": "mean",
        "derivative_mip_num_strengthen_pts": 0,
        "derivative_mip_strengthen_binary": False,
        "unsafe_regions": [], "safe_regions": [],
    },
    TR + "Trainer.AdversarialTrainingOptions": {
        "num_batches": 10, "num_epochs_per_mip": 20,
        "positivity_samples_pool_size": 10000,
        "derivative_samples_pool_size": 10000,
        "adversarial_cluster_radius": INF,
        "perturb_derivative_sample_count": 0,
        "perturb_derivative_sample_std": 1e-3,
    },
    TR + "TrainValueApproximator": {
        "max_epochs": 100, "convergence_tolerance": 1e-3,
        "learning_rate": .02,
    },
}


def same(ip, have, want):
    """True / False / None (undecided)"""
    if want is None:
        return True if have is None else None
    if have is None:
        return None                     # resolved inside the function
    if want is IA:
        return have == ip.getattr(ip.get("mip_utils",
                                         "PropagateBoundsMethod"), "IA")
    if want is F64 or want is NPF64:
        d = str(have)
        return True if "float64" in d or d.endswith("double") else \
            False if "float" in d or "int" in d or "half" in d else None
    if isinstance(want, (list, tuple)):
        try:
            it = ip.iterate(have)
        except (Undecided, AbsRaise, AttributeError):
            return None
        it = list(it)
        if len(it) != len(want):
            return False
        r = [same(ip, x, y) for x, y in zip(it, want)]
        return False if False in r else None if None in r else True
    if isinstance(want, str):
        return have == want if isinstance(have, str) else None
    if isinstance(want, bool):
        return have is want if isinstance(have, bool) else None
    if isinstance(have, bool) or isinstance(have, str):
        return False
    try:
        if want == INF:
            return have == INF or str(have) == "inf"
        a, b = Rat.of(have), Rat.of(want)
    except (TypeError, Undecided):
        return None
    return a == b


def params(f):
    """{name: default value}; whether the function takes **kwargs"""
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    out = {}
    for i, n in enumerate(names):
        j = i - (len(names) - len(f.defaults))
        if j >= 0:
            out[n] = f.defaults[j]
    for x, d, s in zip(a.kwonlyargs, f.kwdefaults, a.kw_defaults):
        if s is not None:
            out[x.arg] = d
    return out, [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def func(ip, q):
    m, n = q.split(".", 1)
    f = ip.get(m, n)
    if isinstance(f, BoundV):
        f = f.func
    return f if isinstance(f, FuncV) else None


def one(ck, q, doc):
    key = "default." + q
    ip = ck.interp()
    w = where(ck.repo, *q.split(".", 1))
    try:
        f = func(ip, q)
    except (Undecided, AbsRaise) as e:
        ck.ob(key, None, "documented default", "undecided: %s" % e, w)
        return
    if f is None or f.decor:
        ck.ob(key, None, "documented default", "undecided: wrapped", w)
        return
    ip.stats["functions"].add(q)
    ds, names = params(f)
    read = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name)}
    for p, v in sorted(doc.items()):
        k = "%s.%s" % (key, p)
        if p not in ds:
            # another signature: callers' code decides, not this check
            ck.ob(k, None if p not in names else False,
                  "an optional argument stays optional",
                  "%s has no default for %s" % (q, p), w)
            continue
        if p not in read:
            ck.ob(k, True, "documented default", "%s is not used" % p, w)
            continue
        r = same(ip, ds[p], v)
        ck.ob(k, r, "left out, the argument means its documented default",
              "%s: %s defaults to %r, documented %r" % (q, p, ds[p], v), w)


def options(ck, q, doc):
    key = "option." + q
    ip = ck.interp()
    w = where(ck.repo, *q.split(".", 1))

    def go():
        o = ip.call(ip.get(*q.split(".", 1)), [], {})
        for n, v in sorted(doc.items()):
            h = ip.getattr(o, n)
            r = (h is None) if v is None else same(ip, h, v)
            if v is not None and h is None:
                r = False
            ck.ob("%s.%s" % (key, n), r,
                  "an option never set has its documented value",
                  "%s().%s is %r, documented %r" % (q, n, h, v), w)
    ck.attempt(key, go, where=w)


FAMILY = ("add_dynamics_constraint", "lyapunov_derivative_as_milp",
          "lyapunov_derivative_loss_at_samples",
          "lyapunov_derivative_loss_at_samples_and_next_states",
          "mixed_integer_constraints", "add_mode",
          "compute_objective_from_mip_data")


def families(ck):
    """implementations of one operation agree on the defaults they share"""
    fam = {}
    for m, t in sorted(ck.repo.modules.items()):
        tree = getattr(t, "tree", t)
        if not isinstance(tree, ast.Module) or ".examples." in m or \
                ".test" in m:
            continue
        for c in ast.walk(tree):
            if isinstance(c, ast.ClassDef):
                for f in c.body:
                    if isinstance(f, ast.FunctionDef) and f.name in FAMILY:
                        fam.setdefault(f.name, []).append(
                            (m[len(PKG) + 1:], c.name))
    for n, l in sorted(fam.items()):
        ip, seen = ck.interp(), {}
        for m, c in l:
            q = "%s.%s.%s" % (m, c, n)
            try:
                f = func(ip, q)
            except (Undecided, AbsRaise):
                f = None
            if f is None or f.decor:
                continue
            for p, v in params(f)[0].items():
                if n == "compute_objective_from_mip_data":
                    continue            # MILP and MIQP differ by design
                w = where(ck.repo, m, c + "." + n)
                k = "family.%s.%s.%s" % (n, c, p)
                if p not in seen:
                    seen[p] = (v, q)
                    continue
                a, b = v, seen[p][0]
                try:
                    ok = (a == b or str(a) == str(b) or
                          Rat.of(a) == Rat.of(b))
                except (TypeError, Undecided):
                    ok = None if a is None or b is None else False
                if a is None or b is None:
                    ok = True if a is b else None
                ck.ob(k, ok, "implementations of one operation agree on "
                      "the default of an argument",
                      "%s: %s=%r but %s: %r" % (q, p, a, seen[p][1], b), w)


def check(ck):
    for q, doc in sorted(DOC.items()):
        one(ck, q, doc)
    for q, doc in sorted(OPTIONS.items()):
        options(ck, q, doc)
    ck.attempt("families", lambda: families(ck))
