HEAD = """
import sys
import numpy as np
import jax, jax.numpy as jnp
from loguru import logger
logger.remove()
def need(ok, what):
    if not ok:
        print("WRONG:", what)
        sys.exit(1)
close = lambda a, b, t=1e-3: np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=t, atol=t)
"""
SEEDS = {}


def seed(k, prop, edits, demo, needs, breaks):
    SEEDS[k] = dict(prop=prop, edits=edits, demo=HEAD + demo, needs=needs, breaks=breaks)


seed("loader-mv-transform-order", "C01", [("laplax/util/loader.py", """    new_output_transform = wrap_function(
        mv.output_transform,
        output_fn=output_fn,
    )
""", """    new_output_transform = wrap_function(
        output_fn or identity,
        output_fn=mv.output_transform,
    )
""")], """
from laplax.util.loader import DataLoaderMV, reduce_add
from laplax.util.flatten import wrap_function
X, Y = jnp.arange(6.0).reshape(3, 2), jnp.zeros(3)
mv = DataLoaderMV(lambda vec, data: data["input"].T @ (data["input"] @ vec), [(X[:1], Y[:1]), (X[1:], Y[1:])], reduce=reduce_add)
v = jnp.array([1.0, -2.0])
plain = X.T @ (X @ v)
once = wrap_function(mv, output_fn=lambda x: 2 * x)
need(close(once(v), 2 * plain), "one output transformation")
twice = wrap_function(once, output_fn=lambda x: x + 1)
need(close(twice(v), 2 * plain + 1), "second output transformation is applied to the result of the first")
need(close(mv(v), plain), "wrapped operator changed")
""", "a streaming product wrapped twice with output transformations that do not commute", "The second output transformation is applied before the first one.")

seed("ggn-default-total", "C02", [("laplax/curv/ggn.py", """        num_total_samples = num_curv_samples

    curv_scaling_factor""", """        num_total_samples = data["input"].shape[0]

    curv_scaling_factor""")], """
from laplax.curv.ggn import create_ggn_mv
fn = lambda input, params: params * input
X, Y, p = jnp.array([[1.0, 2.0], [3.0, 1.0], [0.5, 1.0]]), jnp.zeros((3, 2)), jnp.array([1.0, -1.0])
G = 2 * np.diag((np.asarray(X) ** 2).sum(0))
v = jnp.array([1.0, 2.0])
need(close(create_ggn_mv(fn, p, {"input": X, "target": Y}, "mse")(v), G @ v), "default")
need(close(create_ggn_mv(fn, p, {"input": X, "target": Y}, "mse", num_curv_samples=3)(v), G @ v), "curvature samples = batch")
need(close(create_ggn_mv(fn, p, {"input": X, "target": Y}, "mse", num_curv_samples=12)(v), G @ v), "total samples default to the curvature samples")
need(close(create_ggn_mv(fn, p, {"input": X, "target": Y}, "mse", num_curv_samples=2, num_total_samples=5)(v), 2.5 * (G @ v)), "both given")
""", "num_curv_samples given, different from the batch size, without num_total_samples", "The product is scaled by batch/num_curv_samples instead of one.")

seed("bce-hard-labels", "C03", [("laplax/curv/utils.py", """    return -targets * jax.nn.log_sigmoid(logits) - (1 - targets) * jax.nn.log_sigmoid(
        -logits
    )
""", """    # -log(sigmoid(l)) for the positive class, -log(1 - sigmoid(l)) otherwise.
    return -jax.nn.log_sigmoid(jnp.where(targets > 0.5, logits, -logits))
""")], """
from laplax.curv.hessian import create_hessian_mv
fn = lambda input, params: (params ** 2 * input)[:1]
X = jnp.array([[1.0], [2.0]])
p = jnp.array([0.7])
for Y in (jnp.array([[1.0], [0.0]]), jnp.array([[0.25], [0.6]])):
    def loss(q):
        s = jax.nn.sigmoid(q[0] ** 2 * X)
        return -jnp.sum(Y * jnp.log(s) + (1 - Y) * jnp.log(1 - s))
    h = jax.hessian(loss)(p)
    need(close(create_hessian_mv(fn, p, {"input": X, "target": Y}, "binary_cross_entropy")(jnp.ones(1)), h @ jnp.ones(1)), f"targets {Y.ravel()}")
""", "binary cross-entropy with soft labels and a model that is not linear in its parameters", "Soft labels are rounded; the gradient of the loss and hence the full Hessian is wrong.")

seed("unravel-negative-axis", "C05", [("laplax/util/flatten.py", """    axis %= arr.ndim
    shapes""", """    axis = max(axis, 0)
    shapes""")], """
from laplax.util.flatten import unravel_array_into_pytree
t = {"a": jnp.zeros((2, 2)), "b": jnp.zeros(3)}
A = jnp.arange(42.0).reshape(6, 7)
for ax in (1, -1):
    r = unravel_array_into_pytree(t, ax, A)
    need(r["a"].shape == (6, 2, 2) and close(r["a"].reshape(6, 4), A[:, :4]) and close(r["b"], A[:, 4:]), f"axis {ax}")
B = A.T
for ax in (0, -2):
    r = unravel_array_into_pytree(t, ax, B)
    need(r["a"].shape == (2, 2, 6) and close(r["a"].reshape(4, 6), B[:4]) and close(r["b"], B[4:]), f"axis {ax}")
""", "a negative axis", "Axis -1 is taken as axis 0.")

seed("randn-like-shape-keys", "C10", [("laplax/util/tree.py", """    keys = jax.random.split(key, len(leaves))

    # Generate random numbers
    random_leaves = [
        jax.random.normal(k, shape=leaf.shape)
        for k, leaf in zip(keys, leaves, strict=True)
    ]
""", """    keys = [
        jax.random.fold_in(key, sum(d * 31**i for i, d in enumerate(leaf.shape)))
        for leaf in leaves
    ]

    # Generate random numbers
    random_leaves = [
        jax.random.normal(k, shape=leaf.shape)
        for k, leaf in zip(keys, leaves, strict=True)
    ]
""")], """
from laplax.util.tree import randn_like
t = {"w": jnp.zeros((20, 20)), "v": jnp.zeros((20, 20)), "b": jnp.zeros(3)}
r = randn_like(jax.random.key(1), t)
need(jax.tree.map(jnp.shape, r) == jax.tree.map(jnp.shape, t), "shapes")
c = np.corrcoef(np.asarray(r["w"]).ravel(), np.asarray(r["v"]).ravel())[0, 1]
need(abs(c) < 0.3, "entries of different leaves are the same numbers")
s = randn_like(jax.random.key(1), t)
need(close(r["w"], s["w"]), "same key, same numbers")
""", "a container with two leaves of the same shape", "The random numbers of different leaves coincide: samples are not independent across leaves.")

seed("posterior-memoised-arguments", "C06", [("laplax/curv/cov.py", """    def posterior_fn(
        prior_arguments: PriorArguments,""", """    states: dict[tuple, tuple] = {}

    def posterior_fn(
        prior_arguments: PriorArguments,"""), ("laplax/curv/cov.py", """        # Calculate posterior precision.
        precision = CURVATURE_PRECISION_METHODS[curv_type](
            curv_estimate=curv_estimate,
            prior_arguments=prior_arguments,
            loss_scaling_factor=loss_scaling_factor,
        )

        # Calculate posterior state
        state = CURVATURE_TO_POSTERIOR_STATE[curv_type](precision)
""", """        # Conditioning is expensive: reuse the state of arguments seen before.
        seen = states.get((id(prior_arguments), id(loss_scaling_factor)))
        if seen is None:
            # Calculate posterior precision.
            precision = CURVATURE_PRECISION_METHODS[curv_type](
                curv_estimate=curv_estimate,
                prior_arguments=prior_arguments,
                loss_scaling_factor=loss_scaling_factor,
            )

            # Calculate posterior state
            state = CURVATURE_TO_POSTERIOR_STATE[curv_type](precision)
            seen = (state, prior_arguments, loss_scaling_factor)
            states[id(prior_arguments), id(loss_scaling_factor)] = seen
        state = seen[0]
""")], """
from laplax.curv.cov import set_posterior_fn
C = jnp.array([[2.0, 1.0], [1.0, 3.0]])
pf = set_posterior_fn("full", C, layout=2)
v = jnp.array([1.0, -1.0])
args = {"prior_prec": 1.0}
for t in (1.0, 4.0, 0.5):
    args["prior_prec"] = t
    p = pf(args)
    need(close(p.cov_mv(p.state)(v), jnp.linalg.solve(C + t * jnp.eye(2), v)), f"prior precision {t}")
""", "the same mapping of prior arguments, changed in place between two conditionings", "The second conditioning returns the first posterior.")

seed("diagonal-loss-scaling", "C06", [("laplax/curv/diagonal.py", """    return (
        sigma_squared * curv_estimate
        + prior_prec * jnp.ones_like(curv_estimate.shape[-1])
    ) / loss_scaling_factor
""", """    return (
        sigma_squared * curv_estimate / loss_scaling_factor
        + prior_prec * jnp.ones_like(curv_estimate.shape[-1])
    )
""")], """
from laplax.curv.cov import set_posterior_fn
d = jnp.array([1.0, 2.0, 0.0])
v = jnp.array([1.0, -1.0, 3.0])
for kind, est, full in (("diagonal", d, jnp.diag(d)), ("full", jnp.diag(d), jnp.diag(d))):
    p = set_posterior_fn(kind, est, layout=3)({"prior_prec": 2.0, "sigma_squared": 3.0}, 0.25)
    need(close(p.cov_mv(p.state)(v), jnp.linalg.solve((3 * full + 2 * jnp.eye(3)) / 0.25, v)), kind)
""", "a loss scaling factor other than one with the diagonal curvature", "The loss scaling factor is not applied to the prior part of the precision.")

seed("lanczos-loop-short", "C07", [("laplax/curv/lanczos.py", """        for i in range(maxiter):
            w = matvec(v)
            v, alpha, beta, V = iteration_step(v, w, alpha, beta, V, i)
""", """        i = 0
        while i < maxiter and (i == 0 or beta[i - 1] >= 10 * tol):  # something left to span
            w = matvec(v)
            v, alpha, beta, V = iteration_step(v, w, alpha, beta, V, i)
            i += 1
""")], """
from laplax.curv.lanczos import lanczos_lowrank
U = np.linalg.qr(np.random.default_rng(0).normal(size=(6, 6)))[0]
S = np.array([9.0, 7.0, 5.0, 3.0, 2.0, 1.0])
for scale in (1.0, 1e-5):
    A = jnp.asarray((U * S * scale) @ U.T, jnp.float32)
    for mv_jit in (True, False):
        r = lanczos_lowrank(A, key=jax.random.key(0), rank=6, tol=1e-9, mv_jit=mv_jit)
        need(close((r.U * r.S) @ r.U.T / scale, A / scale, 2e-2), f"mv_jit={mv_jit} scale={scale}")
    r = lanczos_lowrank(A, key=jax.random.key(0), rank=6, tol=1e-6, mv_jit=False)
    q = lanczos_lowrank(A, key=jax.random.key(0), rank=6, tol=1e-6, mv_jit=True)
    need(close(np.sort(r.S) / scale, np.sort(q.S) / scale, 2e-2), f"loop and scan differ at scale {scale}")
""", "mv_jit=False and an operator of small norm", "The loop stops although the recursion could go on.")

seed("gp-kernel-arguments", "C09", [("laplax/eval/pushforward.py", """        return dist_state["jvp"](x1, cov_mv(dist_state["vjp"](x2, vec)[0]))
""", """        return dist_state["jvp"](x2, cov_mv(dist_state["vjp"](x1, vec)[0]))
""")], """
from laplax.curv.cov import set_posterior_fn
from laplax.eval.pushforward import set_posterior_gp_kernel
fn = lambda input, params: jnp.stack([params[0] * input[0] + params[1], params[0] * params[1] * input[0]])
p = jnp.array([1.0, 2.0])
C = jnp.array([[2.0, 1.0], [1.0, 3.0]])
pf = set_posterior_fn("full", C, layout=p)
k, ds = set_posterior_gp_kernel(fn, p, pf, {"prior_prec": 1.0})
S = jnp.linalg.inv(C + jnp.eye(2))
x1, x2 = jnp.array([1.0]), jnp.array([-3.0])
J = lambda x: jax.jacobian(lambda q: fn(x, q))(p)
for v in (jnp.array([1.0, 0.0]), jnp.array([0.0, 1.0])):
    need(close(k(v, x1, x2, ds), J(x1) @ S @ J(x2).T @ v), "kernel between the first and the second input")
""", "different inputs and more than one output", "The kernel is transposed.")

seed("ensemble-std-ddof", "C10", [("laplax/eval/pushforward.py", """        results["pred_std"] = util.tree.std(pred_ensemble, axis=0)
""", """        results["pred_std"] = util.tree.std(
            pred_ensemble, axis=0, ddof=min(1, pred_ensemble.shape[0] - 1)
        )
""")], """
from laplax.curv.cov import set_posterior_fn
from laplax.eval import pushforward as pw
fn = lambda input, params: params * input
p = jnp.array([1.0, 2.0])
pf = set_posterior_fn("diagonal", jnp.array([1.0, 2.0]), layout=p)
kw = dict(model_fn=fn, mean_params=p, posterior_fn=pf, prior_arguments={"prior_prec": 1.0}, key=jax.random.key(0), num_samples=6)
x = jnp.array([1.0, 3.0])
a = pw.set_nonlin_pushforward(**kw, pushforward_fns=[pw.nonlin_setup, pw.nonlin_pred_mean, pw.nonlin_pred_std])(x)
b = pw.set_nonlin_pushforward(**kw, pushforward_fns=[pw.nonlin_setup, pw.nonlin_pred_mean, pw.nonlin_pred_var, pw.nonlin_pred_std])(x)
need(close(a["pred_std"], b["pred_std"]), "deviation with and without the variance")
""", "the deviation computed directly, without the variance before it", "The deviation is the unbiased one although the variance is not.")

seed("special-correction-option", "C11", [("laplax/eval/pushforward.py", """        pred = pred_fn(
            pred_mean, pred_var, use_correction=kwargs.get("use_correction", True)
        )
""", """        pred = pred_fn(pred_mean, pred_var, use_correction=True)
""")], """
from laplax.curv.cov import set_posterior_fn
from laplax.eval import pushforward as pw
from laplax.eval.predictives import laplace_bridge
fn = lambda input, params: params * input
p = jnp.array([1.0, -0.5, 0.2])
pf = set_posterior_fn("diagonal", jnp.array([1.0, 2.0, 3.0]), layout=p)
x = jnp.array([1.0, 2.0, 3.0])
for c in (True, False):
    r = pw.set_lin_pushforward(model_fn=fn, mean_params=p, posterior_fn=pf, prior_arguments={"prior_prec": 1.0}, use_correction=c, special_pred_type="laplace_bridge",
                               pushforward_fns=[pw.lin_setup, pw.lin_pred_mean, pw.lin_pred_var, pw.lin_special_pred_act])(x)
    need(close(r["special_pred_act"], laplace_bridge(r["pred_mean"], r["pred_var"], use_correction=c), 1e-5), f"use_correction={c}")
""", "the option use_correction=False given to the predictive", "The option is ignored.")

seed("patience-against-best", "C12", [("laplax/eval/calibrate.py", """        previous_result = result

""", """        previous_result = (
            result if previous_result is None else min(previous_result, result)
        )

""")], """
from laplax.eval.calibrate import grid_search
seen = []
vals = [1.0, 5.0, 4.0, 3.0, 0.5, 2.0]
def objective(a):
    seen.append(float(a["prior_prec"]))
    return vals[len(seen) - 1]
best = grid_search(jnp.arange(1.0, 7.0), objective, patience=2)
need(len(seen) == 6, f"stopped after {len(seen)} evaluations without two consecutive increases")
need(float(best) == 5.0, "best point")
""", "an objective that decreases again after one increase, without reaching the best value so far", "The search counts points worse than the best one instead of consecutive increases and stops early.")

seed("chi2-without-target-one", "C13", [("laplax/api.py", """            metric=chi_squared_zero,
""", """            metric=partial(chi_squared, averaged=True),
"""), ("laplax/api.py", "    chi_squared_zero,\n", "    chi_squared,\n")], """
from laplax import api
from laplax.curv.cov import set_posterior_fn
fn = lambda input, params: params * input
X = jnp.array([[1.0], [2.0], [-1.0]])
p = jnp.array([1.0])
Y = X + jnp.array([[1.0], [-1.0], [0.5]])
pf = set_posterior_fn("diagonal", jnp.array([0.0]), layout=p)
pa, _ = api.calibration(pf, fn, p, (X, Y), loss_fn="mse", curv_estimate=jnp.array([0.0]), curv_type="diagonal", calibration_objective="chi_squared", log_prior_prec_min=-2.0, log_prior_prec_max=2.0, grid_size=9)
grid = np.logspace(-2, 2, 9)
obj = [abs(np.mean((np.asarray(X - Y)) ** 2 * t / np.asarray(X) ** 2) - 1) for t in grid]
need(abs(float(pa["prior_prec"]) - grid[int(np.argmin(obj))]) < 1e-3 * grid[int(np.argmin(obj))], "calibrated prior precision")
""", "the chi-squared objective on data where the statistic crosses one inside the grid", "Calibration minimises chi^2 itself instead of its distance to one.")

seed("generator-drops-remainder", "C14", [("laplax/eval/utils.py", """    all_results = [evaluate_data(transform(dp)) for dp in data_generator]
""", """    all_results, batch_size = [], None
    for dp in map(transform, data_generator):
        size = dp["input"].shape[0]
        batch_size = size if batch_size is None else batch_size
        if size != batch_size:  # avoid compiling for an incomplete batch
            continue
        all_results.append(evaluate_data(dp))
""")], """
from laplax import api
from laplax.curv.cov import set_posterior_fn
fn = lambda input, params: params * input
X = jnp.arange(5.0).reshape(5, 1) + 1
Y = jnp.zeros((5, 1))
p = jnp.array([1.0])
pf = set_posterior_fn("diagonal", jnp.array([1.0]), layout=p)
class L:
    def __iter__(self):
        return iter([(X[:2], Y[:2]), (X[2:4], Y[2:4]), (X[4:], Y[4:])])
r, _ = api.evaluation(pf, fn, p, {"prior_prec": 1.0}, L())
w, _ = api.evaluation(pf, fn, p, {"prior_prec": 1.0}, (X, Y))
for k in w:
    need(np.shape(r[k]) == np.shape(w[k]) and close(r[k], w[k]), k)
""", "a stream whose batches differ in size (an incomplete last batch)", "The samples of the incomplete batch are dropped.")

seed("bins-confidence-one", "C15", [("laplax/eval/metrics.py", """    indices = jnp.clip(indices, min=0, max=num_bins - 1)
""", """    indices = jnp.clip(indices, min=0, max=num_bins)
""")], """
from laplax.eval.metrics import calculate_bin_metrics, expected_calibration_error
conf = jnp.array([1.0, 0.55, 0.25, 1.0])
corr = jnp.array([0, 1, 1, 0])
prop, c, a = calculate_bin_metrics(conf, corr, num_bins=10)
need(close(prop[9], 0.5) and close(c[9], 1.0) and close(prop.sum(), 1.0), "confidence one belongs to the last bin")
need(close(expected_calibration_error(conf, corr, num_bins=10), 0.5 * 1 + 0.25 * 0.45 + 0.25 * 0.75), "expected calibration error")
""", "a confidence of exactly one", "Samples with confidence one fall out of all bins and are silently dropped.")

seed("calibration-first-wins", "C16", [("laplax/register.py", """    calibration_options[method_name] = method_fn
""", """    calibration_options.setdefault(method_name, method_fn)
""")], """
from laplax import api
from laplax.register import register_calibration_method
from laplax.curv.cov import set_posterior_fn
fn = lambda input, params: params * input
X = jnp.array([[1.0], [2.0]])
p = jnp.array([1.0])
pf = set_posterior_fn("diagonal", jnp.array([1.0]), layout=p)
for k in (1.0, 7.0):
    register_calibration_method("mine", lambda objective, data, k=k, **kw: {"prior_prec": k})
    pa, _ = api.calibration(pf, fn, p, (X, X), loss_fn="mse", curv_estimate=jnp.array([1.0]), curv_type="diagonal", calibration_method="mine")
    need(float(pa["prior_prec"]) == k, f"registration of method {k}")
""", "registering a second method under a name already taken", "The second registration has no effect.")

seed("diagonal-evidence-product", "C17", [("laplax/eval/likelihood.py", """    log_det_H = jnp.sum(jnp.log(posterior_precision))
""", """    log_det_H = jnp.log(jnp.prod(posterior_precision))
""")], """
from laplax.eval.likelihood import marginal_log_likelihood
def mll(P, t, kind):
    d = jnp.full(P, 3.0)
    p = jnp.zeros(P)
    fn = lambda input, params: params[:1] * input
    return marginal_log_likelihood(d if kind == "diagonal" else jnp.diag(d), {"prior_prec": t}, {"input": jnp.ones((1, 1)), "target": jnp.ones((1, 1))}, fn, p, "mse", kind, vmap_over_data=True)
for P, t in ((3, 1.0), (40, 1000.0), (60, 0.001), (12, 10000.0)):
    a, b = mll(P, t, "diagonal"), mll(P, t, "full")
    w = 0.5 * P * np.log(t) - 0.5 - 0.5 * P * np.log(3 + t)
    need(close(a, w, 2e-3) and close(b, w, 2e-3), f"{P} parameters, prior precision {t}: {a} {b} {w}")
""", "so many parameters, or so large precisions, that their product overflows single precision", "The evidence of the diagonal approximation becomes infinite.")

seed("apply-fns-aux-first", "C18", [("laplax/eval/utils.py", """                if v in results:
                    key_value_pairs[k] = results[v]
                elif v in aux:
                    key_value_pairs[k] = aux[v]
""", """                if v in aux:
                    key_value_pairs[k] = aux[v]
                elif v in results:
                    key_value_pairs[k] = results[v]
""")], """
from laplax.eval.utils import apply_fns
r, a = apply_fns(lambda x, **kw: 2 * x, names=["twice"], x="v")({"v": 1.0}, {"v": 10.0})
need(r["twice"] == 2.0 and r["v"] == 1.0 and a["v"] == 10.0, "results take precedence over auxiliary entries")
r, a = apply_fns(lambda x, **kw: 2 * x, names=["twice"], x="v")({}, {"v": 10.0})
need(r["twice"] == 20.0, "entry of the auxiliary mapping")
""", "a name present in the results and in the auxiliary mapping", "The auxiliary entry is read instead of the result.")

seed("single-mapping-transform", "C19", [("laplax/api.py", """    if isinstance(data, (tuple, dict)):
        logger.debug("Using *single batch* curvature evaluation.")
        return partial(mv_fn, data=transform(data))
""", """    if isinstance(data, (tuple, dict)):
        logger.debug("Using *single batch* curvature evaluation.")
        return partial(mv_fn, data=data if "input" in data else transform(data))
""")], """
from laplax.api import GGN
fn = lambda input, params: params * input
X, Y, p = jnp.array([[1.0], [2.0]]), jnp.array([[0.0], [1.0]]), jnp.array([1.5])
v = jnp.ones(1)
need(close(GGN(fn, p, {"input": X, "target": Y}, "mse", verbose_logging=False)(v), 10.0), "mapping")
need(close(GGN(fn, p, {"input": X, "target": Y}, "mse", transform=lambda b: {"input": 2 * b["input"], "target": b["target"]}, verbose_logging=False)(v), 40.0), "custom transformation of a mapping")
need(close(GGN(fn, p, (Y, X), "mse", transform=lambda b: {"input": b[1], "target": b[0]}, verbose_logging=False)(v), 10.0), "custom transformation of a pair")
""", "a custom transformation together with one mapping that already has the standard keys", "The custom transformation is skipped.")
