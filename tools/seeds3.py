HEAD = """
import sys
import numpy as np
import jax, jax.numpy as jnp
from loguru import logger
logger.remove()
def need(ok, what):
    if not ok:
        print("WRONG:", what)
        sys.exit(1)
close = lambda a, b, t=1e-3: np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=t, atol=t)
"""
SEEDS = {}


def seed(k, prop, edits, demo, needs, breaks):
    SEEDS[k] = dict(prop=prop, edits=edits, demo=HEAD + demo, needs=needs, breaks=breaks)


seed("calibration-name-lowered", "C16", [("laplax/register.py", """    calibration_options[method_name] = method_fn""", """    calibration_options[method_name.lower()] = method_fn""")], """
from laplax.api import calibration, calibration_options
from laplax.curv.cov import set_posterior_fn
from laplax.register import register_calibration_method
before = dict(calibration_options)
fit = lambda objective, data, **kw: {"prior_prec": 2.5}
register_calibration_method("myFit", fit)
need({k: v for k, v in calibration_options.items() if k not in before} == {"myFit": fit}, "exactly the new name")
p, est = jnp.array([0.4, 0.7]), jnp.array([1.0, 2.0])
f = lambda input, params: input @ params[:, None]
a, _ = calibration(set_posterior_fn("diagonal", est, layout=p), f, p, (jnp.ones((3, 2)), jnp.ones((3, 1))), loss_fn="mse", curv_estimate=est, curv_type="diagonal", calibration_method="myFit")
need(float(a["prior_prec"]) == 2.5, "the registered method is called")
""", "a calibration method whose name has capital letters", "The method is stored under the lower-cased name.")

seed("lin-samples-whole-chunks", "C09", [("laplax/eval/pushforward.py", """    results["samples"] = jax.lax.map(
        lambda i: add(results["pred_mean"], jac_mv(get_weight_samples(i))),
        jnp.arange(num_samples),
        batch_size=kwargs.get(
            "lin_samples_batch_size", kwargs.get("weight_batch_size")
        ),
    )
""", """    chunk = kwargs.get("lin_samples_batch_size", kwargs.get("weight_batch_size"))
    chunk = min(chunk or 1, max(num_samples, 1))
    indices = jnp.arange(num_samples // chunk * chunk).reshape(-1, chunk)
    samples = jax.lax.map(
        jax.vmap(lambda i: add(results["pred_mean"], jac_mv(get_weight_samples(i)))),
        indices,
    )
    results["samples"] = samples.reshape(-1, *samples.shape[2:])
""")], """
from laplax.curv.cov import set_posterior_fn
from laplax.eval import pushforward as P
f = lambda input, params: jnp.stack([params[0] * input[0] ** 2, params[1] * input[0]])
p = jnp.array([0.4, 0.7])
post = set_posterior_fn("full", jnp.array([[3.0, 1.0], [1.0, 2.0]]), layout=p)
want = None
for n, bs in ((6, None), (6, 2), (6, 6), (6, 9), (6, 4)):
    kw = {} if bs is None else {"lin_samples_batch_size": bs}
    s = P.set_lin_pushforward(f, p, post, {"prior_prec": 1.0}, key=jax.random.key(1), num_samples=n, pushforward_fns=[P.lin_setup, P.lin_samples], **kw)(jnp.array([2.0]))["samples"]
    want = s if want is None else want
    need(s.shape == (n, 2) and close(s, want), f"{n} samples, batch size {bs}")
""", "a sample batch size that does not divide the number of samples", "The last, incomplete batch of samples is left out.")

seed("variance-column-order", "C09", [("laplax/eval/pushforward.py", """    results["pred_var"] = pred_var.reshape(pred_mean.shape)
    return results, aux""", """    results["pred_var"] = pred_var.reshape(pred_mean.shape[::-1]).T
    return results, aux""")], """
from laplax.curv.cov import set_posterior_fn
from laplax.eval import pushforward as P
for shape in ((4,), (2, 3), (3, 1)):
    n = int(np.prod(shape))
    C = jnp.arange(1.0, 2 * n + 1).reshape(n, 2) ** 0.5
    f = lambda input, params: ((C @ params) * input[0]).reshape(shape)
    post = set_posterior_fn("full", jnp.array([[3.0, 1.0], [1.0, 2.0]]), layout=2)
    post = set_posterior_fn("full", jnp.array([[3.0, 1.0], [1.0, 2.0]]), layout=jnp.zeros(2))
    r = P.set_lin_pushforward(f, jnp.zeros(2), post, {"prior_prec": 1.0}, key=jax.random.key(1), num_samples=2, pushforward_fns=[P.lin_setup, P.lin_pred_mean, P.lin_pred_var])(jnp.array([2.0]))
    S = np.linalg.inv(np.array([[4.0, 1.0], [1.0, 3.0]]))
    need(close(r["pred_var"], np.diag(4 * np.asarray(C) @ S @ np.asarray(C).T).reshape(shape)), f"variance of outputs of shape {shape}")
""", "a model whose outputs form a matrix", "The variances of a matrix-shaped output are permuted.")

seed("evidence-without-loss-scaling", "C17", [("laplax/eval/likelihood.py", """        prior_arguments,
        loss_scaling_factor=loss_scaling_factor,
    )
""", """        prior_arguments,
    )
""")], """
from laplax.eval import marginal_log_likelihood
X, Y, p = jnp.array([[1.0, 2.0], [3.0, 1.0], [0.5, 1.0]]), jnp.array([[1.0], [2.0], [0.0]]), jnp.array([0.4, 0.7])
f = lambda input, params: input @ params[:, None]
H = np.array([[3.0, 1.0], [1.0, 2.0]])
for l in (1.0, 2.0, 0.5):
    t = 1.5
    got = marginal_log_likelihood(jnp.asarray(H), {"prior_prec": t}, {"input": X, "target": Y}, f, p, "mse", "full", vmap_over_data=False, loss_scaling_factor=l)
    loss = float(jnp.sum((f(X, p) - Y) ** 2))
    lj = -0.5 * loss - 0.5 * t * float(p @ p) - np.log(2 * np.pi) + np.log(t)
    want = lj + np.log(2 * np.pi) - 0.5 * np.linalg.slogdet((H + t * np.eye(2)) / l)[1]
    need(close(got, want), f"loss scaling {l}")
""", "a loss scaling other than one", "The posterior precision in the evidence ignores the loss scaling.")

seed("crps-bounded-residual", "C15", [("laplax/eval/metrics.py", """    pred_norm = (target.flatten() - pred_mean.flatten()) / pred_std_flat
""", """    pred_norm = (target.flatten() - pred_mean.flatten()) / pred_std_flat
    pred_norm = jnp.clip(pred_norm, -8.0, 8.0)  # the normal tails vanish beyond
"""), ("laplax/eval/metrics.py", """    term_1 = 1 / jnp.sqrt(jnp.pi)
""", """    term_1 = 1.0 / jnp.sqrt(jnp.pi)
""")], """
from scipy.stats import norm
from laplax.eval.metrics import crps_gaussian
for z in (0.3, 2.0, 7.0, 12.0, -40.0):
    m, s, y = np.array([1.0, 2.0]), np.array([0.5, 0.25]), None
    y = m + z * s
    want = np.mean(s * (z * (2 * norm.cdf(z) - 1) + 2 * norm.pdf(z) - 1 / np.sqrt(np.pi)))
    need(close(crps_gaussian(jnp.asarray(m), jnp.asarray(s), jnp.asarray(y)), want), f"residual of {z} standard deviations")
""", "a target more than eight predicted standard deviations away", "The standardised residual is bounded.")

seed("accuracy-last-k", "C15", [("laplax/eval/metrics.py", """    max_k = min(max(top_k), pred.shape[1])""", """    max_k = min(top_k[-1], pred.shape[1])""")], """
from laplax.eval.metrics import accuracy
pred = jnp.array([[0.1, 0.2, 0.3, 0.4], [0.4, 0.3, 0.2, 0.1], [0.25, 0.4, 0.05, 0.3]])
t = jnp.array([3, 2, 0])
want = {1: 100 / 3, 2: 100 / 3, 3: 100.0}
for ks in ((1,), (1, 2), (1, 2, 3), (3, 1), (2, 3, 1)):
    need(close(accuracy(pred, t, top_k=ks), [want[k] for k in ks]), f"top_k {ks}")
""", "several k given in decreasing order", "The larger k are computed with the last k's candidates.")

seed("calibration-zero-exponent", "C13", [("laplax/api.py", """        log_prior_prec_max = calibration_kwargs.get("log_prior_prec_max", 3.0)
""", """        log_prior_prec_max = calibration_kwargs.get("log_prior_prec_max") or 3.0
""")], """
from laplax.api import calibration
from laplax.curv.cov import set_posterior_fn
p, est = jnp.array([0.001, 0.001]), jnp.array([1.0, 2.0])
f = lambda input, params: input @ params[:, None]
for hi in (3.0, 1.0, -1.0, 0.0):
    a, _ = calibration(set_posterior_fn("diagonal", est, layout=p), f, p, (jnp.ones((3, 2)), jnp.zeros((3, 1))), loss_fn="mse", curv_estimate=est, curv_type="diagonal", calibration_objective="marginal_log_likelihood", vmap_over_data=False, log_prior_prec_min=-2.0, log_prior_prec_max=hi, grid_size=6)
    # the evidence increases with the prior precision here
    need(close(a["prior_prec"], 10.0 ** hi), f"largest candidate 10^{hi}")
""", "a grid that ends at 10^0", "The upper end 0 is taken for not given.")

seed("generator-compiled-once", "C14", [("laplax/eval/utils.py", """def evaluate_metrics_on_generator(
""", """_COMPILED = {}  # compiled evaluations, by prediction function and names


def evaluate_metrics_on_generator(
"""), ("laplax/eval/utils.py", """    evaluate_data = jax.jit(evaluate_data)
""", """    key = (pred_fn, vmap_over_data, tuple(sorted(metrics_dict or {})), len(metrics))
    evaluate_data = _COMPILED.setdefault(key, jax.jit(evaluate_data))
""")], """
from laplax.eval.utils import evaluate_metrics_on_generator
pred = lambda x: {"pred_mean": 2 * x}
data = lambda: iter([{"input": jnp.arange(3.0), "target": jnp.ones(3)}])
sq, ab = (lambda pred_mean, target, **k: (pred_mean - target) ** 2), (lambda pred_mean, target, **k: abs(pred_mean - target))
for fn, want in ((sq, [1, 1, 9]), (ab, [1, 1, 3]), (sq, [1, 1, 9])):
    r = evaluate_metrics_on_generator(pred, data(), metrics_dict={"err": fn})
    need(close(r["err"][0], want), "the metric that was asked for")
""", "two evaluations of one prediction function with different metrics of the same names", "The first evaluation's compiled metrics are used again.")

seed("mapping-by-position", "C19", [("laplax/api.py", """            raise ValueError(msg)
        return identity

    msg = f"Unsupported""", """            raise ValueError(msg)
        return lambda b: input_target_split(tuple(b.values()))

    msg = f"Unsupported""")], """
from laplax.api import laplace
X, Y, p = jnp.array([[1.0, 2.0], [3.0, 1.0]]), jnp.array([[1.0, 0.0], [2.0, 1.0]]), jnp.array([0.4, 0.7])
model = lambda input, params: input * params
for data in ((X, Y), {"input": X, "target": Y}, {"target": Y, "input": X}, [{"target": Y, "input": X}] * 1):
    kw = {}
    if isinstance(data, list):
        from torch.utils.data import DataLoader
        data = DataLoader(data, batch_size=None)
    _, est = laplace(model, p, data, loss_fn="mse", curv_type="diagonal")
    need(close(est, 2 * np.sum(np.asarray(X) ** 2, 0)), f"data as {list(data) if isinstance(data, dict) else type(data).__name__}")
""", "a mapping whose target comes before its input", "Inputs and targets are exchanged.")

seed("mean-field-1-bounded", "C11", [("laplax/eval/predictives.py", """    s_sum = var[:, None] + var[None, :]  # [C, C]
    exp_terms = jnp.exp(mu_diff / jnp.sqrt(1 + LAMBDA_0 * s_sum))  # [C, C]
""", """    s_sum = var[:, None] + var[None, :]  # [C, C]
    scaled = jnp.clip(mu_diff / jnp.sqrt(1 + LAMBDA_0 * s_sum), -15.0, 15.0)
    exp_terms = jnp.exp(scaled)  # [C, C]
""")], """
from laplax.eval.predictives import mean_field_1_predictive
for s in (1.0, 5.0, 20.0, 30.0):
    m, v = np.array([s, 0.0, -s]), np.array([0.1, 0.2, 0.05])
    d = (m[None] - m[:, None]) / np.sqrt(1 + np.pi / 8 * (v[None] + v[:, None]))
    need(np.allclose(mean_field_1_predictive(jnp.asarray(m), jnp.asarray(v)), 1 / np.exp(d).sum(1), rtol=1e-3, atol=0), f"logits of size {s}")
""", "logits further apart than fifteen scaled units", "Small probabilities are bounded below by exp(-15).")

seed("grid-skips-arithmetic-errors", "C12", [("laplax/eval/calibrate.py", """        except ValueError as error:""", """        except (ValueError, ArithmeticError) as error:""")], """
from laplax.eval.calibrate import grid_search
for E in (KeyError, RuntimeError, TypeError, OverflowError, ZeroDivisionError, FloatingPointError):
    def objective(a):
        if a["prior_prec"] == 2:
            raise E("broken")
        return float(a["prior_prec"])
    try:
        grid_search(np.array([1.0, 2.0, 3.0]), objective)
    except E:
        continue
    need(False, f"{E.__name__} propagates")
""", "an objective that raises an arithmetic error (division by zero, overflow)", "The error is swallowed and the point counts as infinitely bad.")

seed("unflatten-casts-to-layout", "C05", [("laplax/util/flatten.py", """                a.reshape(sh)
                for a, sh in zip(flat_vector_split, all_shapes, strict=True)
""", """                a.reshape(leaf.shape).astype(leaf.dtype)
                for a, leaf in zip(flat_vector_split, flat, strict=True)
""")], """
from laplax.util.flatten import create_pytree_flattener, flatten_function
for tree in ({"w": jnp.zeros((2, 2)), "b": jnp.zeros(1)}, {"w": jnp.zeros((2, 2)), "b": jnp.zeros(1, dtype=jnp.int32)}):
    flatten, unflatten = create_pytree_flattener(tree)
    v = jnp.array([1.5, 0.25, -0.75, 3.0, 0.125])
    need(close(flatten(unflatten(v)), v), f"round trip through {tree['b'].dtype} leaves")
""", "a layout that contains integer leaves and a fractional flat vector", "The entries are truncated to the leaf's dtype.")

seed("concat-axis-dropped", "C01", [("laplax/util/loader.py", """    new_state = concat(state, res_new, axis=axis)""", """    new_state = concat(state, res_new)""")], """
from functools import partial
from laplax.util.loader import execute_with_data_loader, reduce_concat, identity
X = jnp.arange(12.0).reshape(6, 2)
for axis, f, want in ((0, lambda data: 2 * data, 2 * X), (1, lambda data: data.T, X.T), (-1, lambda data: data.T, X.T)):
    for cuts in ([6], [3, 3], [2, 2, 2]):
        b = [X[i * cuts[0]:(i + 1) * cuts[0]] for i in range(len(cuts))]
        r = execute_with_data_loader(f, b, transform=identity, reduce=partial(reduce_concat, axis=axis))
        need(r.shape == want.shape and close(r, want), f"axis {axis}, batches {cuts}")
""", "concatenation along another axis than the first", "The axis is ignored.")

seed("full-cholesky-jitter", "C06", [("laplax/curv/full.py", """    Lf = jnp.linalg.cholesky(jnp.flip(prec, axis=(-2, -1)))
""", """    jitter = 1e-5 * jnp.eye(prec.shape[-1], dtype=prec.dtype)
    Lf = jnp.linalg.cholesky(jnp.flip(prec + jitter, axis=(-2, -1)))
""")], """
from laplax.curv.cov import set_posterior_fn
C = np.array([[3.0, 1.0], [1.0, 2.0]])
for scale in (1.0, 1e2, 1e-3, 1e-5):
    p = set_posterior_fn("full", jnp.asarray(scale * C), layout=2)({"prior_prec": scale})
    got = jax.vmap(p.cov_mv(p.state))(jnp.eye(2)) * scale
    need(close(got, np.linalg.inv(C + np.eye(2)), 5e-3), f"precision of size {scale}")
""", "a precision of small absolute size", "A constant is added to the precision before it is factorised.")

seed("given-hessian-unmapped", "C02", [("laplax/curv/ggn.py", """    loss_hessian_mv = loss_hessian_mv or create_loss_hessian_mv(loss_fn)

    if vmap_over_data:
        loss_hessian_mv = jax.vmap(loss_hessian_mv)
""", """    given = loss_hessian_mv is not None
    loss_hessian_mv = loss_hessian_mv or create_loss_hessian_mv(loss_fn)
    if vmap_over_data and not given:  # a given product acts on the whole batch
        loss_hessian_mv = jax.vmap(loss_hessian_mv)
""")], """
from laplax.curv.ggn import create_ggn_mv
X = jnp.array([[1.0, 2.0], [3.0, 1.0], [0.5, -1.0]])
W = jnp.array([[0.4, 0.7], [0.1, -0.3]])
f = lambda input, params: params @ input
H = jnp.array([[2.0, 1.0], [1.0, 3.0]])
for h, M in ((lambda jv, pred, target: 2 * jv, 2 * jnp.eye(2)), (lambda jv, pred, target, **k: H @ jv, H)):
    V = jnp.array([[1.0, -1.0], [2.0, 0.5]])
    want = sum(jnp.outer(M @ V @ x, x) for x in X)
    try:
        got = create_ggn_mv(f, W, {"input": X, "target": jnp.zeros((3, 2))}, loss_hessian_mv=h)(V)
    except Exception as e:
        need(False, f"raises {type(e).__name__}")
    need(close(got, want), "the given loss Hessian per sample")
""", "a given loss-Hessian product that couples the outputs", "It is applied to the whole batch instead of each sample.")
