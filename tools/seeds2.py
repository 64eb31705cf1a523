HEAD = """
import sys
import numpy as np
import jax, jax.numpy as jnp
from loguru import logger
logger.remove()
def need(ok, what):
    if not ok:
        print("WRONG:", what)
        sys.exit(1)
close = lambda a, b, t=1e-3: np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=t, atol=t)
"""
SEEDS = {}


def seed(k, prop, edits, demo, needs, breaks):
    SEEDS[k] = dict(prop=prop, edits=edits, demo=HEAD + demo, needs=needs, breaks=breaks)



seed("to-dense-chunk-clamp", "C04", [("laplax/util/mv.py", """    return jax.tree.map(
        jnp.transpose,
        jax.lax.map(mv, identity, batch_size=kwargs.get("to_dense_batch_size")),
    )  # jax""", """    size = layout if isinstance(layout, int) else get_size(layout)
    chunk = min(kwargs.get("to_dense_batch_size") or size, size)
    images = [
        jax.vmap(mv)(
            jax.tree.map(
                lambda e, k=k: jax.lax.dynamic_slice_in_dim(e, k, chunk), identity
            )
        )
        for k in range(0, size, chunk)
    ]
    images = jax.tree.map(lambda *x: jnp.concatenate(x)[:size], *images)
    return jax.tree.map(
        jnp.transpose,
        images,
    )  # jax""")], """
from laplax.util.mv import to_dense
A = jnp.arange(25.0).reshape(5, 5) ** 2
for bs in (None, 1, 5, 7, 2, 3, 4):
    kw = {} if bs is None else {"to_dense_batch_size": bs}
    need(close(to_dense(lambda v: A @ v, 5, **kw), A), f"flat, batch size {bs}")
    T = {"a": jnp.zeros(2), "b": jnp.zeros(3)}
    f = lambda t: A @ jnp.concatenate([t["a"], t["b"]])
    need(close(to_dense(f, T, **kw), A), f"tree, batch size {bs}")
""", "a batch size that does not divide the number of basis vectors", "dynamic_slice clamps the last chunk: its columns are shifted.")

seed("diagonal-narrow-index", "C04", [("laplax/util/mv.py", """        diag_elem, jnp.arange(size), batch_size""", """        diag_elem,
        jnp.arange(size, dtype=jnp.uint8),
        batch_size""")], """
from laplax.util.mv import diagonal
for n in (3, 200, 300):
    d = jnp.sin(jnp.arange(n) + 1.0)
    need(close(diagonal(lambda v: d * v, n), d), f"size {n}")
    need(close(diagonal(lambda t: {"x": d[:-1] * t["x"], "y": d[-1] * t["y"]}, {"x": jnp.zeros(n - 1), "y": jnp.zeros(())}), d), f"tree of size {n}")
""", "more than 256 parameters", "The index of the basis vectors wraps around.")

seed("full-zero-noise", "C06", [("laplax/curv/full.py", """    sigma_squared = prior_arguments.get("sigma_squared", 1.0)""", """    sigma_squared = prior_arguments.get("sigma_squared") or 1.0""")], """
from laplax.curv.cov import set_posterior_fn
A = jnp.array([[2.0, 1.0], [1.0, 3.0]])
for k, est in (("full", A), ("diagonal", jnp.array([2.0, 3.0]))):
    f = set_posterior_fn(k, est, layout=2)
    C = np.asarray(A) if k == "full" else np.diag([2.0, 3.0])
    for s in (1.0, 0.5, 0.0):
        p = f({"prior_prec": 4.0, "sigma_squared": s})
        S = np.stack([np.asarray(p.cov_mv(p.state)(e)) for e in np.eye(2)])
        need(close(S @ (s * C + 4 * np.eye(2)), np.eye(2)), f"{k} noise variance {s}")
    p = f({"prior_prec": 4.0})
    need(close(np.stack([np.asarray(p.cov_mv(p.state)(e)) for e in np.eye(2)]) @ (C + 4 * np.eye(2)), np.eye(2)), "default")
""", "noise variance exactly zero with a dense estimate", "A zero noise variance is treated as not given (one).")

seed("lanczos-start-epsilon", "C07", [("laplax/curv/lanczos.py", """    v0 = b / b_norm
""", """    v0 = b / (b_norm + 1e-8)
""")], """
from laplax.curv.lanczos import lanczos_lowrank
A = jnp.diag(jnp.array([5.0, 3.0, 2.0, 1.0]))
for scale in (1.0, 1e3, 1e-6, 1e-9):
    r = lanczos_lowrank(A, b=scale * jnp.ones(4), rank=4)
    U, S = np.asarray(r.U, float), np.asarray(r.S, float)
    need(close(U.T @ U, np.eye(4)), f"orthonormal directions, start of scale {scale}")
    need(close(U @ np.diag(S) @ U.T, A), f"operator, start of scale {scale}")
""", "a starting vector of very small norm", "The first direction is not normalised.")

seed("lowrank-enables-x64", "C08", [("laplax/curv/low_rank.py", """    }[low_rank_method](mv, layout=layout, **kwargs)
""", """    }[low_rank_method]
    if kwargs.get("mv_dtype") == jnp.float64:
        jax.config.update("jax_enable_x64", True)  # trace the operator in 64-bit
    low_rank_terms = low_rank_terms(mv, layout=layout, **kwargs)
""")], """
from laplax.curv.cov import estimate_curvature
d = jnp.arange(1.0, 13.0)
for kind in ("lanczos", "lobpcg"):
    for kw in ({}, {"mv_dtype": jnp.float32}, {"calc_dtype": jnp.float32}, {"return_dtype": jnp.float64}, {"mv_dtype": jnp.float64}):
        estimate_curvature(kind, lambda v: d.astype(v.dtype) * v, layout=12, key=jax.random.key(1), rank=2, **kw)
        need(jax.config.read("jax_enable_x64") is False, f"mode after {kind} with {kw}")
        need(jnp.zeros(2).dtype == jnp.float32, "default precision")
""", "a low-rank estimate with the operator precision requested as float64", "The 64-bit mode stays on after the estimate.")

seed("lanczos-return-precision", "C08", [("laplax/curv/lanczos.py", """        return_dtype = jnp.float64 if original_float64_enabled else jnp.float32
""", """        return_dtype = mv_dtype
""")], """
from laplax.curv.lanczos import lanczos_lowrank
A = np.diag([5.0, 3.0, 2.0, 1.0])
f = lambda v: jnp.asarray(A, v.dtype) @ v
for x64 in (False, True):
    with jax.experimental.enable_x64(x64):
        want = jnp.float64 if x64 else jnp.float32
        for mv in (None, jnp.float32, jnp.float64):
            r = lanczos_lowrank(f, layout=4, key=jax.random.key(1), rank=2, mv_dtype=mv)
            need(r.U.dtype == want and r.S.dtype == want, f"precision of the result: mode {x64}, operator {mv}")
""", "operator precision requested, different from the default, result precision not", "Results come back in the operator's precision instead of the default one.")

seed("mean-field-2-diagonal-shortcut", "C11", [("laplax/eval/pushforward.py", """        if "pred_cov" not in results:
            pred_cov = lin""", """        if "pred_cov" not in results and "pred_var" in results:
            results["pred_cov"] = jnp.diag(results["pred_var"])
        elif "pred_cov" not in results:
            pred_cov = lin""")], """
from functools import partial
from laplax.curv.cov import set_posterior_fn
from laplax.eval import pushforward as P
from laplax.eval.predictives import mean_field_2_predictive
W = jnp.array([[1.0, 2.0], [0.5, -1.0], [2.0, 1.0]])
fn = lambda input, params: W @ params * input
est = jnp.array([[2.0, 1.0], [1.0, 3.0]])
post = set_posterior_fn("full", est, layout=jnp.zeros(2))
S = np.linalg.inv(np.asarray(est) + np.eye(2))
C = 4 * np.asarray(W) @ S @ np.asarray(W).T
m = 2 * W @ jnp.array([0.3, -0.2])
want = mean_field_2_predictive(m, jnp.asarray(C))
sp = partial(P.lin_special_pred_act, special_pred_type="mean_field_2")
for fns in ([P.lin_setup, P.lin_pred_mean, sp], [P.lin_setup, P.lin_pred_cov, P.lin_pred_var, sp], [P.lin_setup, P.lin_pred_mean, P.lin_pred_var, sp]):
    pf = P.set_lin_pushforward(model_fn=fn, mean_params=jnp.array([0.3, -0.2]), posterior_fn=post, prior_arguments={"prior_prec": 1.0}, pushforward_fns=fns)
    need(close(pf(2.0)["special_pred_act"], want), [getattr(f, "__name__", "special") for f in fns])
""", "mean field 2 after the variance, but not the covariance, was requested", "The covariance is replaced by the diagonal matrix of the variances.")

seed("patience-skips-infinite", "C12", [("laplax/eval/calibrate.py", """        previous_result = result

""", """        if result != float("inf"):  # compare with the last proper result
            previous_result = result

""")], """
from laplax.eval.calibrate import grid_search
def run(vals, **kw):
    seen = []
    def obj(a):
        seen.append(int(a["prior_prec"]))
        if vals[seen[-1] - 1] == "bad":
            raise ValueError("bad")
        return vals[seen[-1] - 1]
    best = grid_search(np.arange(1.0, len(vals) + 1), obj, **kw)
    return int(best), seen
need(run([3.0, 2.0, 1.0, 4.0, 5.0, 0.0], patience=2) == (3, [1, 2, 3, 4, 5]), "plain")
need(run([3.0, "bad", 4.0, 5.0, 1.0, 0.0], patience=2) == (6, [1, 2, 3, 4, 5, 6]), "after an infinite result the next one is no increase")
need(run([3.0, float("nan"), 4.0, 2.0], patience=2) == (4, [1, 2, 3, 4]), "after an undefined result the next one is no increase")
""", "a failing or undefined point followed by points worse than the one before it", "Points after an infinite one are compared with the last finite one, and the search stops early.")

seed("mll-always-vmap", "C13", [("laplax/api.py", """                loss_fn=loss_fn,
                vmap_over_data=vmap_over_data,
            )
        case CalibrationObjective.ECE""", """                loss_fn=loss_fn,
            )
        case CalibrationObjective.ECE""")], """
from laplax.api import calibration
from laplax.curv.cov import set_posterior_fn
from laplax.eval import marginal_log_likelihood
X, Y, p = jnp.array([[1.0, 2.0], [3.0, 1.0], [0.5, 1.0]]), jnp.array([[1.0], [2.0], [0.0]]), jnp.array([0.4, 0.7])
batched = lambda input, params: (input - jnp.mean(input, axis=0)) @ params[:, None]  # centres the batch
est = jnp.array([[3.0, 1.0], [1.0, 2.0]])
grid = np.logspace(-2, 2, 9)
seen = {}
from laplax.register import register_calibration_method
def method(objective, data, **kw):
    seen["v"] = [float(objective({"prior_prec": t}, data)) for t in grid]
    return {"prior_prec": float(grid[int(np.argmin(seen["v"]))])}
register_calibration_method("recording", method)
calibration(set_posterior_fn("full", est, layout=p), batched, p, (X, Y), loss_fn="mse", curv_estimate=est, curv_type="full", calibration_objective="marginal_log_likelihood", calibration_method="recording", vmap_over_data=False)
want = [-float(marginal_log_likelihood(est, {"prior_prec": t}, {"input": X, "target": Y}, batched, p, "mse", "full", vmap_over_data=False)) for t in grid]
need(close(seen["v"], want), "objective of a model that takes the whole batch")
""", "marginal-likelihood calibration of a model that takes whole batches (vmap_over_data=False)", "The option is not passed on: the model is mapped over single samples.")

seed("transfer-moves-entries", "C18", [("laplax/eval/utils.py", """            options[field][k] = options[access_from][v]
""", """            options[field][k] = options[access_from].pop(v)
""")], """
from laplax.eval.utils import finalize_fns, transfer_entry
def run(*fns, results, aux):
    res, aux = dict(results), dict(aux)
    r = finalize_fns(list(fns), res, aux)
    return r, aux
r, a = run(transfer_entry(["x"]), results={"r": 1}, aux={"x": 2, "y": 3})
need(r == {"r": 1, "x": 2} and a == {"x": 2, "y": 3}, "transfer copies")
r, a = run(transfer_entry({"p": "r", "q": "r"}, field="aux", access_from="results"), results={"r": 1}, aux={})
need(r == {"r": 1} and a == {"p": 1, "q": 1}, "one entry under two names")
""", "the source dictionary is looked at after a transfer, or one entry is transferred twice", "A transfer removes the entry from its source.")

seed("online-mean-first-leaf", "C01", [("laplax/util/loader.py", """    batch_size = jax.tree.map(lambda x: x.shape[0] if x.ndim > 0 else 1, res_new)
""", """    size = jax.tree.leaves(res_new)[0].shape
    batch_size = jax.tree.map(lambda _: size[0] if size else 1, res_new)
""")], """
from laplax.util.loader import execute_with_data_loader, reduce_online_mean
X, Y = jnp.arange(10.0).reshape(5, 2), jnp.arange(5.0)
for cuts in ([5], [2, 3], [1, 4], [2, 2, 1]):
    o = np.cumsum([0] + cuts)
    L = [(X[a:b], Y[a:b]) for a, b in zip(o, o[1:])]
    f = lambda data: {"rows": data["input"], "outer": jnp.repeat(data["target"], 2)}
    r = execute_with_data_loader(f, L)
    need(close(r["rows"], X.mean(0)), f"rows, batches {cuts}")
    need(close(r["outer"], Y.mean()), f"repeated entries, batches {cuts}")
    r = execute_with_data_loader(lambda data: (data["input"], jnp.sum(data["target"])), L)
    need(close(r[1], Y.sum() / len(cuts)), f"scalar leaves count once per batch, batches {cuts}")
""", "a sample-mean over leaves of different leading sizes (or scalar leaves beside batched ones)", "Every leaf is divided by the first leaf's batch size.")

seed("bce-hessian-floor", "C02", [("laplax/curv/ggn.py", """    return prob * (1 - prob) * jv
""", """    return jnp.maximum(prob * (1 - prob), 1e-3) * jv
""")], """
from laplax.curv.ggn import create_ggn_mv
fn = lambda input, params: params * input
p = jnp.array([1.0, -2.0])
for scale in (1.0, 3.0, 20.0):
    X, Y = scale * jnp.ones((2, 2)), jnp.ones((2, 2))
    s = 1 / (1 + np.exp(-scale * np.asarray(p, float)))
    H = 2 * scale**2 * s * (1 - s)
    v = jnp.array([3.0, 5.0])
    need(np.allclose(create_ggn_mv(fn, p, {"input": X, "target": Y}, "binary_cross_entropy")(v), H * np.asarray(v), rtol=1e-3, atol=1e-3), f"logits {scale * p}")
""", "a saturated binary prediction", "The loss curvature p(1-p) is bounded below by 1e-3.")

seed("bce-clipped-logits", "C03", [("laplax/curv/utils.py", """    return -targets * jax.nn.log_sigmoid(logits) - (1""", """    logits = jnp.clip(logits, -10.0, 10.0)  # avoid overflow
    return -(targets * jax.nn.log_sigmoid(logits)) - (1""")], """
from laplax.curv.hessian import create_hessian_mv
fn = lambda input, params: params**2 * input
for x in (1.0, 30.0, -30.0):
    X, Y, p = jnp.full((2, 1), x), jnp.zeros((2, 1)), jnp.array([1.0])
    s = 1 / (1 + np.exp(-x))
    H = 2 * (s * (1 - s) * (2 * x) ** 2 + s * 2 * x)
    need(np.allclose(create_hessian_mv(fn, p, {"input": X, "target": Y}, "binary_cross_entropy")(jnp.ones(1)), H, rtol=1e-3, atol=1e-3), f"logit {x}")
""", "a saturated wrong prediction of a model that is not linear in its parameters", "The loss is constant beyond logits of +-10 and its gradient part of the Hessian vanishes.")

seed("weights-two-key-schemes", "C10", [("laplax/eval/pushforward.py", """    def get_weight_sample(idx):
        return util.tree.normal_like(keys[idx], mean=mean_params, scale_mv=scale_mv)
""", """    precompute = kwargs.get("set_get_weight_sample_precompute", kwargs.get("precompute"))

    def get_weight_sample(idx):
        sample_key = jax.random.fold_in(key, idx + 1) if precompute is False else keys[idx]
        return util.tree.normal_like(sample_key, mean=mean_params, scale_mv=scale_mv)
""")], """
from laplax.eval.pushforward import set_get_weight_sample
key, mean = jax.random.key(3), {"a": jnp.ones(2), "b": jnp.zeros((2, 2))}
ident = lambda t: t
ref = set_get_weight_sample(key, mean, ident, 4)
for kw in ({}, {"precompute": True}, {"precompute": False}, {"set_get_weight_sample_precompute": False}, {"precompute_list_batch_size": 2}):
    g = set_get_weight_sample(key, mean, ident, 4, **kw)
    for i in range(4):
        need(all(close(x, y) for x, y in zip(jax.tree.leaves(g(i)), jax.tree.leaves(ref(i)))), f"sample {i} with {kw}")
""", "precomputation switched off explicitly", "Without precomputation the same key gives different weight samples.")

seed("ensemble-mean-shortcut", "C10", [("laplax/eval/pushforward.py", """    pred_ensemble = aux["pred_ensemble"]
    results["pred_mean"] = util""", """    pred_ensemble = results.get("samples", aux["pred_ensemble"])
    results["pred_mean"] = util""")], """
from laplax.curv.cov import set_posterior_fn
from laplax.eval import pushforward as P
post = set_posterior_fn("diagonal", jnp.array([1.0, 2.0]), layout=jnp.zeros(2))
fn = lambda input, params: params * input
def pred(fns, **kw):
    return P.set_nonlin_pushforward(model_fn=fn, mean_params=jnp.ones(2), posterior_fn=post, prior_arguments={"prior_prec": 1.0}, key=jax.random.key(2), pushforward_fns=fns, num_samples=12, **kw)(3.0)
ref = pred([P.nonlin_setup, P.nonlin_pred_mean])["pred_mean"]
need(close(pred([P.nonlin_setup, P.nonlin_pred_mean, P.nonlin_samples])["pred_mean"], ref), "mean before the samples")
need(close(pred([P.nonlin_setup, P.nonlin_samples, P.nonlin_pred_mean])["pred_mean"], ref), "mean after the samples")
""", "samples requested before the mean, with more ensemble members than stored samples", "The mean is taken over the stored samples only.")

seed("kernel-shared-layout", "C09", [("laplax/eval/pushforward.py", """    if linearized:

        # Create""", """    if linearized:

        # Create""")], "", "", "")
del SEEDS["kernel-shared-layout"]
