HEAD = """
import sys
import numpy as np
import jax, jax.numpy as jnp
from loguru import logger
logger.remove()
def need(ok, what):
    if not ok:
        print("WRONG:", what)
        sys.exit(1)
close = lambda a, b, t=1e-3: np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=t, atol=t)
"""
SEEDS = {}


def seed(k, prop, edits, demo, needs, breaks):
    SEEDS[k] = dict(prop=prop, edits=edits, demo=HEAD + demo, needs=needs, breaks=breaks)


seed("basis-vector-third-leaf", "C05", [("laplax/util/tree.py", """    idx_corr = idx - jnp.where(k > 0, cum_sizes[k - 1], 0)
""", """    idx_corr = idx - jnp.where(k > 0, sizes[k - 1], 0)
""")], """
from laplax.util.tree import basis_vector_from_index
for shapes in ([(3,)], [(2, 2), (3,)], [(4,), (2,), (3,), (2, 2)]):
    t = {f"l{i}": jnp.zeros(s) for i, s in enumerate(shapes)}
    n = sum(int(np.prod(s)) for s in shapes)
    for j in range(n):
        e = basis_vector_from_index(j, t)
        need(close(jnp.concatenate([jnp.ravel(x) for x in jax.tree.leaves(e)]), np.eye(n)[j]), f"basis vector {j} of {shapes}")
""", "a container of three or more leaves whose sizes do not happen to fit", "The position within the third and later leaves is off.")

seed("lanczos-breakdown-root-tol", "C07", [("laplax/curv/lanczos.py", """        b_val = jnp.where(b_val < tol, 0.0, b_val)
""", """        b_val = jnp.where(b_val < jnp.sqrt(tol), 0.0, b_val)
""")], """
from laplax.curv.lanczos import lanczos_lowrank
for scale in (1.0, 3e-4):
    A = np.diag([1.0, 2.0, 4.0, 7.0]).astype(np.float32) * scale
    r = lanczos_lowrank(jnp.asarray(A), b=jnp.ones(4), rank=4)
    need(np.abs(np.asarray(r.U) * np.asarray(r.S) @ np.asarray(r.U).T - A).max() < 1e-4 * scale, f"operator of scale {scale}")
""", "an operator with small eigenvalues (a curvature averaged over many samples)", "The iteration stops at the first coupling below 1e-3.")

seed("transfer-missing-key-none", "C18", [("laplax/eval/utils.py", """            options[field][k] = options[access_from][v]
""", """            options[field][k] = options[access_from].get(v)
""")], """
from laplax.eval.utils import transfer_entry
r, a = transfer_entry({"n": "y"})({"x": 1}, {"y": 2})
need(r == {"x": 1, "n": 2} and a == {"y": 2}, "transfer")
try:
    out = transfer_entry(["missing"])({"x": 1}, {"y": 2})
except (KeyError, ValueError):
    pass
else:
    need(False, f"unknown entry accepted: {out}")
""", "a transfer of an entry that does not exist", "The entry is created as None instead of being rejected.")

seed("default-pushforward-list-shared", "C14", [("laplax/api.py", """EMPTY_DICT = {}
""", """EMPTY_DICT = {}
DEFAULT_LIN_FNS = [lin_setup, lin_pred_mean, lin_pred_std]
"""), ("laplax/api.py", """            pushforward_fns = [lin_setup, lin_pred_mean, lin_pred_std]
""", """            pushforward_fns = DEFAULT_LIN_FNS
""")], """
from laplax.api import evaluation
from laplax.curv.cov import set_posterior_fn
p, est = jnp.array([[0.4, 0.7, -1.0], [1.0, -0.5, 0.2]]), jnp.ones(6)
f = lambda input, params: 3 * input @ params
data = (jnp.array([[1.0, 2.0], [0.5, -1.0], [2.0, 0.3]]), jnp.array([0, 1, 2]))
post = set_posterior_fn("diagonal", est, layout=p)
def ev(t):
    return evaluation(post, f, p, {"prior_prec": 0.5}, data, metrics="classification", predictive_type=t)[0]
first = {t: ev(t) for t in ("mc_bridge", "laplace_bridge", "mean_field_1")}
for t in ("mc_bridge", "mean_field_1", "laplace_bridge"):
    again = ev(t)
    need(set(again) == set(first[t]) and all(close(again[k], first[t][k], 1e-5) for k in again), f"repeated evaluation of {t}")
""", "evaluations with different predictives in one process", "The predictive functions of earlier calls accumulate in the default list.")

seed("hessian-whole-factor", "C03", [("laplax/curv/hessian.py", """    curv_scaling_factor = num_total_samples / num_curv_samples
""", """    curv_scaling_factor = max(num_total_samples // num_curv_samples, 1)
""")], """
from laplax.curv.hessian import create_hessian_mv
X, Y = jnp.arange(1.0, 7.0).reshape(3, 2), jnp.ones((3, 1))
f = lambda input, params: input @ params[:, None]
p, v = jnp.array([0.5, -1.0]), jnp.array([1.0, 2.0])
H = 2 * np.asarray(X).T @ np.asarray(X)
for used, total in ((3, 3), (3, 6), (3, 10), (4, 3)):
    mv = create_hessian_mv(f, p, {"input": X, "target": Y}, "mse", num_curv_samples=used, num_total_samples=total)
    need(close(mv(v), total / used * H @ np.asarray(v)), f"{total} / {used}")
""", "a total that is not a multiple of the samples used", "The scaling is rounded down to a whole number.")

seed("evidence-determinant-overflow", "C17", [("laplax/eval/likelihood.py", """    log_det_H = jnp.linalg.slogdet(posterior_precision)[1]
""", """    log_det_H = jnp.log(jnp.linalg.det(posterior_precision))
""")], """
from laplax.eval import marginal_log_likelihood
for n, t in ((2, 1.0), (12, 1e-5), (12, 1e5)):
    p = jnp.linspace(0.0, 1.0, n) * 1e-3
    X, Y = jnp.ones((2, n)), jnp.zeros((2, 1))
    f = lambda input, params: input @ params[:, None]
    got = marginal_log_likelihood(jnp.zeros((n, n)), {"prior_prec": t}, {"input": X, "target": Y}, f, p, "mse", "full", vmap_over_data=False)
    want = -0.5 * float(jnp.sum((f(X, p) - Y) ** 2)) - 0.5 * t * float(p @ p)
    need(np.isfinite(float(got)) and abs(float(got) - want) < 1e-2, f"{n} parameters of precision {t}: {got}, not {want}")
""", "a determinant outside the range of the floating-point format", "The evidence becomes infinite or undefined.")

seed("lowered-product-unwrapped", "C01", [("laplax/util/loader.py", """                    input_fn=self.input_transform,
                    output_fn=self.output_transform,
""", """                    input_fn=self.input_transform,
""")], """
from laplax.util.loader import DataLoaderMV, reduce_add
from laplax.util.flatten import wrap_function
from laplax.util.mv import to_dense, diagonal
batches = [(jnp.arange(1.0, 4.0) * i, jnp.zeros(1)) for i in (1, 2)]
mv = DataLoaderMV(lambda vec, data: data["input"] * vec, batches, reduce=reduce_add)
need(close(to_dense(mv, 3), np.diag([3.0, 6.0, 9.0])), "dense")
w = wrap_function(mv, input_fn=lambda v: 2 * v, output_fn=lambda v: v[::-1])
want = 2 * np.diag([3.0, 6.0, 9.0])[::-1]
need(close(w(jnp.ones(3)), want @ np.ones(3)), "product of the wrapped stream")
need(close(to_dense(w, 3), want), "dense matrix of the wrapped stream")
need(close(diagonal(w, 3), np.diag(want)), "diagonal of the wrapped stream")
""", "the dense matrix of a streamed product wrapped with an output transformation", "The output transformation is left out.")

seed("kernel-default-scaling", "C09", [("laplax/eval/pushforward.py", """    posterior_state = posterior_fn(prior_arguments, loss_scaling_factor)

    # Posterior state to dist_state
    dist_state = get_dist_state(
        mean,
""", """    posterior_state = posterior_fn(prior_arguments)

    # Posterior state to dist_state
    dist_state = get_dist_state(
        mean,
""")], """
from laplax.curv.cov import set_posterior_fn
from laplax.eval.pushforward import set_posterior_gp_kernel
H = np.array([[3.0, 1.0], [1.0, 2.0]])
p = jnp.zeros(2)
post = set_posterior_fn("full", jnp.asarray(H), layout=p)
f = lambda input, params: jnp.stack([input @ params, input[0] * params[1]])
J = lambda x: np.array([[x[0], x[1]], [0.0, x[0]]])
a, b = np.array([1.0, 2.0]), np.array([-1.0, 0.5])
for l in (1.0, 2.0, 0.25):
    k, _ = set_posterior_gp_kernel(f, p, post, {"prior_prec": 1.0}, loss_scaling_factor=l, dense=True, output_layout=2)
    need(close(k(jnp.asarray(a), jnp.asarray(b)), J(a) @ np.linalg.inv((H + np.eye(2)) / l) @ J(b).T), f"kernel with loss scaling {l}")
""", "a kernel with a loss scaling other than one", "The loss scaling factor is not applied to the kernel's posterior.")

seed("dense-identity-half", "C04", [("laplax/util/mv.py", """        identity = jnp.eye(layout)
""", """        identity = jnp.eye(layout, dtype=jnp.bfloat16)
""")], """
from laplax.util.mv import to_dense
A = np.array([[1.0, 2.5], [0.125, 1000.5]], np.float32)
need(close(to_dense(lambda x: jnp.asarray(A) @ x, 2), A, 1e-6), "matrix product")
for s in (0.5, 3.141, 1001.0):
    need(close(to_dense(lambda x: s * x, 3), s * np.eye(3), 1e-5), f"scaling by {s}")
    need(close(to_dense(lambda x: jnp.cumsum(s * x), 3), s * np.tril(np.ones((3, 3))), 1e-5), f"scaled running sums, {s}")
""", "a map whose result takes the precision of its argument", "The entries are rounded to half precision.")
