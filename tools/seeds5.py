HEAD = """
import sys
import numpy as np
import jax, jax.numpy as jnp
from loguru import logger
logger.remove()
def need(ok, what):
    if not ok:
        print("WRONG:", what)
        sys.exit(1)
close = lambda a, b, t=1e-3: np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=t, atol=t)
"""
SEEDS = {}


def seed(k, prop, edits, demo, needs, breaks):
    SEEDS[k] = dict(prop=prop, edits=edits, demo=HEAD + demo, needs=needs, breaks=breaks)


seed("full-scale-by-eigenvectors", "C20", [("laplax/curv/full.py", """    Lf = jnp.linalg.cholesky(jnp.flip(prec, axis=(-2, -1)))
    L_inv = jnp.transpose(jnp.flip(Lf, axis=(-2, -1)), axes=(-2, -1))
    Id = jnp.eye(prec.shape[-1], dtype=prec.dtype)
    L = jax.scipy.linalg.solve_triangular(L_inv, Id, trans="T")
    return L
""", """    eigvals, eigvecs = jnp.linalg.eigh(prec)
    return eigvecs / jnp.sqrt(eigvals)
""")], """
from laplax.curv.cov import set_posterior_fn
lay = {"w": jnp.zeros(3)}
for C in (np.diag([1.0, 2.0, 4.0]), np.diag([1.0, 0.0, 0.0]), np.zeros((3, 3))):
    pf = set_posterior_fn("full", jnp.asarray(C, jnp.float32), layout=lay)
    def trace(t):
        po = pf({"prior_prec": t})
        f = po.cov_mv(po.state)
        return sum(f({"w": e})["w"] @ e for e in jnp.eye(3))
    v, g = jax.value_and_grad(trace)(2.0)
    need(close(v, np.sum(1 / (np.diag(C) + 2))), f"trace {v}")
    need(close(g, -np.sum(1 / (np.diag(C) + 2) ** 2)), f"derivative of the covariance's trace {g}")
""", "the derivative of anything drawn from a precision with a repeated eigenvalue (any curvature of deficient rank)", "The derivative of the eigenvectors is undefined there, so gradient-based calibration gets NaN.")

seed("diagonal-evidence-frozen-reference", "C20", [("laplax/eval/likelihood.py", """    log_det_H = jnp.sum(jnp.log(posterior_precision))
    param_count = get_size(params)
""", """    largest = jnp.max(posterior_precision)
    log_det_H = jnp.sum(jnp.log(posterior_precision / largest))
    param_count = get_size(params)
    log_det_H = log_det_H + param_count * jnp.log(jax.lax.stop_gradient(largest))
""")], """
from laplax.eval.likelihood import marginal_log_likelihood
params = {"w": jnp.array([0.5, -1.0])}
data = {"input": jnp.ones((2, 2)), "target": jnp.zeros((2, 1))}
model = lambda input, params: jnp.sum(input * params["w"], keepdims=True)
f = lambda t: marginal_log_likelihood(jnp.array([1.0, 3.0]), {"prior_prec": t}, data, model, params, "mse", "diagonal")
v = [float(f(2.0 + h)) for h in (-0.01, 0.01)]
need(close(f(2.0) , sum(v) / 2, 1e-2), "value")
g = float(jax.grad(f)(2.0))
need(close(g, (v[1] - v[0]) / 0.02, 2e-2), f"derivative {g} instead of {(v[1] - v[0]) / 0.02}")
""", "the derivative of the marginal likelihood of a diagonal curvature", "Part of the log-determinant is treated as a constant, so gradient-based calibration converges to another prior precision.")

seed("lowrank-scale-frozen-shift", "C20", [("laplax/curv/low_rank.py", """            S=jnp.reciprocal(jnp.sqrt(S + scalar)) - scalar_sqrt_inv,
""", """            S=jnp.reciprocal(jnp.sqrt(S + scalar))
            - jax.lax.stop_gradient(scalar_sqrt_inv),
""")], """
from laplax.curv.cov import set_posterior_fn
from laplax.curv.utils import LowRankTerms
lay = {"w": jnp.zeros(3)}
U = jnp.eye(3)[:, :1]
pf = set_posterior_fn("lanczos", LowRankTerms(U, jnp.array([3.0]), jnp.asarray(0.0)), layout=lay)
def var(t, i):
    po = pf({"prior_prec": t})
    return po.cov_mv(po.state)({"w": jnp.eye(3)[i]})["w"][i]
for i, c in enumerate((3.0, 0.0, 0.0)):
    v, g = jax.value_and_grad(var)(2.0, i)
    need(close(v, 1 / (2 + c)), f"variance {i}: {v}")
    need(close(g, -1 / (2 + c) ** 2), f"derivative of variance {i}: {g}")
""", "the derivative in the prior precision along a retained direction of a low-rank posterior", "The shift by the prior's deviation is treated as a constant in the retained directions.")
