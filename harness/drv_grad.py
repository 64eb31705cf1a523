"""C20: derivatives in the prior arguments."""
import json
import numpy as np
from common import main, outcome, q
import drv_push as dp
from drv_post import ortho

import jax
import jax.numpy as jnp
from laplax.api import calibration, calibration_options
from laplax.curv.cov import estimate_curvature, set_posterior_fn
from laplax.curv.utils import LowRankTerms
from laplax.enums import CurvApprox, LossFn
from laplax.eval import evaluate_for_given_prior_arguments, marginal_log_likelihood
from laplax.eval import metrics as mt
from laplax.eval import pushforward as pw
from laplax.register import register_calibration_method

U, W, H = 10000, 10**6, 1 / 16
f32 = lambda x: jnp.asarray(x, jnp.float32)


def scenarios(tier, seed, gen):
    rng = np.random.default_rng([seed, 20])
    cases = [json.loads(x) for x in open(gen)]
    n = 208 if tier == "quick" else 8000
    return [cases[i] for i in rng.choice(len(cases), n, replace=n > len(cases))]


def world(rng, what):
    """model, data and a curvature of orthogonal directions"""
    while True:
        lay, m, th, _ = dp.world(rng, 2, 1, 5, 30, 5)
        N = int(rng.integers(1, 5))
        xs = rng.integers(-2, 3, (N, m.D))
        b = [m.absbounds(th, x) for x in xs]
        if max(x[0].max() for x in b) <= 30 and max(x[1].max() for x in b) <= 5 and all(x[1].max() > 0 for x in b):
            return lay, m, th, xs


def run(sc, rec, rng):
    rep, what = sc["rep"], sc["what"]
    lay, m, th, xs = world(rng, what)
    P, N, C = lay.P, len(xs), len(m.mod)
    kind = ("mse", "bce")[int(rng.random() < 0.3 and max(abs(v) for x in xs for v in m.values(th, x)) <= 9)]
    S = 2
    L = dict(kind=kind, K=C, S=S, w=[1, 1, 1])
    ys = rng.integers(0, S + 1, (N, C)) if kind == "bce" else rng.integers(-6, 7, (N, C))
    Y, X = f32(ys.reshape((N,) + m.osh) / (S if kind == "bce" else 1)), f32(xs)
    # curvature
    diag = "diagonal" in rep
    while True:
        if diag:
            hs, ms = [h for h in np.eye(P, dtype=int)], [int(v) for v in rng.integers(0, 9, P)]
        else:
            hs = ortho(rng, P, int(rng.integers(1, P + 1)))
            ms = [int(v) for v in rng.integers(0, 3, len(hs))]
        mus = [k * int(h @ h) for h, k in zip(hs, ms)]
        if rep == "est-lanczos" and (0 in ms or len(set(mus)) < len(mus)):
            continue
        if max(mus) <= 40:
            break
    M = sum((k * np.outer(h, h) for h, k in zip(hs, ms)), np.zeros((P, P), int))
    names = ["t"] + (["s"] if sc["args"] != "prior" else []) + (["l"] + (["g"] if what == "evidence" else []) if sc["args"] == "all" else [])
    a = dict(t=int(rng.integers(2 if what in ("lin", "scale") else 1, 50)), s=int(rng.integers(1, 9)) if "s" in names else 4,
             lsf=int(rng.integers(1, 7)) if "l" in names else 4, g=int(rng.integers(2, 9)) if "g" in names else 4)
    rec.ev("Begin", label=f"{rep}:{what}:{sc['args']}:{sc['diff']}:{sc['mode']}", L=L, mod=m.mod, th=[int(v) for v in th], xs=xs.tolist(), ys=ys.tolist(),
           hs=[h.tolist() for h in hs], ms=ms)
    params, zero = lay.unflat(f32(th)), lay.unflat(jnp.zeros(P))
    JM = f32(M)
    mv = lambda v: lay.unflat(JM @ lay.flat(v))
    low = ("lanczos", "lobpcg")[int(rng.integers(2))]

    def terms():
        Um, Sm = np.stack([h / np.linalg.norm(h) for h in hs], 1), np.array(mus, float)
        if rng.random() < 0.3:
            Um, Sm = np.concatenate([Um, np.zeros((P, 1))], 1), np.append(Sm, 0.0)
        return LowRankTerms(f32(Um), f32(Sm), jnp.asarray(0.0))
    (name, est), err = outcome({"full": lambda: ("full", JM), "diagonal": lambda: ("diagonal", jnp.diagonal(JM)), "terms": lambda: (low, terms()),
                                "est-full": lambda: ("full", estimate_curvature("full", mv=mv, layout=zero)), "est-diagonal": lambda: ("diagonal", estimate_curvature("diagonal", mv=mv, layout=zero)),
                                "est-lanczos": lambda: ("lanczos", estimate_curvature("lanczos", mv=mv, layout=zero, rank=P, key=jax.random.key(int(rng.integers(100)))))}[rep])
    if rng.random() < 0.5:
        name = CurvApprox(name)
    pf = set_posterior_fn(name, est, layout=zero)
    args = lambda d: {"prior_prec": d["t"], **({"sigma_squared": d["s"]} if "s" in d else {}), **({"sigma": d["g"]} if "g" in d else {})}
    lsf = lambda d: {"loss_scaling_factor": d["l"]} if "l" in d else {}
    at = {k: a["lsf" if k == "l" else k] / 4 for k in names}
    log = sc["mode"] == "log"

    def derive(F):
        """F and its derivatives at the arguments"""
        G = (lambda d: F(jax.tree.map(jnp.exp, d))) if log else F
        x = jax.tree.map(lambda v: float(np.log(v)) if log else v, at)
        if rng.random() < 0.7 or log:
            x = jax.tree.map(f32, x)
        D = (jax.jacrev if sc["diff"] == "rev" else jax.jacfwd)(G)
        f = (lambda z: (G(z), D(z)))
        f = jax.jit(f) if sc["mode"] == "jit" or (log and rng.random() < 0.5) else f
        val, ds = f(x)
        if log:
            ds = jax.tree.map(lambda y: y, ds)
        pick = lambda k: jax.tree.map(lambda y: np.asarray(y[k], np.float64) / (at[k] if log else 1.0), ds, is_leaf=lambda y: isinstance(y, dict) and set(y) == set(names))
        return val, {k: pick(k) for k in names}

    def matrix(d, scale):
        po = pf(args(d), *lsf(d).values()) if rng.random() < 0.5 else pf(args(d), **lsf(d))
        f = (po.scale_mv if scale else po.cov_mv)(po.state)
        return jnp.stack([lay.flat(f(lay.unflat(e))) for e in jnp.eye(P)], 1)
    if what in ("cov", "scale"):
        r, err = outcome(derive, lambda d: matrix(d, what == "scale"))
        for k in ["val"] * (what == "cov") + names:
            if what == "cov":
                o = None if err else r[0] if k == "val" else r[1][k]
                rec.ev("Cov", what="cov", wrt=k, a=a, out=[] if err else [q(x, W) for x in np.asarray(o)], err=err)
            else:
                rec.ev("Scale", what="scale", wrt=k, a=a, S=[] if err else [q(x, U) for x in np.asarray(r[0])], D=[] if err else [q(x, U) for x in r[1][k]], err=err)
        return
    data = {"input": X, "target": Y}
    batched = rng.random() < 0.4
    mf = m.fn_batched if batched else m.fn
    loss = {"mse": LossFn.MSE, "bce": LossFn.BINARY_CROSS_ENTROPY}[kind]
    evid = lambda d: marginal_log_likelihood(est, args(d), data, mf, params, loss if r0 else str(loss.value), name, vmap_over_data=not batched, **lsf(d))
    r0 = rng.random() < 0.5
    if what == "evidence":
        r, err = outcome(derive, evid)
        for k in ["val"] + names:
            rec.ev("Evid", what="evidence", wrt=k, a=a, v=0 if err else q(r[0] if k == "val" else r[1][k], U)[0], err=err)
        return

    def diff(nm, F, scale=1.0):
        """derivative in ln t and the values around"""
        G = lambda u: F(dict(at, t=at["t"] * jnp.exp(u)))
        D = (jax.jacrev if sc["diff"] == "rev" else jax.jacfwd)(G)
        if sc["mode"] == "jit":
            D = jax.jit(D)

        def go():
            return [G(f32(k * H)) for k in (-2, -1, 1, 2)], D(f32(0.0))
        r, err = outcome(go)
        if err:
            rec.ev("Diff", what=nm, v=[[]] * 4, d=[], tol=0, err=err)
            return
        vs, d = r
        tab = lambda t: {nm: t} if not isinstance(t, dict) else t
        for k in tab(vs[0]):
            v = [np.asarray(tab(x)[k], np.float64) for x in vs]
            mx = max(np.abs(x).max() if np.isfinite(x).all() else 1e9 for x in v)
            if mx > 900 or (k == "pred_std" and min(x.min() for x in v) < 1e-2) or (k == "chi_squared" and (min(x.min() for x in v) < 0.15 or mx > 90)):
                continue
            rec.ev("Diff", what=k, v=[q(x, U) for x in v], d=q(tab(d)[k], U), tol=int(0.02 * max(mx, scale) ** 2) + 1, err="")
    if what == "lin":
        x = xs[int(rng.integers(N))]
        J = np.asarray(m.jac(th, x) if hasattr(m, "jac") else jax.jacobian(lambda p: jnp.ravel(m.one(f32(x), lay.unflat(p))))(f32(th)))
        keys = [k for k in ("pred_mean", "pred_var", "pred_cov", "pred_std") if rng.random() < 0.7] or ["pred_var"]
        if "pred_std" in keys and np.abs(J).sum(1).min() == 0:
            keys = [k for k in keys if k != "pred_std"] or ["pred_cov"]
        keys = [keys[i] for i in rng.permutation(len(keys))]

        def F(d):
            p = pw.set_lin_pushforward(model_fn=m.fn, mean_params=params, posterior_fn=pf, prior_arguments=args(d), pushforward_fns=[pw.lin_setup] + [dp.LIN[k] for k in keys], **lsf(d))
            o = p(input=f32(x))
            return {k: o[k] for k in keys}
        r, err = outcome(derive, F)
        for k in names:
            for y in keys:
                rec.ev("Pred", what=y, wrt=k, x=x.tolist(), a=a, out=[] if err else q(r[1][k][y] if not err else 0, U), std=[] if err or y != "pred_std" else q(r[0][y], U), err=err)
        if rng.random() < 0.5:
            return
    if what in ("lin", "nonlin"):
        lin = what == "lin"
        n = int(rng.integers(2, 5))
        s = float(rng.choice([0.05, 0.1, 0.3]))
        cls = C >= 2 and len(m.osh) == 1
        table, setup = (dp.LIN, pw.lin_setup) if lin else (dp.NON, pw.nonlin_setup)
        keys = [k for k in table if rng.random() < 0.6] or ["samples"]
        fns = [setup] + [table[k] for k in keys]
        opts = {}
        small = lambda input, params: s * m.fn(input=input, params=params)
        if cls:
            opts["special_pred_type"] = ("mean_field_0", "mean_field_1", "mean_field_2")[int(rng.integers(3))]
            fns += [pw.lin_special_pred_act, pw.lin_mc_pred_act] if lin else [pw.nonlin_special_pred_act, pw.nonlin_mc_pred_act]
            keys = keys + ["special_pred_act", "mc_pred_act"]
        key = jax.random.key(int(rng.integers(1000)))
        x = f32(xs[int(rng.integers(N))])
        setter = pw.set_lin_pushforward if lin else pw.set_nonlin_pushforward

        def F(d):
            o = setter(model_fn=small, mean_params=params, posterior_fn=pf, prior_arguments=args(d), key=key, num_samples=n, pushforward_fns=fns, **lsf(d), **opts)(x)
            return {k: o[k] for k in keys}
        ref = F(at)
        if "pred_std" in ref and np.asarray(ref["pred_std"]).min() < 1e-2:  # no derivative where the deviation vanishes
            keys.remove("pred_std")
            fns.remove(table["pred_std"])
            if not keys:
                keys, fns = ["samples"], [*fns, table["samples"]]
            ref = F(at)
        if cls and np.abs(np.asarray(m.values(th, np.asarray(x)))).max() * s > 8:
            return
        diff("prediction", F, max(float(np.abs(np.asarray(v)).max()) for v in ref.values()))
        return
    # objectives: directly and as handed to a registered calibration method
    lin = rng.random() < 0.5
    n = int(rng.integers(3, 6))
    key = jax.random.key(int(rng.integers(1000)))
    setter = pw.set_lin_pushforward if lin else pw.set_nonlin_pushforward
    fns = [pw.lin_setup, pw.lin_pred_mean, pw.lin_pred_std] if lin else [pw.nonlin_setup, pw.nonlin_pred_mean, pw.nonlin_pred_std]
    off = jnp.arange(1.0, P + 1)
    one = lambda input, params: 0.3 * m.fn(input=input, params=params) + 0.5 * jnp.sum(lay.flat(params) * off) / P
    spp = lambda prior_arguments: setter(model_fn=one, mean_params=params, posterior_fn=pf, prior_arguments=prior_arguments, key=key, num_samples=n, pushforward_fns=fns)
    stds = np.asarray(jax.vmap(spp(args(at)))(X)["pred_std"])
    if stds.min() < 0.15:
        return
    at.pop("l", None)
    names[:] = [k for k in names if k != "l"]
    if rng.random() < 0.4:
        for nm, metric in (("nll", mt.nll_gaussian), ("chi_squared", mt.chi_squared_zero), ("crps", mt.crps_gaussian)):
            diff(nm, lambda d: evaluate_for_given_prior_arguments(data=data, set_prob_predictive=spp, metric=metric, prior_arguments=args(d)))
        return
    for nm in ("nll", "chi_squared", "marginal_log_likelihood"):
        got = {}

        def method(objective, data, **kw):
            got["f"], got["data"] = objective, data
            return args(at)
        before = dict(calibration_options)
        register_calibration_method("slope", method)
        try:
            _, err = outcome(calibration, pf, one, params, data if rng.random() < 0.5 else (X, Y), loss_fn=loss, curv_estimate=est, curv_type=CurvApprox(name), calibration_objective=nm, calibration_method="slope",
                             pushforward_type="linear" if lin else "nonlinear", pushforward_fns=fns if rng.random() < 0.5 else None, sample_key=key, num_samples=n, objective_jit=sc["mode"] == "jit")
        finally:
            calibration_options.clear()
            calibration_options.update(before)
        if err:
            rec.ev("Diff", what=nm, v=[[]] * 4, d=[], tol=0, err=err)
        else:
            diff(nm, lambda d: got["f"](args(d), got["data"]))


if __name__ == "__main__":
    import sys
    main(sys.modules[__name__])
