"""C11: classification predictives, directly and as part of predictions."""
import json
import numpy as np
from common import main, outcome, q, sh
import drv_push as dp

import jax
import jax.numpy as jnp
from laplax.eval import predictives as pr
from laplax.eval import pushforward as pw

U, M = 10000, 10**6
f32 = lambda x: jnp.asarray(x, jnp.float32)


def scenarios(tier, seed, gen):
    rng = np.random.default_rng([seed, 11])
    cases = [json.loads(x) for x in open(gen)]
    n = 160 if tier == "quick" else 5000
    out = [dict(mode="push", **cases[i]) for i in rng.choice(len(cases), n, replace=n > len(cases))]
    return out + [dict(mode="direct", i=i) for i in range(80 if tier == "quick" else 3000)]


def fine(m, v, t):
    """the formulas of the specification are evaluated on this range"""
    m, v = np.asarray(m), np.asarray(v)
    r = m.max() - m.min()
    if np.abs(m).max() > 15 or v.max() > 19 or r > 17:
        return False
    if t.startswith("laplace"):
        if v.min() < 0.02:
            return False
        c = np.sqrt(v.sum() / np.sqrt(len(m) / 2)) if t == "laplace_bridge" else 1.0
        return r / c <= 8.5 and np.abs(m / c).max() < 19 and 0.02 < v.sum() / np.sqrt(len(m) / 2) < 19
    return True


TYPES = ("laplace_bridge", "laplace_bridge_plain", "mean_field_0", "mean_field_1", "mean_field_2")


def direct(t, m, v, C):
    if t == "laplace_bridge":
        return pr.laplace_bridge(f32(m), f32(v), use_correction=True)
    if t == "laplace_bridge_plain":
        return pr.laplace_bridge(f32(m), f32(v), use_correction=False)
    if t == "mean_field_2":
        return pr.mean_field_2_predictive(f32(m), f32(C))
    return {"mean_field_0": pr.mean_field_0_predictive, "mean_field_1": pr.mean_field_1_predictive}[t](f32(m), f32(v))


def run_direct(sc, rec, rng):
    n = int(rng.integers(2, 7))
    rec.ev("Begin", label=f"direct:{n}")
    for t in TYPES:
        while True:
            m = np.round(rng.normal(0, rng.choice([0.5, 2, 4]), n), 4)
            if rng.random() < 0.1:
                m[:] = m[0]
            A = rng.normal(0, rng.choice([0.2, 0.7, 1.5]), (n, n))
            C = np.round(A @ A.T, 4)
            if rng.random() < 0.15:
                C = np.diag(np.diagonal(C))
            v = np.diagonal(C).copy()
            if fine(m, v, t):
                break
        obs = dict(type=t, m=q(m, U), v=q(v, U), C=[q(r, U) for r in C], zs=[])
        f = direct
        if rng.random() < 0.3:
            f = lambda t, m, v, C: jax.jit(lambda a, b, c: direct(t, a, b, c))(m, v, C)
        if rng.random() < 0.2:
            f = lambda t, m, v, C: jax.vmap(lambda a, b, c: direct(t, a, b, c))(f32([m[::-1], m]), f32([v[::-1], v]), f32([C[::-1, ::-1], C]))[1]
        o, err = outcome(f, t, m, v, C)
        rec.ev("Pred", **obs, sh=[] if err else sh(o), out=[] if err else q(o, M), err=err)
        if err:
            continue
        p = rng.permutation(n)
        rec.ev("Perm", type=t, p=[int(i) + 1 for i in p], a=q(o, M), b=q(direct(t, m[p], v[p], C[np.ix_(p, p)]), M))
        if not t.startswith("laplace"):
            rec.ev("Zero", type=t, m=q(m, U), out=q(direct(t, m, 0 * v, 0 * C), M))
    for t in TYPES:
        # logits far apart: the small probabilities are judged by their logarithm
        g = float(rng.choice([3, 10, 25, 50]))
        while True:
            m = np.round(rng.uniform(-g / 2, g / 2, n), 3)
            A = rng.normal(0, rng.choice([0.2, 0.7, 1.5]), (n, n))
            C = np.round(A @ A.T + 0.05 * np.eye(n), 3)
            v = np.diagonal(C).copy()
            c = v.sum() / np.sqrt(n / 2)
            if v.max() < 19 and c < 19 and (t != "laplace_bridge" or np.ptp(m) / np.sqrt(c) < 60):
                break
        o, err = outcome(direct, t, m, v, C)
        with np.errstate(all="ignore"):
            o = [] if err else np.maximum(np.log(np.asarray(o, np.float64)), -200)
        rec.ev("Log", type=t, m=q(m, U), v=q(v, U), C=[q(r, U) for r in C], out=[] if err else q(o, U), err=err)


def run(sc, rec, rng):
    if sc["mode"] == "direct":
        return run_direct(sc, rec, rng)
    lin, t = sc["kind"] == "lin", sc["type"]
    n = int(rng.integers(2, 7))
    key = jax.random.key(int(rng.integers(1000)))
    table = dp.LIN if lin else dp.NON
    setup = pw.lin_setup if lin else pw.nonlin_setup
    while True:
        lay, m, th, xs = dp.world(rng, 2, 2, 5, 40, 20)
        C = len(m.mod)
        if C < 2 or len(m.osh) != 1:
            continue
        # own constant logits keep the classes apart; the scale keeps the formulas in range
        s = float(rng.choice([0.05, 0.1, 0.2]))
        base = f32(np.round(rng.normal(0, 1, C), 2))
        mf = lambda input, params: s * m.one(input, params) + base + s * (jnp.arange(C) + 1.0) * lay.flat(params)[0]
        params = lay.unflat(f32(th))
        pf, pa, lsf, _, _ = dp.posterior(rng, lay, ("custom", "full", "terms", "diagonal")[int(rng.integers(4))])
        x = f32(xs[int(rng.integers(len(xs)))])
        setter = pw.set_lin_pushforward if lin else pw.set_nonlin_pushforward
        common = dict(model_fn=mf, mean_params=params, posterior_fn=pf, prior_arguments=pa, key=key, num_samples=n, **({} if lsf is None else {"loss_scaling_factor": float(lsf)}))
        ref = jax.jit(setter(**common, pushforward_fns=[setup] + [table[k] for k in ("pred_mean", "pred_var", "pred_cov", "samples")]))(x)
        if fine(ref["pred_mean"], ref["pred_var"], t) and np.abs(np.asarray(ref["samples"])).max() < 15 and np.asarray(ref["pred_var"]).min() > 1e-3:
            break
    rec.ev("Begin", label=f"{sc['kind']}:{t}:{'+'.join(sc['pre'])}")
    o = dp.options(rng, n, lin)
    special = pw.lin_special_pred_act if lin else pw.nonlin_special_pred_act
    mc = pw.lin_mc_pred_act if lin else pw.nonlin_mc_pred_act
    last = mc if t == "mc" else special
    if t == "laplace_bridge":
        o["special_pred_type"] = t
        if rng.random() < 0.5:
            o["use_correction"] = True
    elif t == "laplace_bridge_plain":
        o.update(special_pred_type="laplace_bridge", use_correction=False)
    elif t not in ("mc", "default"):
        o["special_pred_type"] = t
        if rng.random() < 0.2:
            o["use_correction"] = bool(rng.random() < 0.5)
    fns = [setup] + [table[k] for k in sc["pre"]] + [last]
    post = [table[k] for k in table if rng.random() < 0.15]
    if rng.random() < 0.15:
        post.append(mc if last is special else special)
        o.setdefault("special_pred_type", "mean_field_0")
    fns += post
    f, err = outcome(setter, **common, pushforward_fns=fns, **o)
    if not err:
        r = rng.random()
        g = f if r < 0.4 else jax.jit(f) if r < 0.7 else lambda z: {k: v[0] for k, v in jax.vmap(f)(jnp.stack([z, z + 1])).items()}
        out, err = outcome(g, x)
    nm = "mc_pred_act" if t == "mc" else "special_pred_act"
    if not err and nm not in out:
        rec.ev("Missing")
        return
    rec.ev("Push", type=t, m=q(ref["pred_mean"], U), v=q(ref["pred_var"], U), C=[q(r, U) for r in np.asarray(ref["pred_cov"])],
           zs=[q(r, U) for r in np.asarray(ref["samples"])] if t == "mc" else [], sh=[] if err else sh(out[nm]), out=[] if err else q(out[nm], M), err=err)


if __name__ == "__main__":
    import sys
    main(sys.modules[__name__])
