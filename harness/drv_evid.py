"""C17: marginal log-likelihoods of exact curvatures."""
import json
import numpy as np
from common import main, outcome, q, sh
import drv_push as dp
import poly
from drv_post import ortho

import jax
import jax.numpy as jnp
from laplax.curv.cov import estimate_curvature
from laplax.curv.utils import LowRankTerms, concatenate_model_and_loss_fn
from laplax.enums import CurvApprox, LossFn
from laplax.eval.likelihood import joint_log_likelihood, marginal_log_likelihood

U = 10000
f32 = lambda x: jnp.asarray(x, jnp.float32)


def scenarios(tier, seed, gen):
    rng = np.random.default_rng([seed, 17])
    cases = [json.loads(x) for x in open(gen)]
    n = 640 if tier == "quick" else 12000
    return [dict(cases[i], big=j % 6 == 5) for j, i in enumerate(rng.choice(len(cases), n, replace=n > len(cases)))]


def model(rng, loss, lo, hi):
    while True:
        shapes = None
        lay, m, th, _ = dp.world(rng, 2, lo, hi, 9 if loss in ("ce", "bce") else 60, 1e9, shapes=shapes)
        if loss != "ce" or (m.osh and m.osh[-1] > 1):
            break
    N = int(rng.integers(1, 6))
    for _ in range(200):
        xs = rng.integers(-2, 3, (N, m.D))
        zs = [m.values(th, x) for x in xs]
        if max(abs(v) for z in zs for v in z) <= (12 if loss in ("ce", "bce") else 60):
            return lay, m, th, xs
    return model(rng, loss, lo, hi)


def run(sc, rec, rng):
    rep, kind = sc["rep"], sc["loss"]
    lo, hi = (14, 36) if sc["big"] and rep in ("diagonal", "terms", "all", "spectral", "joint") else (1, 4 if "full" in rep else 7)
    lay, m, th, xs = model(rng, kind, lo, hi)
    if lo > 9:
        th = th * (rng.random(len(th)) < 0.2)
    P, N, C = lay.P, len(xs), len(m.mod)
    K = m.osh[-1] if m.osh else 1
    S = int(rng.choice([2, 4]))
    L = dict(kind=kind, K=K, S=S, w=[int(v) for v in rng.integers(1, 4, 3)])
    # targets
    if kind == "ce":
        if sc["target"] == "index":
            t = rng.integers(0, K, (N, C // K))
            ys = S * np.eye(K, dtype=int)[t].reshape(N, C)
            Y = jnp.asarray(t.reshape((N,) + m.osh[:-1]), jnp.int32)
        else:
            ys = rng.multinomial(S, np.ones(K) / K, (N, C // K)).reshape(N, C)
            Y = f32(ys.reshape((N,) + m.osh) / S)
    elif kind == "bce":
        ys = rng.integers(0, S + 1, (N, C))
        Y = f32(ys.reshape((N,) + m.osh) / S)
    else:
        ys = rng.integers(-6, 7, (N, C))
        Y = f32(ys.reshape((N,) + m.osh))
    X = f32(xs)
    # curvature
    e = 0 if rep == "est-lanczos" or rng.random() < 0.5 else int(rng.integers(-6, 7)) if lo < 9 else int(rng.choice([-7, -6, 5, 6]))
    form = {"full": "dense", "est-full": "dense", "diagonal": "diag", "est-diagonal": "diag", "joint": "diag"}.get(rep, "terms")
    b = dict(C=[], d=[], hs=[], ms=[])
    diag = form == "diag" or (rep == "all" and rng.random() < 0.5)
    while True:
        a0 = dict(t=int(rng.integers(1, 61)), s=int(rng.integers(1, 9)) if sc["extra"] in ("sigma", "both") else 4, lsf=int(rng.integers(1, 17)) if sc["extra"] in ("lsf", "both") else 4)
        if form == "dense":
            G = rng.integers(-1, 2, (int(rng.integers(1, P + 2)), P))
            M = G.T @ G
            b["C"] = M.tolist()
        elif diag:
            d = rng.integers(0, 9, P)
            M = np.diag(d)
            b["d"] = d.tolist()
            b["hs"], b["ms"] = np.eye(P, dtype=int).tolist(), d.tolist()
        else:
            R = int(rng.integers(1, P + 1))
            hs = ortho(rng, P, R)
            ms = [int(rng.integers(0, 3)) for _ in hs]
            if rep == "est-lanczos":
                ms = [max(x, 1) for x in ms]
                for i in range(len(hs)):
                    while ms[i] * int(hs[i] @ hs[i]) in [ms[j] * int(hs[j] @ hs[j]) for j in range(i)]:
                        ms[i] += 1
            M = sum((k * np.outer(h, h) for h, k in zip(hs, ms)), np.zeros((P, P), int))
            b["hs"], b["ms"] = [h.tolist() for h in hs], ms
        ts = [a0["t"]] + [int(v) for v in rng.integers(1, 61, 2 if sc["mode"] == "vmap" else int(rng.integers(0, 2)))]
        big = max(abs(np.linalg.det(a0["s"] * M + t * np.eye(P))) for t in ts) if form == "dense" else 0
        if big < 1.5e9 and max(ts) * int(th @ th) * 1250 * 2.0 ** max(e, 0) < 6e8:
            break
        e = min(e, 0) if rng.random() < 0.3 and lo < 9 else e
    rec.ev("Begin", label=f"{rep}:{kind}:{sc['extra']}:{sc['mode']}", L=L, mod=m.mod, th=[int(v) for v in th], xs=xs.tolist(), ys=ys.tolist(), form="diag" if diag else form, e=e, **b)
    z = 2.0 ** e
    params = lay.unflat(f32(th))
    zero = lay.unflat(jnp.zeros(P))
    batched = rng.random() < 0.4
    model_fn = m.fn_batched if batched else m.fn
    kw = {} if batched and rng.random() < 0.5 else {"vmap_over_data": not batched}
    if sc["extra"] in ("lsf", "both"):
        kw["loss_scaling_factor"] = a0["lsf"] / 4
    sig = {"sigma_squared": a0["s"] / 4} if sc["extra"] in ("sigma", "both") else {}
    w = L["w"]
    custom = lambda p, t: jnp.sum(w[0] * jnp.abs(p - t) + w[1] * p * t + w[2])
    loss = {"mse": LossFn.MSE, "ce": LossFn.CROSS_ENTROPY, "bce": LossFn.BINARY_CROSS_ENTROPY, "custom": custom}[kind]
    if kind != "custom" and rng.random() < 0.4:
        loss = str(loss.value)
    JM = f32(M * z)

    def terms():
        hs, ms = [np.array(h) for h in b["hs"]], b["ms"]
        Um, Sm = np.stack([h / np.linalg.norm(h) for h in hs], 1), np.array([k * float(h @ h) for h, k in zip(hs, ms)])
        if rng.random() < 0.3:
            Um, Sm = np.concatenate([Um, np.zeros((P, 1))], 1), np.append(Sm, 0.0)
        return LowRankTerms(f32(Um), f32(Sm * z), jnp.asarray(0.0))
    low = ("lanczos", "lobpcg")[int(rng.integers(2))]
    mv = lambda v: lay.unflat(JM @ lay.flat(v))
    build = {"full": lambda: ("full", JM), "diagonal": lambda: ("diagonal", jnp.diagonal(JM)), "terms": lambda: (low, terms()), "spectral": lambda: ("full", JM),
             "est-full": lambda: ("full", estimate_curvature("full", mv=mv, layout=zero)), "est-diagonal": lambda: ("diagonal", estimate_curvature("diagonal", mv=mv, layout=zero)),
             "est-lanczos": lambda: ("lanczos", estimate_curvature("lanczos", mv=mv, layout=zero, rank=P, key=jax.random.key(int(rng.integers(100)))))}
    reps = {"all": ["full", "terms"] + (["diagonal"] if diag else []), "joint": ["joint"]}.get(rep, [rep])
    vals = {}
    data = {"input": X, "target": Y}
    for r in reps:
        if r != "joint":
            (name, est), err = outcome(build[r]) if True else None
            if err:
                rec.ev("Value", rep=r, what="evidence", a=a0, err=err, sh=[], v=0)
                continue
            if rng.random() < 0.5:
                name = CurvApprox(name)

        def value(tau):
            pa = {"prior_prec": tau, **sig}
            if r == "joint":
                return joint_log_likelihood(concatenate_model_and_loss_fn(model_fn, loss, vmap_over_data=not batched), pa, params, data)
            return marginal_log_likelihood(est, pa, data, model_fn, params, loss, name, **kw)
        taus = [t / 4 * z for t in ts]
        if sc["mode"] == "vmap":
            o, err = outcome(jax.vmap(value), f32(taus))
            outs = [(None if err else o[i], err) for i in range(len(ts))]
        else:
            f = jax.jit(value) if sc["mode"] == "jit" else value
            outs = [outcome(f, x if rng.random() < 0.5 else f32(x)) for x in taus]
        for t, (o, err) in zip(ts, outs):
            v = 0 if err else q(o, U)[0]
            rec.ev("Value", rep=r, what="joint" if r == "joint" else "evidence", a=dict(a0, t=t), err=err, sh=[] if err else sh(o), v=v)
            if not err:
                vals.setdefault(t, []).append(v)
    if len(reps) > 1:
        for t, vs in vals.items():
            rec.ev("Agree", vs=vs)


if __name__ == "__main__":
    import sys
    main(sys.modules[__name__])
