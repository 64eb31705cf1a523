"""C13: calibrations of a linear model with a diagonal curvature."""
import json
import math
import numpy as np
from common import main, outcome, q, qs
import poly
import trees as T

import jax
import jax.numpy as jnp
from laplax import api
from laplax.curv.cov import set_posterior_fn
from laplax.curv.utils import LowRankTerms
from laplax.enums import CalibrationMethod, CalibrationObjective, CurvApprox, LossFn, Predictive, Pushforward
from laplax.eval import pushforward as pw
from laplax.eval.calibrate import optimize_prior_prec
from laplax.register import register_calibration_method

U, M6 = 10000, 1000000
f32 = lambda x: jnp.asarray(x, jnp.float32)
SPECIAL = ("laplace_bridge", "mean_field_0", "mean_field_1", "mean_field_2")


def supported(c):
    cls = c["predictive"] != "none"
    return not ((c["push"] == "nonlinear" and c["predictive"] in SPECIAL) or (cls and c["objective"] == "chi_squared") or (not cls and c["objective"] == "ece"))


def scenarios(tier, seed, gen):
    rng = np.random.default_rng([seed, 13])
    cases = [json.loads(x) for x in open(gen)]
    good = [c for c in cases if supported(c)]
    bad = [c for c in cases if not supported(c)]
    # every supported (objective, predictive, pushforward) equally often
    groups = {}
    for c in good:
        groups.setdefault((c["objective"], c["predictive"], c["push"]), []).append(c)
    gs = list(groups.values())
    n = 240 if tier == "quick" else 4800
    out = []
    for j in range(n):
        g = gs[j % len(gs)]
        out.append(dict(g[int(rng.integers(len(g)))], bad=[bad[int(k)] for k in rng.integers(0, len(bad), 2)]))
    return out


def spell(rng, enum, v, how):
    if how == "enum":
        return enum(v)
    if how == "upper":
        return v.upper() if rng.random() < 0.5 else "".join(ch.upper() if rng.random() < 0.5 else ch for ch in v)
    return v


def world(rng, cls, lims):
    tmax = 10.0 ** (lims[1] / 1000)
    while True:
        while True:
            t = T.annotate(T.renumber(T.random_tree(rng, int(rng.integers(1, 4))))[0], rng)
            if 1 <= T.size(t) <= 5:
                break
        lay = poly.Layout(t)
        P, D = lay.P, int(rng.integers(1, 3))
        osh = [(2,), (3,)][int(rng.integers(2))] if cls else [(), (1,), (2,), (3,)][int(rng.integers(4))]
        C = int(np.prod(osh, dtype=int))
        par = rng.integers(1, P + 1, C)
        mod = []
        for c in range(C):
            o = [dict(c=int(rng.choice([-2, -1, 1, 2])), xs=[int(v) for v in rng.integers(1, D + 1, int(rng.integers(0, 2)))], ps=[int(par[c])])]
            if rng.random() < 0.6:
                o.append(dict(c=int(rng.choice([-2, -1, 1, 2])), xs=[int(v) for v in rng.integers(1, D + 1, int(rng.integers(0, 2)))], ps=[]))
            mod.append(o)
        m = poly.Model(mod, lay, D, osh)
        th = rng.integers(-2, 3, P)
        N = int(rng.integers(1, 7 if not cls else 9))
        xs = rng.choice([-3, -2, -1, 1, 2, 3], (N, D))
        zs = np.array([m.values(th, x) for x in xs]).reshape(N, C)
        d = rng.integers(0, 9, P)
        if cls:
            if any(len(set(z)) < C for z in zs):
                continue
            ts = np.where(rng.random((N, 1)) < 0.6, zs.argmax(1)[:, None], rng.integers(0, C, (N, 1))) + 1
            t1 = np.eye(C, dtype=int)[ts[:, 0] - 1]
        else:
            ts = zs + rng.integers(-3, 4, (N, C))
            t1 = ts
        J = np.array([[mod[c][0]["c"] * np.prod([x[i - 1] for i in mod[c][0]["xs"]]) for c in range(C)] for x in xs])
        z2 = (zs - t1) ** 2 * (d[par - 1] + tmax) / J**2
        if z2.sum() < 90000 and N * C <= 24 and ((zs - t1) ** 2).max() * (8 + tmax) < 180000:
            return lay, m, th, xs, ts, d, par, zs


def run(sc, rec, rng):
    cls = sc["predictive"] != "none"
    kind = sc["method"]
    # grid, in thousandths of log10
    default_grid = rng.random() < 0.06 and kind == "grid"
    los = [-2000, -1500, -1000, -500, 0]
    lo = int(los[int(rng.integers(5))])
    hi = int(rng.choice([0, 500, 1000, 1500, 2000]))
    lo = lo if lo < hi else -1000
    size = int(rng.integers(2, 9))
    pat = int(rng.integers(1, 3)) if rng.random() < 0.3 and kind == "grid" else 0
    if default_grid:
        lo, hi, size = -3000, 3000, 50
    lay, m, th, xs, ts, d, par, zs = world(rng, cls, (lo, min(hi, 2000)))
    P, C, N = lay.P, len(m.mod), len(xs)
    params = lay.unflat(f32(th))
    zero = lay.unflat(jnp.zeros(P))
    curv = ("diagonal", "full", "lanczos", "lobpcg")[int(rng.integers(4))]
    est = f32(d) if curv == "diagonal" else f32(np.diag(d)) if curv == "full" else LowRankTerms(jnp.eye(P), f32(d), jnp.asarray(0.0))
    pf = set_posterior_fn(curv, est, layout=zero)
    obj = sc["objective"]
    mll = obj == "marginal_log_likelihood"
    L = dict(kind="ce" if cls else ("mse", "custom")[int(rng.integers(2))], K=C, S=1, w=[int(v) for v in rng.integers(1, 4, 3)])
    ys = np.eye(C, dtype=int)[ts[:, 0] - 1] if cls else ts
    wv = L["w"]
    loss = {"mse": LossFn.MSE, "ce": LossFn.CROSS_ENTROPY, "custom": lambda p, t: jnp.sum(wv[0] * jnp.abs(p - t) + wv[1] * p * t + wv[2])}[L["kind"]]
    cfg = {k: sc[k] for k in ("objective", "predictive", "push")}
    rec.ev("Begin", label=f"{obj}:{sc['predictive']}:{sc['push']}:{kind}:{sc['form']}:{curv}", cfg=cfg, mod=m.mod, th=[int(v) for v in th], xs=xs.tolist(), ts=ts.tolist(), ys=ys.tolist(),
           d=d.tolist(), par=par.tolist(), L=L, mll=mll)
    X = f32(xs)
    Y = jnp.asarray(ts[:, 0] - 1, jnp.int32) if cls else f32(ts.reshape((N,) + m.osh))
    data = {"tuple": (X, Y), "list": [X, Y], "dict": {"target": Y, "input": X} if rng.random() < 0.5 else {"input": X, "target": Y}}[sc["form"]]
    how = sc["spell"]
    key = jax.random.key(int(rng.integers(100)))
    ns = int(rng.integers(3, 9))
    batched = mll and rng.random() < 0.3
    lin = sc["push"] == "linear"
    own_fns = None
    if not cls and rng.random() < 0.4:
        own_fns = [pw.lin_setup, pw.lin_pred_mean, pw.lin_pred_std] if lin else [pw.nonlin_setup, pw.nonlin_pred_mean, pw.nonlin_pred_std]
    kept_fns = None if own_fns is None else list(own_fns)
    args = dict(posterior_fn=pf, model_fn=m.fn_batched if batched else m.fn, params=params, data=data, loss_fn=loss, curv_estimate=est,
                curv_type=CurvApprox(curv) if rng.random() < 0.7 else curv, sample_key=key, num_samples=ns, objective_jit=sc["jit"])
    if batched:
        args["vmap_over_data"] = False
    if own_fns is not None:
        args["pushforward_fns"] = own_fns
    names = {}
    if cls or rng.random() < 0.5:
        names["predictive_type"] = spell(rng, Predictive, sc["predictive"], how)
    if not lin or rng.random() < 0.5:
        names["pushforward_type"] = spell(rng, Pushforward, sc["push"], how)
    if obj != "nll" or rng.random() < 0.5:
        names["calibration_objective"] = spell(rng, CalibrationObjective, obj, how)
    seen = dict(evals=[], opts=None, data=None, objective=None)
    saved = dict(api.calibration_options)
    before = [np.array(v) for v in jax.tree.leaves(params)]
    kd = jax.tree.map(np.array, data)
    ret = {}

    def watch(f):
        def g(a):
            v = f(a)
            seen["evals"].append((float(a["prior_prec"]), v, sorted(map(str, a))))
            return v
        return g

    def spy(objective, **kw):
        seen["opts"] = kw
        return optimize_prior_prec(watch(objective), **kw)

    def custom(objective, data, **kw):
        seen.update(opts=dict(kw), data=data, objective=objective)
        ret["x"] = {"prior_prec": jnp.asarray(float(kw["value"]))}
        return ret["x"]

    def grid_kw():
        if default_grid:
            return {}
        g = dict(log_prior_prec_min=lo / 1000, log_prior_prec_max=hi / 1000, grid_size=size)
        if pat:
            g["patience"] = pat
        return g
    try:
        if kind == "custom":
            nm = f"method {int(rng.integers(3))}" if rng.random() < 0.5 else "MyMethod"
            register_calibration_method(nm, custom)
            opts = dict(value=float(rng.choice([0.1, 1.0, 3.0])), depth=int(rng.integers(5)), mode="fast")
            r, err = outcome(api.calibration, **args, **names, calibration_method=nm, **opts)
        else:
            if kind == "grid":
                register_calibration_method(CalibrationMethod.GRID_SEARCH if rng.random() < 0.5 else "grid_search", spy)
            if rng.random() < 0.5:
                names["calibration_method"] = spell(rng, CalibrationMethod, "grid_search", how)
            r, err = outcome(api.calibration, **args, **names, **grid_kw())
    finally:
        for k in list(api.calibration_options):
            if k not in saved:
                api.calibration_options.pop(k)
        for k, v in saved.items():
            api.calibration_options[k] = v
    pa, ctor = r if not err else ({}, None)
    keys = sorted(map(str, pa)) if isinstance(pa, dict) else ["?"]
    log = lambda t: qs(math.log10(t), 1000) if t > 0 else -999999
    tau = float(pa["prior_prec"]) if "prior_prec" in keys else 0.0
    compiled = {}

    def preds(t):
        """predictions of the returned constructor at prior precision t"""
        if "f" not in compiled:
            compiled["f"] = jax.jit(lambda s: jax.vmap(ctor(prior_arguments={"prior_prec": s}))(X))
        return compiled["f"](t)

    def obj_event(t, v, e):
        p = dict(m=[], s=[], act=[], perr="")
        if not e and (obj == "ece" or (not lin and not mll)):
            o, perr = outcome(preds, t)
            p["perr"] = perr
            if not perr:
                p["m"], p["s"] = q(o["pred_mean"], U), q(o["pred_std"], U)
                p["act"] = [q(z, M6) for z in o["pred_act"]] if cls else []
        rec.ev("Obj", t6=qs(t, M6), v=0 if e else qs(v, U), err=e, **p)
    if kind == "grid":
        rec.ev("Search", lo=lo, hi=hi, size=size, pat=pat)
        vals = [float(v) for _, v, _ in seen["evals"]]
        fin = sorted({v for v in vals if not math.isnan(v)})
        rank = [fin.index(v) if not math.isnan(v) else 2000001 for v in vals]
        for (t, v, ks), k in zip(seen["evals"], rank):
            rec.ev("Eval", log=log(t), rank=int(k), keys=ks)
        rec.ev("Return", err=err, keys=keys, log=log(tau))
        pick = range(len(vals)) if size < 20 else rng.choice(len(vals), min(6, len(vals)), replace=False)
        for i in pick:
            obj_event(seen["evals"][i][0], vals[i], "")
    elif kind == "plain":
        if obj != "ece" and (lin or mll):
            t6s = [qs(10 ** ((lo * (size - 1 - k) + hi * k) / (size - 1) / 1000), M6) for k in range(size)]
            rec.ev("Plain", err=err, keys=keys, log=log(tau), lo=lo, hi=hi, size=size, t6s=t6s)
        elif err:
            rec.ev("Return", err=err, keys=keys, log=0)
    else:
        rec.ev("Same", what="accepted-custom-method", ok=not err)
        if not err:
            rec.ev("Same", what="result-of-the-method", ok=pa is ret["x"] or dict(pa) == dict(ret["x"]))
            rec.ev("Same", what="options-of-the-method", ok=seen["opts"] == opts)
            dd = seen["data"]
            rec.ev("Same", what="data-of-the-method", ok=isinstance(dd, dict) and np.array_equal(dd["input"], X) and np.array_equal(dd["target"], Y))
            for t in (0.1, 1.0, 4.0):
                a = {"prior_prec": t if rng.random() < 0.5 else jnp.asarray(t)}
                v, e = outcome(seen["objective"], a, {"input": X, "target": Y})
                obj_event(t, v, e)
            # other data than the calibration data
            if lin and not mll and obj != "ece" and N > 1:
                v, e = outcome(seen["objective"], {"prior_prec": 1.0}, {"input": jnp.concatenate([X, X]), "target": jnp.concatenate([Y, Y])})
                obj_event(1.0, v, e)
    if not err and not batched and kind != "custom" and tau > 0:
        x = int(rng.integers(N))
        o, e = outcome(lambda: ctor(prior_arguments=pa)(X[x]))
        if lin:
            rec.ev("Predict", x=x + 1, t6=min(qs(tau, M6), 110000000), m=[] if e else q(o["pred_mean"], U), s=[] if e else q(o["pred_std"], U), err=e) if tau <= 100 and tau >= 0.009 else None
        if not e and (not lin or sc["predictive"] == "mc_bridge"):
            setter = pw.set_lin_pushforward if lin else pw.set_nonlin_pushforward
            fns = [pw.lin_setup, pw.lin_pred_mean, pw.lin_pred_std] if lin else [pw.nonlin_setup, pw.nonlin_pred_mean, pw.nonlin_pred_std]
            if cls:
                fns.append(pw.lin_mc_pred_act if lin else pw.nonlin_mc_pred_act)
            ref = setter(model_fn=m.fn, mean_params=params, posterior_fn=pf, prior_arguments=pa, pushforward_fns=fns, key=key, num_samples=ns)(X[x])
            a, b = (o["pred_act"], ref["mc_pred_act"]) if cls else (o["pred_std"], ref["pred_std"])
            rec.ev("Same", what="samples-of-the-constructor", ok=bool(np.allclose(a, b, rtol=1e-3, atol=1e-4)))
    if own_fns is not None:
        rec.ev("Same", what="pushforward-functions", ok=len(own_fns) == len(kept_fns) and all(a is b for a, b in zip(own_fns, kept_fns)))
    rec.ev("Same", what="parameters", ok=all(np.array_equal(a, b) for a, b in zip(before, jax.tree.leaves(params))))
    rec.ev("Same", what="data", ok=jax.tree.structure(kd) == jax.tree.structure(data) and all(np.array_equal(a, b) for a, b in zip(jax.tree.leaves(kd), jax.tree.leaves(data))))
    # ------------------------------------------------------------- rejections
    base = {**args, "data": (X, Y)}
    base.pop("pushforward_fns", None)
    for c in sc["bad"]:
        _, e = outcome(api.calibration, **base, predictive_type=spell(rng, Predictive, c["predictive"], c["spell"]), pushforward_type=spell(rng, Pushforward, c["push"], c["spell"]),
                       calibration_objective=spell(rng, CalibrationObjective, c["objective"], c["spell"]), grid_size=2)
        rec.ev("Reject", what=f"{c['objective']}:{c['predictive']}:{c['push']}", cfg=[{k: c[k] for k in ("objective", "predictive", "push")}], err=e)
    ok = {**base, "predictive_type": sc["predictive"], "pushforward_type": sc["push"], "calibration_objective": obj, "grid_size": 2}
    bad = [("unknown-objective", dict(calibration_objective="speed")), ("unknown-method", dict(calibration_method="annealing")), ("unknown-predictive", dict(predictive_type="oracle")),
           ("unknown-pushforward", dict(pushforward_type="cubic")), ("tuple-of-three", dict(data=(X, Y, Y))), ("tuple-of-one", dict(data=(X,))), ("list-of-four", dict(data=[X, Y, X, Y])),
           ("mapping-without-target", dict(data={"input": X})), ("mapping-without-input", dict(data={"inputs": X, "target": Y})), ("data-number", dict(data=3.0)), ("data-none", dict(data=None)), ("data-array", dict(data=X))]
    if mll:
        bad += [("mll-without-curvature", dict(curv_estimate=None)), ("mll-without-parameters", dict(params=None))] * 3
    for i in rng.permutation(len(bad))[:2]:
        what, kw = bad[i]
        if what.startswith("mll-without-p") and not lin:
            continue
        _, e = outcome(api.calibration, **{**ok, **kw})
        rec.ev("Reject", what=what, cfg=[], err=e)
    if rng.random() < 0.3:
        register_calibration_method("scratch", lambda objective, data, **kw: {"prior_prec": 1.0})
        try:
            _, e = outcome(api.calibration, **{**ok, "data": (X, Y, Y), "calibration_method": "scratch"})
        finally:
            api.calibration_options.pop("scratch", None)
        rec.ev("Reject", what="tuple-of-three-for-a-registered-method", cfg=[], err=e)


if __name__ == "__main__":
    import sys
    main(sys.modules[__name__])
