"""C09 / C10: predictions of a weight Gaussian (linearised and ensemble)."""
import json
import numpy as np
from common import outcome, q, qs, sh
import trees as T
import poly

import jax
import jax.numpy as jnp
from laplax.curv.cov import Posterior, set_posterior_fn
from laplax.curv.utils import LowRankTerms
from laplax.eval import pushforward as pw
from laplax.util.tree import normal_like, randn_like

K = 1000
OSH = ((), (1,), (2,), (3,), (2, 2), (1, 3), (2, 1, 2), (2,), (3,), (4,))
KINDS = ("custom", "full", "diagonal", "terms", "custom", "full")
LIN = dict(pred_mean=pw.lin_pred_mean, pred_cov=pw.lin_pred_cov, pred_var=pw.lin_pred_var, pred_std=pw.lin_pred_std, samples=pw.lin_samples)
NON = dict(pred_mean=pw.nonlin_pred_mean, pred_cov=pw.nonlin_pred_cov, pred_var=pw.nonlin_pred_var, pred_std=pw.nonlin_pred_std, samples=pw.nonlin_samples)


def scenarios(tier, seed, gen, kind, nq, nt):
    rng = np.random.default_rng([seed, 9 if kind == "lin" else 10])
    cases = [c for c in map(json.loads, open(gen)) if c["kind"] == kind]
    long = [c for c in cases if len(c["fns"]) > 3]
    short = [c for c in cases if len(c["fns"]) <= 3]
    n = nq if tier == "quick" else nt
    pick = lambda cs, m: [cs[i] for i in rng.choice(len(cs), m, replace=m > len(cs))]
    cs = [c for ab in zip(pick(long, n // 2), pick(short, n // 2)) for c in ab]
    return [dict(c, i=i) for i, c in enumerate(cs)]


def world(rng, deg, lo, hi, zmax, jmax, linear=False, shapes=None):
    """random model, parameters, inputs"""
    while True:
        t = T.renumber(T.random_tree(rng, int(rng.integers(1, 4))) if shapes is None else T.random_tree(rng, 2, shapes))[0]
        if lo <= T.size(t) <= hi:
            break
    t = T.annotate(t, rng)
    lay = poly.Layout(t)
    P = lay.P
    osh = OSH[int(rng.integers(len(OSH)))]
    C = int(np.prod(osh, dtype=int))
    D = int(rng.integers(1, 3))
    while True:
        mod = poly.random_mod(rng, C, D, P, deg=deg, linear=linear)
        m = poly.Model(mod, lay, D, osh)
        th = rng.integers(-2, 3, P)
        xs = rng.integers(-2, 3, (int(rng.integers(2, 4)), D))
        b = [m.absbounds(th, x) for x in xs]
        if max(x[0].max() for x in b) <= zmax and max(x[1].max() for x in b) <= jmax and any(x[1].max() > 0 for x in b):
            return lay, m, th, xs


def unimod(rng, P):
    """integer matrix with integer inverse"""
    L = np.diag(rng.choice([1, 1, -1], P))
    for _ in range(int(rng.integers(0, P + 1))):
        i, j = rng.integers(0, P, 2)
        if i != j:
            L[i] += int(rng.choice([-1, 1])) * L[j]
    return L


def custom(rng, lay, L):
    """Posterior with covariance lsf a^2 L L^T, a and lsf taken from the call"""
    JL = jnp.asarray(L, jnp.float32)

    def fn(prior_arguments, loss_scaling_factor=1.0):
        s = prior_arguments["a"] * jnp.sqrt(jnp.asarray(loss_scaling_factor, jnp.float32))
        return Posterior(state={"s": s},
                         cov_mv=lambda st: lambda v: lay.unflat(st["s"] ** 2 * (JL @ (JL.T @ lay.flat(v)))),
                         scale_mv=lambda st: lambda v: lay.unflat(st["s"] * (JL @ lay.flat(v))))
    return fn


def posterior(rng, lay, kind, diag=None):
    """(posterior_fn, prior arguments, loss scaling or None, num, den); the covariance is num / den"""
    from drv_post import ortho
    P = lay.P
    zero = lay.unflat(jnp.zeros(P))
    lsf = None if rng.random() < 0.4 else int(rng.choice([1, 4]))
    l = 1 if lsf is None else lsf
    if kind == "custom":
        L = rng.integers(-1, 2, (P, P)) if diag is None else np.diag(diag)
        a = int(rng.integers(1, 3))
        return custom(rng, lay, L), {"a": float(a)}, lsf, l * a * a * (L @ L.T), 1
    s = None if rng.random() < 0.5 else int(rng.choice([1, 2, 4]))
    pa = {} if s is None else {"sigma_squared": float(s)}
    s = 1 if s is None else s
    if kind in ("full", "diagonal"):
        L = unimod(rng, P) if diag is None else np.diag(diag)
        if kind == "diagonal" and diag is None:
            L = np.diag(rng.choice([1, 2], P))
        M = np.linalg.inv((L @ L.T).astype(float))
        t = float(rng.choice([0.25, 0.5, 1.0]))
        C = (l * M - t * np.eye(P)) / s
        est = jnp.asarray(C if kind == "full" else np.diagonal(C), jnp.float32)
        return set_posterior_fn(kind, est, layout=zero), {"prior_prec": t, **pa}, lsf, L @ L.T, 1
    R = int(rng.integers(1, P + 1))
    if diag is not None:
        # covariance diag^2 = lsf / (t + s S_i)
        t = float(rng.choice([0.0625, 0.25]))
        S = (l / np.square(np.asarray(diag, float)) - t) / s
        est = LowRankTerms(jnp.eye(P), jnp.asarray(S, jnp.float32), jnp.asarray(0.0))
        return set_posterior_fn("lanczos", est, layout=zero), {"prior_prec": t, **pa}, lsf, np.diag(np.square(diag)), 1
    hs = ortho(rng, P, R)
    es = [int(rng.choice([1, 2, 4])) for _ in hs]      # posterior variance 1/e along h, 1 elsewhere, times lsf
    den = 1
    for h, e in zip(hs, es):
        den = int(np.lcm(den, e * int(h @ h)))
    num = den * np.eye(P, dtype=int)
    for h, e in zip(hs, es):
        num -= (den // (int(h @ h) * e)) * (e - 1) * np.outer(h, h)
    est = LowRankTerms(jnp.asarray(np.stack([h / np.linalg.norm(h) for h in hs], 1), jnp.float32),
                       jnp.asarray([(e - 1) / s for e in es], jnp.float32), jnp.asarray(0.0))
    return set_posterior_fn(("lanczos", "lobpcg")[int(rng.integers(2))], est, layout=zero), {"prior_prec": 1.0, **pa}, lsf, l * num, den


def options(rng, n, lin):
    """options that must not matter"""
    o = {}
    r = rng.random
    if r() < 0.35:
        o["precompute"] = bool(r() < 0.5)
    if r() < 0.35:
        o["set_get_weight_sample_precompute"] = bool(r() < 0.5)
    if r() < 0.35:
        o["precompute_list_batch_size"] = int(rng.integers(1, n + 2))
    if r() < 0.35:
        o["weight_batch_size"] = int(rng.integers(1, n + 2))
    if r() < 0.35:
        o["lin_samples_batch_size" if lin else "nonlin_setup_batch_size"] = int(rng.integers(1, n + 2))
    if lin and r() < 0.3:
        o["mv_jittable"] = bool(r() < 0.5)
    return o


def predict(rng, fn, xs, x):
    """prediction of input x: plain, compiled or as part of a mapped batch"""
    X = jnp.asarray(xs, jnp.float32)
    r = rng.random()
    if r < 0.4:
        return fn(X[x])
    if r < 0.7:
        return jax.jit(fn)(X[x])
    out = (jax.vmap if r < 0.85 else lambda f: lambda z: jax.lax.map(f, z))(fn)(X)
    return {k: v[x] for k, v in out.items()}


def entries(rec, rng, fn, xs, names, vmapped=True):
    for x in (range(len(xs)) if rng.random() < 0.2 else [int(rng.integers(len(xs)))]):
        r, err = outcome(predict, rng, fn, xs, x)
        if err:
            rec.ev("Entry", nm="prediction", x=x + 1, sh=[], v=[], err=err)
            continue
        for n in ["map"] + [m for i, m in enumerate(names) if m not in names[:i]]:
            if n not in r:
                rec.ev("Missing", nm=n)
            else:
                rec.ev("Entry", nm=n, x=x + 1, sh=sh(r[n]), v=q(r[n], K), err="")


def call(fn, pa, lsf):
    return fn(pa) if lsf is None else fn(pa, lsf)


def lkw(rng, lsf):
    return {} if lsf is None else {"loss_scaling_factor": float(lsf) if rng.random() < 0.6 else jnp.asarray(float(lsf))}


def begin(rec, m, th, xs, num, den, W, kind, cnt, label, **kw):
    rec.ev("Begin", mod=m.mod, th=[int(v) for v in th], xs=xs.tolist(), osh=list(m.osh), num=np.asarray(num).tolist(), den=int(den),
           W=[q(r, K) for r in W], kind=kind, cnt=cnt, label=label, **kw)


def run_lin(sc, rec, rng):
    kind = KINDS[sc["i"] % len(KINDS)]
    while True:
        lay, m, th, xs = world(rng, 3, 1, 5, 2000, 60)
        pf, pa, lsf, num, den = posterior(rng, lay, kind)
        if den <= 72 and all(J.max() * 1.0 <= 10000 * den and J.max() <= 200000 for J in (
                np.abs(b[1] @ np.abs(num) @ b[1].T) for b in (m.absbounds(th, x) for x in xs))):
            break
    n = int(rng.integers(1, 6))
    key = jax.random.key(int(rng.integers(1000)))
    params = lay.unflat(jnp.asarray(th, jnp.float32))
    st = call(pf, dict(pa), lsf)
    names = list(sc["fns"])
    with_samples = "samples" in names
    W = []
    if with_samples:
        g = pw.set_get_weight_sample(key, lay.unflat(jnp.zeros(lay.P)), st.scale_mv(st.state), n)
        W = [np.asarray(lay.flat(g(i)), float) for i in range(n)]
    begin(rec, m, th, xs, num, den, W, "lin", 0, f"{kind}:{len(m.osh)}d:P{lay.P}")
    fns = [pw.lin_setup] + [LIN[f] for f in names]
    if rng.random() < 0.25 and m.osh and with_samples:
        fns.insert(int(rng.integers(1, len(fns) + 1)), pw.lin_mc_pred_act if len(m.osh) >= 1 else pw.lin_pred_mean)
    kept, before = dict(pa), [np.array(v) for v in jax.tree.leaves(params)]
    opts = options(rng, n, True)
    if with_samples:
        opts.update(num_samples=n, key=key)
    elif rng.random() < 0.3:
        opts.update(num_samples=int(rng.integers(0, 3)), key=key)
    if sorted(names) == sorted(LIN) and rng.random() < 0.3:
        names = list(LIN)
        fn, err = outcome(pw.set_lin_pushforward, m.fn, params, pf, pa, **lkw(rng, lsf), **opts)
    else:
        keep = list(fns)
        fn, err = outcome(pw.set_lin_pushforward, model_fn=m.fn, mean_params=params, posterior_fn=pf, prior_arguments=pa, **lkw(rng, lsf), pushforward_fns=fns, **opts)
        rec.ev("Unchanged", what="functions", ok=len(keep) == len(fns) and all(a is b for a, b in zip(keep, fns)))
    if err:
        rec.ev("Entry", nm="setup", x=1, sh=[], v=[], err=err)
    else:
        entries(rec, rng, fn, xs, names)
        if rng.random() < 0.3:
            entries(rec, rng, fn, xs, names)
    # kernel
    X = jnp.asarray(xs, jnp.float32)
    for _ in range(2):
        a, b = int(rng.integers(len(xs))), int(rng.integers(len(xs)))
        dense = rng.random() < 0.5
        kw = lkw(rng, lsf)
        C = int(np.prod(m.osh, dtype=int))
        if dense:
            lay_o = C if rng.random() < 0.6 else jnp.zeros(m.osh)
            r, err = outcome(pw.set_posterior_gp_kernel, m.fn, params, pf, pa, **kw, dense=True, output_layout=lay_o)
            if not err:
                kf = jax.jit(r[0]) if rng.random() < 0.3 else r[0]
                r, err = outcome(kf, X[a], X[b])
            rec.ev("Kernel", form="dense", a=a + 1, b=b + 1, vec=[], sh=[] if err else sh(r), v=[] if err else q(r, K), err=err)
        else:
            vec = rng.integers(-2, 3, C)
            r, err = outcome(pw.set_posterior_gp_kernel, model_fn=m.fn, mean=params, posterior_fn=pf, prior_arguments=pa, **kw, **({"dense": False} if rng.random() < 0.3 else {}))
            if not err:
                kf, ds = r
                r, err = outcome(kf, jnp.asarray(vec, jnp.float32).reshape(m.osh if rng.random() < 0.7 else (-1,)), X[a], X[b], ds)
            rec.ev("Kernel", form="mv", a=a + 1, b=b + 1, vec=[int(v) for v in vec], sh=[] if err else sh(r), v=[] if err else q(r, K), err=err)
    if rng.random() < 0.2:
        _, err = outcome(pw.set_posterior_gp_kernel, m.fn, params, pf, pa, dense=True)
        rec.ev("Raise", what="dense-kernel-without-layout", err=err, want="ValueError")
    if rng.random() < 0.2:
        good = dict(posterior_state=st, jvp=lambda *a: 0, vjp=lambda *a: 0)
        for bad in good:
            for v in (None, 3, {"state": st}):
                r = {"map": jnp.ones(2)}
                _, err = outcome(pw.lin_setup, r, {"model_fn": m.fn, "mean_params": params}, X[0], {**good, bad: v})
                rec.ev("Raise", what=f"setup-{bad}", err=err, want="TypeError")
    rec.ev("Unchanged", what="arguments", ok=list(kept.items()) == list(pa.items()))
    rec.ev("Unchanged", what="parameters", ok=all(np.array_equal(a, b) for a, b in zip(before, jax.tree.leaves(params))))


def run_nonlin(sc, rec, rng):
    linear = rng.random() < 0.35
    n = int(rng.integers(1, 8))
    kind = ("custom", "custom", "full", "diagonal", "terms")[sc["i"] % 5]
    seed = int(rng.integers(1000))
    key = jax.random.key(seed) if rng.random() < 0.8 else jax.random.PRNGKey(seed)
    pk = None if rng.random() < 0.08 else key   # no key: a fixed one
    ident = lambda v: v
    while True:
        lay, m, th, xs = world(rng, 2, 1, 5, 30, 20, linear=linear, shapes=None if rng.random() < 0.5 else ((2,), (2, 1), (), (3,)))
        P = lay.P
        zero = lay.unflat(jnp.zeros(P))
        if kind == "custom":
            L = rng.integers(-1, 2, (P, P))
            pf, pa, lsf, _, _ = custom(rng, lay, L), {"a": float(rng.integers(1, 3))}, (None if rng.random() < 0.5 else 4), 0, 0
            L = L * int(pa["a"]) * (1 if lsf is None else 2)
        else:
            L = np.diag(rng.choice([1, 2], P))
            pf, pa, lsf, _, _ = posterior(rng, lay, kind, diag=np.diagonal(L))
        g = pw.set_get_weight_sample(pk, zero, ident, n)
        E = np.stack([np.asarray(lay.flat(g(i)), float) for i in range(n)])
        W = E @ L.T
        big = max(m.absbounds(np.abs(th) + np.abs(W).max(0), x)[0].max() for x in xs)
        if big <= 120:
            break
    params = lay.unflat(jnp.asarray(th, jnp.float32))
    names = list(sc["fns"])
    begin(rec, m, th, xs, np.eye(P, dtype=int), 1, W, "nonlin", min(5, n), f"{kind}:{len(m.osh)}d:P{P}:n{n}{':linear' if linear else ''}", L=L.tolist(), E=[q(r, K) for r in E])
    st = call(pf, dict(pa), lsf)
    # noise
    off, bounds = 0, []
    for i in lay.ids:
        s = int(np.prod(lay.shp[i], dtype=int))
        if s:
            bounds.append([off + 1, off + s])
        off += s
    rec.ev("Noise", E=[q(r, 10**8) for r in E], bounds=bounds, err="")
    # the same sample whatever the options
    forms = ["direct", "direct", "dist", "distlin", "more", "fewer"]
    for f in [forms[i] for i in rng.permutation(len(forms))[:3]]:
        o = options(rng, n, False)
        n2 = n + 2 if f == "more" else max(1, n - 1) if f == "fewer" else n
        mean = th
        if f in ("dist", "distlin"):
            r, err = outcome(pw.get_dist_state, params, m.fn, st, linearized=f == "distlin", num_samples=n2, key=pk, **o)
            gs = None if err else r["get_weight_samples"]
            mean = np.zeros(P, int) if f == "distlin" else th
        else:
            gs, err = outcome(pw.set_get_weight_sample, pk, params, st.scale_mv(st.state), n2, **o)
        for _ in range(2):
            i = int(rng.integers(min(n, n2)))
            v = None
            if not err:
                ii = i if rng.random() < 0.5 else jnp.asarray(i)
                v, err = outcome(jax.jit(gs) if rng.random() < 0.3 else gs, ii)
            ob = dict(ok=True) if err else lay.obs(v, 1)
            good = ob["ok"] and (err or [tuple(s) for s in ob["sh"]] == [lay.shp[k + 1] for k in range(len(ob["sh"]))])
            rec.ev("Weight", i=i + 1, mean=[int(z) for z in mean], ok=bool(good), v=q(lay.flat(v), K) if good and not err else [], err=err)
            if err:
                break
    # the container noise itself
    tmpl = params
    k2 = jax.random.split(key)[0]
    u, e1 = outcome(randn_like, key, tmpl)
    v, _ = outcome(randn_like, key, jax.tree.map(lambda z: z + 1, tmpl))
    z, _ = outcome(randn_like, k2, tmpl)
    if e1:
        rec.ev("Noise", E=[], bounds=bounds, err=e1)
    else:
        fu, fv, fz = (q(lay.flat(x), 10**8) for x in (u, v, z))
        rec.ev("Again", what="randn_like", a=fu, b=fv, err="")
        rec.ev("Differ", what="randn_like", a=fu, b=fz)
        rec.ev("Noise", E=[fu, fz], bounds=bounds, err="")
        y, e2 = outcome(normal_like, key, params, st.scale_mv(st.state))
        rec.ev("Again", what="normal_like", a=[] if e2 else q(lay.flat(y), 100), b=q(jnp.asarray(th) + jnp.asarray(L) @ lay.flat(u), 100) if not e2 else [], err=e2)
    # ensemble entries
    fns, cnt = [NON[f] for f in names], min(5, n)
    if rng.random() < 0.25:
        cnt = int(rng.integers(1, n + 1))
        c0 = cnt
        fns = [(lambda **kw: pw.nonlin_samples(num_samples=c0, **kw)) if f is pw.nonlin_samples else f for f in fns]
        rec.ev("Options", kind="nonlin", cnt=cnt)
    fns = [pw.nonlin_setup] + fns
    if rng.random() < 0.25 and m.osh and n >= 5 and cnt == 5:
        fns.insert(int(rng.integers(1, len(fns) + 1)), pw.nonlin_mc_pred_act)
    opts = options(rng, n, False)
    kept, before = dict(pa), [np.array(v) for v in jax.tree.leaves(params)]
    if sorted(names) == sorted(NON) and cnt == min(5, n) and rng.random() < 0.3:
        names = list(NON)
        fn, err = outcome(pw.set_nonlin_pushforward, m.fn, params, pf, pa, key=pk, num_samples=n, **lkw(rng, lsf), **opts)
    else:
        fn, err = outcome(pw.set_nonlin_pushforward, model_fn=m.fn, mean_params=params, posterior_fn=pf, prior_arguments=pa, key=pk, **lkw(rng, lsf), pushforward_fns=fns, num_samples=n, **opts)
    if err:
        rec.ev("Entry", nm="setup", x=1, sh=[], v=[], err=err)
    else:
        entries(rec, rng, fn, xs, names)
        if rng.random() < 0.3:
            entries(rec, rng, fn, xs, names)
    if linear:
        rec.ev("Options", kind="lin", cnt=0)
        fn, err = outcome(pw.set_lin_pushforward, m.fn, params, pf, pa, **lkw(rng, lsf), pushforward_fns=[pw.lin_setup, pw.lin_samples], num_samples=n, key=pk, **options(rng, n, True))
        if err:
            rec.ev("Entry", nm="setup", x=1, sh=[], v=[], err=err)
        else:
            entries(rec, rng, fn, xs, ["samples"])
    if sc["i"] % 16 == 3:
        sa, sb, sc_ = [((50, 8), (400,), (200, 2)), ((20, 20),) * 3, ((400,), (400,), (20, 20)), ((2, 200), (200, 2), (200, 2))][int(rng.integers(4))]
        t2 = {"a": jnp.zeros(sa), "b": jnp.zeros(sb), "c": [jnp.zeros(sc_)]}
        r = [randn_like(kk, t2) for kk in jax.random.split(key, 10)]
        a, b, c = (np.concatenate([np.asarray(x[n_] if n_ != "c" else x["c"][0]).reshape(-1) for x in r]).astype(float) for n_ in "abc")
        for u, v in ((a, b), (b, c), (c, a), (a[:-1], a[1:]), (b[400:], b[:-400])):
            rec.ev("Moments", n=int(len(u)), s1=qs(u.sum(), K), s2=qs((u**2).sum(), K), s4=qs((u**4).sum(), K), cross=qs((u * v).sum(), K))
    rec.ev("Unchanged", what="arguments", ok=list(kept.items()) == list(pa.items()))
    rec.ev("Unchanged", what="parameters", ok=all(np.array_equal(a, b) for a, b in zip(before, jax.tree.leaves(params))))
