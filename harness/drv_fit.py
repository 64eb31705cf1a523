"""C19: sessions of one-call fits on one dataset, given in many forms."""
import json
import numpy as np
from common import main, outcome, q, mat
import drv_curv
import poly
import trees as T

import jax
import jax.numpy as jnp
from laplax import laplace
from laplax.api import GGN
from laplax.curv.cov import create_posterior_fn, estimate_curvature, set_posterior_fn
from laplax.curv.ggn import create_ggn_mv
from laplax.curv.utils import LowRankTerms
from laplax.enums import CurvApprox, LossFn

KE, KV = 1000, 5000


def scenarios(tier, seed, gen):
    rng = np.random.default_rng([seed, 19])
    cases = [json.loads(x) for x in open(gen)]
    n = 176 if tier == "quick" else 3200
    cases = [cases[i] for i in rng.choice(len(cases), n, replace=n > len(cases))]
    return [dict(loss=("mse", "ce", "custom", "bce", "mse", "none")[i % 6], special=(i // 6) % 3, **c) for i, c in enumerate(cases)]


class Stream:
    """re-iterable, without a length"""

    def __init__(self, batches, lazy):
        self.batches, self.lazy = batches, lazy

    def __iter__(self):
        return (b for b in self.batches) if self.lazy else iter(self.batches)


def exact(m, L, th, data):
    """Gauss-Newton matrix in floats (range checks and choice of scenarios only)"""
    G = np.zeros((m.lay.P, m.lay.P))
    for s in data:
        z = m.values(th, s["x"])
        J = np.zeros((len(m.mod), m.lay.P))
        for c, o in enumerate(m.mod):
            for mo in o:
                cx = mo["c"] * np.prod([s["x"][i - 1] for i in mo["xs"]])
                for a, p in enumerate(mo["ps"]):
                    J[c, p - 1] += cx * np.prod([th[r - 1] for r in mo["ps"][:a] + mo["ps"][a + 1:]])
        w = np.array(s["w"])
        n = len(z)
        if L["kind"] == "mse":
            H = 2 * np.eye(n)
        elif L["kind"] == "none":
            H = np.eye(n)
        elif L["kind"] == "bce":
            H = np.diag(w * (L["S"] - w)) / L["S"]**2
        elif L["kind"] == "ce":
            g = np.arange(n) // L["C"]
            H = np.where(g[:, None] == g[None], np.diag(L["S"] * w) - np.outer(w, w), 0) / L["S"]**2
        else:
            lm = [L["terms"]]
            H = np.zeros((n, n))
            for mo in lm[0]:
                cx = mo["c"] * np.prod([s["y"][i - 1] for i in mo["xs"]])
                ps = mo["ps"]
                for a in range(len(ps)):
                    ra = ps[:a] + ps[a + 1:]
                    for b in range(len(ra)):
                        H[ps[a] - 1, ra[b] - 1] += cx * np.prod([z[r - 1] for r in ra[:b] + ra[b + 1:]])
        G += J.T @ H @ J
    return G


def spread(ev):
    """distinct eigenvalues, well separated"""
    nz = np.sort(ev[np.abs(ev) > 1e-9])
    if len(nz) == 0 or nz[0] < 0.03 * nz[-1]:
        return False
    return len(nz) == 1 or np.min(np.diff(nz)) > 0.05 * nz[-1]


def run(sc, rec, rng):
    for _ in range(4000):
        # one draw; sizes as the case wants them
        inst = drv_curv.instance(dict(kind="rand", loss=sc["loss"], linear=bool(rng.random() < 0.4)), rng, "ggn")
        m, L, th, data, t = inst
        data = (data * 4)[:sc["n"]] if rng.random() < 0.2 else data
        if len(data) != sc["n"]:
            continue
        G = exact(m, L, th, data)
        ev = np.linalg.eigvalsh(G)
        if ev.min() < -1e-6 * max(1, abs(ev).max()) or np.abs(G).max() > 300:
            continue
        rank = int((ev > 1e-6 * max(1e-9, ev.max())).sum())
        kinds = {o["kind"] for o in sc["ops"] if o["op"] == "fit"}
        if sc["special"] == 1 and "lanczos" in kinds and not spread(ev):
            continue
        if sc["special"] == 2 and "lobpcg" in kinds and not (m.lay.P >= 6 and rank == 1) and _ < 3000:
            continue
        break
    lay, B, C, S, kind = m.lay, len(data), len(m.mod), L["S"], L["kind"]
    P = lay.P
    can_lan, can_lob = spread(ev), P >= 6 and rank == 1
    rec.ev("Begin", mod=m.mod, L=L, th=th, data=data, label=f"{kind}:{sc['n']}:" + "+".join(o["form"] for o in sc["ops"] if o["op"] == "fit"))
    X = np.zeros((B, m.D + (C if m.offs else 0)), np.float32)
    for b, s in enumerate(data):
        X[b, :m.D] = s["x"]
        if m.offs:
            z = m.values(th, s["x"])
            for c in range(C):
                w = s["w"][c]
                X[b, m.D + c] = drv_curv.logit(kind, w, S, 30.0) - z[c]
    Y = (np.array([s["y"] for s in data], np.float32) / (S if m.offs else 1)).reshape((B, *m.osh))
    if kind == "ce" and len(m.osh) == 1 and all(max(s["y"]) == S for s in data) and rng.random() < 0.5:
        Y = np.argmax(Y, axis=-1).astype(np.int32)
    f32 = lambda x: jnp.asarray(x, jnp.float32)  # noqa: E731
    host = rng.random() < 0.2  # numpy arrays as data
    X, Y = (X, Y) if host else (jnp.asarray(X), jnp.asarray(Y))
    params = lay.unflat(f32(th))
    enumd = {"mse": LossFn.MSE, "none": LossFn.NONE, "ce": LossFn.CROSS_ENTROPY, "bce": LossFn.BINARY_CROSS_ENTROPY}
    loss = drv_curv.custom(L["terms"], C) if kind == "custom" else (enumd[kind] if rng.random() < 0.6 else enumd[kind].value)
    kept = []
    flat = lambda o: _flat(lay, o)  # noqa: E731
    p0 = [np.array(x) for x in jax.tree.leaves(params)]
    pfs, posts = [], []
    kindof = []

    def batches(cuts):
        at = np.cumsum([0, *cuts])
        return [(X[a:b], Y[a:b]) for a, b in zip(at, at[1:])]

    def form(f, cuts):
        """data argument, transform"""
        bs = batches(cuts)
        mp = lambda x, y: {"input": x, "target": y} if rng.random() < 0.5 else {"target": y, "input": x}  # noqa: E731
        extra = lambda d: {**d, "index": jnp.arange(len(d["input"]))} if rng.random() < 0.3 else d  # noqa: E731
        lazy = bool(rng.random() < 0.5)
        if f in ("pair", "steps"):
            return (X, Y), None
        if f == "mapping":
            return extra(mp(X, Y)), None
        if f in ("stream-pair", "steps-stream"):
            return Stream(bs, lazy), None
        if f == "stream-list":
            return Stream([list(b) for b in bs], lazy), None
        if f == "stream-mapping":
            return Stream([mp(*b) for b in bs], lazy), None
        sw = lambda b: {"input": b[1], "target": b[0]}  # noqa: E731
        if f == "transform-pair":
            return (Y, X), sw
        if f == "transform-mapping":
            return {"x": X, "y": Y}, lambda b: {"input": b["x"], "target": b["y"]}
        st = [(y, x) for x, y in bs]
        return (Stream(st, lazy) if f == "transform-stream" else st), sw

    def content(d):
        if isinstance(d, Stream):
            return [content(b) for b in d.batches]
        if isinstance(d, dict):
            return [(k, np.array(v)) for k, v in d.items()]
        if isinstance(d, (list, tuple)):
            return [content(b) if isinstance(b, (list, tuple, dict)) else np.array(b) for b in d]
        return np.array(d)

    def same(a, b):
        if isinstance(a, np.ndarray):
            return isinstance(b, np.ndarray) and a.dtype == b.dtype and np.array_equal(a, b)
        if isinstance(a, (list, tuple)):
            return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
        return a == b
    for o in sc["ops"]:
        if o["op"] == "fit":
            k = o["kind"]
            if k == "lanczos" and not can_lan:
                k = "full"
            if k == "lobpcg" and not can_lob:
                k = "lanczos" if can_lan else "diagonal"
            d, tr = form(o["form"], o["cuts"])
            kept.append((d, content(d)))
            fn = m.fn if o["vm"] else m.fn_batched
            kw = {}
            if k == "lanczos":
                kw = dict(rank=P, key=jax.random.key(int(rng.integers(100))))
            elif k == "lobpcg":
                kw = dict(rank=1, key=jax.random.key(int(rng.integers(100))))
            if not o["vm"] or rng.random() < 0.3:
                kw["vmap_over_data"] = o["vm"]
            name = CurvApprox(k) if rng.random() < 0.5 else (k.upper() if rng.random() < 0.5 else k)
            num, den = o["num"], o["den"]
            if num == den == 1 and rng.random() < 0.5:
                cnt = {}
            else:
                cnt = dict(num_total_samples=num, num_curv_samples=den)
                if num == 1:
                    cnt.pop("num_total_samples")
                if den == 1 and rng.random() < 0.5:
                    cnt.pop("num_curv_samples")
            vm = {"vmap_over_data": kw.pop("vmap_over_data")} if "vmap_over_data" in kw else {}
            opts = dict(kw)

            def fit():
                if o["form"] == "steps":
                    mv = create_ggn_mv(fn, params, {"input": X, "target": Y}, loss, num_total_samples=num, num_curv_samples=den, **vm)
                    mv = jax.jit(mv) if o["jit"] else mv
                    est = estimate_curvature(k, mv, layout=params, **kw)
                    return set_posterior_fn(k, est, layout=params), est
                if o["form"].startswith("transform") or o["form"] == "steps-stream":
                    mv = GGN(fn, params, d, loss, factor=num / den, transform=tr, verbose_logging=bool(rng.random() < 0.5), **vm)
                    for _ in range(2):
                        v = rng.integers(-2, 3, P)
                        r, e = outcome(mv, lay.unflat(f32(v)))
                        okk, out = flat(r) if not e else (False, [])
                        rec.ev("Mv", num=num, den=den, v=v.tolist(), err=e, ok=okk, out=out if not okk else q(out, KE))
                    mv = jax.jit(mv) if o["jit"] else mv
                    est = estimate_curvature(k, mv, layout=params, **kw)
                    return set_posterior_fn(k, est, layout=params), est
                return laplace(fn, params, d, loss_fn=loss, curv_type=name, curv_mv_jit=o["jit"], **cnt, **vm, **kw)
            r, err = outcome(fit)
            if err:
                rec.ev("Fit", form=o["form"], kind=k, num=num, den=den, err=err, ok=False, est=[])
                return
            pf, est = r
            okk, E = dense(k, est, P)
            rec.ev("Fit", form=o["form"], kind=k, num=num, den=den, err="", ok=okk, est=mat(E, KE) if okk else [])
            pfs.append(pf)
            kindof.append((k, num, den))
            rec.ev("Unchanged", what="options", ok=kw == opts)
        elif o["op"] == "cond":
            k, num, den = kindof[o["k"] - 1]
            Cm = G * num / den
            if k == "diagonal":
                Cm = np.diag(np.diag(Cm))
            dd = den * (S * S if m.offs else 1)
            for _ in range(200):
                a = dict(t=int(rng.integers(1, 41)), s=int(rng.integers(1, 17)), lsf=int(rng.integers(1, 17)))
                A = (a["s"] * Cm + a["t"] * np.eye(P)) * dd
                inv = np.linalg.inv(A / dd) * a["lsf"]
                if np.abs(inv).sum(1).max() * 2 * KV < 1.8e6 and np.abs(A).sum(1).max() * np.abs(inv).sum(1).max() * 2 * KV < 1.5e9 and np.linalg.cond(A) < 3000:
                    break
            else:
                posts.append(None)
                a = dict(t=40, s=1, lsf=4)
                rec.ev("Cond", k=o["k"], err="", **a)
                continue
            num_of = (float, lambda x: f32(x), np.float32)[int(rng.integers(3))]
            pa = {"prior_prec": num_of(a["t"] / 4)}
            if a["s"] != 4 or rng.random() < 0.5:
                pa["sigma_squared"] = num_of(a["s"] / 4)
            before = dict(pa)
            p, e = outcome(pfs[o["k"] - 1], pa) if a["lsf"] == 4 else outcome(pfs[o["k"] - 1], pa, a["lsf"] / 4)
            rec.ev("Cond", k=o["k"], err=e, **a)
            rec.ev("Unchanged", what="prior-arguments", ok=list(before) == list(pa) and all(before[x] is pa[x] for x in pa))
            posts.append(p if not e else None)
        else:
            p = posts[o["k"] - 1]
            if p is None:
                continue
            v = rng.integers(-2, 3, P)
            mv, e = outcome(p.cov_mv, p.state)
            if not e:
                r, e = outcome(mv, lay.unflat(f32(v)))
            okk, out = flat(r) if not e else (False, [])
            rec.ev("Use", what="covariance", k=o["k"], v=v.tolist(), err=e, ok=okk, out=q(out, KV) if okk else [])
            # S (S^T v) through the dense scale of the posterior
            mv, e = outcome(p.scale_mv, p.state)
            if not e:
                cols, e = outcome(lambda: [flat(mv(lay.unflat(f32(np.eye(P)[j])))) for j in range(P)])
            okk = not e and all(c[0] for c in cols)
            if okk:
                Sd = np.stack([np.asarray(c[1], float) for c in cols], 1)
                out = Sd @ (Sd.T @ v)
            rec.ev("Use", what="scale", k=o["k"], v=v.tolist(), err=e, ok=okk, out=q(out, KV) if okk else [])
    rec.ev("Unchanged", what="parameters", ok=all(np.array_equal(a, b) for a, b in zip(p0, jax.tree.leaves(params))))
    rec.ev("Unchanged", what="data", ok=all(same(content(d), c) for d, c in kept))
    # ------------------------------------------------------------ rejections
    base = dict(model_fn=m.fn, params=params, data=(X, Y), loss_fn=loss, curv_type="full")
    bs = batches([B])
    cases = [("unknown-curvature", dict(curv_type="kron")), ("unknown-curvature-2", dict(curv_type="ggn")), ("unknown-loss", dict(loss_fn="hinge")), ("loss-none", dict(loss_fn=None)), ("loss-number", dict(loss_fn=2)),
             ("tuple-of-three", dict(data=(X, Y, Y))), ("tuple-of-one", dict(data=(X,))), ("empty-tuple", dict(data=())), ("mapping-without-target", dict(data={"input": X})),
             ("mapping-without-input", dict(data={"x": X, "target": Y})), ("number", dict(data=3.5)), ("none", dict(data=None)), ("array", dict(data=X)),
             ("stream-of-triples", dict(data=Stream([(x, y, y) for x, y in bs], True))), ("stream-of-singles", dict(data=Stream([(x,) for x, _ in bs], False))), ("stream-of-arrays", dict(data=Stream([X], True))),
             ("stream-of-incomplete-mappings", dict(data=Stream([{"input": X}], True))), ("stream-of-other-mappings", dict(data=Stream([{"X": X, "Y": Y}], False))), ("stream-of-numbers", dict(data=Stream([1, 2], True))),
             ("text", dict(data="data"))]
    for i in rng.permutation(len(cases))[:3]:
        what, kw = cases[i]
        _, e = outcome(lambda: laplace(**{**base, **kw}))
        rec.ev("Reject", what=what, err=e)
        if "curvature" not in what and rng.random() < 0.5:
            kw = {**base, **kw}
            kw.pop("curv_type")
            _, e = outcome(lambda: GGN(**kw))
            rec.ev("Reject", what="ggn-" + what, err=e)


def _flat(lay, o):
    try:
        return True, np.asarray(lay.flat(o), float)
    except T.Structure:
        return False, []


def dense(kind, est, P):
    if kind == "full":
        E = np.asarray(est, float)
    elif kind == "diagonal":
        E = np.asarray(est, float)
        if E.shape != (P,):
            return False, None
        E = np.diag(E)
    else:
        if not isinstance(est, LowRankTerms):
            return False, None
        U, S = np.asarray(est.U, float), np.asarray(est.S, float)
        if U.ndim != 2 or U.shape[0] != P or S.shape != (U.shape[1],):
            return False, None
        E = (U * S) @ U.T
    return E.shape == (P, P), E


if __name__ == "__main__":
    import sys
    main(sys.modules[__name__])
