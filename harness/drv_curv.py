"""C02 / C03: curvature products of polynomial models against the exact integers
of the specification."""
import json
import math
import numpy as np
from common import main, outcome, q
import trees as T
import poly

import jax
import jax.numpy as jnp
from laplax.curv.ggn import create_ggn_mv, create_ggn_mv_without_data, create_loss_hessian_mv
from laplax.curv.hessian import create_hessian_mv, create_hessian_mv_without_data
from laplax.enums import LossFn

K = 4
VECTOR = {"t": "leaf", "id": 1}


def scenarios(tier, seed, gen):
    rng = np.random.default_rng([seed, 7])
    cases = [json.loads(x) for x in open(gen)]
    n = 60 if tier == "quick" else 800
    scs = [dict(kind="gen", case=cases[i]) for i in sorted(rng.choice(len(cases), n, replace=False))]
    kinds = ("mse", "none", "ce", "bce", "custom")
    for i in range(100 if tier == "quick" else 1500):
        scs.append(dict(kind="rand", loss=kinds[i % 5], linear=bool((i // 5) % 3 == 0)))
    scs += [dict(kind="reject")] * 2
    return scs


def custom(terms, C):
    """polynomial loss in the outputs (ps) and targets (xs), summed over leading axes"""
    def loss(pred, target):
        p = jnp.reshape(pred, (-1, C))
        t = jnp.reshape(target, (p.shape[0], -1))
        tot = 0.0
        for m in terms:
            v = m["c"] * jnp.ones(p.shape[0])
            for i in m["xs"]:
                v = v * t[:, i - 1]
            for i in m["ps"]:
                v = v * p[:, i - 1]
            tot = tot + jnp.sum(v)
        return tot
    return loss


def instance(sc, rng, which):
    """model, loss, parameters, data of one scenario (bounded so that the integers stay small)"""
    while True:
        if sc["kind"] == "gen":
            c = sc["case"]
            mod, L, th, data = c["mod"], c["L"], c["th"], c["data"]
            D, C, P = 2, 2, 3
            osh = (2,)
            t = T.renumber(T.random_tree(rng, 2, shapes=((), (1,), (2,), (3,))))[0]
            while T.size(t) != P:
                t = T.renumber(T.random_tree(rng, 2, shapes=((), (1,), (2,), (3,))))[0]
        else:
            t = T.renumber(T.random_tree(rng, int(rng.integers(1, 4)), shapes=((), (1,), (2,), (3,), (2, 2), (1, 3))))[0]
            P = T.size(t)
            if not 1 <= P <= 8:
                continue
            D, C = int(rng.integers(1, 4)), int(rng.integers(1, 5))
            kind = sc["loss"]
            shapes = {1: [(1,)] + ([()] if kind != "ce" else []), 2: [(2,), (2, 1) if kind != "ce" else (2,)], 3: [(3,), (1, 3)], 4: [(4,), (2, 2), (2, 2)]}[C]
            osh = shapes[int(rng.integers(len(shapes)))]
            S = int(rng.choice([3, 4, 5])) if kind == "ce" else 4
            grp = osh[-1] if kind == "ce" and osh else C
            if kind == "ce" and S < grp:
                S = 5
            L = dict(kind=kind, S=S if kind in ("ce", "bce") else 1, C=grp, terms=[])
            mod = poly.random_mod(rng, C, D, P, linear=sc["linear"])
            if kind == "custom":
                L["terms"] = poly.random_mod(rng, 1, C, C, deg=3, mx=4)[0]
            th = [int(v) for v in rng.choice([-2, -1, 1, 1, 2, 3], P)]
            B = int(rng.integers(1, 5))
            data = []
            for _ in range(B):
                x = [int(v) for v in rng.integers(-2, 3, D)]
                if kind in ("ce", "bce"):
                    if kind == "ce":
                        w, y = [], []
                        for _g in range(C // grp):
                            cut = sorted(rng.choice(np.arange(1, S), grp - 1, replace=False)) if grp > 1 else []
                            w += [int(v) for v in rng.multinomial(S, np.ones(grp) / grp)] if rng.random() < 0.3 else \
                                [int(b - a) for a, b in zip([0, *cut], [*cut, S])]
                            if rng.random() < 0.6:
                                y += [S * int(j == k0) for k0 in [int(rng.integers(grp))] for j in range(grp)]
                            else:
                                y += [int(v) for v in rng.multinomial(S, np.ones(grp) / grp)]
                    else:
                        w = [int(v) for v in (rng.integers(0, S + 1, C) if rng.random() < 0.4 else rng.integers(1, S, C))]
                        y = [int(v) for v in rng.choice([0, S, S // 2], C)]
                else:
                    w, y = [1] * C, [int(v) for v in rng.integers(-3, 4, C)]
                data.append(dict(x=x, y=y, w=w))
        offs = L["kind"] in ("ce", "bce")
        t = T.annotate(t, rng)
        m = poly.Model(mod, poly.Layout(t), D, osh, offs)
        # bound of the exact result
        sc2 = L["S"] ** 2
        tot = 0.0
        for s in data:
            z, J, H = m.absbounds(th, s["x"])
            if L["kind"] == "custom":
                lm = poly.Model([L["terms"]], poly.Layout({"t": "leaf", "id": 1, "sh": (C,)}), C, (1,))
                _, lg, lh = lm.absbounds(z, s["y"])
                g, hh = lg[0], lh[0]
            else:
                g = 2 * (z + np.abs(s["y"])) if L["kind"] == "mse" else np.ones(C) * (1 if offs else 0)
                hh = np.eye(C) * 2 if not offs else np.ones((C, C))
            M = J.T @ hh @ J + np.einsum("c,cij->ij", g, H)
            tot += M.sum() * 3 * sc2
        if tot * K * 12 < 4e6:
            return m, L, th, data, t
        if sc["kind"] == "gen":
            return None


def logit(kind, w, S, far):
    if kind == "ce":
        return math.log(w / S) if w else -far
    return -far if w == 0 else far if w == S else math.log(w / (S - w))


def run(sc, rec, rng, which):
    if sc["kind"] == "reject":
        return reject(sc, rec, rng, which)
    inst = instance(sc, rng, which)
    if inst is None:
        return
    m, L, th, data, t = inst
    lay, B, C, S = m.lay, len(data), len(m.mod), L["S"]
    kind = L["kind"]
    rec.ev("Begin", mod=m.mod, L=L, th=th, data=data, tree=T.bare(t), label=f"{which}:{kind}")
    far = float(rng.choice([18.0, 30.0, 100.0]))  # saturated outputs: weight 0 (or S)
    X = np.zeros((B, m.D + (C if m.offs else 0)), np.float32)
    for b, s in enumerate(data):
        X[b, :m.D] = s["x"]
        if m.offs:
            z = m.values(th, s["x"])
            for c in range(C):
                w = s["w"][c]
                X[b, m.D + c] = logit(kind, w, S, far) - z[c]
            if kind == "ce" and rng.random() < 0.3:
                X[b, m.D:] += 0.5  # common shift of the logits
    Y = np.array([s["y"] for s in data], np.float32) / (S if m.offs else 1)
    idx_t = False
    Y = Y.reshape((B, *m.osh))
    if kind == "ce" and len(m.osh) == 1 and all(max(s["y"]) == S for s in data) and rng.random() < 0.5:
        Y = np.argmax(Y, axis=-1).astype(np.int32)
        idx_t = True
    X, Y = jnp.asarray(X), jnp.asarray(Y)
    params = lay.unflat(jnp.asarray(th, jnp.float32))
    enumd = {"mse": LossFn.MSE, "none": LossFn.NONE, "ce": LossFn.CROSS_ENTROPY, "bce": LossFn.BINARY_CROSS_ENTROPY}
    loss = custom(L["terms"], C) if kind == "custom" else (enumd[kind] if rng.random() < 0.6 else enumd[kind].value)
    P = lay.P
    kscale = S * S * K

    def vecs(n):
        vs = [[int(i == j) for i in range(P)] for j in range(P)]
        vs += [[int(v) for v in rng.integers(-2, 3, P)] for _ in range(2)]
        return [vs[i] for i in sorted(rng.choice(len(vs), min(n, len(vs)), replace=False))]

    def mvs(mv, idx, num, den, n, **kw):
        if rng.random() < 0.4:
            mv = jax.jit(mv)
        for v in vecs(n):
            u = 2.0 ** int(rng.choice([0, 0, -24, 10]))  # the product is homogeneous (exactly, in binary)
            o, err = outcome(mv, lay.unflat(jnp.asarray(v, jnp.float32) * u), *kw.get("args", ()))
            if not err:
                o = jax.tree.map(lambda z: z / u, o)
            rec.ev("Mv", which=which, idx=[i + 1 for i in idx], num=num, den=den, v=v, err=err,
                   out=dict(ok=False, sh=[], v=[]) if err else lay.obs(o, kscale))
    full = list(range(B))
    # a hand-written loss Hessian, passed instead of a loss
    def hess_one(jv, pred, target, **kw):  # of one datum: needs exactly its shapes
        del kw
        flat = jv.reshape(C)
        if kind in ("mse", "none"):
            r = jnp.eye(C) @ flat * (2 if kind == "mse" else 1)
        elif kind == "bce":
            s = jax.nn.sigmoid(pred.reshape(C))
            r = jnp.diag(s * (1 - s)) @ flat
        elif kind == "ce":
            pr = jax.nn.softmax(pred, axis=-1)
            r = pr * jv - pr * jnp.sum(pr * jv, axis=-1, keepdims=True)
        else:
            r = jax.jvp(jax.grad(lambda z: loss(z, target)), (pred,), (jv,))[1]
        return r.reshape(pred.shape)

    def hess_all(jv, pred, target):
        return jax.vmap(hess_one)(jv, pred, target)
    for vm in (True, False):
        if which == "hess" and kind == "none":
            break
        if kind == "custom" and not vm and which == "ggn" and rng.random() < 0.3:
            continue
        num = [None, 3, 7, B][int(rng.integers(4))]
        den = [None, 1, 2, 4][int(rng.integers(4))]
        ed = B if den is None else den
        en = ed if num is None else num
        kw = dict(vmap_over_data=vm) if (not vm or rng.random() < 0.5) else {}
        if den is not None:
            kw["num_curv_samples"] = den
        if num is not None:
            kw["num_total_samples"] = num
        f = m.fn if vm else m.fn_batched
        data_d = {"input": X, "target": Y}
        if which == "ggn":
            use_h = rng.random() < 0.35
            mv = create_ggn_mv(f, params, data_d, None if use_h else loss, loss_hessian_mv=(hess_one if vm else hess_all) if use_h else None, **kw)
        else:
            mv = create_hessian_mv(f, params, data_d, loss, **kw)
        mvs(mv, full, en, ed, 4)
        # without data: the same object applied to several (sub)sets in turn
        fac = int(rng.integers(1, 4))
        if which == "ggn":
            use_h = rng.random() < 0.25
            mvd = create_ggn_mv_without_data(f, params, None if use_h else loss, fac, vmap_over_data=vm, **({"loss_hessian_mv": hess_one if vm else hess_all} if use_h else {}))
        else:
            mvd = create_hessian_mv_without_data(f, params, loss, fac, vmap_over_data=vm)
        for _ in range(2):
            n = int(rng.integers(1, B + 1))
            sub = sorted(rng.choice(B, n, replace=False).tolist())
            mvs(mvd, sub, fac, 1, 2, args=({"input": X[jnp.array(sub)], "target": Y[jnp.array(sub)]},))
    if not idx_t and kind != "none" and which == "hess" and m.osh != ():
        # one unbatched datum
        mv = create_hessian_mv_without_data(m.fn, params, loss, 1, vmap_over_data=False)
        mvs(mv, [0], 1, 1, 2, args=({"input": X[0], "target": Y[0]},))
    if which == "ggn":
        if m.osh != ():
            mv = create_ggn_mv_without_data(m.fn, params, loss, 1, vmap_over_data=False)
            mvs(mv, [0], 1, 1, 2, args=({"input": X[0], "target": Y[0]},))
        lh = create_loss_hessian_mv(loss)
        for b in range(B):
            pred = m.fn(X[b], params)
            if pred.ndim == 0:
                continue
            for _ in range(2):
                jv = [int(v) for v in rng.integers(-3, 4, C)]
                u = 2.0 ** int(rng.choice([0, 0, -24, 10]))
                o, err = outcome(lh, jnp.asarray(jv, jnp.float32).reshape(m.osh) * u, pred=pred, target=Y[b])
                if not err:
                    o = o / u
                rec.ev("LossHess", s=b + 1, jv=jv, err=err, out=[] if err else q(o, kscale))


def reject(sc, rec, rng, which):
    rec.ev("Begin", mod=[[dict(c=1, xs=[1], ps=[1])]], L=dict(kind="mse", S=1, C=1, terms=[]), th=[1],
           data=[dict(x=[1], y=[0], w=[1])], tree=dict(t="leaf", id=1, sh=[1]), label=which + ":reject")
    fn = lambda input, params: params * input  # noqa: E731
    p, d = jnp.ones(1), {"input": jnp.ones((1, 1)), "target": jnp.zeros((1, 1))}
    if which == "ggn":
        hm = lambda jv, pred, target, **k: 2 * jv  # noqa: E731
        cases = [("neither", lambda: create_ggn_mv(fn, p, d)), ("both", lambda: create_ggn_mv(fn, p, d, "mse", loss_hessian_mv=hm)),
                 ("both-none", lambda: create_ggn_mv(fn, p, d, LossFn.NONE, loss_hessian_mv=hm)),
                 ("both-custom", lambda: create_ggn_mv(fn, p, d, lambda a, b: jnp.sum(a), loss_hessian_mv=hm)),
                 ("unknown", lambda: create_ggn_mv(fn, p, d, "hinge")), ("number", lambda: create_ggn_mv(fn, p, d, 3)),
                 ("nodata-neither", lambda: create_ggn_mv_without_data(fn, p, None, 1.0)),
                 ("hess-unknown", lambda: create_loss_hessian_mv("l2")), ("hess-none", lambda: create_loss_hessian_mv(None))]
    else:
        cases = [("unknown", lambda: create_hessian_mv(fn, p, d, "hinge")), ("none", lambda: create_hessian_mv(fn, p, d, None)),
                 ("number", lambda: create_hessian_mv_without_data(fn, p, 3, 1.0))]
    for name, f in cases:
        _, err = outcome(f)
        rec.ev("Reject", what=name, err=err)
