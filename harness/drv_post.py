"""C06: sessions of conditionings and products on one curvature estimate."""
import json
import numpy as np
from common import main, outcome, q
import trees as T
import poly

import jax
import jax.numpy as jnp
from laplax.curv.cov import create_posterior_fn, estimate_curvature, set_posterior_fn
from laplax.curv.utils import LowRankTerms
from laplax.enums import CurvApprox

K = 10000
KINDS = ("full", "diagonal", "terms", "full", "diagonal", "terms", "est-full", "est-diagonal", "lanczos", "terms")


def scenarios(tier, seed, gen):
    rng = np.random.default_rng([seed, 6])
    cases = [json.loads(x) for x in open(gen)]
    n = 190 if tier == "quick" else 2500
    cases = [cases[i] for i in rng.choice(len(cases), n, replace=n > len(cases))]
    return [dict(kind=KINDS[i % len(KINDS)], big=tier != "quick" and i % 5 == 0, **c) for i, c in enumerate(cases)]


def ortho(rng, P, R):
    """integer orthogonal directions"""
    if P == 1:
        return [np.array([int(rng.choice([-1, 1]))])][:R]
    Q = np.eye(P, dtype=int)[rng.permutation(P)]
    hs = [r for r in Q]
    # rotate pairs / triples into non-axis directions
    i = 0
    while i + 1 < P:
        r = rng.random()
        if r < 0.35:
            a, b = int(rng.integers(1, 4)), int(rng.integers(1, 4))
            u, v = hs[i], hs[i + 1]
            hs[i], hs[i + 1] = a * u + b * v, b * u - a * v
            i += 2
        elif r < 0.6 and i + 2 < P:
            u, v, w = hs[i], hs[i + 1], hs[i + 2]
            hs[i], hs[i + 1], hs[i + 2] = u + 2 * v + 2 * w, 2 * u + v - 2 * w, 2 * u - 2 * v + w
            i += 3
        else:
            i += 1
    p = rng.permutation(P)[:R]
    return [hs[k] for k in p]


def run(sc, rec, rng):
    kind = sc["kind"]
    lo, hi = (1, 7) if not sc["big"] else (6, 13)
    while True:
        t = T.renumber(T.random_tree(rng, int(rng.integers(1, 4))))[0]
        if lo <= T.size(t) <= hi:
            break
    t = T.annotate(t, rng)
    lay = poly.Layout(t)
    P = lay.P
    zero = lay.unflat(jnp.zeros(P))
    form = ("tree", "int", "none", "tree")[int(rng.integers(4))]
    lowrank = kind in ("terms", "lanczos")
    args = []
    terms = None
    if lowrank:
        R = int(rng.integers(1, P + 1))
        hs = ortho(rng, P, R)
        ms = [int(rng.integers(0 if kind == "terms" else 1, 3)) for _ in hs]
        if kind == "lanczos":  # distinct non-zero eigenvalues: one Krylov space reaches them all
            used = set()
            for i, h in enumerate(hs):
                while ms[i] * int(h @ h) in used:
                    ms[i] += 1
                used.add(ms[i] * int(h @ h))
        C = sum((m * np.outer(h, h) for h, m in zip(hs, ms)), np.zeros((P, P), int))
        U = np.stack([h / np.linalg.norm(h) for h in hs], 1)
        S = np.array([m * (h @ h) for h, m in zip(hs, ms)], float)
        if rng.random() < 0.4:
            U = np.concatenate([U, np.zeros((P, 1))], 1)
            S = np.append(S, 0.0)
        terms = (U, S)
    elif "diagonal" in kind:
        C = np.diag(rng.integers(0, 9, P))
    else:
        G = rng.integers(-2, 3, (int(rng.integers(1, P + 2)), P))
        C = G.T @ G
    # arguments: fresh numbers for every conditioning of the session
    for _ in sc["args"]:
        a = dict(t=int(rng.integers(1, 41)), s=-1 if rng.random() < 0.25 else 0 if rng.random() < 0.08 else int(rng.integers(1, 17)), lsf=-1 if rng.random() < 0.4 else int(rng.integers(1, 17)))
        if a["t"] == 4 and rng.random() < 0.9:
            a["t"] = 5
        args.append(a)
    rec.ev("Begin", C=C.tolist(), label=f"{kind}:{form}")
    f32 = jnp.float32
    half = 2.0 ** int(rng.choice([0, 0, 0, -9, 5, -13]))  # estimate and prior precision in other units: covariance and scale follow exactly
    g = half * half
    JC = jnp.asarray(C * g, f32)
    layout = {"tree": zero, "int": P, "none": None}[form]
    names = {"full": "full", "diagonal": "diagonal", "terms": ("lanczos", "lobpcg")[int(rng.integers(2))], "est-full": "full", "est-diagonal": "diagonal", "lanczos": "lanczos"}
    name = names[kind]
    if rng.random() < 0.4:
        name = CurvApprox(name)
    if kind in ("full", "diagonal", "terms"):
        est = {"full": lambda: JC, "diagonal": lambda: jnp.diagonal(JC), "terms": lambda: LowRankTerms(jnp.asarray(terms[0], f32), jnp.asarray(terms[1] * g, f32), jnp.asarray(0.0))}[kind]()
        pf = set_posterior_fn(name, est, layout=layout)
    else:
        if form == "none":
            form, layout = "int", P
        mv = (lambda v: JC @ v) if form == "int" else (lambda v: lay.unflat(JC @ lay.flat(v)))
        kw = {}
        if kind == "lanczos":
            kw = dict(rank=P, key=jax.random.key(int(rng.integers(100))), tol=1e-6 * min(g, 1))
        if rng.random() < 0.5:
            pf, est = create_posterior_fn(name, mv, layout=layout, **kw), None
        else:
            est = estimate_curvature(name, mv=mv, layout=layout, **kw)
            pf = set_posterior_fn(name, est, layout=layout)
    before = None if est is None else [np.array(x) for x in jax.tree.leaves(est)]
    nums = (float, lambda x: jnp.asarray(x, f32), np.float32)
    posts, given, same = [], [], True
    shared = {} if rng.random() < 0.4 else None
    jitted = rng.random() < 0.3

    def apply(which, k, v):
        """product of posterior k on the structured (or flat) vector"""
        p, a, lsf = posts[k - 1]
        other = posts[int(rng.integers(len(posts)))][0] if rng.random() < 0.3 else p
        x = v if form != "tree" else lay.unflat(v)
        if jitted and rng.random() < 0.5:
            if rng.random() < 0.5:
                return jax.jit(lambda st, y: getattr(other, which)(st)(y))(p.state, x)

            def whole(a, y):
                r = pf(a, *lsf)
                return getattr(r, which)(r.state)(y)
            return jax.jit(whole)({k_: jnp.asarray(z, f32) for k_, z in a.items()}, x)
        return getattr(other, which)(p.state)(x)

    def obs(o):
        if form == "tree":
            r = lay.obs(o, 1)
            if not r["ok"] or [tuple(s) for s in r["sh"]] != [lay.shp[i + 1] for i in range(len(r["sh"]))]:
                return False, []
            return True, np.asarray(lay.flat(o))
        return np.shape(o) == (P,), np.asarray(o)
    ni = 0
    for o in sc["ops"]:
        if o["op"] == "cond":
            a = args[ni]
            ni += 1
            num = nums[int(rng.integers(3))]
            pa = {"prior_prec": num(a["t"] / 4 * g)}
            if a["s"] != -1:
                pa["sigma_squared"] = num(a["s"] / 4)
            if rng.random() < 0.3:
                pa = dict(reversed(list(pa.items())))
            if shared is not None:  # the caller updates one dictionary in place
                shared.clear()
                shared.update(pa)
                pa = shared
            keep = dict(pa)
            lsf = () if a["lsf"] == -1 else (num(a["lsf"] / 4),)
            if lsf and rng.random() < 0.5:
                r, err = outcome(pf, pa, loss_scaling_factor=lsf[0])
            elif rng.random() < 0.3:
                r, err = outcome(pf, prior_arguments=pa, **({"loss_scaling_factor": lsf[0]} if lsf else {}))
            else:
                r, err = outcome(pf, pa, *lsf)
            rec.ev("Cond", t=a["t"], s=a["s"], lsf=a["lsf"], err=err)
            posts.append((r, keep, lsf))
            same = same and list(pa) == list(keep) and all(pa[x] is keep[x] for x in pa)
            if shared is None:
                given.append((pa, keep))
        elif posts[o["k"] - 1][0] is not None:
            k = o["k"]
            if o["op"] == "cov":
                v = [int(x) for x in rng.integers(-3, 4, P)]
                if not any(v):
                    v[0] = 1
                r, err = outcome(apply, "cov_mv", k, jnp.asarray(v, f32))
                ok, out = (True, []) if err else obs(r)
                rec.ev("Cov", k=k, v=v, ok=bool(ok), out=q(np.array(out, float) * g, K) if ok else [], err=err)
            else:
                cols, err, ok = [], "", True
                for j in range(P):
                    r, err = outcome(apply, "scale_mv", k, jnp.eye(P)[j])
                    if err:
                        break
                    k_, c = obs(r)
                    ok = ok and k_
                    cols.append(q(np.array(c, float) * half, K) if k_ else [])
                rec.ev("Scale", k=k, ok=bool(ok), out=[] if err or not ok else np.array(cols).T.tolist(), err=err)
    if before is not None:
        after = [np.array(x) for x in jax.tree.leaves(est)]
        rec.ev("Unchanged", what="estimate", ok=len(before) == len(after) and all(np.array_equal(a, b) for a, b in zip(before, after)))
    rec.ev("Unchanged", what="arguments", ok=same and all(list(a) == list(b) and all(a[k] is b[k] for k in a) for a, b in given))


if __name__ == "__main__":
    import sys
    main(sys.modules[__name__])
