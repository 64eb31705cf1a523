"""C07: low-rank estimates of operators with known integer eigenpairs."""
import json
import re
import warnings
import numpy as np
from common import main, outcome, q, qs
import trees as T
import poly
from drv_post import ortho

import jax
import jax.numpy as jnp
from laplax.curv.cov import estimate_curvature
from laplax.curv.lanczos import compute_eigendecomposition, lanczos_iterations, lanczos_lowrank
from laplax.curv.lobpcg import lobpcg_lowrank
from laplax.curv.low_rank import create_low_rank_curvature
from laplax.enums import CurvApprox, LowRankMethod


def scenarios(tier, seed, gen):
    rng = np.random.default_rng([seed, 7])
    cases = [json.loads(x) for x in open(gen)]
    n = 240 if tier == "quick" else 3000
    pick = rng.permutation(len(cases))
    return [dict(cases[pick[i % len(cases)]], i=i) for i in range(n)]


def run(sc, rec, rng):
    solver = "lobpcg" if sc["opt"] in (3, 7, 11) else "lanczos"
    zero = False
    if solver == "lobpcg":
        P = int(rng.integers(6, 17)) if rng.random() < 0.5 else int(rng.integers(11, 25))
    else:
        P = int(rng.integers(1, 8))
    f32, f64 = jnp.float32, jnp.float64
    # eigenpairs
    while True:
        hs = ortho(rng, P, P)
        ms = [int(rng.integers(1, 4)) for _ in hs]
        lam = lambda k: ms[k] * int(hs[k] @ hs[k])  # noqa: E731
        if sc["spec"] in (0, 2):
            used, ok = set(), True
            for i in range(P):
                while lam(i) in used:
                    ms[i] += 1
                used.add(lam(i))
        if sc["spec"] == 1 and P > 1:
            i, j = int(rng.integers(P)), int(rng.integers(P))
            a, b = int(hs[i] @ hs[i]), int(hs[j] @ hs[j])
            g = int(np.gcd(a, b))
            ms[i], ms[j] = b // g, a // g
        if sc["spec"] == 2:
            for i in rng.permutation(P)[:int(rng.integers(1, P + 1))]:
                ms[i] = 0
        if solver == "lobpcg" and sc["start"] >= 2 and sc["spec"] == 0:  # one value far above a cluster
            ms = [1 + k % 2 for k in range(P)]
            ms[int(rng.integers(P))] = 60
        if max(lam(k) for k in range(P)) <= (100 if solver == "lanczos" else 150):
            break
    C = sum((m * np.outer(h, h) for h, m in zip(hs, ms)), np.zeros((P, P), int))
    zero = not C.any()
    vals = {lam(k) for k in range(P)}
    dim = len(vals)
    # starting vector
    b = []
    if sc["start"] >= 2 and solver == "lanczos":
        for _ in range(50):
            if sc["start"] == 2:
                b = rng.integers(-3, 4, P)
            else:
                b = sum(int(rng.choice([0, 1, -1])) * hs[k] for k in range(P)) + np.zeros(P, int)
            if b.any():
                break
        else:
            b = hs[0]
        b = [int(x) for x in b]
        dim = len({lam(k) for k in range(P) if np.dot(b, hs[k])})
    rank = max(1, dim + sc["dr"]) if solver == "lanczos" else int(rng.integers(1, max(2, (P - 1) // 5 + 1) + (rng.random() < 0.3)))
    rec.ev("Begin", n=P, hs=[h.tolist() for h in hs], ms=ms, label=f"{solver}:{'zero' if zero else sc['spec']}")
    orig = bool(rng.random() < 0.3)
    jax.config.update("jax_enable_x64", orig)
    try:
        for _ in range(2):
            one(sc, rec, rng, solver, P, C, b, rank, orig, zero)
        if solver == "lanczos" and (rng.random() < 0.5):
            jax.config.update("jax_enable_x64", True)
            iters(rec, rng, P, C, b or None, rank, hs, ms)
    finally:
        jax.config.update("jax_enable_x64", False)


def one(sc, rec, rng, solver, P, C, b, rank, orig, zero):
    f32, f64 = jnp.float32, jnp.float64
    while True:
        t = T.renumber(T.random_tree(rng, int(rng.integers(1, 4)), shapes=((), (1,), (2,), (3,), (2, 2), (1, 3), (2, 1, 2), (4,), (3, 2))))[0]
        if T.size(t) == P or T.size(t) > 200:
            break
        if rng.random() < 0.05:
            t = T.renumber({"t": "seq", "c": [{"t": "leaf", "id": 0, "sh": [P]}]})[0]
            break
    lay = poly.Layout(T.annotate(t, rng))
    scale = 2.0 ** int(rng.choice([0, 0, 0, -10, -20, 12]))  # exact: the estimate scales with the operator
    JC = jnp.asarray(C * scale, f64 if orig else f32)
    form = ("array", "flat", "tree")[int(rng.integers(3))]
    if form == "array":
        A, layout = JC, (None if rng.random() < 0.6 else P)
    elif form == "flat":
        A, layout = (lambda v: JC @ v), P
    else:
        A, layout = (lambda v: lay.unflat(JC @ lay.flat(v))), lay.unflat(jnp.zeros(P))
    kw = {}
    pick = lambda *o: o[int(rng.integers(len(o)))]  # noqa: E731
    if rng.random() < 0.5 or solver == "lobpcg":
        kw["mv_jit"] = bool(rng.random() < (0.5 if solver == "lanczos" else 0.3))
    if rng.random() < 0.4:
        kw["calc_dtype"] = pick(f32, f64)
    if rng.random() < 0.4:
        kw["mv_dtype"] = pick(f32, f64)
    if rng.random() < 0.4:
        kw["return_dtype"] = pick(f32, f64)
    reorth = True
    if solver == "lanczos":
        if rng.random() < 0.3:
            reorth = bool(rng.random() < 0.4)
            kw["full_reorthogonalize"] = reorth
        if b:
            bs = 2.0 ** int(rng.choice([-30, -12, 20]))  # the start vector is a direction
            kw["b"] = pick(np.array(b, float), jnp.asarray(b, f32), b, np.array(b, float) * bs, jnp.asarray(b, f32) * bs) if rng.random() < 0.9 else jnp.asarray(b)
            if rng.random() < 0.3:
                kw["key"] = jax.random.key(int(rng.integers(100)))
        else:
            kw["key"] = jax.random.key(int(rng.integers(1000)))
        if scale < 1 or rng.random() < 0.1:
            kw["tol"] = scale * pick(1e-6, 1e-5)
    elif rng.random() < 0.6:
        kw["key"] = jax.random.key(int(rng.integers(1000)))
    tight = False
    if solver == "lobpcg" and rng.random() < 0.6:
        kw["tol"] = pick(1e-9, 1e-10)
        tight = kw.get("calc_dtype", f64) == f64
    dflt = f64 if orig else f32
    clean = kw.get("calc_dtype", f64) == f64 and kw.get("mv_dtype", dflt) == f64
    if layout is not None or rng.random() < 0.3:
        kw["layout"] = layout
    entry = int(rng.integers(4))
    f = {"lanczos": lanczos_lowrank, "lobpcg": lobpcg_lowrank}[solver]

    def call():
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            if entry <= 1:
                r = f(A, rank=rank, **kw)
            elif entry == 2:
                k2 = {**kw, "layout": kw.get("layout")}
                m = {} if solver == "lanczos" and rng.random() < 0.5 else dict(low_rank_method=pick(LowRankMethod(solver), solver))
                r = create_low_rank_curvature(A, rank=rank, **m, **k2)
            else:
                r = estimate_curvature(pick(solver, CurvApprox(solver)), A, rank=rank, **{**kw, "layout": kw.get("layout")})
        ann = rank
        for w in ws:
            m_ = re.search(r"reduced rank to (\d+)", str(w.message))
            if m_:
                ann = int(m_.group(1))
        return r, ann
    o, err = outcome(call)
    d = dict(solver=solver, rank=rank, announced=rank, b=b, reorth=reorth, clean=bool(clean), tight=bool(tight), err=err, U=[], S=[], scalar=0)
    if not err:
        r, d["announced"] = o
        d.update(U=[q(c, 10000) for c in np.array(r.U, float).T], S=q(np.array(r.S, float) / scale, 1000), scalar=qs(np.array(r.scalar, float) / scale, 10**6))
    rec.ev("Est", **d)


def iters(rec, rng, P, C, b, rank, hs, ms):
    scale, bs = 2.0 ** int(rng.choice([0, 0, -25, 12])), 2.0 ** int(rng.choice([0, 0, -40, 20]))
    JC = jnp.asarray(C * scale, jnp.float64)
    if b is None:
        b = [int(x) for x in rng.integers(-3, 4, P)]
        if not any(b):
            b[0] = 1
    bb = jnp.asarray(b, jnp.float64) * bs
    kw = {}
    if rng.random() < 0.6:
        kw["mv_jit"] = bool(rng.random() < 0.4)
    tol = 1e-6
    if scale < 1 or rng.random() < 0.5:
        tol = float(rng.choice([1e-6, 0.05, 0.4, 2.0]))  # recursion stops where less than this is left
        kw["tol"] = tol * scale
    o, err = outcome(lambda: lanczos_iterations(lambda v: JC @ v, bb, maxiter=rank, **kw))
    if err:
        rec.ev("Iter", rank=rank, b=b, tol=qs(tol, 1000), alpha=[], beta=[], V=[], err=err)
        return
    al, be, V = o
    rec.ev("Iter", rank=rank, b=b, tol=qs(tol, 1000), alpha=q(al / scale, 1000), beta=q(be / scale, 1000), V=[q(r, 10000) for r in np.array(V)], err="")
    w, vec = compute_eigendecomposition(al, be, V, compute_vectors=True)
    rec.ev("Vals", S=q(w / scale, 1000), T=q(compute_eigendecomposition(al, be, V) / scale, 1000))


if __name__ == "__main__":
    import sys
    main(sys.modules[__name__])
