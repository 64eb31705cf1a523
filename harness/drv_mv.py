"""C04: extraction jobs of MCLinearMap (plus larger random ones) through the real code."""
import json
import numpy as np
from common import main, outcome, q, sh
import trees as T

import jax
import jax.numpy as jnp
from laplax.util import flatten as F
from laplax.util.mv import diagonal, to_dense

FLAT = {"t": "none"}


def scenarios(tier, seed, gen):
    rng = np.random.default_rng(seed)
    jobs = [json.loads(x) for x in open(gen)]
    if tier == "quick":
        jobs = [jobs[i] for i in sorted(rng.choice(len(jobs), 120, replace=False))]
    scs = [dict(kind="gen", **j) for j in jobs]
    k = 1 if tier == "quick" else 12
    for i in range(100 * k):
        form = ("flat", "tree-tree", "tree-flat", "flat-tree", "rect")[i % 5]
        scs.append(dict(kind=form, bs=int(rng.integers(0, 9)), big=bool(rng.random() < 0.1)))
    scs += [dict(kind="reject", bs=0)] * 2
    big = (129, 257, 300, 400) if tier == "quick" else (100, 127, 128, 129, 255, 256, 257, 258, 300, 511, 513, 700, 1025)
    scs += [dict(kind="large", n=n, form=f, bs=int(rng.integers(0, 3))) for n in big for f in ("flat", "tree")]
    return scs


def mk_tree(rng, shapes, hi):
    while True:
        t = T.renumber(T.random_tree(rng, int(rng.integers(1, 4)), shapes=shapes))[0]
        if 0 < T.size(t) <= hi:
            return T.annotate(t, rng)


def run(sc, rec, rng):
    kind = sc["kind"]
    if kind == "reject":
        rec.ev("Begin", A=[[0]], tin=FLAT, tout=FLAT, label="reject")
        for f in (diagonal, to_dense):
            for bad in (None, "abc", 2.5, object()):
                if bad is None:
                    _, err = outcome(f, lambda v: 2 * v, None)
                    rec.ev("Reject", err=err, want="TypeError" if f is diagonal else "any", what=f.__name__ + ":none")
                else:
                    _, err = outcome(f, lambda v: 2 * v, bad)
                    rec.ev("Reject", err=err, want="any", what=f.__name__ + ":" + type(bad).__name__)
        _, err = outcome(diagonal, lambda v: 2 * v)
        rec.ev("Reject", err=err, want="TypeError", what="diagonal:missing")
        _, err = outcome(to_dense, lambda v: 2 * v)
        rec.ev("Reject", err=err, want="any", what="dense:missing")
        return
    if kind == "large":
        return large(sc, rec, rng)
    vec = ((), (1,), (2,), (3,))
    anyr = vec + ((2, 2), (1, 3), (2, 1, 2))
    tin = tout = FLAT
    hi = 40 if sc.get("big") else 10
    if kind == "gen":
        A = np.array(sc["A"])
    else:
        if kind == "tree-tree":
            same = rng.random() < 0.6
            tin = mk_tree(rng, vec if same and rng.random() < 0.5 else anyr, hi)
            tout = tin if same else mk_tree(rng, vec, hi)
            n, m = T.size(tin), T.size(tout)
        elif kind == "tree-flat":
            tin = mk_tree(rng, anyr, hi)
            n = m = T.size(tin)
            if rng.random() < 0.4:
                m = int(rng.integers(1, 8))
        elif kind == "flat-tree":
            tout = mk_tree(rng, vec, hi)
            n = m = T.size(tout)
            if rng.random() < 0.4:
                n = int(rng.integers(1, 8))
        else:
            n = m = int(rng.integers(1, 9)) if not sc.get("big") else 33
            if kind == "rect":
                m = int(rng.integers(1, 9))
        A = rng.integers(-9, 10, (m, n))
        if rng.random() < 0.25:
            A = A * (rng.random((m, n)) < 0.3)
    m, n = A.shape
    rec.ev("Begin", A=A.tolist(), tin=T.bare(tin), tout=T.bare(tout), label=kind)
    JA = jnp.asarray(A, jnp.float32)

    def leafz(x):
        return jnp.zeros(tuple(x["sh"]))
    Lin = n if tin is FLAT else T.build(tin, leafz)

    def own_flat(t, obj):
        ls = T.walk(t, obj)
        byid = order(t)
        return jnp.concatenate([jnp.reshape(ls[i - 1], (-1,)) for i in byid])

    def own_unflat(t, v):
        byid, off, parts = order(t), 0, {}
        shp = {x["id"]: x["sh"] for x in T.leaves(t)}
        for i in byid:
            s = int(np.prod(shp[i], dtype=int))
            parts[i] = v[off:off + s].reshape(shp[i])
            off += s
        return T.build(t, lambda x: parts[x["id"]])

    def mv(x):
        v = x if tin is FLAT else own_flat(tin, x)
        y = JA @ v
        return y if tout is FLAT else own_unflat(tout, y)
    forms = [mv, jax.jit(mv)]
    if tin is FLAT and tout is FLAT:
        forms.append(lambda v: jnp.einsum("ij,j->i", JA, v))
    f = forms[int(rng.integers(len(forms)))]

    def tree_obs(t, o):
        try:
            ls = T.walk(t, o)
        except T.Structure:
            return dict(ok=False, sh=[], v=[])
        return dict(ok=True, sh=[sh(x) for x in ls], v=[q(x, 1000) for x in ls])
    rank1 = all(len(x["sh"]) <= 1 for x in T.leaves(tout)) if tout is not FLAT else True
    for bs in sorted({sc["bs"], 0, int(rng.integers(1, n + 2))} if kind != "gen" else {sc["bs"]}):
        if rank1 and sc.get("what") != "diag":
            kw = {} if bs == 0 else {"to_dense_batch_size": bs}
            o, err = outcome(to_dense, f, Lin, **kw)
            rec.ev("Dense", bs=bs, err=err, out=dict(ok=False, sh=[-1], v=[]) if err else (dict(sh=sh(o), v=q(o, 1000)) if tout is FLAT else tree_obs(tout, o)))
        if n == m and sc.get("what") != "dense":
            kw = {} if bs == 0 else {"diagonal_batch_size": bs}
            if rng.random() < 0.5:
                kw["mv_jittable"] = bool(rng.random() < 0.3)
            o, err = outcome(diagonal, f, Lin, **kw)
            rec.ev("Diag", bs=bs, jit=kw.get("mv_jittable", True), err=err, out=dict(sh=[-1], v=[]) if err else dict(sh=sh(o), v=q(o, 1000)))
    if n == m:
        a = (JA,) if rng.random() < 0.5 else (JA, Lin)
        o, err = outcome(diagonal, *a)
        rec.ev("Diag", bs=0, jit=True, form="matrix", err=err, out=dict(sh=[-1], v=[]) if err else dict(sh=sh(o), v=q(o, 1000)))


def large(sc, rec, rng):
    """diag(d) + u w^T of a size at which indices, chunks and offsets leave one byte"""
    n = sc["n"]
    d, u, w = (rng.integers(-3, 4, n) for _ in range(3))
    w[rng.random(n) < 0.2] = 5
    if sc["form"] == "flat":
        lay, fl, un = n, lambda v: v, lambda v: v
    else:
        k = int(rng.integers(2, 9))
        cut = [n // k * k - 0, n % k] if n % k else [n]
        if rng.random() < 0.5:
            cut = [1] + [cut[0] - 1] + cut[1:]
        z = [jnp.zeros((c // k, k) if c % k == 0 else (c,)) for c in cut]
        lay = {f"p{i}": v for i, v in enumerate(z)}

        def fl(v):
            return jnp.concatenate([jnp.reshape(v[f"p{i}"], (-1,)) for i in range(len(z))])

        def un(v):
            o, r = 0, {}
            for i, c in enumerate(cut):
                r[f"p{i}"] = v[o:o + c].reshape(z[i].shape)
                o += c
            return r
    D, U, W = (jnp.asarray(x, jnp.float32) for x in (d, u, w))

    def mv(x):
        v = fl(x)
        return un(D * v + U * jnp.sum(W * v))
    rec.ev("Begin", A=[[0]], tin=FLAT, tout=FLAT, label="large")
    c = dict(d=d.tolist(), u=u.tolist(), w=w.tolist())
    bs = (0, 7, 128)[sc["bs"]]
    kw = {} if bs == 0 else {"diagonal_batch_size": bs}
    o, err = outcome(diagonal, mv, lay, **kw)
    rec.ev("BigDiag", **c, err=err, sh=[-1] if err else sh(o), v=[] if err else q(o, 1000))
    kw = {} if bs == 0 else {"to_dense_batch_size": bs}
    o, err = outcome(to_dense, lambda x: fl(mv(x)), lay, **kw)
    rows = sorted({0, n - 1, 127, 128, min(256, n - 1)} & set(range(n)))
    rec.ev("BigDense", **c, err=err, sh=[-1] if err else sh(o), rows=[r + 1 for r in rows], v=[] if err else [q(o[r], 1000) for r in rows])


def order(t):
    """leaf ids in flattening order (spec/Tree.tla Order)"""
    if t["t"] == "leaf":
        return [t["id"]]
    if t["t"] == "seq":
        return [i for c in t["c"] for i in order(c)]
    if t["t"] == "dict":
        return [i for k in sorted(range(len(t["k"])), key=lambda z: t["k"][z]) for i in order(t["c"][k])]
    return []


if __name__ == "__main__":
    import sys
    main(sys.modules[__name__])
