"""C05: containers generated by MCTree pushed through the real container code."""
import json
import numpy as np
from common import main, outcome, q, sh
import trees as T

import jax
import jax.numpy as jnp
from laplax.util import flatten as F
from laplax.util import tree as U


def scenarios(tier, seed, gen):
    ts = [json.loads(x) for x in open(gen)]
    rng = np.random.default_rng(seed)
    if tier == "quick":
        ts = [ts[i] for i in sorted(rng.choice(len(ts), min(len(ts), 130), replace=False))]
    scs = [dict(tree=t) for t in ts]
    for i in range(30 if tier == "quick" else 1500):
        t = T.renumber(T.random_tree(rng, int(rng.integers(1, 4))))[0]
        if 0 < T.size(t) <= 40:
            scs.append(dict(tree=t))
    for i in range(6 if tier == "quick" else 200):
        t = T.renumber(T.wide(rng))[0]
        if 0 < T.size(t) <= 60:
            scs.append(dict(tree=t))
    # same-shaped leaves (leading axes for slices, statistics, partial products)
    for i in range(36 if tier == "quick" else 800):
        n = int(rng.integers(2, 5))
        shapes = [((n,), (n, 2), (n, 3), (n, 2, 2)), ((2, n), (n,), (1, n), (3, 1, n)), ((2, n), (3, n))][i % 3]
        t = T.renumber(T.random_tree(rng, int(rng.integers(1, 3)), shapes=shapes))[0]
        if 0 < T.size(t) <= 40:
            scs.append(dict(tree=t, n=n, kind=("lead", "trail", "mat")[i % 3]))
    return scs


def run(sc, rec, rng):
    t = T.annotate(sc["tree"], rng)
    lv = T.leaves(t)
    P = T.size(t)
    ca = [[int(v) for v in rng.integers(-9, 10, int(np.prod(x["sh"], dtype=int)))] for x in lv]
    cb = [[int(v) for v in rng.integers(-9, 10, len(c))] for c in ca]
    kind = int(rng.integers(4))  # leaf dtype: float, int, numpy float, mixed

    def mk(c, kind=kind):
        def leaf(x):
            v = np.array(c[x["id"] - 1]).reshape(x["sh"])
            k = (0, 1)[x["id"] % 2] if kind == 3 else kind
            if k == 2:
                return np.asarray(v, np.float32)
            return jnp.asarray(v, jnp.int32 if k == 1 else jnp.float32)
        return T.build(t, leaf)
    A, B = mk(ca), mk(cb)
    rec.ev("Begin", tree=T.bare(t), a=ca, b=cb, label=sc.get("kind", "any"))

    def tree_obs(o, k=1000):
        try:
            ls = T.walk(t, o)
        except T.Structure:
            return dict(ok=False, sh=[], v=[])
        return dict(ok=True, sh=[sh(x) for x in ls], v=[q(x, k) for x in ls])

    def flat_obs(o):
        return dict(sh=sh(o), v=q(o, 1000))
    rec.ev("Size", n=int(U.get_size(A)))
    fl, un = F.create_pytree_flattener(A)
    flat = [int(v) for v in rng.integers(-9, 10, P)]
    jflat = jnp.asarray(flat, jnp.float32)
    rec.ev("Flatten", out=flat_obs(fl(A)), via="create")
    rec.ev("Flatten", out=flat_obs(F.full_flatten(A)), via="full")
    rec.ev("Unflatten", flat=flat, out=tree_obs(un(jflat)), via="create")
    # the vector decides the values, whatever the numbers of the layout's leaves are
    rec.ev("Unflatten", flat=flat, out=tree_obs(un(jflat / 4), 4000), via="quarters")
    rec.ev("RoundTrip", out=tree_obs(un(fl(A))))
    rec.ev("Unflatten", flat=flat, out=tree_obs(un(F.full_flatten(un(jflat)))), via="twice")
    if rng.random() < 0.3:
        rec.ev("Unflatten", flat=flat, out=tree_obs(jax.jit(un)(jflat)), via="jit")
        rec.ev("Flatten", out=flat_obs(jax.jit(fl)(A)), via="jit")
    # boundaries of the leaves in flat order, both ends, some inside
    cs = np.cumsum([int(np.prod(x.shape, dtype=int)) for x in jax.tree.leaves(A)])
    edge = [int(c) - d for c in cs for d in (0, 1) if 0 <= int(c) - d < P]
    js = range(P) if P <= 4 else sorted({edge[int(rng.integers(len(edge)))] for _ in range(3)} | {int(rng.integers(P)), 0, P - 1})
    for j in js:
        how = int(rng.integers(4))
        if how == 0:
            bj = jax.jit(lambda i: U.basis_vector_from_index(i, A))(j)
        elif how == 1:
            bj = jax.tree.map(lambda x: x[1], jax.vmap(lambda i: U.basis_vector_from_index(i, A))(jnp.array([(j + 1) % P, j])))
        else:
            bj = U.basis_vector_from_index(j if how == 2 else np.int64(j), A)
        rec.ev("Basis", j=j + 1, out=tree_obs(bj))
        rec.ev("VecGet", j=j + 1, val=q(U.tree_vec_get(A, j), 1000)[0])
        rec.ev("VecGet", j=j + 1, val=q(U.tree_vec_get(F.full_flatten(A), j), 1000)[0])
    rec.ev("Eye", out=tree_obs(U.eye_like(A)), via="eye_like")
    if rng.random() < 0.35:
        rec.ev("Eye", out=tree_obs(U.eye_like_with_basis_vector(A)), via="basis")
    # splitting an axis
    for presh, postsh in (([], []), ([], [2]), ([2], []), ([3], [2]), ([2, 1], [1, 2])):
        if rng.random() < 0.5:
            continue
        full = presh + [P] + postsh
        c = [int(v) for v in rng.integers(-9, 10, int(np.prod(full)))]
        ax = len(presh)
        if rng.random() < 0.4:
            ax -= len(full)
        o, err = outcome(F.unravel_array_into_pytree, A, ax, jnp.asarray(c, jnp.float32).reshape(full))
        rec.ev("Unravel", pre=int(np.prod(presh, dtype=int)), post=int(np.prod(postsh, dtype=int)), presh=presh, postsh=postsh, flat=c, out=tree_obs(o), err=err)
    wrap(rec, rng, t, A, tree_obs, flat_obs, len(lv))
    arith(rec, rng, t, A, B, ca, cb, mk, tree_obs)
    if len(lv) <= 4 and P <= 14 and P > 0 and rng.random() < 0.5:
        blocks(rec, rng, A, ca, tree_obs)
    if rng.random() < 0.1:
        helpers(rec, rng)
    same = mk(ca, 0)
    rec.ev("AllClose", x=ca, y=cb, out=bool(U.allclose(A, B)))
    rec.ev("AllClose", x=ca, y=ca, out=bool(U.allclose(A, same)))
    if P > 0:  # one entry differs
        cc = [list(c) for c in ca]
        ids = [i for i, c in enumerate(cc) if c]
        i = ids[int(rng.integers(len(ids)))]
        k = int(rng.integers(len(cc[i])))
        cc[i][k] += 1
        rec.ev("AllClose", x=ca, y=cc, out=bool(U.allclose(A, mk(cc, 0))))
    if sc.get("kind") in ("lead", "trail", "mat"):
        stats(rec, rng, sc, lv, A, tree_obs)
    ok = all(np.array_equal(np.asarray(x).reshape(-1), c) for x, c in zip(T.walk(t, A), ca)) and \
        all(np.array_equal(np.asarray(x).reshape(-1), c) for x, c in zip(T.walk(t, B), cb))
    rec.ev("Unchanged", ok=bool(ok))


def wrap(rec, rng, t, A, tree_obs, flat_obs, nl):
    fl, un = F.create_pytree_flattener(A)

    def ids(o):
        return [x for x in T.walk(t, o)]

    def ftree(v):
        cnt = [0]

        def leaf(x):
            return 2 * ls[x["id"] - 1] + x["id"]
        ls = ids(v)
        del cnt
        return T.build(t, leaf)

    def fflat(v):
        return v[::-1] + jnp.arange(1, v.shape[0] + 1)
    for form in ("flat-both", "tree-both", "in-only", "out-only", "none"):
        for argn in (0, 1, 2):
            if rng.random() < 0.6:
                continue
            seen = {}

            def f(x0, x1, x2, *, kw=None, _argn=argn, _form=form, _seen=seen):
                xs = [x0, x1, x2]
                _seen["others"] = [int(x) for i, x in enumerate(xs) if i != _argn]
                _seen["kw"] = kw
                return (fflat if _form == "tree-both" else ftree)(xs[_argn])
            inp, outp, x = {"flat-both": (un, fl, fl(A)), "tree-both": (fl, un, A), "in-only": (un, None, fl(A)),
                            "out-only": (None, fl, A), "none": (None, None, A)}[form]
            args = [11, 22, 33]
            args[argn] = x
            kw = dict(input_fn=inp, output_fn=outp)
            if argn or rng.random() < 0.5:
                kw["argnums"] = argn
            w = F.wrap_function(f, **kw)
            reps = 2 if rng.random() < 0.3 else 1
            for _ in range(reps):
                o, err = outcome(w, *args, kw="z")
                rec.ev("Wrap", form=form, arg=argn, others=seen.get("others", []), wantothers=[v for i, v in enumerate([11, 22, 33]) if i != argn],
                       kwok=seen.get("kw") == "z", out=(flat_obs if form in ("flat-both", "out-only") else tree_obs)(o if not err else None) if not err else dict(ok=False, sh=[-1], v=[]), err=err)
    # flat-vector version of a function, and factories
    o = F.flatten_function(ftree, A)(fl(A))
    rec.ev("Wrap", form="flat-both", arg=0, others=[], wantothers=[], kwok=True, out=flat_obs(o), err="")
    got = {}

    def factory(p, *, opt):
        got["a"] = (p, opt)
        return ftree
    o = F.wrap_factory(factory, un, fl)(5, opt=7)(fl(A))
    rec.ev("Wrap", form="flat-both", arg=0, others=list(got["a"]), wantothers=[5, 7], kwok=True, out=flat_obs(o), err="")
    o = F.wrap_factory(lambda: fflat, fl, un)()(A)
    rec.ev("Wrap", form="tree-both", arg=0, others=[], wantothers=[], kwok=True, out=tree_obs(o), err="")


def arith(rec, rng, t, A, B, ca, cb, mk, tree_obs):
    k = int(rng.integers(-4, 5))
    for op, fn in (("add", lambda: U.add(A, B)), ("sub", lambda: U.sub(A, B)), ("neg", lambda: U.neg(A)),
                   ("mul", lambda: U.mul(k, A)), ("mul", lambda: U.mul(jnp.float32(k), A)), ("ones", lambda: U.ones_like(A)), ("zeros", lambda: U.zeros_like(A))):
        rec.ev("Arith", op=op, k=k, out=tree_obs(fn()))
    ia = mk(ca, 1)
    rec.ev("Arith", op="invert", k=0, out=tree_obs(U.invert(ia)))
    sq = [[v * v for v in c] for c in ca]
    rec.ev("Sqrt", sq=sq, out=tree_obs(U.sqrt(mk(sq, 0))))


def blocks(rec, rng, A, ca, tree_obs):
    """square of blocks (leaf i column, leaf j row) times the container"""
    xs = jax.tree.leaves(A)
    sz = [int(np.prod(x.shape, dtype=int)) for x in xs]
    B = [[rng.integers(-3, 4, (sz[j], sz[i])) for j in range(len(xs))] for i in range(len(xs))]
    T_ = [[jnp.asarray(B[i][j].reshape(xs[j].shape + xs[i].shape), jnp.float32) for j in range(len(xs))] for i in range(len(xs))]
    o = U.tree_matvec(T_, jax.tree.map(lambda x: jnp.asarray(x, jnp.float32), A))
    rec.ev("Blocks", b=[[[int(v) for v in m.reshape(-1)] for m in r] for r in B], out=tree_obs(o))


def helpers(rec, rng):
    """adaptive list, running sums, booleans"""
    from laplax.util import ops
    xs = [int(v) for v in rng.integers(-9, 10, int(rng.integers(1, 7)))]
    rec.ev("Cumsum", xs=xs, out=[int(v) for v in F.cumsum(v for v in xs)])
    n = len(xs)
    for pre in (None, True, False):
        calls = [0]

        def f(v, calls=calls):
            calls[0] += 1
            return {"s": v * v, "t": (v, -v)}
        kw = {} if rng.random() < 0.5 else dict(precompute_list_batch_size=int(rng.integers(1, n + 3)))
        g = ops.precompute_list(f, jnp.asarray(xs, jnp.float32), precompute=pre, **kw)
        order = [int(v) for v in rng.permutation(n)]
        outs = [g(i) if pre is not False else g(jnp.float32(xs[i])) for i in order]
        rec.ev("List", pre=str(pre), xs=xs, order=order, bs=kw.get("precompute_list_batch_size", 0),
               out=[[int(o["s"]), int(o["t"][0]), int(o["t"][1])] for o in outs])
    for s in ("True", "False", "true", "", "1", "FALSE", "False "):
        o, err = outcome(ops.str_to_bool, s)
        rec.ev("Bool", s=s, out="True" if o is True else "False" if o is False else "none", err=err.split(":")[0])


def stats(rec, rng, sc, lv, A, tree_obs):
    n, kind = sc["n"], sc["kind"]
    fa = jax.tree.map(lambda x: jnp.asarray(x, jnp.float32), A)
    for op, fn in (("mean", U.mean), ("var", U.var), ("std", U.std)):
        for axis in (99, 0, -1):
            keep = bool(rng.random() < 0.3)
            ddof = 0
            kw = {}
            if axis != 99:
                kw["axis"] = axis
            if keep:
                kw["keepdims"] = True
            if op != "mean" and axis == (0 if kind == "lead" else -1) and rng.random() < 0.6 and kind != "mat":
                ddof = 1
                kw["ddof"] = 1
            rec.ev("Stat", op=op, axis=axis, keep=keep, ddof=ddof, out=tree_obs(fn(fa, **kw)))
    if all(len(x["sh"]) <= 2 for x in lv) and kind in ("lead", "mat"):
        # variables x observations; every leaf needs at least two observations
        rowvar = kind == "mat"
        if rowvar or all(x["sh"][0] >= 2 for x in lv):
            ddof = int(rng.integers(0, 2))
            kw = dict(rowvar=rowvar)
            if ddof == 0:
                kw["bias"] = True
            rec.ev("Cov", rowvar=rowvar, ddof=ddof, out=tree_obs(U.cov(fa, **kw)))
            if kind == "mat":
                rec.ev("Cov", rowvar=True, ddof=1, out=tree_obs(U.cov(fa)))
    if kind == "lead":
        for _ in range(4):
            lo = int(rng.integers(0, n))
            hi = int(rng.integers(lo, n + 2))
            rec.ev("Slice", lo=lo, hi=hi, out=tree_obs(U.tree_slice(A, lo, hi)))
    if kind in ("trail", "mat"):
        vec = [int(v) for v in rng.integers(-5, 6, n)]
        rec.ev("PartialMatvec", vec=vec, out=tree_obs(U.tree_partialmatvec(fa, jnp.asarray(vec, jnp.float32))))
        fl, un = F.create_partial_pytree_flattener(fa)
        o = fl(fa)
        rec.ev("PartialFlatten", n=n, out=dict(sh=sh(o), v=q(o, 1000)))
        P = int(np.prod(o.shape))
        flat = [int(v) for v in rng.integers(-9, 10, P)]
        rec.ev("PartialUnflatten", n=n, flat=flat, out=tree_obs(un(jnp.asarray(flat, jnp.float32).reshape(P // n, n))))
        rec.ev("RoundTrip", out=tree_obs(un(fl(fa))))
    del lv


if __name__ == "__main__":
    import sys
    main(sys.modules[__name__])
