"""C01: every composition of a dataset streamed through the real loader code."""
import json
from functools import partial
import numpy as np
from common import main, outcome, q, sh
import trees as T
import poly

import jax
import jax.numpy as jnp
from laplax.api import GGN
from laplax.curv.cov import estimate_curvature
from laplax.util import loader as Lo
from laplax.util.flatten import create_pytree_flattener, wrap_function
from laplax.util.mv import diagonal, to_dense


def scenarios(tier, seed, gen):
    rng = np.random.default_rng([seed, 3])
    cases = [json.loads(x) for x in open(gen)]
    if tier == "quick" and len(cases) > 280:
        cases = [cases[i] for i in sorted(rng.choice(len(cases), 280, replace=False))]
    scs = [dict(mode="reduce", **c) for c in cases]
    for i in range(40 if tier == "quick" else 400):  # longer streams
        n = int(rng.integers(7, 30))
        cuts = []
        while sum(cuts) < n:
            cuts.append(int(rng.integers(1, min(8, n - sum(cuts)) + 1)))
        scs.append(dict(mode="reduce", cuts=cuts, kind=("sum", "add", "concat", "mean")[i % 4]))
    for i in range(64 if tier == "quick" else 900):
        n = int(rng.integers(1, 8))
        cuts = []
        while sum(cuts) < n:
            cuts.append(int(rng.integers(1, n - sum(cuts) + 1)))
        scs.append(dict(mode="map", cuts=cuts, kind="add"))
    for i in range(32 if tier == "quick" else 400):
        n = int(rng.integers(1, 8))
        cuts = []
        while sum(cuts) < n:
            cuts.append(int(rng.integers(1, n - sum(cuts) + 1)))
        scs.append(dict(mode="ggn", cuts=cuts, kind="add"))
    scs += [dict(mode="empty", cuts=[1], kind="add")]
    return scs


class Loader:
    """re-iterable loader; each pass builds fresh batches"""

    def __init__(self, make):
        self.make = make

    def __iter__(self):
        return iter(self.make())


def loader_of(rng, X, Y, cuts):
    form = int(rng.integers(4))
    bounds = np.cumsum([0, *cuts])
    key = rng.random() < 0.5

    def make():
        for a, b in zip(bounds[:-1], bounds[1:]):
            x, y = X[a:b], Y[a:b]
            if form == 0:
                yield (x, y)
            elif form == 1:
                yield [x, y]
            elif form == 2:
                yield {"input": x, "target": y}
            else:
                yield {"img": x, "extra": 3, "lab": y}
    tr = {0: None, 1: None, 2: lambda b: b, 3: lambda b: {"input": b["img"], "target": b["lab"]}}[form]
    kw = {} if tr is None else dict(transform=tr)
    if tr is None and key:
        kw = dict(transform=Lo.input_target_split)
    lo = list(make()) if rng.random() < 0.4 else Loader(make)
    return lo, kw


def reducer(rng, kind, tr, keep):
    if kind == "sum":
        kw = {}
        if tr:
            kw["axis"] = 1
        if not keep:
            kw["keepdims"] = False
        return partial(Lo.reduce_sum, **kw) if kw else Lo.reduce_sum
    if kind == "concat":
        return partial(Lo.reduce_concat, axis=1) if tr else Lo.reduce_concat
    return Lo.reduce_add if kind == "add" else Lo.reduce_online_mean


def run(sc, rec, rng):
    mode, cuts, kind = sc["mode"], sc["cuts"], sc["kind"]
    n = sum(cuts)
    if mode == "empty":
        return empty(rec, rng)
    if mode == "map":
        return maps(sc, rec, rng)
    if mode == "ggn":
        return ggn(sc, rec, rng)
    d = int(rng.integers(1, 4))
    rows = rng.integers(-9, 10, (n, d))
    tr = bool(kind in ("sum", "concat") and rng.random() < 0.25)
    keep = bool(kind != "sum" or rng.random() < 0.6)
    forms = ["rows"]
    if not tr:
        if kind in ("sum", "concat", "mean"):
            forms.append("col")
        if kind in ("mean", "add"):
            forms.append("scal")
    single = rng.random() < 0.4
    if single:
        forms = [forms[int(rng.integers(len(forms)))]]
    rec.ev("Begin", rows=rows.tolist(), cuts=cuts, kind=kind, keep=keep, us=[], ys=[], label=kind)
    mk = jnp.asarray if rng.random() < 0.6 else np.asarray
    X, Y = mk(rows.astype(np.float32)), mk(np.arange(n))
    # the sample's row is split over input and an argument to see both passed on
    fac = 1.0

    def fn(scale, data):
        r = jnp.asarray(data["input"]) * scale
        out = []
        for f in forms:
            if kind == "add":
                out.append(jnp.sum(r, 0) if f == "rows" else jnp.sum(r[:, 0]))
            elif f == "rows":
                out.append(r.T if tr else r)
            elif f == "col":
                out.append(r[:, 0])
            else:
                out.append(jnp.sum(r[:, 0]))
        return out[0] if single else {"z": out[0], "a": tuple(out[1:])}

    def obs(o):
        ls = [o] if single else [o["z"], *o["a"]]
        return [dict(sh=sh(x), v=q(x, 1000)) for x in ls]
    lo, kw = loader_of(rng, X, Y, cuts)
    red = reducer(rng, kind, tr, keep)

    def logred(new, state=None):
        before = [np.array(x) for x in jax.tree.leaves((new, state))]
        r, st = red(new, state)
        if any(not np.array_equal(a, b) for a, b in zip(before, [np.array(x) for x in jax.tree.leaves((new, state))])):
            rec.ev("Same", ok=False)
        rec.ev("Step", out=obs(r), forms=forms, tr=tr, err="")
        return r, st

    def final(f, stepped):
        o, err = outcome(f)
        rec.ev("Final", out=[] if err else obs(o), forms=forms, tr=tr, err=err, stepped=stepped)
    jit = bool(rng.random() < 0.3)
    ways = [
        (lambda r: lambda: Lo.execute_with_data_loader(partial(fn, fac), lo, reduce=r, jit=jit, **kw)),
        (lambda r: (lambda w: lambda: w(fac))(Lo.wrap_function_with_data_loader(fn, lo, reduce=r, jit=jit, **kw))),
        (lambda r: lambda: Lo.process_batches(fn, lo, kw.get("transform", Lo.input_target_split), r, fac)),
        (lambda r: (lambda w: lambda: w(fac))(Lo.DataLoaderMV(lambda vec, data: fn(vec, data), lo, reduce=r, **kw))),
        (lambda r: lambda: Lo.execute_with_data_loader(fn, lo, reduce=r, scale=fac, **kw)),
    ]
    w = ways[int(rng.integers(len(ways)))]
    g = w(logred)
    for _ in range(2):   # streaming twice
        final(g, True)
    g = ways[int(rng.integers(len(ways)))](red)
    final(g, False)
    final(g, False)
    if kind == "mean":  # the default reduction
        d_ = {k: v for k, v in kw.items()}
        final(lambda: Lo.execute_with_data_loader(partial(fn, fac), lo, **d_), False)
        final(lambda: Lo.wrap_function_with_data_loader(fn, lo, **d_)(fac), False)
    # one pass over the whole dataset as a single batch
    whole, kw1 = loader_of(rng, X, Y, [n])
    if kind != "mean" or "scal" not in forms:
        final(lambda: Lo.execute_with_data_loader(partial(fn, fac), whole, reduce=red, **kw1), False)


def maps(sc, rec, rng):
    cuts = sc["cuts"]
    n = sum(cuts)
    while True:
        t = T.renumber(T.random_tree(rng, int(rng.integers(1, 3)), shapes=((), (1,), (2,), (3,), (2, 2))))[0]
        if 1 <= T.size(t) <= 6:
            break
    t = T.annotate(t, rng)
    lay = poly.Layout(t)
    P = lay.P
    flatmode = rng.random() < 0.4
    us, ys = rng.integers(-3, 4, (n, P)), rng.integers(-3, 4, (n, P))
    rec.ev("Begin", rows=[[0]] * n, cuts=cuts, kind="add", keep=True, us=us.tolist(), ys=ys.tolist(), label="map")
    lo, kw = loader_of(rng, jnp.asarray(us, jnp.float32), jnp.asarray(ys, jnp.float32), cuts)

    def mv(vec, data):
        v = vec if flatmode else lay.flat(vec)
        r = jnp.asarray(data["input"]).T @ (jnp.asarray(data["target"]) @ v)
        return r if flatmode else lay.unflat(r)
    base = Lo.DataLoaderMV(mv, lo, reduce=Lo.reduce_add, **kw)
    fl, un = (None, None) if flatmode else create_pytree_flattener(lay.unflat(jnp.zeros(P)))

    def diag_options():
        k = {"diagonal_batch_size": int(rng.integers(1, P + 2))} if rng.random() < 0.3 else {}
        return {**k, "mv_jittable": bool(rng.integers(2))} if rng.random() < 0.2 else k

    def observe(m, ins, outs, flat):
        """flat: m acts on flat vectors"""
        for _ in range(1 + int(rng.random() < 0.4)):
            v = [int(x) for x in rng.integers(-2, 3, P)]
            jv = jnp.asarray(v, jnp.float32)
            o, err = outcome(m, jv if flat else lay.unflat(jv))
            if not err and not flat:
                o = lay.flat(o)
            rec.ev("Map", form="mv", ins=ins, outs=outs, v=v, err=err, out=[] if err else q(o, 1000))
        if flat:
            bkw = {"to_dense_batch_size": int(rng.integers(1, P + 2))} if rng.random() < 0.4 else {}
            o, err = outcome(to_dense, m, P, **bkw)
            rec.ev("Map", form="dense", ins=ins, outs=outs, v=[], err=err, out=[] if err else q(o, 1000))
            o, err = outcome(diagonal, m, P, **diag_options())
            rec.ev("Map", form="diag", ins=ins, outs=outs, v=[], err=err, out=[] if err else q(o, 1000))
        else:
            o, err = outcome(diagonal, m, lay.unflat(jnp.zeros(P)), **diag_options())
            rec.ev("Map", form="diag", ins=ins, outs=outs, v=[], err=err, out=[] if err else q(o, 1000))
            if all(len(x["sh"]) <= 1 for x in T.leaves(t)):
                o, err = outcome(to_dense, m, lay.unflat(jnp.zeros(P)))
                if not err:
                    parts = T.walk(t, o)
                    o = np.concatenate([np.reshape(parts[i - 1], (-1, P)) for i in lay.ids])
                rec.ev("Map", form="dense", ins=ins, outs=outs, v=[], err=err, out=[] if err else q(o, 1000))
    observe(base, [], [], flatmode)
    cur, flat, ins, outs = base, flatmode, [], []
    stages = [(cur, list(ins), list(outs), flat)]
    if not flatmode and rng.random() < 0.7:
        cur = wrap_function(cur, input_fn=un, output_fn=fl)
        flat = True
        stages.append((cur, [], [], True))
        observe(cur, [], [], True)
    if flat:
        for _ in range(int(rng.integers(1, 4))):
            A, B = rng.integers(-2, 3, (P, P)), rng.integers(-1, 2, (P, P))
            ja, jb = jnp.asarray(A, jnp.float32), jnp.asarray(B, jnp.float32)
            which = int(rng.integers(3))
            k = {}
            if which != 1:
                k["input_fn"] = lambda v, ja=ja: ja @ v
                ins = [*ins, A.tolist()]
            if which != 0:
                k["output_fn"] = lambda v, jb=jb: jb @ v
                outs = [*outs, B.tolist()]
            cur = wrap_function(cur, **k)
            stages.append((cur, list(ins), list(outs), True))
            observe(cur, ins, outs, True)
    for m, i, o, f in stages[:-1]:   # earlier products are untouched by wrapping
        observe(m, i, o, f)


def ggn(sc, rec, rng):
    """Gauss-Newton products of a linear model: streamed and in one piece."""
    cuts = sc["cuts"]
    n = sum(cuts)
    t = T.annotate(T.renumber(T.random_tree(rng, int(rng.integers(1, 3)), shapes=((), (1,), (2,), (3,))))[0], rng)
    while not 1 <= T.size(t) <= 5:
        t = T.annotate(T.renumber(T.random_tree(rng, 2, shapes=((), (1,), (2,), (3,))))[0], rng)
    lay = poly.Layout(t)
    P = lay.P
    loss, fac = ("none", "mse")[int(rng.integers(2))], int(rng.integers(1, 4))
    X = rng.integers(-3, 4, (n, P))
    us = X * fac * (2 if loss == "mse" else 1)
    rec.ev("Begin", rows=[[0]] * n, cuts=cuts, kind="add", keep=True, us=us.tolist(), ys=X.tolist(), label="ggn:" + loss)
    jX, Y = jnp.asarray(X, jnp.float32), jnp.asarray(rng.integers(-2, 3, (n, 1)), jnp.float32)
    params = lay.unflat(jnp.asarray(rng.integers(-2, 3, P), jnp.float32))

    def model(input, params):
        return jnp.reshape(input @ lay.flat(params), (*input.shape[:-1], 1))
    for whole in (False, True):
        if whole:
            lo = (jX, Y) if rng.random() < 0.5 else {"input": jX, "target": Y}
            kw = {}
        else:
            lo, kw = loader_of(rng, jX, Y, cuts)
            if isinstance(lo, list):
                lo = Loader(lambda lo=lo: lo)
        if rng.random() < 0.3 and whole is False:
            kw["vmap_over_data"] = False
        mv, err = outcome(GGN, model, params, lo, loss, factor=float(fac), verbose_logging=False, **kw)
        if err:
            rec.ev("Map", form="mv", ins=[], outs=[], v=[0] * P, err=err, out=[])
            continue
        for _ in range(2):
            v = [int(x) for x in rng.integers(-2, 3, P)]
            o, err = outcome(mv, lay.unflat(jnp.asarray(v, jnp.float32)))
            rec.ev("Map", form="mv", ins=[], outs=[], v=v, err=err, out=[] if err else q(lay.flat(o), 1000))
        for kind, form in (("full", "dense"), ("diagonal", "diag"), ("full", "dense")):
            o, err = outcome(estimate_curvature, kind, mv, layout=params)
            rec.ev("Map", form=form, ins=[], outs=[], v=[], err=err, out=[] if err else q(o, 1000))


def empty(rec, rng):
    rec.ev("Begin", rows=[[0]], cuts=[1], kind="add", keep=True, us=[[1]], ys=[[1]], label="empty")
    fn = lambda data: jnp.sum(data["input"], 0)  # noqa: E731
    for lo in ([], (), Loader(list), iter([])):
        for r in (Lo.reduce_sum, Lo.reduce_add, Lo.reduce_concat, Lo.reduce_online_mean):
            _, err = outcome(Lo.execute_with_data_loader, fn, lo, reduce=r)
            rec.ev("Empty", err=err)
            _, err = outcome(Lo.wrap_function_with_data_loader(fn, lo, reduce=r))
            rec.ev("Empty", err=err)
            m = Lo.DataLoaderMV(lambda vec, data: vec, lo, reduce=r)
            _, err = outcome(m, jnp.ones(1))
            rec.ev("Empty", err=err)
            _, err = outcome(to_dense, m, 1)
            rec.ev("Empty", err=err)
            _, err = outcome(diagonal, m, 1)
            rec.ev("Empty", err=err)


if __name__ == "__main__":
    import sys
    main(sys.modules[__name__])
