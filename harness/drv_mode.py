"""C08: the 64-bit mode over histories of user changes and solver calls."""
import json
import threading
import warnings
import numpy as np
from common import main
import trees as T
import poly

import jax
import jax.numpy as jnp
from jax.experimental import disable_x64, enable_x64
from laplax.api import laplace
from laplax.curv.cov import create_posterior_fn, estimate_curvature
from laplax.curv.lanczos import lanczos_lowrank
from laplax.curv.lobpcg import lobpcg_lowrank
from laplax.curv.low_rank import create_low_rank_curvature
from laplax.enums import LossFn, LowRankMethod

C = 16777217.0


class Stop(BaseException):
    pass


class Broken(Exception):
    pass


def scenarios(tier, seed, gen):
    rng = np.random.default_rng([seed, 8])
    cases = [json.loads(x) for x in open(gen)]
    cases = [c for c in cases if any(o[0] not in ("set", "enter", "exit") for o in c["ops"])]
    n = 200 if tier == "quick" else 2500
    return [dict(cases[i], glob=bool(rng.random() < 0.4)) for i in rng.choice(len(cases), n, replace=n > len(cases))]


def there():
    r = []
    t = threading.Thread(target=lambda: r.append(bool(jax.config.read("jax_enable_x64"))))
    t.start()
    t.join()
    return r[0]


def run(sc, rec, rng):
    jax.config.update("jax_enable_x64", sc["glob"])
    ctxs = []
    rec.ev("Begin", global_=0, **{"global": sc["glob"]}, label=",".join(o[0] for o in sc["ops"]))

    def mode():
        rec.ev("Mode", here=bool(jax.config.read("jax_enable_x64")), there=there(), dflt=str(jnp.zeros(()).dtype))
    try:
        mode()
        for o in sc["ops"]:
            k = o[0]
            if k == "set":
                jax.config.update("jax_enable_x64", o[1])
                rec.ev("Set", b=o[1])
            elif k == "enter":
                c = enable_x64() if o[1] else disable_x64()
                c.__enter__()
                ctxs.append(c)
                rec.ev("Enter", b=o[1])
            elif k == "exit":
                ctxs.pop().__exit__(None, None, None)
                rec.ev("Exit")
            else:
                one(k, rec, rng, 0)
            mode()
    finally:
        while ctxs:
            ctxs.pop().__exit__(None, None, None)
        jax.config.update("jax_enable_x64", False)


def dts(rng):
    f = {"float32": jnp.float32, "float64": jnp.float64}
    mv = ("", "", "float32", "float64")[int(rng.integers(4))]
    calc = ("", "float32", "float64")[int(rng.integers(3))]
    ret = ("", "", "float32", "float64")[int(rng.integers(4))]
    kw = {}
    for n, v in (("mv_dtype", mv), ("calc_dtype", calc), ("return_dtype", ret)):
        if v:
            kw[n] = f[v]
        elif n != "calc_dtype" and rng.random() < 0.3:
            kw[n] = None
    return dict(mv=mv, calc=calc, ret=ret), kw


def finish(rec, fn, plan, want, lanczos):
    """run fn, record the end of the call"""
    d = dict(plan=plan, want=want, err="", dtypes=[], probe=-1, dev=0, f32=True)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = fn()
    except (Stop, Exception) as e:  # noqa: BLE001
        if type(e).__name__ == "Timeout":
            raise
        d["err"] = type(e).__name__
        rec.ev("End", **d)
        return None
    if r is not None:
        U, S = np.array(r.U), np.array(r.S)
        d["dtypes"] = [str(x.dtype) for x in (r.U, r.S, r.scalar)]
        Uf, Sf = U.astype(np.float64), S.astype(np.float64)
        live = np.abs(Sf) > 1
        if live.any() and np.isfinite(Uf).all():
            G = Uf[:, live].T @ Uf[:, live]
            d["dev"] = int(min(1e9, np.abs(G - np.eye(len(G))).max() * 1e9))
            if lanczos:
                d["probe"] = int(round(Sf[live].max()))
        d["f32"] = bool((U == U.astype(np.float32)).all() and (S == S.astype(np.float32)).all())
    rec.ev("End", **d)
    return r


def one(kind, rec, rng, depth):
    solver = kind if kind in ("lanczos", "lobpcg") else ("lanczos", "lanczos", "lobpcg")[int(rng.integers(3))]
    if kind in ("high", "loader"):
        return high(kind, solver, rec, rng)
    d, kw = dts(rng)
    P = int(rng.integers(1, 6)) if solver == "lanczos" else int(rng.integers(6, 13))
    f = {"lanczos": lanczos_lowrank, "lobpcg": lobpcg_lowrank}[solver]
    jit = bool(rng.random() < 0.5)
    if rng.random() < 0.7 or kind == "nested":
        kw["mv_jit"] = jit and kind != "nested"
    jit = kw.get("mv_jit", True)
    plan, want, fail, when = "ok", "", None, 0
    if kind == "fail":
        plan = "fail"
        fails = ["operator", "operator", "base", "layout", "shape", "rank"]
        fails += ["start"] if solver == "lanczos" else ["small", "warn"]
        fail = fails[int(rng.integers(len(fails)))]
        when = 0 if jit else int(rng.integers(0, 3))
    seen = [0]
    tree = rng.random() < 0.3
    lay = None
    if tree:
        lay = poly.Layout(T.annotate(T.renumber({"t": "dict", "k": [2, 1], "c": [{"t": "leaf", "id": 0, "sh": [1]}, {"t": "leaf", "id": 0, "sh": [P - 1]}] if P > 1 else [{"t": "leaf", "id": 0, "sh": [1]}, {"t": "leaf", "id": 0, "sh": [0]}]})[0], rng))
    nest = dict(left=1 if kind == "nested" and depth < 2 else 0)

    def op(v):
        leaves = jax.tree.leaves(v)
        for x in leaves:
            rec.ev("Eval", dtype=str(x.dtype))
        seen[0] += 1
        if nest["left"]:
            nest["left"] = 0
            one(("lanczos", "lobpcg", "fail", "nested")[int(rng.integers(4))], rec, rng, depth + 1)
        if fail in ("operator", "base") and seen[0] > when:
            raise Stop("stop") if fail == "base" else Broken("operator")
        if fail == "shape" and seen[0] > when:
            return jnp.zeros(P + 3, leaves[0].dtype)
        return jax.tree.map(lambda x: C * x, v)
    layout = lay.unflat(jnp.zeros(P)) if tree else P
    rank = int(rng.integers(1, 4)) if solver == "lanczos" else 1
    if fail in ("operator", "base"):
        want = "Stop" if fail == "base" else "Broken"
        if not jit and solver == "lanczos":
            rank = max(rank, when + 1)
        if not jit and solver == "lobpcg":
            when = 0
    if solver == "lanczos":
        if rng.random() < 0.5:
            kw["key"] = jax.random.key(int(rng.integers(50)))
        else:
            kw["b"] = np.arange(1.0, P + 1)
    if fail == "start":
        kw.pop("key", None), kw.pop("b", None)
        want = "ValueError"
    if fail == "layout":
        layout = (None, "nine", 2.5)[int(rng.integers(3))]
    if fail == "rank":
        rank = ("three", 1.5, -3)[int(rng.integers(3))]
        plan = "any"
    if fail == "shape":
        plan = "any"
    if fail == "small":
        P = layout = int(rng.integers(1, 5))
        plan, tree = "any", False
    A = op
    if kind in ("lanczos", "lobpcg") and rng.random() < 0.2:
        A, layout = C * jnp.eye(P), None
        want = "array"
    entry = int(rng.integers(3))

    def call():
        if fail == "warn":
            warnings.simplefilter("error")
            return lobpcg_lowrank(op, layout=10, rank=7, **kw)
        if entry == 0 or not isinstance(rank, int):
            return f(A, layout=layout, rank=rank, **kw)
        if entry == 1:
            return create_low_rank_curvature(A, layout=layout, rank=rank, low_rank_method=LowRankMethod(solver), **kw)
        return estimate_curvature(solver, A, layout=layout, rank=rank, **kw)
    rec.ev("Call", **d)
    r = finish(rec, call, plan, want if want != "array" else "", solver == "lanczos" and want != "array")
    return r


def high(kind, solver, rec, rng):
    """one-call fits and posterior construction; failing loaders"""
    d, kw = dts(rng)
    P = int(rng.integers(2, 5)) if solver == "lanczos" else int(rng.integers(6, 9))
    bad = kind == "loader"
    if not bad:
        d, kw = dict(mv="", calc=d["calc"], ret=d["ret"]), {k: v for k, v in kw.items() if k != "mv_dtype"}
    n = int(rng.integers(2, 5))
    dt = jnp.zeros(()).dtype
    X, Y = jnp.asarray(rng.integers(-2, 3, (n, P)), dt), jnp.asarray(rng.integers(-2, 3, (n, 1)), dt)
    params = {"w": jnp.asarray(rng.integers(-2, 3, P), dt)}
    at = int(rng.integers(0, 2 * n + 4))
    count = [0]
    how = ("raise", "malformed", "shape")[int(rng.integers(3))]

    class L:
        def __iter__(self):
            for i in range(n):
                count[0] += 1
                if bad and count[0] > at:
                    if how == "raise":
                        raise Broken("loader")
                    yield (X[i:i + 1],) if how == "malformed" else (X[i:i + 1, :-1], Y[i:i + 1])
                yield (X[i:i + 1], Y[i:i + 1])

    def model(input, params):
        return jnp.reshape(input @ params["w"], (1,))
    kw["mv_jit"] = bool(rng.random() < 0.3)
    if solver == "lanczos":
        kw["key"] = jax.random.key(1)
    kw["rank"] = int(rng.integers(1, 3)) if solver == "lanczos" else 1
    which = int(rng.integers(2))

    def call():
        if which or bad:
            _, est = laplace(model, params, L() if bad or rng.random() < 0.5 else (X, Y), loss_fn=LossFn.MSE, curv_type=solver, **kw)
            return est
        pf = create_posterior_fn(solver, lambda v: jax.tree.map(lambda x: C * x, v), layout=params, **kw)
        pf({"prior_prec": 1.0})
        return None
    rec.ev("Call", **d)
    finish(rec, call, "any" if bad else "ok", "", False)


if __name__ == "__main__":
    import sys
    main(sys.modules[__name__])
