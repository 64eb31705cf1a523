"""C15: the metrics on random predictions and targets."""
import json
import numpy as np
from common import main, outcome, q, sh

import jax
import jax.numpy as jnp
from laplax.enums import CalibrationErrorNorm
from laplax.eval import metrics as mt

U = 10000
f32 = lambda x: jnp.asarray(x, jnp.float32)
REG = dict(chi=mt.chi_squared, chi_zero=mt.chi_squared_zero, nll=mt.nll_gaussian, crps=mt.crps_gaussian, rmse=mt.estimate_rmse)
FLAG = dict(chi="averaged", chi_zero="averaged", nll="scaled", crps="scaled")
LONG = dict(rmse="rmse", chi="chi^2", nll="nll", crps="crps")


def scenarios(tier, seed, gen):
    rng = np.random.default_rng([seed, 15])
    cases = [json.loads(x) for x in open(gen)]
    rep = 1 if tier == "quick" else 12
    return [cases[i] for _ in range(rep) for i in rng.permutation(len(cases))]


def probs(rng, n, c):
    out = []
    for _ in range(n):
        w = rng.random(c) ** rng.choice([0.3, 1, 4])
        if rng.random() < 0.4:
            w[rng.random(c) < 0.4] = 0
        if w.sum() == 0:
            w[int(rng.integers(c))] = 1
        p = np.floor(64 * w / w.sum()).astype(int)
        p[int(np.argmax(p))] += 64 - p.sum()
        out.append(p)
    return np.array(out)


def confs(rng, n, bins):
    out = []
    while len(out) < n:
        c = int(rng.choice([rng.integers(0, 1025), rng.integers(900, 1025), 0, 1024], p=[0.6, 0.3, 0.05, 0.05]))
        if (c * bins) % 1024 or c in (0, 1024):      # interior boundaries are not documented
            out.append(c)
    return np.array(out)


def target(rng, t, c, opt):
    if opt == "onehot":
        return jnp.asarray(np.eye(c)[t], jnp.float32 if rng.random() < 0.7 else jnp.int32)
    return jnp.asarray(t, jnp.int32)


def call(rng, mode, fn, names, args, static):
    """the function with array arguments and static options in one of the calling styles"""
    static = dict(static)
    if mode == "extra" or rng.random() < 0.1:
        static.update(unused=1, pred_var=None, input=3)
    if mode == "jit":
        return outcome(jax.jit(lambda *a: fn(**dict(zip(names, a)), **static)), *args)
    if mode == "keywords":
        i = rng.permutation(len(names))
        return outcome(fn, **{names[j]: args[j] for j in i}, **static)
    if fn is mt.chi_squared_zero:
        return outcome(fn, **dict(zip(names, args)), **static)
    return outcome(fn, *args, **static)


def emit(rec, o, err, shape=None, **kw):
    rec.ev("Metric", **kw, err=err, sh=[] if err else (sh(o) if shape is None else shape(o)), out=[] if err else q(np.stack([np.asarray(x) for x in o]) if isinstance(o, (list, tuple)) else o, U))


def cls(sc, rec, rng):
    fn, n, c = sc["fn"], sc["n"], sc["c"]
    t = rng.integers(0, c, n)
    p = probs(rng, n, c)
    pred = np.stack([rng.permutation(c) for _ in range(n)]) * int(rng.choice([1, 3])) - int(rng.integers(0, 4))
    orders = [np.arange(n)] + ([rng.permutation(n) for _ in range(2)] if sc["mode"] == "permuted" else [])
    ks = [int(k) for k in rng.integers(1, c + 3, int(rng.integers(1, 4)))]
    for o in orders:
        tt = target(rng, t[o], c, sc["opt"])
        if fn == "brier":
            r, err = call(rng, sc["mode"], mt.multiclass_brier, ["prob", "target"], [f32(p[o] / 64), tt], {})
            emit(rec, r, err, fn=fn, opt=sc["opt"], p=p[o].tolist(), t=(t[o] + 1).tolist())
        elif fn == "correctness":
            r, err = call(rng, sc["mode"], mt.correctness, ["pred", "target"], [f32(pred[o]), tt], {})
            emit(rec, r, err, fn=fn, opt=sc["opt"], pred=pred[o].tolist(), t=(t[o] + 1).tolist())
        else:
            kw = {} if ks == [1] and rng.random() < 0.7 else dict(top_k=tuple(ks) if rng.random() < 0.7 else list(ks))
            r, err = call(rng, sc["mode"], mt.accuracy, ["pred", "target"], [f32(pred[o]), tt], kw)
            emit(rec, r, err, lambda x: [len(x)] if isinstance(x, (list, tuple)) and all(jnp.shape(y) == () for y in x) else [-1],
                 fn=fn, opt=sc["opt"], pred=pred[o].tolist(), t=(t[o] + 1).tolist(), ks=ks)


def xent(sc, rec, rng):
    n, c, opt = sc["n"], sc["c"], sc["opt"]
    if opt == "vector":
        n = 1
    p, r = probs(rng, n, c), probs(rng, n, c)
    P, R, kw = p, r, {}
    if opt == "vector":
        P, R = p[0], r[0]
    if opt == "first":
        P, R, kw = p.T, r.T, {"axis": 0}
    elif rng.random() < 0.3:
        kw = {"axis": -1 if opt == "vector" else 1}
    perms = [np.arange(n)] + ([rng.permutation(n)] if sc["mode"] == "permuted" else [])
    for o in perms:
        ix = (slice(None), o) if opt == "first" else (o if opt != "vector" else slice(None))
        x, err = call(rng, sc["mode"], mt.cross_entropy, ["prob_p", "prob_q"], [f32(P[ix] / 64), f32(R[ix] / 64)], kw)
        emit(rec, x, err, fn="cross_entropy", opt=opt, p=p[o].T.tolist() if opt == "first" else p[o].tolist(), q=r[o].T.tolist() if opt == "first" else r[o].tolist())


def bins(sc, rec, rng):
    fn, n, M = sc["fn"], sc["n"], sc["c"]
    cs, rs = confs(rng, n, M), rng.integers(0, 2, n)
    orders = [np.arange(n)] + ([rng.permutation(n) for _ in range(2)] if sc["mode"] == "permuted" else [])
    f = {"bins": mt.calculate_bin_metrics, "ece": mt.expected_calibration_error, "mce": mt.maximum_calibration_error}.get(fn, mt.calibration_error)
    kw = {} if fn == "bins" and M == 15 and rng.random() < 0.6 else {"num_bins": M}
    if fn.startswith("error"):
        kw["norm"] = CalibrationErrorNorm(fn[6:])
    for o in orders:
        r = jnp.asarray(rs[o], {"int": jnp.int32, "bool": bool, "float": jnp.float32}[sc["opt"]])
        x, err = call(rng, sc["mode"], f, ["confidence", "correctness"], [f32(cs[o] / 1024), r], kw)
        emit(rec, x, err, (lambda y: [len(y), int(np.shape(y[0])[0])]) if fn == "bins" else None, fn=fn, opt=sc["opt"], cs=cs[o].tolist(), rs=rs[o].tolist(), bins=M)


def reg(sc, rec, rng):
    fn, n, c = sc["fn"], sc["n"], sc["c"]
    shape = {0: (n,), 1: (n, 1), 2: (n, 2), 3: (n, 1, 2)}[c]
    if n == 1 and rng.random() < 0.4:
        shape = ((), (1,), (3,), (2, 2))[c]
    N = int(np.prod(shape, dtype=int))
    m, t, s = rng.integers(-24, 25, N), rng.integers(-24, 25, N), rng.integers(2, 25, N)
    if rng.random() < 0.2:
        s[:] = 8
    if rng.random() < 0.2:
        t[rng.random(N) < 0.5] = m[rng.random(N) < 0.5][:1].sum()
    e, off = int(rng.choice([0, 0, rng.integers(-7, 8)])), int(rng.choice([0, 0, rng.integers(-4000, 4000)]))
    orders = [np.arange(N)] + ([rng.permutation(N) for _ in range(2)] if sc["mode"] == "permuted" else [])
    un = lambda k: 2.0 ** -e if k in ("rmse", "crps") else 1.0
    kw = {} if sc["opt"] == "default" else {FLAG[fn]: sc["opt"] == "mean"}
    names = ["pred_mean", "target"] if fn == "rmse" else ["pred_mean", "pred_std", "target"]
    for o in orders:
        a = dict(pred_mean=f32(2.0**e * (off + m[o].reshape(shape)) / 8), pred_std=f32(2.0**e * s[o].reshape(shape) / 8), target=f32(2.0**e * (off + t[o].reshape(shape)) / 8))
        obs = dict(e=e, opt=sc["opt"], m=m[o].tolist(), s=s[o].tolist(), t=t[o].tolist())
        if fn == "dict":
            rec.ev("Names", got=sorted(mt.DEFAULT_REGRESSION_METRICS_DICT))
            for k, nm in LONG.items():
                x, err = outcome(mt.DEFAULT_REGRESSION_METRICS_DICT.get(nm, lambda **_: 1 / 0), **a)
                emit(rec, None if err else x * un(k), err, fn=k, **obs)
        elif fn == "list":
            def go():
                res, aux = {}, dict(a, extra=0)
                for f in mt.DEFAULT_REGRESSION_METRICS:
                    res, aux = f(results=res, aux=aux)
                return res
            res, err = outcome(go)
            rec.ev("Names", got=sorted(res) if not err else [err])
            for k, nm in LONG.items():
                if not err and nm in res:
                    emit(rec, res[nm] * un(k), "", fn=k, **obs)
        else:
            x, err = call(rng, sc["mode"], REG[fn], names, [a[k] for k in names], kw)
            emit(rec, None if err else x * un(fn), err, fn=fn, **obs)


SHAPES = (((3,), (1,)), ((3,), ()), ((2,), (3,)), ((2, 3), (3,)), ((2, 1), (2,)), ((4,), (2, 2)))


def mismatch(sc, rec, rng):
    a, b = SHAPES[sc["n"] - 1]
    for odd in range(3):
        for x, y in ((a, b), (b, a)):
            shapes = [y if i == odd else x for i in range(3)]
            arrs = [jnp.ones(s) for s in shapes]
            f = REG[sc["fn"]]
            kw = {} if rng.random() < 0.5 else {"scaled": bool(rng.random() < 0.5)}
            _, err = outcome(f, *arrs, **kw)
            rec.ev("Mismatch", fn=sc["fn"], shapes=[list(s) for s in shapes], err=err)


def run(sc, rec, rng):
    rec.ev("Begin", label=f"{sc['fn']}:{sc['n']}:{sc['c']}:{sc['opt']}:{sc['mode']}")
    fn = sc["fn"]
    if sc["opt"] == "mismatch":
        mismatch(sc, rec, rng)
    elif fn in ("correctness", "accuracy", "brier"):
        cls(sc, rec, rng)
    elif fn == "cross_entropy":
        xent(sc, rec, rng)
    elif fn in ("bins", "ece", "mce", "error_l1", "error_inf"):
        bins(sc, rec, rng)
    else:
        reg(sc, rec, rng)


if __name__ == "__main__":
    import sys
    main(sys.modules[__name__])
