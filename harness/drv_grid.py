"""C12: behaviours of GridSearch.tla replayed into the real grid search."""
import json
import math
import numpy as np
from common import main, outcome, qs

import jax
import jax.numpy as jnp
from laplax.eval.calibrate import grid_search, optimize_prior_prec

INFV, NINF, NANV, VERR, TERR = 2000000, -2000000, 2000001, 2000002, 2000003


def scenarios(tier, seed, gen):
    scs = [dict(kind="beh", **json.loads(x)) for x in open(gen)]
    rng = np.random.default_rng(seed)
    if tier == "quick" and len(scs) > 6000:
        keep = sorted(rng.choice(len(scs), 6000, replace=False))
        scs = [scs[i] for i in keep]
    # long behaviours, random outcome histories (validated, not predicted)
    for _ in range(800 if tier == "quick" else 20000):
        n = int(rng.integers(5, 16))
        up = rng.random() < 0.5
        outs, x = [], 0
        for _i in range(n):
            r = rng.random()
            if r < 0.06:
                outs.append(NANV)
            elif r < 0.12:
                outs.append(VERR)
            elif r < 0.14:
                outs.append(TERR)
            elif r < 0.17:
                outs.append(INFV)
            elif r < 0.19:
                outs.append(NINF)
            else:
                x += int(rng.integers(-2, 3)) + (1 if up else 0)
                outs.append(x)
        scs.append(dict(kind="beh", n=n, pat=int(rng.integers(0, 6)), max=int(rng.choice([0, 0, 1, 3, n - 1, n, n + 3])), outs=outs))
    for lo in (-5, -3, 0, 2):
        for hi in (-4, 1, 3, 6):
            for size in (1, 2, 3, 7, 50, 300):
                if hi > lo:
                    scs.append(dict(kind="grid", lo=lo, hi=hi, size=size))
    scs.append(dict(kind="grid", lo=-5, hi=6, size=300, default=True))
    for i in range(60):  # keyword limits passed through the logarithmic front end
        n = int(rng.integers(3, 9))
        scs.append(dict(kind="opt", n=n, pat=int(rng.integers(0, 4)), max=int(rng.choice([0, 1, 2, n])), lo=-2, hi=3,
                        outs=[int(v) for v in rng.integers(-3, 4, n)]))
    return scs


class Undefined(ValueError):
    pass


class Other(Exception):
    pass


OTHERS = (TypeError, RuntimeError, KeyError, IndexError, AttributeError, ArithmeticError, ZeroDivisionError, OverflowError, FloatingPointError,
          NotImplementedError, AssertionError, OSError, MemoryError, Other, Warning, jax.errors.JaxRuntimeError)


def value(o, form):
    if o == NANV:
        v = math.nan
    elif o == INFV:
        v = math.inf
    elif o == NINF:
        v = -math.inf
    else:
        v = float(o)
    return {0: v, 1: jnp.asarray(v), 2: np.float64(v), 3: np.float32(v)}[form]


def run(sc, rec, rng):
    if sc["kind"] == "grid":
        logs = []

        def obj(a):
            logs.append(qs(math.log10(float(a["prior_prec"])), 1000))
            return 0.0
        kw = {} if sc.get("default") else dict(log_prior_prec_min=float(sc["lo"]), log_prior_prec_max=float(sc["hi"]), grid_size=sc["size"])
        rec.ev("Begin", n=0, pat=0, max=0, label="grid")
        optimize_prior_prec(obj, **kw)
        rec.ev("Grid", lo=sc["lo"], hi=sc["hi"], size=sc["size"], logs=logs)
        return
    n, form = sc["n"], int(rng.integers(4))
    bad = (ValueError, ValueError, Undefined, np.linalg.LinAlgError, UnicodeError)[int(rng.integers(5))]
    other = OTHERS[int(rng.integers(len(OTHERS)))]
    if sc["kind"] == "opt":
        grid = [float(x) for x in jnp.logspace(sc["lo"], sc["hi"], n)]
    else:
        grid = [float(x) for x in rng.permutation(np.arange(1, n + 1) * 0.25)]
        if rng.random() < 0.5:
            grid = sorted(grid)
    rec.ev("Begin", n=n, pat=sc["pat"], max=sc["max"], label=sc["kind"])
    calls = [0]

    def idx(p):
        m = [i + 1 for i, g in enumerate(grid) if abs(g - float(p)) <= 1e-6 * abs(g)]
        return m[0] if len(m) == 1 else 0

    def obj(a):
        k = calls[0]
        calls[0] += 1
        o = sc["outs"][k] if k < len(sc["outs"]) else 0
        rec.ev("Eval", idx=idx(a["prior_prec"]), out=o, keys=sorted(map(str, a)))
        if o == VERR:
            raise bad("scripted")
        if o == TERR:
            raise other("scripted")
        return value(o, form)
    pat, mx = sc["pat"] or None, sc["max"] or None
    if sc["kind"] == "opt":
        kw = {}
        if pat:
            kw["patience"] = pat
        if mx:
            kw["max_iterations"] = mx
        r, err = outcome(optimize_prior_prec, obj, log_prior_prec_min=float(sc["lo"]), log_prior_prec_max=float(sc["hi"]), grid_size=n, **kw)
    else:
        g = jnp.asarray(grid) if rng.random() < 0.5 else (np.asarray(grid) if rng.random() < 0.5 else grid)
        r, err = outcome(grid_search, g, obj, pat, mx)
    if err:
        rec.ev("Raise", err=err, want=other.__name__)
    else:
        rec.ev("Return", idx=idx(r))


if __name__ == "__main__":
    import sys
    main(sys.modules[__name__])
