"""C16: registrations of methods and their use by every stage."""
import functools
import json
import numpy as np
from common import main, outcome, q
import trees as T
import poly

import jax
import jax.numpy as jnp
from laplax.api import calibration
from laplax.curv import cov as cv
from laplax.curv.cov import estimate_curvature, set_posterior_fn
from laplax.curv.utils import LowRankTerms
from laplax.enums import CurvApprox
from laplax.eval.calibrate import optimize_prior_prec
from laplax.eval.likelihood import CURVATURE_MARGINAL_LOG_LIKELIHOOD, marginal_log_likelihood
from laplax.register import register_calibration_method, register_curvature_method

U = 10000
f32 = lambda x: jnp.asarray(x, jnp.float32)
ARG = dict(create="create_curvature_fn", precision="curvature_to_precision_fn", state="prec_to_posterior_fn", scale="posterior_state_to_scale_fn", cov="posterior_state_to_cov_fn", mll="marginal_log_likelihood_fn")
DICT = dict(create=cv.CURVATURE_METHODS, precision=cv.CURVATURE_PRECISION_METHODS, state=cv.CURVATURE_TO_POSTERIOR_STATE,
            scale=cv.CURVATURE_STATE_TO_SCALE, cov=cv.CURVATURE_STATE_TO_COV, mll=CURVATURE_MARGINAL_LOG_LIKELIHOOD)
FAMS = ("full", "diagonal", "lanczos")
ORIG = {f: {s: DICT[s][f] for s in ARG} for f in FAMS}
VAR = dict(n1=("mine", "full2", "FULL", "Lanczos", "my method", "n1"), n2=("other one", "diag", "Diagonal", "full_", "n2"), m1=("mine", "My_Method", "grid", "gradient_descent"))


def scenarios(tier, seed, gen):
    cases = [json.loads(x) for x in open(gen)]
    return cases[:190 if tier == "quick" else 4000]


def times(k, x):
    """the same curvature or precision, multiplied"""
    if isinstance(x, LowRankTerms):
        return LowRankTerms(x.U, x.S * k, x.scalar * k)
    return x * k


class Falsy:
    """a callable object that is an (empty) container, too"""

    def __init__(self, f):
        self.f = f

    def __call__(self, *a, **kw):
        return self.f(*a, **kw)

    def __len__(self):
        return 0


def spy(stage, id_, k, fam, log, rng):
    base = ORIG[fam][stage]

    def f(*a, **kw):
        log.append([stage, id_])
        if stage == "state":
            a = (times(k, a[0]),) + a[1:]
            return base(*a, **kw)
        r = base(*a, **kw)
        if stage in ("scale", "cov"):
            return lambda v: k * r(v)
        return k * r if stage == "mll" else times(k, r)
    r = rng.random()
    if r < 0.2:
        return functools.partial(f)
    if r < 0.4:
        return Falsy(f)
    return f


def run(sc, rec, rng):
    P = int(rng.integers(1, 5))
    fams = [FAMS[i] for i in rng.permutation(3)]
    name = dict(base=fams[0], other="kept", fam2=fams[1], fam3=fams[2], grid_search="grid_search")
    for n in ("n1", "n2", "m1"):
        while True:
            name[n] = VAR[n][int(rng.integers(len(VAR[n])))]
            if list(name.values()).count(name[n]) == 1:
                break
    family = {"n1": fams[0], "n2": fams[0], "base": fams[0], "other": fams[0], "fam2": fams[1], "fam3": fams[2]}
    while True:
        t = T.renumber(T.random_tree(rng, 2))[0]
        if T.size(t) == P:
            break
    lay = poly.Layout(T.annotate(t, rng))
    zero = lay.unflat(jnp.zeros(P))
    cs = rng.permutation(np.arange(1, 8))[:P]
    C = f32(np.diag(cs))
    mv = lambda v: lay.unflat(C @ lay.flat(v))
    log, called = [], []
    rec.ev("Begin", label=f"{fams[0]}:{len(sc)}")
    fresh = [name["n1"], name["n2"], "kept"]
    register_curvature_method("kept", default=fams[0])

    def use(n):
        nm, kw = name[n], {}
        key = CurvApprox(nm) if nm in FAMS and rng.random() < 0.4 else nm
        if family[n] == "lanczos":
            kw = dict(rank=P, key=jax.random.key(int(rng.integers(50))))
        tau, k = int(rng.integers(1, 5)), int(rng.integers(1, 4))
        pa, lk = {"prior_prec": float(tau)}, {} if k == 1 else {"loss_scaling_factor": float(k)}
        obs = dict(nm=n, cs=cs.tolist(), t=tau, k=k)

        def step(what, stages, fn, res):
            log.clear()
            o, err = outcome(fn)
            out, err = outcome(lambda: q(res(o), U)) if not err else (None, err)
            rec.ev("Use", what=what, stages=stages, calls=[x for i, x in enumerate(log) if x not in log[:i]], err=err, out=out or [], v=v.tolist(), **obs)
            return o if not err else None
        v = rng.integers(1, 6, P)

        def eig(est):
            if isinstance(est, LowRankTerms):
                return np.diagonal(np.asarray(est.U * est.S) @ np.asarray(est.U).T)
            return np.asarray(est) if np.ndim(est) == 1 else np.diagonal(np.asarray(est))
        est = step("estimate", ["create"], lambda: estimate_curvature(key, mv=mv, layout=zero, **kw), eig)
        if est is None:
            return
        pf = set_posterior_fn(key, est, layout=zero)

        def cov():
            p = pf(pa, **lk)
            return p.cov_mv(p.state)(lay.unflat(f32(v)))

        def scale():
            p = pf(pa, **lk)
            s = p.scale_mv(p.state)
            return np.square(np.stack([np.asarray(lay.flat(s(lay.unflat(f32(e))))) for e in np.eye(P)])).sum(0)
        step("cov", ["precision", "state", "cov"], cov, lambda o: lay.flat(o))
        step("scale", ["precision", "state", "scale"], scale, lambda o: o)
        step("mll", ["precision", "mll"], lambda: marginal_log_likelihood(est, pa, dict(input=jnp.zeros((2, 1)), target=jnp.zeros((2, 1))), lambda input, params: 0.0 * input, zero, "mse", key, **lk),
             lambda o: [o])

    def method(id_, grid):
        def f(objective, **kw):
            called.append(id_)
            return float(id_) if grid else {"prior_prec": float(id_), "by": id_}
        return Falsy(f) if rng.random() < 0.2 else f

    def calibrate(n):
        called.clear()
        model = lambda input, params: input * jnp.sum(lay.flat(params)) if P else input
        pf = set_posterior_fn("kept", estimate_curvature("kept", mv=mv, layout=zero, **(dict(rank=P, key=jax.random.key(3)) if fams[0] == "lanczos" else {})), layout=zero)
        o, err = outcome(calibration, pf, model, zero, {"input": jnp.ones((2, 1)), "target": jnp.ones((2, 1))}, loss_fn="mse", curv_estimate=None, curv_type="kept",
                         calibration_objective="nll", calibration_method=name[n], num_samples=2, **({"grid_size": 3} if n == "grid_search" else {}))
        rec.ev("Calibrate", nm=n, err=err, called=list(called), out=0 if err else int(round(100 * float(o[0]["prior_prec"]))))
    try:
        if rng.random() < 0.3:
            calibrate("m1")
        use("base")
        for o in sc:
            if o["t"] == "calibration":
                _, err = outcome(register_calibration_method, name[o["nm"]], method(o["id"], o["nm"] == "grid_search"))
                rec.ev("RegisterCal", op=o, err=err)
                calibrate(o["nm"])
                use(("n1", "n2", "base")[int(rng.integers(3))])
            else:
                kw = {ARG[s]: spy(s, i, k, fams[0], log, rng) for s, i, k in o["give"]}
                if o["default"]:
                    d = name[o["default"]]
                    kw["default"] = CurvApprox(d) if d in FAMS and rng.random() < 0.5 else d
                elif rng.random() < 0.2:
                    kw["default"] = None
                for s in ARG.values():
                    if s not in kw and rng.random() < 0.1:
                        kw[s] = None
                msg = ""
                try:
                    register_curvature_method(name[o["nm"]], **kw)
                    err = ""
                except ValueError as e:
                    err, msg = "ValueError", str(e)
                except Exception as e:  # noqa: BLE001
                    err, msg = type(e).__name__, str(e)
                rec.ev("Register", op=o, err=err, named=[s for s in ARG if ARG[s] in msg])
                use(o["nm"])
                use(("n1", "n2", "base", "other", "fam2", "fam3")[int(rng.integers(6))])
        use(("fam2", "fam3")[int(rng.integers(2))])
        if rng.random() < 0.3:
            calibrate("m1")
    finally:
        # everything registered by this scenario is taken back
        for s in DICT:
            for n in fresh:
                DICT[s].pop(n, None)
            DICT[s][fams[0]] = ORIG[fams[0]][s]
        from laplax.api import calibration_options
        calibration_options.pop(name["m1"], None)
        register_calibration_method("grid_search", optimize_prior_prec)


if __name__ == "__main__":
    import sys
    main(sys.modules[__name__])
