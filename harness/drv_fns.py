"""C18: lists of result functions over results / aux dictionaries."""
import json
import numpy as np
from common import main, outcome

from laplax.eval.pushforward import set_prob_predictive
from laplax.eval.utils import apply_fns, finalize_fns, transfer_entry

MOD = 1009
W = dict(p=2, q=3, s=5, a=7, b=11, c=13, extra=17, r1=19, r2=23)


def scenarios(tier, seed, gen):
    rng = np.random.default_rng([seed, 18])
    cases = [json.loads(x) for x in open(gen)]
    good, bad = ([c["ops"] for c in cases if c["ok"] is k] for k in (True, False))
    n = 4000 if tier == "quick" else 30000
    out = []
    for i in range(n):
        parts = [good[j] for j in rng.choice(len(good), int(rng.integers(1, 4)))]
        if i % 3 == 0:
            parts[-1] = bad[int(rng.integers(len(bad)))]
        ops = [o for x in parts for o in x]
        out.append(dict(ops=ops, mode=("finalize", "prob", "finalize", "single", "nonlin")[i % 5]))
    return out


def num(v):
    return int(v) if isinstance(v, (int, np.integer)) and not isinstance(v, bool) else 0


def pairs(d):
    return [[k, num(v)] for k, v in sorted(d.items())]


def digest(d):
    return sum(W.get(k, 29) * num(v) for k, v in d.items()) % MOD


def run(sc, rec, rng):
    prob = sc["mode"] in ("prob", "nonlin")
    ren = {"a": "map", "b": "mean_params", "c": "model_fn"} if prob else {}
    rn = lambda k: ren.get(k, k)
    rec.ev("Begin", label=sc["mode"])
    fresh = rng.random() < 0.3

    def spy(id_):
        def f(**kw):
            rec.ev("Call", kind="applied", id=id_, args=pairs(kw), res=[], aux=[])
            return (10 * id_ + digest(kw)) % MOD
        f.__name__ = f"fn{id_}"
        return f

    def plain(o):
        def f(results, aux, **kw):
            rec.ev("Call", kind="plain", id=o["id"], args=pairs(kw), res=pairs(results), aux=pairs(aux))
            v = (o["id"] + digest(results) + 2 * digest(aux) + digest(kw)) % MOD
            if fresh:
                results, aux = dict(results), dict(aux)
            (results if o["to"] == "results" else aux)[o["key"]] = v
            return results, aux
        return f

    def probe(results, aux, **kw):
        rec.ev("Probe", res=pairs(results), aux=pairs(aux))
        return results, aux

    def watch(f, done):
        def g(results, aux, **kw):
            try:
                r = f(results, aux, **kw) if rng.random() < 0.5 else f(results=results, aux=aux, **kw)
            except Exception as e:
                err = [n for n in ("ValueError", "TypeError", "KeyError") if n in [c.__name__ for c in type(e).__mro__]]
                rec.ev("Raised", err=err[0] if err else type(e).__name__)
                raise
            if done:
                rec.ev("Transferred")
            return r
        return g

    fns, ops, given = [], [], []
    for o in sc["ops"]:
        o = dict(o, key=rn(o["key"]), map=[[m[0] if o["t"] == "apply" else rn(m[0]), rn(m[1])] for m in o["map"]], names=[rn(x) for x in o["names"]])
        if o["t"] == "plain":
            f, err = plain(o), ""
        elif o["t"] == "apply":
            spies = [spy(i) for i in o["fs"]]
            if rng.random() < 0.06:
                bad = list(spies)
                bad.insert(int(rng.integers(len(bad) + 1)), (3, "name", None, [1], {})[int(rng.integers(5))])
                _, err = outcome(apply_fns, *bad, **{m[0]: m[1] for m in o["map"]})
                rec.ev("Construct", op=o, bad=True, err=err)
            kw = {m[0]: m[1] for m in o["map"]}
            if o["names"] or rng.random() < 0.3:
                nm = list(o["names"]) or None
                if nm:
                    given.append((nm, list(nm)))
                kw["names"] = nm
            if o["field"] != "results" or rng.random() < 0.5:
                kw["field"] = o["field"]
            f, err = outcome(apply_fns, *spies, **kw)
            rec.ev("Construct", op=o, bad=False, err=err)
            f = watch(f, False)
        else:
            mp = {m[0]: m[1] for m in o["map"]}
            if all(a == b for a, b in o["map"]) and rng.random() < 0.7:
                mp = list(mp)
            given.append((mp, mp.copy()))
            kw = {}
            if o["field"] != "results" or rng.random() < 0.5:
                kw["field"] = o["field"]
            if o["from"] != "aux" or rng.random() < 0.5:
                kw["access_from"] = o["from"]
            f, err = outcome(transfer_entry, mp, **kw)
            rec.ev("Construct", op=o, bad=False, err=err)
            f = watch(f, True)
        if not err:
            fns.append(f)
            ops.append(o)
        if rng.random() < 0.4:
            fns.append(probe)
            ops.append(dict(t="probe"))
    fns.append(probe)
    ops.append(dict(t="probe"))
    r = lambda: int(rng.integers(0, MOD))
    local = {"extra": r()} if rng.random() < 0.5 else {}
    res, aux = {"a": r(), "b": r()}, {"b": r(), "c": r()}
    runs = 2 if rng.random() < 0.3 else 1
    fl = tuple(fns) if rng.random() < 0.1 else list(fns)
    if prob:
        par, x, d = r(), r(), r()
        mfn = lambda input, params: (3 * input + params) % MOD
        res, aux = {"map": (3 * x + par) % MOD}, {"model_fn": 0, "mean_params": par}
        pp = set_prob_predictive(model_fn=mfn, mean_params=par, dist_state=d, pushforward_fns=fl, **local)
        go = lambda: pp(x)
        local = dict(local, input=x, dist_state=d)
    elif sc["mode"] == "single":
        def go():
            a, b = dict(res), dict(aux)
            for f in fl:
                a, b = f(results=a, aux=b, **local)
            return a
    else:
        go = lambda: finalize_fns(fl, dict(res), dict(aux), **local) if rng.random() < 0.5 else finalize_fns(fns=fl, results=dict(res), aux=dict(aux), **local)
    for _ in range(runs):
        rec.ev("Start", ops=ops, res=pairs(res), aux=pairs(aux), local=pairs(local))
        out, err = outcome(go)
        rec.ev("Final", res=[] if err else pairs(out), err=err)
    rec.ev("Unchanged", what="functions", ok=len(fl) == len(fns) and all(a is b for a, b in zip(fl, fns)))
    rec.ev("Unchanged", what="names-or-mapping", ok=all(a == b for a, b in given))


if __name__ == "__main__":
    import sys
    main(sys.modules[__name__])
