"""C14: histories of (nested) evaluations over datasets and streams."""
import json
import numpy as np
from common import main, outcome, q, sh
import drv_push as dp
import poly
import trees as T

import jax
import jax.numpy as jnp
from laplax import api
from laplax.enums import DefaultMetrics, Predictive, Pushforward
from laplax.eval import pushforward as pw
from laplax.eval.metrics import DEFAULT_REGRESSION_METRICS, DEFAULT_REGRESSION_METRICS_DICT
from laplax.eval.utils import apply_fns, evaluate_metrics_on_dataset, evaluate_metrics_on_generator, evaluate_on_dataset
from laplax.util.loader import input_target_split

U, K = 10000, 8
f32 = lambda x: jnp.asarray(x, jnp.float32)
SCALED = {"rmse", "chi", "nll", "crps", "nll1", "conf", "act", "correct"}
RED = {"identity": lambda a: a, "flip": lambda a: a[::-1], "last": lambda a: a[-1], "sum": lambda a: a.sum(0), "max": lambda a: a.max(0)}


def scenarios(tier, seed, gen):
    rng = np.random.default_rng([seed, 14])
    cases = [json.loads(x) for x in open(gen)]
    n = 240 if tier == "quick" else 6000
    kinds = ("fn", "lin", "class", "fn", "lin", "default")
    return [dict(cases[i], kind=kinds[j % 6]) for j, i in enumerate(rng.choice(len(cases), n, replace=n > len(cases)))]


# ------------------------------------------------------------------ metrics
def op(it, opt=True):
    """the function of one item; v(f) is the value of operand f"""
    def compute(v, kw):
        o, k = it["op"], it["k"]
        a = v(it["a"]) if it["a"] else None
        b = v(it["b"]) if it["b"] else None
        if o == "diff2":
            return (a - b) ** 2
        if o == "lin":
            return a + k * b
        if o == "kw":
            return a + kw.get("opt", 0) * b
        if o == "sum":
            return k * jnp.sum(a)
        if o == "max":
            return jnp.max(a)
        if o == "const":
            return jnp.asarray(float(k))
        if o == "conf":
            return jnp.max(jax.nn.softmax(a))
        if o == "act":
            return jnp.max(a)
        if o == "correct":
            return (jnp.argmax(a) == v(it["c"])) * 1
        raise AssertionError(o)
    return compute


def realise(rng, g):
    """a group as one function of the list"""
    its = g["items"]
    fs = []
    raw = g["src"] == "mapped" and len(its) == 1 and rng.random() < 0.4
    if raw:
        it, c = its[0], op(its[0])

        def fn(results, aux, **kw):
            val = c(lambda f: results[f] if f in results else aux[f], kw)
            if it["nm"] == "":
                return results, aux
            return {**results, it["nm"]: val}, aux

        def fn_mut(results, aux, **kw):
            results[it["nm"]] = c(lambda f: results[f] if f in results else aux[f], kw)
            return results, aux
        return fn if rng.random() < 0.5 else fn_mut
    for it in its:
        c = op(it)
        pre = "p_" if g["src"] == "mapped" else ""
        fs.append((lambda c: lambda **kw: c(lambda f: kw[pre + f], kw))(c))
    kws = {"p_" + f: f for it in its for f in (it["a"], it["b"], it["c"]) if f} if g["src"] == "mapped" else {}
    if g["src"] == "mapped" and not kws:
        kws = {"unused": "target"}
    if rng.random() < 0.3:
        for f, it in zip(fs, its):
            f.__name__ = it["nm"]
        return apply_fns(*fs, **kws)
    return apply_fns(*fs, names=[it["nm"] for it in its], **kws)


def item(nm, o, a="", b="", c="", k=0):
    return dict(nm=nm, op=o, a=a, b=b, c=c, k=int(k))


def group(rng, fields, prev, src, elementwise, n=None):
    its = []
    for _ in range(n or int(rng.integers(1, 4))):
        nm = ("m1", "m2", "m3", "loss", "pred_mean")[int(rng.integers(5))]
        if nm in [i["nm"] for i in its]:
            continue
        pool = fields + (prev if src == "mapped" else [])
        f = lambda: pool[int(rng.integers(len(pool)))]
        o = ("diff2", "lin", "kw", "sum", "max", "const")[int(rng.integers(3 if elementwise else 6))]
        if o == "diff2":
            its.append(item(nm, o, a=fields[int(rng.integers(len(fields)))], b="target"))
        elif o in ("lin", "kw"):
            its.append(item(nm, o, a=f(), b=fields[int(rng.integers(len(fields)))], k=rng.integers(-2, 3)))
        elif o == "const":
            its.append(item(nm, o, k=rng.integers(-3, 4)))
        else:
            its.append(item(nm, o, a=f(), k=rng.integers(1, 3)))
    return dict(src=src, items=its)


REG_ITEMS = [item("rmse", "rmse", "pred_mean", "pred_std", "target"), item("chi^2", "chi", "pred_mean", "pred_std", "target"),
             item("nll", "nll", "pred_mean", "pred_std", "target"), item("crps", "crps", "pred_mean", "pred_std", "target")]
CLS_ITEMS = [item("confidences_map", "conf", "map"), item("confidences_pred", "act", "pred_act"),
             item("correctness_map", "correct", "map", c="target"), item("correctness_pred", "correct", "pred_mean", c="target")]
CLS_NLL = [item("nll_gaussian", "nll1", "pred_mean", "pred_std", "target")]


def collection(rng, kind, fields, elementwise):
    """groups for the specification, and the caller's objects"""
    prev, groups, lst, dct = [], [], [], {}
    what = "custom"
    if kind == "default" and rng.random() < 0.75:
        what = "default"
        groups.append(dict(src="mapped", items=REG_ITEMS))
        lst = DEFAULT_REGRESSION_METRICS
        mode = ("alone", "alone", "plus", "dict", "asdict")[int(rng.integers(5))]
        if mode == "alone":
            return dict(groups=groups, lst=lst, dct=None, what=what)
        if mode == "asdict":
            return dict(groups=groups, lst=None, dct=DEFAULT_REGRESSION_METRICS_DICT, what="dict")
        if mode == "plus":
            g = group(rng, fields, [], "mapped", False)
            return dict(groups=groups + [g], lst=[*lst, realise(rng, g)], dct=None, what="custom")
        g = group(rng, fields, [], "aux", False)
        dct = {it["nm"]: (lambda c: lambda **kw: c(lambda f: kw[f], kw))(op(it)) for it in g["items"]}
        return dict(groups=groups + [g], lst=lst, dct=dct, what="mixed")
    if kind == "class":
        if rng.random() < 0.5:
            return dict(groups=[dict(src="aux", items=CLS_ITEMS), dict(src="aux", items=CLS_NLL)], lst=None, dct=None, what="class")
        its = [CLS_ITEMS[i] for i in rng.permutation(3)[: int(rng.integers(1, 4))]]
        g = dict(src="mapped", items=its)
        return dict(groups=[g], lst=[realise(rng, g)], dct=None, what="custom")
    nl = int(rng.integers(0, 4))
    for _ in range(nl):
        g = group(rng, fields, prev, "aux" if rng.random() < 0.2 else "mapped", elementwise)
        groups.append(g)
        lst.append(realise(rng, g))
        prev = sorted({*prev, *[it["nm"] for it in g["items"]]} - {"pred_mean"})
    single = nl == 1 and rng.random() < 0.4
    if nl == 0 or (not single and rng.random() < 0.4):
        g = group(rng, fields, [], "aux", elementwise)
        groups.append(g)
        dct = {it["nm"]: (lambda c: lambda **kw: c(lambda f: kw[f], kw))(op(it)) for it in g["items"]}
        what = "mixed" if nl else "dict"
    return dict(groups=groups, lst=lst if nl else None, dct=dct or None, what="single" if single else what)


# -------------------------------------------------------------------- world
def pol(rng, D, C, deg=2, mx=2):
    return [[dict(c=int(rng.choice([-2, -1, 1, 2, 3])), xs=[int(v) for v in rng.integers(1, D + 1, int(rng.integers(0, deg + 1)))], ps=[])
             for _ in range(int(rng.integers(1, mx + 1)))] for _ in range(C)]


def pol_fn(mod, osh):
    """works on one input (D,) and on a batch (B, D)"""
    def f(x):
        outs = []
        for o in mod:
            s = 0.0
            for m in o:
                t = float(m["c"]) * jnp.ones(x.shape[:-1])
                for j in m["xs"]:
                    t = t * x[..., j - 1]
                s = s + t
            outs.append(s)
        return jnp.reshape(jnp.stack(outs, -1), x.shape[:-1] + tuple(osh))
    return f


def lin_world(rng, cls):
    """f_c = a_c(x) theta_j + const: the deviation of each output is an integer"""
    while True:
        t = T.annotate(T.renumber(T.random_tree(rng, int(rng.integers(1, 4))))[0], rng)
        if 1 <= T.size(t) <= 6:
            break
    lay = poly.Layout(t)
    P, D = lay.P, int(rng.integers(1, 3))
    osh = [(2,), (3,), (4,)][int(rng.integers(3))] if cls else [(), (1,), (2,), (3,), (2, 2)][int(rng.integers(5))]
    C = int(np.prod(osh, dtype=int))
    mod = []
    for _ in range(C):
        o = [dict(c=int(rng.choice([-1, 1, 2])), xs=[int(v) for v in rng.integers(1, D + 1, int(rng.integers(0, 2)))], ps=[int(rng.integers(1, P + 1))])]
        if rng.random() < 0.6:
            o.append(dict(c=int(rng.choice([-2, -1, 1, 2])), xs=[int(v) for v in rng.integers(1, D + 1, int(rng.integers(0, 2)))], ps=[]))
        mod.append(o)
    m = poly.Model(mod, lay, D, osh)
    th = rng.integers(-2, 3, P)
    diag = rng.choice([1, 2], P)
    return lay, m, th, diag, D, osh


def ties(z):
    return len(set(z)) < len(z)


class Stream:
    def __init__(self, mk):
        self.mk = mk

    def __iter__(self):
        return self.mk()


def parse(log):
    """nested evaluations of a log"""
    def node(i):
        o, pulls, before = log[i], [], []
        i += 1
        while True:
            e = log[i]
            if e["t"] == "open":
                sub, i = node(i)
                before.append(sub)
            elif e["t"] == "pull":
                pulls.append((before, e["m"]))
                before = []
                i += 1
            else:
                return dict(o=o, pulls=pulls), i + 1
    out, i = [], 0
    while i < len(log):
        n, i = node(i)
        out.append(n)
    return out


def run(sc, rec, rng):
    kind0 = sc["kind"]
    kind = "lin" if kind0 == "default" else kind0
    sizes = sc["sizes"]
    nonlin = kind == "class" and rng.random() < 0.3
    key = jax.random.key(int(rng.integers(100)))
    ns = int(rng.integers(1, 5))
    pred_type = "none"
    b = dict(fields=[], mod=[], th=[], num=[])
    while True:
        if kind == "fn":
            D, osh = int(rng.integers(1, 3)), [(), (1,), (2,), (3,), (2, 2)][int(rng.integers(5))]
            C = int(np.prod(osh, dtype=int))
            fmods = {f: pol(rng, D, C) for f in ["pred_mean", "pred_var", "extra"][: int(rng.integers(1, 4))]}
            ffns = {f: pol_fn(mo, osh) for f, mo in fmods.items()}
            b["fields"] = [dict(nm=f, mod=mo) for f, mo in fmods.items()]
            pred_fn = lambda x: {f: g(x) for f, g in ffns.items()}
            fields = list(fmods) + ["target"]
        else:
            lay, m, th, diag, D, osh = lin_world(rng, kind == "class")
            C = len(m.mod)
            fields = ["map", "pred_mean", "pred_var", "pred_std", "target"]
        tsh = () if kind == "class" else osh
        vals = [-3, -2, -1, 1, 2, 3]
        ds, ok = [], True
        for n in sizes:
            xs = rng.choice(vals, (n, D))
            if kind == "class":
                zs = [m.values(th, x) for x in xs]
                ok = ok and not any(ties(z) for z in zs)
                ts = rng.integers(1, C + 1, (n, 1))
            elif kind == "lin":
                zs = np.array([m.values(th, x) for x in xs]).reshape(n, C)
                ts = zs + rng.integers(-9, 10, (n, C))
            else:
                ts = rng.integers(-9, 10, (n, C))
            ds.append(dict(xs=xs.tolist(), ts=ts.tolist(), act=[]))
        if ok:
            break
    if kind != "fn":
        b.update(mod=m.mod, th=[int(v) for v in th], num=[])
        params = lay.unflat(f32(th))
        pk = ("custom", "full", "diagonal", "terms")[int(rng.integers(4))]
        while True:
            pf, pa, lsf, num, den = dp.posterior(rng, lay, pk, diag=diag)
            if lsf is None and den == 1:
                break
        b["num"] = np.asarray(num).tolist()
        model_fn = m.fn
    else:
        params, pa, model_fn = {"w": jnp.zeros(2)}, {"prior_prec": 1.0}, lambda input, params: jnp.sum(params["w"]) + jnp.sum(input)
        from laplax.curv.cov import Posterior
        pf = lambda prior_arguments, loss_scaling_factor=1.0: Posterior(state={}, cov_mv=lambda s: lambda v: v, scale_mv=lambda s: lambda v: v)
    full_fns = [pw.lin_setup, pw.lin_pred_mean, pw.lin_pred_var, pw.lin_pred_std]
    user_fns = [lambda results, aux, input, **kw: ({**results, **pred_fn(input)}, aux)] if kind == "fn" else None
    cast = [np.asarray, jnp.asarray][int(rng.integers(2))]
    arrs = []
    for d, n in zip(ds, sizes):
        X = cast(np.asarray(d["xs"], np.float32).reshape(n, D))
        t = np.asarray(d["ts"]).reshape((n,) + tuple(tsh))
        Tg = cast((t - 1).astype(np.int32) if kind == "class" else t.astype(np.float32))
        arrs.append((X, Tg))
    types = {}
    if kind == "class":
        pred_type = ["mc_bridge", "laplace_bridge", "mean_field_0", "mean_field_1", "mean_field_2"][0 if nonlin else int(rng.integers(5))]
        types = dict(predictive_type=pred_type if rng.random() < 0.5 else pred_type.upper() if rng.random() < 0.5 else Predictive(pred_type))
    push = "nonlinear" if nonlin else "linear"
    if nonlin or rng.random() < 0.5:
        types["pushforward_type"] = push if rng.random() < 0.5 else push.capitalize() if rng.random() < 0.5 else Pushforward(push)
    common = dict(posterior_fn=pf, model_fn=model_fn, params=params, arguments=pa, sample_key=key, num_samples=ns)
    elementwise = kind == "fn" and rng.random() < 0.4
    colls = [collection(rng, kind0, fields, elementwise) for _ in range(2)]
    if nonlin:
        for c in colls:
            if c["what"] == "class":
                g = dict(src="mapped", items=CLS_ITEMS[:3])
                c.update(groups=[g], lst=[realise(rng, g)], what="custom")
    if kind == "class":
        r, err = outcome(api.evaluation, **common, data=arrs[0], metrics=DefaultMetrics.CLASSIFICATION, **types)
        if err:
            rec.ev("Begin", label="class", kind=kind, osh=list(osh), tsh=list(tsh), ds=ds, colls=[dict(groups=[])], **b)
            return rec.ev("Accept", what="evaluation", err=err)
        pred_fn = r[1]
        for d, (X, _) in zip(ds, arrs):
            d["act"] = [q(pred_fn(jnp.asarray(x))["pred_act"], U) for x in X]
    elif kind == "lin":
        pred_fn = pw.set_lin_pushforward(model_fn=model_fn, mean_params=params, posterior_fn=pf, prior_arguments=dict(pa), pushforward_fns=list(full_fns))
    label = f"{kind0}:{push}:{pred_type}:{'x'.join(map(str, osh))}:" + "+".join(c["what"] for c in colls)
    rec.ev("Begin", label=label, kind=kind, osh=list(osh), tsh=list(tsh), ds=ds, colls=[dict(groups=c["groups"]) for c in colls], **b)

    # ----------------------------------------------------------------- forms
    def whole(d, dict_only=False):
        X, Tg = arrs[d - 1]
        r = 0.0 if dict_only else rng.random()
        if r < 0.4:
            return {"target": Tg, "input": X} if rng.random() < 0.5 else {"input": X, "target": Tg}
        return (X, Tg) if r < 0.7 else [X, Tg]

    def batches(d, cuts):
        X, Tg = arrs[d - 1]
        r, i = rng.random(), 0
        for c in cuts:
            x, t = X[i:i + c], Tg[i:i + c]
            i += c
            yield {"input": x, "target": t} if r < 0.4 else (x, t) if r < 0.7 else [x, t]

    def result(res, form, red, coll):
        if not isinstance(res, dict):
            return [], []
        sc_names = {it["nm"]: it["op"] in SCALED for g in coll["groups"] for it in g["items"]}
        out, parts = [], []
        for nm, v in res.items():
            k = U if sc_names.get(nm, False) else K
            if form == "gen" and red == "identity":
                vs = [np.asarray(x) for x in v]
                parts = [int(x.shape[0]) for x in vs]
                v = np.concatenate(vs, 0)
            out.append(dict(nm=nm, sh=sh(v), v=q(v, k)))
        return out, parts

    shared_opts = {}

    def evaluate(node):
        o = node["o"]
        form, coll, red, d = o["form"], colls[o["coll"] - 1], o["red"], o["ds"]
        if form == "on" and kind == "class":
            form = "ds"
        if form in ("api-whole", "api-stream") and kind == "class" and coll["what"] not in ("class", "custom"):
            form = "ds"
        if coll["what"] == "class" and form in ("ds", "gen"):
            form = "api-whole" if form == "ds" else "api-stream"
            red = "identity"
        rec.ev("Open", **{**{k: o[k] for k in ("id", "ds", "coll")}, "form": form, "red": red})
        cuts = [m_ for _, m_ in node["pulls"]]
        opt = 0
        kw = {}
        if form in ("ds", "gen") and rng.random() < 0.6:
            opt = int(rng.integers(-2, 3))
            kw["opt"] = opt
        if form in ("ds", "on") and rng.random() < 0.5:
            kw[("data_batch_size", f"evaluate_{'metrics_' if form == 'ds' else ''}on_dataset_batch_size")[int(rng.integers(2))]] = int(rng.integers(1, sizes[d - 1] + 3))

        def feed():
            started = feed.started
            feed.started = True
            for (before, m_), batch in zip(node["pulls"], batches(d, cuts)):
                if not started:
                    for sub in before:
                        evaluate(sub)
                    rec.ev("Pull", id=o["id"], m=m_)
                yield batch
        feed.started = False

        def stream(api_form):
            r = rng.random()
            if r < 0.35:
                return feed()
            if r < 0.55:
                return Stream(feed)
            if r < 0.7:
                return map(lambda z: z, feed())
            if r < 0.85 or api_form:
                return iter(list(feed()))
            return list(feed())
        mets = {}
        if form in ("ds", "gen"):
            single = coll["what"] == "single"
            if coll["lst"] is not None:
                mets["metrics"] = coll["lst"]
            if coll["dct"] is not None:
                mets["metrics_dict"] = coll["dct"]
        elif form != "on":
            if coll["what"] == "single":
                mets["metrics"] = coll["lst"][0]
            elif coll["what"] == "class":
                mets["metrics"] = [DefaultMetrics.CLASSIFICATION, "classification", "Classification"][int(rng.integers(3))]
            elif coll["what"] == "default":
                ch = [DefaultMetrics.REGRESSION, "regression", "REGRESSION", DEFAULT_REGRESSION_METRICS, None][int(rng.integers(5))]
                if ch is not None:
                    mets["metrics"] = ch
            elif coll["dct"] is not None:
                mets["metrics"] = [*(coll["lst"] or []), apply_fns(*coll["dct"].values(), names=list(coll["dct"]))]
            else:
                mets["metrics"] = coll["lst"] if rng.random() < 0.7 else tuple(coll["lst"])
        if form == "ds":
            res, err = outcome(evaluate_metrics_on_dataset, pred_fn, whole(d, True), **mets, **({} if red == "identity" and rng.random() < 0.5 else {"reduce": RED[red]}), **kw)
        elif form == "on":
            res, err = outcome(evaluate_on_dataset, pred_fn, whole(d, True), **kw)
        elif form == "gen":
            items = stream(False)
            vm = {}
            if elementwise and rng.random() < 0.5:
                vm = {"vmap_over_data": False}
            tr = lambda z: z if isinstance(z, dict) else {"input": z[0], "target": z[1]}
            res, err = outcome(evaluate_metrics_on_generator, pred_fn, items, **mets, transform=tr, **({} if red == "identity" else {"reduce": jnp.concatenate}), **vm, **kw)
        else:
            fns = {}
            if kind == "fn":
                fns["pushforward_fns"] = user_fns
            elif kind == "lin" and (coll["what"] != "default" or rng.random() < 0.3):
                fns["pushforward_fns"] = full_fns
            data = whole(d) if form == "api-whole" else stream(True)
            jit = {} if rng.random() < 0.5 else {"predictive_jit": bool(rng.random() < 0.3)}
            r, err = outcome(api.evaluation, **common, data=data, **mets, **types, **fns, **jit, **({} if red == "identity" and rng.random() < 0.5 else {"reduce": RED[red]}))
            res = None if err else r[0]
        out, parts = ([], []) if err else result(res, form, red, coll)
        rec.ev("Close", id=o["id"], res=out, parts=parts, cuts=cuts, opt=opt, err=err)

    kept_l = [None if c["lst"] is None else list(c["lst"]) for c in colls]
    kept_d = [None if c["dct"] is None else dict(c["dct"]) for c in colls]
    kept_def, kept_defd = list(DEFAULT_REGRESSION_METRICS), dict(DEFAULT_REGRESSION_METRICS_DICT)
    kept_data = [(np.array(a), np.array(t)) for a, t in arrs]
    kept_pa, kept_fns = dict(pa), list(full_fns)
    before = [np.array(v) for v in jax.tree.leaves(params)]
    for n in parse(sc["log"]):
        evaluate(n)
    same = lambda a, b_: a is None or (len(a) == len(b_) and all(x is y for x, y in zip(a, b_)))
    rec.ev("Same", what="metric-list", ok=all(same(a, c["lst"]) for a, c in zip(kept_l, colls)))
    rec.ev("Same", what="metric-mapping", ok=all(a is None or list(a.items()) == list(c["dct"].items()) for a, c in zip(kept_d, colls)))
    rec.ev("Same", what="default-metrics", ok=same(kept_def, DEFAULT_REGRESSION_METRICS) and kept_defd == DEFAULT_REGRESSION_METRICS_DICT)
    rec.ev("Same", what="data", ok=all(np.array_equal(a, x) and np.array_equal(t, y) for (a, t), (x, y) in zip(kept_data, arrs)))
    rec.ev("Same", what="arguments", ok=kept_pa == pa)
    rec.ev("Same", what="functions", ok=same(kept_fns, full_fns))
    rec.ev("Same", what="parameters", ok=all(np.array_equal(a, v) for a, v in zip(before, jax.tree.leaves(params))))
    # ------------------------------------------------------------- rejections
    X, Tg = arrs[0]
    good = dict(data=(X, Tg))
    bad = [("empty-metrics", dict(good, metrics=[])), ("empty-metric-tuple", dict(good, metrics=())), ("metrics-type", dict(good, metrics=3)), ("metrics-none", dict(good, metrics=None)),
           ("unknown-metrics", dict(good, metrics="speed")), ("unknown-predictive", dict(good, predictive_type="oracle")), ("unknown-pushforward", dict(good, pushforward_type="cubic")),
           ("tuple-of-three", dict(data=(X, Tg, Tg))), ("tuple-of-one", dict(data=(X,))), ("mapping-without-target", dict(data={"input": X})), ("mapping-without-input", dict(data={"target": Tg, "inputs": X})),
           ("data-number", dict(data=3)), ("data-none", dict(data=None)), ("stream-of-triples", dict(data=iter([(X, Tg, Tg)]))), ("stream-of-numbers", dict(data=Stream(lambda: iter([1, 2])))),
           ("stream-of-incomplete-mappings", dict(data=iter([{"input": X}])))]
    for p in ("laplace_bridge", "mean_field_0", "mean_field_1", "mean_field_2"):
        bad.append((f"nonlinear-{p}", dict(good, predictive_type=p, pushforward_type="nonlinear")))
    for i in rng.permutation(len(bad))[:3]:
        what, kw = bad[i]
        kw = {**types, **kw}
        _, err = outcome(api.evaluation, **common, **kw)
        rec.ev("Reject", what=what, err=err)
    if rng.random() < 0.3:
        _, err = outcome(evaluate_metrics_on_dataset, pred_fn, {"input": X, "target": Tg})
        rec.ev("Reject", what="no-metrics", err=err)
        _, err = outcome(evaluate_metrics_on_generator, pred_fn, iter([{"input": X, "target": Tg}]))
        rec.ev("Reject", what="no-metrics-stream", err=err)


if __name__ == "__main__":
    import sys
    main(sys.modules[__name__])
