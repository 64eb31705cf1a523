"""corrupt.py ID [n]: sensitivity of the trace specification. Records the traces of the quick tier, corrupts one field of one
event at a time (or removes the event) in copies of scenarios, and reports which kinds of corruption TLC rejects."""
import json, os, random, re, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import check as C
pid, K = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 4
P = C.PROPS[pid]
tmp = tempfile.mkdtemp(prefix="corrupt")
seed = int(os.environ.get("VERIF_SEED", "1"))
gen = C.run_gen(P["gen"], tmp, "quick", seed)[0]
import concurrent.futures as cf
with cf.ThreadPoolExecutor(4) as ex:
    outs = list(ex.map(lambda s: C.run_driver(P["driver"], tmp, s, 8, "quick", seed, gen)[0], range(4)))
scs = {}
for o in outs:
    for l in open(o):
        e = json.loads(l)
        scs.setdefault(e["sc"], []).append(e)
rng = random.Random(seed)
BIG = False


def paths(x, pre=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from paths(v, pre + (k,))
    elif isinstance(x, list):
        yield pre, "len"
        if x:
            yield from paths(x[rng.randrange(len(x))], pre + ("*",))
    else:
        yield pre, "val"


def corrupt(x, path, how):
    """one random place matching path"""
    if not path:
        if how == "len":
            if x and rng.random() < 0.5:
                return x[:-1]
            return x + [x[-1] if x else 1]
        if isinstance(x, bool):
            return not x
        if isinstance(x, int):
            return x + (max(3000, abs(x) // 3) if abs(x) > 60 or BIG else 1)
        return "zzz"
    if path[0] == "*":
        if not x:
            return x
        i = rng.randrange(len(x))
        return x[:i] + [corrupt(x[i], path[1:], how)] + x[i + 1:]
    if not isinstance(x, dict) or path[0] not in x:
        return x
    return {**x, path[0]: corrupt(x[path[0]], path[1:], how)}


kinds = {}
for sc, es in scs.items():
    for i, e in enumerate(es):
        if e["ev"] in ("Begin", "Crash"):
            continue
        for p, how in paths({k: v for k, v in e.items() if k not in ("sc", "ev")}):
            kinds.setdefault((e["ev"], ".".join(p), how), []).append((sc, i, p))
        kinds.setdefault((e["ev"], "", "removed"), []).append((sc, i, ()))
rows, meta, nid = [], {}, 1
for (ev, ps, how), occ in sorted(kinds.items()):
    for sc, i, p in rng.sample(occ, min(K, len(occ))):
        es = [dict(e) for e in scs[sc]]
        if how == "removed":
            es = es[:i] + es[i + 1:]
        else:
            b = es[i]
            BIG = "v" in p  # fixed-point numbers
            c = corrupt(b, p, how)
            if c == b:
                continue
            es[i] = c
        for e in es:
            e["sc"] = nid
        rows += es
        meta[nid] = (ev, ps, how)
        nid += 1
f = os.path.join(tmp, "c.ndjson")
res = {}
hit = set()
# chunks: a corrupted scenario may stop TLC
ids = sorted(meta)
byid = {}
for e in rows:
    byid.setdefault(e["sc"], []).append(e)


def go(chunk):
    fn = tempfile.mktemp(dir=tmp)
    with open(fn, "w") as g:
        for k in chunk:
            for e in byid[k]:
                g.write(json.dumps(e) + "\n")
    try:
        r = C.run_trace(P["trace"], P.get("trace_cfg", P["trace"] + ".cfg"), fn, tmp, "quick")
    except C.Machinery as x:
        return [(chunk[0], "MACHINERY " + str(x)[-300:])], chunk[1:]
    h = [(a, c) for a, b, c in r["fails"]]
    stop = [a for a, c in h if c.startswith("not-a-behaviour")]
    rest = chunk[chunk.index(stop[0]) + 1:] if stop else []
    return h, rest


todo = [ids[i::8] for i in range(8)]
with cf.ThreadPoolExecutor(8) as ex:
    while any(todo):
        nxt = []
        for h, rest in ex.map(go, [t for t in todo if t]):
            for a, c in h:
                hit.add(a)
                res.setdefault(meta[a], set()).add(c)
            nxt.append(rest)
        todo = nxt
tot = {}
for k, m in meta.items():
    t = tot.setdefault(m, [0, 0])
    t[1] += 1
    t[0] += k in hit
for m, (a, b) in sorted(tot.items(), key=lambda z: (z[1][0] / z[1][1], z[0])):
    print(f"{a}/{b} {m[0]} {m[1]} {m[2]}", ";".join(sorted(x[:60] for x in res.get(m, ()))[:2]) if a else "<<< never rejected")
