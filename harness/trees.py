"""Containers of the specification (spec/Tree.tla) as real pytrees and back,
with an own path walk (never jax's flattening)."""
import numpy as np


def annotate(t, rng):
    """Choose the concrete container kinds once per scenario."""
    t = dict(t)
    if t["t"] == "seq":
        t["kind"] = ("list", "tuple")[int(rng.integers(2))]
        t["c"] = [annotate(x, rng) for x in t["c"]]
    elif t["t"] == "dict":
        t["c"] = [annotate(x, rng) for x in t["c"]]
        t["pre"] = ("k", "w_", "")[int(rng.integers(3))]
    return t


def key(t, k):
    return f"{t['pre']}{k:02d}" if t["pre"] else k  # padded: string order is key order


def leaves(t):
    if t["t"] == "leaf":
        return [t]
    return [x for c in t.get("c", []) for x in leaves(c)]


def size(t):
    return sum(int(np.prod(x["sh"], dtype=int)) for x in leaves(t))


def build(t, leaf):
    """leaf(node) -> array"""
    if t["t"] == "leaf":
        return leaf(t)
    if t["t"] == "seq":
        r = [build(c, leaf) for c in t["c"]]
        return tuple(r) if t["kind"] == "tuple" else r
    if t["t"] == "dict":
        return {key(t, k): build(c, leaf) for k, c in zip(t["k"], t["c"])}
    return None


class Structure(Exception):
    pass


def walk(t, obj):
    """leaf objects of obj by id (insertion order of t); raises Structure."""
    if t["t"] == "leaf":
        if isinstance(obj, (list, tuple, dict)) or obj is None:
            raise Structure("leaf is a container")
        return [obj]
    if t["t"] == "seq":
        want = tuple if t["kind"] == "tuple" else list
        if type(obj) is not want or len(obj) != len(t["c"]):
            raise Structure("sequence differs")
        return [x for c, o in zip(t["c"], obj) for x in walk(c, o)]
    if t["t"] == "dict":
        ks = [key(t, k) for k in t["k"]]
        if not isinstance(obj, dict) or set(obj) != set(ks):
            raise Structure("mapping differs")
        return [x for k, c in zip(ks, t["c"]) for x in walk(c, obj[k])]
    if obj is not None:
        raise Structure("none differs")
    return []


def bare(t):
    """tree as the specification sees it"""
    r = {"t": t["t"]}
    if t["t"] == "leaf":
        r.update(id=t["id"], sh=list(t["sh"]))
    if t["t"] in ("seq", "dict"):
        r["c"] = [bare(c) for c in t["c"]]
    if t["t"] == "dict":
        r["k"] = list(t["k"])
    return r


def renumber(t, k=1):
    t = dict(t)
    if t["t"] == "leaf":
        t["id"] = k
        return t, k + 1
    if "c" in t:
        cs = []
        for c in t["c"]:
            c, k = renumber(c, k)
            cs.append(c)
        t["c"] = cs
    return t, k


def wide(rng, shapes=((), (1,), (2,), (3,), (2, 2))):
    """one mapping with more than nine keys in random insertion order"""
    n = int(rng.integers(10, 14))
    return {"t": "dict", "k": [int(x) for x in rng.permutation(np.arange(1, 20))[:n]],
            "c": [random_tree(rng, int(rng.random() < 0.15), shapes, False) for _ in range(n)]}


def random_tree(rng, depth=3, shapes=((), (1,), (2,), (3,), (2, 2), (1, 3), (2, 1, 2)), root=True):
    r = rng.random()
    if depth == 0 or (not root and r < 0.35):
        return {"t": "leaf", "id": 0, "sh": list(shapes[int(rng.integers(len(shapes)))])}
    if not root and r < 0.4:
        return {"t": "none"}
    n = int(rng.integers(0 if not root else 1, 4))
    cs = [random_tree(rng, depth - 1, shapes, False) for _ in range(n)]
    if rng.random() < 0.5:
        return {"t": "seq", "c": cs}
    return {"t": "dict", "k": [int(x) for x in rng.permutation(np.arange(1, 9))[:n]], "c": cs}
