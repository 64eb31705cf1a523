"""Polynomial models of spec/PolyModel.tla as jax functions over containers."""
import numpy as np
import jax
import jax.numpy as jnp
import trees as T


def order(t):
    """leaf ids in flattening order (spec/Tree.tla Order)"""
    if t["t"] == "leaf":
        return [t["id"]]
    if t["t"] == "seq":
        return [i for c in t["c"] for i in order(c)]
    if t["t"] == "dict":
        return [i for k in sorted(range(len(t["k"])), key=lambda z: t["k"][z]) for i in order(t["c"][k])]
    return []


class Layout:
    """own flatten / unflatten of one container"""

    def __init__(self, t):
        self.t, self.ids = t, order(t)
        self.shp = {x["id"]: tuple(x["sh"]) for x in T.leaves(t)}
        self.P = T.size(t)

    def flat(self, obj):
        ls = T.walk(self.t, obj)
        return jnp.concatenate([jnp.reshape(ls[i - 1], (-1,)) for i in self.ids])

    def unflat(self, v, np_=False):
        off, parts = 0, {}
        xp = np if np_ else jnp
        for i in self.ids:
            s = int(np.prod(self.shp[i], dtype=int))
            parts[i] = xp.reshape(v[off:off + s], self.shp[i])
            off += s
        return T.build(self.t, lambda x: parts[x["id"]])

    def obs(self, o, k):
        from common import q, sh
        try:
            ls = T.walk(self.t, o)
        except T.Structure:
            return dict(ok=False, sh=[], v=[])
        return dict(ok=True, sh=[sh(x) for x in ls], v=[q(x, k) for x in ls])


class Model:
    """mod: monomials; lay: container of the parameters; xsh: input shape;
    osh: output shape. Inputs carry len(mod) additional trailing offsets
    (added to the outputs) when offs is set."""

    def __init__(self, mod, lay, D, osh, offs=False, xsh=None):
        self.mod, self.lay, self.D, self.osh, self.offs = mod, lay, D, tuple(osh), offs
        deg_x = max([len(m["xs"]) for o in mod for m in o] + [1])
        deg_p = max([len(m["ps"]) for o in mod for m in o] + [1])
        rows = [(c, m) for c, o in enumerate(mod) for m in o]
        self.c = np.array([m["c"] for _, m in rows], np.float32)
        self.xi = np.array([[x - 1 for x in m["xs"]] + [D] * (deg_x - len(m["xs"])) for _, m in rows])
        self.pi = np.array([[p - 1 for p in m["ps"]] + [lay.P] * (deg_p - len(m["ps"])) for _, m in rows])
        # selection matrices (a constant gather is miscompiled by this XLA under jit)
        self.xs = [(self.xi[:, k:k + 1] == np.arange(D)).astype(np.float32) for k in range(deg_x)]
        self.xo = [(self.xi[:, k] == D).astype(np.float32) for k in range(deg_x)]
        self.ps = [(self.pi[:, k:k + 1] == np.arange(lay.P)).astype(np.float32) for k in range(deg_p)]
        self.po = [(self.pi[:, k] == lay.P).astype(np.float32) for k in range(deg_p)]
        self.S = np.zeros((len(mod), len(rows)), np.float32)
        for r, (c, _) in enumerate(rows):
            self.S[c, r] = 1
        self.xsh = tuple(xsh) if xsh else (D + (len(mod) if offs else 0),)

    def one(self, x, params):
        x = jnp.reshape(x, (-1,))
        th = self.lay.flat(params)
        v = self.c
        for k in range(len(self.xs)):
            v = v * (self.xs[k] @ x[:self.D] + self.xo[k])
        for k in range(len(self.ps)):
            v = v * (self.ps[k] @ th + self.po[k])
        z = self.S @ v
        if self.offs:
            z = z + x[self.D:self.D + len(self.mod)]
        return jnp.reshape(z, self.osh)

    def fn(self, input, params):
        return self.one(input, params)

    def fn_batched(self, input, params):
        return jax.vmap(lambda x: self.one(x, params))(input)

    def absbounds(self, th, x):
        """|z|, |J|, |second derivatives| bounds with all terms made positive"""
        th, x = np.abs(th), np.abs(x)
        C, P = len(self.mod), len(th)
        z, J, H = np.zeros(C), np.zeros((C, P)), np.zeros((C, P, P))
        for c, o in enumerate(self.mod):
            for m in o:
                cx = abs(m["c"]) * np.prod([x[i - 1] for i in m["xs"]])
                ps = [p - 1 for p in m["ps"]]
                z[c] += cx * np.prod([th[p] for p in ps])
                for a in range(len(ps)):
                    ra = ps[:a] + ps[a + 1:]
                    J[c, ps[a]] += cx * np.prod([th[p] for p in ra])
                    for b in range(len(ra)):
                        H[c, ps[a], ra[b]] += cx * np.prod([th[p] for p in ra[:b] + ra[b + 1:]])
        return z, J, H

    def values(self, th, x):
        """exact integer outputs"""
        return [int(sum(m["c"] * np.prod([x[i - 1] for i in m["xs"]], dtype=object) * np.prod([th[i - 1] for i in m["ps"]], dtype=object) for m in o)) for o in self.mod]


def random_mod(rng, C, D, P, deg=3, mx=3, linear=False):
    mod = []
    for _ in range(C):
        o = []
        for _ in range(int(rng.integers(1, mx + 1))):
            d = int(rng.integers(0, 2)) if linear else int(rng.integers(0, deg + 1))
            if linear and rng.random() < 0.8:
                d = 1
            o.append(dict(c=int(rng.choice([-2, -1, 1, 1, 2])), xs=[int(v) for v in rng.integers(1, D + 1, int(rng.integers(0, 3)))],
                          ps=[int(v) for v in rng.integers(1, P + 1, d)]))
        mod.append(o)
    return mod
