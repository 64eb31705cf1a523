"""Shared parts of the drivers: recording, quantisation, outcomes."""
import json, math, os, signal, sys, traceback
os.environ.setdefault("JAX_PLATFORMS", "cpu")
import numpy as np

LIM = 10**9
NAN, PINF, NINF = 999999999, 1000000000, -1000000000


def qs(x, k=1):
    """One number -> clamped integer round(x*k)."""
    x = float(x)
    if math.isnan(x):
        return NAN
    if math.isinf(x):
        return PINF if x > 0 else NINF
    v = x * k
    if v >= LIM - 2:
        return LIM - 2
    if v <= -(LIM - 2):
        return -(LIM - 2)
    return int(round(v))


def q(x, k=1):
    """Array-like -> flat list of clamped integers (row-major)."""
    a = np.asarray(x)
    if a.dtype == bool:
        a = a.astype(int)
    return [qs(v, k) for v in a.reshape(-1).tolist()]


def sh(x):
    return [int(s) for s in np.shape(x)]


def arr(x, k=1):
    return {"sh": sh(x), "v": q(x, k)}


def mat(x, k=1):
    a = np.asarray(x)
    return [q(r, k) for r in a]


class Timeout(Exception):
    pass


def outcome(fn, *a, **kw):
    """(value, None) or (None, error class name)."""
    try:
        return fn(*a, **kw), ""
    except Timeout:
        raise
    except Exception as e:  # noqa: BLE001
        names = [c.__name__ for c in type(e).__mro__]
        for n in ("ValueError", "TypeError", "KeyError", "IndexError", "AttributeError"):
            if n in names:
                return None, n
        return None, type(e).__name__


class Rec:
    def __init__(self, path):
        self.f = open(path, "w")
        self.sc = None
        self.n = 0

    def ev(self, name, **kw):
        d = {"sc": self.sc, "ev": name}
        d.update(kw)
        self.f.write(json.dumps(d) + "\n")
        self.n += 1

    def close(self):
        self.f.close()


def _alarm(*_):
    raise Timeout("scenario time limit")


def main(mod):
    """drv.py OUT SHARD NSHARDS TIER SEED [GENFILE] [--only k]"""
    out, shard, nsh, tier, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], int(sys.argv[5])
    gen = sys.argv[6] if len(sys.argv) > 6 and sys.argv[6] != "-" else None
    only = None
    if "--only" in sys.argv:
        only = set(int(x) for x in sys.argv[sys.argv.index("--only") + 1].split(","))
    try:
        from loguru import logger
        logger.remove()
    except ImportError:
        pass
    import warnings
    warnings.filterwarnings("ignore")
    scs = mod.scenarios(tier, seed, gen)
    rec = Rec(out)
    signal.signal(signal.SIGALRM, _alarm)
    done = 0
    for i, sc in enumerate(scs):
        if i % nsh != shard or (only is not None and i not in only):
            continue
        rec.sc = i
        rng = np.random.default_rng([seed, i])
        signal.alarm(240)
        try:
            mod.run(sc, rec, rng)
        except Exception as e:  # noqa: BLE001
            tb = traceback.format_exc()
            lib = "/laplax/" in tb
            rec.ev("Crash", err=type(e).__name__, msg=str(e)[:300], where=tb[-1500:], lib=bool(lib))
        finally:
            signal.alarm(0)
        done += 1
    rec.close()
    print(json.dumps({"scenarios": len(scs), "ran": done, "events": rec.n}))
