"""Executable-contract helpers (run with the interpreter that runs the real SALib)."""
import contextlib
import io
import os
import sys
import warnings

import numpy as np

REPO = os.environ.get("SALIB_REPO", "/repo")
if os.path.join(REPO, "src") not in sys.path:
    sys.path.insert(0, os.path.join(REPO, "src"))


class Fail(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


def req(c, msg, key=None):
    if not c:
        raise Fail(msg, key)


def close(a, b, msg, rtol=1e-9, atol=1e-9, key=None):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Fail(f"{msg}: shape {a.shape} != {b.shape}", key)
    ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
    if not ok.all():
        k = tuple(int(x) for x in np.argwhere(~ok)[0])
        raise Fail(f"{msg}: at {k} got {a[k]!r}, contract says {b[k]!r}", key)


def raises(exc, f, msg, key=None):
    try:
        with quiet():
            r = f()
    except exc:
        return
    except Exception as e:
        raise Fail(f"{msg}: raised {type(e).__name__}: {e} instead of {exc}", key)
    raise Fail(f"{msg}: accepted (returned {type(r).__name__})", key)


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            with np.errstate(all="ignore"):
                yield


def rbounds(rng, D, wide=True):
    lo = rng.normal(size=D) * (10.0 ** rng.integers(-2, 3, size=D) if wide else 3)
    w = rng.uniform(0.1, 5, size=D) * (10.0 ** rng.integers(-2, 3, size=D) if wide else 1)
    return [[float(a), float(a + b)] for a, b in zip(lo, w)]


POOLS = [
    ["zeta", "alpha", "mid", "beta", "gam", "Omega"],
    ["g1", "g10", "g", "g2", "g11", "1"],
    ["a", "A", "ab", "b", "aB", "c"],
    ["10", "9", "1", "01", "2", "NA_"],
]


def rgroups(rng, D):
    """group names with at least two distinct ones, first appearance not sorted"""
    k = int(rng.integers(2, D + 1)) if D >= 2 else 1
    pool = list(POOLS[int(rng.integers(len(POOLS)))]) + [f"grp{i}" for i in range(max(0, D - 6))]
    rng.shuffle(pool)
    pool = pool[:max(1, min(k, len(pool)))]
    g = pool + [pool[int(i)] for i in rng.integers(0, len(pool), size=max(0, D - len(pool)))]
    rng.shuffle(g)
    return [str(x) for x in g[:D]]


def rnames(rng, D):
    k = int(rng.integers(6))
    if k == 0 and D <= 26:
        base = list("zyxwvutsrqponmlkjihgfedcba")[:D]
    elif k == 1:
        base = [("p" if i % 2 else "P") + str(i // 2) for i in range(D)]
    elif k == 2:
        base = [str(10 ** (i % 3) + i) + "_" * (i // 3) for i in range(D)]
    else:
        base = [f"x{i}" for i in range(D)]
    return [base[int(i)] for i in rng.permutation(D)]


def rdim(rng, lo=1, hi=6, big=22, often=0.12):
    """a number of parameters: usually small, now and then many"""
    if rng.random() < often:
        return int(rng.integers(hi + 1, big + 1))
    return int(rng.integers(lo, hi + 1))


def rproblem(rng, D, groups=False, wide=True):
    p = {"num_vars": D, "names": rnames(rng, D), "bounds": rbounds(rng, D, wide)}
    if groups and D >= 2:
        p["groups"] = rgroups(rng, D)
    return p


def uniq(seq):
    out = []
    for s in seq:
        if s not in out:
            out.append(s)
    return out


def eff_groups(p):
    """(group list or None, distinct names in order of first appearance)"""
    g = p.get("groups")
    if not g or g == p["names"] or len(set(g)) == 1:
        return None, list(p["names"])
    return g, uniq(g)


def seedint(rng):
    return int(rng.integers(0, 2**31 - 1))
