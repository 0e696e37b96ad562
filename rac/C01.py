"""Executable contract of C01."""
from .lib import *
from SALib.util import scale_samples, _unscale_samples, _scale_samples


def gen(rng):
    D, N = int(rng.integers(1, 6)), int(rng.integers(1, 12))
    return {"b": rbounds(rng, D), "N": N, "seed": seedint(rng), "edge": bool(rng.integers(2))}


def check(a):
    rng = np.random.default_rng(a["seed"])
    D = len(a["b"])
    u = rng.random((a["N"], D))
    if a["edge"]:
        u[rng.random(u.shape) < 0.3] = 0.0
        u[rng.random(u.shape) < 0.3] = 1.0
    b = np.array(a["b"])
    p = {"num_vars": D, "names": [f"x{i}" for i in range(D)], "bounds": [list(x) for x in a["b"]]}
    w = u.copy()
    r = scale_samples(w, p)
    exp = u * (b[:, 1] - b[:, 0]) + b[:, 0]
    sc = np.abs(b).max(axis=1)
    close(r / sc, exp / sc, "scaled entries", 1e-12, 1e-12)
    req(np.shares_memory(r, w), "scaling is not in place")
    close(w / sc, exp / sc, "in place entries", 1e-12, 1e-12)
    req(p.get("sample_scaled") is True, "not marked as scaled")
    req(p["bounds"] == a["b"], "bounds changed")
    tol = 1e-12 * sc
    req((r >= b[:, 0] - tol).all() and (r <= b[:, 1] + tol).all(), "outside bounds")
    _unscale_samples(w, p["bounds"])
    rel = sc / (b[:, 1] - b[:, 0])
    req((np.abs(w - u) <= 1e-13 + 1e-14 * rel).all(), "unscale is not the inverse")


def gen_bad(rng):
    D = rdim(rng, 1, 5, 30)
    b = rbounds(rng, D)
    k = int(rng.integers(D))
    b[k] = [b[k][1], b[k][0]] if rng.integers(2) else [b[k][0], b[k][0]]
    return {"b": b}


def check_bad(a):
    D = len(a["b"])
    p = {"num_vars": D, "names": [f"x{i}" for i in range(D)], "bounds": a["b"]}
    u = np.full((3, D), 0.5)
    raises(ValueError, lambda: scale_samples(u.copy(), p), "scale with illegal bounds")
    raises(ValueError, lambda: _scale_samples(u.copy(), a["b"]), "_scale with illegal bounds")
    raises(ValueError, lambda: _unscale_samples(u.copy(), a["b"]), "unscale with illegal bounds")


CHECKS = [
    {"name": "scaling", "gen": gen, "check": check, "n": 600},
    {"name": "illegal bounds", "gen": gen_bad, "check": check_bad, "n": 200},
]
