"""Executable contract of C02: quantiles from independent formulas / scipy.special."""
import math
from .lib import *
from scipy import special
from scipy.stats import norm as _n
from SALib.util import scale_samples

KINDS = ["unif", "logunif", "triang", "triang2", "norm", "truncnorm", "lognorm", "weibull", "weibull3"]


def one(rng, k):
    r = lambda a, b: float(rng.uniform(a, b))
    if k == "unif":
        a = r(-5, 5)
        return [a, a + r(0.1, 5)]
    if k == "logunif":
        a = r(0.01, 5)
        return [a, a + r(0.1, 5)]
    if k == "triang":
        a = r(-2, 5)
        return [a, max(a, 0) + r(0.1, 5), [r(0, 0.99), 0.0][int(rng.random() < 0.2)]]
    if k == "triang2":
        return [r(0.1, 5), r(0, 0.99)]
    if k in ("norm", "lognorm"):
        return [r(-3, 3), r(0.1, 2)]
    if k == "truncnorm":
        m = r(-3, 3)
        return [m - r(0.2, 4), m + r(0.2, 4), m + r(-0.5, 0.5), r(0.3, 2)]
    if k == "weibull":
        return [r(0.5, 4), r(0.5, 4)]
    return [r(0.5, 4), r(0.5, 4), r(-2, 2)]


def quant(k, b, u):
    if k == "unif":
        return b[0] + u * (b[1] - b[0])
    if k == "logunif":
        return np.exp(np.log(b[0]) + u * (np.log(b[1]) - np.log(b[0])))
    if k.startswith("triang"):
        lo, hi, c = (b[0], b[1], b[2]) if k == "triang" else (0.0, b[0], b[1])
        w = hi - lo
        return np.where(u < c, lo + w * np.sqrt(c * u), hi - w * np.sqrt((1 - c) * (1 - u)))
    if k == "norm":
        return b[0] + b[1] * special.ndtri(u)
    if k == "lognorm":
        return np.exp(b[0] + b[1] * special.ndtri(u))
    if k == "truncnorm":
        A, B = special.ndtr((b[0] - b[2]) / b[3]), special.ndtr((b[1] - b[2]) / b[3])
        return b[2] + b[3] * special.ndtri(A + u * (B - A))
    loc = b[2] if k == "weibull3" else 0.0
    return loc + b[1] * (-np.log1p(-u)) ** (1 / b[0])


def gen(rng):
    D = rdim(rng, 1, 7, 20)
    ks = [KINDS[int(i)] for i in rng.integers(0, len(KINDS), D)]
    return {"k": ks, "b": [one(rng, k) for k in ks], "N": int(rng.integers(1, 9)), "seed": seedint(rng)}


def name(k):
    return k.rstrip("23")


def check(a):
    rng = np.random.default_rng(a["seed"])
    D = len(a["k"])
    u = rng.uniform(0.01, 0.99, (a["N"], D))
    p = {"num_vars": D, "names": [f"x{i}" for i in range(D)], "bounds": a["b"], "dists": [name(k) for k in a["k"]]}
    w = u.copy()
    X = scale_samples(w, p)
    close(w, u, "input matrix modified", 0, 0)
    req(p.get("sample_scaled") is True, "not marked as scaled")
    for j, k in enumerate(a["k"]):
        close(X[:, j], quant(k, a["b"][j], u[:, j]), f"column {j} ({k} {a['b'][j]})", 1e-6, 1e-6)


BAD = [("unif", [2, 1]), ("unif", [1, 1]), ("logunif", [2, 1]), ("logunif", [1, 1]), ("logunif", [0, 1]), ("logunif", [-1, 1]),
       ("triang", [1, 0.5, 0.5]), ("triang", [1, 1, 0.5]), ("triang", [1, 2, -0.1]), ("triang", [1, 2, 1]), ("triang", [1, 2, 1.5]), ("triang", [-1, 0.5]),
       ("triang", [0, 0.5]), ("triang", [1, 1.0]), ("triang", [1, 2, 0.5, 1]),
       ("norm", [0, 0]), ("norm", [0, -1]), ("truncnorm", [0, 1, 0.5, 0]), ("truncnorm", [1, 0, 0.5, 1]), ("truncnorm", [1, 1, 0.5, 1]), ("truncnorm", [0, 1, 0.5, -2]),
       ("lognorm", [0, 0]), ("lognorm", [0, -1]), ("weibull", [0, 1]), ("weibull", [1, 0]), ("weibull", [-1, 1, 0]), ("weibull", [1, -1]), ("weibull", [1, 2, 3, 4]),
       ("nosuch", [0, 1]), ("uniform", [0, 1]), ("NORM", [0, 1])]


def check_bad(a):
    k, b = BAD[a["bad"]]
    D = a["D"]
    bs = [[0.0, 1.0] for _ in range(D)]
    ds = ["unif"] * D
    bs[a["pos"]], ds[a["pos"]] = b, k
    p = {"num_vars": D, "names": [f"x{i}" for i in range(D)], "bounds": bs, "dists": ds}
    raises(ValueError, lambda: scale_samples(np.full((3, D), 0.5), p), f"illegal distribution {k} {b} in column {a['pos']}")


def check_len(a):
    D, n = a["D"], a["n"]
    p = {"num_vars": D, "names": [f"x{i}" for i in range(D)], "bounds": [[0, 1]] * max(D, n), "dists": ["unif"] * n}
    raises(ValueError, lambda: scale_samples(np.full((3, D), 0.5), p), f"{n} distributions for {D} columns")


CHECKS = [
    {"name": "quantiles", "gen": gen, "check": check, "n": 400},
    {"name": "illegal distribution", "check": check_bad, "n": 0, "edge": [{"bad": k, "D": D, "pos": q} for k in range(len(BAD)) for D, q in ((1, 0), (3, 1), (3, 2))]},
    {"name": "wrong number of distributions", "check": check_len, "n": 0, "edge": [{"D": D, "n": n} for D in (1, 2, 3) for n in (0, 1, 2, 3, 4) if n != D]},
]
