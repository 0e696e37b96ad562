"""Executable contract of C07."""
from .lib import *
from SALib.sample import latin


def gen(rng):
    D = rdim(rng, 1, 6, 25)
    p = rproblem(rng, D, groups=bool(rng.integers(2)))
    if D >= 2 and rng.integers(8) == 0:
        p["groups"] = ["one"] * D
    return {"p": p, "N": int([1, 2, 3, rng.integers(1, 60), rng.integers(100, 400)][int(rng.integers(5))]), "seed": seedint(rng)}


def check(a):
    p, N = a["p"], a["N"]
    D = p["num_vars"]
    X = latin.sample(dict(p), N, seed=a["seed"])
    req(X.shape == (N, D), f"N rows and D columns, got {X.shape}")
    b = np.array(p["bounds"])
    U = (X - b[:, 0]) / (b[:, 1] - b[:, 0])
    req((U > -1e-9).all() and (U < 1 + 1e-9).all(), "inside the bounds")
    C = np.floor(U * N + 0)
    W = U * N
    for j in range(D):
        got = np.sort(W[:, j])
        lo = np.arange(N)
        req((got >= lo - 1e-6).all() and (got <= lo + 1 + 1e-6).all(), f"column {j}: one point in each of the {N} strata")
    g = p.get("groups")
    order = [np.argsort(U[:, j], kind="stable") for j in range(D)]
    if g:
        for j in range(D):
            for k in range(D):
                if g[j] == g[k]:
                    req(np.array_equal(order[j], order[k]), f"columns {j},{k} of one group use the same strata order")
    if N >= 60:
        names = g or p["names"]
        for j in range(D):
            for k in range(j):
                if names[j] != names[k]:
                    req(not np.array_equal(order[j], order[k]), f"groups of columns {j},{k} permuted independently")


def gen_d(rng):
    return {"N": int(rng.integers(2, 50)), "seed": seedint(rng), "kind": ["norm", "lognorm", "triang", "logunif"][int(rng.integers(4))]}


def check_d(a):
    """the strata are of equal probability also under other distributions"""
    from scipy import stats
    pars = {"norm": [1.0, 2.0], "lognorm": [0.1, 0.4], "triang": [1.0, 4.0, 0.3], "logunif": [1.0, 9.0]}[a["kind"]]
    F = {"norm": stats.norm(1, 2).cdf, "lognorm": lambda x: stats.norm(0.1, 0.4).cdf(np.log(x)), "triang": stats.triang(0.3, 1, 3).cdf,
         "logunif": lambda x: np.log(x) / np.log(9.0)}[a["kind"]]
    p = {"num_vars": 2, "names": ["a", "b"], "bounds": [pars, [0.0, 1.0]], "dists": [a["kind"], "unif"]}
    X = latin.sample(p, a["N"], seed=a["seed"])
    W = np.sort(F(X[:, 0]) * a["N"])
    lo = np.arange(a["N"])
    req((W >= lo - 1e-6).all() and (W <= lo + 1 + 1e-6).all(), "one point per equal-probability stratum")


CHECKS = [{"name": "strata", "gen": gen, "check": check, "n": 240}, {"name": "distributions", "gen": gen_d, "check": check_d, "n": 60}]
