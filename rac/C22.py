"""Executable contract of C22."""
from .lib import *
from SALib.analyze import pawn


def gen(rng):
    D = rdim(rng, 1, 4, 9)
    return {"p": rproblem(rng, D, groups=bool(rng.integers(3) == 0), wide=False), "N": int([rng.integers(1, 20), rng.integers(20, 120)][int(rng.integers(2))]), "S": int(rng.integers(1, 25)), "seed": seedint(rng), "kind": int(rng.integers(5))}


def ks(a, b):
    z = np.concatenate([a, b])
    return max(abs((a <= t).mean() - (b <= t).mean()) for t in z)


def check(a):
    p, D, N, S = a["p"], a["p"]["num_vars"], a["N"], a["S"]
    g = np.random.default_rng(a["seed"])
    X = g.normal(size=(N, D)) * 3
    if a["kind"] == 1:
        X = np.round(X)
    elif a["kind"] == 2:
        X[:, 0] = 4.0
    Y = X.sum(axis=1) + g.normal(size=N)
    if a["kind"] == 3:
        Y = np.round(Y)
    if a["kind"] == 4:
        Y[:] = 2.5
    Si = pawn.analyze(p, X, Y, S=S, seed=a["seed"] % 1000)
    res = []
    for j in range(D):
        q = np.quantile(X[:, j], np.linspace(0, 1, S + 1))
        v, n = [], 0
        for s in range(S):
            m = (X[:, j] >= q[s]) & ((X[:, j] <= q[s + 1]) if s == S - 1 else (X[:, j] < q[s + 1]))
            n += m.sum()
            if m.any():
                v.append(ks(Y[m], Y))
        req(n == N, "the slices cover the sample, each point once")
        v = np.array(v)
        res.append([v.min(), v.mean(), np.median(v), v.max(), v.std() / v.mean() if v.mean() else np.nan, v.std()])
    res = np.array(res)
    gl, names = eff_groups(p)
    if gl:
        res = np.array([res[[i for i in range(D) if gl[i] == n]].mean(axis=0) for n in names])
    req(list(Si["names"]) == names, "names")
    for c, k in enumerate(["minimum", "mean", "median", "maximum", "CV", "stdev"]):
        close(Si[k], res[:, c], k, 1e-9, 1e-12)
    req((0 <= Si["minimum"]).all() and (Si["minimum"] <= Si["median"] + 1e-12).all() and (Si["median"] <= Si["maximum"] + 1e-12).all() and (Si["maximum"] <= 1 + 1e-12).all() and (Si["minimum"] <= Si["mean"] + 1e-12).all() and (Si["mean"] <= Si["maximum"] + 1e-12).all(), "0 <= min <= median, mean <= max <= 1")


CHECKS = [{"name": "PAWN", "gen": gen, "check": check, "n": 500}]
