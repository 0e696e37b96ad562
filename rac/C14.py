"""Executable contract of C14."""
from .lib import *
import copy
from SALib.sample import ff as sff
from SALib.analyze import ff as aff


def pow2(n):
    k = 1
    while k < n:
        k *= 2
    return k


def gen(rng):
    D = int([rng.integers(1, 9), rng.integers(1, 20), rng.integers(1, 40), rng.integers(60, 140)][int(rng.integers(4))])
    return {"p": rproblem(rng, D), "seed": seedint(rng), "second": bool(rng.integers(2)), "tup": bool(rng.integers(3) == 0)}


def check(a):
    p, D = a["p"], a["p"]["num_vars"]
    if a["tup"]:
        p = dict(p, names=list(p["names"]), bounds=[tuple(b) for b in p["bounds"]])
    q = copy.deepcopy(p)
    k = pow2(D)
    X = sff.sample(q, seed=a["seed"])
    req(X.shape == (2 * k, k), f"{2*k} rows and {k} columns, got {X.shape}")
    req({z: q[z] for z in p} == p, "the problem is left as the user gave it")
    X2 = sff.sample(q, seed=a["seed"])
    req((X == X2).all(), "the same design again")
    b = np.array([list(t) for t in p["bounds"]] + [[0, 1]] * (k - D), dtype=float)
    hi, lo = np.isclose(X, b[:, 1], rtol=0, atol=1e-9 * (b[:, 1] - b[:, 0])), np.isclose(X, b[:, 0], rtol=0, atol=1e-9 * (b[:, 1] - b[:, 0]))
    req((hi ^ lo).all(), "every entry is its parameter's lower or upper bound")
    L = np.where(hi, 1, -1)
    req((L.sum(axis=0) == 0).all(), "balanced columns")
    req((L.T @ L == 2 * k * np.eye(k)).all(), "orthogonal columns")
    req((L[k:] == -L[:k]).all(), "second half is the fold-over of the first")
    Y = np.random.default_rng(a["seed"]).normal(size=2 * k)
    Si = aff.analyze(q, X, Y, second_order=a["second"], seed=a["seed"])
    req({z: q[z] for z in p} == p, "analysis leaves the problem as the user gave it")
    nm = list(p["names"]) + [f"dummy_{i}" for i in range(k - D)]
    req(list(Si["names"]) == nm, "names")
    me = [(Y[hi[:, j]].sum() - Y[lo[:, j]].sum()) / (2 * k) for j in range(k)]
    close(Si["ME"], me, "main effects", 1e-8, 1e-10)
    if a["second"]:
        pairs = [(i, j) for j in range(k) for i in range(j)]
        req([tuple(x) for x in Si["interaction_names"]] == [(nm[i], nm[j]) for i, j in pairs], "interaction names")
        LL = L.astype(float)
        close(Si["IE"], [Y @ (LL[:, i] * LL[:, j]) / (2 * k) for i, j in pairs], "interactions", 1e-8, 1e-10)
    df = Si.to_df()
    req(list(df[0].index) == nm and np.array_equal(df[0]["ME"], Si["ME"]), "main effect table")
    if a["second"] and k > 1:
        req(list(df[1]["IE"]) == list(Si["IE"]) and [tuple(x) for x in df[1].index] == [tuple(x) for x in Si["interaction_names"]], "interaction table")


CHECKS = [{"name": "fractional factorial", "gen": gen, "check": check, "n": 150}]
