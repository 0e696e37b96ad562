"""Executable contract of C12."""
from .lib import *
import math
from SALib.analyze import fast, rbd_fast
from scipy.stats import norm


def gen(rng):
    M = int(rng.integers(1, 5))
    N = 4 * M * M + 1 + int([0, 1, rng.integers(0, 60), rng.integers(0, 300)][int(rng.integers(4))])
    return {"D": int(rng.integers(1, 5)), "N": N, "M": M, "seed": seedint(rng), "R": int(rng.integers(2, 6)), "scale": float([1, -2, 30, 1e-3][int(rng.integers(4))]), "shift": float([0, 5, -300][int(rng.integers(3))]), "conf": float(rng.uniform(0.1, 0.99))}


def dft_power(y):
    N = len(y)
    k = np.arange(1, math.ceil(N / 2))
    n = np.arange(N)
    F = np.exp(-2j * np.pi * np.outer(k, n) / N) @ y
    return np.abs(F / N) ** 2  # index k-1


def check(a):
    D, N, M = a["D"], a["N"], a["M"]
    Y = np.random.default_rng(a["seed"]).normal(size=N * D)
    p = {"num_vars": D, "names": [f"x{i}" for i in range(D)], "bounds": [[0, 1]] * D}
    kw = dict(M=M, num_resamples=a["R"], conf_level=a["conf"], seed=a["seed"])
    Si = fast.analyze(p, Y, **kw)
    w = (N - 1) // (2 * M)
    req(list(Si["names"]) == p["names"], "names")
    for i in range(D):
        P = dft_power(Y[i * N:(i + 1) * N])
        s1 = sum(P[h * w - 1] for h in range(1, M + 1)) / P.sum()
        st = 1 - P[:w // 2].sum() / P.sum()
        close(Si["S1"][i], s1, f"S1[{i}]", 1e-7)
        close(Si["ST"][i], st, f"ST[{i}]", 1e-7)
        req(-1e-12 <= Si["S1"][i] <= 1 + 1e-9 and -1e-9 <= Si["ST"][i] <= 1 + 1e-9, "0 <= S1 and ST <= 1")
        if N >= 30 * M * M:
            req(np.isfinite(Si["S1_conf"][i]) and Si["S1_conf"][i] >= 0 and Si["ST_conf"][i] >= 0, "confidence half-widths")
    S2 = fast.analyze(p, a["scale"] * Y + a["shift"], **kw)
    for k in ("S1", "ST"):
        close(S2[k], Si[k], f"{k} of a*Y+b", 1e-5, 1e-8)


def gen_r(rng):
    return {"D": int(rng.integers(1, 4)), "N": int([rng.integers(30, 60), rng.integers(60, 300)][int(rng.integers(2))]), "M": int(rng.integers(1, 7)), "seed": seedint(rng), "R": int(rng.integers(2, 5)), "scale": float([1, -2, 30][int(rng.integers(3))]), "shift": float([0, 5, -300][int(rng.integers(3))]), "conf": float(rng.uniform(0.1, 0.99))}


def ref_rbd(x, y, M):
    o = sorted(range(len(x)), key=lambda i: x[i])
    o = o[::2] + o[1::2][::-1]
    z = np.asarray(y)[o]
    z = z - z.mean()
    N = len(z)
    k = np.arange(1, N // 2 + 1)
    F = np.exp(-2j * np.pi * np.outer(k, np.arange(N)) / N) @ z
    P = np.abs(F) ** 2
    wt = np.full(len(k), 2.0)
    if N % 2 == 0:
        wt[-1] = 1.0
    P = P * wt
    s = P[:M].sum() / P.sum()
    lam = 2 * M / N
    return s - lam / (1 - lam) * (1 - s)


def check_r(a):
    D, N, M = a["D"], a["N"], a["M"]
    g = np.random.default_rng(a["seed"])
    X = g.random((N, D))
    Y = X.sum(axis=1) + 0.3 * g.normal(size=N)
    p = {"num_vars": D, "names": [f"x{i}" for i in range(D)], "bounds": [[0, 1]] * D}
    kw = dict(M=M, num_resamples=a["R"], conf_level=a["conf"], seed=a["seed"])
    Si = rbd_fast.analyze(p, X, Y, **kw)
    for i in range(D):
        close(Si["S1"][i], ref_rbd(X[:, i], Y, M), f"S1[{i}]", 1e-7)
        z = rbd_fast.permute_outputs(X[:, i], Y)
        req(sorted(z) == sorted(Y), "the reordered outputs are the outputs")
        # conf: each resample uses half of the data, drawn with replacement
        if i == 0:
            r = np.random.default_rng(a["seed"])
            res = []
            for _ in range(a["R"]):
                ix = r.choice(N, replace=True, size=int(N * 0.5))
                xs, ys = X[ix, 0], Y[ix]
                res.append(rbd_fast.unskew_S1(rbd_fast.compute_first_order(rbd_fast.permute_outputs(xs, ys), M), M, len(ys)))
            close(Si["S1_conf"][0], norm.ppf((1 + a["conf"]) / 2) * np.std(res, ddof=1), "S1_conf", 1e-7)
    perm = g.permutation(N)
    S2 = rbd_fast.analyze(p, X[perm], Y[perm], **kw)
    close(S2["S1"], Si["S1"], "S1 independent of the order of the samples", 1e-7)
    S3 = rbd_fast.analyze(p, X, a["scale"] * Y + a["shift"], **kw)
    close(S3["S1"], Si["S1"], "S1 of a*Y+b", 1e-6, 1e-8)


CHECKS = [{"name": "FAST spectrum", "gen": gen, "check": check, "n": 150}, {"name": "RBD-FAST", "gen": gen_r, "check": check_r, "n": 150}]
