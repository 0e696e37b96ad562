"""Executable contract of C13."""
from .lib import *
from SALib.sample import finite_diff, sobol_sequence
from SALib.analyze import dgsm
from SALib.util import scale_samples
from scipy.stats import norm


def gen(rng):
    D = rdim(rng, 1, 5, 16)
    p = rproblem(rng, D, wide=False)
    if rng.integers(2):
        kinds = ["unif", "logunif", "truncnorm", "triang2", "triang3", "norm", "lognorm", "weibull2", "weibull3"]
        ds, bs = [], []
        for _ in range(D):
            k = kinds[int(rng.integers(len(kinds)))]
            lo = float(rng.uniform(0.5, 3))
            hi = lo + float(rng.uniform(0.5, 4))
            bs.append({"unif": [lo - 2, hi], "logunif": [lo, hi], "truncnorm": [lo, hi, (lo + hi) / 2, 1.0], "triang2": [hi, float(rng.uniform(0.1, 0.9))], "triang3": [lo, hi, float(rng.uniform(0.1, 0.9))],
                       "norm": [lo, hi], "lognorm": [0.1 * lo, 0.3], "weibull2": [1.5, hi], "weibull3": [1.5, hi, lo]}[k])
            ds.append(k.rstrip("23") if k[-1] in "23" else k)
        p["dists"], p["bounds"] = ds, bs
    return {"p": p, "N": int(rng.integers(1, 12)), "skip": int([0, 1, 3, 1024, 37][int(rng.integers(5))]), "delta": float([0.01, -0.01, 0.3, 1e-4, 2.0][int(rng.integers(5))]), "seed": seedint(rng)}


def check(a):
    p, N, D = a["p"], a["N"], a["p"]["num_vars"]
    X = finite_diff.sample(dict(p), N, delta=a["delta"], skip_values=a["skip"], seed=a["seed"])
    req(X.shape == (N * (D + 1), D), f"N(D+1) rows, got {X.shape}")
    base = scale_samples(sobol_sequence.sample(N + a["skip"], D), dict(p))[a["skip"]:]
    dists = p.get("dists") or ["unif"] * D
    for i in range(N):
        blk = X[i * (D + 1):(i + 1) * (D + 1)]
        close(blk[0], base[i], "base row", 1e-12)
        for j in range(D):
            row = base[i].copy()
            row[j] += a["delta"] * base[i, j]
            b = p["bounds"][j]
            if dists[j] in ("unif", "logunif", "truncnorm") or (dists[j] == "triang" and len(b) == 3):
                row[j] = max(min(row[j], b[1]), b[0])
            close(blk[1 + j], row, f"row {1+j} of block {i} moves only parameter {j}", 1e-12)


def gen_d(rng):
    D = int(rng.integers(1, 6))
    return {"p": rproblem(rng, D, wide=False), "N": int(rng.integers(2, 15)), "R": int(rng.integers(2, 12)), "conf": float(rng.uniform(0.1, 0.99)), "seed": seedint(rng)}


def check_d(a):
    p, N, D = a["p"], a["N"], a["p"]["num_vars"]
    g = np.random.default_rng(a["seed"])
    X = g.normal(size=(N * (D + 1), D)) * 3
    Y = g.normal(size=N * (D + 1)) * 2 + 1
    S = dgsm.analyze(p, X, Y, num_resamples=a["R"], conf_level=a["conf"], seed=a["seed"])
    st = D + 1
    y0, x0 = Y[::st], X[::st]
    V = np.var(y0)
    np.random.seed(a["seed"])
    q = norm.ppf((1 + a["conf"]) / 2)
    for j in range(D):
        f = ((Y[1 + j::st] - y0) / (X[1 + j::st, j] - x0[:, j])) ** 2
        close(S["vi"][j], f.mean(), f"vi[{j}]", 1e-8)
        close(S["vi_std"][j], f.std(), f"vi_std[{j}]", 1e-8)
        b = p["bounds"][j]
        close(S["dgsm"][j], f.mean() * (b[1] - b[0]) ** 2 / (np.pi ** 2 * V), f"dgsm[{j}]", 1e-8)
        r = np.random.randint(N, size=(a["R"], N))
        close(S["dgsm_conf"][j], q * np.std(f[r].mean(axis=1), ddof=1), f"dgsm_conf[{j}]", 1e-7)
    req(list(S["names"]) == p["names"], "names")


CHECKS = [{"name": "finite differences", "gen": gen, "check": check, "n": 300}, {"name": "dgsm", "gen": gen_d, "check": check_d, "n": 300}]
