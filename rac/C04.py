"""Executable contract of C04."""
from .lib import *
from SALib.analyze import sobol
from scipy.stats import norm


def gen(rng):
    D = rdim(rng, 2, 5, 10)
    N = int(rng.integers(1, 14)) * (1 if rng.integers(4) else 6)
    return {"p": rproblem(rng, D, groups=bool(rng.integers(2))), "N": max(2, N), "second": bool(rng.integers(2)), "R": int(rng.integers(2, 12)),
            "conf": float(rng.uniform(0.05, 0.99)), "seed": int(rng.integers(0, 5)) if rng.integers(4) == 0 else seedint(rng),
            "yseed": seedint(rng), "kind": int(rng.integers(6)), "keep": bool(rng.integers(2)),
            "scale": float([1, -3, 1e-3, -0.5, 250][int(rng.integers(5))]), "shift": float([0, 7, -1e3][int(rng.integers(3))])}


def outputs(a, n):
    g = np.random.default_rng(a["yseed"])
    if a["kind"] == 0:
        return g.normal(size=n)
    if a["kind"] == 1:
        return 100 + g.normal(size=n)
    if a["kind"] == 2:
        return g.integers(0, 5, size=n) + 0.5 * np.arange(n) / n
    # structured: some columns of every block constant, the rest varying; tiny or huge spread
    S = n // a["N"]
    sc = 10.0 ** int(g.integers(-9, 9))
    M = g.normal(size=(a["N"], S)) * sc
    if a["kind"] == 3:
        M[:, 0 if g.integers(2) else S - 1] = 3.25 * sc
    elif a["kind"] == 4:
        keep = int(g.integers(S))
        c = M[:, [0, S - 1, keep]].copy()
        M[:] = M[0, 0]
        M[:, 0], M[:, keep] = c[:, 0], c[:, 2]
    return M.ravel()


def formulas(A, B, AB, BA, j, k=None):
    v = np.var(np.concatenate([A, B]), axis=0)
    s1 = np.mean(B * (AB[j] - A), axis=0) / v
    if k is None:
        return s1, np.mean((A - AB[j]) ** 2, axis=0) / (2 * v)
    return np.mean(BA[j] * AB[k] - A * B, axis=0) / v - s1 - np.mean(B * (AB[k] - A), axis=0) / v


def check(a):
    p = a["p"]
    _, gn = eff_groups(p)
    D = len(gn)
    N, second = a["N"], a["second"]
    S = 2 * D + 2 if second else D + 2
    Y = outputs(a, N * S)
    kw = dict(calc_second_order=second, num_resamples=a["R"], conf_level=a["conf"], seed=a["seed"])
    Si = sobol.analyze(p, Y, keep_resamples=a["keep"], **kw)
    Z = (Y - Y.mean()) / Y.std()
    M = Z.reshape(N, S)
    A, B = M[:, 0], M[:, S - 1]
    AB = [M[:, 1 + j] for j in range(D)]
    BA = [M[:, 1 + D + j] for j in range(D)] if second else None
    r = np.random.default_rng(a["seed"]).integers(N, size=(N, a["R"]))
    q = norm.ppf((1 + a["conf"]) / 2)
    cols = lambda L: [x[r] for x in L] if L else None
    for j in range(D):
        s1, st = formulas(A, B, AB, BA, j)
        close(Si["S1"][j], s1, f"S1[{j}]", 1e-7)
        close(Si["ST"][j], st, f"ST[{j}]", 1e-7)
        b1, bt = formulas(A[r], B[r], cols(AB), cols(BA), j)
        ok = np.isfinite(b1).all()
        if ok:
            close(Si["S1_conf"][j], q * np.std(b1, ddof=1), f"S1_conf[{j}]", 1e-6)
            close(Si["ST_conf"][j], q * np.std(bt, ddof=1), f"ST_conf[{j}]", 1e-6)
        if a["keep"] and ok:
            close(Si["S1_conf_all"][:, j], b1, "S1_conf_all", 1e-6)
            close(Si["ST_conf_all"][:, j], bt, "ST_conf_all", 1e-6)
    if second:
        req(Si["S2"].shape == (D, D) and Si["S2_conf"].shape == (D, D), "S2 shape")
        for j in range(D):
            for k in range(D):
                if j >= k:
                    req(np.isnan(Si["S2"][j, k]) and np.isnan(Si["S2_conf"][j, k]), f"S2[{j},{k}] is NaN")
                else:
                    close(Si["S2"][j, k], formulas(A, B, AB, BA, j, k), f"S2[{j},{k}]", 1e-7)
                    b = formulas(A[r], B[r], cols(AB), cols(BA), j, k)
                    if np.isfinite(b).all():
                        close(Si["S2_conf"][j, k], q * np.std(b, ddof=1), f"S2_conf[{j},{k}]", 1e-6)
    else:
        req("S2" not in Si, "no second order")
    # scale and shift invariance
    W = Y * a["scale"] + a["shift"] * Y.std()
    S2 = sobol.analyze(p, W, **kw)
    for k in ("S1", "ST") + (("S2",) if second else ()):
        close(S2[k], Si[k], f"{k} of a*Y+b", 1e-5, 1e-7)


CHECKS = [{"name": "estimators", "gen": gen, "check": check, "n": 160}]
