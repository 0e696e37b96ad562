"""Executable contract of C26."""
from .lib import *
import itertools
from unittest import mock
from scipy.stats import norm, f as fdist
from SALib.analyze import hdmr, enhanced_hdmr as eh
from SALib import ProblemSpec


def gen(rng):
    D = int(rng.integers(2, 5))
    return {"D": D, "mo": int(rng.integers(1, 3 if D == 2 else 4)), "K": int(rng.integers(1, 4)), "seed": seedint(rng), "alpha": float([0.95, 0.9, 0.99, 0.6][int(rng.integers(4))]), "m": int(rng.integers(1, 3)), "cor": bool(rng.integers(2)), "spec": bool(rng.integers(3) == 0), "R": bool(rng.integers(2))}


def data(a):
    D = a["D"]
    g = np.random.default_rng(a["seed"])
    N = 320
    X = g.random((N, D))
    if a["cor"]:
        X[:, 1] = np.clip(X[:, 0] * 0.6 + X[:, 1] * 0.4, 0, 1)
    Y = X @ np.arange(1, D + 1) + X[:, 0] * X[:, 1] + 0.2 * g.normal(size=N)
    p = {"num_vars": D, "names": [f"x{i}" for i in range(D)], "bounds": [[0.0, 1.0]] * D}
    return X, Y, ProblemSpec(p) if a["spec"] else p


def terms(D, mo):
    return [c for k in range(1, mo + 1) for c in itertools.combinations(range(D), k)]


def cov(a, b):
    return ((a - a.mean()) * (b - b.mean())).mean()


def judge(Y, F, n, coef, alpha, R):
    sel = []
    r0 = (Y ** 2).sum()
    for i, c in enumerate(n):
        r1 = ((Y - F[:, i]) ** 2).sum()
        p = coef[len(c) - 1]
        sel.append(float(((r0 - r1) / p) / (r1 / (R - p)) > fdist.ppf(alpha, p, R - p)))
    return np.array(sel)


def common(a, Si, runs, names, T):
    """runs: list of (Y, F) with F the component functions of the run"""
    D = a["D"]
    tol = 4.0 / len(runs[0][0])
    S = np.array([[cov(F[:, i], Y) / Y.var() for i in range(len(T))] for Y, F in runs])
    Sa = np.array([[F[:, i].var() / Y.var() for i in range(len(T))] for Y, F in runs])
    Sb = np.array([[cov(F[:, i], F.sum(axis=1) - F[:, i]) / Y.var() for i in range(len(T))] for Y, F in runs])
    z = norm.ppf(a["alpha"] + (1 - a["alpha"]) / 2)
    req(list(Si["Term"]) == ["/".join(names[j] for j in c) for c in T], f"labels {Si['Term']}")
    for k, v in (("S", S), ("Sa", Sa), ("Sb", Sb)):
        close(Si[k], v.mean(axis=0), k, tol, 1e-7)
        close(Si[k + "_conf"], z * v.std(axis=0), k + "_conf", 5 * tol, 1e-5 * z)
        close(Si[k + "_sum"], v.sum(axis=1).mean(), k + "_sum", tol, 1e-7)
        close(Si[k + "_sum_conf"], z * v.sum(axis=1).std(), k + "_sum_conf", 5 * tol, 1e-5 * z)
    for j in range(D):
        ts = S[:, [i for i, c in enumerate(T) if j in c]].sum(axis=1)
        close(Si["ST"][j], ts.mean(), f"ST[{j}]", tol, 1e-7)
        close(Si["ST_conf"][j], z * ts.std(), f"ST_conf[{j}]", 5 * tol, 1e-5 * z)
    req(all(np.isnan(v) for v in list(Si["ST"])[D:]), "total indices belong to parameters")
    df = Si.to_df()
    req(list(df.index) == list(Si["Term"]) and np.allclose(df["S"], Si["S"]) and np.allclose(df["Sa"], Si["Sa"]) and np.allclose(df["ST"], np.asarray(Si["ST"], dtype=float), equal_nan=True), "table")


def check(a):
    X, Y, p = data(a)
    D = a["D"]
    names = [f"x{i}" for i in range(D)]
    if a["D"] == 4 and a["mo"] == 3:
        a = dict(a, m=1, K=1)
    runs = []
    real = hdmr.ancova

    def anc(Y_, F, *r):
        runs.append((Y_.copy(), F.copy()))
        return real(Y_, F, *r)
    with mock.patch.object(hdmr, "ancova", anc):
        Si = hdmr.analyze(p, X, Y, maxorder=a["mo"], K=a["K"], R=(300 if a["R"] else None), m=a["m"], alpha=a["alpha"], seed=a["seed"] % 10**6)
    T = terms(D, a["mo"])
    req(len(runs) == a["K"], "one decomposition per bootstrap run")
    common(a, Si, runs, names, T)
    c = a["m"] + 3
    sel = sum(judge(Y_ - Y_.mean(), F, T, [c, c ** 2, c ** 3], a["alpha"], len(Y_)) for Y_, F in runs)
    close(Si["select"], sel, "number of selections", 1e-9)
    for k, (Y_, F) in enumerate(runs):
        req(np.allclose(Y_, Y[Si["idx"][:, k]]), "each run analyses its own bootstrap outputs")


def check_e(a):
    X, Y, p = data(a)
    D = a["D"]
    names = [f"x{i}" for i in range(D)]
    runs, coef = [], []
    real = eh._ancova

    def anc(Y_, F, h):
        runs.append((np.array(Y_).ravel().copy(), F.copy()))
        coef[:] = [h.nt1, h.nt2, h.nt3]
        return real(Y_, F, h)
    with mock.patch.object(eh, "_ancova", anc):
        Si = eh.analyze(p, X, Y, max_order=a["mo"], poly_order=2, bootstrap=a["K"], subset=300 if a["R"] else None, alpha=a["alpha"], seed=a["seed"] % 10**6, extended_base=a["cor"])
    T = terms(D, a["mo"])
    req(len(runs) == a["K"], "one decomposition per bootstrap run")
    common(a, Si, runs, names, T)
    sel = sum(judge(Y_, F, T, coef, a["alpha"], len(Y_)) for Y_, F in runs)
    close(Si["Signf"], 100 * sel / a["K"], "percentage of selections", 1e-9)


CHECKS = [{"name": "HDMR", "gen": gen, "check": check, "n": 64}, {"name": "enhanced HDMR", "gen": gen, "check": check_e, "n": 64}]
