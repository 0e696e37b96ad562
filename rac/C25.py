"""Executable contract of C25."""
from .lib import *
from scipy.stats import qmc
from SALib.analyze import discrepancy


def gen(rng):
    D = rdim(rng, 1, 5, 12)
    return {"p": rproblem(rng, D, groups=bool(rng.integers(2)), wide=False), "N": int(rng.integers(2, 60)), "m": ["WD", "CD", "MD", "L2-star"][int(rng.integers(4))], "seed": seedint(rng), "a": float([2, 1e-3, 500][int(rng.integers(3))]), "b": float([0, 7, -900][int(rng.integers(3))])}


def check(a):
    p, D, N = a["p"], a["p"]["num_vars"], a["N"]
    g = np.random.default_rng(a["seed"])
    bd = np.array(p["bounds"])
    U = g.random((N, D)) * 0.998 + 0.001
    X = bd[:, 0] + U * (bd[:, 1] - bd[:, 0])
    Y = U @ np.arange(1, D + 1) + 0.1 * g.normal(size=N)
    Si = discrepancy.analyze(p, X, Y, method=a["m"])
    y = (Y - Y.min()) / (Y.max() - Y.min())
    d = np.array([qmc.discrepancy(np.column_stack([U[:, j], y]), method=a["m"]) for j in range(D)])
    d = d / d.sum()
    gl, names = eff_groups(p)
    w = np.array([d[[i for i in range(D) if gl[i] == n]].mean() for n in names]) if gl else d
    req(list(Si["names"]) == names, f"names {Si['names']}")
    close(Si["s_discrepancy"], w, "normalised discrepancy", 1e-6, 1e-8)
    req((Si["s_discrepancy"] >= 0).all(), "non-negative")
    if not gl:
        close(Si["s_discrepancy"].sum(), 1, "sum", 1e-9)
    S2 = discrepancy.analyze(p, X, a["a"] * Y + a["b"], method=a["m"])
    close(S2["s_discrepancy"], Si["s_discrepancy"], "outputs rescaled and shifted", 1e-5, 1e-7)
    j = int(a["seed"] % D)
    p2 = dict(p, bounds=[[3 * b[0] - 1, 3 * b[1] - 1] if k == j else b for k, b in enumerate(p["bounds"])])
    X2 = X.copy()
    X2[:, j] = 3 * X[:, j] - 1
    X2[:, j] = np.clip(X2[:, j], p2["bounds"][j][0], p2["bounds"][j][1])
    S3 = discrepancy.analyze(p2, X2, Y, method=a["m"])
    close(S3["s_discrepancy"], Si["s_discrepancy"], "a parameter rescaled with its bounds", 1e-5, 1e-7)


CHECKS = [{"name": "discrepancy", "gen": gen, "check": check, "n": 400}]
