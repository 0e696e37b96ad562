"""Executable contract of C24."""
from .lib import *
from scipy.stats import cramervonmises_2samp
from SALib.analyze import rsa


def gen(rng):
    D = rdim(rng, 1, 4, 9)
    return {"p": rproblem(rng, D, groups=bool(rng.integers(3) == 0), wide=False), "N": int([rng.integers(2, 20), rng.integers(20, 120)][int(rng.integers(2))]), "bins": int(rng.integers(1, 21)), "t": "XY"[int(rng.integers(2))], "seed": seedint(rng), "kind": int(rng.integers(5))}


def check(a):
    p, D, N, B = a["p"], a["p"]["num_vars"], a["N"], a["bins"]
    g = np.random.default_rng(a["seed"])
    X = g.normal(size=(N, D)) * 3
    if a["kind"] == 1:
        X = np.round(X)
    elif a["kind"] == 2:
        X[:, 0] = 4.0
    Y = X.sum(axis=1) + g.normal(size=N)
    if a["kind"] == 3:
        Y = np.round(Y / 3)
    if a["kind"] == 4:
        Y[:] = 2.5
    Si = rsa.analyze(p, X, Y, bins=B, target=a["t"], seed=1)
    R = np.full((B, D), np.nan)
    for j in range(D):
        t, m = (X[:, j], Y) if a["t"] == "X" else (Y, X[:, j])
        q = np.quantile(t, np.linspace(0, 1, B + 1))
        n = 0
        for s in range(B):
            b = (t <= q[s + 1]) & (t > q[s] if s else t >= q[0])
            n += b.sum()
            if b.any() and not b.all() and len(set(Y[b])) > 1:
                R[s, j] = cramervonmises_2samp(m[b], m[~b]).statistic
        req(n == N, "bins partition the conditioning variable")
    gl, names = eff_groups(p)
    if gl:
        R = np.array([np.nanmean(R[:, [i for i in range(D) if gl[i] == n]], axis=1) for n in names]).T
    req(list(Si["names"]) == names and len(Si["bins"]) == B, "names and bins")
    close(Si["bins"], np.arange(B) / B, "bins", 1e-12)
    for k, n in enumerate(names):
        close(Si[n], R[:, k], f"{n}", 1e-9)
    df = Si.to_df()
    req(df.shape == (B, len(names)) and list(df.columns) == names, f"table {df.shape}")
    close(df.to_numpy(), R, "table", 1e-9)
    o = g.permutation(N)
    S2 = rsa.analyze(p, X[o], Y[o], bins=B, target=a["t"], seed=1)
    for n in names:
        close(S2[n], Si[n], "independent of the order of the pairs", 1e-9)


CHECKS = [{"name": "RSA", "gen": gen, "check": check, "n": 300}]
