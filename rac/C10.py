"""Executable contract of C10."""
from .lib import *
from SALib.sample import morris as ms
from SALib.analyze import morris as ma
from scipy.stats import norm


def gen(rng):
    D = rdim(rng, 1, 5, 14)
    return {"p": rproblem(rng, D, groups=bool(rng.integers(2)), wide=False), "N": int(rng.integers(2, 9)), "L": int([2, 4, 6, 8][int(rng.integers(4))]), "seed": seedint(rng),
            "scaled": bool(rng.integers(3) == 0), "conf": float(rng.uniform(0.1, 0.99)), "R": int(rng.integers(2, 20)), "const": bool(rng.integers(8) == 0), "ysc": int([0, 0, rng.integers(-14, 14)][int(rng.integers(3))])}


def check(a):
    p, N, L = a["p"], a["N"], a["L"]
    D = p["num_vars"]
    X = ms.sample(dict(p), N, num_levels=L, seed=a["seed"])
    g = p.get("groups") or p["names"]
    names = uniq(g)
    G = len(names)
    rng = np.random.default_rng(a["seed"])
    Y = rng.normal(size=N * (G + 1)) * 10
    if a["const"]:
        Y[:G + 1] = 2.5
    Y *= 10.0 ** a["ysc"]
    Si = ma.analyze(dict(p), X.copy(), Y.copy(), num_levels=L, scaled=a["scaled"], conf_level=a["conf"], num_resamples=a["R"], seed=a["seed"])
    delta = L / (2 * (L - 1))
    EE = np.zeros((D, N))
    for t in range(N):
        xs, ys = X[t * (G + 1):(t + 1) * (G + 1)], Y[t * (G + 1):(t + 1) * (G + 1)]
        for j in range(D):
            mv = [s for s in range(G) if xs[s + 1, j] != xs[s, j]]
            req(len(mv) == 1, "design")
            s = mv[0]
            dx = xs[s + 1, j] - xs[s, j]
            e = (ys[s + 1] - ys[s]) * (1 if dx > 0 else -1)
            if a["scaled"]:
                sy = np.std(ys)
                EE[j, t] = e / abs(dx) * np.std(xs[:, j]) / sy if sy != 0 else 0.0
            else:
                EE[j, t] = e / delta
    req(list(Si["names"]) == names, f"names {list(Si['names'])}")
    mu, ms_, sd = EE.mean(axis=1), np.abs(EE).mean(axis=1), EE.std(axis=1, ddof=1)
    boot = np.random.default_rng(a["seed"])
    q = norm.ppf((1 + a["conf"]) / 2)
    cf = []
    for j in range(D):
        r = boot.integers(N, size=(a["R"], N))
        cf.append(q * np.abs(EE[j][r]).mean(axis=1).std(ddof=1))
    cf = np.array(cf)
    for i, nm in enumerate(names):
        mem = [j for j in range(D) if g[j] == nm]
        for key, arr in (("mu", mu), ("mu_star", ms_), ("mu_star_conf", cf)):
            close(float(Si[key][i]), float(arr[mem].mean()), f"{key} of {nm}", 1e-8, 1e-9 if a["scaled"] else 1e-9 * 10.0 ** min(0, a["ysc"]))
        if len(mem) == 1:
            close(float(Si["sigma"][i]), float(sd[mem[0]]), f"sigma of {nm}", 1e-8, 1e-9 if a["scaled"] else 1e-9 * 10.0 ** min(0, a["ysc"]))
        else:
            req(np.isnan(Si["sigma"][i]), "sigma of a group is NaN")


CHECKS = [{"name": "elementary effects", "gen": gen, "check": check, "n": 400}]
