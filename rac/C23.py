"""Executable contract of C23."""
from .lib import *
from unittest import mock
from scipy.stats import norm
from SALib.analyze import delta


def gen(rng):
    return {"D": int(rng.integers(1, 4)), "N": int([rng.integers(20, 60), rng.integers(100, 400), 200][int(rng.integers(3))]), "R": int(rng.integers(2, 5)), "seed": seedint(rng), "yr": [None, 0.5, 0.8][int(rng.integers(3))], "method": ["sobol", "all", "delta"][int(rng.integers(3))], "conf": float(rng.uniform(0.2, 0.99)), "kind": int(rng.integers(4)), "bins": [None, None, 3, "edges", "maxedge"][int(rng.integers(5))]}


def classes(x, m):
    order = sorted(range(len(x)), key=lambda i: x[i])
    rank = np.empty(len(x), dtype=int)
    rank[order] = np.arange(1, len(x) + 1)
    return [np.array([i for i in range(len(x)) if m[j] < rank[i] <= m[j + 1]]) for j in range(len(m) - 1)]


def check(a):
    D, N, R = a["D"], a["N"], a["R"]
    g = np.random.default_rng(a["seed"])
    X = g.random((N, D)) * 2 - 0.5
    Y = (X ** 2).sum(axis=1) + 0.3 * g.normal(size=N)
    if a["kind"] == 1:
        Y = np.round(Y)
    if a["kind"] == 2:
        X[:, 0] = np.round(X[:, 0] * 20) / 20
    p = {"num_vars": D, "names": [f"x{i}" for i in range(D)], "bounds": [[-0.5, 1.5]] * D}
    n = N if a["yr"] is None else int(N * a["yr"])
    bs = {}
    if a["bins"] == 3:
        bs = {"x0": 3}
    elif a["bins"] == "edges":
        bs = {"x0": [0.0, 0.5, 1.0]}
    elif a["bins"] == "maxedge":
        bs = {"x0": [0.2, float(X[:, 0].max())]}
    log = {"delta": [], "sobol": [], "draw": []}
    rd, rs, ro = delta.calc_delta, delta.sobol_first, delta.obtain_resampled_subset

    def sd(Y_, grid, X_, m):
        r = rd(Y_, grid, X_, m)
        log["delta"].append((Y_, X_, m, r))
        return r

    def ss(Y_, X_, m):
        r = rs(Y_, X_, m)
        log["sobol"].append((Y_, X_, m, r))
        return r

    def so(*b, **k):
        r = ro(*b, **k)
        log["draw"].append(r)
        return r
    with mock.patch.multiple(delta, calc_delta=sd, sobol_first=ss, obtain_resampled_subset=so):
        Si = delta.analyze(p, X, Y, num_resamples=R, conf_level=a["conf"], seed=a["seed"] % 9999, y_resamples=None if a["yr"] is None else n, method=a["method"], bins_specs=bs)
    for r in log["draw"]:
        req(len(r) == n and r.min() >= 0 and r.max() < N, f"a resample draws {n} points of the sample, got {len(r)}", key="draw")
    z = norm.ppf((1 + a["conf"]) / 2)
    for Y_, X_, m, r in (log["sobol"] + log["delta"])[:6]:
        req(len(Y_) == n, f"{n} points are analysed, got {len(Y_)}", key="draw")
        cl = classes(X_, m)
        sz = [len(c) for c in cl]
        req(sum(sz) == n and max(sz) - min(sz) <= 1, f"rank classes contain every point once, sizes {sz}", key="classes")
    for Y_, X_, m, r in log["sobol"]:
        if np.ptp(Y_) == 0:
            req(r == 0, "constant output")
            continue
        cl = classes(X_, m)
        s = sum(len(c) / n * (Y_[c].mean() - Y_.mean()) ** 2 for c in cl) / Y_.var()
        close(r, s, "S1 is between-class over total variance", 1e-8)
        req(-1e-12 <= r <= 1 + 1e-12, "0 <= S1 <= 1")
    if a["method"] != "delta":
        S = [x[3] for x in log["sobol"]]
        if len(S) == D * (1 + R):
            for i in range(D):
                s = S[i * (1 + R):(i + 1) * (1 + R)]
                close(Si["S1"][i], s[0], "S1")
                close(Si["S1_conf"][i], z * np.std(s[1:], ddof=1), "S1_conf")
    if a["method"] != "sobol":
        # each estimate that came out is the bias-reduced combination of one draw and R bootstrap draws
        d = [x[3] for x in log["delta"]]
        k = 0
        for i in range(D):
            for mode in ("balanced", "raw", "step"):
                v = Si[f"delta_{mode}"][i]
                if np.isnan(v):
                    continue
                found = False
                for j in range(k, len(d) - R):
                    if abs(2 * d[j] - np.mean(d[j + 1:j + 1 + R]) - v) < 1e-9 and abs(z * np.std(d[j + 1:j + 1 + R], ddof=1) - Si[f"delta_{mode}_conf"][i]) < 1e-9:
                        found, k = True, j + 1 + R
                        break
                req(found, f"delta_{mode}[{i}] is twice an estimate minus the bootstrap mean, its half-width the quantile times their standard deviation", key="bias")


CHECKS = [{"name": "delta", "gen": gen, "check": check, "n": 200}]
