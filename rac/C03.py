"""Executable contract of C03."""
from .lib import *
from SALib.sample import sobol, saltelli, sobol_sequence
from scipy.stats import qmc


def gen(rng):
    D = rdim(rng, 1, 6, 14)
    which = ["sobol", "saltelli"][int(rng.integers(2))]
    p = rproblem(rng, D, groups=bool(rng.integers(2)), wide=False)
    N = int(rng.integers(1, 20))
    sk = [0, 1, 3, 8, 16, None][int(rng.integers(6))]
    return {"which": which, "p": p, "N": N, "skip": sk, "second": bool(rng.integers(2)), "scramble": bool(rng.integers(2)), "seed": seedint(rng)}


def check(a):
    p, N, second = a["p"], a["N"], a["second"]
    D = p["num_vars"]
    b = np.array(p["bounds"])
    if a["which"] == "sobol":
        sk = a["skip"] or 0
        X = sobol.sample(dict(p), N, calc_second_order=second, skip_values=sk, scramble=a["scramble"], seed=a["seed"])
        e = qmc.Sobol(2 * D, scramble=a["scramble"], seed=a["seed"])
        if sk:
            e.fast_forward(sk)
        base = e.random(N)
    else:
        sk = a["skip"]
        X = saltelli.sample(dict(p), N, calc_second_order=second, **({} if sk is None else {"skip_values": sk}))
        if sk is None:
            sk = 16
            while sk < N:
                sk *= 2
        base = sobol_sequence.sample(N + sk, 2 * D)[sk:]
    sc = lambda u: u * (b[:, 1] - b[:, 0]) + b[:, 0]
    groups, gnames = eff_groups(p)
    G = [[j for j in range(D) if (groups[j] if groups else p["names"][j]) == g] for g in gnames]
    rows = []
    for i in range(N):
        A, B = base[i, :D], base[i, D:]
        rows.append(A)
        for cols in G:
            r = A.copy()
            r[cols] = B[cols]
            rows.append(r)
        if second:
            for cols in G:
                r = B.copy()
                r[cols] = A[cols]
                rows.append(r)
        rows.append(B)
    close(X, sc(np.array(rows)), "design rows A/AB/BA/B", 1e-10, 1e-12)
    req(len(X) == N * ((2 if second else 1) * len(gnames) + 2), "row count")


def gen_rej(rng):
    return {"which": ["sobol", "saltelli"][int(rng.integers(2))], "skip": [-1, -8, 2.5, "4"][int(rng.integers(4))], "N": int(rng.integers(1, 9))}


def check_rej(a):
    p = {"num_vars": 2, "names": ["a", "b"], "bounds": [[0, 1], [0, 1]]}
    if a["which"] == "saltelli" and not isinstance(a["skip"], int):
        return
    m = sobol if a["which"] == "sobol" else saltelli
    raises((ValueError, AssertionError, TypeError), lambda: m.sample(p, a["N"], skip_values=a["skip"]), "illegal skip_values")


CHECKS = [
    {"name": "design", "gen": gen, "check": check, "n": 240},
    {"name": "skip_values rejected", "gen": gen_rej, "check": check_rej, "n": 24},
]
