"""Executable contract of C11."""
from .lib import *
import math
from SALib.sample import fast_sampler


def gen(rng):
    M = int(rng.integers(1, 7))
    N = 4 * M * M + 1 + int([0, rng.integers(0, 20), rng.integers(0, 400)][int(rng.integers(3))])
    return {"p": rproblem(rng, int(rng.integers(1, 8)), wide=False), "N": N, "M": M, "seed": seedint(rng)}


def check(a):
    p, N, M = a["p"], a["N"], a["M"]
    D = p["num_vars"]
    X = fast_sampler.sample(dict(p), N, M=M, seed=a["seed"])
    req(X.shape == (N * D, D), f"N*D rows, got {X.shape}")
    b = np.array(p["bounds"])
    U = (X - b[:, 0]) / (b[:, 1] - b[:, 0])
    req((U > -1e-9).all() and (U < 1 + 1e-9).all(), "inside the bounds")
    w0 = (N - 1) // (2 * M)
    m = w0 // (2 * M)
    comp = [math.floor(1 + (m - 1) * k / (D - 2)) if D > 2 else 1 for k in range(D - 1)] if m >= D - 1 else [k % m + 1 for k in range(D - 1)]
    if m >= D - 1 and D > 1:
        comp = [int(x) for x in np.floor(np.linspace(1, m, D - 1))]
    req(all(1 <= c <= max(1, w0 // (2 * M)) for c in comp), "complementary frequencies in range")
    s = 2 * math.pi * np.arange(N) / N
    rng = np.random.default_rng(a["seed"])
    for i in range(D):
        phi = 2 * math.pi * rng.random()
        w = comp[:i] + [w0] + comp[i:]
        for j in range(D):
            ref = 0.5 + np.arcsin(np.sin(w[j] * s + phi)) / math.pi
            close(U[i * N:(i + 1) * N, j], ref, f"block {i} parameter {j} follows the search curve", 1e-6, 1e-6)


def check_rej(a):
    p = {"num_vars": 2, "names": ["a", "b"], "bounds": [[0, 1], [0, 1]]}
    raises(ValueError, lambda: fast_sampler.sample(p, a["N"], M=a["M"], seed=1), f"N={a['N']} <= 4*{a['M']}^2")


CHECKS = [{"name": "search curve", "gen": gen, "check": check, "n": 300},
          {"name": "too few samples", "edge": [{"N": n, "M": M} for M in (1, 2, 4, 7) for n in (1, 4 * M * M - 1, 4 * M * M)], "check": check_rej, "n": 0}]
