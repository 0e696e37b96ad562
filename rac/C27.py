"""Executable contract of C27."""
from .lib import *
import math
from SALib.test_functions import Ishigami, Sobol_G, linear_model_1, linear_model_2, lake_problem, oakley2004


def gen(rng):
    return {"f": int(rng.integers(6)), "N": int([1, rng.integers(1, 6), rng.integers(1, 60)][int(rng.integers(3))]), "D": int(rng.integers(1, 9)), "seed": seedint(rng), "opt": int(rng.integers(4)), "edge": bool(rng.integers(2)), "int": bool(rng.integers(2))}


def check(a):
    g = np.random.default_rng(a["seed"])
    N, D = a["N"], a["D"]
    f = a["f"]
    if f == 0:
        X = g.normal(size=(N, 3)) * 3
        A, B = (7.0, 0.1) if a["opt"] % 2 else (float(g.normal()), float(g.normal()))
        fn = (lambda V: Ishigami.evaluate(V)) if a["opt"] % 2 else (lambda V: Ishigami.evaluate(V, A, B))
        ref = [math.sin(r[0]) + A * math.sin(r[1]) ** 2 + B * r[2] ** 4 * math.sin(r[0]) for r in X]
    elif f == 1:
        if a["opt"] == 0:
            D, c, dl, al = 8, np.array([0, 1, 4.5, 9, 99, 99, 99, 99]), np.zeros(8), np.ones(8)
            fn = lambda V: Sobol_G.evaluate(V)
        else:
            c = g.random(D) * [1, 10, 0][a["opt"] - 1] + (a["opt"] == 3)
            dl, al = g.random(D), g.random(D) * 2 + 0.1
            if a["edge"]:
                dl[0], dl[-1] = 0.0, 1.0
            if a["opt"] == 1:
                al = np.ones(D)
                fn = lambda V: Sobol_G.evaluate(V, c, delta=dl)
            elif a["opt"] == 2:
                dl = np.zeros(D)
                fn = lambda V: Sobol_G.evaluate(V, c, alpha=al)
            else:
                fn = lambda V: Sobol_G.evaluate(V, c, dl, al)
        X = g.random((N, D))
        if a["edge"]:
            X[0, :] = np.round(X[0, :])
        ref = [math.prod(((1 + al[j]) * abs(2 * (r[j] + dl[j] - math.floor(r[j] + dl[j])) - 1) ** al[j] + c[j]) / (1 + c[j]) for j in range(D)) for r in X]
    elif f == 2:
        X = g.normal(size=(N, 5))
        fn, ref = linear_model_1.evaluate, [math.fsum(r) for r in X]
    elif f == 3:
        X = g.normal(size=(N, 5))
        fn, ref = linear_model_2.evaluate, [5 * r[0] + 4 * r[1] + 3 * r[2] + 2 * r[3] + r[4] for r in X]
    elif f == 4:
        A, M = g.normal(size=(3, D)), g.normal(size=(D, D))
        X = g.normal(size=(N, D))
        fn = lambda V: oakley2004.evaluate(V, A, M)
        ref = [sum(A[0, j] * r[j] + A[1, j] * math.sin(r[j]) + A[2, j] * math.cos(r[j]) for j in range(D)) + sum(M[i, j] * r[i] * r[j] for i in range(D) for j in range(D)) for r in X]
    else:
        X = g.random((N, 5)) * [1, 0.1, 2, 0.4, 0.05] + [0, 0, 2, 0.05, 0]
        fn = lambda V: lake_problem.lake_problem(V[:, 0], V[:, 1], V[:, 2], V[:, 3], V[:, 4])
        ref = [r[0] + r[1] + r[0] ** r[2] / (1 + r[0] ** r[2]) - r[3] * r[0] + r[4] for r in X]
    X0 = X.copy()
    if a.get("int"):
        # corner / integer points handed over as an integer array: same values as for the same points as floats
        Z = np.round(X).astype([np.int64, np.int32][a["seed"] % 2]) if f != 5 else np.round(X).astype(int) + 0
        if f == 5:
            Z[:, 2] = np.maximum(Z[:, 2], 1)
        close(fn(Z), fn(Z.astype(float)), f"function {f} of integer inputs", 1e-12, 1e-12)
        F32 = np.asfortranarray(Z.astype(float))
        close(fn(F32), fn(Z.astype(float)), f"function {f}: memory layout", 1e-12, 1e-12)
    Y = fn(X)
    req((X == X0).all(), "the input array is not modified")
    close(Y, ref, f"function {f}", 1e-9, 1e-11)
    k = g.permutation(N)[: max(1, N // 2)]
    close(fn(X[k]), np.asarray(Y)[k], "a row's value does not depend on the others", 1e-12, 1e-13)


def gen_l(rng):
    return {"N": int(rng.integers(1, 6)), "seed": seedint(rng)}


def check_l(a):
    g = np.random.default_rng(a["seed"])
    lo, hi = np.array([0.0, 2, .1, .01, .001, .93, .2]), np.array([.1, 4.5, .45, .05, .005, .99, .5])
    X = lo + g.random((a["N"], 7)) * (hi - lo)
    X0 = X.copy()
    Y = lake_problem.evaluate(X, nvars=100, seed=5)
    req((X == X0).all() and Y.shape == (a["N"], 4), "one row of four outputs per input row")
    for i in range(a["N"]):
        close(lake_problem.evaluate(X[i:i + 1], nvars=100, seed=5)[0], Y[i], "rows independent", 1e-12)
        al, aa, de = X[i, 6], X[i, 0], X[i, 5]
        close(Y[i, 1], sum(al * aa * de ** t for t in range(100)), "utility", 1e-9)
        req(Y[i, 2] == (0.01 if aa < 0.02 else 0.0), "inertia")


def gen_e(rng):
    return {"D": int(rng.integers(1, 7)), "seed": seedint(rng), "k": int(rng.integers(9)), "al": bool(rng.integers(2))}


def check_e(a):
    g = np.random.default_rng(a["seed"])
    D = a["D"]
    X = g.random((4, D))
    c = g.random(D) * 10
    al = g.random(D) + 0.3 if a["al"] else None
    k = a["k"]
    j = int(g.integers(D))
    i = int(g.integers(4))
    eps = 10.0 ** -float(g.integers(0, 6))
    if k == 0:
        X[i, j] = -eps
        raises(ValueError, lambda: Sobol_G.evaluate(X, c), "values below zero")
    elif k == 1:
        X[i, j] = 1 + eps
        raises(ValueError, lambda: Sobol_G.evaluate(X, c), "values above one")
    elif k == 2:
        raises(TypeError, lambda: Sobol_G.evaluate(X.tolist(), c), "values no array")
    elif k == 3:
        d = g.random(D)
        d[j] = [-eps, 1 + eps][i % 2]
        raises(ValueError, lambda: Sobol_G.evaluate(X, c, delta=d), "delta outside [0, 1]")
    elif k == 4:
        d = g.random(D) + 0.1
        d[j] = [0.0, -eps][i % 2]
        raises(ValueError, lambda: Sobol_G.evaluate(X, c, alpha=d), "alpha not positive")
    elif k == 5:
        raises(TypeError, lambda: Sobol_G.evaluate(X, c, delta=[0.1] * D), "delta no array")
        raises(TypeError, lambda: Sobol_G.evaluate(X, c, alpha=[0.1] * D), "alpha no array")
    elif k == 6:
        if D > 1:
            raises(ValueError, lambda: Sobol_G.evaluate(X, np.append(c, [1.0, 2.0])), "wrong parameter length")
    else:
        A = np.ones(D) if al is None else al
        pv = A ** 2 / ((1 + 2 * A) * (1 + c) ** 2)
        V = np.prod(1 + pv) - 1
        s1 = Sobol_G.sensitivity_index(c, al)
        st = Sobol_G.total_sensitivity_index(c, al)
        close(s1, pv / V, "first order", 1e-9)
        close(st, [pv[z] * np.prod([1 + pv[y] for y in range(D) if y != z]) / V for z in range(D)], "total", 1e-9)
        req(s1.sum() <= 1 + 1e-9 and (s1 >= 0).all() and (st >= s1 - 1e-12).all(), "sum of first order at most one")


CHECKS = [{"name": "formulas", "gen": gen, "check": check, "n": 800}, {"name": "lake evaluate", "gen": gen_l, "check": check_l, "n": 60}, {"name": "Sobol-G domain and indices", "gen": gen_e, "check": check_e, "n": 600}]
