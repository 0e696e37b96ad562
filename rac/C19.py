"""Executable contract of C19: parallel equals serial."""
from .lib import *
import contextlib
import time
from SALib import ProblemSpec
from SALib.analyze import delta, sobol as asobol, dgsm, pawn
import SALib.util.problem as P
WORKERS = 3


def model1(X, a=1.0, b=0.0):
    if len(X) and X[0, 0] > 0.5:
        time.sleep(0.01 * X[0, 0])  # completion order differs from submission order
    return a * X[:, 0] + b * X[:, -1] ** 2


def model2(X, a=1.0, b=0.0):
    if len(X):
        time.sleep(0.02 * X[0, 0])
    return np.column_stack([a * X[:, 0], b * X[:, -1], X.sum(axis=1)])


@contextlib.contextmanager
def bar():
    """p_tqdm.p_imap: the results one by one, in order"""
    old = P.ptqdm_available, getattr(P, "p_imap", None)
    P.ptqdm_available, P.p_imap = True, lambda fn, xs, num_cpus=None: (fn(x) for x in xs)
    try:
        yield
    finally:
        P.ptqdm_available, P.p_imap = old


def gen(rng):
    return {"N": int([rng.integers(1, 9), rng.integers(1, 40), rng.integers(1, 300)][int(rng.integers(3))]), "D": int(rng.integers(2, 5)), "np": int(rng.integers(2, 9)), "multi": bool(rng.integers(2)), "seed": seedint(rng), "extra": int(rng.integers(3)), "how": int(rng.integers(4)), "perm": bool(rng.integers(2))}


def check(a):
    g = np.random.default_rng(a["seed"])
    D = a["D"]
    X = g.random((a["N"], D))
    X0 = X.copy()
    mk = lambda: ProblemSpec({"names": [f"x{i}" for i in range(D)], "bounds": [[0.0, 1.0]] * D}).set_samples(X)
    f = model2 if a["multi"] else model1
    args, kw = [((), {}), ((2.0,), {}), ((2.0,), {"b": -3.0})][a["extra"]]
    want = mk().evaluate(f, *args, **kw).results
    sp = mk()
    if a["how"] == 0:
        sp.evaluate(f, *args, nprocs=a["np"], **kw)
    elif a["how"] == 1:
        sp.evaluate_parallel(f, *args, nprocs=a["np"], **kw)
    elif a["how"] == 3:
        # the progress-bar variant with a stand-in for p_tqdm
        with bar():
            sp.evaluate(f, *args, nprocs=a["np"], **kw)
    else:
        # distributed evaluation with a local stand-in for the cluster pool

        class PoolStub:
            def __init__(self, nprocs, servers=None):
                pass

            def map(self, fn, chunks):
                return [fn(c) for c in chunks]

            def clear(self):
                pass
        old = P.pp_Pool if hasattr(P, "pp_Pool") else None
        P.pp_Pool, P.pathos_available = PoolStub, True
        try:
            sp.evaluate_distributed(f, *args, nprocs=max(1, a["np"] // 2), servers=["a", "b"], **kw)
        finally:
            if old is not None:
                P.pp_Pool = old
    close(sp.results, want, "parallel results are the serial results, row for row", 1e-14, 0)
    req((X == X0).all() and np.array_equal(sp.samples, X0), "the samples stay")
    req(list(sp["outputs"]) == (["Y1", "Y2", "Y3"] if a["multi"] else ["Y"]), "outputs")


def gen_c(rng):
    n = int(rng.integers(1, 10))
    return {"lens": [int(x) for x in rng.integers(0, 5, size=n)], "dims": int(rng.integers(1, 4)), "seed": seedint(rng)}


def check_c(a):
    g = np.random.default_rng(a["seed"])
    lens = list(a["lens"])
    lens[0] = max(1, lens[0])
    tail = [(), (3,), (2, 2)][a["dims"] - 1]
    res = [g.normal(size=(k, *tail)) for k in lens]
    sp = ProblemSpec({"names": ["a", "b"], "bounds": [[0, 1]] * 2})
    sp.samples = g.random((sum(lens), 2))
    close(sp._collect_results(res), np.concatenate(res), "chunks are stitched in order", 0, 0)


def gen_a(rng):
    return {"q": int(rng.integers(1, 6)), "np": int(rng.integers(1, 9)), "seed": seedint(rng), "m": int(rng.integers(3))}


def check_a(a):
    g = np.random.default_rng(a["seed"])
    D, q = 3, a["q"]
    N = 48
    X = g.random((N, D))
    R = g.normal(size=(N, q)) + X[:, :1] * np.arange(1, q + 1)
    R = R if q > 1 else R[:, 0]
    mk = lambda: ProblemSpec({"names": list("abc"), "bounds": [[0.0, 1.0]] * D, "outputs": [f"o{(i * 7) % q}" for i in range(q)]}).set_samples(X).set_results(R)
    m, kw = [(pawn.analyze, dict(S=4, seed=a["seed"] % 99)), (delta.analyze, dict(num_resamples=2, seed=a["seed"] % 99)), (asobol.analyze, dict(num_resamples=4, seed=a["seed"] % 99))][a["m"]]
    s, p = mk(), mk()
    s.analyze(m, **kw)
    if a["seed"] % 3 == 2:
        with bar():
            p.analyze(m, nprocs=a["np"], **kw)
    elif a["seed"] % 3:
        p.analyze(m, nprocs=a["np"], **kw)
    else:
        p.analyze_parallel(m, nprocs=a["np"], **kw)
    for o in s["outputs"]:
        A, B = (s.analysis[o], p.analysis[o]) if q > 1 else (s.analysis, p.analysis)
        req(sorted(A) == sorted(B), "same entries")
        for k in A:
            v = np.asarray(A[k], dtype=object)
            if k != "names" and np.asarray(A[k]).dtype.kind == "f":
                close(B[k], A[k], f"{o}: {k}", 1e-12, 0)
    if q > 1:
        req(list(p.analysis) == list(s.analysis), "one result per output, in order")


CHECKS = [{"name": "parallel evaluation", "gen": gen, "check": check, "n": 90}, {"name": "stitching", "gen": gen_c, "check": check_c, "n": 300}, {"name": "parallel analysis", "gen": gen_a, "check": check_a, "n": 24}]
