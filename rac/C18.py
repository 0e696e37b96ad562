"""Executable contract of C18: random histories of a problem specification."""
from .lib import *
from SALib import ProblemSpec
from SALib.sample import latin, sobol as ssobol, finite_diff
from SALib.analyze import delta, pawn, rsa, sobol as asobol, dgsm, rbd_fast

OPS = ["sample", "set_samples", "set_samples_bad", "evaluate", "evaluate", "set_results", "set_results", "set_results_rows", "set_results_cols", "analyze", "analyze", "analyze", "attr_samples", "attr_results"]


def gen(rng):
    D = int(rng.integers(2, 5))
    q = int(rng.integers(1, 4))
    n = int(rng.integers(1, 10))
    ops = [[OPS[int(rng.integers(len(OPS)))], int(rng.integers(10**6))] for _ in range(n)]
    if rng.integers(2):
        ops = [["sample", 1], ["evaluate", 2]] + ops
    return {"D": D, "q": q, "ops": ops, "named": bool(rng.integers(2)), "twod": bool(rng.integers(2))}


def check(a):
    D, q = a["D"], a["q"]
    d = {"names": [f"x{i}" for i in range(D)], "bounds": [[0.0, 1.0 + i] for i in range(D)]}
    outs = [f"o{i}" for i in range(q)] if a["named"] else (["Y"] if q == 1 else [f"Y{i+1}" for i in range(q)])
    if a["named"]:
        d["outputs"] = list(outs)
    sp = ProblemSpec(d)
    S = R = A = None  # the specified state

    def model(g, n):
        y = g.normal(size=(n, q))
        return y if q > 1 else y[:, 0]

    for op, sd in a["ops"]:
        g = np.random.default_rng(sd)
        n = 24
        if op == "sample":
            r = sp.sample(latin.sample, n, seed=sd)
            req(r is sp, "sample returns the specification")
            S, R, A = latin.sample(ProblemSpec(d), n, seed=sd), None, None
        elif op in ("set_samples", "attr_samples"):
            S = g.random((n + int(sd % 3), D))
            if op == "set_samples":
                req(sp.set_samples(S) is sp, "set_samples returns the specification")
            else:
                sp.samples = S
            R = A = None
        elif op == "set_samples_bad":
            raises(Exception, lambda: sp.set_samples(g.random((n, D + 1 + sd % 2 if sd % 3 else D - 1))), "samples of the wrong width")
        elif op == "evaluate":
            seen = []
            if S is not None:
                Y = model(g, len(S))

            def f(X, k, kw=None):
                seen.append((X, k, kw))
                return Y
            if S is None:
                raises(Exception, lambda: sp.evaluate(lambda X, *b, **c: np.zeros(3), 5, kw=6), "evaluating before sampling", key="eval-first")
            else:
                sp.evaluate(f, 5, kw=6)
                req(len(seen) == 1 and np.array_equal(seen[0][0], S) and seen[0][1:] == (5, 6), "the function is called once on the stored samples with the extra arguments")
                R, A = Y, None
        elif op in ("set_results", "attr_results"):
            nn = len(S) if S is not None else n
            R = model(g, nn)
            if op == "set_results":
                req(sp.set_results(R) is sp, "set_results returns the specification")
            else:
                sp.results = R
            A = None
        elif op == "set_results_rows":
            if S is not None:
                raises(Exception, lambda: sp.set_results(model(g, len(S) + (1 if sd % 2 else -1))), "results with another number of rows")
        elif op == "set_results_cols":
            nn = len(S) if S is not None else n
            if "outputs" in sp:
                k = sd % 3
                if k == 0 or q == 1:
                    bad = g.normal(size=(nn, q + 1))
                elif k == 1:
                    bad = g.normal(size=(nn, q - 1))
                else:
                    bad = g.normal(size=nn)
                raises(Exception, lambda: sp.set_results(bad), f"results of shape {bad.shape} for {q} outputs")
        else:
            m = [rsa, pawn, delta][sd % 3]
            kw = [dict(bins=4, seed=sd % 50), dict(S=3, seed=sd % 50), dict(num_resamples=2, seed=sd % 50)][sd % 3]
            if R is None:
                raises(Exception, lambda: sp.analyze(m.analyze, **kw), "analysing before evaluating", key="analyze-first")
            elif S is None:
                continue
            else:
                if len(R) != len(S):
                    continue
                calls = []

                def an(problem, X, Y, k, kw=None):
                    calls.append((problem, X, Y, k, kw))
                    return {"i": len(calls)}
                if sd % 2:
                    sp.analyze(an, k=3, kw=4)
                    req(len(calls) == q and all(c[0] is sp and np.array_equal(c[1], S) and c[3:] == (3, 4) for c in calls), "one call per output with the stored samples and the options")
                    for i in range(q):
                        req(np.array_equal(calls[i][2], R[:, i] if q > 1 else R), f"output {i} gets its own column")
                    want = {o: {"i": i + 1} for i, o in enumerate(outs)} if q > 1 else {"i": 1}
                    req(sp.analysis == want, "the analysis is stored per output name")
                    A = want
                else:
                    sp.analyze(m.analyze, **kw)
                    p2 = dict(num_vars=D, names=d["names"], bounds=d["bounds"], groups=None)
                    for i, o in enumerate(outs):
                        got = sp.analysis[o] if q > 1 else sp.analysis
                        Si = m.analyze(dict(p2), S, R[:, i] if q > 1 else R, **kw)
                        req(sorted(got) == sorted(Si), "the method's result is stored")
                        for k in Si:
                            if k != "names" and np.asarray(Si[k]).dtype.kind == "f":
                                close(got[k], Si[k], f"{o}: {k}")
                    A = sp.analysis
        # observable state
        req((sp.samples is None) == (S is None) and (S is None or np.array_equal(sp.samples, S)), f"after {op}: stored samples", key="samples")
        req((sp.results is None) == (R is None) and (R is None or np.array_equal(sp.results, R)), f"after {op}: stored results", key="results")
        req((sp.analysis is None) == (A is None) and (A is None or sp.analysis is A or sp.analysis == A), f"after {op}: stored analysis", key="analysis")
        if R is not None:
            req(list(sp["outputs"]) == outs, "output names")


CHECKS = [{"name": "histories", "gen": gen, "check": check, "n": 600}]
