"""Executable contract of C21: the command line is the library call its options describe."""
from .lib import *
import importlib
import inspect
import json as _json
import tempfile
from unittest import mock
from SALib.util import read_param_file
from SALib.scripts import salib as cli

SAMP = {
    "sobol": [("--max-order", "calc_second_order", [1, 2], lambda v: v == 2, True), ("--scramble", "scramble", [0, 1], None, True), ("--skip-values", "skip_values", [0, 4, 16], None, 0), ("--seed", "seed", "seed", None, None)],
    "saltelli": [("--max-order", "calc_second_order", [1, 2], lambda v: v == 2, True), ("--skip-values", "skip_values", [0, 16, 32], None, None)],
    "latin": [("--seed", "seed", "seed", None, None)],
    "morris": [("--levels", "num_levels", [4, 6, 8], None, 4), ("--k-optimal", "optimal_trajectories", [2, 3], None, None), ("--local", "local_optimization", ["True", "False", "0", "1", "no"], lambda v: str(v).lower() not in ("false", "0", "no"), "req"), ("--seed", "seed", "seed", None, None)],
    "fast_sampler": [("--m-coef", "M", [1, 2, 3, 4], None, 4), ("--seed", "seed", "seed", None, None)],
    "finite_diff": [("--delta", "delta", [0.01, 0.05, 0.002], None, 0.01), ("--seed", "seed", "seed", None, None)],
    "ff": [("--seed", "seed", "seed", None, None)],
}
tf = ["True", "False"]
isT = lambda v: v == "True"
yes = lambda v: str(v).lower() not in ("false", "0", "no")
ANA = {
    "sobol": (0, [("--max-order", "calc_second_order", [1, 2], lambda v: v == 2, True), ("--resamples", "num_resamples", [3, 17], None, 100), ("--parallel", "parallel", "flag", None, False), ("--processors", "n_processors", [2, 5], None, None)]),
    "morris": (1, [("--resamples", "num_resamples", [3, 17], None, 1000), ("--levels", "num_levels", [4, 6], None, 4), ("--scaled", "scaled", ["True", "False", "0", "1"], yes, False)]),
    "fast": (0, [("--M", "M", [1, 2, 4], None, 4), ("--resamples", "num_resamples", [3, 17], None, 100)]),
    "rbd_fast": (1, [("--M", "M", [1, 2, 4], None, 10), ("--resamples", "num_resamples", [3, 17], None, 100)]),
    "delta": (1, [("--resamples", "num_resamples", [3, 17], None, 10), ("--method", "method", ["delta", "sobol", "all"], None, "all"), ("--y_resamples", "y_resamples", [20, 30], None, None), ("--bins_specs", "bins_specs", ['{"x0": 4}', '{"x1": [0.1, 0.5]}'], _json.loads, {})]),
    "dgsm": (1, [("--resamples", "num_resamples", [3, 17], None, 1000)]),
    "discrepancy": (1, []),
    "ff": (1, [("--max-order", "second_order", [1, 2], lambda v: v == 2, True)]),
    "pawn": (1, [("--slices", "S", [2, 7], None, 10)]),
    "rsa": (1, [("--bins", "bins", [3, 9], None, 20), ("--target", "target", ["X", "Y"], None, "Y")]),
    "hdmr": (1, [("--maxorder", "maxorder", [1, 2, 3], None, 2), ("--maxiter", "maxiter", [5, 50], None, 100), ("--m-int", "m", [2, 3], None, 2), ("--K-bootstrap", "K", [1, 4], None, 20), ("--R-subsample", "R", [300, 310], None, None), ("--alpha", "alpha", [0.9, 0.99], None, 0.95), ("--lambdax", "lambdax", [0.1, 0.5], None, 0.01)]),
    "enhanced_hdmr": (1, [("--max-order", "max_order", [1, 2, 3], None, "req"), ("--poly-order", "poly_order", [2, 3], None, "req"), ("--bootstrap", "bootstrap", [1, 4], None, 20), ("--subset", "subset", [300, 310], None, None), ("--max-iter", "max_iter", [5, 50], None, 100), ("--l2-penalty", "l2_penalty", [0.1, 0.5], None, 0.01), ("--alpha", "alpha", [0.9, 0.99], None, 0.95), ("--extended-base", "extended_base", tf, isT, "req"), ("--print-to-console", "print_to_console", tf, isT, False), ("--return-emulator", "return_emulator", tf, isT, False)]),
}


def paramfile(t, D, groups):
    rows = [f"x{i},{-1.5 + i},{2.25 * (i + 1)}" + (f",{groups[i]},unif" if groups else "") for i in range(D)]
    fn = os.path.join(t, "p.txt")
    open(fn, "w").write("\n".join(rows) + "\n")
    return fn


def pick(rng, opts):
    out = []
    for o, kw, vals, conv, dflt in opts:
        if dflt != "req" and rng.integers(2):
            continue
        if vals == "flag":
            out.append([o, kw, None])
        else:
            v = int(rng.integers(0, 3) if rng.integers(2) else rng.integers(10**6)) if vals == "seed" else vals[int(rng.integers(len(vals)))]
            out.append([o, kw, v])
    rng.shuffle(out)
    return [[str(a), str(b), (v.item() if hasattr(v, "item") else v)] for a, b, v in out]


def gen_s(rng):
    ms = sorted(SAMP)
    m = ms[int(rng.integers(len(ms)))]
    return {"m": m, "opts": pick(rng, SAMP[m]), "prec": int([8, 3, 12][int(rng.integers(3))]), "delim": [" ", ",", ";"][int(rng.integers(3))], "D": int(rng.integers(1, 5)), "grp": bool(rng.integers(3) == 0), "N": int(2 ** rng.integers(2, 4)), "short": bool(rng.integers(2))}


def run(argv, main=True):
    with mock.patch("sys.argv", ["salib"] + argv):
        cli.main()


def check_s(a):
    m = a["m"]
    mod = importlib.import_module("SALib.sample." + m)
    tab = {o: (kw, vals, conv, d) for o, kw, vals, conv, d in SAMP[m]}
    D = a["D"]
    N = 70 if m == "fast_sampler" else a["N"]
    with tempfile.TemporaryDirectory() as t:
        pf = paramfile(t, D, ["g1", "g2", "g1", "g3"] if a["grp"] and D > 1 else None)
        kw = {}
        argv = ["sample", m, "-n", str(N), "-p", pf, "-o", os.path.join(t, "o.txt"), "--precision", str(a["prec"]), "--delimiter=" + a["delim"]]
        for o, k, v in a["opts"]:
            conv = tab[o][2]
            kw[k] = conv(v) if conv else v
            o2 = {"--seed": "-s", "--levels": "-l", "--m-coef": "-M", "--delta": "-d", "--local": "-lo", "--k-optimal": "-k"}.get(o, o) if a["short"] else o
            argv += [o2, str(v)]
        if "optimal_trajectories" in kw and kw["optimal_trajectories"] >= N:
            kw.pop("optimal_trajectories")
            i = [j for j, z in enumerate(argv) if z in ("-k", "--k-optimal")][0]
            del argv[i:i + 2]
        seen = []
        real = mod.sample
        if "seed" not in kw and "seed" in [x[1] for x in SAMP[m]]:
            argv += ["--seed", "0"]
            kw["seed"] = 0
        run(argv)
        got = np.loadtxt(os.path.join(t, "o.txt"), delimiter=a["delim"], ndmin=2)
        txt = open(os.path.join(t, "o.txt")).readline()
        prob = read_param_file(pf)
        for o, k, vals, conv, d in SAMP[m]:
            if k not in kw and k != "seed" and d != "req":
                kw[k] = d
        want = mod.sample(prob, *([] if m == "ff" else [N]), **kw)
    req(got.shape == want.shape, f"{m} {argv[5:]}: shape {got.shape} != {want.shape}", key=m)
    w = np.array([[float(f"{x:.{a['prec']}e}") for x in r] for r in want])
    req((got == w).all(), f"{m} {argv[8:]}: writes the numbers of the library call {kw}", key=m)
    first = txt.strip().split(a["delim"])[0]
    req(first == f"{want[0, 0]:.{a['prec']}e}", f"precision and delimiter: wrote {first!r}", key=m)


def gen_a(rng):
    ms = sorted(ANA)
    m = ms[int(rng.integers(len(ms)))]
    return {"m": m, "opts": pick(rng, ANA[m][1]), "seed": [None, 0, 7][int(rng.integers(3))], "col": int(rng.integers(3)), "delim": [" ", ","][int(rng.integers(2))], "D": int(rng.integers(1, 4)), "ds": seedint(rng), "givecol": bool(rng.integers(3))}


def check_a(a):
    m = a["m"]
    mod = importlib.import_module("SALib.analyze." + m)
    needX, opts = ANA[m]
    tab = {o: (kw, vals, conv, d) for o, kw, vals, conv, d in opts}
    g = np.random.default_rng(a["ds"])
    with tempfile.TemporaryDirectory() as t:
        pf = paramfile(t, a["D"], None)
        Y = np.round(g.normal(size=(12, 3)), 6)
        X = np.round(g.normal(size=(12, a["D"])), 6)
        yf, xf = os.path.join(t, "y.txt"), os.path.join(t, "x.txt")
        np.savetxt(yf, Y, delimiter=a["delim"], fmt="%.6f")
        np.savetxt(xf, X, delimiter=a["delim"], fmt="%.6f")
        argv = ["analyze", m, "-p", pf, "-Y", yf, "--delimiter=" + a["delim"]]
        col = a["col"] if a["givecol"] else 0
        if a["givecol"]:
            argv += ["-c", str(col)]
        if needX:
            argv += ["-X", xf]
        exp = {}
        if a["seed"] is not None:
            argv += ["--seed", str(a["seed"])]
        exp["seed"] = a["seed"]
        for o, k, v in a["opts"]:
            conv = tab[o][2]
            argv += [o] if v is None else [o, str(v)]
            exp[k] = True if v is None else (conv(v) if conv else v)
        for o, k, vals, conv, d in opts:
            if k not in exp:
                exp[k] = d
        calls = []
        sig = inspect.signature(mod.analyze)
        with mock.patch.object(mod, "analyze", lambda *b, **k: calls.append(sig.bind(*b, **k))):
            run(argv)
        req(len(calls) == 1, f"{m}: analyses once", key=m)
        ba = calls[0]
        given = dict(ba.arguments)
        prob = read_param_file(pf)
    req(dict(given["problem"]) == prob, f"{m}: the problem of the file", key=m)
    req(np.array_equal(given["Y"], Y[:, col]), f"{m}: the chosen column {col}", key=m)
    if needX:
        req(np.array_equal(given["X"], X), f"{m}: the model inputs", key=m)
    for k, v in exp.items():
        dv = given.get(k, sig.parameters[k].default)
        req(type(dv) is type(v) and dv == v or (isinstance(v, (int, float)) and not isinstance(v, bool) and dv == v), f"{m}: option {k} is {v!r}, the call got {dv!r} ({argv[5:]})", key=f"{m}:{k}")


CHECKS = [{"name": "sampler command lines", "gen": gen_s, "check": check_s, "n": 400}, {"name": "analyser command lines", "gen": gen_a, "check": check_a, "n": 600}]
