"""C18: the problem-specification workflow keeps samples, results and analyses in step.

Every method of the workflow is started from an arbitrary state of the specification (samples, results, analysis and
output names absent or arbitrary), so the statements hold after every history of calls.
"""
from .common import *

META = {}
np = npshim
MOD = "SALib.util.problem"
AN = ufn("ANALYSIS", KeySort, Int, Int, Obj, Obj, Real)


class Missing(Exception):
    pass


def state(v, m, D, samples, results, analysis, outputs):
    """(spec, its parts); samples/results/analysis/outputs say which of them are present"""
    p = problem(v, D)
    p["groups"] = None
    st = {}
    s = spec_of(m, p)
    if samples:
        st["samples"], st["x"] = v.mat("X", v.int("N", 1), D)
        s._samples = st["samples"]
    if results:
        if results == 1:
            st["results"], st["y"] = v.mat("Y", v.int("NY", 1))
        else:
            st["results"], st["y"] = v.mat("Y", v.int("NY", 1), v.int("K", 1))
        s._results = st["results"]
    if analysis:
        st["analysis"] = PDict({"S1": v.mat("oldS1", D)[0]})
        s._analysis = st["analysis"]
    if outputs:
        st["outputs"], st["oname"] = v.names("oname", v.int("KO", 1))
        s["outputs"] = st["outputs"]
    return s, st


def same_state(v, tag, s, st):
    for k in ("samples", "results", "analysis"):
        v.prove(f"{tag}: {k} as before", z3.BoolVal(getattr(s, k) is st.get(k)))


STATES = [(a, b, c, d) for a in (0, 1) for b in (0, 1, 2) for c in (0, 1) for d in (0, 1)]


def over_states(v, body, states=STATES):
    m = v.module(MOD)
    D = v.int("D", 2)
    for q in states:
        v.explore(lambda: body(m, D, *state(v, m, D, *q), q))


def set_samples(v):
    v.under(MOD + ".ProblemSpec.set_samples", MOD + ".ProblemSpec.samples.setter")
    M, W = v.int("M", 1), v.int("W", 1)

    def body(m, D, s, st, q):
        A, a = v.mat("new", M, W)
        try:
            r = s.set_samples(A)
        except ValueError:
            v.prove("refused only if the width is not the number of parameters", W != D)
            same_state(v, "refused", s, st)
            return
        v.prove("another width is refused", W == D)
        v.prove("returns the specification", z3.BoolVal(r is s))
        v.prove("the new samples are stored", z3.BoolVal(s.samples is A))
        v.prove("results of older samples are dropped", z3.BoolVal(s.results is None))
        v.prove("analyses of older samples are dropped", z3.BoolVal(s.analysis is None))

    over_states(v, body)


def names_ok(v, s, st, cols):
    """the output names after storing results with cols columns"""
    n = as_arr(s["outputs"]).shape[0]
    v.prove("as many output names as columns", toint(n) == cols)
    if "outputs" in st:
        v.prove("given output names are kept", z3.BoolVal(s["outputs"] is st["outputs"]))


def set_results(v, dims):
    v.under(MOD + ".ProblemSpec.set_results", MOD + ".ProblemSpec.results.setter")
    M, W = v.int("M", 1), v.int("W", 1)

    def body(m, D, s, st, q):
        A = v.mat("new", M)[0] if dims == 1 else v.mat("new", M, W)[0]
        cols = z3.IntVal(1) if dims == 1 else W
        rows = M == toint(st["samples"].shape[0]) if "samples" in st else z3.BoolVal(True)
        names = cols == toint(as_arr(st["outputs"]).shape[0]) if "outputs" in st else z3.BoolVal(True)
        try:
            r = s.set_results(A)
        except (ValueError, AssertionError):
            v.prove("refused only if the rows are not the samples' or the columns not the outputs'", z3.Not(z3.And(rows, names)))
            same_state(v, "refused", s, st)
            return
        v.prove("another number of rows than samples is refused", rows)
        v.prove("another number of columns than outputs is refused", names)
        v.prove("the new results are stored", z3.BoolVal(r is s and s.results is A))
        v.prove("the samples are kept", z3.BoolVal(s.samples is st.get("samples")))
        v.prove("analyses of older results are dropped", z3.BoolVal(s.analysis is None))
        names_ok(v, s, st, cols)

    over_states(v, body)


def sample(v):
    v.under(MOD + ".ProblemSpec.sample")

    def body(m, D, s, st, q):
        A, a = v.mat("new", v.int("M", 1), D)
        calls = []

        def method(problem, *args, **kwargs):
            calls.append((problem, args, kwargs))
            return A

        r = s.sample(method, 17, second_order=False)
        v.prove("the method is called once, with the specification and the arguments given",
                z3.BoolVal(len(calls) == 1 and calls[0][0] is s and calls[0][1] == (17,) and calls[0][2] == {"second_order": False}))
        v.prove("its samples are stored", z3.BoolVal(r is s and s.samples is A))
        v.prove("older results and analyses are dropped", z3.BoolVal(s.results is None and s.analysis is None))

    over_states(v, body)


def evaluate(v, dims):
    v.under(MOD + ".ProblemSpec.evaluate", MOD + ".ProblemSpec.results.setter")
    M, W = v.int("M", 1), v.int("W", 1)

    def body(m, D, s, st, q):
        A = v.mat("new", M)[0] if dims == 1 else v.mat("new", M, W)[0]
        cols = z3.IntVal(1) if dims == 1 else W
        calls = []

        def model(x, *args, **kwargs):
            calls.append((x, args, kwargs))
            return A

        names = cols == toint(as_arr(st["outputs"]).shape[0]) if "outputs" in st else z3.BoolVal(True)
        try:
            r = s.evaluate(model, 3, c=4)
        except RuntimeError:
            v.prove("refused before sampling", z3.BoolVal("samples" not in st and not calls))
            same_state(v, "refused", s, st)
            return
        except ValueError:
            v.prove("results refused only if their columns are not the outputs'", z3.Not(names))
            return
        v.prove("evaluating before sampling is refused", z3.BoolVal("samples" in st))
        v.prove("another number of columns than outputs is refused", names)
        v.prove("the model is called once, on exactly the stored samples with the extra arguments",
                z3.BoolVal(len(calls) == 1 and calls[0][0] is st.get("samples") and calls[0][1] == (3,) and calls[0][2] == {"c": 4}))
        v.prove("what it returns is stored", z3.BoolVal(r is s and s.results is A))
        v.prove("the samples are kept", z3.BoolVal(s.samples is st.get("samples")))
        v.prove("older analyses are dropped", z3.BoolVal(s.analysis is None))
        names_ok(v, s, st, cols)

    over_states(v, body)


def flag(b):
    return z3.IntVal(1 if b else 0)


def whole(Y, st):
    """an analysed vector, or the stored one-column matrix"""
    if Y.ndim == 1:
        return key_of(Y), True
    return key_of(Y, 0), Y is st.get("results")


def methods(s, st):
    """analysis functions with and without X: the result is a function of everything they were given"""
    def with_x(problem, X, Y, opt, num=0):
        k, ok = whole(Y, st)
        return np.array([wrap(AN(k, toint(Y.shape[0]), flag(ok and problem is s and X is st.get("samples")), term(opt), term(num)))])

    def no_x(problem, Y, opt, num=0):
        k, ok = whole(Y, st)
        return np.array([wrap(AN(k, toint(Y.shape[0]), flag(ok and problem is s), term(opt), term(num)))])

    return with_x, no_x


def analyze(v, which):
    v.under(MOD + ".ProblemSpec.analyze")
    opt, num = z3.Const("opt", Obj), z3.Const("num", Obj)

    def body(m, D, s, st, q):
        fn = methods(s, st)[which]
        K = v.int("K", 1)
        NY = v.int("NY", 1)
        if "outputs" in st:
            n = v.int("KO", 1)
            if q[1] == 2:
                v.given(n == K)  # what the results setter establishes (see set_results, evaluate)
            elif q[1] == 1:
                v.given(n == 1)
            t1, t2 = z3.Ints("t1 t2")
            distinct(v, st["outputs"], n)
        try:
            r = s.analyze(fn, num=wrap(num), opt=wrap(opt)) if which else s.analyze(fn, opt=wrap(opt), num=wrap(num))
        except RuntimeError:
            v.prove("refused before evaluating", z3.BoolVal("results" not in st))
            same_state(v, "refused", s, st)
            return
        v.prove("analysing before evaluating is refused", z3.BoolVal("results" in st))
        v.prove("samples and results are kept", z3.BoolVal(r is s and s.samples is st.get("samples") and s.results is st.get("results")))
        if "results" not in st:
            return
        a = s.analysis
        outs = as_arr(s["outputs"])
        val = lambda y: AN(key_of(y), NY, flag(True), opt, num)
        if isinstance(a, PDict):
            v.prove("a table of analyses only for several outputs", toint(outs.shape[0]) > 1)
            v.prove("as many outputs as columns", toint(outs.shape[0]) == K)
            k = v.fresh_int("k", 0, K)
            if "outputs" in st:
                got = a[wrap(st["oname"](k))]
                v.prove_eq("the analysis under an output's name is that of its own column", as_arr(got).read(0), val(seq(NY, lambda t: st["y"](t, k))))
        else:
            v.prove("one output", toint(outs.shape[0]) == 1)
            v.prove("one column", K == 1 if q[1] == 2 else z3.BoolVal(True))
            v.prove_eq("the analysis is that of the stored results", as_arr(a).read(0), AN(whole(st["results"], st)[0], NY, flag(True), opt, num))

    over_states(v, body)


def single(v):
    """one parameter, or one group over all parameters: refused"""
    v.under(MOD + ".ProblemSpec.analyze")
    m = v.module(MOD)
    D = v.int("D", 1)

    def run():
        s, st = state(v, m, D, 1, 1, 1, 0)
        g, gf = v.names("group", D)
        s["groups"] = g
        t = z3.Int("t")
        v.given(z3.Or(D == 1, z3.ForAll([t], gf(t) == gf(0))))
        calls = []

        def fn(problem, Y):
            calls.append(1)

        try:
            s.analyze(fn)
            ok = False
        except ValueError:
            ok = True
        v.prove("analysis of a single parameter or group is refused", z3.BoolVal(ok and not calls))
        same_state(v, "refused", s, st)

    v.explore(run)


CONTRACTS = [("set_samples", set_samples), ("set_results[vector]", lambda v: set_results(v, 1)), ("set_results[matrix]", lambda v: set_results(v, 2)),
             ("sample", sample), ("evaluate[vector]", lambda v: evaluate(v, 1)), ("evaluate[matrix]", lambda v: evaluate(v, 2)),
             ("analyze[X]", lambda v: analyze(v, 0)), ("analyze[no X]", lambda v: analyze(v, 1)), ("analyze[single]", single)]
