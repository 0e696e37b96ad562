"""C19: parallel and distributed evaluation return the results in sample order."""
from .common import *
from . import C18

META = {}
np = npshim
MOD = "SALib.util.problem"
ROW = ufn("MODELROW", KeySort, Int, Obj, Obj, Int, Real)  # value `c` of the model for a row, given the extra arguments


def row_key(a, r, W):
    rd = as_arr(a).reader()
    return key_of(seq(W, lambda j: toreal(rd(toint(r), toint(j)))))


class Calls:
    """A model: a function of the rows it is given, one by one. dims: one value or K values per row."""

    def __init__(self, v, W, dims, K):
        self.v, self.W, self.dims, self.K = v, W, dims, K
        self.none = z3.Const("no_argument", Obj)

    def value(self, a, r, extra, c):
        e = list(extra) + [self.none] * (2 - len(extra))
        return ROW(row_key(a, r, self.W), self.W, e[0], e[1], toint(c))

    def __call__(self, x, *args, **kwargs):
        a = as_arr(x)
        self.v.prove("the model is given whole sample rows", toint(a.shape[1]) == self.W)
        extra = [term(t) for t in args] + [term(kwargs[k]) for k in kwargs]
        n = a.shape[0]
        snap = Arr(a.shape, CFn(lambda r, j, f=a.reader(): f(toint(r), toint(j))), "real")
        if self.dims == 1:
            return Arr((n,), CFn(lambda r: self.value(snap, r, extra, 0)), "real")
        return Arr((n, wrapdim(self.K)), CFn(lambda r, c: self.value(snap, r, extra, c)), "real")


class PoolModel:
    """assumed contract of multiprocessing.Pool and of pathos' pool: `map`, `imap` and `starmap` give the results in
    the order of the tasks whatever the order of completion; imap_unordered gives them in an arbitrary order"""

    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def imap(self, f, tasks, *a, **k):
        return ordered(f, tasks)

    map = imap

    def imap_unordered(self, f, tasks, *a, **k):
        C = Ctx.cur
        n, at = loops_iter(tasks)
        if isinstance(n, int):
            n = z3.IntVal(n)
        p = npshim.SymRng("completion").permutation(wrap(toint(n)))
        return SymIter(wrapdim(toint(n)), lambda k: f(at(toint(p.read(toint(k))))))

    uimap = imap_unordered

    def starmap(self, f, tasks, *a, **k):
        return ordered(lambda t: f(*t), tasks)

    def clear(self, *a):
        pass

    close = join = terminate = clear


def loops_iter(tasks):
    from pyvc.loops import as_iter
    return as_iter(tasks)


def ordered(f, tasks):
    n, at = loops_iter(tasks)
    return SymIter(n, lambda k: f(at(k)))


def p_imap(f, *tasks, num_cpus=None, **k):
    return ordered(f, tasks[0])


def environment(v, m, progress):
    cpus = v.int("cpus", 1)
    v.stub(MOD, "cpu_count", lambda: wrap(cpus), "assumed contract of cpu_count: some number of processors, at least one")
    v.stub(MOD, "Pool", PoolModel, "assumed contract of multiprocessing.Pool: imap and map keep the order of the tasks")
    v.stub(MOD, "pp_Pool", PoolModel, "assumed contract of pathos' ParallelPythonPool: map keeps the order of the tasks")
    m.pathos_available = True
    m.ptqdm_available = progress
    if progress:
        v.stub(MOD, "p_imap", p_imap, "assumed contract of p_tqdm.p_imap: an iterator over the results in the order of the tasks")


EXTRA = {0: ((), ()), 1: (("a1",), ()), 2: (("a1",), ("b1",))}


def evaluate(v, how, dims, extra, progress=False):
    C = v.C
    W, N, K = v.int("D", 2), v.int("N", 1), v.int("K", 1)
    m = v.module(MOD)
    v.under(*[MOD + ".ProblemSpec." + f for f in (["evaluate"] if how == "evaluate" else []) + [("evaluate_distributed" if how == "distributed" else "evaluate_parallel"), "_wrap_func", "_collect_results"]])
    environment(v, m, progress)

    def run():
        p = problem(v, W)
        p["groups"] = None
        s = spec_of(m, p)
        X, x = v.mat("X", N, W)
        s._samples = X
        f = Calls(v, W, dims, K)
        pos = [z3.Const(n, Obj) for n in EXTRA[extra][0]]
        kw = {n: z3.Const(n, Obj) for n in EXTRA[extra][1]}
        args, kws = [wrap(t) for t in pos], {k: wrap(t) for k, t in kw.items()}
        np_ = v.int("nprocs", 1)
        if how == "evaluate":
            v.given(np_ > 1)
            r = s.evaluate(f, *args, nprocs=wrap(np_), **kws)
        elif how == "parallel":
            r = s.evaluate_parallel(f, *args, nprocs=wrap(np_), **kws)
        elif how == "all":
            r = s.evaluate_parallel(f, *args, **kws)
        else:
            servers, sf = v.names("server", v.int("NS", 1))
            r = s.evaluate_distributed(f, *args, nprocs=wrap(np_), servers=servers, **kws)
        y = as_arr(s.results)
        v.prove("returns the specification, with its samples", z3.BoolVal(r is s and s.samples is X))
        v.prove("one result per sample row", toint(y.shape[0]) == N)
        q = v.fresh_int("q", 0, N)
        ex = pos + list(kw.values())
        if dims == 1:
            v.prove("one value per row", z3.BoolVal(y.ndim == 1))
            v.prove_eq("result q is the model's value for sample row q with the extra arguments", y.read(q), f.value(X, q, ex, 0))
        else:
            c = v.fresh_int("c", 0, K)
            v.prove("K values per row", z3.BoolVal(False) if y.ndim != 2 else toint(y.shape[1]) == K)
            v.prove_eq("result (q, c) is the model's value c for sample row q with the extra arguments", y.read(q, c), f.value(X, q, ex, c))

    v.explore(run)


CONTRACTS = []
for _h, _d, _e, _p in [("parallel", 1, 0, False), ("parallel", 2, 0, False), ("parallel", 1, 2, False), ("parallel", 2, 1, False), ("parallel", 1, 1, True), ("parallel", 2, 2, True),
                       ("all", 1, 0, False), ("all", 2, 2, False), ("evaluate", 1, 2, False), ("evaluate", 2, 1, False), ("distributed", 1, 2, False), ("distributed", 2, 1, False), ("distributed", 1, 0, False)]:
    CONTRACTS.append((f"{_h}[{'vector' if _d == 1 else 'matrix'},{_e} extra{',progress bar' if _p else ''}]", lambda v, h=_h, d=_d, e=_e, p=_p: evaluate(v, h, d, e, p)))


def analyses(v, which, how, progress=False):
    """analyze_parallel gives every output name what the serial analysis gives it: the analysis of its own column"""
    C = v.C
    D, NY, K = v.int("D", 2), v.int("NY", 1), v.int("K", 1)
    m = v.module(MOD)
    v.under(MOD + ".ProblemSpec.analyze_parallel", *([MOD + ".ProblemSpec.analyze"] if how == "analyze" else []))
    environment(v, m, progress)
    opt, num = z3.Const("opt", Obj), z3.Const("num", Obj)

    def body(q):
        s, st = C18.state(v, m, D, *q)
        fn = C18.methods(s, st)[which]
        if "outputs" in st:
            n = v.int("KO", 1)
            v.given(n == K if q[1] == 2 else n == 1)  # what the results setter establishes (C18)
            distinct(v, st["outputs"], n)
        np_ = v.int("nprocs", 2)
        kw = {} if how == "all" else {"nprocs": wrap(np_)}
        r = (s.analyze if how == "analyze" else s.analyze_parallel)(fn, opt=wrap(opt), num=wrap(num), **kw)
        v.prove("samples and results are kept", z3.BoolVal(r is s and s.samples is st.get("samples") and s.results is st.get("results")))
        a = s.analysis
        outs = as_arr(s["outputs"])
        val = lambda y: C18.AN(key_of(y), NY, C18.flag(True), opt, num)
        if isinstance(a, PDict):
            v.prove("a table of analyses only for several outputs", toint(outs.shape[0]) > 1)
            v.prove("as many outputs as columns", toint(outs.shape[0]) == K)
            k = v.fresh_int("k", 0, K)
            if "outputs" in st:
                v.prove_eq("the analysis under an output's name is that of its own column", as_arr(a[wrap(st["oname"](k))]).read(0), val(seq(NY, lambda t: st["y"](t, k))))
        else:
            v.prove("one output", toint(outs.shape[0]) == 1)
            v.prove("one column", K == 1 if q[1] == 2 else z3.BoolVal(True))
            v.prove_eq("the analysis is that of the stored results", as_arr(a).read(0), C18.AN(C18.whole(st["results"], st)[0], NY, C18.flag(True), opt, num))

    for q in [(1, 1, 0, 0), (1, 1, 1, 1), (1, 2, 0, 0), (1, 2, 1, 1), (1, 2, 0, 1)]:
        v.explore(lambda: body(q))


for _w in (0, 1):
    for _h, _p in (("parallel", False), ("parallel", True), ("analyze", False), ("all", False)):
        CONTRACTS.append((f"analyses[{_h}{',progress bar' if _p else ''},{'no X' if _w else 'X'}]", lambda v, w=_w, h=_h, p=_p: analyses(v, w, h, p)))
