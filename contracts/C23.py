"""C23: delta analysis partitions by rank and bootstraps without distorting the estimate."""
from .common import *
from .C22 import filt_key, NanNS

META = {}
np = npshim
MOD = "SALib.analyze.delta"
RANK = ufn("ORDINAL_RANK", KeySort, Int, Int, Int)
KDE = ufn("SILVERMAN_KDE", KeySort, KeySort, Int, Real, Real)
PTP = ufn("PTP_SELECTED", KeySort, KeySort, Int, Real)
TRAP = ufn("TRAPEZOID", KeySort, KeySort, Int, Real)
PPF = ufn("ppf_stdnorm", Real, Real)
S1F = ufn("SOBOL_FIRST", KeySort, KeySort, Int, KeySort, Int, Real)
DEL = ufn("CALC_DELTA", KeySort, KeySort, Int, KeySort, KeySort, Int, Real)


FiltArr.min = lambda s: wrap(ufn("MIN_SELECTED", KeySort, KeySort, Int, Real)(*filt_key(s), toint(s.n)))
FiltArr.max = lambda s: wrap(ufn("MAX_SELECTED", KeySort, KeySort, Int, Real)(*filt_key(s), toint(s.n)))
POS = ufn("POSITION_SELECTED", KeySort, Int, Int, Int)


def selected(mask):
    """the positions where a mask holds, in order; indexing with them is selection"""
    f = FiltArr.make(mask, mask, 0)
    n = toint(mask.shape[0])
    c = key_of(seq(n, lambda t: z3.If(f.cond(t), z3.RealVal(1), z3.RealVal(0))))
    k = z3.Int("k")
    cnt = toint(f.count())
    ctx().assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < cnt), z3.And(0 <= POS(c, n, k), POS(c, n, k) < n, f.cond(POS(c, n, k)))), patterns=[POS(c, n, k)]))
    a = Arr((wrapdim(cnt),), CFn(lambda k: POS(c, n, toint(k))), "int")
    object.__setattr__(a, "as_mask", mask)
    return a


class DeltaNS(NanNS):
    def __init__(self):
        pass

    @staticmethod
    def where(c, *a):
        if a or as_arr(c).ndim != 1:
            return npshim.where(c, *a)
        return (selected(as_arr(c)),)

    flatnonzero = staticmethod(lambda c: selected(as_arr(c)))
    nonzero = where

    @staticmethod
    def ptp(a, **k):
        if isinstance(a, FiltArr):
            c, x = filt_key(a)
            return wrap(PTP(c, x, toint(a.n)))
        return npshim.ptp(a, **k)

    @staticmethod
    def trapezoid(y, x=None, **k):
        y, x = as_arr(y), as_arr(x)
        if k or y.ndim != 1:
            raise Unsupported("np.trapezoid called in another way")
        return wrap(TRAP(key_of(y), key_of(x), toint(y.shape[0])))

    @staticmethod
    def round(x, *a):
        if a or not isinstance(x, int) and not z3.is_int(x.t):
            raise Unsupported(f"np.round of a number that is not whole: {type(x)} {x}")
        return x

    tanh = staticmethod(lambda x: wrap(ufn("tanh", Real, Real)(norm(toreal(x)))))


ALL = "ALL"


def kde(data, bw_method=None, **k):
    if bw_method != "silverman" or k:
        raise Unsupported("gaussian_kde called in another way")
    if isinstance(data, FiltArr):
        c, x = filt_key(data)
        n = toint(data.n)
    else:
        a = as_arr(data)
        n = toint(a.shape[0])
        c, x = key_of(seq(n, lambda t: z3.RealVal(1))), key_of(a)
    return lambda grid: elementwise(lambda g: KDE(c, x, n, norm(toreal(g))), [grid], "real")


def rank(x, method="average", **k):
    if method != "ordinal" or k:
        raise Unsupported("rankdata called in another way")
    a = as_arr(x)
    n, kx = toint(a.shape[0]), key_of(a)
    return Arr(a.shape, CFn(lambda t: RANK(kx, n, toint(t))), "int")


def setup(v):
    v.stub(MOD, "np", DeltaNS(), "assumed contracts of np.where(mask), np.ptp, np.trapezoid, np.tanh: functions of their arguments")
    v.stub(MOD, "gaussian_kde", kde, "assumed contract of scipy.stats.gaussian_kde: a function of the data")
    v.stub(MOD, "rankdata", rank, "assumed contract of scipy.stats.rankdata(ordinal): a permutation of 1..n that orders the values")


def partition(v):
    """lemma: cuts at j n / M split the ranks 1..n into classes that hold every rank once, of sizes that differ by one at most"""
    C = v.C
    n, M, j, r = v.int("n", 1), v.int("M", 1), v.int("j", 0), v.int("r", 1)
    cut = lambda j: z3.ToReal(j) * z3.ToReal(n) / z3.ToReal(M)

    def run():
        C.pc += [j < M, r <= n]
        k = v.int("k", 0)
        C.pc.append(k < M)
        inn = lambda s: z3.And(cut(s) < z3.ToReal(r), z3.ToReal(r) <= cut(s + 1))
        v.prove("the first cut is 0, the last n", z3.And(cut(z3.IntVal(0)) == 0, cut(M) == z3.ToReal(n)))
        # after k classes the ranks up to the k-th cut were met, each once
        met = lambda s: z3.If(z3.ToReal(r) <= cut(s), z3.IntVal(1), z3.IntVal(0))
        step = cut(k + 1) - cut(k)
        v.prove("cuts increase", z3.Implies(z3.And(step == z3.ToReal(n) / z3.ToReal(M)), step > 0))
        a, b = z3.Reals("a b")
        v.prove("every rank in exactly one class (induction step)", z3.Implies(a < b, z3.If(z3.ToReal(r) <= a, 1, 0) + z3.If(z3.And(a < z3.ToReal(r), z3.ToReal(r) <= b), 1, 0) == z3.If(z3.ToReal(r) <= b, 1, 0)))
        # sizes: n = q M + rho; j n = A M + al, (j+1) n = B M + be; the class holds the integers A+1..B
        q, rho, A_, B_, al, be = z3.Ints("q rho A B al be")
        d = B_ - A_ - q
        hyp = z3.And(n == q * M + rho, 0 <= rho, rho < M, 0 <= al, al < M, 0 <= be, be < M)
        v.prove("the difference of the cuts", z3.Implies(z3.And(hyp, j * n == A_ * M + al, (j + 1) * n == B_ * M + be), B_ * M - A_ * M == n + al - be))
        v.prove("class sizes are n div M or one more", z3.Implies(z3.And(M >= 1, 0 <= rho, rho < M, 0 <= al, al < M, 0 <= be, be < M, d * M == rho + al - be), z3.Or(d == 0, d == 1)))

    v.explore(run)


def within(v):
    """lemma: in every class the squared distance of its mean from the overall mean, times its size, is at most its share of the total; so 0 <= S1 <= 1"""
    N = v.int("N", 1)
    y = ufn("y", Int, Real)
    I = lambda t: z3.If(ufn("in_class", Int, Bool)(t), z3.RealVal(1), z3.RealVal(0))
    mu, m, n, S, A, W, T = z3.Reals("mu m n S A W T")

    def run():
        sq = lambda c: SUM(N, lambda t: I(t) * (y(t) - c) * (y(t) - c))
        parts = lambda c: SUM(N, lambda t: I(t) * y(t) * y(t)) - 2 * c * SUM(N, lambda t: I(t) * y(t)) + c * c * SUM(N, I)
        v.prove_eq("squares about any point, by moments", sq(mu), parts(mu))
        t = v.fresh_int("t", 0, N)
        v.prove("squares are not negative", I(t) * (y(t) - m) * (y(t) - m) >= 0)
        mom = lambda c: A - 2 * c * S + c * c * n
        v.prove("between-class share is at most the total share of the class", z3.Implies(z3.And(n > 0, m * n == S, mom(m) >= 0), z3.And(n * (m - mu) * (m - mu) >= 0, n * (m - mu) * (m - mu) <= mom(mu))))

    v.explore(run)


def samples(v):
    N, M = v.int("N", 1), v.int("M", 1)
    X, x = v.mat("X", N)
    Y, y = v.mat("Y", N)
    m = Arr((wrapdim(M + 1),), CFn(lambda k: ufn("cut", Int, Real)(toint(k))), "real")
    kx = key_of(X)
    inside = lambda t, j: z3.And(z3.ToReal(RANK(kx, N, t)) > ufn("cut", Int, Real)(j), z3.ToReal(RANK(kx, N, t)) <= ufn("cut", Int, Real)(j + 1))
    return N, M, X, x, Y, y, m, inside


def first(v):
    """sobol_first: between-class variance over the total"""
    C = v.C
    mod = v.module(MOD)
    v.under(MOD + ".sobol_first")
    setup(v)

    def run():
        N, M, X, x, Y, y, m, inside = samples(v)
        got = mod.sobol_first(Y, X, m)
        mean = SUM(N, y) / toreal(N)
        n = lambda j: toreal(SUMI(N, lambda t: z3.If(inside(t, j), z3.IntVal(1), z3.IntVal(0))))
        mj = lambda j: SUM(N, lambda t: z3.If(inside(t, j), y(t), z3.RealVal(0))) / n(j)
        between = SUM(M, lambda j: n(j) / toreal(N) * (mj(j) - mean) * (mj(j) - mean))
        flat = C.valid(toreal(npshim.ptp(Y)) == 0)
        if flat:
            v.prove("a constant output is not sensitive", toreal(got) == 0)
        else:
            v.prove_eq("S1 is the between-class variance over the total variance", got, between / toreal(np.var(Y)))

    v.explore(run)


def delta(v):
    """calc_delta: eq. 26 over the same classes"""
    C = v.C
    mod = v.module(MOD)
    v.under(MOD + ".calc_delta")
    setup(v)

    def run():
        N, M, X, x, Y, y, m, inside = samples(v)
        G = v.int("grid", 2)
        grid, g = v.mat("Ygrid", G)
        got = mod.calc_delta(Y, grid, X, m)
        ky, kg = key_of(Y), key_of(grid)
        one = key_of(seq(N, lambda t: z3.RealVal(1)))
        ind = lambda j: key_of(seq(N, lambda t: z3.If(inside(t, j), z3.RealVal(1), z3.RealVal(0))))
        n = lambda j: SUMI(N, lambda t: z3.If(inside(t, j), z3.IntVal(1), z3.IntVal(0)))

        def term_(j):
            d = seq(G, lambda p: t_abs(KDE(one, ky, N, g(p)) - KDE(ind(j), ky, N, g(p))))
            return z3.If(z3.Or(n(j) == 0, PTP(ind(j), ky, N) == 0), z3.RealVal(0), toreal(n(j)) / (2 * toreal(N)) * TRAP(key_of(d), kg, G))

        v.prove_eq("delta: half the mean over the classes of the area between the densities", got, SUM(M, term_))

    v.explore(run)


def spread(R, f, conf):
    """normal quantile times the sample standard deviation of r -> f(r)"""
    a = Arr((wrapdim(R),), CFn(lambda r: f(toint(r))), "real")
    return PPF(norm(z3.Q(1, 2) + conf / 2)) * toreal(np.std(a, ddof=1))


def reduced(v):
    """bias_reduced_delta"""
    C = v.C
    mod = v.module(MOD)
    v.under(MOD + ".bias_reduced_delta")
    setup(v)
    N, n, R, M, G = v.int("N", 1), v.int("n", 1), v.int("R", 2), v.int("M", 1), v.int("grid", 2)
    calls = []
    IND = ufn("draw", Int, Int, Int)  # k-th draw, position

    def subset(X, y_resamples, mode, bin_edges, paramname, min_class_size, warn_print=False):
        calls.append((X, y_resamples, mode, bin_edges, paramname, min_class_size))
        lv = list(C.loopvars)
        k = toint(lv[-1]) + 1 if lv else z3.IntVal(0)
        t = z3.Int("t")
        a = Arr((wrapdim(n),), CFn(lambda t: IND(k, toint(t))), "int")
        C.assume(z3.ForAll([t], z3.And(0 <= IND(k, t), IND(k, t) < N), patterns=[IND(k, t)]))
        return a

    v.stub(MOD, "obtain_resampled_subset", subset, "callee contract: positions of the sample, as many as asked for (proved for raw resampling; bounded for balanced and step)")

    def cd(Y, Ygrid, X, m):
        X, Y = as_arr(X), as_arr(Y)
        return wrap(DEL(key_of(Y), key_of(X), toint(X.shape[0]), key_of(Ygrid), key_of(m), toint(as_arr(m).shape[0])))

    v.stub(MOD, "calc_delta", cd, "callee contract: calc_delta is a function of its arguments (its formula is proved in its own contract)")

    def run():
        calls.clear()
        X, x = v.mat("X", N)
        Y, y = v.mat("Y", N)
        grid, g = v.mat("Ygrid", G)
        m, mm = v.mat("m", M + 1)
        conf = v.real("conf")
        mcs, edges = wrap(v.int("mcs", 1)), v.mat("edges", v.int("E", 2))[0]
        d, hw, ind = mod.bias_reduced_delta(Y, grid, X, m, wrap(R), wrap(conf), wrap(n), "raw", edges, "p", mcs)
        v.expect("every draw asks for the given number of points of the given parameter", len(calls) >= 2 and all(c[0] is X and c[2] == "raw" and c[3] is edges and c[4] == "p" and c[5] is mcs for c in calls))
        v.prove("every draw asks for the given number of points", z3.And(*[toint(c[1]) == n for c in calls]))
        dk = lambda k: DEL(key_of(seq(n, lambda t: y(IND(k, t)))), key_of(seq(n, lambda t: x(IND(k, t)))), n, key_of(grid), key_of(m), M + 1)
        est = lambda r: 2 * dk(z3.IntVal(0)) - dk(r + 1)
        v.prove_eq("twice the estimate on one draw minus the mean over the bootstrap draws", d, 2 * dk(z3.IntVal(0)) - SUM(R, lambda r: dk(r + 1)) / toreal(R))
        v.prove_eq("half-width: quantile times the standard deviation of the resamples", hw, spread(R, est, conf))
        t = v.fresh_int("t", 0, n)
        v.prove_eq("the draw of the estimate is handed back", as_arr(ind).read(t), IND(z3.IntVal(0), t))

    v.explore(run)


def draws(C):
    ev = []
    for e in C.events:
        while e[0] == "loop":
            e = e[3]
        if e[0] == "draw":
            ev.append(e)
    return ev


def s1f(Y, X, m):
    X, Y = as_arr(X), as_arr(Y)
    return wrap(S1F(key_of(Y), key_of(X), toint(X.shape[0]), key_of(m), toint(as_arr(m).shape[0])))


def first_conf(v):
    """sobol_first_conf"""
    C = v.C
    mod = v.module(MOD)
    v.under(MOD + ".sobol_first_conf")
    setup(v)
    v.stub(MOD, "sobol_first", s1f, "callee contract: sobol_first is a function of its arguments (its formula is proved in its own contract)")
    N, n, R, M = v.int("N", 1), v.int("n", 1), v.int("R", 2), v.int("M", 1)

    def run():
        X, x = v.mat("X", N)
        Y, y = v.mat("Y", N)
        m, mm = v.mat("m", M + 1)
        conf = v.real("conf")
        got = mod.sobol_first_conf(Y, X, m, wrap(R), wrap(conf), wrap(n))
        ev = draws(C)
        v.expect("one draw of positions", len(ev) == 1)
        fn, sh = ev[0][2], ev[0][3]
        r_, t_ = v.fresh_int("r", 0, R), v.fresh_int("t", 0, n)
        g = fn(r_, t_).decl()
        v.prove("as many points per resample as the sample size given", z3.And(z3.BoolVal(len(sh) == 2), toint(sh[0]) == R, toint(sh[1]) == n))
        v.prove("drawn with replacement from the sample", z3.And(0 <= g(r_, t_), g(r_, t_) < N))
        any_row(v, ev[0], N)
        one = lambda r: S1F(key_of(seq(n, lambda t: y(g(r, t)))), key_of(seq(n, lambda t: x(g(r, t)))), n, key_of(m), M + 1)
        v.prove_eq("half-width: quantile times the standard deviation of the resamples", got, spread(R, one, conf))

    v.explore(run)


def raw(v):
    """obtain_resampled_subset, raw mode"""
    C = v.C
    mod = v.module(MOD)
    v.under(MOD + ".obtain_resampled_subset")
    setup(v)
    N, n = v.int("N", 1), v.int("n", 1)

    def run():
        X, x = v.mat("X", N)
        edges = v.mat("edges", v.int("E", 2))[0]
        try:
            got = as_arr(mod.obtain_resampled_subset(X, wrap(n), "raw", edges, "p", wrap(v.int("mcs", 1))))
        except ValueError:
            v.prove("refused only for a constant parameter", toreal(npshim.max(X)) == toreal(npshim.min(X)))
            return
        v.prove("as many points as asked for", toint(got.shape[0]) == n)
        t = v.fresh_int("t", 0, n)
        v.prove("positions of the sample", z3.And(0 <= got.read(t), got.read(t) < N))
        ev = draws(C)
        v.expect("drawn with replacement", len(ev) == 1)
        any_row(v, ev[0], N)

    v.explore(run)



def binned(v, mode, k, empties=False):
    """obtain_resampled_subset, drawing from k classes of any sizes"""
    C = v.C
    mod = v.module(MOD)
    v.under(MOD + ".obtain_resampled_subset")
    setup(v)
    N, n = v.int("N", 1), v.int("n", 1)
    asked = []

    def bins(bin_edges, X, min_class_size):
        asked.append((bin_edges, X))
        s = X.count() if isinstance(X, FiltArr) else as_arr(X).shape[0]
        return [None] * (k + 1), list(state["bins"](toint(s)))

    state = {}
    v.stub(MOD, "obtain_bins_indices", bins, "callee: positions of the given values, grouped by bin")
    v.stub(MOD, "check_specified_bininfo", lambda bininfo, Xmin, Xmax, paramname: (("five", bininfo), ""), "callee: the bins of a parameter")

    def run():
        asked.clear()
        X, x = v.mat("X", N)
        edges = v.mat("edges", v.int("E", 2))[0]
        t = z3.Int("t")

        def mk(b, s):
            ln, f = z3.Int(f"len{b}"), ufn(f"bin{b}", Int, Int)
            C.assume(ln >= (0 if empties else 1))
            C.assume(z3.ForAll([t], z3.And(0 <= f(t), f(t) < s), patterns=[f(t)]))
            return Arr((wrapdim(ln),), CFn(lambda t: f(toint(t))), "int")

        state["bins"] = lambda s: [mk(b, s) for b in range(k)]
        if empties:
            v.given(z3.Or(*[z3.Int(f"len{b}") >= 1 for b in range(k)]))
        if mode == "step":
            v.given(SUMI(N, lambda t: z3.If(x(t) <= 0, z3.IntVal(1), z3.IntVal(0))) >= 1)
            v.given(SUMI(N, lambda t: z3.If(x(t) > 0, z3.IntVal(1), z3.IntVal(0))) >= 1)
        try:
            got = as_arr(mod.obtain_resampled_subset(X, wrap(n), mode, edges, "p", wrap(v.int("mcs", 1))))
        except (ValueError, mod.AnalysisError):
            return
        v.expect("two classes or more, of the values analysed", k >= 2 and len(asked) == 1)
        v.prove("as many points as asked for", toint(got.shape[0]) == n)
        q = v.fresh_int("q", 0, n)
        v.prove("positions of the sample", z3.And(0 <= got.read(q), got.read(q) < N))
        if mode == "step":
            half = z3.ToInt(z3.ToReal(n) / 2)
            v.prove("half of them at zero or below", z3.Implies(q < half, x(got.read(q)) <= 0))
            v.prove("the others above zero", z3.Implies(q >= half, x(got.read(q)) > 0))
            v.expect("bins of the values above zero", isinstance(asked[0][1], FiltArr))
        else:
            v.expect("bins of the values", asked[0][1] is X and asked[0][0] is edges)

    v.explore(run)


BSIG = [KeySort, KeySort, Int, KeySort, Int, KeySort, Int, Int, Real, Int, Int, Real, Real, Obj, Int, Real]
BRD, BRC = ufn("BIAS_REDUCED_DELTA", *BSIG), ufn("BIAS_REDUCED_DELTA_CONF", *BSIG)
MODES = ["balanced", "raw", "step"]
S1C = ufn("SOBOL_FIRST_CONF", KeySort, KeySort, Int, KeySort, Int, Int, Real, Int, Real)

def whole(v, method):
    """analyze: every cell is the estimate for that parameter, on classes cut at k y / M"""
    C = v.C
    mod = v.module(MOD)
    v.under(MOD + ".analyze")
    setup(v)
    D, N, n, R = v.int("D", 1), v.int("N", 1), v.int("n", 1), v.int("R", 2)
    seen, grids = [], []
    v.stub(MOD, "check_specified_bininfo", lambda bininfo, Xmin, Xmax, paramname: (("edges", bininfo, Xmin, Xmax), ""), "callee: the bins of a parameter")
    v.stub(MOD, "exception_handler", lambda *a: v.expect("no estimate raises", False), "no exception is assumed from the callees")

    def first(Y, X, m):
        seen.append(m)
        return s1f(Y, X, m)

    def conf_(Y, X, m, num_resamples, conf_level, y_resamples):
        seen.append(m)
        X, Y = as_arr(X), as_arr(Y)
        return wrap(S1C(key_of(Y), key_of(X), toint(X.shape[0]), key_of(m), toint(as_arr(m).shape[0]), toint(num_resamples), norm(toreal(conf_level)), toint(y_resamples)))

    def brd(Y, Ygrid, X, m, num_resamples, conf_level, y_resamples, mode, bin_edges, paramname, min_class_size):
        seen.append(m)
        grids.append(Ygrid)
        what, info, lo, hi = bin_edges
        v.expect("the bins of that parameter", what == "edges")
        X, Y, Ygrid = as_arr(X), as_arr(Y), as_arr(Ygrid)
        args = (key_of(Y), key_of(X), toint(X.shape[0]), key_of(Ygrid), toint(Ygrid.shape[0]), key_of(m), toint(as_arr(m).shape[0]), toint(num_resamples), norm(toreal(conf_level)),
                toint(y_resamples), z3.IntVal(MODES.index(mode)), norm(toreal(lo)), norm(toreal(hi)), paramname.t, toint(min_class_size))
        return wrap(BRD(*args)), wrap(BRC(*args)), ("draw of", mode)

    v.stub(MOD, "bias_reduced_delta", brd, "callee contract: the bias-reduced delta and its half-width are functions of the arguments (their formulas are proved in their own contract)")
    v.stub(MOD, "sobol_first", first, "callee contract: sobol_first is a function of its arguments")
    v.stub(MOD, "sobol_first_conf", conf_, "callee contract: sobol_first_conf is a function of its arguments")

    def run():
        seen.clear()
        grids.clear()
        p = problem(v, D)
        X, x = v.mat("X", N, D)
        Y, y = v.mat("Y", N)
        b, e = z3.Reals("b e")
        pw, th = ufn("pow", Real, Real, Real), ufn("tanh", Real, Real)
        C.assume(z3.ForAll([b, e], z3.Implies(z3.And(b >= 1, e >= 0), pw(b, e) >= 1), patterns=[pw(b, e)]))
        C.assume(z3.ForAll([b], z3.And(-1 < th(b), th(b) < 1), patterns=[th(b)]))
        q = z3.Int("q")
        pn = ufn("pname", Int, Obj)
        bad = z3.Or(*[z3.Function(f"endswith:{s}", Obj, Bool)(pn(q)) for s in ("_raw", "_balanced", "_step", "_conf")])
        v.given(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < D), z3.Not(bad)), patterns=[pn(q)]))
        conf = v.real("conf")
        v.given(z3.And(conf > 0, conf < 1))
        kw = {} if method.endswith("default") else {"y_resamples": wrap(n)}
        if not kw:
            ny = N
        else:
            ny = n
            v.given(n <= N)
        S = mod.analyze(p, X, Y, wrap(R), wrap(conf), method=method.split("-")[0], **kw)
        j = v.fresh_int("j", 0, D)
        m = seen[0]
        M = toint(as_arr(m).shape[0]) - 1
        v.prove("1 to 48 classes", z3.And(M >= 1, M <= 48))
        k = v.fresh_int("k", 0, M + 1)
        v.prove_eq("cuts at k y / M", as_arr(m).read(k), z3.ToReal(k) * z3.ToReal(ny) / z3.ToReal(M))
        kx = key_of(seq(N, lambda t: x(t, j)))
        what = method.split("-")[0]
        if what != "delta":
            v.prove_eq("S1_conf of parameter j", as_arr(S["S1_conf"]).read(j), S1C(key_of(Y), kx, N, key_of(m), M + 1, R, conf, ny))
            evs = [e for e in C.events if e[0] == "loop" and e[3][0] == "draw"]
            v.expect("one draw of positions per parameter", len(evs) == 1 and len(draws(C)) == 1 and len(evs[0][3][3]) == 1)
            i_, fn, sh = evs[0][1], evs[0][3][2], evs[0][3][3]
            t = v.fresh_int("t", 0, ny)
            at = lambda t: z3.substitute(fn(t), (i_, j))
            v.prove("as many points as the sample size given", toint(sh[0]) == ny)
            v.prove("drawn with replacement from the sample", z3.And(0 <= at(t), at(t) < N))
            any_row(v, evs[0], N)
            v.prove_eq("S1 of parameter j: on one draw of all rows", as_arr(S["S1"]).read(j), S1F(key_of(seq(ny, lambda t: y(at(t)))), key_of(seq(ny, lambda t: x(at(t), j))), ny, key_of(m), M + 1))
        if what != "sobol":
            g = v.fresh_int("g", 0, 100)
            grid = grids[0]
            v.expect("one grid", all(x is grid for x in grids) and all(x is m for x in seen))
            v.prove("grid of 100 points", toint(as_arr(grid).shape[0]) == 100)
            lo, hi = toreal(npshim.min(Y)), toreal(npshim.max(Y))
            v.prove_eq("grid spans the outputs", as_arr(grid).read(g), lo + z3.ToReal(g) * (hi - lo) / 99)
            xj = seq(N, lambda t: x(t, j))
            mcs = z3.If(z3.ToInt(z3.ToReal(N) / 200) >= 10, z3.ToInt(z3.ToReal(N) / 200), z3.IntVal(10))
            for k, mode in enumerate(MODES):
                args = (key_of(Y), kx, N, key_of(grid), z3.IntVal(100), key_of(m), M + 1, R, norm(conf), ny, z3.IntVal(k), norm(toreal(npshim.min(xj))), norm(toreal(npshim.max(xj))), pn(j), mcs)
                d, c = BRD(*args), BRC(*args)
                if mode == "step":
                    pos = SUMI(N, lambda t: z3.If(x(t, j) > 0, z3.IntVal(1), z3.IntVal(0)))
                    neg = SUMI(N, lambda t: z3.If(x(t, j) <= 0, z3.IntVal(1), z3.IntVal(0)))
                    few = z3.Or(neg < mcs, pos < mcs)
                    d, c = z3.If(few, toreal(np.nan), d), z3.If(few, toreal(np.nan), c)
                v.prove_eq(f"delta of parameter j: {mode}", as_arr(S[f"delta_{mode}"]).read(j), d)
                v.prove_eq(f"half-width of parameter j: {mode}", as_arr(S[f"delta_{mode}_conf"]).read(j), c)

    v.explore(run)


CONTRACTS = [(f"obtain_resampled_subset[{m}, {k} classes{', some empty' if e else ''}]", lambda v, m=m, k=k, e=e: binned(v, m, k, e)) for m, k, e in (
    ("balanced", 1, False), ("balanced", 2, False), ("balanced", 3, True), ("balanced", 10, False), ("step", 2, True), ("step", 5, False))] + [("analyze[sobol]", lambda v: whole(v, "sobol")), ("analyze[delta]", lambda v: whole(v, "delta-default")), ("rank classes", partition), ("between-class variance", within), ("sobol_first", first), ("calc_delta", delta), ("bias_reduced_delta", reduced), ("sobol_first_conf", first_conf), ("obtain_resampled_subset[raw]", raw)]
