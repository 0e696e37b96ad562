"""C12: FAST and RBD-FAST indices are the right spectral fractions."""
from .common import *

META = {}
np = npshim
F, R = "SALib.analyze.fast", "SALib.analyze.rbd_fast"
ppf = ufn("ppf_stdnorm", Real, Real)


def orders(v):
    """fast.compute_orders: shares of the one-sided spectrum"""
    C = v.C
    N, M, w = v.int("N", 1), v.int("M", 1), v.int("w", 1)
    f = v.target(F + ".compute_orders")

    def run():
        Y, y = v.mat("Y", N)
        half = N / 2 + N % 2  # ceil(N/2)
        v.given(N > 2)
        v.given(M * w < half)  # the harmonics lie in the spectrum
        S1, ST = f(Y, wrap(N), wrap(M), wrap(w))
        FT = np.fft.fft(Y)
        P = lambda k: toreal(FT.mag(toint(k))) * toreal(FT.mag(toint(k))) / (toreal(N) * toreal(N))
        V = SUM(half - 1, lambda k: P(k + 1))
        h = SUM(M, lambda k: P((k + 1) * w))
        low = SUM(w / 2, lambda k: P(k + 1))
        v.prove_eq("S1 is the share of the spectrum at the first M harmonics", S1, h / V)
        v.prove_eq("ST is one minus the share below half the base frequency", ST, 1 - low / V)
        # sums of squares
        for nm, s in (("harmonics", h), ("low frequencies", low), ("spectrum", V)):
            nonneg(v, nm, s)
        v.prove("S1 >= 0 and ST <= 1", z3.Implies(norm(V) > 0, z3.And(norm(h) / norm(V) >= 0, 1 - norm(low) / norm(V) <= 1)))

    v.explore(run)


def nonneg(v, nm, s):
    """SUM(n, f) >= 0 from f >= 0 on the range (induction on n, the rule of the SUM theory)"""
    s = norm(s)
    C = v.C
    ts = [t for t in apps(s, "SUM") if t.decl().name() == "SUM"]
    for t in ts:
        k = z3.FreshConst(Int, "nn")
        body = z3.substitute_vars(t.arg(1).body(), k)
        if v.prove(f"terms of the sum over the {nm} are not negative", z3.Implies(z3.And(0 <= k, k < t.arg(0)), body >= 0)):
            C.pc.append(t >= 0)


def fast_blocks(v):
    """fast.analyze: each parameter's own block"""
    C = v.C
    D, N, M, B = v.int("D", 1), v.int("N", 1), v.int("M", 1), v.int("R", 2)
    m = v.module(F)
    v.under(F + ".analyze")
    S1F, STF = ufn("spec_S1", KeySort, Int, Int, Int, Real), ufn("spec_ST", KeySort, Int, Int, Int, Real)
    B1, B2 = ufn("boot_S1", KeySort, Int, Int, Int, Real, Real), ufn("boot_ST", KeySort, Int, Int, Int, Real, Real)

    def orders_(Y, n, m_, w):
        Y = as_arr(Y)
        a = (key_of(Y), toint(n), toint(m_), toint(w))
        v.prove("the block handed over has N outputs", toint(Y.shape[0]) == a[1])
        return wrap(S1F(*a)), wrap(STF(*a))

    def boot_(Y, m_, n, conf):
        Y = as_arr(Y)
        a = (key_of(Y), toint(Y.shape[0]), toint(m_), toint(n), toreal(conf))
        return wrap(B1(*a)), wrap(B2(*a))

    v.stub(F, "compute_orders", orders_, "callee contract: compute_orders (proved in its own contract)")
    v.stub(F, "bootstrap", boot_, "callee contract: bootstrap is a function of the block (proved in its own contract)")

    def run():
        p = problem(v, D)
        Y, y = v.mat("Y", N * D)
        conf = v.real("conf")
        v.given(z3.And(conf > 0, conf < 1))
        Si = m.analyze(p, Y, M=wrap(M), num_resamples=wrap(B), conf_level=wrap(conf), seed=wrap(v.int("seed", 0)))
        i = v.fresh_int("i", 0, D)
        blk = key_of(Arr((wrapdim(N),), CFn(lambda r: y(i * N + toint(r))), "real"))
        w = (N - 1) / (2 * M)
        v.prove_eq("S1 of parameter i from its own block", Si["S1"][wrap(i)], S1F(blk, N, M, w))
        v.prove_eq("ST of parameter i from its own block", Si["ST"][wrap(i)], STF(blk, N, M, w))
        v.prove_eq("S1_conf of parameter i from its own block", Si["S1_conf"][wrap(i)], B1(blk, N, M, B, conf))
        v.prove_eq("ST_conf of parameter i from its own block", Si["ST_conf"][wrap(i)], B2(blk, N, M, B, conf))
        v.prove("names of the parameters", Si["names"] is p["names"])

    v.explore(run)


def fast_boot(v):
    C = v.C
    N, M, B = v.int("N", 1), v.int("M", 1), v.int("R", 2)
    f = v.target(F + ".bootstrap")
    S1F, STF = ufn("spec_S1", KeySort, Int, Int, Int, Real), ufn("spec_ST", KeySort, Int, Int, Int, Real)
    v.stub(F, "compute_orders", lambda Y, n, m_, w: (wrap(S1F(key_of(Y), toint(n), toint(m_), toint(w))), wrap(STF(key_of(Y), toint(n), toint(m_), toint(w)))), "callee contract: compute_orders (proved in its own contract)")

    def run():
        Y, y = v.mat("Y", N)
        conf = v.real("conf")
        v.given(z3.And(conf > 0, conf < 1))
        c1, c2 = f(Y, wrap(M), wrap(B), wrap(conf))
        ev = [e for e in C.events if e[0] in ("draw", "loop")]
        v.expect("one draw per resample", len(ev) == 1 and ev[0][0] == "loop" and ev[0][3][0] == "draw")
        n = N / 2 + N % 2
        fn, sh = ev[0][3][2], ev[0][3][3]
        v.prove("half of the outputs per resample", toint(sh[0]) == n)
        q = v.fresh_int("q", 0, n)
        g = fn(q).decl()
        b = v.fresh_int("b", 0, B)
        v.prove("drawn with replacement among the outputs", z3.And(0 <= g(b, q), g(b, q) < N))
        any_row(v, ev[0], N)
        rs = lambda G: Arr((wrapdim(B),), CFn(lambda b: G(key_of(Arr((wrapdim(n),), CFn(lambda q: y(g(toint(b), toint(q)))), "real")), n, M, (n - 1) / (2 * M))), "real")
        z = ppf(norm(z3.Q(1, 2) + conf / 2))
        v.prove_eq("S1_conf is the quantile times the deviation of the resampled S1", c1, z * toreal(np.std(rs(S1F), ddof=1)))
        v.prove_eq("ST_conf is the quantile times the deviation of the resampled ST", c2, z * toreal(np.std(rs(STF), ddof=1)))

    v.explore(run)


def fast_refuse(v, what):
    C = v.C
    D, n = v.int("D", 1), v.int("n", 1)
    m = v.module(F)
    v.under(F + ".analyze")

    def run():
        conf = v.real("conf")
        if what == "length":
            v.given(n % D != 0)
            v.given(z3.And(conf > 0, conf < 1))
        else:
            v.given(n % D == 0)
            v.given(z3.Or(conf <= 0, conf >= 1))
        try:
            m.analyze(problem(v, D), v.mat("Y", n)[0], conf_level=wrap(conf))
        except (ValueError, RuntimeError):
            v.prove("refused", True)
            return
        v.prove("refused", False)

    v.explore(run)


def permuted(v):
    """permute_outputs: up through the odd-ranked values, down through the even-ranked ones"""
    C = v.C
    N = v.int("N", 1)
    f = v.target(R + ".permute_outputs")

    def run():
        X, x = v.mat("X", N)
        # the outputs are the row numbers: the result tells which row went where
        Y = Arr((wrapdim(N),), CFn(lambda k: toreal(k)), "real")
        out = as_arr(f(X, Y))
        v.prove("as many outputs as given", toint(out.shape[0]) == N)
        up = N / 2 + N % 2
        a, b = v.fresh_int("a", 0, N), v.fresh_int("b", 0, N)
        ra, rb = toint(np.real_to_int(norm(toreal(out.read(a)))) if False else z3.ToInt(toreal(out.read(a)))), z3.ToInt(toreal(out.read(b)))
        v.prove("each entry is one of the outputs", z3.And(0 <= ra, ra < N))
        v.prove("no output twice", z3.Implies(a != b, ra != rb))
        v.prove("up in the first half", z3.Implies(z3.And(a < b, b < up), x(ra) <= x(rb)))
        v.prove("down in the second half", z3.Implies(z3.And(up <= a, a < b), x(ra) >= x(rb)))
        # interleaved: position k of the first half has rank 2k, position N-1-k rank 2k+1
        v.prove("odd-ranked first, even-ranked last", z3.Implies(z3.And(a < up, b >= up), z3.If(a <= N - 1 - b, x(ra) <= x(rb), x(ra) >= x(rb))))

    v.explore(run)


PER = ufn("PERIODOGRAM", KeySort, Int, Int, Real)


def periodogram(v):
    def pg(x, *a, **k):
        if a or k:
            raise Unsupported("periodogram called with options")
        x = as_arr(x)
        n = toint(x.shape[0])
        kx = key_of(x)
        sh = (wrapdim(n / 2 + 1),)
        return Arr(sh, CFn(lambda i: ufn("freq", Int, Int, Real)(n, toint(i))), "real"), Arr(sh, CFn(lambda i: PER(kx, n, toint(i))), "real")

    v.stub(R, "periodogram", pg, "assumed contract of scipy.signal.periodogram: floor(n/2)+1 powers, a function of the sequence")


def first_order(v):
    C = v.C
    N, M = v.int("N", 2), v.int("M", 1)
    f, g = v.target(R + ".compute_first_order"), v.target(R + ".unskew_S1")
    periodogram(v)

    def run():
        v.given(M < N / 2)
        Y, y = v.mat("Y", N)
        s = f(Y, wrap(M))
        k = key_of(Y)
        v.prove_eq("share of the power at the first M harmonics", s, SUM(M, lambda i: PER(k, N, i + 1)) / SUM(N / 2, lambda i: PER(k, N, i + 1)))
        S = v.real("S")
        u = g(wrap(S), wrap(M), wrap(N))
        la = toreal(2 * M) / toreal(N)
        v.prove_eq("bias correction", u, S - la / (1 - la) * (1 - S))

    v.explore(run)


def rbd(v):
    """rbd_fast.analyze: each parameter's own column"""
    C = v.C
    D, N, M, B = v.int("D", 1), v.int("N", 2), v.int("M", 1), v.int("R", 2)
    m = v.module(R)
    v.under(R + ".analyze", R + ".bootstrap")
    PO, FO, UN = ufn("permuted", KeySort, KeySort, Int, Int, Real), ufn("share", KeySort, Int, Int, Real), ufn("unskewed", Real, Int, Int, Real)

    def po(X, Y):
        kx, ky, n = key_of(X), key_of(Y), toint(as_arr(Y).shape[0])
        v.prove("as many inputs as outputs", toint(as_arr(X).shape[0]) == n)
        return Arr((wrapdim(n),), CFn(lambda i: PO(kx, ky, n, toint(i))), "real")

    v.stub(R, "permute_outputs", po, "callee contract: permute_outputs (proved in its own contract)")
    v.stub(R, "compute_first_order", lambda P, m_: wrap(FO(key_of(P), toint(as_arr(P).shape[0]), toint(m_))), "callee contract: compute_first_order (proved in its own contract)")
    v.stub(R, "unskew_S1", lambda s, m_, n: wrap(UN(toreal(s), toint(m_), toint(n))), "callee contract: unskew_S1 (proved in its own contract)")

    def run():
        p = problem(v, D)
        X, x = v.mat("X", N, D)
        Y, y = v.mat("Y", N)
        conf = v.real("conf")
        v.given(z3.And(conf > 0, conf < 1))
        Si = m.analyze(p, X, Y, M=wrap(M), num_resamples=wrap(B), conf_level=wrap(conf), seed=wrap(v.int("seed", 0)))
        i = v.fresh_int("i", 0, D)

        def s1(xf, yf, n):
            kx, ky = (key_of(Arr((wrapdim(n),), CFn(lambda r: g(toint(r))), "real")) for g in (xf, yf))
            return UN(FO(key_of(Arr((wrapdim(n),), CFn(lambda r: PO(kx, ky, n, toint(r))), "real")), n, M), M, n)

        v.prove_eq("S1 of parameter i from its own column", Si["S1"][wrap(i)], s1(lambda r: x(r, i), lambda r: y(r), N))
        ev = [e for e in C.events if e[0] in ("draw", "loop")]
        v.expect("one draw per resample of each parameter", len(ev) == 1 and ev[0][0] == "loop" and ev[0][3][0] == "loop" and ev[0][3][3][0] == "draw")
        fn, sh = ev[0][3][3][2], ev[0][3][3][3]
        n = N / 2
        v.prove("half of the samples per resample", toint(sh[0]) == n)
        q, b = v.fresh_int("q", 0, n), v.fresh_int("b", 0, B)
        g = fn(q).decl()
        v.prove("drawn with replacement among the samples", z3.And(0 <= g(i, b, q), g(i, b, q) < N))
        any_row(v, ev[0], N)
        boot = Arr((wrapdim(B),), CFn(lambda b: s1(lambda r: x(g(i, toint(b), r), i), lambda r: y(g(i, toint(b), r)), n)), "real")
        v.prove_eq("S1_conf is the quantile times the deviation of the resampled S1", Si["S1_conf"][wrap(i)], ppf(norm(z3.Q(1, 2) + conf / 2)) * toreal(np.std(boot, ddof=1)))
        v.prove("names of the parameters", Si["names"] is p["names"])

    v.explore(run)


CONTRACTS = [("fast.compute_orders", orders), ("fast.analyze", fast_blocks), ("fast.bootstrap", fast_boot), ("fast.analyze refuses lengths", lambda v: fast_refuse(v, "length")),
             ("fast.analyze refuses levels", lambda v: fast_refuse(v, "conf")), ("rbd_fast.permute_outputs", permuted), ("rbd_fast.compute_first_order", first_order), ("rbd_fast.analyze", rbd)]
