"""C04: Sobol' analysis computes the documented estimators on the matching rows."""
from .common import *

META = {}
np = npshim


def spec_first(A, AB, B):
    """mean(B (AB - A)) / var(A, B)"""
    return np.mean(B * (AB - A), axis=0) / np.var(np.concatenate([A, B]), axis=0)


def spec_total(A, AB, B):
    return np.mean((A - AB) ** 2, axis=0) / (2 * np.var(np.concatenate([A, B]), axis=0))


def spec_second(A, ABj, ABk, BAj, B):
    v = np.var(np.concatenate([A, B]), axis=0)
    return np.mean(BAj * ABk - A * B, axis=0) / v - spec_first(A, ABj, B) - spec_first(A, ABk, B)


def estimators(v, ndim):
    """the three estimator functions, on one sample (ndim 1) or resamples in columns (2)"""
    C = v.C
    N = v.int("N", 1)
    R = v.int("R", 1)
    m = v.module("SALib.analyze.sobol")
    v.under("SALib.analyze.sobol.first_order", "SALib.analyze.sobol.total_order", "SALib.analyze.sobol.second_order")
    sh = (N,) if ndim == 1 else (N, R)

    def run():
        A, B, P, Q, U = [v.mat(n, *sh)[0] for n in ("A", "B", "P", "Q", "U")]
        ptp = np.ptp(np.concatenate([A, B]))
        C.pc.append(toreal(ptp) != 0)
        q = () if ndim == 1 else (v.fresh_int("r", 0, R),)
        rd = lambda x: as_arr(x).read(*q)
        v.prove_eq("S1 = mean(B (AB - A)) / var(A,B)", rd(m.first_order(A, P, B)), rd(spec_first(A, P, B)))
        v.prove_eq("ST = mean((A - AB)^2) / (2 var(A,B))", rd(m.total_order(A, P, B)), rd(spec_total(A, P, B)))
        v.prove_eq("S2 = mean(BA_j AB_k - A B) / var(A,B) - S1_j - S1_k", rd(m.second_order(A, P, Q, U, B)), rd(spec_second(A, P, Q, U, B)))

    v.explore(run)


def invariance(v):
    """estimators of the negated outputs equal those of the outputs"""
    C = v.C
    N = v.int("N", 1)
    m = v.module("SALib.analyze.sobol")

    def run():
        A, B, P, Q, U = [v.mat(n, N)[0] for n in ("A", "B", "P", "Q", "U")]
        C.pc.append(toreal(np.ptp(np.concatenate([A, B]))) != 0)
        C.pc.append(toreal(np.ptp(np.concatenate([-A, -B]))) != 0)
        v.prove_eq("S1 unchanged by negation", m.first_order(-A, -P, -B), m.first_order(A, P, B))
        v.prove_eq("ST unchanged by negation", m.total_order(-A, -P, -B), m.total_order(A, P, B))
        v.prove_eq("S2 unchanged by negation", m.second_order(-A, -P, -Q, -U, -B), m.second_order(A, P, Q, U, B))

    v.explore(run)


def rows(v, second):
    """analyze(): standardise, separate by stride, apply the estimators, bootstrap"""
    C = v.C
    D = v.int("D", 1)
    N = v.int("N", 1)
    R = v.int("R", 2)
    m = v.module("SALib.analyze.sobol")
    v.under("SALib.analyze.sobol.analyze", "SALib.analyze.sobol.create_Si_dict")
    # callee contracts: the estimators are functions of the columns they are given
    calls = []

    def est(name, nargs):
        F1 = ufn("est_" + name, *([KeySort] * nargs), Real)

        def key(a):
            a = as_arr(a)
            t = z3.FreshConst(Int, "t")
            return funkey(t, norm(toreal(a.read(t)))), a

        def f(*args):
            args = [as_arr(a) for a in args]
            if args[0].ndim == 1:
                return wrap(F1(*[key(a)[0] for a in args]))
            R_ = args[0].shape[1]

            def cell(r):
                ks = []
                for a in args:
                    t = z3.FreshConst(Int, "t")
                    ks.append(funkey(t, norm(toreal(a.read(t, r)))))
                return F1(*ks)

            return Arr((R_,), CFn(cell), "real")

        return f

    names = {"first_order": 3, "total_order": 3, "second_order": 5}
    E = {n: est(n, k) for n, k in names.items()}
    for n in names:
        v.stub("SALib.analyze.sobol", n, E[n], "callee contract: first_order/total_order/second_order are functions of the given columns (their formulas are proved in the estimator contracts)")
    def sep(Y, D_, N_, second_):
        v.prove("separate_output_values is given the design's sizes", z3.And(toint(D_) == D, toint(N_) == N, z3.BoolVal(bool(second_) == second)))
        rd = as_arr(Y).reader()
        S_ = (2 * D + 2) if second else (D + 2)
        col = lambda off: Arr((wrapdim(N),), CFn(lambda i: rd(toint(i) * S_ + off)), "real")
        mat = lambda off: Arr((wrapdim(N), wrapdim(D)), CFn(lambda i, j: rd(toint(i) * S_ + toint(j) + off)), "real")
        return col(0), col(S_ - 1), mat(1), (mat(1 + D) if second else None)

    v.stub("SALib.analyze.sobol", "separate_output_values", sep, "callee contract: separate_output_values gives the stride columns (proved in its own contract)")
    v.stub("SALib.analyze.sobol", "extract_group_names", lambda p: (p["names"], wrap(D)), "callee contract: extract_group_names gives the number of groups (C15)")

    def run():
        p = problem(v, D)
        S = (2 * D + 2) if second else (D + 2)
        Y, y = v.mat("Y", N * S)
        conf = v.real("conf")
        C.pc += [conf > 0, conf < 1]
        seed = v.int("seed", 0)
        Si = m.analyze(p, Y, calc_second_order=second, num_resamples=wrap(R), conf_level=wrap(conf), seed=wrap(seed), keep_resamples=True)
        mu, sd = np.mean(Y), np.std(Y)
        st = lambda k: (y(k) - toreal(mu)) / toreal(sd)
        col = lambda off: Arr((wrapdim(N),), CFn(lambda i: st(i * S + off)), "real")
        A, B = col(0), col(S - 1)
        AB = lambda j: col(1 + j)
        BA = lambda j: col(1 + D + j)
        j = v.fresh_int("j", 0, D)
        v.prove_eq("S1_j pairs A, AB_j, B", Si["S1"].read(j), E["first_order"](A, AB(j), B))
        v.prove_eq("ST_j pairs A, AB_j, B", Si["ST"].read(j), E["total_order"](A, AB(j), B))
        # bootstrap
        ev = [e for e in C.events if e[0] == "draw"]
        r = Si["S1_conf_all"]
        v.prove("one draw of base points", len(ev) == 1)
        f, sh = ev[0][2], ev[0][3]
        v.prove("N base points per resample", z3.And(toint(sh[0]) == N, toint(sh[1]) == R))
        cols = lambda c: Arr((wrapdim(N), wrapdim(R)), CFn(lambda i, q: c.read(f(i, q))), "real")
        i, q = v.fresh_int("i", 0, N), v.fresh_int("q", 0, R)
        v.prove("drawn with replacement among the N base points", z3.And(0 <= f(i, q), f(i, q) < N))
        any_row(v, ev[0], N)
        Z = ufn("ppf_stdnorm", Real, Real)(norm((1 + conf) / 2))
        boot = {"S1": E["first_order"](cols(A), cols(AB(j)), cols(B)), "ST": E["total_order"](cols(A), cols(AB(j)), cols(B))}
        const = toreal(np.ptp(np.concatenate([cols(A), cols(B)]))) == 0
        for k in ("S1", "ST"):
            v.prove_eq(f"resampled {k}_j uses the same base points for all matrices", Si[k + "_conf_all"].read(q, j), boot[k].read(q))
            v.prove_eq(f"{k}_conf is the quantile times the sample standard deviation of the resamples", Si[k + "_conf"].read(j),
                       z3.If(const, z3.RealVal(0), Z * toreal(np.std(boot[k], ddof=1))))
        if second:
            k2 = v.fresh_int("k2", 0, D)
            s2 = Si["S2"]
            x, c = s2.read(j, k2), Si["S2_conf"].read(j, k2)
            save = list(C.pc)
            C.pc.append(j < k2)
            v.prove_eq("S2_jk pairs A, AB_j, AB_k, BA_j, B", x, E["second_order"](A, AB(j), AB(k2), BA(j), B))
            b = E["second_order"](cols(A), cols(AB(j)), cols(AB(k2)), cols(BA(j)), cols(B))
            v.prove_eq("S2_conf is the quantile times the sample standard deviation of the resamples", c, Z * toreal(np.std(b, ddof=1)))
            C.pc[:] = save
            C.pc.append(j >= k2)
            v.prove_eq("S2 is NaN on and below the diagonal", x, np.nan)
            v.prove_eq("S2_conf is NaN on and below the diagonal", c, np.nan)
            C.pc[:] = save

    v.explore(run)


def separate(v, second):
    """separate_output_values: entry (i,j) of each matrix is the output of its row of block i"""
    C = v.C
    D, N = v.int("D", 1), v.int("N", 1)
    f = v.target("SALib.analyze.sobol.separate_output_values")

    def run():
        S = (2 * D + 2) if second else (D + 2)
        Y, y = v.mat("Y", N * S)
        A, B, AB, BA = f(Y, wrap(D), wrap(N), second)
        i, j = v.fresh_int("i", 0, N), v.fresh_int("j", 0, D)
        for n, M, off, nd in (("A", A, 0, 1), ("B", B, S - 1, 1), ("AB", AB, 1 + j, 2)) + ((("BA", BA, 1 + D + j, 2),) if second else ()):
            v.prove(f"{n} has one row per base point", toint(M.shape[0]) == N)
            if nd == 2:
                v.prove(f"{n} has one column per group", toint(M.shape[1]) == D)
            v.prove_eq(f"{n} holds its rows of every block", M.read(*([i] if nd == 1 else [i, j])), y(i * S + off))
        if not second:
            v.prove("no BA without second order", BA is None)

    v.explore(run)


def standard(v):
    """standardisation of a Y + b is that of Y up to the sign of a"""
    C = v.C
    n = v.int("n", 1)

    def run():
        Y, y = v.mat("Y", n)
        a, b = v.real("a"), v.real("b")
        sd = toreal(np.std(Y))
        C.pc += [a != 0, sd > 0]
        W = Y * wrap(a) + wrap(b)
        std = lambda Z: (Z - Z.mean()) / Z.std()
        i = v.fresh_int("i", 0, n)
        V0, V1 = toreal(np.var(Y)), toreal(np.var(W))
        v.prove_eq("var(aY+b) = a^2 var(Y)", V1, a * a * V0)
        s1 = toreal(np.std(W))
        # s1 = sqrt(a^2 V0), sd = sqrt(V0)
        C.pc += [s1 >= 0, s1 * s1 == V1, sd * sd == V0, V1 == a * a * V0]
        v.prove("std(aY+b) = |a| std(Y)", s1 == z3.If(a > 0, a, -a) * sd)
        C.pc.append(s1 == z3.If(a > 0, a, -a) * sd)
        num = norm(W.read(i) - toreal(W.mean()))
        v.prove_eq("centred aY+b = a (centred Y)", num, norm(a * (y(i) - toreal(Y.mean()))))
        e = norm(y(i) - toreal(Y.mean()))
        x = z3.Real("x_c")
        C.pc.append(x == e)
        v.prove("standardised aY+b = sign(a) standardised Y", (a * x) / s1 == z3.If(a > 0, x / sd, -(x / sd)))

    v.explore(run)


CONTRACTS = [("estimators on one sample", lambda v: estimators(v, 1)), ("estimators on resamples", lambda v: estimators(v, 2)),
             ("sign invariance", invariance), ("standardisation", standard),
             ("separate_output_values[2nd]", lambda v: separate(v, True)), ("separate_output_values[1st]", lambda v: separate(v, False)),
             ("analyze[2nd]", lambda v: rows(v, True)), ("analyze[1st]", lambda v: rows(v, False))]
