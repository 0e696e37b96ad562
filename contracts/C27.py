"""C27: the test functions equal their published formulas, row by row."""
from .common import *

META = {}
np = npshim
P = "SALib.test_functions."
sin, cos = ufn("sin", Real, Real), ufn("cos", Real, Real)


def row_contract(v, mod, cols, formula, args=(), D=None):
    C = v.C
    N = v.int("N", 1)
    m = v.module(P + mod)
    v.under(P + mod + ".evaluate")

    def run():
        X, x = v.mat("X", N, cols)
        a = [wrap(v.real(n)) for n in args]
        Y = as_arr(m.evaluate(X, *a))
        v.prove("one value per row", toint(Y.shape[0]) == N)
        r = v.fresh_int("r", 0, N)
        v.prove_eq("value of row r depends on row r alone", Y.read(r), formula(lambda k: x(r, k), *[term(t) for t in a]))

    v.explore(run)


def ishigami(v):
    row_contract(v, "Ishigami", 3, lambda x, A, B: sin(x(0)) + A * sin(x(1)) * sin(x(1)) + B * x(2) * x(2) * x(2) * x(2) * sin(x(0)), ("A", "B"))


def ishigami_default(v):
    q = z3.RealVal
    row_contract(v, "Ishigami", 3, lambda x: sin(x(0)) + 7 * sin(x(1)) * sin(x(1)) + q("0.1") * x(2) * x(2) * x(2) * x(2) * sin(x(0)))


def linear1(v):
    row_contract(v, "linear_model_1", 5, lambda x: x(0) + x(1) + x(2) + x(3) + x(4))


def linear2(v):
    row_contract(v, "linear_model_2", 5, lambda x: 5 * x(0) + 4 * x(1) + 3 * x(2) + 2 * x(3) + x(4))


def oakley(v):
    C = v.C
    N, D = v.int("N", 1), v.int("D", 1)
    m = v.module(P + "oakley2004")
    v.under(P + "oakley2004.evaluate")

    def run():
        X, x = v.mat("X", N, D)
        A, a = v.mat("A", 3, D)
        M, mm = v.mat("M", D, D)
        Y = as_arr(m.evaluate(X, A, M))
        v.prove("one value per row", toint(Y.shape[0]) == N)
        r = v.fresh_int("r", 0, N)
        want = SUM(D, lambda j: a(0, j) * x(r, j)) + SUM(D, lambda j: a(1, j) * sin(x(r, j))) + SUM(D, lambda j: a(2, j) * cos(x(r, j))) + SUM(D, lambda i: SUM(D, lambda j: mm(i, j) * x(r, i) * x(r, j)))
        v.prove_eq("a1'x + a2'sin x + a3'cos x + x'Mx of row r alone", Y.read(r), want)

    v.explore(run)


def lake_step(v):
    m = v.module(P + "lake_problem")
    v.under(P + "lake_problem.lake_problem")
    N = v.int("N", 1)

    def run():
        X, x = v.mat("X", N)
        A, a = v.mat("a", N)
        Q, q = v.mat("q", N)
        B, b = v.mat("b", N)
        E, e = v.mat("eps", N)
        Y = as_arr(m.lake_problem(X, A, Q, B, E))
        r = v.fresh_int("r", 0, N)
        p = t_pow(x(r), q(r))
        v.prove_eq("X + a + X^q/(1+X^q) - bX + eps, row by row", Y.read(r), x(r) + a(r) + p / (1 + p) - b(r) * x(r) + e(r))

    v.explore(run)


def sobol_g(v, given):
    C = v.C
    N, D = v.int("N", 1), v.int("D", 1)
    m = v.module(P + "Sobol_G")
    v.under(P + "Sobol_G.evaluate")

    def run():
        X, x = v.mat("X", N, D if given else 8)
        n = D if given else z3.IntVal(8)
        A, a = v.mat("a", D)
        DL, dl = v.mat("delta", D)
        AL, al = v.mat("alpha", D)
        j, k = v.fresh_int("j", 0, n), v.fresh_int("r", 0, N)
        r = v.fresh_int("bad_r", 0, N)
        if not given:
            dl = lambda j: z3.RealVal(0)
            al = lambda j: z3.RealVal(1)
            a = as_arr(PList([0, 1, 4.5, 9, 99, 99, 99, 99])).reader()
        t = z3.Int("t")
        raised = False
        try:
            Y = as_arr(m.evaluate(X, A, DL, AL) if given else m.evaluate(X))
        except ValueError:
            raised = True
        q1, q2 = z3.Ints("q1 q2")
        illegal = z3.Or(z3.Exists([q1, q2], z3.And(0 <= q1, q1 < N, 0 <= q2, q2 < n, z3.Or(x(q1, q2) < 0, x(q1, q2) > 1))),
                        z3.Exists([q1], z3.And(0 <= q1, q1 < n, z3.Or(dl(q1) < 0, dl(q1) > 1))),
                        z3.Exists([q1], z3.And(0 <= q1, q1 < n, al(q1) <= 0)))
        if raised:
            v.prove("raises only for inputs outside [0,1], shifts outside [0,1] or curvatures <= 0", illegal)
            return
        v.prove("inputs outside [0,1], shifts outside [0,1] and curvatures <= 0 are refused", z3.Not(illegal))

        def g(j):
            s = x(k, j) + dl(j)
            frac = s - z3.ToReal(z3.ToInt(s))
            return ((1 + al(j)) * t_pow(t_abs(2 * frac - 1), al(j)) + toreal(a(j))) / (1 + toreal(a(j)))

        want = np.prod(seq(n, g))
        v.prove("one value per row", toint(Y.shape[0]) == N)
        v.prove_eq("product of the factors of row r alone", Y.read(k), want)

    v.explore(run)


def variances(v):
    C = v.C
    D = v.int("D", 1)
    m = v.module(P + "Sobol_G")
    v.under(P + "Sobol_G._partial_first_order_variance", P + "Sobol_G._total_variance", P + "Sobol_G.sensitivity_index", P + "Sobol_G.total_sensitivity_index")

    def run():
        A, a = v.mat("a", D)
        AL, al = v.mat("alpha", D)
        t = z3.Int("t")
        v.given(z3.ForAll([t], z3.And(a(t) >= 0, al(t) > 0)))
        pv = lambda j: al(j) * al(j) / ((1 + 2 * al(j)) * (1 + a(j)) * (1 + a(j)))
        prod = np.prod(seq(D, lambda j: 1 + pv(j)))
        V = term(prod) - 1
        v.given(V > 0)
        j = v.fresh_int("j", 0, D)
        v.prove_eq("partial variance", as_arr(m._partial_first_order_variance(A, AL)).read(j), pv(j))
        v.prove_eq("total variance", term(m._total_variance(A, AL)), V)
        v.prove_eq("first-order index", as_arr(m.sensitivity_index(A, AL)).read(j), pv(j) / V)
        v.prove_eq("total index", as_arr(m.total_sensitivity_index(A, AL)).read(j), pv(j) * (term(prod) / (1 + pv(j))) / V)

    v.explore(run)


def sum_at_most_one(v):
    """lemma (induction on the parameters): the first-order indices sum to at most one, i.e. sum v_j <= prod (1+v_j) - 1 for v_j >= 0"""
    def run():
        s, p, x = v.real("s"), v.real("p"), v.real("x")
        v.given(z3.And(s >= 0, x >= 0, s <= p - 1))
        v.prove("step", s + x <= p * (1 + x) - 1)
        v.prove("base", z3.RealVal(0) <= z3.RealVal(1) - 1)

    v.explore(run)


def types(v):
    m = v.module(P + "Sobol_G")
    N, D = v.int("N", 1), v.int("D", 1)

    def run():
        X, x = v.mat("X", N, D)
        A, a = v.mat("a", D)
        L = PList.sym(D, lambda i: wrap(z3.RealVal(0)))
        for what, call in (("values", lambda: m.evaluate(L)), ("delta", lambda: m.evaluate(X, A, L)), ("alpha", lambda: m.evaluate(X, A, None, L))):
            try:
                call()
                ok = False
            except TypeError:
                ok = True
            except ValueError:
                ok = True
            v.prove(f"{what} that is not an array is refused", z3.BoolVal(ok))

    v.explore(run)


CONTRACTS = [("Ishigami", ishigami), ("Ishigami[defaults]", ishigami_default), ("linear 1", linear1), ("linear 2", linear2), ("Oakley-O'Hagan", oakley), ("lake step", lake_step),
             ("Sobol-G", lambda v: sobol_g(v, True)), ("Sobol-G[defaults]", lambda v: sobol_g(v, False)), ("Sobol-G variances", variances), ("indices sum to at most one", sum_at_most_one), ("Sobol-G types", types)]
