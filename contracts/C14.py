"""C14: fractional factorial designs are orthogonal fold-overs with correct contrasts."""
from .common import *

META = {}
np = npshim
S, A = "SALib.sample.ff", "SALib.analyze.ff"
L = ufn("LOG2UP", Int, Int)
pow2 = ufn("pow2", Int, Int)
HAD = ufn("HAD", Int, Int, Int, Int)
LIMIT = 2 ** 20


def smallest(v):
    C = v.C
    D = v.int("D", 1)
    v.given(D <= LIMIT)
    f = v.target(S + ".find_smallest")

    def run():
        x = f(wrap(D))
        x = x if isinstance(x, int) else z3.simplify(term(x)).as_long()
        v.prove("the power is not below the number of parameters", 2 ** x >= D)
        v.prove("and the next smaller one is", z3.BoolVal(x == 0) if x <= 0 else 2 ** (x - 1) < D)

    v.explore(run)


def exponent(n):
    """contract of find_smallest: the least x >= 0 with n <= 2**x"""
    C = Ctx.cur
    n = norm(toint(n))
    if n.decl().eq(pow2):
        return wrap(n.arg(0))  # powers of two are strictly increasing
    x = L(n)
    C.assume(z3.And(x >= 0, pow2(x) >= n, pow2(x) >= 1, z3.Implies(n <= 1, x == 0), z3.Implies(n > 1, pow2(x) < 2 * n)))
    return wrap(x)


def hadamard(n, dtype=int):
    """assumed contract of scipy.linalg.hadamard"""
    n = toint(n)
    return Arr((wrapdim(n), wrapdim(n)), CFn(lambda i, j: HAD(n, toint(i), toint(j))), "int")


def setting(v):
    v.stub(S, "find_smallest", exponent, "callee contract: find_smallest (its own contract)")
    v.stub(S, "hadamard", hadamard, "assumed contract of scipy.linalg.hadamard: entries +1 or -1, first column all +1, different columns orthogonal")
    C = v.C
    k, i, j = z3.Ints("k i j")
    C.assume(z3.ForAll([k, i, j], z3.Or(HAD(k, i, j) == 1, HAD(k, i, j) == -1), patterns=[HAD(k, i, j)]))
    return norm(pow2(L(v.int("D", 1))))


def halves(C, K, f):
    """a sum over 2K terms is the sum over the first K and over the last K (rule of sums)"""
    whole = SUM(2 * K, f)
    C.assume(whole == SUM(K, f) + SUM(K, lambda t: f(t + K)))
    return whole


def design(v):
    C = v.C
    K = setting(v)
    D = v.int("D", 1)
    m = v.module(S)
    v.under(S + ".generate_contrast")

    def run():
        M = as_arr(m.generate_contrast(problem(v, D)))
        v.prove("2k rows, k columns", z3.BoolVal(False) if M.ndim != 2 else z3.And(toint(M.shape[0]) == 2 * K, toint(M.shape[1]) == K))
        v.prove("k is a power of two not below the number of parameters", z3.And(K >= D, z3.Implies(D > 1, K < 2 * D), z3.Implies(D <= 1, K == pow2(0))))
        q, c, e = v.fresh_int("q", 0, K), v.fresh_int("c", 0, K), v.fresh_int("e", 0, K)
        v.prove_eq("first half: the Hadamard matrix", M.read(q, c), HAD(K, q, c))
        v.prove_eq("second half: every level flipped", M.read(norm(q + K), c), -HAD(K, q, c))
        col = lambda t, c: toint(M.read(norm(t), c))
        g = v.fresh_int("g", 0, 2 * K)
        v.prove("every entry is +1 or -1", z3.Or(col(g, c) == 1, col(g, c) == -1))
        # balance: the flipped half cancels the first, term by term
        v.prove_eq("balanced: the two halves cancel", SUM(K, lambda t: toreal(col(t, c))) + SUM(K, lambda t: toreal(col(t + K, c))), z3.RealVal(0))
        # orthogonality: each half contributes the product of two columns of the Hadamard matrix
        had = lambda c, e: SUM(K, lambda t: toreal(HAD(K, t, c)) * toreal(HAD(K, t, e)))
        C.pc.append(c != e)
        C.assume(had(c, e) == 0)
        v.prove_eq("orthogonal: first half", SUM(K, lambda t: toreal(col(t, c)) * toreal(col(t, e))), z3.RealVal(0))
        v.prove_eq("orthogonal: second half", SUM(K, lambda t: toreal(col(t + K, c)) * toreal(col(t + K, e))), z3.RealVal(0))

    v.explore(run)


def text(i):
    return ufn("STRCAT", Obj, Obj, Obj)(term("dummy_"), ufn("STR", Int, Obj)(i))


def unchanged(v, tag, p, D, pn, marker=False):
    keys = set(p.keys())
    v.prove(f"{tag}: no entry added or removed", z3.BoolVal(keys - ({"sample_scaled"} if marker else set()) == {"num_vars", "names", "bounds"}))
    v.prove(f"{tag}: number of parameters as given", toint(p["num_vars"]) == D)
    b, n = p["bounds"], p["names"]
    v.prove(f"{tag}: as many bounds and names", z3.And(toint(libs.py_len(b)) == D, toint(libs.py_len(n)) == D))
    j = v.fresh_int("uj", 0, D)
    v.prove(f"{tag}: bounds and names as given", z3.And(term(b[wrap(j)][0]) == ufn("lo", Int, Real)(j), term(b[wrap(j)][1]) == ufn("hi", Int, Real)(j), term(n[wrap(j)]) == pn(j)))


def extended(v, tag, e, D, K, pn):
    v.prove(f"{tag}: k parameters", toint(e["num_vars"]) == K)
    b, n = e["bounds"], e["names"]
    v.prove(f"{tag}: k bounds and names", z3.And(toint(libs.py_len(b)) == K, toint(libs.py_len(n)) == K))
    j = v.fresh_int("ej", 0, K)
    bj, nj = b[wrap(j)], n[wrap(j)]
    v.prove(f"{tag}: given bounds first, then [0, 1]", z3.And(toreal(bj[0]) == z3.If(j < D, ufn("lo", Int, Real)(j), 0), toreal(bj[1]) == z3.If(j < D, ufn("hi", Int, Real)(j), 1)))
    v.prove(f"{tag}: given names first", z3.Implies(j < D, term(nj) == pn(j)))


def bounds_(v):
    K = setting(v)
    D = v.int("D", 1)
    m = v.module(S)
    v.under(S + ".extend_bounds")
    pn = z3.Function("pname", Int, Obj)

    def run():
        p = problem(v, D)
        e = m.extend_bounds(p)
        extended(v, "extended problem", e, D, K, pn)
        unchanged(v, "caller's problem", p, D, pn)

    v.explore(run)


def sampling(v):
    C = v.C
    K = setting(v)
    D = v.int("D", 1)
    m = v.module(S)
    v.under(S + ".sample", S + ".generate_contrast", S + ".extend_bounds")
    got = capture_scale(v)
    pn = z3.Function("pname", Int, Obj)
    v.stub(S, "handle_seed", lambda seed=None: libs.NS("generator"), "the generator of a fractional factorial sample is not used for drawing")

    def run(again):
        p = problem(v, D, **({"sample_scaled": True} if again else {}))
        X = as_arr(m.sample(p))
        got["problem"] and extended(v, "scaled by", got["problem"], D, K, pn)
        M = got["in"]
        v.prove("2k rows, k columns", z3.BoolVal(False) if X.ndim != 2 else z3.And(toint(X.shape[0]) == 2 * K, toint(X.shape[1]) == K, toint(M.shape[0]) == 2 * K, toint(M.shape[1]) == K))
        q, c = v.fresh_int("q", 0, K), v.fresh_int("c", 0, K)
        for tag, row, s in (("first", q, 1), ("second", norm(q + K), -1)):
            v.prove(f"{tag} half: 1 at the high level, 0 at the low level", toreal(M.read(row, c)) == z3.If(s * HAD(K, q, c) == 1, z3.RealVal(1), z3.RealVal(0)))
            v.prove_eq(f"{tag} half: each level at its parameter's bound", X.read(row, c), T(c, z3.If(s * HAD(K, q, c) == 1, z3.RealVal(1), z3.RealVal(0))))
        unchanged(v, "caller's problem", p, D, pn, marker=True)

    for again in (False, True):
        v.explore(lambda: run(again))


def tri(n):
    """0 + 1 + .. + (n-1), the number of pairs among n"""
    return npshim.sum_int(n, lambda s: s)


def analysis(v, second):
    C = v.C
    K = setting(v)
    D = v.int("D", 1)
    m = v.module(A)
    v.under(A + ".analyze", S + ".generate_contrast", S + ".extend_bounds", *([A + ".interactions"] if second else []))
    pn = z3.Function("pname", Int, Obj)

    def run():
        p = problem(v, D)
        Y, y = v.mat("Y", 2 * K)
        X, x = v.mat("X", 2 * K, K)
        r = m.analyze(p, X, Y, second_order=second)
        level = lambda t, c: z3.If(t < K, HAD(K, t, c), -HAD(K, t - K, c))  # proved in the contract of generate_contrast
        me = as_arr(r["ME"])
        v.prove("one main effect per column", z3.BoolVal(False) if me.ndim != 1 else toint(me.shape[0]) == K)
        c, e = v.fresh_int("c", 0, K), v.fresh_int("e", 0, K)
        contrast = lambda f: SUM(2 * K, lambda t: y(t) * toreal(f(t))) / toreal(2 * K)
        t = v.fresh_int("t", 0, 2 * K)

        def signed(tag, f):
            """a contrast weighs every output at the high level by +1 and every one at the low level by -1"""
            v.prove(f"{tag}: +1 at the high level, -1 at the low level", z3.Or(f(t) == 1, f(t) == -1))

        v.prove_eq("main effect: (sum at the high level - sum at the low level) / rows", me.read(c), contrast(lambda t: level(t, c)))
        signed("main effect", lambda t: level(t, c))
        n = r["names"]
        v.prove("a name per column", toint(libs.py_len(n)) == K)
        v.prove("the parameters' names first", z3.Implies(c < D, term(n[wrap(c)]) == pn(c)))
        if second:
            ie, nm = r["IE"], r["interaction_names"]
            v.prove("one interaction per pair", z3.And(toint(libs.py_len(ie)) == tri(K), toint(libs.py_len(nm)) == tri(K)))
            C.pc.append(e < c)
            pos = norm(tri(c) + e)
            v.prove_eq("interaction: the same contrast over the product of the columns", as_arr(ie).read(pos), contrast(lambda t: level(t, c) * level(t, e)))
            signed("interaction", lambda t: level(t, c) * level(t, e))
            a, b = nm[wrap(pos)]
            v.prove("named after its two parameters", z3.And(z3.Implies(c < D, z3.Or(z3.And(term(a) == pn(e), term(b) == pn(c)), z3.And(term(a) == pn(c), term(b) == pn(e))))))
        else:
            v.prove("no interactions reported", z3.BoolVal("IE" not in r.keys()))
        unchanged(v, "caller's problem", p, D, pn)

    v.explore(run)


CONTRACTS = [
    ("find_smallest", smallest), ("generate_contrast", design), ("extend_bounds", bounds_), ("sample", sampling),
    ("analyze", lambda v: analysis(v, False)), ("analyze[2nd]", lambda v: analysis(v, True)),
]
