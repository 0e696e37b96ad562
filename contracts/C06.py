"""C06: the built-in Sobol' sequence is the Joe-Kuo (t,s)-sequence in base 2.

Integers of the code are terms over Int with the bit operations as functions; what they compute is decided on 64-bit
vectors (the arrays are int64). The 31 possible numbers of bits L and the 18 degrees of the table are cases (all that
the code admits), the numbers of points and dimensions and the table's entries are arbitrary."""
from .common import *
from pyvc import verify
from pyvc.libs import NS

META = {}
MOD = "SALib.sample.sobol_sequence"
BITS = 31
MAXDEG = 18
W = 64
LSZ = ufn("LOWEST_ZERO", Int, Int)
DEG, POLY, M = ufn("degree", Int, Int), ufn("polynomial", Int, Int), ufn("initial", Int, Int, Int)
bvc = lambda k: z3.BitVecVal(k, W)


class BVInt:
    """an integer of the code as a bit vector (the executed code forks on its comparisons)"""

    def __init__(self, t):
        self.t = t

    def _op(f):
        def op(self, o):
            if isinstance(o, (bool, int)):
                o = BVInt(bvc(int(o)))
            if not isinstance(o, BVInt):
                return NotImplemented
            r = f(self.t, o.t)
            return wrap(r) if z3.is_bool(r) else BVInt(z3.simplify(r))

        return op

    __and__ = __rand__ = _op(lambda a, b: a & b)
    __or__ = __ror__ = _op(lambda a, b: a | b)
    __xor__ = __rxor__ = _op(lambda a, b: a ^ b)
    __rshift__ = _op(lambda a, b: a >> b)
    __lshift__ = _op(lambda a, b: a << b)
    __add__ = __radd__ = _op(lambda a, b: a + b)
    __sub__ = _op(lambda a, b: a - b)
    __floordiv__ = _op(lambda a, b: z3.UDiv(a, b))
    __mod__ = _op(lambda a, b: z3.URem(a, b))
    __eq__ = _op(lambda a, b: a == b)
    __ne__ = _op(lambda a, b: a != b)
    __lt__ = _op(lambda a, b: a < b)
    __le__ = _op(lambda a, b: a <= b)
    __gt__ = _op(lambda a, b: a > b)
    __ge__ = _op(lambda a, b: a >= b)
    __hash__ = None

    def __invert__(self):
        return BVInt(~self.t)

    def __bool__(self):
        return Ctx.cur.decide(self.t != 0)


def decide(v, name, goal, hyp=()):
    """an obligation over bit vectors"""
    s = z3.SolverFor("QF_BV")
    s.set("timeout", 60000)
    s.add(*hyp)
    s.add(z3.Not(goal))
    import time
    t = time.time()
    r = str(s.check())
    v.C.stats["queries"] += 1
    v.C.stats["solver_s"] += time.time() - t
    det = ""
    if r == "sat":
        det = "counterexample: " + verify.model_str(s.model())
    v._record(name, {"unsat": "discharged", "sat": "refuted"}.get(r, "undecided"), "z3 (bit vectors)", time.time() - t, det)
    return r == "unsat"


def to_bv(t, env):
    """the 64-bit value of an Int term; what is not a bit or arithmetic operation is a variable"""
    k = t.get_id()
    if k in env:
        return env[k][1]
    a = lambda n: to_bv(t.arg(n), env)
    nm = t.decl().name()
    kind = t.decl().kind()
    if z3.is_int_value(t):
        r = bvc(t.as_long())
    elif nm == "bit_xor":
        r = a(0) ^ a(1)
    elif nm == "bit_and":
        r = a(0) & a(1)
    elif nm == "bit_or":
        r = a(0) | a(1)
    elif nm == "bit_shl":
        r = a(0) << a(1)
    elif nm == "bit_shr":
        r = a(0) >> a(1)
    elif kind == z3.Z3_OP_ADD:
        r = a(0)
        for n in range(1, t.num_args()):
            r = r + a(n)
    elif kind == z3.Z3_OP_MUL:
        r = a(0)
        for n in range(1, t.num_args()):
            r = r * a(n)
    elif kind == z3.Z3_OP_SUB:
        r = a(0)
        for n in range(1, t.num_args()):
            r = r - a(n)
    elif kind == z3.Z3_OP_UMINUS:
        r = -a(0)
    elif kind == z3.Z3_OP_ITE:
        r = z3.If(to_bvb(t.arg(0), env), a(1), a(2))
    else:
        r = z3.BitVec(f"bv_{k}", W)
    env[k] = (t, r)
    return r


def to_bvb(c, env):
    if z3.is_and(c):
        return z3.And([to_bvb(x, env) for x in c.children()])
    if z3.is_or(c):
        return z3.Or([to_bvb(x, env) for x in c.children()])
    if z3.is_not(c):
        return z3.Not(to_bvb(c.arg(0), env))
    if z3.is_true(c) or z3.is_false(c):
        return c
    k = c.decl().kind()
    if c.num_args() == 2 and c.arg(0).sort() == Int:
        f = {z3.Z3_OP_EQ: lambda a, b: a == b, z3.Z3_OP_LE: lambda a, b: a <= b, z3.Z3_OP_GE: lambda a, b: a >= b, z3.Z3_OP_LT: lambda a, b: a < b, z3.Z3_OP_GT: lambda a, b: a > b}.get(k)
        if f:
            return f(to_bv(c.arg(0), env), to_bv(c.arg(1), env))
    raise Unsupported(f"condition over bits: {c}")


# ---- index of the lowest zero bit
def lowest_zero(v):
    C = v.C
    m = v.module(MOD)
    v.under(MOD + ".index_of_least_significant_zero_bit")
    x = z3.BitVec("value", W)
    C.pc += [x >= 0, x < (1 << BITS)]

    def run():
        r = m.index_of_least_significant_zero_bit(BVInt(x))
        if not isinstance(r, int):
            raise Unsupported("a symbolic position")
        decide(v, "bits below the position are ones", (x & bvc((1 << max(r - 1, 0)) - 1)) == bvc((1 << max(r - 1, 0)) - 1), C.pc)
        decide(v, "the bit at the position is zero", z3.And(bvc(r) >= 1, (x & bvc(1 << max(r - 1, 0))) == 0), C.pc)

    v.explore(run)
    # the positions that L bits can have
    for L in range(1, BITS + 1):
        c = z3.BitVec("c", W)
        decide(v, f"position at most {L} below 2^{L}-1", c <= L, [x >= 0, x < bvc((1 << L) - 1), c >= 1, c <= 32, (x & ((bvc(1) << (c - 1)) - 1)) == (bvc(1) << (c - 1)) - 1])


# ---- the published recurrence
def gray(j):
    return j ^ z3.LShR(j, bvc(1))


def point(V, j, L):
    """the XOR of the direction numbers at the bits of the Gray code of j (Antonov-Saleev)"""
    g = gray(j)
    r = bvc(0)
    for b in range(L):
        r = r ^ z3.If(z3.Extract(b, b, g) == 1, V[b + 1], bvc(0))
    return r


def jk_next(m, a, s, j):
    """m_j = 2 a_1 m_{j-1} ^ 4 a_2 m_{j-2} ^ ... ^ 2^(s-1) a_(s-1) m_(j-s+1) ^ 2^s m_(j-s) ^ m_(j-s)"""
    r = (m[j - s] << s) ^ m[j - s]
    for k in range(1, s):
        bit = z3.Extract(s - 1 - k, s - 1 - k, a)
        r = r ^ z3.If(bit == 1, m[j - k] << k, bvc(0))
    return r


def lemmas(v):
    """over the contracts: the Gray code update, and what the form of the direction numbers gives"""
    V = [None] + [z3.BitVec(f"V{b}", W) for b in range(1, BITS + 1)]
    x, y = z3.BitVec("i", W), z3.BitVec("j", W)
    for c in range(1, BITS + 1):
        hyp = [x >= 0, x < bvc((1 << BITS) - 1), (x & bvc((1 << c) - 1)) == bvc((1 << (c - 1)) - 1)]
        decide(v, f"Gray code of i and i+1 differ in bit {c - 1} alone, the lowest zero of i", gray(x + 1) ^ gray(x) == bvc(1 << (c - 1)), hyp)
        g, h = z3.BitVec("g", W), z3.BitVec("h", W)
        parts = lambda w: [z3.If(z3.Extract(b, b, w) == 1, V[b + 1], bvc(0)) for b in range(BITS)]
        p, q = parts(g), parts(h)
        ok = all(decide(v, f"only the term of bit {c - 1} changes ({b})", (p[b] ^ q[b]) == (V[c] if b == c - 1 else bvc(0)), [g ^ h == bvc(1 << (c - 1))]) for b in range(BITS))
    decide(v, "point 0 is the origin", point(V, bvc(0), BITS) == 0)
    import math
    up = lambda n: math.ceil(math.log(n) / math.log(2))
    v._record("bits of N at every power of two", "discharged" if all(up(2**k) >= k and up(2**k + 1) == k + 1 for k in range(1, BITS + 1)) and up(2**BITS - 1) == BITS else "refuted", "evaluation at the boundary values", 0, "")
    # V_b = m_b 2^(31-b), m_b odd and below 2^b
    shape = []
    for b in range(1, BITS + 1):
        shape += [V[b] >= 0, V[b] < bvc(1 << BITS), (V[b] & bvc((1 << (BITS - b)) - 1)) == 0, z3.Extract(BITS - b, BITS - b, V[b]) == 1]
    decide(v, "coordinates in [0,1): below 2^31", z3.And(point(V, x, BITS) >= 0, point(V, x, BITS) < bvc(1 << BITS)), shape + [x >= 0])
    for k in range(1, BITS + 1):
        # two points of one aligned run of 2^k: their Gray codes differ, in low bits only; let t be the highest that differs
        for t in range(1, k + 1):
            g, h = z3.BitVec("g", W), z3.BitVec("h", W)
            d = g ^ h
            diff = bvc(0)
            for b in range(1, t + 1):
                diff = diff ^ z3.If(z3.Extract(b - 1, b - 1, d) == 1, V[b], bvc(0))
            if k == t:  # (does not depend on k)
                decide(v, f"highest differing Gray bit {t - 1}: the points differ in bit {BITS - t}", z3.Extract(BITS - t, BITS - t, diff) == 1, shape + [d >= bvc(1 << (t - 1)), d < bvc(1 << t)])
    for k in range(0, BITS + 1):
        hyp = [x >= 0, y >= 0, x < bvc(1 << BITS), y < bvc(1 << BITS), z3.LShR(x, bvc(k)) == z3.LShR(y, bvc(k)), x != y]
        decide(v, f"aligned run of 2^{k}: Gray codes differ, in the low {k} bits only", z3.And(gray(x) != gray(y), z3.LShR(gray(x) ^ gray(y), bvc(k)) == 0), hyp)




class Table:
    """the direction table: any number of rows, row i of degree DEG(i) with arbitrary entries"""

    rows = 21200

    def length(self):
        return self.rows

    def __len__(self):
        return self.rows

    def __getitem__(self, i):
        C = Ctx.cur
        i = toint(i)
        for s in range(1, MAXDEG + 1):
            if C.decide(DEG(i) == s):
                return PList([Sc(POLY(i))] + [Sc(M(i, z3.IntVal(k))) for k in range(1, s + 1)])
        raise Unsupported("degree")


def points(v, L):
    C = v.C
    C.recursive = True
    m = v.module(MOD)
    v.under(MOD + ".sample")
    m.directions = Table()
    v.assume_text("the direction table is arbitrary here, each row a polynomial and 1..18 initial numbers (its contents are compared with Joe and Kuo's in their own contract)")
    ratio = []
    lo = 0 if L == 0 else (1 << (L - 1)) + 1
    N, D = v.int("N", 1), v.int("D", 1)
    C.pc.append(N <= (1 << L) if L <= BITS else N >= (1 << BITS))
    x = z3.Int("x")
    v.given(z3.ForAll([x], z3.Implies(x >= 0, LSZ(x) >= 1), patterns=[LSZ(x)]))
    if L <= BITS:
        v.given(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < (1 << L) - 1), LSZ(x) <= L), patterns=[LSZ(x)]))
    v.given(z3.ForAll([x], z3.And(DEG(x) >= 1, DEG(x) <= MAXDEG), patterns=[DEG(x)]))
    log = ufn("LOG", Real, Real)
    bits = log(z3.ToReal(N)) / log(z3.RealVal(2))

    def ceil(t):
        if isinstance(t, Sc) and norm(t.t).eq(norm(bits)):
            return L
        raise Unsupported("math.ceil of something else")

    m.math = NS("math", log=lambda t, *b: wrap(log(toreal(t)) / (log(toreal(b[0])) if b else 1)), log2=lambda t: wrap(log(toreal(t)) / log(z3.RealVal(2))), ceil=ceil, pow=lambda a, b: float(a) ** float(b))
    v.assume_text("assumed contract of math: ceil(log(N)/log(2)) = L implies N <= 2^L, and L > 31 only from 2^31 points on (evaluated at the boundary values in `lemmas`; log is monotone)")
    v.stub(MOD, "index_of_least_significant_zero_bit", lambda t: Sc(LSZ(toint(t))), "callee contract: the position of the lowest zero bit (proved in its own contract)")

    def run():
        try:
            R = m.sample(wrap(N), wrap(D))
        except ValueError:
            v.prove("refused only beyond the table's dimensions or 2^31 points", z3.BoolVal(L > BITS) if L > BITS else D > Table.rows + 1)
            return
        R = as_arr(R)
        v.expect("not accepted beyond 2^31 points", L <= BITS)
        v.prove("not accepted beyond the table's dimensions", D <= Table.rows + 1)
        v.prove("one row per point", toint(R.shape[0]) == N)
        v.prove("one column per dimension", toint(R.shape[1]) == D)
        d, r = v.fresh_int("d", 0, D), v.fresh_int("r", 0, N)
        v.prove("point 0 is the origin", toreal(R.read(z3.IntVal(0), d)) == 0)
        if L == 0:
            return
        C.pc.append(r >= 1)
        cell = R.read(r, d)
        for s in range(0, MAXDEG + 1):
            save = list(C.pc)
            C.pc.append(d == 0 if s == 0 else z3.And(d >= 1, DEG(d - 1) == s))
            one_degree(v, L, s, d, r, cell)
            C.pc[:] = save

    v.explore(run)


def pick(C, t):
    """resolve the conditions of t that the path decides"""
    for _ in range(200):
        c = A_find(t)
        if c is None:
            return t
        if C.valid(c):
            t = z3.simplify(z3.substitute(t, (c, z3.BoolVal(True))))
        elif C.valid(z3.Not(c)):
            t = z3.simplify(z3.substitute(t, (c, z3.BoolVal(False))))
        else:
            return t
    return t


def A_find(t, seen=None):
    seen = set() if seen is None else seen
    if t.get_id() in seen or z3.is_quantifier(t):
        return None
    seen.add(t.get_id())
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and not any(a.decl().eq(LSZ) for a in subterms_all(t.arg(0))):
        return t.arg(0)
    for c in t.children():
        f = A_find(c, seen)
        if f is not None:
            return f
    return None


def one_degree(v, L, s, d, r, cell):
    C = v.C
    tag = f"degree {s}" if s else "coordinate 0"
    val = pick(C, z3.simplify(toreal(cell)))
    loops = [a for a in apps(val, "LOOP") if a.decl().name() in C.recs]
    if len(loops) != 1:
        raise Unsupported(f"{tag}: {len(loops)} running values in a cell")
    R = loops[0]
    outer, i, (cst,), v0, step, u = C.recs[R.decl().name()]
    args = [R.arg(k) for k in range(R.num_args())]
    sub = list(zip(outer, args[:-1]))
    at = lambda t, *m: z3.substitute(t, *sub, *m)
    v.prove(f"{tag}: running value before point r", args[-1] == r - 1)
    nxt = at(step, (i, r - 1), (cst, R))
    v.prove_eq(f"{tag}: a coordinate is the running value over 2^31", val, z3.ToReal(nxt) / (1 << BITS))
    v.prove(f"{tag}: starts at 0", at(v0) == 0)
    # the direction numbers as the code computed them
    step = pick(C, z3.simplify(at(step, (cst, R))))
    zs = [a for a in subterms_all(step) if z3.is_app(a) and a.decl().eq(LSZ)]
    zs = list({a.get_id(): a for a in zs}.values())
    if len(zs) > 1 or not zs and L > 1:
        raise Unsupported(f"{tag}: positions read")
    if zs:
        j = z3.Int("i_pos")
        v.prove(f"{tag}: the position is that of the iteration's index", at(zs[0].arg(0), (i, j)) == j)
    m = {k: z3.BitVec(f"m{k}", W) for k in range(1, L + 1)}
    a = z3.BitVec("a", W)
    hyp = []
    terms = {}
    for c in range(1, L + 1):
        t = z3.simplify(z3.substitute(step, (zs[0], z3.IntVal(c)))) if zs else step  # (one bit: position 1 is the only one)
        if not (t.decl().name() == "bit_xor" and any(t.arg(k).eq(R) for k in (0, 1))):
            raise Unsupported(f"{tag}: update of the running value")
        Vc = t.arg(1) if t.arg(0).eq(R) else t.arg(0)
        env = {}
        for k, x in terms.items():
            if not z3.is_int_value(x):
                env[x.get_id()] = (x, m[k] << (BITS - k))
        if s:
            p = POLY(d - 1)
            for q in subterms_all(Vc):
                if z3.is_app(q) and q.decl().eq(POLY) and C.valid(q == p):
                    env[q.get_id()] = (q, a)
                if z3.is_app(q) and q.decl().eq(M) and C.valid(q.arg(0) == d - 1) and z3.is_int_value(q.arg(1)):
                    env[q.get_id()] = (q, m[q.arg(1).as_long()])
        got = to_bv(Vc, env)
        if s == 0:
            decide(v, f"{tag}: direction number {c}", got == bvc(1 << (BITS - c)))
        elif c <= s:
            decide(v, f"{tag}: direction number {c} from the table", got == m[c] << (BITS - c), hyp)
        else:
            n = jk_next(m, a, s, c)
            decide(v, f"{tag}: direction number {c} by the recurrence", got == n << (BITS - c), hyp)
            if L == BITS:
                decide(v, f"{tag}: m_{c} odd and below 2^{c}", z3.And(n >= 0, n < bvc(1 << c), z3.Extract(0, 0, n) == 1), hyp)
        hyp += [m[c] >= 0, m[c] < bvc(1 << c), z3.Extract(0, 0, m[c]) == 1]
        terms[c] = Vc


def table(v):
    """the table against an independent copy (SciPy's), row by row, and what the lemmas need of it"""
    import ast
    import os
    import numpy
    import scipy.stats
    from pyvc import loader
    v.under("SALib.sample.directions.directions")
    src = open(os.path.join(loader.SRC, "SALib/sample/directions.py")).read()
    tree = ast.parse(src)
    val = None
    for n in tree.body:
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "directions" for t in n.targets):
            val = n.value
    try:
        rows = ast.literal_eval(val)
    except Exception:
        raise Unsupported("the table is not a literal")
    z = numpy.load(os.path.join(os.path.dirname(scipy.stats.__file__), "_sobol_direction_numbers.npz"))
    P, I = z["poly"], z["vinit"]
    bad = [d for d, row in enumerate(rows, 1) if not same_row(row, int(P[d]), I[d])]
    v._record("every row is Joe and Kuo's (SciPy's copy)", "discharged" if not bad else "refuted", "evaluation of the finite table", 0, f"rows {bad[:5]}")
    odd = [d for d, row in enumerate(rows, 1) if not (1 <= len(row) - 1 <= MAXDEG and all(x % 2 == 1 and 0 < x < (1 << k) for k, x in enumerate(row[1:], 1)))]
    v._record("degrees 1..18, initial numbers odd and below 2^k", "discharged" if not odd else "refuted", "evaluation of the finite table", 0, f"rows {odd[:5]}")
    v._record("21200 rows", "discharged" if len(rows) == Table.rows else "refuted", "evaluation of the finite table", 0, str(len(rows)))


def same_row(row, p, init):
    s = p.bit_length() - 1
    return len(row) - 1 == s and row[0] == (p >> 1) & ((1 << max(s - 1, 0)) - 1) and list(row[1:]) == [int(x) for x in init[:s]]


CONTRACTS = [("index_of_least_significant_zero_bit", lowest_zero), ("lemmas", lemmas), ("table", table)]
CONTRACTS += [(f"sample[{L} bits]", lambda v, L=L: points(v, L)) for L in range(BITS + 1, -1, -1)]
