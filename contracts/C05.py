"""C05: the parallel Sobol' analysis returns what the serial one returns.

The serial values are the specification of C04; here the parallel path is shown to give the same ones:
create_task_list covers every entry exactly once, sobol_parallel computes the entry a task names, Si_list_to_dict puts
every entry in its place whatever the order and the chunks, and analyze() connects them.
"""
from .common import *
from pyvc import arrays as A, libs
from pyvc.arrays import _sumi, conjuncts

META = {}
np = npshim
MOD = "SALib.analyze.sobol"
FIRST = ("S1", "S1_conf", "ST", "ST_conf")
SECOND = ("S2", "S2_conf")
DD = ufn("task_key", Int, Obj)
JJ, KK = ufn("task_j", Int, Int), ufn("task_k", Int, Int)
POS = ufn("task_position", Obj, Int, Int, Int)


def tag(d):
    return term(d)


class Tasks:
    """An arbitrary list of L tasks holding every (key, j, None) and every (key, j, k) with j < k exactly once."""

    def __init__(self, v, D, second):
        self.v, self.D, self.second = v, D, second
        self.keys = FIRST + (SECOND if second else ())
        self.L = L = v.int("L", 0)
        t, j, k = z3.Ints("t j k")
        one = z3.Or([DD(t) == tag(d) for d in FIRST])
        ok = z3.And(one, KK(t) == -1) if not second else z3.Or(z3.And(one, KK(t) == -1), z3.And(z3.Or([DD(t) == tag(d) for d in SECOND]), JJ(t) < KK(t), KK(t) < D))
        inr = z3.And(0 <= t, t < L)
        for pat in (DD(t), JJ(t), KK(t)):
            v.given(z3.ForAll([t], z3.Implies(inr, z3.And(ok, 0 <= JJ(t), JJ(t) < D, POS(DD(t), JJ(t), KK(t)) == t)), patterns=[pat]))
        at = lambda p, d, j, k: z3.And(0 <= p, p < L, DD(p) == tag(d), JJ(p) == j, KK(p) == k)
        for d in FIRST:
            v.given(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < D), at(POS(tag(d), j, -1), d, j, -1)), patterns=[POS(tag(d), j, -1)]))
        for d in SECOND if second else ():
            v.given(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < D), at(POS(tag(d), j, k), d, j, k)), patterns=[POS(tag(d), j, k)]))
        v.C.joint.append(self.inverse)

    def inverse(self, eqs, guard, unsolved):
        """the task whose key is fixed by the guard and whose numbers are given"""
        for v in unsolved:
            J = [x for p, x in eqs if p.eq(JJ(v))]
            K = [x for p, x in eqs if p.eq(KK(v))]
            D = [d for d in self.keys for c in conjuncts(guard) if z3.is_eq(c) and {c.arg(0).get_id(), c.arg(1).get_id()} == {DD(v).get_id(), tag(d).get_id()}]
            if len(J) != 1 or not D or (D[0] in SECOND) != (len(K) == 1):
                continue
            k = K[0] if K else z3.IntVal(-1)
            p = POS(tag(D[0]), J[0], k)
            return v, p, z3.And(JJ(p) == J[0], KK(p) == k)
        return None

    def key(self, t):
        C = Ctx.cur
        for d in self.keys[:-1]:
            if C.decide(DD(t) == tag(d)):
                return d
        C.pc.append(DD(t) == tag(self.keys[-1]))
        return self.keys[-1]

    def task(self, t):
        t = norm(toint(t))
        d = self.key(t)
        return d, wrap(JJ(t)), wrap(KK(t)) if d in SECOND else None


def estimators(v):
    """the estimators as functions of the columns they are given (their formulas: C04)"""
    def est(name, nargs):
        F1 = ufn("est_" + name, *([KeySort] * nargs), Real)

        def f(*args):
            args = [as_arr(a) for a in args]
            if args[0].ndim == 1:
                return wrap(F1(*[key_of(a) for a in args]))
            return Arr((args[0].shape[1],), CFn(lambda r: F1(*[key_of(a, r) for a in args])), "real")

        return f

    E = {n: est(n, k) for n, k in {"first_order": 3, "total_order": 3, "second_order": 5}.items()}
    for n in E:
        v.stub(MOD, n, E[n], "callee contract: first_order/total_order/second_order are functions of the given columns (C04)")
    return E


class Values:
    """what the serial analysis computes for an entry (the specification proved in C04)"""

    def __init__(self, E, A, AB, BA, B, r, Z):
        self.E, self.A, self.AB, self.BA, self.B, self.r, self.Z = E, A, AB, BA, B, r, Z
        fix = lambda a: as_arr(a).reader()
        N, R = r.shape
        a, ab, b, rr = fix(A), fix(AB), fix(B), fix(r)
        ba = fix(BA) if BA is not None else None
        self.col = lambda f, j: Arr((N,), CFn(lambda i: f(toint(i), toint(j))), "real")
        res = lambda f: Arr((N, R), CFn(lambda i, q: f(toint(rr(toint(i), toint(q))))), "real")
        self.rA, self.rB = res(a), res(b)
        self.rcol = lambda f, j: res(lambda i: f(i, toint(j)))
        self.ab, self.ba = ab, ba

    def point(self, d, j, k=None):
        A, B, c, E = self.A, self.B, self.col, self.E
        if d in ("S1", "ST"):
            return toreal(E["first_order" if d == "S1" else "total_order"](A, c(self.ab, j), B))
        return toreal(E["second_order"](A, c(self.ab, j), c(self.ab, k), c(self.ba, j), B))

    def resamples(self, d, j, k=None):
        E, c = self.E, self.rcol
        if d[:2] in ("S1", "ST"):
            return E["first_order" if d[:2] == "S1" else "total_order"](self.rA, c(self.ab, j), self.rB)
        return E["second_order"](self.rA, c(self.ab, j), c(self.ab, k), c(self.ba, j), self.rB)

    def conf(self, d, j, k=None):
        s = toreal(self.Z) * toreal(np.std(self.resamples(d, j, k), ddof=1))
        if d == "S2_conf":
            return s
        return z3.If(toreal(np.ptp(np.concatenate([self.rA, self.rB]))) == 0, z3.RealVal(0), s)


def data(v, second, R_=None):
    D, N, R = v.int("D", 1), v.int("N", 1), v.int("R", 2)
    A, _ = v.mat("A", N)
    B, _ = v.mat("B", N)
    AB, _ = v.mat("AB", N, D)
    BA = v.mat("BA", N, D)[0] if second else None
    rf = ufn("rsel", Int, Int, Int)
    i, q = z3.Ints("i q")
    v.given(z3.ForAll([i, q], z3.And(0 <= rf(i, q), rf(i, q) < N), patterns=[rf(i, q)]))
    r = Arr((wrapdim(N), wrapdim(R)), CFn(lambda a, b: rf(toint(a), toint(b))), "int")
    return D, N, R, A, AB, BA, B, r


def worker(v, second, d):
    C = v.C
    f = v.target(MOD + ".sobol_parallel")
    E = estimators(v)

    def run():
        D, N, R, A, AB, BA, B, r = data(v, second)
        Z = v.real("Z")
        T = Tasks(v, D, second)
        q = v.fresh_int("q", 0, T.L)
        v.given(DD(q) == tag(d))
        out = f(wrap(Z), A, AB, BA, B, r, PList.sym(T.L, T.task))
        S = Values(E, A, AB, BA, B, r, Z)
        v.prove("one result per task", toint(out.length()) == T.L)
        d0, j0, k0, s = out[wrap(q)]
        _, j, k = T.task(q)
        v.prove("the result names its task", z3.And(tag(d0) == DD(q), toint(j0) == JJ(q), z3.BoolVal(k0 is None) if k is None else z3.BoolVal(k0 is not None) if k0 is None else toint(k0) == KK(q)))
        if d in ("S1", "ST", "S2"):
            v.prove_eq(f"{d}: the estimate of its columns", s, S.point(d, j, k))
        elif d == "S2_conf":
            v.prove_eq(f"{d}: quantile times the standard deviation of the resampled estimates", s, S.conf(d, j, k))
        else:
            v.prove_eq(f"{d}: quantile times the standard deviation of the resampled estimates, 0 for constant outputs", s[0], S.conf(d, j, k))
            a = as_arr(s[1])
            u = v.fresh_int("u", 0, R)
            v.prove(f"{d}: one value per resample", toint(a.shape[0]) == R)
            v.prove_eq(f"{d}: the resampled estimates", a.read(u), toreal(S.resamples(d, j, k).read(u)))

    v.explore(run)


def assemble(v, second, keep):
    """results in any order, in chunks of any lengths"""
    C = v.C
    f = v.target(MOD + ".Si_list_to_dict")
    v.under(MOD + ".create_Si_dict")
    VAL = ufn("task_value", Obj, Int, Int, Real)
    ALL = ufn("task_resample", Obj, Int, Int, Real)

    def run():
        D, R, n = v.int("D", 1), v.int("R", 2), v.int("chunks", 0)
        T = Tasks(v, D, second)
        LN = ufn("chunk_length", Int, Int)
        off = lambda c: _sumi(c, lambda x: LN(toint(x)))
        c = z3.Int("c")
        v.given(z3.ForAll([c], z3.Implies(z3.And(0 <= c, c < n), LN(c) >= 0), patterns=[LN(c)]))
        v.given(off(n) == T.L)

        def entry(t):
            t = norm(toint(t))
            d, j, k = T.task(t)
            kk = KK(t) if d in SECOND else z3.IntVal(-1)
            x = wrap(VAL(tag(d), JJ(t), kk))
            if d in ("S1_conf", "ST_conf"):
                x = (x, Arr((wrapdim(R),), CFn(lambda u, t=t, d=d: ALL(tag(d), JJ(t), toint(u))), "real"))
            return PList([d, j, k, x])

        S = f(PList.sym(n, lambda c: PList.sym(LN(toint(c)), lambda u: entry(off(toint(c)) + toint(u)))), wrap(D), wrap(R), keep, second)
        j, k, u = v.fresh_int("j", 0, D), v.fresh_int("k", 0, D), v.fresh_int("u", 0, R)
        for d in FIRST:
            v.prove(f"{d}: one entry per parameter", toint(S[d].shape[0]) == D)
            v.prove_eq(f"{d}: the value of its task", S[d].read(j), VAL(tag(d), j, -1))
        for d in ("S1_conf", "ST_conf"):
            if keep:
                v.prove_eq(f"{d}: the resamples of its task", S[d + "_all"].read(u, j), ALL(tag(d), j, u))
            else:
                v.prove(f"{d}: no resamples stored unless asked for", z3.BoolVal(d + "_all" not in S))
        for d in SECOND if second else ():
            save = list(C.pc)
            C.pc.append(j < k)
            v.prove_eq(f"{d}: the value of its task", S[d].read(j, k), VAL(tag(d), j, k))
            C.pc[:] = save + [j >= k]
            v.prove_eq(f"{d}: NaN on and below the diagonal", S[d].read(j, k), np.nan)
            C.pc[:] = save
        v.prove("entries of the serial result only", z3.BoolVal(set(S.keys()) == set(FIRST) | (set(SECOND) if second else set()) | ({"S1_conf_all", "ST_conf_all"} if keep else set())))

    v.explore(run)


def lengths(F):
    """the length of a list: (None, length) or, if it is a sum over n rounds, (L, n) with L(i) entries appended by round i"""
    n = toint(F.length())
    if n.decl().eq(A.SUMIF) and z3.is_quantifier(n.arg(1)):
        return n.arg(1), n.arg(0)
    return None, n


def tasks_list(v, second, given):
    """every key is an entry, and there are as many entries as keys: each key once and nothing else"""
    C = v.C
    f = v.target(MOD + ".create_task_list")
    seen = {}
    split, zipl = npshim.array_split, libs.zip_longest

    def split_(x, n, axis=0):
        seen["flat"] = x
        return split(x, n, axis)

    def zipl_(*its, fillvalue=None):
        seen["lists"] = its
        return zipl(*its, fillvalue=fillvalue)

    v.stub(MOD, "cpu_count", lambda: wrap(v.int("cpus", 1)), "multiprocessing.cpu_count: a positive number")
    v.stub(MOD, "zip_longest", zipl_, "itertools.zip_longest")

    def run():
        D = v.int("D", 1)
        n = wrap(v.int("processors", 1)) if given else None
        seen.clear()
        out, m = f(wrap(D), second, n)
        if "flat" not in seen:
            raise Unsupported("the tasks are not split with np.array_split")
        F = seen["flat"]
        v.prove("as many chunks as processors", toint(out.length()) == toint(m))
        v.prove("at least one processor", toint(m) >= 1)
        if given:
            v.prove("the given number of processors", toint(m) == toint(n))
        j, k = v.fresh_int("j", 0, D), v.fresh_int("k", 0, D)

        def have(name, goal):
            v.prove(name, goal)
            C.pc.append(goal)

        def entry(what, pos, d, j, k=None):
            have(f"{what}: position in the list", z3.And(0 <= pos, pos < toint(F.length())))
            e = F.get(pos)
            v.prove(f"{what}: its entry", z3.And(z3.BoolVal(e[0] == d), toint(e[1]) == j, z3.BoolVal(e[2] is None) if k is None else z3.BoolVal(False) if e[2] is None else toint(e[2]) == k))

        if not second:
            v.prove("as many entries as keys", toint(F.length()) == 4 * D)
            for x, d in enumerate(FIRST):
                entry(d, 4 * j + x, d, j)
            return
        X1, X2 = seen["lists"]
        L2, _ = lengths(X2)
        n1, n2 = toint(X1.length()), toint(X2.length())
        v.prove("first and total order: as many entries as keys", n1 == 4 * D)
        # number of pairs: sum over j of 2 (D - 1 - j)
        i = v.fresh_int("i", 0, D)
        rnd = lambda L, t: norm(z3.substitute_vars(L.body(), t))
        v.prove("second order: entries of parameter i", z3.And(rnd(L2, i) == 2 * (D - 1 - i), rnd(L2, i) >= 0))
        v.prove("second order: as many entries as keys (base)", z3.IntVal(0) * (2 * D - 1) == 0)
        v.prove("second order: as many entries as keys (step)", (i + 1) * (2 * D - 1 - (i + 1)) == i * (2 * D - 1 - i) + 2 * (D - 1 - i))
        save = list(C.pc)
        C.pc.append(n2 == D * (2 * D - 1 - D))
        v.prove("second order: as many entries as keys", n2 == D * (D - 1))
        C.pc[:] = save
        L, M = lengths(F)
        a = v.fresh_int("a", 0, M)
        C.pc.append(2 * a < M)
        A.segment_of(a, L2, D)
        v.prove("interleaved: the number of places is even", M % 2 == 0)
        v.prove("interleaved: first of the two lists", rnd(L, 2 * a) == z3.If(a < n1, 1, 0))
        v.prove("interleaved: second of the two lists", rnd(L, 2 * a + 1) == z3.If(a < n2, 1, 0))
        # hence by induction over a: the first 2 a places hold min(a, n1) + min(a, n2) entries
        mn = lambda x, y: z3.If(x < y, x, y)
        both = lambda a: mn(a, n1) + mn(a, n2)
        v.prove("as many entries as keys (base)", both(z3.IntVal(0)) == 0)
        v.prove("as many entries as keys (step)", both(a + 1) == both(a) + z3.If(a < n1, 1, 0) + z3.If(a < n2, 1, 0))
        C.assume(toint(F.length()) == both(M / 2))
        v.prove("as many entries as keys", toint(F.length()) == n1 + n2)
        S = lambda x: A.SUMIF(x, L)

        def place(x, odd):
            # the same induction up to place 2 x (or 2 x + 1)
            pos = S(norm(2 * x + odd))
            C.assume(pos == both(x) + (z3.If(x < n1, 1, 0) if odd else 0))
            C.assume(rnd(L, norm(2 * x + odd)) == z3.If(x < (n2 if odd else n1), 1, 0))  # shown above for any place
            return pos

        for x, d in enumerate(FIRST):
            p = n1 - 1 - (4 * j + x)
            entry(d, place(p, 0), d, j)
        save = list(C.pc)
        C.pc.append(j < k)
        for x, d in enumerate(SECOND):
            p = A.SUMIF(j, L2) + 2 * (k - j - 1) + x
            A.segment_of(p, L2, D)
            have(f"{d}: place among the second order entries", z3.And(0 <= p, p < n2))
            entry(d, place(p, 1), d, j, k)
        C.pc[:] = save

    npshim.array_split = split_
    try:
        v.explore(run)
    finally:
        npshim.array_split = split


class Pool:
    """assumed contract of multiprocessing.Pool: map_async(f, tasks).get() holds f(task) for every task"""
    sizes = []

    def __init__(self, n=None):
        Pool.sizes.append(n)

    def map_async(self, f, tasks):
        it = PList(tasks) if not isinstance(tasks, PList) else tasks
        self.result = PList.sym(it.length(), lambda c: f(it.get(toint(c))))
        return self

    def get(self):
        return self.result

    def map(self, f, tasks):
        return self.map_async(f, tasks).result

    imap = map

    def close(self):
        pass

    join = terminate = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def connect(v, second, given):
    """analyze(parallel=True) gives every entry the value the serial analysis gives it (C04)"""
    C = v.C
    D, N, R = v.int("D", 1), v.int("N", 1), v.int("R", 2)
    f = v.target(MOD + ".analyze")
    v.under(MOD + ".create_Si_dict")
    VAL = ufn("task_value", Obj, Int, Int, Real)
    ALL = ufn("task_resample", Obj, Int, Int, Real)
    S_ = (2 * D + 2) if second else (D + 2)
    seen = {}

    def sep(Y, D_, N_, second_):
        v.prove("separate_output_values is given the design's sizes", z3.And(toint(D_) == D, toint(N_) == N, z3.BoolVal(bool(second_) == second)))
        rd = as_arr(Y).reader()
        col = lambda off: Arr((wrapdim(N),), CFn(lambda i: rd(toint(i) * S_ + off)), "real")
        mat = lambda off: Arr((wrapdim(N), wrapdim(D)), CFn(lambda i, j: rd(toint(i) * S_ + toint(j) + off)), "real")
        return col(0), col(S_ - 1), mat(1), (mat(1 + D) if second else None)

    def tasks_(D_, second_, n_):
        seen["tasks"] = (D_, second_, n_)
        n, T = v.int("chunks", 0), seen["T"]
        LN = ufn("chunk_length", Int, Int)
        off = lambda c: _sumi(c, lambda x: LN(toint(x)))
        c = z3.Int("c")
        v.given(z3.ForAll([c], z3.Implies(z3.And(0 <= c, c < n), LN(c) >= 0), patterns=[LN(c)]))
        v.given(off(n) == T.L)
        seen["procs"] = wrap(v.int("pool_size", 1))
        return PList.sym(n, lambda c: PList.sym(LN(toint(c)), lambda u: PList(T.task(off(toint(c)) + toint(u))))), seen["procs"]

    def work(Z, A, AB, BA, B, r, tasks):
        seen["args"] = (Z, A, AB, BA, B, r)

        def entry(u):
            d, j, k = tasks.get(toint(u))
            kk = toint(k) if k is not None else z3.IntVal(-1)
            x = wrap(VAL(tag(d), toint(j), kk))
            if d in ("S1_conf", "ST_conf"):
                x = (x, Arr((wrapdim(R),), CFn(lambda q: ALL(tag(d), toint(j), toint(q))), "real"))
            return PList([d, j, k, x])

        return PList.sym(tasks.length(), entry)

    v.stub(MOD, "separate_output_values", sep, "callee contract: separate_output_values gives the stride columns (C04)")
    v.stub(MOD, "create_task_list", tasks_, "callee contract: create_task_list covers every key once (its own contract)")
    v.stub(MOD, "sobol_parallel", work, "callee contract: sobol_parallel computes the serial value of each task (its own contract)")
    v.stub(MOD, "Pool", Pool, "assumed contract of multiprocessing.Pool: map_async gives one result per chunk")
    v.stub(MOD, "extract_group_names", lambda p: (p["names"], wrap(D)), "callee contract: extract_group_names gives the number of groups (C15)")

    def run():
        seen.clear()
        del Pool.sizes[:]
        p = problem(v, D)
        Y, y = v.mat("Y", N * S_)
        conf = v.real("conf")
        C.pc += [conf > 0, conf < 1]
        seed = v.int("seed", 0)
        seen["T"] = T = Tasks(v, D, second)
        n_ = wrap(v.int("n_processors", 1)) if given else None
        Si = f(p, Y, calc_second_order=second, num_resamples=wrap(R), conf_level=wrap(conf), seed=wrap(seed), keep_resamples=True, parallel=True, n_processors=n_)
        D_, s_, m_ = seen["tasks"]
        v.prove("create_task_list is asked for this design", z3.And(toint(D_) == D, z3.BoolVal(bool(s_) == second), z3.BoolVal(m_ is n_) if n_ is None else toint(m_) == toint(n_)))
        v.prove("a pool of the size create_task_list chose", z3.BoolVal(len(Pool.sizes) == 1 and Pool.sizes[0] is seen["procs"]))
        j, k, u = v.fresh_int("j", 0, D), v.fresh_int("k", 0, D), v.fresh_int("u", 0, R)
        for d in FIRST:
            v.prove_eq(f"{d}: the value of its task", Si[d].read(j), VAL(tag(d), j, -1))
        for d in ("S1_conf", "ST_conf"):
            v.prove_eq(f"{d}: the resamples of its task", Si[d + "_all"].read(u, j), ALL(tag(d), j, u))
        for d in SECOND if second else ():
            save = list(C.pc)
            C.pc.append(j < k)
            v.prove_eq(f"{d}: the value of its task", Si[d].read(j, k), VAL(tag(d), j, k))
            C.pc[:] = save + [j >= k]
            v.prove_eq(f"{d}: NaN on and below the diagonal", Si[d].read(j, k), np.nan)
            C.pc[:] = save
        v.prove("the problem is attached", z3.BoolVal(Si.problem is p))
        # the tasks are computed from what the serial analysis uses
        Z, A, AB, BA, B, r = seen["args"]
        mu, sd = np.mean(Y), np.std(Y)
        st = lambda k: (y(k) - toreal(mu)) / toreal(sd)
        i, q = v.fresh_int("i", 0, N), v.fresh_int("q", 0, R)
        v.prove_eq("Z is the quantile of the confidence level", Z, ufn("ppf_stdnorm", Real, Real)(norm((1 + conf) / 2)))
        v.prove_eq("A: standardised outputs of the base points", as_arr(A).read(i), st(i * S_))
        v.prove_eq("B: standardised outputs of the second points", as_arr(B).read(i), st(i * S_ + S_ - 1))
        v.prove_eq("AB: standardised outputs of the mixed points", as_arr(AB).read(i, j), st(i * S_ + 1 + j))
        if second:
            v.prove_eq("BA: standardised outputs of the mixed points", as_arr(BA).read(i, j), st(i * S_ + 1 + D + j))
        ev = [e for e in C.events if e[0] == "draw"]
        v.prove("one draw of base points", len(ev) == 1)
        v.prove("the tasks use the base points drawn", z3.And(as_arr(r).read(i, q) == ev[0][2](i, q), toint(ev[0][3][0]) == N, toint(ev[0][3][1]) == R))
        any_row(v, ev[0], N)

    v.explore(run)


CONTRACTS = [(f"sobol_parallel[{'2nd' if s else '1st'},{d}]", lambda v, s=s, d=d: worker(v, s, d)) for s in (True, False) for d in FIRST + (SECOND if s else ())]
CONTRACTS += [(f"Si_list_to_dict[{'2nd' if s else '1st'}{',resamples' if k else ''}]", lambda v, s=s, k=k: assemble(v, s, k)) for s in (True, False) for k in (True, False)]
CONTRACTS += [(f"create_task_list[{'2nd' if s else '1st'}{',given' if k else ''}]", lambda v, s=s, k=k: tasks_list(v, s, k)) for s in (True, False) for k in (True, False)]
CONTRACTS += [(f"analyze[parallel,{'2nd' if s else '1st'}{',given' if k else ''}]", lambda v, s=s, k=k: connect(v, s, k)) for s in (True, False) for k in (True, False)]
