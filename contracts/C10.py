"""C10: Morris indices are the statistics of the true elementary effects."""
from .common import *

META = {}
np = npshim
MOD = "SALib.analyze.morris"


def effects(v, scaled, case):
    """_compute_elementary_effects: the effect of an increase over delta, per parameter and trajectory"""
    C = v.C
    D, N, G = v.int("D", 1), v.int("N", 1), v.int("G", 1)
    f = v.target(MOD + "._compute_elementary_effects")
    if scaled:
        ns = StdNS()
        given = []
        SX = z3.Function("step_x", Int, Int, Real)
        v.stub(MOD, "np", ns, "np.std along an axis is a function of the elements along it")

        def step(X3):
            t, r, j = v.fresh_int("st", 0, N), v.fresh_int("sr", 0, G + 1), v.fresh_int("sj", 0, D)
            v.prove_eq("step sizes of the given inputs", X3.read(t, r, j), given[0](t * (G + 1) + r, j))
            return Arr((wrapdim(N), wrapdim(D)), CFn(lambda t, j: SX(toint(t), toint(j))), "real")

        v.stub(MOD, "_calculate_step_size_x", step, "callee contract: _calculate_step_size_x (proved in its own contract)")
    v.under(*[MOD + "." + f_ for f_ in ("_reorganize_output_matrix", "_calc_results_difference", "_calculate_delta_input_variables", "_calculate_number_trajectories", "_reshape_model_inputs", "_reshape_model_outputs")])

    def run():
        P = G + 1
        # a Morris design: in trajectory t parameter j changes by d at step s and nowhere else
        x0, d, s = z3.Function("x0", Int, Int, Real), z3.Function("dx", Int, Int, Real), z3.Function("step", Int, Int, Int)
        t_, k_ = z3.Ints("t k")
        C.pc.append(z3.ForAll([t_, k_], z3.And(0 <= s(t_, k_), s(t_, k_) < G), patterns=[s(t_, k_)]))
        C.pc.append(z3.ForAll([t_, k_], d(t_, k_) != 0, patterns=[d(t_, k_)]))

        def xcell(row, j):
            t, r = split(C, row, P)
            return x0(t, j) + z3.If(r > s(t, j), d(t, j), z3.RealVal(0))

        X = Arr((wrapdim(N * P), wrapdim(D)), CFn(lambda a, b: xcell(toint(a), toint(b))), "real")
        if scaled:
            given[:] = [lambda a, b: X.read(a, b)]
        Y, y = v.mat("Y", N * P)
        delta = v.real("delta")
        C.pc.append(delta > 0)
        j, t = v.fresh_int("j", 0, D), v.fresh_int("t", 0, N)
        # where in the trajectory parameter j moves: all cases are covered by the four contracts
        C.pc += [0 <= s(t, j), s(t, j) < G]
        C.pc.append({"only": G == 1, "first": z3.And(G > 1, s(t, j) == 0), "last": z3.And(G > 1, s(t, j) == G - 1), "inner": z3.And(0 < s(t, j), s(t, j) < G - 1)}[case])
        E = f(X, Y, wrap(P), wrap(delta), scaling=scaled)
        v.prove("one effect per parameter and trajectory", z3.And(toint(E.shape[0]) == D, toint(E.shape[1]) == N))
        b = t * P + s(t, j)
        df = y(norm(b + 1)) - y(norm(b))
        inc = z3.If(d(t, j) > 0, df, -df)
        if scaled:
            key_ = lambda g: (lambda r: ns.F(funkey(r, norm(g(r)))))(z3.FreshConst(Int, "r"))
            sx = key_(lambda r: x0(t, j) + z3.If(r > s(t, j), d(t, j), z3.RealVal(0)))
            sy = key_(lambda r: y(norm(t * P + r)))
            C.pc.append(SX(t, j) != 0)
            want = z3.If(sy != 0, inc / SX(t, j) * sx / sy, z3.RealVal(0))
            x = v.resolve(norm(toreal(E.read(j, t))))
            if case == "only":
                one = lambda e: z3.simplify(z3.substitute(z3.substitute(e, (s(t, j), z3.IntVal(0))), (G, z3.IntVal(1))))
                x, want = v.resolve(one(x)), one(want)
            v.prove_eq("effect of the increase over the step, times the ratio of standard deviations", x, want)
        else:
            v.prove_eq("effect of the increase over delta", E.read(j, t), inc / delta)

    v.explore(run)


class StdNS:
    """numpy with std(a, axis=1) an uninterpreted function of the elements along the axis"""

    def __init__(self):
        self.F = ufn("np_std", KeySort, Real)

    def std(self, a, axis=None, ddof=0):
        a = as_arr(a)
        if axis != 1 or ddof != 0:
            raise Unsupported("np.std called in another way")
        sh = (a.shape[0],) + tuple(a.shape[2:])

        def cell(t, *q):
            C, r = Ctx.cur, z3.FreshConst(Int, "r")
            save = list(C.pc)
            C.pc += [0 <= r, r < toint(a.shape[1])]
            try:
                return self.F(funkey(r, norm(toreal(a.read(t, r, *q)))))
            finally:
                C.pc[:] = save

        return Arr(sh, CFn(cell), "real")

    def __getattr__(self, n):
        return getattr(npshim, n)


def step_size(v):
    """_calculate_step_size_x: the span of each parameter in each trajectory"""
    C = v.C
    D, N, P = v.int("D", 1), v.int("N", 1), v.int("P", 2)
    f = v.target(MOD + "._calculate_step_size_x")

    def run():
        X, x = v.mat("X", N, P, D)
        r = as_arr(f(X))
        t, j = v.fresh_int("t", 0, N), v.fresh_int("j", 0, D)
        v.prove("one step per trajectory and parameter", z3.And(toint(r.shape[0]) == N, toint(r.shape[1]) == D))
        row = Arr((wrapdim(P),), CFn(lambda q: x(t, toint(q), j)), "real")
        v.prove_eq("largest minus smallest value in the trajectory", r.read(t, j), toreal(np.max(row)) - toreal(np.min(row)))

    v.explore(run)


def member(v, D, nu, gi):
    """membership matrix of groups gi(j) in [0,nu)"""
    return Arr((wrapdim(D), wrapdim(nu)), CFn(lambda j, k: z3.If(gi(toint(j)) == toint(k), z3.IntVal(1), z3.IntVal(0))), "int")


def some_groups(v, D):
    """an arbitrary grouping of D parameters into nu non-empty groups"""
    nu = v.int("nu", 1)
    gi = z3.Function("gi", Int, Int)
    rep = z3.Function("rep", Int, Int)
    j, k = z3.Ints("j k")
    v.C.pc.append(z3.ForAll([j], z3.And(0 <= gi(j), gi(j) < nu), patterns=[gi(j)]))
    v.C.pc.append(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < nu), z3.And(0 <= rep(k), rep(k) < D, gi(rep(k)) == k)), patterns=[rep(k)]))
    return nu, gi


def grouped(v):
    """_compute_grouped_metric / _compute_grouped_sigma over any metric and any grouping"""
    C = v.C
    D = v.int("D", 1)
    f, g = v.target(MOD + "._compute_grouped_metric"), v.target(MOD + "._compute_grouped_sigma")

    def run():
        nu, gi = some_groups(v, D)
        q, qf = v.mat("q", D)
        k = v.fresh_int("k", 0, nu)
        size = SUM(D, lambda j: z3.If(gi(j) == k, z3.RealVal(1), z3.RealVal(0)))
        m = SUM(D, lambda j: z3.If(gi(j) == k, qf(j), z3.RealVal(0))) / size
        r = f(q, member(v, D, nu, gi))
        v.prove("one value per group", toint(as_arr(r).shape[0]) == nu)
        v.prove_eq("mean of the metric over the parameters of the group", as_arr(r).read(k), m)
        s = g(q, member(v, D, nu, gi))
        n = toint(np.sum(member(v, D, nu, gi)[:, wrap(k)]))
        v.prove("one sigma per group", toint(as_arr(s).shape[0]) == nu)
        x = as_arr(s).read(k)
        save = list(C.pc)
        C.pc.append(n == 1)
        v.prove_eq("sigma of the single parameter", x, m)
        C.pc[:] = save + [n != 1]
        v.prove_eq("NaN for several parameters", x, NAN)
        C.pc[:] = save

    v.explore(run)


def confidence(v):
    C = v.C
    D, N, R = v.int("D", 1), v.int("N", 2), v.int("R", 2)
    f = v.target(MOD + "._compute_mu_star_confidence")
    m = v.module(MOD)
    h = v.module("SALib.util")

    def run():
        EE, ee = v.mat("EE", D, N)
        conf = v.real("conf")
        C.pc += [conf > 0, conf < 1]
        r = f(EE, wrap(D), wrap(R), wrap(conf), h.handle_seed(wrap(v.int("seed", 0))))
        v.prove("one confidence interval per parameter", toint(as_arr(r).shape[0]) == D)
        j = v.fresh_int("j", 0, D)
        ev = [e for e in C.events if e[0] in ("draw", "loop")]
        v.expect("one draw of resampled trajectories per parameter", len(ev) == 1 and ev[0][0] == "loop" and ev[0][3][0] == "draw")
        fn, sh = ev[0][3][2], ev[0][3][3]
        q, i = v.fresh_int("q", 0, R), v.fresh_int("i", 0, N)
        v.prove("N trajectories per resample", z3.And(toint(sh[0]) == R, toint(sh[1]) == N))
        g = fn(q, i).decl()
        v.prove("drawn with replacement among the trajectories", z3.And(0 <= g(j, q, i), g(j, q, i) < N))
        any_row(v, ev[0], N)
        boot = Arr((wrapdim(R),), CFn(lambda q: SUM(N, lambda i: t_abs(ee(j, g(j, toint(q), i)))) / toreal(N)), "real")
        Z = ufn("ppf_stdnorm", Real, Real)(norm(z3.Q(1, 2) + conf / 2))
        v.prove_eq("quantile times the sample standard deviation of the resampled mu_star", as_arr(r).read(j), Z * toreal(np.std(boot, ddof=1)))

    v.explore(run)


def key(a):
    t = z3.FreshConst(Int, "t")
    return funkey(t, norm(toreal(as_arr(a).read(t))))


def statistics(v):
    """_compute_statistical_outputs over its callees' contracts"""
    C = v.C
    D, N, R = v.int("D", 1), v.int("N", 2), v.int("R", 2)
    f = v.target(MOD + "._compute_statistical_outputs")
    GM, GS = ufn("grouped_metric", KeySort, Int, Real), ufn("grouped_sigma", KeySort, Int, Real)
    CF = z3.Function("confidence", Int, Real)
    seen = []

    def st(F):
        def g(q, groups):
            k_, gs = key(q), as_arr(groups)
            seen.append(groups)
            return Arr((gs.shape[1],), CFn(lambda k: F(k_, toint(k))), "real")
        return g

    conf_args = []

    def cf(*a):
        conf_args.append(a)
        return Arr((wrapdim(D),), CFn(lambda j: CF(toint(j))), "real")

    why = "callee contracts: _compute_grouped_metric, _compute_grouped_sigma and _compute_mu_star_confidence are functions of the vector and groups they are given (proved in their own contracts)"
    v.stub(MOD, "_compute_grouped_metric", st(GM), why)
    v.stub(MOD, "_compute_grouped_sigma", st(GS), why)
    v.stub(MOD, "_compute_mu_star_confidence", cf, why)

    def run():
        del seen[:], conf_args[:]
        nu, gi = some_groups(v, D)
        EE, ee = v.mat("EE", D, N)
        conf = v.real("conf")
        rng = object()
        G = member(v, D, nu, gi)
        names, nf = v.names("gname", nu)
        Si = f(EE, wrap(D), wrap(R), wrap(conf), G, names, rng)
        k = v.fresh_int("k", 0, nu)
        K = lambda a: key(a)
        v.expect("groups passed on", len(seen) == 4 and all(x is G for x in seen))
        v.expect("confidence computed once", len(conf_args) == 1 and conf_args[0][4] is rng and len(conf_args[0]) == 5)
        j, i = v.fresh_int("j", 0, D), v.fresh_int("i", 0, N)
        v.prove_eq("confidence of the effects", as_arr(conf_args[0][0]).read(j, i), ee(j, i))
        v.prove("sizes and level as asked", z3.And(toint(conf_args[0][1]) == D, toint(conf_args[0][2]) == R, toreal(conf_args[0][3]) == conf))
        v.prove_eq("entry k is named after group k", as_arr(Si["names"]).read(k), nf(k))
        v.prove_eq("mu: mean effect", as_arr(Si["mu"]).read(k), GM(K(np.mean(EE, axis=1)), k))
        v.prove_eq("mu_star: mean absolute effect", as_arr(Si["mu_star"]).read(k), GM(K(np.mean(np.abs(EE), axis=1)), k))
        v.prove_eq("sigma: sample standard deviation", as_arr(Si["sigma"]).read(k), GS(K(np.std(EE, axis=1, ddof=1)), k))
        v.prove_eq("mu_star_conf: the confidence intervals", as_arr(Si["mu_star_conf"]).read(k), GM(key(Arr((wrapdim(D),), CFn(lambda j: CF(toint(j))), "real")), k))

    v.explore(run)


def analyze(v, grouped):
    """analyze over its callees' contracts: what they are given"""
    C = v.C
    D, N, R = v.int("D", 1), v.int("N", 2), v.int("R", 2)
    h = v.int("half_levels", 1)
    m = v.module(MOD)
    v.under(MOD + ".analyze", MOD + "._check_if_array_of_floats")
    EEf = z3.Function("EE", Int, Int, Real)
    call, stat = [], []

    def eff(X, Y, size, delta, scaling=False):
        call.append((X, Y, size, delta, scaling))
        return Arr((wrapdim(D), wrapdim(N)), CFn(lambda j, t: EEf(toint(j), toint(t))), "real")

    def stats(*a):
        stat.append(a)
        return PDict({"mu": 1})

    v.stub(MOD, "_compute_elementary_effects", eff, "callee contract: _compute_elementary_effects gives one number per parameter and trajectory (its value is proved in its own contract)")
    v.stub(MOD, "_compute_statistical_outputs", stats, "callee contract: _compute_statistical_outputs is proved in its own contract")

    def run():
        del call[:], stat[:]
        p = problem(v, D, groups=grouped)
        src = p["groups"] if grouped else p["names"]
        nu, uk, gi = group_view(src, D)
        if not grouped:
            distinct(v, p["names"], D)
        P = nu + 1
        X, _ = v.mat("X", N * P, D)
        Y, y = v.mat("Y", N * P)
        conf = v.real("conf")
        C.pc += [conf > 0, conf < 1]
        L = 2 * h
        sc = v.C.fresh("scaled", Bool)
        Si = m.analyze(p, X, Y, num_resamples=wrap(R), conf_level=wrap(conf), scaled=wrap(sc), num_levels=wrap(L), seed=wrap(v.int("seed", 0)))
        delta = toreal(L) / (2 * (toreal(L) - 1))
        v.expect("elementary effects computed once", len(call) == 1 and len(stat) == 1)
        x_, y_, size, dl, s_ = call[0]
        i, j = v.fresh_int("i", 0, N * P), v.fresh_int("j", 0, D)
        v.prove_eq("effects from the given inputs", as_arr(x_).read(i, j), X.read(i, j))
        v.prove_eq("effects from the given outputs", as_arr(y_).read(i), Y.read(i))
        v.prove("trajectories of G+1 points", toint(size) == P)
        v.prove_eq("delta = p/(2(p-1))", dl, delta)
        v.prove("scaling as asked", tobool(s_) == sc)
        v.expect("statistics of the effects", len(stat[0]) == 7)
        ee, nv, nr, cl, G, names, rng = stat[0]
        t, k = v.fresh_int("t", 0, N), v.fresh_int("k", 0, nu)
        v.prove_eq("of these effects", as_arr(ee).read(j, t), EEf(j, t))
        v.prove("options as asked", z3.And(toint(nv) == D, toint(nr) == R, toreal(cl) == conf))
        G = as_arr(G)
        v.prove("one column per group", z3.And(toint(G.shape[0]) == D, toint(G.shape[1]) == nu))
        v.prove_eq("membership: parameter j belongs to its group", G.read(j, k), z3.If(gi(j) == k, z3.IntVal(1), z3.IntVal(0)))
        v.prove("one name per group", toint(as_arr(names).shape[0]) == nu)
        v.prove_eq("entry k is named after group k", as_arr(names).read(k), uk(k))

    v.explore(run)


CONTRACTS = [(f"elementary effects[moved at the {c} step]", lambda v, c=c: effects(v, False, c)) for c in ("only", "first", "inner", "last")] + [(f"scaled elementary effects[moved at the {c} step]", lambda v, c=c: effects(v, True, c)) for c in ("only", "first", "inner", "last")] + [("step size", step_size), ("grouped metric and sigma", grouped), ("mu_star confidence", confidence), ("statistics", statistics),
             ("morris.analyze[groups]", lambda v: analyze(v, True)), ("morris.analyze[no groups]", lambda v: analyze(v, False))]
