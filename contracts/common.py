"""Shared pre-states and callee contracts."""
import z3
from pyvc.core import *
from pyvc.arrays import *
from pyvc import npshim, libs
from pyvc.verify import *

T = ufn("T", Int, Real, Real)  # scaling of parameter j (C01/C02 say what it is)


def ints(s):
    return z3.Ints(s)


def problem(v, D, groups=False, dists=None, **extra):
    """A well-formed problem dict over D symbolic parameters."""
    C = v.C
    names, nf = v.names("pname", D)
    d = {"num_vars": wrapdim(D), "names": names, "bounds": PList.sym(D, lambda i: PList([Sc(ufn("lo", Int, Real)(toint(i))), Sc(ufn("hi", Int, Real)(toint(i)))]))}
    if groups:
        g, gf = v.names("group", D)
        d["groups"] = g
    if dists is not None:
        d["dists"] = dists
    d.update(extra)
    return PDict(d)


def scale_contract(params, problem):
    """contract of scale_samples: same shape, cell (r,j) -> T_j(cell), in place or not"""
    a = as_arr(params)
    rd = a.reader()
    problem["sample_scaled"] = True
    new = Arr(a.shape, CFn(lambda r, j: T(toint(j), toreal(rd(r, j)))), "real")
    return new


def stub_scale(v, *mods):
    v.stub("SALib.util", "scale_samples", scale_contract, "callee contract: scale_samples maps cell (r,j) to T_j of the cell and keeps the shape (proved in C01/C02)")


def group_view(groups, D):
    """(number of groups, name of group k, index of the group of parameter j)"""
    u = npshim.unique_model(groups, "first")
    nu, uk, g, f, n, rd = u.uniq
    return nu, uk, lambda j: g(rd(toint(j)))


def spec_of(m, p):
    """A ProblemSpec holding the problem dict p, as its __init__ leaves it (without the generated methods)."""
    s = m.ProblemSpec.__new__(m.ProblemSpec)
    PDict.__init__(s, p)
    s._samples = s._results = s._analysis = None
    return s


def capture_scale(v):
    """stub scale_samples by its contract and remember what it was given"""
    got = {"n": 0}

    def f(params, problem):
        a = as_arr(params)
        rd = a.reader()
        got["n"] += 1
        got["in"] = Arr(a.shape, CFn(lambda r, j: toreal(rd(r, j))), "real")
        got["problem"] = problem
        return scale_contract(params, problem)

    v.stub("SALib.util", "scale_samples", f, "callee contract: scale_samples maps cell (r,j) to T_j of the cell and keeps the shape (proved in C01/C02)")
    return got


def apps(t, part):
    """distinct applications in t of functions whose name contains part"""
    out, seen = [], set()

    def go(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return go(x.body())
        if z3.is_app(x):
            if part in x.decl().name() and x.num_args() and not any(x.eq(y) for y in out):
                out.append(x)
            for c in x.children():
                go(c)

    go(t)
    return out


def distinct(v, lst, n):
    """precondition: the listed names are pairwise different"""
    f = as_arr(lst).reader()
    a, b = z3.Ints("a b")
    v.given(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < n, 0 <= b, b < n, f(a) == f(b)), a == b), patterns=[z3.MultiPattern(f(a), f(b))]))


def split(C, row, P):
    """row = t*P + r with 0 <= r < P"""
    from pyvc.arrays import split_div
    return split_div(norm(toint(row)), toint(P))


def key_of(a, *q):
    """a name for the sequence t -> a[t, *q] (equal names: equal sequences)"""
    C = Ctx.cur
    a = as_arr(a)
    t = z3.FreshConst(Int, "t")
    save = list(C.pc)
    C.pc += [0 <= t, t < toint(a.shape[0])]
    try:
        return funkey(t, norm(toreal(a.read(t, *q))), toint(a.shape[0]))
    finally:
        C.pc[:] = save


def seq(n, f, dt="real"):
    """the sequence t -> f(t) of length n"""
    return Arr((wrapdim(toint(n)),), CFn(lambda t: f(toint(t))), dt)


def any_row(v, event, n, what="every position of the sample can be drawn"):
    """the bounds a draw was made with leave no position out"""
    while event[0] == "loop":
        event = event[3]
    w = v.fresh_int("w", 0, n)
    v.prove(what, event[4](w))
