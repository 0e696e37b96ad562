"""Symbolic model of the parts of NumPy that SALib uses (assumed library contracts;
cross-checked against the real NumPy by /verif/rac/libmodel.py)."""
import builtins as B
import math as _math
import z3
from .core import *
from .core import t_floor, t_trunc
from .arrays import *
from . import arrays as A

nan = float("nan")
inf = float("inf")
newaxis = None
PI = z3.Const("pi", Real)
pi = Sc(PI)
SIN, COS, ARCSIN = ufn("sin", Real, Real), ufn("cos", Real, Real), ufn("arcsin", Real, Real)
EXP, LOG = ufn("exp", Real, Real), ufn("log", Real, Real)


class _DT:
    def __init__(self, name):
        self.__name__ = name
        self.name = name

    def __call__(self, x=0):
        if isinstance(x, (Arr, PList)):
            return as_arr(x).astype(self)
        dt = dtype_name(self)
        if dt == "real":
            if is_num(x):
                return float(x)
            return wrap(toreal(x))
        if dt == "int":
            return wrap(t_trunc(term(x)))
        return x


float64, float32, int32, int64, bool_, object_ = (_DT(x) for x in ("float64", "float32", "int32", "int64", "bool_", "object_"))
long = _DT("long")
integer, floating, number, generic = _DT("integer"), _DT("floating"), _DT("number"), _DT("generic")
ndarray = Arr
E = Sc(z3.Const("e_const", Real))
e = E


class LinAlgError(Exception):
    pass


def _shape(s):
    if isinstance(s, (int, Sc)):
        return (wrapdim(s),)
    if isinstance(s, PList):
        st = s.st
        if st.items is None:
            raise Unsupported("symbolic rank")
        s = st.items
    return tuple(wrapdim(d) for d in s)


def const_arr(shape, t, dt):
    return Arr(shape, CFn(lambda *q: t), dt)


def zeros(shape, dtype=None, order=None):
    dt = "real" if dtype is None else dtype_name(dtype)
    z = {"real": z3.RealVal(0), "int": z3.IntVal(0), "bool": z3.BoolVal(False)}.get(dt)
    if dt == "obj":
        return Arr(_shape(shape), CFn(lambda *q: z3.RealVal(0)), "real")
    return const_arr(_shape(shape), z, dt)


def ones(shape, dtype=None):
    dt = "real" if dtype is None else dtype_name(dtype)
    return const_arr(_shape(shape), {"real": z3.RealVal(1), "int": z3.IntVal(1), "bool": z3.BoolVal(True)}[dt], dt)


def full(shape, v, dtype=None):
    t = term(v)
    return const_arr(_shape(shape), t, sort_dtype(t.sort()))


def empty(shape, dtype=None):
    sh = _shape(shape)
    dt = "real" if dtype is None else dtype_name(dtype)
    f = ctx().fresh_fn("uninit", len(sh), {"int": Int, "bool": Bool}.get(dt, Real))
    return Arr(sh, CFn(lambda *q: f(*q)), "real" if dt == "obj" else dt)


def zeros_like(a, dtype=None):
    a = as_arr(a)
    return zeros(a.shape, dtype or a.dtype)


def ones_like(a, dtype=None):
    a = as_arr(a)
    return ones(a.shape, dtype or a.dtype)


def empty_like(a, dtype=None):
    a = as_arr(a)
    return empty(a.shape, dtype or a.dtype)


def full_like(a, v, dtype=None):
    return full(as_arr(a).shape, v)


def array(x, dtype=None, copy=True, ndmin=0):
    if isinstance(x, A.FiltArr):
        return x
    if isinstance(x, (PList, tuple, list)) and dtype is not None and dtype_name(dtype) == "obj":
        try:
            a = as_arr(x)
        except Unsupported:
            return PList(x)  # ragged object array: a list of rows
        if a.dtype != "obj" and a.ndim > 1:
            return a.copy()
    a = as_arr(x).copy()
    if dtype is not None:
        a = a.astype(dtype)
    return a


def asarray(x, dtype=None):
    a = as_arr(x)
    return a if dtype is None else a.astype(dtype)


def asanyarray(x):
    return as_arr(x)


def atleast_1d(x):
    a = as_arr(x)
    if a.ndim == 0:
        return a.view((1,), lambda i: ())
    return a


def atleast_2d(x):
    a = as_arr(x)
    if a.ndim == 0:
        return a.view((1, 1), lambda i, j: ())
    if a.ndim == 1:
        return a.view((1, a.shape[0]), lambda i, j: (j,))
    return a


def copy(a):
    return as_arr(a).copy()


def ascontiguousarray(a):
    return as_arr(a)


def arange(*a, dtype=None, step=None):
    if B.all(isinstance(x, int) or isinstance(x, Sc) and x.t.sort() == Int for x in a):
        return as_arr(SymRange(*a))
    if len(a) == 1:
        a = (0, a[0], 1)
    elif len(a) == 2:
        a = (a[0], a[1], 1)
    st, sp, se = (toreal(x) for x in a)
    n = -t_floor(-((sp - st) / se))
    n = z3.simplify(n)
    return Arr((wrapdim(n),), CFn(lambda i: st + se * toreal(i)), "real")


def linspace(a, b, num=50, endpoint=True):
    ta, tb, n = toreal(a), toreal(b), toint(num)
    C = ctx()
    den = toreal(n - 1) if endpoint else toreal(n)

    def rd(i):
        v = ta + toreal(i) * (tb - ta) / den
        if endpoint:
            if C.valid(n == 1):
                return ta
            if not C.valid(n > 1):
                return z3.If(n > 1, v, ta)
        return v

    return Arr((wrapdim(num),), CFn(rd), "real")


def eye(n, m=None, k=0, dtype=None):
    m = n if m is None else m
    o, z = (z3.IntVal(1), z3.IntVal(0)) if dtype is not None and dtype_name(dtype) == "int" else (z3.RealVal(1), z3.RealVal(0))
    kt = toint(k)
    return Arr((wrapdim(n), wrapdim(m)), CFn(lambda i, j: z3.If(i + kt == j, o, z)), "int" if o.sort() == Int else "real")


def identity(n, dtype=None):
    return eye(n, dtype=dtype)


def diag(v, k=0):
    v = as_arr(v)
    if v.ndim == 2:
        return v.view((v.shape[0],), lambda i: (i, i))
    rd = v.reader()
    z = z3.IntVal(0) if v.dtype == "int" else z3.RealVal(0)
    return Arr((v.shape[0], v.shape[0]), CFn(lambda i, j: z3.If(i == j, rd(i), z)), v.dtype)


def tril(m, k=0):
    m = as_arr(m)
    rd = m.reader()
    kt = toint(k)
    z = z3.IntVal(0) if m.dtype == "int" else z3.RealVal(0)
    return Arr(m.shape, CFn(lambda i, j: z3.If(j <= i + kt, rd(i, j), z)), m.dtype)


def triu(m, k=0):
    m = as_arr(m)
    rd = m.reader()
    kt = toint(k)
    z = z3.IntVal(0) if m.dtype == "int" else z3.RealVal(0)
    return Arr(m.shape, CFn(lambda i, j: z3.If(j >= i + kt, rd(i, j), z)), m.dtype)


# ---- ufuncs ---------------------------------------------------------------


def _uf(fn, dt=None):
    def f(*args, out=None, where=None, dtype=None):
        if out is None:
            if where is not None and where is not True:
                raise Unsupported("ufunc with where but without out")
            return elementwise(fn, list(args), dt)
        r = elementwise(fn, list(args), dt)
        if isinstance(out, tuple):
            (out,) = out
        if where is not None and where is not True:
            r = elementwise(lambda w, x, y: z3.If(tobool(w), *arith2(x, y)), [where, r, out])
        out[...] = r
        return out

    return f


add, subtract, multiply, divide, true_divide = _uf(A.arr_add), _uf(t_sub), _uf(t_mul), _uf(t_div, "real"), _uf(t_div, "real")
power = _uf(t_pow)
mod = remainder = _uf(t_mod)
floor_divide = _uf(t_floordiv)
absolute = abs = _uf(t_abs)
fabs = _uf(lambda a: toreal(t_abs(a)))
sqrt = _uf(lambda a: t_sqrt(a), "real")
square = _uf(lambda a: t_mul(a, a))
negative = _uf(lambda a: t_sub(0, a))
sin = _uf(lambda a: SIN(norm(toreal(a))), "real")
cos = _uf(lambda a: COS(norm(toreal(a))), "real")
arcsin = _uf(lambda a: ARCSIN(norm(toreal(a))), "real")
exp = _uf(lambda a: EXP(norm(toreal(a))), "real")
log = _uf(lambda a: LOG(norm(toreal(a))), "real")
log2 = _uf(lambda a: ufn("log2", Real, Real)(norm(toreal(a))), "real")
def modf(a):
    tr = elementwise(lambda x: z3.If(toreal(x) >= 0, toreal(t_floor(toreal(x))), -toreal(t_floor(-toreal(x)))), [a], "real")
    return elementwise(t_sub, [a, tr], "real"), tr


floor = _uf(lambda a: toreal(t_floor(term(a))), "real")
ceil = _uf(lambda a: toreal(-t_floor(-toreal(a))), "real")
minimum = _uf(t_min)
maximum = _uf(t_max)
less = _uf(lambda a, b: (lambda x: x[0] < x[1])(arith2(a, b)), "bool")
less_equal = _uf(lambda a, b: (lambda x: x[0] <= x[1])(arith2(a, b)), "bool")
greater = _uf(lambda a, b: (lambda x: x[0] > x[1])(arith2(a, b)), "bool")
greater_equal = _uf(lambda a, b: (lambda x: x[0] >= x[1])(arith2(a, b)), "bool")
equal = _uf(t_eq, "bool")
not_equal = _uf(lambda a, b: z3.Not(t_eq(a, b)), "bool")
logical_and = _uf(lambda a, b: z3.And(tobool(a), tobool(b)), "bool")
logical_or = _uf(lambda a, b: z3.Or(tobool(a), tobool(b)), "bool")
logical_not = _uf(lambda a: z3.Not(tobool(a)), "bool")
isnan = _uf(lambda a: toreal(a) == NAN, "bool")
isfinite = _uf(lambda a: z3.And(toreal(a) != NAN, toreal(a) != INF), "bool")
sign = _uf(lambda a: z3.If(term(a) > 0, z3.IntVal(1), z3.If(term(a) < 0, z3.IntVal(-1), z3.IntVal(0))))


def copyto(dst, src, casting=None, where=True):
    if where is True:
        dst[...] = src
    else:
        dst[...] = elementwise(lambda w, x, y: z3.If(tobool(w), *arith2(x, y)), [where, src, dst])


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    """kept abstract: true when equal, false when far apart"""
    def fn(x, y):
        x, y = toreal(x), toreal(y)
        return z3.Or(x == y, ufn("isclose", Real, Real, Bool)(x, y))
    return elementwise(fn, [a, b], "bool")


def clip(a, lo, hi, out=None):
    return elementwise(lambda x, l, h: t_min(t_max(x, l), h), [a, lo, hi])


def where(c, *a):
    if len(a) == 2:
        return elementwise(lambda k, x, y: z3.If(tobool(k), *arith2(x, y)), [c, a[0], a[1]])
    c = as_arr(c)
    if c.ndim == 1:
        return (WhereIdx(c),)
    if c.ndim == 2:
        raise Unsupported("where on a matrix")
    raise Unsupported("where")


class WhereIdx(Arr):
    """positions of True in a 1-d boolean array (ascending)"""

    def __init__(self, c):
        mr = c.reader()
        C = ctx()
        n = c.shape[0]
        cnt = C.fresh("nwhere", Int)
        C.assume(z3.And(cnt >= 0, cnt <= toint(n)))
        f = C.fresh_fn("where", 1, Int)
        self.mask = c
        self.cond = lambda t: tobool(mr(t))
        self.src_n = n
        k = z3.FreshConst(Int, "k")
        t = z3.FreshConst(Int, "t")
        h = C.fresh_fn("wherepos", 1, Int)
        # k-th hit is a position where the condition holds, and conversely
        save = list(C.pc)
        C.pc.extend([0 <= k, k < cnt])
        ax1 = z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < cnt), z3.And(0 <= f(k), f(k) < toint(n), h(f(k)) == k)), patterns=[f(k)])
        C.pc[:] = save
        C.assume(ax1)
        fk = f(k)
        save = list(C.pc)
        C.pc.extend([0 <= k, k < cnt, 0 <= fk, fk < toint(n)])
        body = self.cond(fk)
        C.pc[:] = save
        C.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < cnt), body), patterns=[f(k)]))
        save = list(C.pc)
        C.pc.extend([0 <= t, t < toint(n)])
        ct = self.cond(t)
        C.pc[:] = save
        C.assume(z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < toint(n), ct), z3.And(0 <= h(t), h(t) < cnt, f(h(t)) == t)), patterns=[h(t)]))
        lv = list(C.loopvars)

        def back(pre, x):
            m = list(zip(lv, pre))
            y = z3.FreshConst(Int, "y")
            return h_raw(*pre, x), z3.substitute(z3.And(0 <= y, y < (z3.substitute(toint(n), *m) if m else toint(n)), z3.substitute(ct, (t, y), *m) if m else z3.substitute(ct, (t, y))), (y, x))

        h_raw = h(t).decl()
        C.inverse[f(t).decl().name()] = back
        Arr.__init__(self, (wrapdim(cnt),), CFn(lambda i: f(i)), "int")


def _is_where(x):
    return isinstance(x, WhereIdx)


# ---- reductions -----------------------------------------------------------


def _axes(a, axis):
    if axis is None:
        return tuple(range(a.ndim))
    if isinstance(axis, int):
        axis = (axis,)
    return tuple(x + a.ndim if x < 0 else x for x in axis)


def _reduce(a, axis, leaf, dt="real", keepdims=False):
    """leaf(n, f): reduction of f over [0,n); nested over several axes"""
    a = as_arr(a)
    axes = _axes(a, axis)
    rd = a.reader()
    keep = [k for k in range(a.ndim) if k not in axes]

    def red(fixed, rest):
        if not rest:
            return rd(*[fixed[k] for k in range(a.ndim)])
        ax = rest[0]
        return leaf(a.shape[ax], lambda t: red({**fixed, ax: t}, rest[1:]))

    def out(*q):
        return red(dict(zip(keep, q)), list(axes))

    if not keep and not keepdims:
        return wrap(out())
    if keepdims:
        sh = tuple(1 if k in axes else a.shape[k] for k in range(a.ndim))
        return Arr(sh, CFn(lambda *q: red({k: q[k] for k in keep}, list(axes))), dt)
    return Arr(tuple(a.shape[k] for k in keep), CFn(out), dt)


def sum(a, axis=None, dtype=None, keepdims=False):
    if isinstance(a, A.FiltMat):
        return a.reduce(lambda x: x.sum(), axis)
    if isinstance(a, A.FiltArr):
        return a.sum()
    a = as_arr(a)
    if a.dtype in ("int", "bool"):
        return _reduce(a, axis, lambda n, f: A._sumi(n, lambda t: toint(f(t))), "int", keepdims)
    return _reduce(a, axis, A.SUM, "real", keepdims)


def _count(a, axis):
    a = as_arr(a)
    r = 1
    for k in _axes(a, axis):
        r = r * a.shape[k]
    return r


def mean(a, axis=None, keepdims=False, dtype=None):
    if isinstance(a, A.FiltMat):
        return a.reduce(lambda x: x.mean(), axis)
    if isinstance(a, A.FiltArr):
        return a.mean()
    a = as_arr(a)
    c = toreal(_count(a, axis))
    s = _reduce(a, axis, A.SUM, "real", keepdims)
    return elementwise(lambda x: toreal(x) / c, [s], "real")


average = mean


def var(a, axis=None, ddof=0, keepdims=False):
    if isinstance(a, A.FiltMat):
        return a.reduce(lambda x: x.var(ddof=ddof), axis)
    if isinstance(a, A.FiltArr):
        return a.var(ddof=ddof)
    a = as_arr(a)
    c = toreal(_count(a, axis))
    m = mean(a, axis=axis, keepdims=True) if a.ndim else a
    d = elementwise(t_sub, [a, m])
    s = _reduce(elementwise(lambda x: toreal(x) * toreal(x), [d]), axis, A.SUM, "real", keepdims)
    den = c - toreal(ddof)
    return elementwise(lambda x: norm(toreal(x) / den), [s], "real")


def std(a, axis=None, ddof=0, keepdims=False):
    v = var(a, axis=axis, ddof=ddof, keepdims=keepdims)
    return elementwise(lambda x: t_sqrt(norm(x)), [v], "real")


def prod(a, axis=None):
    a = as_arr(a)
    n = a.shape[0]
    if a.ndim == 1 and isinstance(n, int) and (n <= 3 or B.all(z3.is_rational_value(norm(toreal(a.read(k)))) for k in range(n))):
        r = 1
        for k in range(n):
            r = r * wrap(a.read(k))
        return r
    F = ufn("PROD", Int, KeySort, Real)

    def leaf(n, f):
        C = ctx()
        t = z3.FreshConst(Int, "p")
        save = list(C.pc)
        C.pc += [0 <= t, t < toint(n)]
        try:
            e = norm(toreal(f(t)))
        finally:
            C.pc[:] = save
        return F(toint(n), funkey(t, e, toint(n)))

    return _reduce(a, axis, leaf)


def _minmax(kind):
    F = ufn(kind, Int, KeySort, Real)

    def leaf(n, f):
        C = ctx()
        t = z3.FreshConst(Int, "m")
        body = norm(toreal(f(t)))
        if not occurs(t, body):
            return body
        key = funkey(t, body, toint(n))
        v = F(toint(n), key)
        # defining axioms of the extremum
        le = (lambda x: v <= x) if kind == "MIN" else (lambda x: v >= x)
        w = ufn("ARG" + kind, Int, KeySort, Int)(toint(n), key)
        C.define(z3.Implies(toint(n) > 0, z3.And(0 <= w, w < toint(n), v == z3.substitute(body, (t, w)))))
        C.define(z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < toint(n)), le(body))))
        return v

    def red(a, axis=None, keepdims=False, **k):
        if isinstance(a, A.FiltArr):
            return wrap(ufn("F" + kind, Int, z3.ArraySort(Int, Bool), z3.ArraySort(Int, Real), Real)(
                toint(a.n), _lamf(a.cond), _lamf(lambda t: toreal(a.val(t)))))
        a = as_arr(a)
        ax = _axes(a, axis)
        if len(ax) == 1 and isinstance(a.shape[ax[0]], int) and a.shape[ax[0]] <= 4:
            n0 = a.shape[ax[0]]
            rd = a.reader()
            f2 = t_min if kind == "MIN" else t_max
            keep = [k for k in range(a.ndim) if k not in ax]

            def out(*q):
                r = None
                for k in range(n0):
                    idx = list(q)
                    idx.insert(ax[0], z3.IntVal(k))
                    e = rd(*idx)
                    r = e if r is None else f2(r, e)
                return r
            if not keep:
                return wrap(out())
            return Arr(tuple(a.shape[k] for k in keep), CFn(out), a.dtype)
        if a.ndim == 2 and axis is None:
            # iterated extremum
            return red(red(a, axis=1))
        return _reduce(a, axis, leaf, "real", keepdims)

    return red


def _lamf(f):
    t = z3.FreshConst(Int, "l")
    return A.lam(t, f(t))


amin = min = _minmax("MIN")
amax = max = _minmax("MAX")
nanmin, nanmax, nanmean, nanstd = min, max, mean, std


def ptp(a, axis=None):
    if axis is None:
        a = as_arr(a)
        if a.ndim == 2:
            return ufn_ptp2(a)
        return elementwise(t_sub, [max(a), min(a)])
    return elementwise(t_sub, [max(a, axis=axis), min(a, axis=axis)])


def ufn_ptp2(a):
    return elementwise(t_sub, [max(a), min(a)])


def any(a, axis=None):
    if isinstance(a, A.FiltArr):
        return a.any()
    if isinstance(a, (bool, Sc)):
        return a
    a = as_arr(a)
    if a.ndim == 0:
        return wrap(tobool(a.__scalar__()))
    return _quant(a, axis, z3.Exists, z3.And, z3.Or)


def all(a, axis=None):
    if isinstance(a, A.FiltArr):
        return a.all()
    if isinstance(a, (bool, Sc)):
        return a
    a = as_arr(a)
    if a.ndim == 0:
        return wrap(tobool(a.__scalar__()))
    return _quant(a, axis, z3.ForAll, z3.Implies, z3.And)


def _quant(a, axis, Q, J, M):
    axes = _axes(a, axis)
    rd = a.reader()
    keep = [k for k in range(a.ndim) if k not in axes]

    def out(*q):
        fixed = dict(zip(keep, q))
        vs, rng = [], []
        conc = []
        for ax in axes:
            d = a.shape[ax]
            if isinstance(d, int) and d <= 6:
                conc.append((ax, d))
            else:
                v = z3.FreshConst(Int, "q")
                vs.append(v)
                rng += [0 <= v, v < toint(d)]
                fixed[ax] = v
        C = ctx()
        save = list(C.pc)
        C.pc.extend(rng)
        import itertools
        try:
            bodies = []
            for combo in itertools.product(*[range(d) for _, d in conc]):
                f2 = dict(fixed)
                for (ax, _), k in zip(conc, combo):
                    f2[ax] = z3.IntVal(k)
                bodies.append(tobool(rd(*[f2[k] for k in range(a.ndim)])))
        finally:
            C.pc[:] = save
        b = bodies[0] if len(bodies) == 1 else M(bodies) if bodies else z3.BoolVal(M is z3.And)
        if not vs:
            return b
        return Q(vs, J(z3.And(rng), b))

    if not keep:
        return wraps(out())
    return Arr(tuple(a.shape[k] for k in keep), CFn(out), "bool")


def cumsum(a, axis=None):
    a = as_arr(a)
    if a.ndim != 1:
        raise Unsupported("cumsum nd")
    rd = a.reader()
    if a.dtype == "int":
        return Arr(a.shape, CFn(lambda i: A._sumi(i + 1, lambda t: rd(t))), "int")
    return Arr(a.shape, CFn(lambda i: A.SUM(i + 1, lambda t: rd(t))), "real")


def diff(a, n=1, axis=-1):
    a = as_arr(a)
    ax = axis + a.ndim if axis < 0 else axis
    rd = a.reader()
    sh = list(a.shape)
    sh[ax] = wrapdim(norm(toint(sh[ax]) - 1))

    def f(*q):
        q2 = list(q)
        q2[ax] = q[ax] + 1
        x, y = arith2(rd(*q2), rd(*q))
        return x - y

    return Arr(sh, CFn(f), a.dtype)


def count_nonzero(a, axis=None):
    return sum(elementwise(lambda x: z3.If(tobool(x), z3.IntVal(1), z3.IntVal(0)), [as_arr(a)], "int"), axis=axis)


def argmax(a, axis=None):
    return _arg(a, "MAX")


def argmin(a, axis=None):
    return _arg(a, "MIN")


def _arg(a, kind):
    a = as_arr(a)
    if a.ndim != 1:
        raise Unsupported("arg" + kind)
    C = ctx()
    rd = a.reader()
    n = toint(a.shape[0])
    w = C.fresh("arg" + kind.lower(), Int)
    t = z3.FreshConst(Int, "t")
    C.assume(z3.And(0 <= w, w < n))
    x, y = arith2(rd(w), rd(t))
    cmp = x >= y if kind == "MAX" else x <= y
    strict = x > y if kind == "MAX" else x < y
    C.assume(z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < n), z3.And(cmp, z3.Implies(t < w, strict)))))
    return Sc(w)


# ---- linear algebra -------------------------------------------------------


def matmul(a, b):
    a, b = as_arr(a), as_arr(b)
    ra, rb = a.reader(), b.reader()
    dt = "int" if a.dtype == b.dtype == "int" else "real"
    n = a.shape[-1]
    if not same(n, b.shape[-2] if b.ndim > 1 else b.shape[0]):
        if ctx().valid(toint(n) != toint(b.shape[-2] if b.ndim > 1 else b.shape[0])):
            raise ValueError("matmul: mismatch in its core dimension")
        raise Unsupported("matmul shapes")

    def S(f):
        if dt == "int":
            r = sum_int(n, f)
            return r
        return A.SUM(n, f)

    if a.ndim == 2 and b.ndim == 2:
        return Arr((a.shape[0], b.shape[1]), CFn(lambda i, j: S(lambda t: t_mul(ra(i, t), rb(t, j)))), dt)
    if a.ndim == 1 and b.ndim == 1:
        return wrap(S(lambda t: t_mul(ra(t), rb(t))))
    if a.ndim == 2 and b.ndim == 1:
        return Arr((a.shape[0],), CFn(lambda i: S(lambda t: t_mul(ra(i, t), rb(t)))), dt)
    if a.ndim == 1 and b.ndim == 2:
        return Arr((b.shape[1],), CFn(lambda j: S(lambda t: t_mul(ra(t), rb(t, j)))), dt)
    raise Unsupported("matmul rank")


def sum_int(n, f):
    """integer sums with one-hot simplification go through the real normaliser"""
    t = z3.FreshConst(Int, "s")
    C = ctx()
    save = list(C.pc)
    C.pc.extend([0 <= t, t < toint(n)])
    try:
        e = toint(f(t))
    finally:
        C.pc[:] = save
    r = A.sum_term(toint(n), t, int_to_real(e))
    i = real_to_int(r)
    if i is not None:
        return i
    return A._sumi(n, lambda u: z3.substitute(e, (t, u)))


def int_to_real(e):
    k = e.decl().kind()
    if z3.is_int_value(e):
        return z3.RealVal(e.as_long())
    if k == z3.Z3_OP_ITE:
        return z3.If(e.arg(0), int_to_real(e.arg(1)), int_to_real(e.arg(2)))
    if k == z3.Z3_OP_ADD:
        return z3.Sum([int_to_real(c) for c in e.children()])
    if k == z3.Z3_OP_MUL:
        r = None
        for c in e.children():
            x = int_to_real(c)
            r = x if r is None else r * x
        return r
    if k == z3.Z3_OP_UMINUS:
        return -int_to_real(e.arg(0))
    return z3.ToReal(e)


def real_to_int(r):
    """inverse of int_to_real when no SUM remains"""
    k = r.decl().kind()
    if z3.is_rational_value(r):
        return z3.IntVal(r.numerator_as_long()) if r.denominator_as_long() == 1 else None
    if k == z3.Z3_OP_TO_REAL:
        return r.arg(0)
    if k == z3.Z3_OP_ITE:
        a, b = real_to_int(r.arg(1)), real_to_int(r.arg(2))
        return None if a is None or b is None else z3.If(r.arg(0), a, b)
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL):
        cs = [real_to_int(c) for c in r.children()]
        if B.any(c is None for c in cs):
            return None
        if k == z3.Z3_OP_ADD:
            return z3.Sum(cs)
        x = cs[0]
        for c in cs[1:]:
            x = x * c
        return x
    return None


dot = matmul


def outer(a, b):
    a, b = as_arr(a), as_arr(b)
    ra, rb = a.reader(), b.reader()
    return Arr((a.shape[0], b.shape[0]), CFn(lambda i, j: t_mul(ra(i), rb(j))), "real")


def transpose(a, axes=None):
    a = as_arr(a)
    if axes is None:
        return a.T
    axes = tuple(axes)
    inv = {x: k for k, x in enumerate(axes)}
    return a.view(tuple(a.shape[x] for x in axes), lambda *q: tuple(q[inv[k]] for k in range(a.ndim)))


# ---- shape ----------------------------------------------------------------


def concat_segments(arrs):
    """the pieces of a symbolic list laid end to end along axis 0"""
    C = ctx()
    n = toint(arrs.st.length)
    item = lambda c: as_arr(arrs[wrap(toint(c))])
    k0 = z3.FreshConst(Int, "c")
    save = list(C.pc)
    C.pc += [0 <= k0, k0 < n]
    x0 = item(k0)
    tail = x0.shape[1:]
    C.pc[:] = save
    if any(occurs(k0, toint(s)) for s in tail):
        raise Unsupported("pieces of different widths")
    tot = A._sumi(n, lambda c: toint(item(c).shape[0]))
    if not tot.decl().eq(A.SUMIF):
        raise Unsupported("concatenate a symbolic list of equally long pieces")

    def rd(*q):
        r = A.segment_of(q[0], tot.arg(1), n)
        if r is None:
            raise Unsupported("pieces of negative length")
        return term(item(r[0]).read(r[1], *q[1:]))

    return Arr((wrapdim(tot),) + tuple(tail), CFn(rd), x0.dtype)


def concatenate(arrs, axis=0):
    if isinstance(arrs, PList) and arrs.st.items is None:
        if axis != 0:
            raise Unsupported("concatenate a symbolic list along another axis")
        return concat_segments(arrs)
    xs = [as_arr(a) for a in (arrs.st.items if isinstance(arrs, PList) and arrs.st.items is not None else arrs)]
    ax = axis + xs[0].ndim if axis < 0 else axis
    rds = [x.reader() for x in xs]
    offs = [z3.IntVal(0)]
    for x in xs:
        offs.append(norm(offs[-1] + toint(x.shape[ax])))
    base = xs[0].shape
    for x in xs[1:]:
        for k in range(len(base)):
            if k != ax and not same(x.shape[k], base[k]):
                raise Unsupported("concatenate shapes")
    dts = [x.dtype for x in xs]
    dt = "obj" if "obj" in dts else "real" if "real" in dts else "int" if "int" in dts else dts[0]
    conv = {"real": toreal, "int": toint}.get(dt, term)

    def rd(*q):
        q = list(q)
        C = ctx()
        i = q[ax]
        res = None
        out = []
        for k, r in enumerate(rds):
            lo, hi = offs[k], offs[k + 1]
            c = z3.And(lo <= i, i < hi)
            if C.valid(z3.Not(c), 150):
                continue
            q2 = list(q)
            q2[ax] = norm(i - lo)
            if C.valid(c, 150):
                return conv(r(*q2))
            save = list(C.pc)
            C.pc.append(c)
            try:
                out.append((i < hi, conv(r(*q2))))
            finally:
                C.pc[:] = save
        if not out:
            raise Unsupported("read of empty concatenation")
        res = out[-1][1]
        for c, v in reversed(out[:-1]):
            res = z3.If(c, v, res)
        return res

    sh = list(base)
    sh[ax] = wrapdim(offs[-1])
    return Arr(sh, CFn(rd), dt)


def vstack(xs):
    return concatenate([atleast_2d(x) for x in (xs.st.items if isinstance(xs, PList) else xs)], 0)


def hstack(xs):
    xs = xs.st.items if isinstance(xs, PList) else xs
    xs = [as_arr(x) for x in xs]
    return concatenate(xs, 0 if xs[0].ndim == 1 else 1)


def column_stack(xs):
    xs = xs.st.items if isinstance(xs, PList) else xs
    xs = [as_arr(x) for x in xs]
    xs = [x.view((x.shape[0], 1), lambda i, j: (i,)) if x.ndim == 1 else x for x in xs]
    return concatenate(xs, 1)


def stack(xs, axis=0):
    xs = xs.st.items if isinstance(xs, PList) else xs
    xs = [as_arr(x) for x in xs]
    if axis == 0:
        return as_arr(tuple(xs)).copy()
    raise Unsupported("stack axis")


def append(a, b, axis=None):
    if axis is None:
        return concatenate([ravel(a), ravel(as_arr(b))])
    return concatenate([a, b], axis)


class _R:
    def __getitem__(self, k):
        k = k if isinstance(k, tuple) else (k,)
        return concatenate([atleast_1d(as_arr(x)) for x in k], 0)


class _C:
    def __getitem__(self, k):
        return column_stack(list(k if isinstance(k, tuple) else (k,)))


r_, c_ = _R(), _C()


def ravel(a):
    a = as_arr(a)
    if a.ndim == 1:
        return a
    if a.ndim == 0:
        return a.view((1,), lambda i: ())
    return reshape(a, (-1,))


def reshape(a, shape, order=None):
    a = as_arr(a)
    sh = list(_shape(shape)) if not isinstance(shape, tuple) else [wrapdim(d) for d in shape]
    C = ctx()
    neg = [k for k, d in enumerate(sh) if isinstance(d, int) and d == -1]
    total = toint(a.size)
    if neg:
        rest = z3.IntVal(1)
        for k, d in enumerate(sh):
            if k not in neg:
                rest = rest * toint(d)
        q0, r0 = split_div(norm(total), norm(rest))
        sh[neg[0]] = wrapdim(q0)
    tot2 = z3.IntVal(1)
    for d in sh:
        tot2 = tot2 * toint(d)
    if not same(total, tot2):
        if C.valid(total != tot2):
            raise ValueError("cannot reshape array")
        raise Unsupported("reshape size")
    # squeeze / unsqueeze of unit dims and common leading dims
    old = list(a.shape)
    n_old, n_new = len(old), len(sh)
    core_old = [k for k in range(n_old) if not is_one(old[k])]
    core_new = [k for k in range(n_new) if not is_one(sh[k])]
    if len(core_old) == len(core_new) and B.all(same(old[x], sh[y]) for x, y in zip(core_old, core_new)):
        m = dict(zip(core_old, core_new))
        return a.view(tuple(sh), lambda *q: tuple(q[m[k]] if k in m else z3.IntVal(0) for k in range(n_old)))

    # general: flat index
    def f(*q):
        flat = z3.IntVal(0)
        for x, d in zip(q, sh):
            flat = flat * toint(d) + x
        flat = norm(flat)
        out = []
        for k in range(n_old):
            rest = z3.IntVal(1)
            for d in old[k + 1:]:
                rest = rest * toint(d)
            if k == n_old - 1:
                out.append(flat)
            else:
                d0, r0 = split_div(flat, norm(rest))
                out.append(d0)
                flat = norm(r0)
        return tuple(out)

    return a.view(tuple(sh), f)


def squeeze(a, axis=None):
    a = as_arr(a)
    ks = [k for k in range(a.ndim) if not is_one(a.shape[k])]
    return a.view(tuple(a.shape[k] for k in ks), lambda *q: tuple(q[ks.index(k)] if k in ks else z3.IntVal(0) for k in range(a.ndim)))


def expand_dims(a, axis):
    a = as_arr(a)
    ax = axis if axis >= 0 else axis + a.ndim + 1
    sh = list(a.shape)
    sh.insert(ax, 1)
    return a.view(tuple(sh), lambda *q: tuple(x for k, x in enumerate(q) if k != ax))


def tile(a, reps):
    a = as_arr(a)
    rd = a.reader()
    if a.ndim == 1 and isinstance(reps, (int, Sc)):
        n = toint(a.shape[0])
        return Arr((wrapdim(norm(n * toint(reps))),), CFn(lambda i: rd(split_div(i, n)[1])), a.dtype)
    if a.ndim == 1 and isinstance(reps, (tuple, PList)):
        r = list(reps)
        if len(r) == 2 and is_one(r[1]):
            return Arr((wrapdim(toint(r[0])), a.shape[0]), CFn(lambda i, j: rd(j)), a.dtype)
    if a.ndim == 2 and isinstance(reps, (tuple, PList)):
        r = list(reps)
        if len(r) == 2 and is_one(r[1]) and is_one(a.shape[0]):
            return Arr((wrapdim(toint(r[0])), a.shape[1]), CFn(lambda i, j: rd(0, j)), a.dtype)
    raise Unsupported("tile")


def repeat(a, n, axis=None):
    a = as_arr(a)
    rd = a.reader()
    nt = toint(n)
    if a.ndim <= 1 and axis in (None, 0):
        if a.ndim == 0:
            return Arr((wrapdim(nt),), CFn(lambda i: rd()), a.dtype)
        return Arr((wrapdim(norm(toint(a.shape[0]) * nt)),), CFn(lambda i: rd(split_div(i, nt)[0])), a.dtype)
    if axis is not None:
        ax = axis
        sh = list(a.shape)
        sh[ax] = wrapdim(norm(toint(sh[ax]) * nt))

        def f(*q):
            q = list(q)
            q[ax] = split_div(q[ax], nt)[0]
            return rd(*q)
        return Arr(sh, CFn(f), a.dtype)
    raise Unsupported("repeat")


def broadcast_to(a, shape):
    a = as_arr(a)
    rd = bcast_reader(a, _shape(shape))
    return Arr(_shape(shape), CFn(rd), a.dtype)


def delete(a, k, axis=None):
    a = as_arr(a)
    rd = a.reader()
    kt = toint(k)
    ax = 0 if axis is None else axis
    sh = list(a.shape)
    sh[ax] = wrapdim(norm(toint(sh[ax]) - 1))

    def f(*q):
        q = list(q)
        q[ax] = z3.If(q[ax] < kt, q[ax], q[ax] + 1)
        return rd(*q)
    return Arr(sh, CFn(f), a.dtype)


def pad(a, widths, mode="constant", constant_values=0):
    a = as_arr(a)
    if mode != "constant":
        raise Unsupported("pad mode")
    w = [widths] * a.ndim if is_num(widths) else list(widths)
    if len(w) == 2 and a.ndim != 2 and B.all(is_num(x) for x in w):
        w = [tuple(w)] * a.ndim
    w = [(x, x) if is_num(x) else tuple(x) for x in w]
    if len(w) == 1:
        w = w * a.ndim
    rd = a.reader()
    z = {"int": z3.IntVal, "real": z3.RealVal, "bool": lambda v: z3.BoolVal(B.bool(v))}[a.dtype](constant_values)

    def f(*q):
        src = [norm(toint(x) - toint(b)) for x, (b, e) in zip(q, w)]
        conds = []
        for x, (b, e), d in zip(src, w, a.shape):
            if not (isinstance(b, int) and b == 0):
                conds.append(0 <= x)
            if not (isinstance(e, int) and e == 0):
                conds.append(x < toint(d))
        c = z3.And(conds) if conds else z3.BoolVal(True)
        v = join(c, lambda: rd(*src), z)
        return v

    sh = tuple(d + b + e for d, (b, e) in zip(a.shape, w))
    return Arr(sh, CFn(f), a.dtype)


def einsum(spec, *ops):
    """sum of products in the written subscripts"""
    ops = [as_arr(o) for o in ops]
    lhs, rhs = spec.replace(" ", "").split("->")
    subs = lhs.split(",")
    dims = {}
    for sb, o in zip(subs, ops):
        if len(sb) != o.ndim:
            raise ValueError("einsum: wrong number of subscripts")
        for c, d in zip(sb, o.shape):
            if c in dims and not same(dims[c], d):
                if ctx().valid(toint(dims[c]) != toint(d)):
                    raise ValueError("operands could not be broadcast together")
                raise Unsupported("einsum shapes")
            dims.setdefault(c, d)
    rds = [o.reader() for o in ops]
    rest = [c for c in dict.fromkeys("".join(subs)) if c not in rhs]

    def cell(*q):
        def go(env, rest):
            if rest:
                return A.SUM(dims[rest[0]], lambda t: go({**env, rest[0]: t}, rest[1:]))
            r = None
            for sb, rd in zip(subs, rds):
                x = toreal(rd(*[env[c] for c in sb]))
                r = x if r is None else r * x
            return r

        return go(dict(zip(rhs, q)), rest)

    if not rhs:
        return wrap(cell())
    return Arr(tuple(dims[c] for c in rhs), CFn(cell), "real")


class MaskedArr:
    def __init__(self, data, mask):
        self.data, self.mask = as_arr(data), as_arr(mask)

    def mean(self, axis=None):
        keep = lambda f: elementwise(f, [self.mask, self.data], "real")
        t = sum(keep(lambda m, x: z3.If(tobool(m), z3.RealVal(0), toreal(x))), axis=axis)
        n = sum(keep(lambda m, x: z3.If(tobool(m), z3.RealVal(0), z3.RealVal(1))), axis=axis)
        return elementwise(t_div, [t, n], "real")


class _MA:
    masked_array = staticmethod(lambda data, mask=False: MaskedArr(data, mask))
    array = masked_array
    mean = staticmethod(lambda a, axis=None: a.mean(axis))
    average = mean


ma = _MA()


def flip(a, axis=None):
    a = as_arr(a)
    if a.ndim == 1:
        return a[::-1]
    raise Unsupported("flip")


def shape(a):
    return as_arr(a).shape


def ndim(a):
    return as_arr(a).ndim


def size(a):
    return as_arr(a).size


# ---- order ----------------------------------------------------------------


def sorting(a):
    """a permutation p of [0,n) with a[p] non-decreasing; returns p as UF"""
    a = as_arr(a)
    if a.ndim != 1:
        raise Unsupported("sort of a matrix")
    C = ctx()
    n = toint(a.shape[0])
    rd = a.reader()
    t = z3.FreshConst(Int, "t")
    key = funkey(t, norm(rd(t)), n)
    S = KeySort
    P = ufn("ARGSORT", Int, S, Int, Int)
    Q = ufn("ARGSORTINV", Int, S, Int, Int)
    p = lambda k: P(n, key, toint(k))
    q = lambda k: Q(n, key, toint(k))
    k, l = z3.FreshConst(Int, "k"), z3.FreshConst(Int, "l")
    C.define(forall([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(0 <= p(k), p(k) < n, q(p(k)) == k)), [p(k)]))
    C.define(forall([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(0 <= q(k), q(k) < n, p(q(k)) == k)), [q(k)]))
    x, y = rd(p(k)), rd(p(l))
    C.define(z3.ForAll([k, l], z3.Implies(z3.And(0 <= k, k < l, l < n), x <= y), patterns=[z3.MultiPattern(p(k), p(l))]))
    return p, q, rd, n


def argsort(a, axis=-1, kind=None):
    a = as_arr(a)
    p, q, rd, n = sorting(a)
    r = Arr(a.shape, CFn(lambda i: p(i)), "int")
    return r


def sort(a, axis=-1, kind=None):
    a = as_arr(a)
    p, q, rd, n = sorting(a)
    return Arr(a.shape, CFn(lambda i: rd(p(i))), a.dtype)


class Uniq:
    """distinct values of a 1-d sequence: uniq(k), k<nu, index map g"""


def unique_model(src, order="first"):
    a = as_arr(src)
    C = ctx()
    n = toint(a.shape[0])
    rd = a.reader()
    t = z3.FreshConst(Int, "t")
    body = rd(t)
    key = funkey(t, norm(body) if body.sort() != Obj else body, n)
    S = KeySort
    tag = str(body.sort())
    nu = ufn("NUNIQ_" + tag, Int, S, Int)(n, key)
    U = ufn(f"UNIQ_{order}_{tag}", Int, S, Int, body.sort())
    G = ufn(f"UNIQIX_{order}_{tag}", Int, S, body.sort(), Int)
    F = ufn(f"UNIQFIRST_{order}_{tag}", Int, S, Int, Int)
    u = lambda k: U(n, key, toint(k))
    g = lambda x: G(n, key, x)
    f = lambda k: F(n, key, toint(k))
    C.inverse[U.name()] = lambda pre, x: (G(*pre, x), z3.And(0 <= G(*pre, x), G(*pre, x) < ufn("NUNIQ_" + tag, Int, S, Int)(*pre), U(*pre, G(*pre, x)) == x))
    k, l = z3.FreshConst(Int, "k"), z3.FreshConst(Int, "l")
    C.define(z3.And(nu >= 0, z3.Implies(n >= 0, nu <= n), z3.Implies(n >= 1, nu >= 1)))
    C.define(forall([k], z3.Implies(z3.And(0 <= k, k < nu), z3.And(g(u(k)) == k, 0 <= f(k), f(k) < n, rd(f(k)) == u(k))), [u(k)]))
    x = rd(t)
    C.define(forall([t], z3.Implies(z3.And(0 <= t, t < n), z3.And(0 <= g(x), g(x) < nu, u(g(x)) == x, f(g(x)) <= t)), [x]))
    if order == "first":
        C.define(forall([k, l], z3.Implies(z3.And(0 <= k, k < l, l < nu), f(k) < f(l)), [z3.MultiPattern(f(k), f(l))]))
    elif body.sort() != Obj:
        C.define(forall([k, l], z3.Implies(z3.And(0 <= k, k < l, l < nu), u(k) < u(l)), [z3.MultiPattern(u(k), u(l))]))
    if order == "first":
        # a sequence without repetitions is its own list of distinct values
        p, q = z3.FreshConst(Int, "p"), z3.FreshConst(Int, "q")
        if C.valid(z3.Implies(z3.And(0 <= p, p < q, q < n), rd(p) != rd(q)), 2000):
            hyp = [h for h in C.pc]
            C.define(z3.Implies(z3.And(n >= 0, *hyp), nu == n))
            C.define(forall([k], z3.Implies(z3.And(0 <= k, k < nu, *hyp), z3.And(u(k) == rd(k), f(k) == k)), [u(k)]))
    arr = Arr((wrapdim(nu),), CFn(lambda i: u(i)), a.dtype)
    arr.uniq = (nu, u, g, f, n, rd)
    return arr


def unique(a, return_index=False, return_counts=False, axis=None, return_inverse=False):
    if return_index or return_counts or return_inverse or axis is not None:
        raise Unsupported("unique options")
    return unique_model(a, "sorted")


def unique_count(src):
    a = src if isinstance(src, Arr) else as_arr(src)
    if a.uniq is not None:
        # the sequence is already duplicate free
        return wrapdim(a.uniq[0])
    if isinstance(src, PList) and getattr(src, "_uniq", None) is not None:
        return wrapdim(src._uniq)
    u = unique_model(a, "first")
    return u.shape[0]


LENK = ufn("CHUNK", Int, Int, Int, Int)


def array_split(x, n, axis=0):
    """assumed contract of np.array_split: n consecutive pieces that cover the rows in order (their lengths stay open)"""
    C = ctx()
    a = x if isinstance(x, PList) else as_arr(x)
    if axis != 0:
        raise Unsupported("array_split along another axis")
    if not isinstance(n, (int, Sc)):
        raise Unsupported("array_split at given positions")
    if not (n > 0):
        raise ValueError("number sections must be larger than 0.")
    k, N = C.fresh("pieces", Int), toint(a.length() if isinstance(a, PList) else a.shape[0])
    C.assume(k == toint(n))
    if B.any(z3.is_quantifier(x) or z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE for x in A.subterms_all(N)):
        # (a name for the length: conditions and lambdas cannot stand in patterns)
        M = C.fresh("rows", Int)
        C.assume(M == N)
        N = M
    ln = lambda c: LENK(N, k, toint(c))
    off = lambda c: A._sumi(c, ln)
    c = z3.FreshConst(Int, "c")
    C.assume(z3.ForAll([c], z3.Implies(z3.And(0 <= c, c < k), ln(c) >= 0), patterns=[ln(c)]))
    C.assume(off(k) == N)

    def piece(c):
        c = toint(c)
        Ctx.cur.assume(z3.Implies(z3.And(0 <= c, c < k), z3.And(ln(c) >= 0, 0 <= off(c), off(c) + ln(c) <= N)))
        if isinstance(a, PList):
            return PList.sym(ln(c), lambda t: a.get(norm(off(c) + toint(t))))
        return a[wrap(off(c)) : wrap(norm(off(c) + ln(c)))]

    return PList.sym(k, piece)


# ---- random ---------------------------------------------------------------


class SymRng:
    """numpy Generator / RandomState: every draw is an arbitrary value in its range"""

    def __init__(self, label="rng", origin=None):
        self.label = label
        self.origin = origin  # ghost: the seed it was made from

    def _draw(self, kind, size, sort, ax, dt):
        C = ctx()
        if C.on_draw:
            C.on_draw(self)
        if size is None:
            v = C.fresh(f"{self.label}.{kind}", sort)
            a = ax(v)
            if a is not None:
                C.assume(a)
            C.events.append(("draw1", kind, v))
            return wrap(v)
        sh = _shape(size)
        f = C.fresh_fn(f"{self.label}.{kind}", len(sh), sort)
        C.events.append(("draw", kind, f, sh, ax))
        ks = [z3.FreshConst(Int, "d") for _ in sh]
        v = f(*ks)
        a = ax(v)
        if a is not None:
            C.assume(z3.ForAll(ks, a, patterns=[v]))
        return Arr(sh, CFn(lambda *q: f(*q)), dt)

    def random(self, size=None, **k):
        return self._draw("random", size, Real, lambda v: z3.And(0 <= v, v < 1), "real")

    random_sample = random

    def rand(self, *shape):
        return self.random(shape if shape else None)

    def uniform(self, low=0.0, high=1.0, size=None):
        lo, hi = toreal(low), toreal(high)
        return self._draw("uniform", size, Real, lambda v: z3.And(lo <= v, z3.Or(v < hi, v == lo)), "real")

    def integers(self, low, high=None, size=None, **k):
        if high is None:
            low, high = 0, low
        lo, hi = toint(low), toint(high)
        return self._draw("integers", size, Int, lambda v: z3.And(lo <= v, v < hi), "int")

    randint = integers

    def choice(self, a, size=None, replace=True, p=None):
        if isinstance(a, (int, Sc)):
            if replace:
                return self.integers(0, a, size)
            raise Unsupported("choice without replacement")
        a = as_arr(a)
        if replace is not True:
            raise Unsupported("choice without replacement")
        ix = self.integers(0, a.shape[0], size)
        if size is None:
            return a[ix]
        return a[ix]

    def permutation(self, x):
        C = ctx()
        if isinstance(x, (int, Sc)):
            n = toint(x)
            src = lambda k: k
            dt = "int"
            sh = (wrapdim(n),)
            rest = ()
        else:
            x = as_arr(x)
            n = toint(x.shape[0])
            rd = x.reader()
            src = None
            sh, dt = x.shape, x.dtype
        p, q = self.perm(n)
        if src is not None:
            return Arr(sh, CFn(lambda k: p(k)), dt)
        return Arr(sh, CFn(lambda k, *r: rd(p(k), *r)), dt)

    def perm(self, n):
        C = ctx()
        if C.on_draw:
            C.on_draw(self)
        p = C.fresh_fn(f"{self.label}.perm", 1, Int)
        q = C.fresh_fn(f"{self.label}.perminv", 1, Int)
        k = z3.FreshConst(Int, "k")
        C.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(0 <= p(k), p(k) < n, q(p(k)) == k)), patterns=[p(k)]))
        C.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(0 <= q(k), q(k) < n, p(q(k)) == k)), patterns=[q(k)]))
        lv, qd, nt = list(C.loopvars), q(k).decl(), toint(n)

        def back(pre, x):
            m = list(zip(lv, pre))
            return qd(*pre, x), z3.And(0 <= x, x < (z3.substitute(nt, *m) if m else nt))

        C.inverse[p(k).decl().name()] = back
        return p, q

    def shuffle(self, a):
        if isinstance(a, PList):
            raise Unsupported("shuffle of a list")
        p, q = self.perm(toint(a.shape[0]))
        rd = a.reader()
        old = Arr(a.shape, CFn(lambda k, *r: rd(p(k), *r)), a.dtype)
        a[...] = old

    def normal(self, *a, **k):
        return self._draw("normal", k.get("size"), Real, lambda v: None, "real")

    def spawn(self, n):
        return [SymRng(ctx().name(self.label + ".spawn"), self.origin) for _ in range(n)]

    def __subst__(self, m):
        return self


class _Random:
    Generator = SymRng
    RandomState = SymRng

    class BitGenerator:
        pass

    class SeedSequence:
        pass

    def __init__(self):
        self._g = SymRng("np.random", "global")

    def default_rng(self, seed=None):
        if isinstance(seed, SymRng):
            return seed
        return SymRng("rng", seed)

    def seed(self, s=None):
        ctx().events.append(("np.random.seed", s))

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self._g, n)


random = _Random()


class _FFT:
    def fft(self, a):
        a = as_arr(a)
        t = z3.FreshConst(Int, "t")
        rd = a.reader()
        key = A.lam(t, norm(toreal(rd(t))))
        n = toint(a.shape[0])
        return Spectrum(a.shape, n, key)


class Spectrum:
    """discrete Fourier transform of a real sequence; only |.| is modelled"""

    def __init__(self, shape, n, key, lo=None):
        self.n, self.key, self.shape = n, key, shape
        self.arr = Arr(shape, CFn(lambda k: self.mag(k)), "real")

    def mag(self, k):
        F = ufn("DFTMAG", Int, self.key.sort(), Int, Real)
        return F(self.n, self.key, k)

    def __getitem__(self, k):
        r = Spectrum.__new__(Spectrum)
        r.n, r.key = self.n, self.key
        r.arr = self.arr[k]
        r.shape = r.arr.shape if isinstance(r.arr, Arr) else ()
        return r

    def __absolute__(self):
        return self.arr


fft = _FFT()
_abs0 = absolute


def absolute(a, out=None):  # noqa: F811
    if isinstance(a, Spectrum):
        return a.arr
    return _abs0(a, out=out)


abs = absolute


class errstate:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def seterr(**k):
    return {}


def savetxt(fname, X, **k):
    ctx().events.append(("savetxt", fname, X, k))


def loadtxt(fname, **k):
    h = LOADTXT[0]
    if h is None:
        raise Unsupported("loadtxt")
    ctx().events.append(("loadtxt", fname, k))
    return h(fname, k)


LOADTXT = [None]


def isscalar(x):
    return not isinstance(x, (Arr, PList, tuple))


# ---- methods --------------------------------------------------------------


def m_mean(a, axis=None, **k):
    return mean(a, axis=axis, **k)


def m_prod(a, axis=None):
    return prod(a, axis)


def m_sum(a, axis=None, **k):
    return sum(a, axis=axis, **k)


def m_std(a, axis=None, ddof=0, **k):
    return std(a, axis=axis, ddof=ddof)


def m_var(a, axis=None, ddof=0, **k):
    return var(a, axis=axis, ddof=ddof)


def m_min(a, axis=None, **k):
    return min(a, axis=axis)


def m_max(a, axis=None, **k):
    return max(a, axis=axis)


def m_any(a, axis=None):
    return any(a, axis)


def m_all(a, axis=None):
    return all(a, axis)


def m_argsort(a, **k):
    return argsort(a)


def m_ravel(a, **k):
    return ravel(a)


def m_flatten(a, **k):
    return ravel(a).copy()


def m_reshape(a, *s, **k):
    if len(s) == 1 and isinstance(s[0], (tuple, PList)):
        s = s[0]
    return reshape(a, tuple(s))


def m_transpose(a, *axes):
    return transpose(a, axes or None)


def m_dot(a, b):
    return matmul(a, b)


def m_squeeze(a, axis=None):
    return squeeze(a, axis)


def m_tolist(a):
    return PList(a)


def m_fill(a, v):
    a[...] = v


def m_cumsum(a, axis=None):
    return cumsum(a, axis)


def m_round(a, n=0):
    raise Unsupported("round")


def m_sort(a, axis=-1):
    a[...] = sort(a)


def m_clip(a, lo, hi):
    return clip(a, lo, hi)


def m_repeat(a, n, axis=None):
    return repeat(a, n, axis)


def m_conj(a):
    return a
