"""Symbolic builtins, math, pandas, scipy, warnings ... used by the loader."""
import builtins as B
import types
import z3
from .core import *
from .core import t_floor, t_trunc
from .arrays import *
from . import arrays as A
from . import npshim as np_
from . import loops
from .loops import UNBOUND, Ret, BREAK, Poison


class TypeShim:
    def __init__(self, name, call, test):
        self.__name__ = name
        self.call, self.test = call, test

    def __call__(self, *a, **k):
        return self.call(*a, **k)


def _int(x=0, *a):
    if isinstance(x, Arr):
        x = x.item()
    if isinstance(x, Sc):
        return wrap(t_trunc(x.t))
    if is_num(x) or isinstance(x, str):
        return B.int(x, *a)
    raise Unsupported("int()")


def _float(x=0.0):
    if isinstance(x, Arr):
        x = x.item()
    if isinstance(x, Sc):
        if x.t.sort() == Obj:
            return Sc(ufn("str_float", Obj, Real)(x.t))
        return wrap(toreal(x.t))
    return B.float(x)


def _bool(x=False):
    if isinstance(x, Sc):
        return wrap(tobool(x.t))
    return B.bool(x)


def _str(x=""):
    if isinstance(x, Sc):
        if x.t.sort() == Obj:
            return x
        return Sc(ufn("STR", Int, Obj)(x.t)) if x.t.sort() == Int else "<sym>"
    return B.str(x)


def _is_int(x):
    return isinstance(x, B.int) or (isinstance(x, Sc) and x.t.sort() == Int)


def _is_float(x):
    return isinstance(x, B.float) or (isinstance(x, Sc) and x.t.sort() == Real)


py_int = TypeShim("int", _int, _is_int)
py_float = TypeShim("float", _float, _is_float)
py_bool = TypeShim("bool", _bool, lambda x: isinstance(x, B.bool) or (isinstance(x, Sc) and x.t.sort() == Bool))
py_str = TypeShim("str", _str, lambda x: isinstance(x, B.str) or (isinstance(x, Sc) and x.t.sort() == Obj))


def py_isinstance(x, t):
    if isinstance(t, tuple):
        return B.any(py_isinstance(x, y) for y in t)
    if isinstance(t, TypeShim):
        return t.test(x)
    if isinstance(t, np_._DT):
        dt = dtype_name(t) if t.__name__ not in ("integer", "floating", "number", "generic") else {"integer": "int", "floating": "real"}.get(t.__name__)
        if isinstance(x, Sc):
            return sort_dtype(x.t.sort()) == dt
        return False
    if t is tuple_shim:
        return isinstance(x, B.tuple)
    if isinstance(t, type):
        if t is PList:
            return isinstance(x, PList)
        if t is B.tuple:
            return isinstance(x, B.tuple)
        return isinstance(x, t)
    if isinstance(t, types.FunctionType):
        raise Unsupported("isinstance of a function")
    return isinstance(x, t)


tuple_shim = B.tuple


def py_len(x):
    if isinstance(x, Arr):
        if x.ndim == 0:
            raise TypeError("len() of unsized object")
        return x.shape[0]
    if isinstance(x, FiltArr):
        return x.count()
    if hasattr(x, "length") and callable(x.length):
        return x.length()
    if isinstance(x, Sc):
        raise TypeError("object has no len()")
    if isinstance(x, SymIter):
        return x.n
    return B.len(x)


def py_range(*a):
    if B.all(isinstance(x, B.int) for x in a):
        return B.range(*a)
    a = tuple(x.item() if isinstance(x, Arr) else x for x in a)
    r = SymRange(*a)
    return r


def py_enumerate(it, start=0):
    n, at = loops.as_iter(it)
    if isinstance(n, B.int):
        return list((start + k, at(k)) for k in B.range(n))
    return SymIter(n, lambda i: (wrap(norm(toint(i) + toint(start))), at(i)))


def py_zip(*its):
    xs = [loops.as_iter(it) for it in its]
    ns = [n for n, _ in xs]
    if B.all(isinstance(n, B.int) for n in ns):
        m = B.min(ns) if ns else 0
        return [tuple(at(k) for _, at in xs) for k in B.range(m)]
    n = ns[0]
    for m in ns[1:]:
        if not same(n, m):
            n = wrap(t_min(n, m))
    return SymIter(n, lambda i: tuple(at(i) for _, at in xs))


def py_reversed(it):
    n, at = loops.as_iter(it)
    if isinstance(n, B.int):
        return [at(k) for k in B.reversed(B.range(n))]
    return SymIter(n, lambda i: at(wrap(norm(toint(n) - 1 - toint(i)))))


def py_map(f, *its):
    if B.len(its) != 1:
        raise Unsupported("map")
    n, at = loops.as_iter(its[0])
    if isinstance(n, B.int):
        return PList([f(at(k)) for k in B.range(n)])
    return SymIter(n, lambda i: f(at(i)))


def py_abs(x):
    if isinstance(x, np_.Spectrum):
        return x.arr
    if isinstance(x, (Arr, Sc)):
        return np_.absolute(x)
    return B.abs(x)


def _mm(kind, py, t2):
    def f(*a, key=None, default=None):
        if B.len(a) == 1:
            it = a[0]
            if isinstance(it, (Arr, PList, SymRange, SymIter)):
                n, at = loops.as_iter(it)
                if not isinstance(n, B.int):
                    return (np_.min if kind == "min" else np_.max)(as_arr(it))
                a = [at(k) for k in B.range(n)]
            else:
                a = list(it)
        if key is not None:
            raise Unsupported("min/max key")
        r = a[0]
        for x in a[1:]:
            if isinstance(r, Sc) or isinstance(x, Sc) or isinstance(r, Arr) or isinstance(x, Arr):
                r = wrap(t2(r, x))
            else:
                r = py(r, x)
        return r
    return f


py_min = _mm("min", B.min, t_min)
py_max = _mm("max", B.max, t_max)


def py_sum(it, start=0):
    if isinstance(start, (tuple, PList)) and B.len(start) == 0 and isinstance(it, SymIter):
        return flatten(it)
    if isinstance(it, (Arr, PList, SymIter, SymRange)):
        n, at = loops.as_iter(it)
        if isinstance(n, B.int):
            r = start
            for k in B.range(n):
                r = r + at(k)
            return r
        if isinstance(it, SymIter) or isinstance(it, SymRange):
            f = lambda t: term(at(t))
        else:
            a = as_arr(it)
            if a.ndim != 1:
                return np_.sum(a, axis=0)
            f = a.reader()
        probe = f(z3.FreshConst(Int, "ps"))
        if term(probe).sort() in (Int, Bool):
            return wrap(A._sumi(n, lambda t: toint(f(t)))) + start
        return wrap(A.SUM(n, f)) + start
    r = start
    for x in it:
        r = r + x
    return r


def _anyall(kind):
    def f(it):
        if isinstance(it, Arr):
            return (np_.any if kind == "any" else np_.all)(it)
        if isinstance(it, SymIter) or isinstance(it, PList):
            n, at = loops.as_iter(it)
            if not isinstance(n, B.int):
                v = z3.FreshConst(Int, "q")
                C = ctx()
                save = list(C.pc)
                C.pc.extend([0 <= v, v < toint(n)])
                try:
                    b = tobool(at(v))
                finally:
                    C.pc[:] = save
                if kind == "any":
                    return wrap(z3.Exists([v], z3.And(0 <= v, v < toint(n), b)))
                return wrap(z3.ForAll([v], z3.Implies(z3.And(0 <= v, v < toint(n)), b)))
            it = [at(k) for k in B.range(n)]
        ts = []
        for x in it:
            if isinstance(x, (Sc, Arr)):
                ts.append(tobool(term(x)))
            elif kind == "any" and x:
                return True
            elif kind == "all" and not x:
                return False
        if not ts:
            return kind == "all"
        return wraps(z3.Or(ts) if kind == "any" else z3.And(ts))
    return f


py_any, py_all = _anyall("any"), _anyall("all")


def py_sorted(it, key=None, reverse=False):
    if isinstance(it, (PList, Arr, SymIter)):
        n, at = loops.as_iter(it)
        if isinstance(n, B.int):
            it = [at(k) for k in B.range(n)]
        else:
            if key is None and not reverse:
                return PList(np_.sort(as_arr(it)))
            raise Unsupported("sorted")
    l = list(it)
    if B.any(isinstance(x, (Sc, Arr)) for x in l):
        raise Unsupported("sorted of symbolic values")
    return PList(B.sorted(l, key=key, reverse=reverse))


def py_round(x, n=None):
    if isinstance(x, (Sc, Arr)):
        raise Unsupported("round")
    return B.round(x, n) if n is not None else B.round(x)


def py_set(it=()):
    if isinstance(it, (PList, Arr)):
        n, at = loops.as_iter(it)
        if isinstance(n, B.int):
            vals = [at(k) for k in B.range(n)]
            if not B.any(isinstance(x, Sc) for x in vals):
                return B.set(vals)
        return SymSet(it)
    return B.set(it)


def py_tuple(it=()):
    if isinstance(it, (PList, Arr, SymIter)):
        n, at = loops.as_iter(it)
        if isinstance(n, B.int):
            return B.tuple(at(k) for k in B.range(n))
        raise Unsupported("tuple of symbolic length")
    return B.tuple(it)


def py_dict(*a, **k):
    if a and isinstance(a[0], (PList, SymIter)):
        n, at = loops.as_iter(a[0])
        if isinstance(n, B.int):
            return PDict([at(j) for j in B.range(n)], **k)
        return SymDict(n, lambda t: term(at(toint(t))[0]), lambda t: at(toint(t))[1])
    return PDict(*a, **k)


def fstr(*parts):
    """f"..." with symbolic pieces: a string that is a function of them"""
    tpl, args, out, sym = "", [], "", False
    for p in parts:
        if not isinstance(p, tuple):
            if isinstance(p, Sc):
                raise Unsupported("nested f-string")
            tpl += str(p)
            out += str(p)
            continue
        x, conv, spec = p
        if isinstance(x, Arr) and x.ndim == 0:
            x = wrap(term(x))
        if isinstance(x, Sc) and isinstance(spec, str):
            sym = True
            args.append(x.t)
            tpl += "{%s%s:%s}" % (x.t.sort(), conv, spec)
        elif isinstance(x, (Sc, Arr, PList, PDict)):
            return "<symbolic text>" if not isinstance(x, Sc) else Sc(ctx().fresh("text", Obj))
        else:
            y = {-1: lambda v: v, 115: str, 114: repr, 97: ascii}[conv](x)
            tpl += B.format(y, spec).replace("{", "{{")
            out += B.format(y, spec)
    if not sym:
        return out
    return Sc(ufn("FSTR:" + tpl, *[a.sort() for a in args], Obj)(*args))


def listcat(*parts):
    """[a, *b, ...]"""
    out = None
    for star, x in parts:
        p = PList(x) if star else PList([x])
        out = p if out is None else out + p
    return PList() if out is None else out


class DictMeta(type):
    def __call__(cls, *a, **k):
        if cls is DictCls:
            return py_dict(*a, **k)
        return type.__call__(cls, *a, **k)

    def __instancecheck__(cls, x):
        if cls is DictCls:
            return isinstance(x, PDict)
        return type.__instancecheck__(cls, x)


class DictCls(PDict, metaclass=DictMeta):
    @staticmethod
    def fromkeys(it, value=None):
        """the distinct keys in order of first appearance (only iterated over)"""
        if isinstance(it, PList) and isinstance(it.length(), int) or not isinstance(it, (PList, Arr)):
            return py_dict([(k, value) for k in it])
        return np_.unique_model(it, "first")


def py_type(x, *a):
    if a:
        return B.type(x, *a)
    if isinstance(x, PList):
        return PList
    if isinstance(x, Sc):
        return {Int: py_int, Real: py_float, Bool: py_bool}.get(x.t.sort(), py_str)
    if isinstance(x, B.bool):
        return py_bool
    if isinstance(x, B.int):
        return py_int
    if isinstance(x, B.float):
        return py_float
    if isinstance(x, B.str):
        return py_str
    return B.type(x)


_tick = [0]


def tick():
    C = ctx()
    C.ticks = getattr(C, "ticks", 0) + 1
    if C.ticks > 3000:
        raise Unsupported("while loop not bounded")


def _try(f):
    try:
        return f()
    except NameError:
        return UNBOUND


def py_not(x):
    return A.py_not(x)


def py_print(*a, **k):
    return None


def pow_(a, b):
    return a ** b


def py_hasattr(x, n):
    try:
        getattr(x, n)
        return True
    except (AttributeError, Unsupported):
        return False


def make_builtins(importer):
    d = dict(vars(B))
    d.update(
        len=py_len, range=py_range, enumerate=py_enumerate, zip=py_zip, reversed=py_reversed, map=py_map,
        isinstance=py_isinstance, int=py_int, float=py_float, bool=py_bool, str=py_str, abs=py_abs,
        min=py_min, max=py_max, sum=py_sum, any=py_any, all=py_all, sorted=py_sorted, round=py_round,
        set=py_set, list=PList, dict=DictCls, type=py_type, print=py_print, hasattr=py_hasattr, pow=pow_,
        __for__=loops.for_loop, __try__=_try, __isret__=lambda r: isinstance(r, Ret), __Ret__=Ret,
        __BREAK__=BREAK, __list__=PList, __listcat__=listcat, __fstr__=fstr, __dictof__=lambda d: PDict(d), __not__=py_not, __in__=A.contains,
        __tick__=tick, __import__=importer,
    )
    d["tuple"] = TupleCls
    return d


class TupleMeta(type):
    def __call__(cls, *a):
        return py_tuple(*a)

    def __instancecheck__(cls, x):
        return isinstance(x, B.tuple)


class TupleCls(metaclass=TupleMeta):
    pass


tuple_shim = TupleCls


# --------------------------------------------------------------------------
class NS:
    """library namespace; unknown members are unsupported only when used"""

    def __init__(self, name, **k):
        self.__dict__["__name__"] = name
        self.__dict__.update(k)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Opaque(f"{self.__dict__['__name__']}.{n}")


class Opaque:
    def __init__(self, name):
        self.__dict__["_n"] = name

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Opaque(f"{self._n}.{n}")

    def __call__(self, *a, **k):
        raise Unsupported(f"call of {self._n}")

    def __getitem__(self, k):  # typing generics
        return self

    def __or__(self, o):
        return self

    def __mro_entries__(self, bases):
        return (object,)

    def __repr__(self):
        return f"<opaque {self._n}>"


def m_floor(x):
    if isinstance(x, (Sc, Arr)):
        return wrap(t_floor(term(x)))
    import math
    return math.floor(x)


def m_ceil(x):
    if isinstance(x, (Sc, Arr)):
        return wrap(-t_floor(-toreal(x)))
    import math
    return math.ceil(x)


def _m1(name):
    def f(x, *a):
        import math
        if isinstance(x, (Sc, Arr)) or any(isinstance(y, Sc) for y in a):
            if a:
                return wrap(ufn("math_" + name, Real, Real, Real)(toreal(x), toreal(a[0])))
            return wrap(ufn({"asin": "arcsin"}.get(name, name), Real, Real)(norm(toreal(x))))
        return getattr(math, name)(x, *a)
    return f


math_ns = NS("math", floor=m_floor, ceil=m_ceil, pi=Sc(np_.PI), sqrt=lambda x: wrap(t_sqrt(x)), exp=_m1("exp"), log=_m1("log"),
             sin=_m1("sin"), cos=_m1("cos"), log2=_m1("log2"), pow=lambda a, b: wrap(t_pow(a, b)) if isinstance(a, Sc) or isinstance(b, Sc) else float(a) ** b,
             fabs=py_abs, asin=_m1("asin"), inf=float("inf"), nan=float("nan"), isnan=lambda x: np_.isnan(x))


# scipy.stats ---------------------------------------------------------------
class Dist:
    def __init__(self, name, params):
        self.name, self.params = name, params

    def ppf(self, q, *args, **kw):
        return self._call("ppf", q, args, kw)

    def cdf(self, q, *args, **kw):
        return self._call("cdf", q, args, kw)

    def _call(self, what, q, args, kw):
        names = [p for p, d in self.params]
        vals = {p: d for p, d in self.params}
        for n, a in B.zip(names, args):
            vals[n] = a
        for k, v in kw.items():
            if k not in vals:
                raise TypeError(f"{what}() got an unexpected keyword argument {k!r}")
            vals[k] = v
        if B.any(v is Ellipsis for v in vals.values()):
            raise TypeError(f"{what}() missing arguments")
        ps = [vals[n] for n in names]
        F = ufn(f"{what}_{self.name}", *([Real] * (1 + B.len(ps))), Real)
        if self.name == "norm" and what == "ppf" and True:
            # loc-scale family: reduce to the standard quantile
            z = ufn("ppf_stdnorm", Real, Real)
            return elementwise(lambda u, l, s: toreal(l) + toreal(s) * z(norm(toreal(u))), [q, vals["loc"], vals["scale"]], "real")
        return elementwise(lambda u, *p: F(norm(toreal(u)), *[norm(toreal(x)) for x in p]), [q] + ps, "real")

    def rvs(self, *a, **k):
        return self._unsup()

    def _unsup(self):
        raise Unsupported(f"{self.name}.rvs")


norm_dist = Dist("norm", [("loc", 0), ("scale", 1)])
dists = dict(
    norm=norm_dist,
    triang=Dist("triang", [("c", ...), ("loc", 0), ("scale", 1)]),
    loguniform=Dist("loguniform", [("a", ...), ("b", ...), ("loc", 0), ("scale", 1)]),
    reciprocal=Dist("loguniform", [("a", ...), ("b", ...), ("loc", 0), ("scale", 1)]),
    truncnorm=Dist("truncnorm", [("a", ...), ("b", ...), ("loc", 0), ("scale", 1)]),
    weibull_min=Dist("weibull", [("c", ...), ("loc", 0), ("scale", 1)]),
    uniform=Dist("uniform", [("loc", 0), ("scale", 1)]),
    lognorm=Dist("lognorm_scipy", [("s", ...), ("loc", 0), ("scale", 1)]),
)


class SobolEngine:
    def __init__(self, d, scramble=True, seed=None, rng=None, **kw):
        self.d, self.scramble, self.seed = d, scramble, seed if rng is None else rng
        self.pos = 0
        C = ctx()
        C.events.append(("qmc.Sobol", d, scramble, self.seed))
        # one sequence per engine: coordinates in [0,1)
        self.f = C.fresh_fn("sobolpt", 2, Real)
        C.last_sobol = self.f
        i, j = z3.FreshConst(Int, "i"), z3.FreshConst(Int, "j")
        C.assume(z3.ForAll([i, j], z3.And(0 <= self.f(i, j), self.f(i, j) < 1), patterns=[self.f(i, j)]))

    def fast_forward(self, n):
        self.pos = norm(toint(self.pos) + toint(n))
        return self

    def reset(self):
        self.pos = 0
        return self

    def random(self, n=1, **k):
        C = ctx()
        if C.on_draw and self.scramble is not False:
            C.on_draw(self)
        p = toint(self.pos)
        a = Arr((wrapdim(n), wrapdim(self.d)), CFn(lambda i, j: self.f(norm(p + i), j)), "real")
        self.pos = norm(p + toint(n))
        return a

    def random_base2(self, m):
        raise Unsupported("random_base2")


def cdist(a, b, metric="euclidean"):
    a, b = as_arr(a), as_arr(b)
    ra, rb = a.reader(), b.reader()
    n = a.shape[1]
    return Arr((a.shape[0], b.shape[0]), CFn(lambda i, j: t_sqrt(A.SUM(n, lambda t: (lambda d: d * d)(toreal(ra(i, t)) - toreal(rb(j, t)))))), "real")


stats_ns = NS("scipy.stats", qmc=NS("scipy.stats.qmc", Sobol=SobolEngine), **dists)
spatial_ns = NS("scipy.spatial", distance=NS("scipy.spatial.distance", cdist=cdist))
linalg_ns = NS("scipy.linalg")
scipy_ns = NS("scipy", stats=stats_ns, spatial=spatial_ns, linalg=linalg_ns)


# pandas --------------------------------------------------------------------
def pd_unique(x):
    return np_.unique_model(x, "first")


class DataFrame:
    def __init__(self, data=None, index=None, columns=None, **k):
        ctx().events.append(("DataFrame", data, index, columns))
        self.data, self.index, self.columns = data, index, columns


pd_ns = NS("pandas", unique=pd_unique, DataFrame=DataFrame)


class _Warn(NS):
    pass


warnings_ns = NS("warnings", warn=lambda *a, **k: None, simplefilter=lambda *a, **k: None, filterwarnings=lambda *a, **k: None,
                 catch_warnings=np_.errstate)

import functools
import itertools


def zip_longest(*its, fillvalue=None):

    xs = [loops.as_iter(i) for i in its]
    if B.all(isinstance(n, B.int) for n, _ in xs):
        return list(itertools.zip_longest(*[[at(k) for k in B.range(n)] for n, at in xs], fillvalue=fillvalue))
    ns = [wrapdim(toint(n)) for n, _ in xs]
    tot = ns[0]
    for n in ns[1:]:
        a, b = toint(tot), toint(n)
        m = ctx().fresh("longest", Int)
        ctx().assume(z3.And(m >= a, m >= b, z3.Or(m == a, m == b)))
        tot = wrap(m)

    def part(n, at):
        return lambda k: at(wrap(toint(k))) if Ctx.cur.decide(toint(k) < toint(n)) else fillvalue

    parts = [part(n, at) for n, at in xs]
    r = SymIter(tot, lambda k: tuple(p(k) for p in parts), width=B.len(xs))
    r.parts = parts
    return r


def flatten(it):
    """the elements of tuples of one width, or of lists, one after the other"""
    n, at = loops.as_iter(it)
    if isinstance(it, SymIter) and it.width:
        w = it.width
        parts = getattr(it, "parts", None) or [lambda k, c=c: at(k)[c] for c in B.range(w)]
        return SymIter(wrap(norm(toint(n) * w)), lambda p: _pick(parts, toint(p), w))
    raise Unsupported("flattening of a symbolic iterable")


def _pick(parts, p, w):
    C = ctx()
    q, r = split_div(p, z3.IntVal(w))
    for c in B.range(w - 1):
        if C.decide(r == c):
            return parts[c](wrap(q))
    return parts[w - 1](wrap(q))


def pair_index(n):
    """(number of pairs a<b<n, first member of pair p, second member, number of the pair (a,b))"""
    C = ctx()
    n = toint(n)
    cnt = ufn("NPAIR", Int, Int)(n)
    F, S, X = ufn("PAIR_FIRST", Int, Int, Int), ufn("PAIR_SECOND", Int, Int, Int), ufn("PAIR_INDEX", Int, Int, Int, Int)
    p, a, b = z3.FreshConst(Int, "p"), z3.FreshConst(Int, "a"), z3.FreshConst(Int, "b")
    C.define(z3.Implies(n >= 0, z3.And(2 * cnt == n * (n - 1), cnt >= 0)))
    C.define(forall([p], z3.Implies(z3.And(0 <= p, p < cnt), z3.And(0 <= F(n, p), F(n, p) < S(n, p), S(n, p) < n, X(n, F(n, p), S(n, p)) == p)), [F(n, p)]))
    C.define(forall([p], z3.Implies(z3.And(0 <= p, p < cnt), z3.And(0 <= F(n, p), F(n, p) < S(n, p), S(n, p) < n)), [S(n, p)]))
    C.define(forall([a, b], z3.Implies(z3.And(0 <= a, a < b, b < n), z3.And(0 <= X(n, a, b), X(n, a, b) < cnt, F(n, X(n, a, b)) == a, S(n, X(n, a, b)) == b)), [X(n, a, b)]))
    return cnt, lambda p: F(n, toint(p)), lambda p: S(n, toint(p)), lambda a, b: X(n, toint(a), toint(b))


def pair_list(n, at):
    cnt, f, s, x = pair_index(n)
    return PList.sym(wrapdim(cnt), lambda p: (at(f(p)), at(s(p))))


def combinations(it, r):
    n, at = loops.as_iter(it)
    if isinstance(n, B.int):
        return list(itertools.combinations([at(k) for k in B.range(n)], r))
    if r == 2:
        return pair_list(n, at)
    raise Unsupported("combinations")


class _Chain:
    def __new__(cls, *its):
        return itertools.chain(*its)

    @staticmethod
    def from_iterable(it):
        if isinstance(it, SymIter) and it.width:
            return flatten(it)
        if isinstance(it, PList) and it.st.items is None:
            r = PList([])
            n, at = loops.as_iter(it)
            k = z3.FreshConst(Int, "c")
            tot = A._sumi(toint(n), lambda c: toint(at(c).st.length))

            def item(t):
                x = A.segment_of(toint(t), tot.arg(1), toint(n))
                if x is None:
                    raise Unsupported("lists of negative length")
                return at(wrap(x[0])).get(x[1])

            return PList.sym(tot, item)
        return itertools.chain.from_iterable(it)


itertools_ns = NS("itertools", zip_longest=zip_longest, combinations=combinations, product=itertools.product, chain=_Chain)
functools_ns = NS("functools", partial=functools.partial, wraps=functools.wraps, reduce=functools.reduce, lru_cache=functools.lru_cache)
