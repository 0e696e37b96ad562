"""Heap objects: arrays, lists, dicts; write families and their inversion."""
import itertools
import z3
from .core import *
from .core import _sum_norm
from . import core

_refs = itertools.count(1)
FROZEN = {}


def heap_get(ref):
    h = ctx().heap
    if ref in h:
        return h[ref]
    return FROZEN[ref]


def alloc(content):
    r = next(_refs)
    ctx().heap[r] = content
    return r


def I(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def dim_t(d):
    return toint(d)


def same(a, b):
    """provably equal ints"""
    a, b = toint(a), toint(b)
    if a.eq(b):
        return True
    d = z3.simplify(a - b)
    if z3.is_int_value(d):
        return d.as_long() == 0
    if poly(a - b).m == {}:
        return True
    return ctx().valid(a == b)


def is_one(d):
    t = z3.simplify(toint(d))
    return z3.is_int_value(t) and t.as_long() == 1


# --------------------------------------------------------------------------
# substitution over python objects


def subst(v, m):
    """m: list of (const, term)"""
    if not m:
        return v
    if isinstance(v, z3.ExprRef):
        return z3.substitute(v, *m)
    if isinstance(v, Sc):
        return wrap(z3.substitute(v.t, *m))
    if isinstance(v, Arr):
        a = Arr.__new__(Arr)
        c = v.snapshot_content()
        a.ref = next(_refs)
        FROZEN[a.ref] = CSub(c, m)
        a.shape = tuple(subst(d, m) for d in v.shape)
        a.imap = None
        a.dtype = v.dtype
        a.ro = True
        return a
    if isinstance(v, PList):
        st = heap_get(v.ref)
        l = PList.__new__(PList)
        l.ref = next(_refs)
        l.ro = True
        if st.items is not None:
            FROZEN[l.ref] = ListState(items=tuple(subst(x, m) for x in st.items))
        else:
            FROZEN[l.ref] = ListState(length=subst(st.length, m), content=CSub(st.content, m))
        return l
    if isinstance(v, tuple):
        return tuple(subst(x, m) for x in v)
    if v is None or isinstance(v, (str, int, float, bool)) or is_num(v):
        return v
    if isinstance(v, Rec):
        return Rec(v.kind, {k: subst(x, m) for k, x in v.f.items()})
    if isinstance(v, PDict):
        d = type(v).__new__(type(v))
        d.ref = next(_refs)
        d.ro = True
        FROZEN[d.ref] = {k: subst(x, m) for k, x in heap_get(v.ref).items()}
        return d
    if hasattr(v, "__subst__"):
        return v.__subst__(m)
    if callable(v):
        return v
    raise Unsupported(f"cannot substitute in {type(v).__name__}")


class Rec:
    """opaque record of symbolic fields"""

    def __init__(self, kind, f):
        self.kind, self.f = kind, f


def obj_occurs(vs, v):
    if not vs:
        return False
    if isinstance(v, z3.ExprRef):
        return occurs_any(vs, v)
    if isinstance(v, Sc):
        return occurs_any(vs, v.t)
    if isinstance(v, tuple):
        return any(obj_occurs(vs, x) for x in v)
    if v is None or isinstance(v, (str, int, float, bool)):
        return False
    return True  # conservative


# --------------------------------------------------------------------------
# contents


class Content:
    def read(self, q):
        raise NotImplementedError


class CFn(Content):
    def __init__(self, fn):
        self.fn = fn

    def read(self, q):
        return self.fn(*q)


class CSub(Content):
    def __init__(self, c, m):
        self.c, self.m = c, list(m)

    def read(self, q):
        # rename to avoid capture: read at fresh constants, then substitute both
        fr = [z3.FreshConst(Int, "cs") for _ in q]
        v = self.c.read(tuple(fr))
        return subst(v, self.m + list(zip(fr, q)))


class CEmpty(Content):
    """nothing there: a read is out of range (excluded by the index obligations)"""

    def read(self, q):
        raise Unsupported("read from an empty list")


class CPoison(Content):
    def __init__(self, why):
        self.why = why

    def read(self, q):
        raise Unsupported("read of " + self.why)


class Fam:
    __slots__ = ("vars", "ranges", "guard", "pat", "val", "fixed")

    def __init__(self, vars, ranges, guard, pat, val):
        self.vars, self.ranges, self.guard, self.pat, self.val = tuple(vars), list(ranges), guard, tuple(pat), val
        self.fixed = tuple(x.as_long() for x in self.pat) if self.pat and all(z3.is_int_value(x) for x in self.pat) else None

    def __repr__(self):
        return f"Fam({self.vars} in {self.ranges} | {z3.simplify(self.guard)} : {[z3.simplify(p) for p in self.pat]} := {self.val})"

    def range_cond(self, m=()):
        cs = []
        for v, (lo, hi) in zip(self.vars, self.ranges):
            cs += [lo <= v, v < hi]
        cs.append(self.guard)
        r = z3.And(cs) if cs else z3.BoolVal(True)
        return z3.substitute(r, *m) if m else r

    def rename(self):
        fr = [z3.FreshConst(Int, "rn") for _ in self.vars]
        m = list(zip(self.vars, fr))
        if not m:
            return self
        s = lambda t: z3.substitute(t, *m)
        return Fam(fr, [(s(a), s(b)) for a, b in self.ranges], s(self.guard), [s(p) for p in self.pat], None)


def coeff(p, v):
    """p: Poly; v const. -> (coefficient Poly, rest Poly) if linear in v, else None"""
    k = v.get_id()
    c, r = {}, {}
    for mono, x in p.m.items():
        d = dict(mono)
        e = d.pop(k, 0)
        if e == 0:
            r[mono] = x
        elif e == 1:
            c[tuple(sorted(d.items()))] = x
        else:
            return None
    for pp in (c, r):
        for mono in pp:
            for a, e in mono:
                if a != k and occurs(v, Poly.atoms[a]):
                    return None
    return Poly(c), Poly(r)


def split_div(q, c, hyp=()):
    """q = q0*c + r0 with 0 <= r0 < c; nice forms when provable. c positive."""
    C = ctx()
    pq, pc = poly(q), poly(c)
    if pc.is_const() and pc.const_val() == 1:
        return q, z3.IntVal(0)
    q0 = Poly()
    rem = pq
    atoms = sorted({a for mono in pq.m for a, e in mono if e == 1})
    pcatoms = {a for mono in pc.m for a, e in mono}
    for a in atoms:
        if a in pcatoms:
            continue
        cf = coeff(rem, Poly.atoms[a])
        if cf is None or not cf[0].m:
            continue
        # is cf[0] a const multiple of pc?
        k = _const_ratio(cf[0], pc)
        if k is not None and k.denominator == 1:
            q0 = q0 + Poly.atom(Poly.atoms[a]).scale(k)
            rem = rem - Poly.atom(Poly.atoms[a]).scale(k) * pc
    if not pc.is_const():
        # polynomial division by the leading monomial of c
        lead = max((m for m in pc.m if m), key=lambda m: (len(m), m))
        dl = dict(lead)
        if all(e > 0 for e in dl.values()):
            for _ in range(8):
                hit = next((m for m in rem.m if all(dict(m).get(a, 0) >= e for a, e in lead)), None)
                if hit is None:
                    break
                k = rem.m[hit] / pc.m[lead]
                if k.denominator != 1:
                    break
                dm = dict(hit)
                t = Poly.const(1)
                for a, e in dm.items():
                    for _x in range(e - dl.get(a, 0)):
                        t = t * Poly.atom(Poly.atoms[a])
                t = t.scale(k)
                q0 = q0 + t
                rem = rem - t * pc
    cands = []
    if pc.is_const():
        import math
        k = math.floor(rem.const_val() / pc.const_val())
        cands = [k, k - 1, k + 1, 0]
    else:
        lead = max((m for m in pc.m if m), key=lambda m: (len(m), m))
        r = rem.m.get(lead, 0)
        k = int(r / pc.m[lead]) if r else 0
        cands = [k, k - 1, k + 1]
        # other candidates: c's own atoms used as bounds, e.g. remainder in [0,c)
    for k in dict.fromkeys(cands):
        r2 = rem - pc.scale(k)
        rt = unpoly(r2, False)
        cond = z3.And(0 <= rt, rt < c)
        if hyp:
            cond = z3.Implies(z3.And(*hyp), cond)
        if C.valid(cond):
            return unpoly(q0 + Poly.const(k), False), rt
    d = q / c
    return d, q - d * c


def _const_ratio(a, b):
    if set(a.m) != set(b.m) or not b.m:
        return None
    rs = {a.m[k] / b.m[k] for k in b.m}
    return rs.pop() if len(rs) == 1 else None


def app_inverse(p, x, unsolved):
    """p = f(.., v) with f injective and v unknown: (v, f^-1(x), condition)"""
    if not z3.is_app(p) or not p.num_args():
        return None
    bk = ctx().inverse.get(p.decl().name())
    last = p.arg(p.num_args() - 1)
    if bk is None:
        return None
    for v in unsolved:
        if last.eq(v) and not any(occurs(v, a) for a in p.children()[:-1]) and not occurs(v, x):
            sol, hit = bk(p.children()[:-1], x)
            return v, sol, hit
    return None


SEGF = ufn("SEGMENT", z3.ArraySort(Int, Int), Int, Int)


def segment_of(x, L, n):
    """(k, t) with x = S(k) + t, 0 <= t < L(k), where S(k) = L(0) + .. + L(k-1) and L >= 0 on [0, n)

    Rule used: a prefix sum of lengths that are not negative meets every x in [0, S(n)) in exactly one segment."""
    C = ctx()
    x = norm(x)
    at = lambda k: norm(z3.substitute_vars(L.body(), toint(k)))
    k = z3.Const(f"segment@{L.get_id()}", Int)
    if not C.valid(z3.Implies(z3.And(0 <= k, k < n), at(k) >= 0)):
        return None
    s = SEGF(L, x)
    t = norm(x - SUMIF(s, L))
    C.assume(z3.Implies(z3.And(0 <= x, x < SUMIF(n, L)), z3.And(0 <= s, s < n, 0 <= t, t < at(s))))
    for y in dict.fromkeys(a.arg(0) for a in subterms(x) if a.decl().eq(SUMIF) and a.arg(1).eq(L)):
        w = norm(x - SUMIF(y, L))
        if C.valid(z3.And(0 <= y, y < n, 0 <= w, w < at(y))):
            C.assume(z3.And(s == y, 0 <= SUMIF(y, L), SUMIF(y, L) + at(y) <= SUMIF(n, L)))
            return norm(y), w
        C.assume(z3.Implies(z3.And(0 <= y, y < n, 0 <= w, w < at(y)), s == y))
        C.assume(z3.Implies(z3.And(0 <= y, y < n), z3.And(0 <= SUMIF(y, L), SUMIF(y, L) + at(y) <= SUMIF(n, L))))
    return s, t


def subterms(x):
    out, seen, st = [], set(), [x]
    while st:
        y = st.pop()
        if y.get_id() in seen or not z3.is_app(y):
            continue
        seen.add(y.get_id())
        out.append(y)
        st.extend(y.children())
    return out


def subterms_all(x):
    """with the quantified subterms themselves"""
    out, seen, st = [], set(), [x]
    while st:
        y = st.pop()
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        if z3.is_quantifier(y):
            return out + [y]
        if z3.is_app(y):
            out.append(y)
            st.extend(y.children())
    return out


def segment(fam, p, x, us, sub):
    """S(v) + rest = x with 0 <= rest < L(v): (v, the segment of x, rest, the offset of x in it)"""
    C = ctx()
    for a in subterms(p):
        if not a.decl().eq(SUMIF) or not any(a.arg(0).eq(v) for v in us) or not z3.is_quantifier(a.arg(1)):
            continue
        v, L = a.arg(0), a.arg(1)
        rest = norm(p - a)
        if any(occurs(u, L) for u in us) or any(b.decl().eq(SUMIF) and occurs(v, b) for b in subterms(rest)):
            continue
        n = sub(next(r for w, r in zip(fam.vars, fam.ranges) if w.eq(v))[1])
        hyp = [sub(fam.guard)]
        for w, (lo, hi) in zip(fam.vars, fam.ranges):
            hyp += [sub(lo) <= w, w < sub(hi)]
        Lv = z3.substitute_vars(L.body(), v)
        free = [w for w in us if not w.eq(v)]
        fixed = norm(z3.substitute(rest, *[(w, z3.IntVal(0)) for w in free])) if free else rest
        if occurs(v, fixed):
            fixed = z3.IntVal(0)
        if occurs_any(us, n):
            continue
        within = lambda r: C.valid(z3.Implies(z3.And(hyp), z3.And(0 <= v, 0 <= r, r < Lv)))
        if within(rest):
            fixed = z3.IntVal(0)
        else:
            rest = norm(rest - fixed)
            if not within(rest):
                continue
        r = segment_of(x - fixed, L, n)
        if r is not None:
            return v, r[0], rest, r[1]
    return None


def invert(fam, q):
    """Complete inversion of fam.pat(b) == q.

    -> (mapping list, cond) such that for all b in range:
       pat(b) == q  <=>  b == mapping and cond        (cond includes the ranges)
    """
    C = ctx()
    unsolved = list(fam.vars)
    m = []
    eqs = [(p, x) for p, x in zip(fam.pat, q)]
    conds = []

    def sub(t):
        return z3.substitute(t, *m) if m else t

    progress = True
    while eqs and progress:
        progress = False
        for e in list(eqs):
            p, x = sub(e[0]), e[1]
            us = [v for v in unsolved if occurs(v, p)]
            if not us:
                eqs.remove(e)
                conds.append(norm(p) == norm(x))
                progress = True
                break
            P = poly(p)
            if len(us) == 1:
                v = us[0]
                cf = coeff(P, v)
                if cf is None:
                    continue
                c, rest = cf
                if c.is_const():
                    k = c.const_val()
                    if abs(k) == 1:
                        sol = unpoly((poly(x) - rest).scale(k), False)
                        m.append((v, sol))
                        unsolved.remove(v)
                        eqs.remove(e)
                        progress = True
                        break
                ct = unpoly(c, False)
                if not is_pos(ct):
                    continue
                d, r = split_div(unpoly(poly(x) - rest, False), ct)
                m.append((v, d))
                unsolved.remove(v)
                eqs.remove(e)
                conds.append(r == 0)
                progress = True
                break
        if progress:
            continue
        # index list or permutation applied to an unknown
        for e in list(eqs):
            p, x = sub(e[0]), e[1]
            r = app_inverse(p, x, unsolved)
            if r is not None:
                v, sol, hit = r
                m.append((v, sol))
                unsolved.remove(v)
                eqs.remove(e)
                conds.append(hit)
                progress = True
                break
        if progress:
            continue
        # functions that are injective together
        for hook in C.joint:
            r = hook([(sub(p), x) for p, x in eqs], sub(fam.guard), unsolved)
            if r is not None:
                v, sol, hit = r
                m.append((v, sol))
                unsolved.remove(v)
                conds.append(hit)
                progress = True
                break
        if progress:
            continue
        # several unknowns in one axis: mixed radix
        for e in list(eqs):
            p, x = sub(e[0]), e[1]
            us = [v for v in unsolved if occurs(v, p)]
            P = poly(p)
            for v in us:
                cf = coeff(P, v)
                if cf is None or not cf[0].m:
                    continue
                ct = unpoly(cf[0], False)
                if any(occurs(u, ct) for u in us):
                    continue
                # rest must stay inside [off, off+c) for some constant offset
                rest = unpoly(cf[1], False)
                others = [u for u in us if u is not v]
                hyp = []
                for u, (lo, hi) in zip(fam.vars, fam.ranges):
                    hyp += [sub(lo) <= u, u < sub(hi)]
                hyp.append(sub(fam.guard))
                if not (C.valid(z3.Implies(z3.And(hyp), z3.And(ct > 0, 0 <= rest, rest < ct)))):
                    continue
                d, r = split_div(x, ct)
                m.append((v, d))
                unsolved.remove(v)
                eqs.remove(e)
                eqs.append((rest, r))
                progress = True
                break
            if progress:
                break
        if progress:
            continue
        # segments of varying length laid end to end
        for e in list(eqs):
            p, x = sub(e[0]), e[1]
            us = [v for v in unsolved if occurs(v, p)]
            r = segment(fam, p, x, us, sub)
            if r is not None:
                m.append((r[0], r[1]))
                unsolved.remove(r[0])
                eqs.remove(e)
                eqs.append((r[2], r[3]))
                progress = True
                break
    if eqs:
        raise Unsupported(f"cannot invert write pattern {fam} at {q}")
    # unknowns fixed by an equation of the conditions or of the guard
    again = bool(unsolved)
    while again and unsolved:
        again = False
        for c in conjuncts(z3.simplify(sub(z3.And(conds + [fam.guard])))):
            if not z3.is_eq(c):
                continue
            for a, b in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                r = app_inverse(a, b, unsolved)
                if r is None and a.sort() == Int and any(a.eq(u) for u in unsolved) and not any(occurs(u, b) for u in unsolved):
                    r = (a, b, z3.BoolVal(True))
                if r is None:
                    continue
                v, sol, hit = r
                m.append((v, sol))
                unsolved.remove(v)
                conds.append(hit)
                again = True
                break
            if again:
                break
    # express mapping fully
    for _ in range(len(m)):
        m2 = [(v, z3.substitute(t, *[y for y in m if not y[0].eq(v)]) if len(m) > 1 else t) for v, t in m]
        if all(a[1].eq(b[1]) for a, b in zip(m, m2)):
            break
        m = m2
    conds = [z3.substitute(c, *m) if m else c for c in conds]
    conds.append(fam.range_cond(m))
    cond = z3.simplify(z3.And(conds))
    if any(y.decl().kind() == z3.Z3_OP_IDIV for y in subterms(cond)):
        cond = z3.simplify(norm(cond))
    return m, cond, unsolved


def read_fams(base, fams, q):
    """read through families, last has priority"""
    C = ctx()
    pending = []
    fixed = tuple(x.as_long() for x in q) if all(z3.is_int_value(x) for x in q) else None
    for fam in reversed(fams):
        if fixed is not None and not fam.vars and fam.fixed is not None and fam.fixed != fixed:
            continue  # a write to another cell
        m, cond, free = invert(fam, q)
        if z3.is_false(cond):
            continue
        if not z3.is_true(cond) and C.valid(z3.Not(cond), 500):
            continue
        if free:
            raise Unsupported(f"write pattern with undetermined variables {fam}")
        hit = z3.is_true(cond) or C.valid(cond, 500)
        pending.append((cond, fam, m))
        if hit:
            v = value_at(fam, m)
            for cond, f2, m2 in reversed(pending[:-1]):
                v = join(cond, lambda: value_at(f2, m2), v)
            return v
    if not pending:
        return base.read(q)
    if isinstance(base, CEmpty):
        cond, fam, m = pending.pop()
        v = value_at(fam, m)
        for cond, f2, m2 in reversed(pending):
            v = join(cond, lambda: value_at(f2, m2), v)
        return v
    # every value is needed under its own condition only
    v = None
    first = True
    # evaluate base under the negation of all conditions
    C2 = ctx()
    save = list(C2.pc)
    for cond, f2, m2 in pending:
        C2.pc.append(z3.Not(cond))
    try:
        v = base.read(q)
    finally:
        C2.pc[:] = save
    for cond, f2, m2 in reversed(pending):
        v = join(cond, lambda: value_at(f2, m2), v)
    return v


def value_at(fam, m):
    return subst(fam.val, m)


def is_scalar(v):
    return isinstance(v, (Sc, z3.ExprRef, bool, str)) or is_num(v)


def join(cond, thunk, other):
    v = thunk()
    if is_scalar(v) and is_scalar(other):
        return z3.If(cond, *coerce2(v, other))
    if ctx().decide(cond):
        return v
    return other


class CChain(Content):
    def __init__(self, base, fams):
        self.base, self.fams = base, list(fams)

    def read(self, q):
        return read_fams(self.base, self.fams, q)


def chain(base, fams):
    if isinstance(base, CChain):
        return CChain(base.base, base.fams + list(fams))
    return CChain(base, fams)


# --------------------------------------------------------------------------
# arrays


def arr_add(a, b):
    x, y = term(a), term(b)
    if x.sort() == Bool and y.sort() == Bool:
        return z3.Or(x, y)  # NumPy adds boolean arrays as logical or
    return t_add(x, y)


def arr_bit(op, a, b):
    x, y = term(a), term(b)
    if x.sort() == Bool and y.sort() == Bool:
        return {"and": z3.And, "or": z3.Or, "xor": z3.Xor}[op](x, y)
    for p, q in ((x, y), (y, x)):
        if p.sort() == Bool and z3.is_int_value(q) and q.as_long() in (0, 1):
            r = {"and": z3.And, "or": z3.Or, "xor": z3.Xor}[op](p, z3.BoolVal(q.as_long() == 1))
            return z3.If(z3.simplify(r), z3.IntVal(1), z3.IntVal(0))
    raise Unsupported("bit operation on integer arrays")


class DT(str):
    """element type; equal to every NumPy spelling of it"""

    __slots__ = ()

    def __eq__(self, o):
        if isinstance(o, str):
            return str.__eq__(self, o if o in ("real", "int", "bool", "obj") else dtype_name(str(o)))
        if o is None:
            return False
        return str.__eq__(self, dtype_name(o))

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = str.__hash__


class Arr:
    __array_priority__ = 2000
    uniq = None
    __array_ufunc__ = None

    def __init__(self, shape, content, dtype="real", imap=None, ref=None, ro=False):
        self.shape = tuple(shape)
        self.ref = ref if ref is not None else alloc(content)
        self.imap = imap
        self.dtype = DT(dtype)
        self.ro = ro

    # -- structure
    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        r = 1
        for d in self.shape:
            r = r * d
        return r

    @property
    def T(self):
        n = self.ndim
        return self.view(tuple(reversed(self.shape)), lambda *q: tuple(reversed(q)))

    def view(self, shape, f):
        im = self.imap
        g = f if im is None else (lambda *q: im(*f(*q)))
        return Arr(shape, None, self.dtype, g, self.ref, self.ro)

    def __repr__(self):
        return f"Arr{tuple(self.shape)}#{self.ref}"

    # -- reading
    def snapshot_content(self):
        c = heap_get(self.ref)
        if self.imap is None:
            return c
        im = self.imap
        return CFn(lambda *q: c.read(im(*q)))

    def reader(self):
        c = self.snapshot_content()
        return lambda *q: c.read(tuple(toint(x) for x in q))

    def read(self, *q):
        return self.reader()(*q)

    def __scalar__(self):
        if self.ndim == 0:
            return self.read()
        if all(is_one(d) for d in self.shape):
            return self.read(*([0] * self.ndim))
        raise Unsupported("array used as a scalar")

    def __len__(self):
        d = self.shape[0]
        return d if isinstance(d, int) else d.__index__()

    def __iter__(self):
        n = self.shape[0]
        if isinstance(n, int):
            for k in range(n):
                yield self[k]
            return
        raise Unsupported("native iteration over a symbolic array")

    def __bool__(self):
        if self.ndim == 0 or all(is_one(d) for d in self.shape):
            return bool(wrap(tobool(self.__scalar__())))
        raise Unsupported("truth of an array")

    def __hash__(self):
        return id(self)

    def item(self):
        return wrap(self.__scalar__())

    # -- indexing
    def parse_key(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        n_real = sum(1 for k in key if k is not None and k is not Ellipsis)
        out = []
        ax = 0
        seen_ell = False
        for k in key:
            if k is Ellipsis:
                for _ in range(self.ndim - n_real):
                    out.append(("slice", ax, z3.IntVal(0), 1, self.shape[ax]))
                    ax += 1
                continue
            if k is None:
                out.append(("new",))
                continue
            if ax >= self.ndim:
                raise IndexError("too many indices")
            d = self.shape[ax]
            if isinstance(k, slice):
                out.append(("slice", ax) + slice_range(k, d))
                ax += 1
            elif isinstance(k, (Arr, PList, list, SymRange)) or type(k).__module__ == "numpy" and getattr(k, "ndim", 0) > 0:
                a = as_arr(k)
                if a.dtype == "bool":
                    out.append(("mask", ax, a))
                    ax += a.ndim
                elif a.ndim == 0:
                    out.append(("int", ax, norm_index(a.__scalar__(), d)))
                    ax += 1
                else:
                    out.append(("fancy", ax, a))
                    ax += 1
            elif isinstance(k, (int, Sc)) or is_num(k):
                out.append(("int", ax, norm_index(k, d)))
                ax += 1
            elif isinstance(k, tuple):
                out.append(("fancy", ax, as_arr(k)))
                ax += 1
            else:
                raise Unsupported(f"index {type(k).__name__}")
        while ax < self.ndim:
            out.append(("slice", ax, z3.IntVal(0), 1, self.shape[ax]))
            ax += 1
        return out

    def _geometry(self, key):
        """-> (result shape, fn: result idx -> base idx, is_view, masks)"""
        parts = self.parse_key(key)
        fancy = [p for p in parts if p[0] == "fancy"]
        masks = [p for p in parts if p[0] == "mask"]
        if masks:
            return None, None, False, parts
        fshape = ()
        if fancy:
            fshape = broadcast_shapes([p[2].shape for p in fancy])
        shape = []
        fpos = None
        plan = []  # per base axis
        # numpy: fancy dims adjacent -> placed at first fancy position, else first
        idxs = [k for k, p in enumerate(parts) if p[0] in ("fancy", "int") and p[0] == "fancy"]
        adv = [k for k, p in enumerate(parts) if p[0] == "fancy" or (fancy and p[0] == "int")]
        contiguous = all(adv[k] + 1 == adv[k + 1] for k in range(len(adv) - 1)) if adv else True
        front = bool(fancy) and not contiguous
        if front:
            shape += list(fshape)
            fpos = 0
        for k, p in enumerate(parts):
            if p[0] == "slice":
                plan.append(("slice", p[2], p[3], len(shape)))
                shape.append(p[4])
            elif p[0] == "new":
                shape.append(1)
            elif p[0] == "int":
                if fancy and not front and fpos is None and k == adv[0]:
                    fpos = len(shape)
                    shape += list(fshape)
                plan.append(("int", p[2]))
            elif p[0] == "fancy":
                if fpos is None:
                    fpos = len(shape)
                    shape += list(fshape)
                plan.append(("fancy", p[2], None))
        nf = len(fshape)
        readers = {id(p[2]): bcast_reader(p[2], fshape) for p in fancy}
        dims = self.shape

        def f(*q):
            out = []
            for ax, p in enumerate(plan):
                if p[0] == "slice":
                    st = p[2]
                    t = q[p[3]]
                    out.append(p[1] + (t if isinstance(st, int) and st == 1 else toint(st) * t))
                elif p[0] == "int":
                    out.append(p[1])
                else:
                    ix = toint(readers[id(p[1])](*q[fpos:fpos + nf]))
                    out.append(norm_index(ix, dims[ax]))
            return tuple(out)

        return tuple(wrapdim(d) for d in shape), f, not fancy, parts

    def __getitem__(self, key):
        if isinstance(key, str):
            raise TypeError("string index into array")
        key = getattr(key, "__dict__", {}).get("as_mask", key)
        shape, f, view, parts = self._geometry(key)
        if shape is None:
            return self._mask_get(parts, key)
        if view:
            v = self.view(shape, f)
            if not shape:
                return to_py(v.read(), self.dtype)
            return v
        rd = self.reader()
        return Arr(shape, CFn(lambda *q: rd(*f(*q))), self.dtype)

    def _mask_get(self, parts, key):
        (mk,) = [p for p in parts if p[0] == "mask"]
        a = mk[2]
        if self.ndim == 2 and a.ndim == 1:
            k = list(key) if isinstance(key, tuple) else [key]
            if len(k) == 1:
                k.append(slice(None))
            if len(k) == 2:
                ax = next((i for i in (0, 1) if isinstance(k[i], Arr)), None)
                if ax is not None and isinstance(k[1 - ax], slice):
                    k[ax] = slice(None)
                    return FiltMat(self[tuple(k)], a, ax)
        if len(parts) == 1 or all(p[0] == "mask" or p[0] == "slice" for p in parts):
            return FiltArr.make(self, a, mk[1])
        raise Unsupported("boolean mask combined with other indices")

    def __setitem__(self, key, val):
        if self.ro:
            raise Unsupported("write to a substituted copy")
        shape, f, view, parts = self._geometry(key)
        if shape is None:
            (mk,) = [p for p in parts if p[0] == "mask"]
            a = mk[2]
            if len(parts) != 1 and not all(p[0] in ("mask", "slice") for p in parts):
                raise Unsupported("mask write with other indices")
            rd = a.reader()
            na, ax0 = a.ndim, mk[1]
            if isinstance(val, (Arr, PList)) and as_arr(val).ndim > 0:
                raise Unsupported("array value assigned through a mask")
            vt = scal(val)
            self._write(self.shape, lambda *q: q, lambda *q: vt, lambda *q: tobool(rd(*q[ax0:ax0 + na])))
            return
        if isinstance(val, (Arr, PList, tuple, list)) or (type(val).__module__ == "numpy" and getattr(val, "ndim", 0) > 0):
            va = as_arr(val)
            vr = bcast_reader(va, shape)
            dt = va.dtype
        else:
            vt = val if not is_scalar(val) else scal(val)
            vr = lambda *q: vt
            dt = None
        self._write(shape, f, vr)

    def _write(self, shape, f, vr, guard=None):
        C = ctx()
        vs = [z3.Const(C.name("w"), Int) for _ in shape]
        hyp = []
        for v, d in zip(vs, shape):
            hyp += [0 <= v, v < toint(d)]
        save = list(C.pc)
        C.pc.extend(hyp)
        try:
            pat = f(*vs)
            if self.imap is not None:
                pat = self.imap(*pat)
            pat = [norm(toint(p)) for p in pat]
            g = z3.BoolVal(True) if guard is None else tobool(guard(*vs))
            val = vr(*vs)
        finally:
            C.pc[:] = save
        if is_scalar(val):
            val = scal(val)
            if self.dtype == "int" and val.sort() == Real:
                val = t_trunc(val)
            elif self.dtype == "real" and val.sort() in (Int, Bool):
                val = toreal(val)
            elif self.dtype == "bool" and val.sort() != Bool:
                val = tobool(val)
        ranges = [(z3.IntVal(0), toint(d)) for d in shape]
        # vars not occurring in the pattern over size-1 dims
        fams = []
        for g2, pat2 in split_ite(pat, g):
            vs2, rg2 = [], []
            m = []
            for v, r in zip(vs, ranges):
                if any(occurs(v, p) for p in pat2):
                    vs2.append(v)
                    rg2.append(r)
                else:
                    m.append((v, z3.IntVal(0)))
            if m:
                g3 = z3.substitute(g2, *m)
                val3 = subst(val, m)
                rg2 = [(z3.substitute(a, *m), z3.substitute(b, *m)) for a, b in rg2]
                g3 = z3.And([g3] + [z3.substitute(r[0] < r[1], *m) for v, r in zip(vs, ranges) if any(v.eq(x[0]) for x in m)])
            else:
                g3, val3 = g2, val
            fams.append(Fam(vs2, rg2, z3.simplify(g3), pat2, val3))
        C.heap[self.ref] = chain(heap_get(self.ref), fams)

    # -- arithmetic
    def _ew(fn, swap=False, dt=None):
        def op(self, o):
            if isinstance(o, (Arr, Sc, PList, tuple, list)) or is_num(o) or hasattr(o, "__scalar__") or type(o).__module__ == "numpy":
                a, b = (o, self) if swap else (self, o)
                return elementwise(fn, [a, b], dt)
            if o is None and dt == "bool":
                return elementwise(lambda x: z3.BoolVal(False), [self], "bool")
            if isinstance(o, str) and dt == "bool":
                return elementwise(fn, [self, o], dt)
            return NotImplemented

        return op

    __add__ = _ew(arr_add)
    __radd__ = _ew(arr_add, True)
    __sub__ = _ew(t_sub)
    __rsub__ = _ew(t_sub, True)
    __mul__ = _ew(t_mul)
    __rmul__ = _ew(t_mul, True)
    __truediv__ = _ew(t_div)
    __rtruediv__ = _ew(t_div, True)
    __floordiv__ = _ew(t_floordiv)
    __mod__ = _ew(t_mod)
    __pow__ = _ew(t_pow)
    __rpow__ = _ew(t_pow, True)
    __lt__ = _ew(lambda a, b: (lambda x: x[0] < x[1])(arith2(a, b)), dt="bool")
    __le__ = _ew(lambda a, b: (lambda x: x[0] <= x[1])(arith2(a, b)), dt="bool")
    __gt__ = _ew(lambda a, b: (lambda x: x[0] > x[1])(arith2(a, b)), dt="bool")
    __ge__ = _ew(lambda a, b: (lambda x: x[0] >= x[1])(arith2(a, b)), dt="bool")
    __eq__ = _ew(t_eq, dt="bool")
    __ne__ = _ew(lambda a, b: z3.Not(t_eq(a, b)), dt="bool")
    def _bit(op):
        def f(self, o):
            isb = lambda x: getattr(x, "dtype", None) == "bool" or isinstance(x, bool) or isinstance(x, Sc) and x.t.sort() == Bool
            return elementwise(lambda a, b: arr_bit(op, a, b), [self, o], "bool" if isb(self) and isb(o) else None)
        return f

    __and__, __or__, __xor__ = _bit("and"), _bit("or"), _bit("xor")
    __rxor__ = __xor__
    __rand__ = __and__
    __ror__ = __or__

    def __invert__(self):
        if self.dtype != "bool":
            return elementwise(lambda a: z3.Not(term(a)) if term(a).sort() == Bool else -1 - toint(a), [self])
        return elementwise(lambda a: z3.Not(tobool(a)), [self], "bool")

    def __neg__(self):
        return elementwise(lambda a: -(toint(a) if term(a).sort() == Bool else term(a)), [self])

    def __abs__(self):
        return elementwise(t_abs, [self])

    def _iop(fn):
        def op(self, o):
            r = elementwise(fn, [self, o])
            self[...] = r
            return self

        return op

    __iadd__ = _iop(t_add)
    __isub__ = _iop(t_sub)
    __imul__ = _iop(t_mul)
    __itruediv__ = _iop(t_div)

    def __matmul__(self, o):
        from . import npshim
        return npshim.matmul(self, o)

    def copy(self):
        rd = self.reader()
        return Arr(self.shape, CFn(lambda *q: rd(*q)), self.dtype)

    def astype(self, t, copy=True, **k):
        dt = dtype_name(t)
        rd = self.reader()
        if dt == self.dtype or dt == "obj" or self.dtype == "obj":
            return Arr(self.shape, CFn(lambda *q: rd(*q)), dt if dt != "obj" else self.dtype)
        conv = {"real": toreal, "int": t_trunc, "bool": tobool}[dt]
        return Arr(self.shape, CFn(lambda *q: conv(rd(*q))), dt)

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        from . import npshim
        f = getattr(npshim, "m_" + a, None)
        if f is None:
            raise Unsupported(f"ndarray.{a}")
        return lambda *x, **k: f(self, *x, **k)


class Lazy:
    """element u of item i of an iterable, read when it is needed"""

    def __init__(self, at, i, u):
        self.at, self.i, self.u = at, i, u

    def __subst__(self, m):
        return Lazy(self.at, z3.substitute(self.i, *m), z3.substitute(self.u, *m))

    def force(self):
        return self.at(wrap(norm(self.i))).get(norm(self.u))


def to_py(v, dtype=None):
    if isinstance(v, Lazy):
        return v.force()
    if isinstance(v, z3.ExprRef):
        return wrap(v)
    return v


def wrapdim(d):
    if isinstance(d, (int,)):
        return d
    t = z3.simplify(toint(d))
    if z3.is_int_value(t):
        return t.as_long()
    return Sc(toint(d))


def scal(v):
    return term(v)


def split_ite(pat, guard):
    """split families whose index pattern contains a top-level If"""
    for k, p in enumerate(pat):
        c = find_ite(p)
        if c is not None:
            a = [z3.simplify(z3.substitute(x, (c, c.arg(1)))) if x is not None else x for x in pat]
            b = [z3.simplify(z3.substitute(x, (c, c.arg(2)))) if x is not None else x for x in pat]
            return split_ite([norm(x) for x in a], z3.And(guard, c.arg(0))) + split_ite([norm(x) for x in b], z3.And(guard, z3.Not(c.arg(0))))
    return [(guard, pat)]


def find_ite(t):
    if z3.is_app(t):
        if t.decl().kind() == z3.Z3_OP_ITE:
            return t
        if t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_TO_REAL):
            for c in t.children():
                r = find_ite(c)
                if r is not None:
                    return r
    return None


def slice_range(s, d):
    """-> (start term, step, length) for a python slice on dimension d"""
    C = ctx()
    dt = toint(d)
    step = 1 if s.step is None else s.step
    st = z3.simplify(toint(step))
    neg = False
    if z3.is_int_value(st):
        step = st.as_long()
        if step == 0:
            raise ValueError("slice step cannot be zero")
        neg = step < 0
    else:
        if not is_pos(st):
            raise Unsupported("slice step of unknown sign")
        step = Sc(st)

    def clip(x, lo, hi):
        x = toint(x)
        sx = z3.simplify(x)
        nonneg = z3.is_int_value(sx) and sx.as_long() >= 0 or (not z3.is_int_value(sx) and C.valid(x >= 0))
        if not nonneg:
            if (z3.is_int_value(sx) and sx.as_long() < 0) or C.valid(x < 0):
                x = dt + x
                if not C.valid(x >= lo):
                    x = z3.If(x < lo, lo, x)
                return x
            x = z3.If(x < 0, z3.If(x + dt < lo, lo, x + dt), x)
        if C.valid(x <= hi):
            return x
        return z3.If(x > hi, hi, x)

    if neg:
        start = dt - 1 if s.start is None else clip(s.start, z3.IntVal(-1), dt - 1)
        stop = z3.IntVal(-1) if s.stop is None else clip(s.stop, z3.IntVal(-1), dt - 1)
        span = start - stop
        n = span if step == -1 else (span + (-step) - 1) / z3.IntVal(-step)
    else:
        start = z3.IntVal(0) if s.start is None else clip(s.start, z3.IntVal(0), dt)
        stop = dt if s.stop is None else clip(s.stop, z3.IntVal(0), dt)
        span = stop - start
        if isinstance(step, int) and step == 1:
            n = span
        else:
            t = toint(step)
            dq, r = split_div(norm(span + t - 1), t)
            n = dq
    n = norm(n)
    if not C.valid(span >= 0):
        n = z3.If(span > 0, n, z3.IntVal(0))
    return norm(start), step, wrapdim(n)


def norm_index(k, d):
    C = ctx()
    t = toint(k)
    s = z3.simplify(t)
    if z3.is_int_value(s):
        if s.as_long() < 0:
            return norm(toint(d) + s)
        dd = z3.simplify(toint(d))
        if z3.is_int_value(dd) and s.as_long() >= dd.as_long():
            raise IndexError("index out of range")
        return s
    if INDEX_OBLIGATIONS[0] is not None:
        INDEX_OBLIGATIONS[0](t, toint(d))
    neg = C.check([t < 0], 1500)
    if neg == "unsat":
        return t
    if C.valid(t < 0):
        return toint(d) + t
    return z3.If(t < 0, toint(d) + t, t)


INDEX_OBLIGATIONS = [None]


def broadcast_shapes(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        ds = [s[len(s) - n + k] for s in shapes if len(s) - n + k >= 0]
        r = None
        for d in ds:
            if is_one(d):
                continue
            if r is None:
                r = d
            elif not same(r, d):
                if ctx().valid(toint(r) != toint(d)):
                    raise ValueError("operands could not be broadcast together")
                raise Unsupported(f"shapes {shapes} not provably equal")
        out.append(1 if r is None else r)
    return tuple(out)


def bcast_reader(a, shape):
    rd = a.reader()
    n, k = len(shape), a.ndim
    off = n - k
    if off < 0:
        # leading ones are dropped in assignments
        if all(is_one(d) for d in a.shape[:-off]):
            rd0, lead = rd, -off
            rd = lambda *q: rd0(*([0] * lead), *q)
            ash = a.shape[lead:]
        else:
            raise ValueError("could not broadcast input array")
        off = 0
    else:
        ash = a.shape
    ones = [is_one(d) for d in ash]
    for d, s, o in zip(ash, shape[off:], ones):
        if not o and not same(d, s):
            if ctx().valid(toint(d) != toint(s)):
                raise ValueError(f"could not broadcast {a.shape} into {shape}")
            if ctx().tentative:  # loop-carried values are not known yet: checked again when they are
                continue
            raise Unsupported(f"cannot prove {a.shape} broadcasts into {shape}")
    return lambda *q: rd(*[z3.IntVal(0) if o else x for o, x in zip(ones, q[off:])])


def as_arr(x, dtype=None):
    import numpy as np
    if isinstance(x, Arr):
        return x
    if isinstance(x, Sc) or is_num(x) or isinstance(x, (bool, str)) or isinstance(x, z3.ExprRef):
        t = term(x)
        return Arr((), CFn(lambda: t), sort_dtype(t.sort()))
    if isinstance(x, FiltArr):
        raise Unsupported("filtered array in a general operation")
    if isinstance(x, np.ndarray):
        return from_np(x)
    if isinstance(x, SymRange):
        return Arr((x.n,), CFn(lambda i: x.at(i)), "int")
    if isinstance(x, PList):
        st = heap_get(x.ref)
        if st.items is None:
            probe = z3.FreshConst(Int, "pr")
            C = ctx()
            save = list(C.pc)
            C.pc.extend([0 <= probe, probe < toint(st.length)])
            try:
                v = st.content.read((probe,))
            finally:
                C.pc[:] = save
            c = st.content
            if is_scalar(v):
                return Arr((wrapdim(st.length),), CFn(lambda i: term(c.read((i,)))), sort_dtype(term(v).sort()))
            a = as_arr(v)
            for d in a.shape:
                if occurs(probe, toint(d)):
                    raise Unsupported("ragged array")
            inner = a

            def rd(i, *q):
                e = as_arr(c.read((i,)))
                return e.read(*q)

            return Arr((wrapdim(st.length),) + tuple(inner.shape), CFn(rd), inner.dtype)
        x = st.items
    if isinstance(x, (tuple, list)):
        items = [as_arr(e) for e in x]
        if not items:
            return Arr((0,), CFn(lambda i: z3.RealVal(0)), "real")
        sh = items[0].shape
        for e in items[1:]:
            if len(e.shape) != len(sh) or not all(same(a, b) for a, b in zip(sh, e.shape)):
                raise Unsupported("ragged array")
        dts = {e.dtype for e in items}
        dt = "obj" if "obj" in dts else "real" if "real" in dts else "int" if "int" in dts else "bool"
        rds = [e.reader() for e in items]
        conv = {"real": toreal, "int": toint, "bool": tobool, "obj": term}[dt]

        def rd(i, *q):
            s = z3.simplify(toint(i))
            if z3.is_int_value(s):
                return conv(rds[s.as_long()](*q))
            r = conv(rds[-1](*q))
            for k in range(len(rds) - 2, -1, -1):
                r = z3.If(s == k, conv(rds[k](*q)), r)
            return r

        return Arr((len(items),) + tuple(sh), CFn(rd), dt)
    if hasattr(x, "__as_arr__"):
        return x.__as_arr__()
    raise Unsupported(f"array of {type(x).__name__}")


def from_np(x):
    import numpy as np
    dt = {"f": "real", "i": "int", "u": "int", "b": "bool"}.get(x.dtype.kind, "obj")
    x = x.copy()

    def rd(*q):
        qs = [z3.simplify(toint(v)) for v in q]
        if all(z3.is_int_value(v) for v in qs):
            return term(x[tuple(v.as_long() for v in qs)].item())
        if x.size > 200:
            raise Unsupported("symbolic index into a large concrete array")
        r = None
        for idx in np.ndindex(*x.shape):
            c = z3.And([v == k for v, k in zip(qs, idx)])
            e = term(x[idx].item())
            r = e if r is None else z3.If(c, e, r)
        return r

    return Arr(x.shape, CFn(rd), dt)


def sort_dtype(s):
    return "int" if s == Int else "real" if s == Real else "bool" if s == Bool else "obj"


def dtype_name(t):
    import numpy as np
    if isinstance(t, str):
        return {"float": "real", "int": "int", "bool": "bool", "object": "obj", "real": "real"}.get(t, "real" if t.startswith("float") else "int" if t.startswith("int") else "obj")
    n = getattr(t, "__name__", getattr(t, "name", str(t)))
    if n.startswith("float") or n == "double":
        return "real"
    if n.startswith("int") or n.startswith("uint") or n == "long":
        return "int"
    if n.startswith("bool"):
        return "bool"
    return "obj"


def elementwise(fn, args, dt=None, out=None):
    if all(not isinstance(a, (Arr, PList, tuple, list)) and not (type(a).__module__ == "numpy" and getattr(a, "ndim", 0)) for a in args):
        if any(isinstance(a, FiltArr) for a in args):
            return FiltArr.elementwise(fn, args, dt)
        r = fn(*args)
        return wrap(r)
    if any(isinstance(a, FiltArr) for a in args):
        return FiltArr.elementwise(fn, args, dt)
    arrs = [as_arr(a) for a in args]
    shape = broadcast_shapes([a.shape for a in arrs])
    rds = [bcast_reader(a, shape) for a in arrs]
    cache = {}

    def rd(*q):
        # memoised: terms are hash-consed and contents immutable, but solver
        # context may differ, so the key includes the path condition
        k = tuple(x.get_id() for x in q) + (len(ctx().pc),)
        return fn(*[r(*q) for r in rds])

    if dt is None:
        dts = [a.dtype for a in arrs]
        dt = "real" if "real" in dts or fn is t_div else "int"
        if "obj" in dts:
            dt = "obj"
    if shape == ():
        return wrap(rd())
    return Arr(shape, CFn(rd), dt)


class FiltArr:
    """Elements of a 1-d base selected by a boolean mask (order kept).

    n: base length; cond(t), val(t): z3 terms for base position t.
    """

    __array_ufunc__ = None

    def __init__(self, n, cond, val, dtype="real"):
        self.n, self.cond, self.val, self.dtype = n, cond, val, dtype

    @staticmethod
    def make(a, mask, ax):
        if a.ndim == 1:
            rd, mr = a.reader(), mask.reader()
            return FiltArr(a.shape[0], lambda t: tobool(mr(t)), lambda t: rd(t), a.dtype)
        raise Unsupported("mask on a matrix")

    @staticmethod
    def elementwise(fn, args, dt=None):
        f0 = next(a for a in args if isinstance(a, FiltArr))
        gets = []
        for a in args:
            if isinstance(a, FiltArr):
                if a.cond is not f0.cond:
                    raise Unsupported("two different filters")
                gets.append(a.val)
            elif isinstance(a, Arr) and a.ndim > 0:
                raise Unsupported("filter with array")
            else:
                v = a
                gets.append(lambda t, v=v: term(v))
        return FiltArr(f0.n, f0.cond, lambda t: fn(*[g(t) for g in gets]), dt or f0.dtype)

    def _ew(fn, swap=False):
        def op(self, o):
            a, b = (o, self) if swap else (self, o)
            return FiltArr.elementwise(fn, [a, b])
        return op

    __add__ = _ew(t_add)
    __radd__ = _ew(t_add, True)
    __sub__ = _ew(t_sub)
    __rsub__ = _ew(t_sub, True)
    __mul__ = _ew(t_mul)
    __rmul__ = _ew(t_mul, True)
    __truediv__ = _ew(t_div)
    __pow__ = _ew(t_pow)

    def __subst__(self, m):
        def g(f):
            def h(t):
                fr = z3.FreshConst(Int, "fa")
                return z3.substitute(term(f(fr)), *(list(m) + [(fr, toint(t))]))
            return h
        return FiltArr(subst(self.n, m), g(self.cond), g(self.val), self.dtype)

    @property
    def shape(self):
        return (self.count(),)

    @property
    def size(self):
        return self.count()

    ndim = 1

    def any(self, axis=None):
        t = z3.FreshConst(Int, "fq")
        return wrap(z3.Exists([t], z3.And(0 <= t, t < toint(self.n), self.cond(t), tobool(self.val(t)))))

    def all(self, axis=None):
        t = z3.FreshConst(Int, "fq")
        return wrap(z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < toint(self.n), self.cond(t)), tobool(self.val(t)))))

    def count(self):
        return wrap(SUMI(self.n, lambda t: z3.If(self.cond(t), z3.IntVal(1), z3.IntVal(0))))

    def sum(self, axis=None):
        return wrap(SUM(self.n, lambda t: z3.If(self.cond(t), toreal(self.val(t)), z3.RealVal(0))))

    def mean(self, axis=None):
        return wrap(term(self.sum()) / toreal(self.count()))

    def var(self, axis=None, ddof=0):
        c = toreal(self.count())
        mu = term(self.sum()) / c
        ss = SUM(self.n, lambda t: z3.If(self.cond(t), (toreal(self.val(t)) - mu) * (toreal(self.val(t)) - mu), z3.RealVal(0)))
        return wrap(ss / (c - toreal(ddof)))

    def std(self, axis=None, ddof=0):
        return wrap(t_sqrt(term(self.var(ddof=ddof))))


class FiltMat:
    """The rows (ax 0) or columns (ax 1) of a matrix selected by a boolean mask, for reductions over that axis."""

    __array_ufunc__ = None
    ndim = 2

    def __init__(self, a, mask, ax):
        rd, mr = a.reader(), mask.reader()
        self.ax, self.dtype = ax, a.dtype
        self.other = a.shape[1 - ax]
        self.n = a.shape[ax]
        self.cond = lambda t: tobool(mr(t))
        self.val = (lambda t, j: rd(t, j)) if ax == 0 else (lambda t, j: rd(j, t))

    def reduce(self, f, axis):
        if axis not in (self.ax, self.ax - 2):
            raise Unsupported("reduction of a selection of rows along another axis")
        return Arr((self.other,), CFn(lambda j: term(f(FiltArr(self.n, self.cond, lambda t: self.val(t, j), self.dtype)))), "real")


# --------------------------------------------------------------------------
# sums

SUMF = ufn("SUM", Int, z3.ArraySort(Int, Real), Real)
SUMIF = ufn("SUMI", Int, z3.ArraySort(Int, Int), Int)
BV = z3.Const("sigma", Int)


def SUM(n, f):
    """sum_{t<n} f(t) as a normalised real term"""
    n = toint(n)
    if z3.is_int_value(n) and n.as_long() <= 16:
        return norm(sum([toreal(f(z3.IntVal(k))) for k in range(n.as_long())], z3.RealVal(0)))
    t = z3.FreshConst(Int, "s")
    C = ctx()
    save = list(C.pc)
    C.pc.extend([0 <= t, t < n])
    try:
        e = toreal(f(t))
    finally:
        C.pc[:] = save
    return sum_term(n, t, e)


def SUMI(n, f):
    return z3.ToInt(SUM(n, lambda t: toreal(f(t)))) if False else _sumi(n, f)


def _sumi(n, f):
    n = toint(n)
    t = z3.FreshConst(Int, "s")
    C = ctx()
    save = list(C.pc)
    C.pc.extend([0 <= t, t < n])
    try:
        e = toint(f(t))
    finally:
        C.pc[:] = save
    if not occurs(t, e):
        return norm(n * e) if C.valid(n >= 0) else z3.If(n > 0, n * e, z3.IntVal(0))
    return SUMIF(n, lam(t, norm(e)))


def lam(t, body):
    # one bound name, so that equal bodies are equal terms
    return z3.Lambda([BV], z3.substitute(body, (t, BV)))


def distribute_ite(e):
    return e


def sum_term(n, t, e):
    """Sum of e over t in [0,n): linear normal form with one-hot elimination."""
    n = norm(n)
    sn = z3.simplify(n)
    if z3.is_int_value(sn) and sn.as_long() <= 0:
        return z3.RealVal(0)
    if z3.is_int_value(sn) and sn.as_long() <= 4:
        return norm(z3.Sum([z3.substitute(e, (t, z3.IntVal(k))) for k in range(sn.as_long())]))
    sp = range_split(n, t, e)
    if sp is not None:
        return sp
    p = poly(e)
    groups = {}
    for mono, c in p.m.items():
        dep, free = [], []
        for a, x in mono:
            (dep if occurs(t, Poly.atoms[a]) else free).append((a, x))
        # t itself inside ToReal counts as dependent (handled by occurs)
        groups.setdefault(tuple(dep), []).append((tuple(free), c))
    res = Poly()
    for dep, frees in groups.items():
        co = Poly({f: c for f, c in frees})
        if not dep:
            res = res + co * poly(z3.ToReal(n))
            continue
        body = unpoly(Poly({dep: core.fractions.Fraction(1)}), True)
        s = onehot(n, t, dep, body)
        if s is None:
            s = SUMF(n, lam(t, body))
            res = res + co * Poly.atom(s)
        else:
            res = res + co * poly(s)
    return unpoly(res, True)


def threshold(t, c):
    """c compares t with something free of t -> (b, up): c <=> t >= b if up else t < b"""
    if z3.is_not(c):
        r = threshold(t, c.arg(0))
        return None if r is None else (r[0], not r[1])
    k = c.decl().kind()
    if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) or c.arg(0).sort() != Int:
        return None
    a, b = c.arg(0), c.arg(1)
    if k in (z3.Z3_OP_LE, z3.Z3_OP_LT):
        a, b = b, a  # a >= b or a > b
    strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
    d = poly(a) - poly(b)  # d >= 0 or d > 0
    if strict:
        d = d + Poly.const(-1)
    cf = coeff(d, t)
    if cf is None or not cf[0].is_const() or abs(cf[0].const_val()) != 1:
        return None
    rest = unpoly(cf[1], False)
    if occurs(t, rest):
        return None
    if cf[0].const_val() == 1:  # t >= -rest
        return norm(-rest), True
    return norm(rest + 1), False  # t <= rest


def ite_conds(e, out, seen):
    if e.get_id() in seen or z3.is_quantifier(e):
        return
    seen.add(e.get_id())
    if e.decl().kind() == z3.Z3_OP_ITE:
        st = [e.arg(0)]
        while st:
            c = st.pop()
            if z3.is_and(c) or z3.is_or(c) or (z3.is_not(c) and not z3.is_eq(c.arg(0))):
                st.extend(c.children())
            elif z3.is_app(c) and c.num_args() == 2:
                out.append(c)
    for x in e.children():
        ite_conds(x, out, seen)


def range_split(n, t, e):
    """sum over [0,n) of a body that switches at a threshold: two plain sums"""
    cs = []
    ite_conds(e, cs, set())
    for c in cs:
        if not occurs(t, c):
            continue
        th = threshold(t, c)
        if th is None:
            continue
        b, up = th
        C = ctx()
        if not C.valid(z3.And(0 <= b, b <= n)):
            at = up if C.valid(b <= 0) else (not up) if C.valid(b >= n) else None
            if at is None:
                continue
            # the same branch over the whole range
            return sum_term(n, t, norm(simp_ite(z3.substitute(e, (c, z3.BoolVal(at))))))
        hi = z3.substitute(e, (c, z3.BoolVal(up)))
        lo = z3.substitute(e, (c, z3.BoolVal(not up)))
        hi = z3.substitute(simp_ite(hi), (t, t + b))
        lo = simp_ite(lo)

        def part(m, body):
            save = list(C.pc)
            C.pc.extend([0 <= t, t < m])
            try:
                nb = norm(body)
            finally:
                C.pc[:] = save
            return sum_term(m, t, nb)  # the range may be empty

        return norm(part(b, lo) + part(norm(n - b), hi))
    return None


def ite_parts(a):
    """atom -> (cond, then, else) when it is (a cast of) an If with a zero branch"""
    if a.decl().kind() == z3.Z3_OP_TO_REAL:
        r = ite_parts(a.arg(0))
        if r is None:
            return None
        return r[0], z3.ToReal(r[1]) if r[1].sort() == Int else r[1], z3.ToReal(r[2]) if r[2].sort() == Int else r[2]
    if a.decl().kind() == z3.Z3_OP_ITE:
        return a.arg(0), a.arg(1), a.arg(2)
    return None


def is_zero(t):
    s = z3.simplify(t)
    return (z3.is_int_value(s) and s.as_long() == 0) or (z3.is_rational_value(s) and s.as_fraction() == 0)


def conjuncts(c):
    if z3.is_and(c):
        return [x for y in c.children() for x in conjuncts(y)]
    return [c]


def solve_for(t, c):
    """c: equality linear in t with coefficient +-1 -> the solution"""
    if not z3.is_eq(c) or c.arg(0).sort() != Int:
        return None
    d = poly(c.arg(0)) - poly(c.arg(1))
    cf = coeff(d, t)
    if cf is None or not cf[0].is_const() or abs(cf[0].const_val()) != 1:
        return None
    return unpoly(cf[1].scale(-cf[0].const_val()), False)


def onehot(n, t, dep, body):
    for a, x in dep:
        at = Poly.atoms[a]
        pr = ite_parts(at)
        if pr is None or x < 0:
            continue
        c, th, el = pr
        if is_zero(el):
            for cj in conjuncts(c):
                s = solve_for(t, cj)
                if s is not None:
                    rest = z3.substitute(body, (t, s))
                    rest = z3.simplify(rest) if False else rest
                    inr = z3.And(0 <= s, s < n)
                    if ctx().valid(inr):
                        return norm(simp_ite(rest))
                    return z3.If(inr, norm(simp_ite(rest)), z3.RealVal(0))
        elif is_zero(th):
            # If(c, 0, e): e - If(c, e, 0)
            for cj in conjuncts(c):
                s = solve_for(t, cj)
                if s is not None and len(conjuncts(c)) == 1:
                    r = poly(body)
                    # body = If(c,0,e)^x * others; replace by e^x*others minus value at s
                    full = z3.substitute(body, (at, el))
                    sv = z3.substitute(full, (t, s))
                    inr = z3.And(0 <= s, s < n)
                    tail = norm(sv) if ctx().valid(inr) else z3.If(inr, norm(sv), z3.RealVal(0))
                    return sum_term(n, t, full) - tail
    # general If with non-zero branches and a one-hot condition
    for a, x in dep:
        at = Poly.atoms[a]
        pr = ite_parts(at)
        if pr is None or x != 1:
            continue
        c, th, el = pr
        if len(conjuncts(c)) == 1 and solve_for(t, c) is not None:
            s = solve_for(t, c)
            f_el = z3.substitute(body, (at, el))
            f_th = z3.substitute(body, (at, th))
            inr = z3.And(0 <= s, s < n)
            d = z3.substitute(f_th - f_el, (t, s))
            d = norm(d) if ctx().valid(inr) else z3.If(inr, norm(d), z3.RealVal(0))
            return sum_term(n, t, f_el) + d
    return None


def simp_ite(t):
    return z3.simplify(t, som=False, arith_ite_to_minmax=False) if True else t


def _norm_sum(t):
    n, l = t.arg(0), t.arg(1)
    if not z3.is_quantifier(l):
        return t.decl()(norm(n), l)
    v = z3.FreshConst(Int, "sn")
    body = z3.substitute_vars(l.body(), v)
    C = ctx()
    save = list(C.pc)
    C.pc.extend([0 <= v, v < n])
    try:
        nb = norm(body)
    finally:
        C.pc[:] = save
    return sum_term(n, v, nb)  # the range may be empty


_in_norm = [0]


def _norm_sum_guard(t):
    # a SUM over an already normal body must map to itself (fixpoint)
    r = _norm_sum(t)
    return r


_sum_norm[0] = _norm_sum_guard


# --------------------------------------------------------------------------
# lists, ranges, dicts


class ListState:
    __slots__ = ("items", "length", "content")

    def __init__(self, items=None, length=None, content=None):
        self.items, self.length, self.content = items, length, content

    def symbolic(self):
        if self.items is None:
            return self
        items = self.items
        if not items:
            return ListState(None, z3.IntVal(0), CEmpty())

        def rd(i):
            s = z3.simplify(toint(i))
            if z3.is_int_value(s):
                return items[s.as_long()]
            if not items:
                raise Unsupported("read from an empty list")
            if all(is_scalar(x) for x in items):
                r = term(items[-1])
                for k in range(len(items) - 2, -1, -1):
                    r = z3.If(s == k, *coerce2(items[k], r))
                return r
            for k, x in enumerate(items[:-1]):
                if ctx().decide(s == k):
                    return x
            return items[-1]

        return ListState(None, z3.IntVal(len(items)), CFn(rd))


class PList:
    ro = False

    def __init__(self, it=()):
        self.ref = None
        if isinstance(it, PList):
            st = heap_get(it.ref)
            self.ref = alloc(st)
        elif isinstance(it, SymRange):
            if isinstance(it.n, int):
                self.ref = alloc(ListState(items=tuple(it)))
            else:
                self.ref = alloc(ListState(length=toint(it.n), content=CFn(lambda i: it.at(i))))
        elif isinstance(it, Arr):
            n = it.shape[0]
            if isinstance(n, int):
                self.ref = alloc(ListState(items=tuple(it)))
            else:
                c = it.snapshot_content()
                if it.ndim == 1:
                    self.ref = alloc(ListState(length=toint(n), content=c))
                else:
                    raise Unsupported("list(matrix)")
        elif isinstance(it, SymIter):
            n, at = it.n, it.at
            if isinstance(n, int):
                self.ref = alloc(ListState(items=tuple(at(k) for k in range(n))))
            else:
                self.ref = alloc(ListState(length=toint(n), content=CFn(lambda i: unwrap_obj(at(i)))))
        elif isinstance(it, (SymSet,)):
            raise Unsupported("list(set)")
        elif isinstance(it, PDict):
            self.ref = alloc(ListState(items=tuple(it.keys())))
        else:
            self.ref = alloc(ListState(items=tuple(it)))

    @staticmethod
    def sym(length, fn, ro=False):
        l = PList.__new__(PList)
        l.ref = alloc(ListState(length=toint(length), content=CFn(fn)))
        l.ro = ro
        return l

    @property
    def st(self):
        return heap_get(self.ref)

    def length(self):
        st = self.st
        return len(st.items) if st.items is not None else wrapdim(st.length)

    def __len__(self):
        n = self.length()
        return n if isinstance(n, int) else n.__index__()

    def _np(op):
        # a list and a NumPy scalar: NumPy turns the list into an array
        def f(self, o):
            return getattr(as_arr(self), op)(o) if isinstance(o, (Sc, Arr)) else NotImplemented
        return f

    __truediv__, __rtruediv__, __sub__, __rsub__, __pow__ = map(_np, ("__truediv__", "__rtruediv__", "__sub__", "__rsub__", "__pow__"))

    def __bool__(self):
        n = self.length()
        if isinstance(n, int):
            return n > 0
        return bool(n > 0)

    def get(self, i):
        st = self.st
        if st.items is not None:
            s = z3.simplify(toint(i))
            if z3.is_int_value(s):
                return st.items[s.as_long()]
            return to_py(st.symbolic().content.read((s,)))
        return to_py(st.content.read((toint(i),)))

    def __getitem__(self, k):
        st = self.st
        if isinstance(k, slice):
            if st.items is not None and not any(isinstance(x, Sc) for x in (k.start, k.stop, k.step)):
                return PList(st.items[k])
            s = st.symbolic()
            start, step, n = slice_range(k, wrapdim(s.length))
            c = s.content
            return PList.sym(n, lambda i: c.read((start + toint(step) * i,)))
        if st.items is not None and not isinstance(k, Sc) and not isinstance(k, Arr):
            return st.items[k]
        if isinstance(k, (Arr,)):
            k = k.item()
        return self.get(norm_index(k, self.length()))

    def __setitem__(self, k, v):
        if self.ro:
            raise Unsupported("write to a substituted list")
        st = self.st
        if st.items is not None and isinstance(k, int):
            l = list(st.items)
            l[k] = v
            ctx().heap[self.ref] = ListState(items=tuple(l))
            return
        if isinstance(k, slice):
            if st.items is not None and isinstance(v, PList) and v.st.items is not None:
                l = list(st.items)
                l[k] = list(v.st.items)
                ctx().heap[self.ref] = ListState(items=tuple(l))
                return
            raise Unsupported("list slice assignment")
        s = st.symbolic()
        i = norm_index(k, wrapdim(s.length))
        ctx().heap[self.ref] = ListState(None, s.length, chain(s.content, [Fam((), [], z3.BoolVal(True), (i,), unwrap_obj(v))]))

    def append(self, v):
        if self.ro:
            raise Unsupported("append to a substituted list")
        st = self.st
        if st.items is not None:
            ctx().heap[self.ref] = ListState(items=st.items + (v,))
            return
        ctx().heap[self.ref] = ListState(None, norm(st.length + 1), chain(st.content, [Fam((), [], z3.BoolVal(True), (st.length,), unwrap_obj(v))]))

    def extend(self, o):
        if isinstance(o, PList) and getattr(o, "origin", None) is not None and o.st.items is None:
            st, so = self.st.symbolic(), o.st
            u = z3.FreshConst(Int, "u")
            at, i = o.origin
            ctx().heap[self.ref] = ListState(None, norm(st.length + so.length), chain(st.content, [Fam((u,), [(z3.IntVal(0), so.length)], z3.BoolVal(True), (norm(st.length + u),), Lazy(at, i, u))]))
            return
        r = self + PList(o)
        ctx().heap[self.ref] = r.st

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        if not isinstance(o, PList):
            if isinstance(o, Arr):
                return o.__radd__(self)
            raise TypeError("can only concatenate list")
        a, b = self.st, o.st
        if a.items is not None and b.items is not None:
            return PList(a.items + b.items)
        a, b = a.symbolic(), b.symbolic()
        la, ca, cb = a.length, a.content, b.content

        def rd(i):
            C = ctx()
            if C.valid(i < la):
                return ca.read((i,))
            if C.valid(i >= la):
                return cb.read((norm(i - la),))
            save = list(C.pc)
            C.pc.append(i < la)
            x = ca.read((i,))
            C.pc[:] = save
            C.pc.append(i >= la)
            y = cb.read((norm(i - la),))
            C.pc[:] = save
            return join(i < la, lambda: x, y)

        return PList.sym(norm(la + b.length), rd)

    def __mul__(self, n):
        st = self.st
        if isinstance(n, int) and st.items is not None:
            return PList(st.items * n)
        if st.items is not None and len(st.items) == 1:
            v = st.items[0]
            return PList.sym(toint(n), lambda i: v)
        raise Unsupported("list * n")

    __rmul__ = __mul__

    def __iter__(self):
        st = self.st
        if st.items is not None:
            return iter(st.items)
        raise Unsupported("native iteration over a symbolic list")

    def __contains__(self, v):
        return bool(contains(v, self))

    def index(self, v):
        st = self.st
        if st.items is not None and all(isinstance(x, (str, int)) for x in st.items) and isinstance(v, (str, int)):
            return st.items.index(v)
        s = st.symbolic()
        C = ctx()
        vt = term(v)
        c = s.content
        n = toint(s.length)
        k = z3.FreshConst(Int, "li")
        pat = c.read((k,))
        if pat.sort() == vt.sort() and z3.is_app(pat) and pat.num_args() and vt.decl().eq(pat.decl()) and pat.arg(pat.num_args() - 1).eq(k):
            q = vt.arg(vt.num_args() - 1)  # v is the element at q
            if C.valid(z3.And(0 <= q, q < n, c.read((q,)) == vt), 2000):
                if C.valid(z3.Implies(z3.And(0 <= k, k < q), pat != vt), 2000):
                    return wrap(q)
        if not wrap(z3.Exists([k], z3.And(0 <= k, k < n, t_eq(pat, vt)))):
            raise ValueError("not in list")
        r = C.fresh("lindex", Int)
        C.assume(z3.And(0 <= r, r < s.length, t_eq(c.read((r,)), vt)))
        k = z3.FreshConst(Int, "li")
        C.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < r), z3.Not(t_eq(c.read((k,)), vt)))))
        return Sc(r)

    def copy(self):
        return PList(self)

    def insert(self, i, v):
        st = self.st
        if st.items is None or not isinstance(i, int):
            raise Unsupported("insert")
        l = list(st.items)
        l.insert(i, v)
        ctx().heap[self.ref] = ListState(items=tuple(l))

    def pop(self, i=-1):
        st = self.st
        if st.items is None:
            raise Unsupported("pop")
        l = list(st.items)
        v = l.pop(i)
        ctx().heap[self.ref] = ListState(items=tuple(l))
        return v

    def sort(self, *a, **k):
        raise Unsupported("list.sort")

    def __eq__(self, o):
        if o is None:
            return False
        if isinstance(o, PList):
            if o.ref == self.ref:
                return True
            a, b = self.st, o.st
            if a.items is not None and b.items is not None:
                if len(a.items) != len(b.items):
                    return False
                return all(bool(x == y) for x, y in zip(a.items, b.items))
            a, b = a.symbolic(), b.symbolic()
            k = z3.FreshConst(Int, "le")
            x, y = a.content.read((k,)), b.content.read((k,))
            if is_scalar(x) and is_scalar(y):
                return wrap(z3.And(a.length == b.length, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < a.length), t_eq(x, y)))))
            raise Unsupported("list equality")
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else py_not(r)

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return f"PList#{self.ref}"


def unwrap_obj(v):
    if isinstance(v, Sc):
        return v.t
    return v


def py_not(x):
    if isinstance(x, Sc):
        return wrap(z3.Not(tobool(x)))
    if isinstance(x, Arr):
        return wrap(z3.Not(tobool(x.__scalar__())))
    return not x


def contains(v, c):
    if isinstance(c, PList):
        st = c.st
        if st.items is not None:
            if not isinstance(v, Sc) and all(not isinstance(x, Sc) for x in st.items):
                return v in st.items
            r = z3.Or([t_eq(v, x) for x in st.items] + [z3.BoolVal(False)])
            return wraps(r)
        k = z3.FreshConst(Int, "in")
        e = st.content.read((k,))
        return wrap(z3.Exists([k], z3.And(0 <= k, k < st.length, t_eq(e, v))))
    if isinstance(c, Arr):
        return contains(v, PList(c)) if c.ndim == 1 else _unsup("in matrix")
    if isinstance(c, (PDict, SymDict, SymSet)):
        return c.__contains__(v)
    if isinstance(c, str) and isinstance(v, Sc):
        return wrap(ufn("str_contains", Obj, Obj, Bool)(term(c), v.t))
    if isinstance(c, Sc) and c.t.sort() == Obj:
        return wrap(ufn("str_contains", Obj, Obj, Bool)(c.t, term(v)))
    if isinstance(c, tuple):
        if isinstance(v, Sc) or any(isinstance(x, Sc) for x in c):
            return wraps(z3.Or([t_eq(v, x) for x in c] + [z3.BoolVal(False)]))
    return v in c


def _unsup(m):
    raise Unsupported(m)


class SymRange:
    def __init__(self, *a):
        if len(a) == 1:
            a = (0, a[0], 1)
        elif len(a) == 2:
            a = (a[0], a[1], 1)
        self.start, self.stop, self.step = a
        st, sp, se = (toint(x) for x in a)
        ss = z3.simplify(se)
        C = ctx()
        if z3.is_int_value(ss):
            k = ss.as_long()
            if k == 1:
                n = norm(sp - st)
            elif k == -1:
                n = norm(st - sp)
            elif k > 0:
                n, _ = split_div(norm(sp - st + k - 1), z3.IntVal(k))
            else:
                n, _ = split_div(norm(st - sp - k - 1), z3.IntVal(-k))
        else:
            if not is_pos(se):
                raise Unsupported("range step")
            n, _ = split_div(norm(sp - st + se - 1), se)
        sn = z3.simplify(n)
        if z3.is_int_value(sn):
            n = z3.IntVal(max(0, sn.as_long()))
        elif not C.valid(n >= 0):
            n = z3.If(n > 0, n, z3.IntVal(0))
        self.n = wrapdim(n)

    def at(self, i):
        r = norm(toint(self.start) + toint(self.step) * toint(i))
        return r

    def __iter__(self):
        n = self.n
        if not isinstance(n, int):
            raise Unsupported("native iteration over a symbolic range")
        for k in range(n):
            yield wraps(self.at(k))

    def length(self):
        return self.n

    def __len__(self):
        if isinstance(self.n, int):
            return self.n
        return self.n.__index__()

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.start is None and k.stop is None and k.step == -1:
                return SymIter(self.n, lambda i: wrap(self.at(toint(self.n) - 1 - toint(i))))
            raise Unsupported("slice of range")
        return wrap(self.at(norm_index(k, self.n)))


class SymIter:
    """(n, at) iterable produced by enumerate/zip/..."""

    def __init__(self, n, at, width=None):
        self.n, self.at = n, at
        self.width = width  # length of the tuples produced, when it is one number

    def __iter__(self):
        if not isinstance(self.n, int):
            raise Unsupported("native iteration over a symbolic iterable")
        for k in range(self.n):
            yield self.at(k)


class SymSet:
    """set(list): elements of a symbolic list"""

    def __init__(self, src=None, items=None):
        self.src = src
        self.items = items

    def __len__(self):
        return self.length().__index__()

    def length(self):
        from . import npshim
        return npshim.unique_count(self.src)

    def __contains__(self, v):
        return contains(v, self.src)

    def __subst__(self, m):
        return SymSet(subst(self.src, m))


class SymDict:
    """dict built from pairs (key(k), val(k)), k<n: a later pair wins over an earlier one with the same key"""

    def __init__(self, n, key, val):
        self.n, self.key, self.val = n, key, val

    def __subst__(self, m):
        def g(f):
            def h(t):
                fr = z3.FreshConst(Int, "sdk")
                return subst(f(fr), list(m) + [(fr, toint(t))])
            return h
        return SymDict(subst(self.n, m), g(self.key), g(self.val))

    def __getitem__(self, x):
        k = self.find(term(x))
        if k is None:
            raise KeyError(x)
        return to_py(self.val(k))

    def find(self, xt):
        """the index whose pair gives the value of key xt, or None"""
        C = ctx()
        n = toint(self.n)
        a, b = z3.FreshConst(Int, "da"), z3.FreshConst(Int, "db")
        pat = self.key(a)
        if xt.sort() != pat.sort():
            return None
        inr = lambda k: z3.And(0 <= k, k < n)
        one = C.valid(z3.Implies(z3.And(inr(a), inr(b), a != b), pat != self.key(b)), 3000)
        if one:
            r = app_inverse(pat, xt, [a])
            if r is not None and C.valid(z3.And(r[2], inr(r[1])), 3000):
                return r[1]
            if z3.is_app(pat) and pat.num_args() and z3.is_app(xt) and xt.decl().eq(pat.decl()) and pat.arg(pat.num_args() - 1).eq(a):
                k = xt.arg(xt.num_args() - 1)
                if C.valid(z3.And(inr(k), self.key(k) == xt), 3000):
                    return k
        q = z3.FreshConst(Int, "in")
        if not wrap(z3.Exists([q], z3.And(inr(q), self.key(q) == xt))):
            return None
        k = C.fresh("dkey", Int)
        C.assume(z3.And(inr(k), self.key(k) == xt))
        if not one:
            C.assume(z3.ForAll([q], z3.Implies(z3.And(k < q, q < n), self.key(q) != xt)))
        return k

    def __contains__(self, v):
        q = z3.FreshConst(Int, "in")
        return wrap(z3.Exists([q], z3.And(0 <= q, q < toint(self.n), self.key(q) == term(v)))).__bool__()


_MISSING = object()
FAM = "\0family"
PEND = "\0pending"  # the one write of a symbolic key by this iteration of a loop


def pairs(src):
    """SymDict of a list of pairs of symbolic length, or None"""
    if isinstance(src, (PList, SymIter)):
        from . import loops
        n, at = loops.as_iter(src)
        if not isinstance(n, int):
            return SymDict(n, lambda t: term(at(toint(t))[0]), lambda t: at(toint(t))[1])
    return None


class PDict:
    ro = False

    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        o.ref = None
        return o

    def __init__(self, *a, **k):
        d = {}
        if a:
            src = a[0]
            if isinstance(src, PDict):
                d.update(heap_get(src.ref))
            elif isinstance(src, dict):
                d.update(src)
            else:
                fam = pairs(src)
                if fam is not None:
                    d[FAM] = fam
                else:
                    for kk, v in src:
                        d[kk] = v
        d.update(k)
        self.ref = alloc(d)

    def _base(self):
        """explicit entries, or None if the dict also has a family of symbolic keys"""
        d = self._d
        if FAM in d or PEND in d:
            raise Unsupported("going through a dict with symbolic keys")
        return d

    @property
    def _d(self):
        return heap_get(self.ref)

    def _set(self, d):
        if self.ro:
            raise Unsupported("write to a substituted dict")
        ctx().heap[self.ref] = d

    def _k(self, k):
        if PEND in self._d:
            raise Unsupported("dict read in the loop that fills it")
        if isinstance(k, Sc):
            s = z3.simplify(k.t)
            if z3.is_int_value(s):
                return s.as_long()
            if FAM in self._d:
                return k
            raise Unsupported("symbolic dict key")
        return k

    def _other(self, k, what):
        """key k is not one of the explicit keys"""
        if isinstance(k, Sc):
            for e in what:
                if e is not FAM and isinstance(e, str) and k.t.sort() == Obj and not ctx().valid(k.t != term(e), 2000):
                    raise Unsupported("symbolic dict key that may be an explicit one")
        return k

    def __getitem__(self, k):
        k = self._k(k)
        d = self._d
        if FAM in d and (isinstance(k, Sc) or k not in d):
            return d[FAM][self._other(k, d)]
        if k not in d:
            if hasattr(type(self), "__missing__"):
                return self.__missing__(k)
            e = KeyError(k)
            raise e
        return d[k]

    def __setitem__(self, k, v):
        d = dict(self._d)
        if isinstance(k, Sc) and ctx().loopvars and (not d or d == {PEND: None}):
            d[PEND] = (k.t, v)
            return self._set(d)
        k = self._k(k)
        if FAM in d:
            if isinstance(k, Sc):
                raise Unsupported("symbolic dict key")
            t = z3.FreshConst(Int, "fk")
            f = d[FAM]
            x = f.key(t)
            if k not in d and isinstance(k, str) and x.sort() == Obj and not ctx().valid(z3.Implies(z3.And(0 <= t, t < toint(f.n)), x != term(k)), 2000):
                raise Unsupported("explicit dict key that may be one of the symbolic ones")
        d[k] = v
        self._set(d)

    def __delitem__(self, k):
        d = dict(self._d)
        del d[k]
        self._set(d)

    def __contains__(self, k):
        k = self._k(k)
        d = self._d
        return (not isinstance(k, Sc) and k in d) or (FAM in d and k in d[FAM])

    def get(self, k, default=None):
        if FAM in self._d:
            return self[k] if k in self else default
        return self._d.get(self._k(k), default)

    def setdefault(self, k, v=None):
        if k not in self._d:
            self[k] = v
        return self[k]

    def update(self, o=(), **kw):
        d = dict(self._d)
        if isinstance(o, PDict):
            d.update(o._d)
        elif isinstance(o, dict):
            d.update(o)
        else:
            for k, v in o:
                d[k] = v
        d.update(kw)
        self._set(d)

    def pop(self, k, *a):
        d = dict(self._d)
        r = d.pop(k, *a)
        self._set(d)
        return r

    def keys(self):
        return list(self._base().keys())

    def values(self):
        return list(self._base().values())

    def items(self):
        return list(self._base().items())

    def copy(self):
        return PDict(self)

    def __iter__(self):
        return iter(list(self._base()))

    def __len__(self):
        return len(self._base())

    def __bool__(self):
        return bool(self._d)

    def length(self):
        return len(self._base())

    def __eq__(self, o):
        return self is o or (isinstance(o, PDict) and o.ref == self.ref)

    def __hash__(self):
        return id(self)
