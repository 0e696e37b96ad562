"""Summarisation of `for` loops over symbolic ranges (no invariant is written by
hand: the summary *is* the inferred inductive invariant, and every step that makes
it inductive is discharged by the solver: closed forms of scalars, non-interference
of the write families of different iterations)."""
import z3
from .core import *
from .arrays import *
from . import arrays as A


class _Unbound:
    def __repr__(self):
        return "UNBOUND"

    def __bool__(self):
        raise NameError("unbound variable")

    def __getattr__(self, n):
        raise NameError("unbound variable")


UNBOUND = _Unbound()


class Poison:
    """Loop-carried value that could not be summarised; any use is unsupported."""

    def __init__(self, why):
        object.__setattr__(self, "_why", why)

    def _bad(self, *a, **k):
        raise Unsupported(object.__getattribute__(self, "_why"))

    __getitem__ = __setitem__ = __call__ = __bool__ = __len__ = __iter__ = _bad
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __lt__ = __gt__ = __le__ = __ge__ = __eq__ = __ne__ = _bad
    __truediv__ = __rtruediv__ = __index__ = __contains__ = __neg__ = __hash__ = _bad

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        self._bad()


class Ret:
    def __init__(self, value):
        self.value = value


class _Break:
    pass


BREAK = _Break()


class Touch:
    def __init__(self):
        self.hit = False


class CPre(Content):
    """content of an array at the start of generic iteration i (pass 1: unknown)"""

    def __init__(self, base, key, nargs_getter, touch, sort_of):
        self.base, self.key, self.touch = base, key, touch
        self.sort_of = sort_of
        self.fams = None
        self.fns = {}

    def read(self, q):
        if self.fams is not None:
            return self.resolve(q)
        self.touch.hit = True
        v = self.base.read(q)
        if not is_scalar(v):
            return Poison("array element carried between loop iterations")
        s = term(v).sort()
        lv = tuple(ctx().loopvars)
        k = (len(q), s)
        if k not in self.fns:
            self.fns[k] = z3.Function(f"pre!{self.key}", *([Int] * (len(lv) + len(q))), s)
        self.nlv = len(lv)
        return self.fns[k](*(lv + tuple(toint(x) for x in q)))

    def resolve(self, q):
        # earlier iterations only
        return read_fams(self.base, self.fams, q)


def as_iter(it):
    """-> (n, at) ; n python int or Sc"""
    if isinstance(it, SymRange):
        return it.n, lambda i: wrap(it.at(i))
    if isinstance(it, SymIter):
        return it.n, it.at
    if isinstance(it, PList):
        st = it.st
        if st.items is not None:
            items = st.items
            return len(items), lambda k: items[k]
        c = st.content
        return wrapdim(st.length), lambda i: to_py(c.read((toint(i),)))
    if isinstance(it, Arr):
        if it.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        return it.shape[0], lambda i: it[wrap(toint(i))]
    if isinstance(it, PDict):
        ks = it.keys()
        return len(ks), lambda k: ks[k]
    if isinstance(it, SymSet):
        raise Unsupported("iteration over a set")
    if isinstance(it, Poison):
        it._bad()
    if isinstance(it, FiltArr):
        raise Unsupported("iteration over filtered array")
    if isinstance(it, Sc):
        raise TypeError("not iterable")
    if hasattr(it, "__sym_iter__"):
        return it.__sym_iter__()
    l = list(it)
    return len(l), lambda k: l[k]


import itertools
_uniq = itertools.count()


def for_loop(it, body, get, set_, names, lineno):
    n, at = as_iter(it)
    C = ctx()
    if not isinstance(n, int):
        s = z3.simplify(toint(n))
        if z3.is_int_value(s):
            n = s.as_long()
    if isinstance(n, int):
        if n > 5000:
            raise Unsupported("long concrete loop")
        for k in range(n):
            r = body(at(k))
            if r is BREAK:
                return BREAK
            if isinstance(r, Ret):
                return r
        return None
    # is it provably small? (e.g. a single iteration)
    return symbolic_loop(toint(n), at, body, get, set_, names, lineno)


def _mergeable(a, b):
    return is_scalar(a) and is_scalar(b)


def symbolic_loop(n, at, body, get, set_, names, lineno):
    C = ctx()
    n = norm(n)
    init = get()
    heap0 = dict(C.heap)
    i = z3.Const(C.name(f"i{lineno}"), Int)
    carried = {}  # name -> z3 const (havoc) | Poison
    clos = {}  # name -> closed-form fn(i) -> value at start of iteration i
    dicts = {}  # ref of a dict filled by the loop
    entries = {}  # ref of a dict -> entries that every iteration sets to the same objects
    pre = {}  # ref -> CPre
    touch = Touch()
    known = {}  # ref -> fams (pass >= 2)
    counter0 = dict(C.counter)
    for attempt in range(8):
        C.counter = dict(counter0)
        snap = C.snapshot()
        if attempt == 0:
            safe0 = len(C.safety)
        del C.safety[safe0:]
        touch.hit = False
        # ---- start state of generic iteration i
        start = []
        for nm, v0 in zip(names, init):
            if nm in clos:
                v = clos[nm](i)
                start.append(v if isinstance(v, Poison) else wrap(v))
            elif nm in carried:
                start.append(carried[nm] if isinstance(carried[nm], Poison) else wrap(carried[nm]))
            else:
                start.append(v0)
        C.loopvars = C.loopvars + [i]
        C.pc = C.pc + [0 <= i, i < n]
        for ref, p in pre.items():
            st0 = heap0[ref]
            if isinstance(st0, dict):
                C.heap[ref] = {A.PEND: None}
                continue
            if isinstance(st0, ListState):
                ln = clos[("len", ref)](i) if ("len", ref) in clos else carried[("len", ref)]
                C.heap[ref] = ListState(None, toint(ln), p)
            else:
                C.heap[ref] = p
        for ref, add in entries.items():
            C.heap[ref] = {**heap0[ref], **{k: Poison(f"entry {k!r} set by an earlier iteration") for k in add}}
        base_heap = dict(C.heap)
        base_pc = len(C.pc)

        def run():
            set_(tuple(start))
            item = at(i)
            if isinstance(item, PList) and item.st.items is None:
                item.origin = (at, i)
            r = body(item)
            return r, get()

        was = C.tentative
        C.tentative = was or any(nm not in clos and not isinstance(carried[nm], Poison) for nm in carried)
        try:
            outs = C.explore(run)
        finally:
            C.tentative = was
        restored = C.counter
        C.restore(snap)
        C.counter = restored
        changed = False
        # ---- what did the body change?
        normal = []
        raises = []
        for o in outs:
            A.FROZEN.update({r: c for r, c in o.heap.items() if r not in heap0})
            o.rel = [x for x in o.pc[base_pc:] if x.get_id() not in C.assumed]
            if o.kind == "raise":
                if o.suspect:
                    raise o.value
                raises.append(o)
                continue
            r, after = o.value
            if r is BREAK or isinstance(r, Ret):
                raise Unsupported(f"break/return inside a symbolic loop (line {lineno})")
            o.after = after
            normal.append(o)
        # scalars / references
        for k, nm in enumerate(names):
            if nm in clos or nm in carried and isinstance(carried[nm], Poison):
                continue
            for o in normal:
                v1 = o.after[k]
                v0 = start[k]
                if v1 is v0:
                    continue
                if is_scalar(v0) and is_scalar(v1) and term(v0).eq(term(v1)):
                    continue
                if nm not in carried:
                    changed = True
                    if is_scalar(v0) and is_scalar(v1):
                        a, b = coerce2(v0, v1)
                        carried[nm] = z3.FreshConst(a.sort(), f"c_{nm}")
                    else:
                        carried[nm] = Poison(f"value of `{nm}` from an earlier iteration (line {lineno})")
                    break
        # heap
        for o in normal:
            for ref, c in o.heap.items():
                if ref not in heap0 or c is base_heap.get(ref):
                    continue
                if ref in pre:
                    continue
                c0 = heap0[ref]
                was_changed, changed = changed, True
                if isinstance(c0, dict):
                    if not c0 and A.PEND in c:
                        dicts[ref] = pre[ref] = CPre(CFn(lambda *q: z3.IntVal(0)), next(_uniq), None, touch, None)
                        continue
                    add = {k: x for k, x in c.items() if k not in c0} if all(c.get(k, c0) is x for k, x in c0.items()) else None
                    if add and A.PEND not in c and A.FAM not in c and all(outlives(x, heap0) for x in add.values()):
                        add.update(entries.get(ref, {}))
                        if ref in entries and set(add) == set(entries[ref]) and all(same_entry(x, c[k]) for k, x in entries[ref].items() if k in c):
                            changed = was_changed
                        entries[ref] = add
                        continue
                    raise Unsupported(f"dict modified in a symbolic loop (line {lineno})")
                if isinstance(c0, ListState):
                    s0 = c0.symbolic()
                    pre[ref] = CPre(s0.content, next(_uniq), None, touch, None)
                    carried[("len", ref)] = z3.FreshConst(Int, "len")
                else:
                    pre[ref] = CPre(c0, next(_uniq), None, touch, None)
        if changed:
            continue
        # ---- closed forms
        new = False
        unresolved = [nm for nm in carried if nm not in clos and not isinstance(carried[nm], Poison)]
        for nm in unresolved:
            cst = carried[nm]
            if isinstance(nm, tuple):
                v0 = term(heap0[nm[1]].symbolic().length)
                finals = [toint(o.heap[nm[1]].length) for o in normal]
            else:
                k = names.index(nm)
                v0 = init[k]
                finals = [o.after[k] for o in normal]
                if not all(is_scalar(f) for f in finals) or not is_scalar(v0):
                    carried[nm] = Poison(f"loop-carried `{nm}`")
                    new = True
                    continue
                finals = [coerce2(f, cst)[0] for f in finals]
                v0 = coerce2(v0, cst)[0]
            others = [carried[x] for x in unresolved if x != nm]
            f = closed_form(nm, cst, v0, finals, normal, i, n, others)
            if f is not None:
                clos[nm] = f
                new = True
        if new:
            continue
        still = [nm for nm in carried if nm not in clos and not isinstance(carried[nm], Poison)]
        if still and C.recursive and not any(isinstance(nm, tuple) for nm in still):
            if recursive(still, carried, clos, names, init, normal, i, n):
                continue
        if still:
            for nm in still:
                if isinstance(nm, tuple):
                    raise Unsupported(f"list length not summarisable (line {lineno})")
                carried[nm] = Poison(f"loop-carried `{nm}` (line {lineno})")
            continue
        # ---- families of writes
        fams = {}
        for ref in pre:
            fs = []
            if ref in dicts:
                fams[ref] = []
                continue
            for o in normal:
                c = o.heap.get(ref)
                if isinstance(c, ListState):
                    c = c.content
                if c is pre[ref]:
                    continue
                if not (isinstance(c, CChain) and c.base is pre[ref]):
                    raise Unsupported(f"array replaced in a symbolic loop (line {lineno})")
                g = z3.And(o.rel) if o.rel else z3.BoolVal(True)
                for fm in c.fams:
                    fs.append(Fam(fm.vars, fm.ranges, z3.And(g, fm.guard) if o.rel else fm.guard, fm.pat, fm.val))
            fams[ref] = fs
        accs = {}
        if touch.hit:
            prefs = {}
            for ref, p in pre.items():
                if p.fams is None and p.fns:
                    prefs[ref] = p
            indep = all(
                not has_pre(t, pre)
                for ref in pre for fm in fams[ref] for t in list(fm.pat) + [fm.guard] + [x for r in fm.ranges for x in r])
            if not indep:
                raise Unsupported(f"write positions depend on values written by earlier iterations (line {lineno})")
            if known:
                raise Unsupported(f"unresolved reads of earlier iterations (line {lineno})")
            acc = try_accumulate(pre, fams, i, n)
            if acc is not None:
                accs = acc
            else:
                # pass with families known: reads must be provably unaffected
                for ref, p in pre.items():
                    t = z3.FreshConst(Int, "t")
                    fs = []
                    for fm in fams[ref]:
                        f2 = lift(fm, i, t, z3.IntVal(0), i)
                        f2.val = Poison("value written by an earlier iteration")
                        fs.append(f2)
                    p.fams = fs
                    known[ref] = fs
                continue
        break
    else:
        raise Unsupported(f"loop summary did not converge (line {lineno})")
    # ------------------------------------------------------------------
    # exceptional exits
    if raises:
        conds = [z3.And([0 <= i, i < n] + o.rel) for o in raises]
        w = C.choose(len(raises) + 1, "loop-raise")
        if w < len(raises):
            o = raises[w]
            i0 = z3.Const(C.name("i_raise"), Int)
            c = z3.substitute(conds[w], (i, i0))
            C.pc.append(c)
            if C.check([], 2500) == "unsat":
                raise Infeasible()
            raise o.value
        for o, c in zip(raises, conds):
            body_c = z3.simplify(z3.Not(c))
            C.pc.append(z3.ForAll([i], body_c))
        if C.check([], 2500) == "unsat":
            raise Infeasible()
    # ------------------------------------------------------------------
    # facts learned inside the body for every iteration are in ctx.facts already
    # final heap
    for ref, fs in fams.items():
        c0 = heap0[ref]
        if ref in dicts:
            C.heap[ref] = {A.FAM: filled(ref, normal, i, n, lineno)}
            continue
        base = c0.symbolic().content if isinstance(c0, ListState) else c0
        if ref in accs:
            cont = accs[ref](base)
        else:
            cont = summarise(base, fs, i, n, lineno, appended(ref, clos, normal, i, n))
        if isinstance(c0, ListState):
            ln = toint(clos[("len", ref)](n)) if ("len", ref) in clos else c0.symbolic().length
            if any(x.decl().eq(A.SUMIF) for x in A.subterms(ln)):
                C.assume(norm(ln) >= 0)  # the length of a list
            C.heap[ref] = ListState(None, norm(ln), cont)
        else:
            C.heap[ref] = cont
    for ref, add in entries.items():
        if not C.valid(n >= 1):
            raise Unsupported(f"entries set by a loop that may not run (line {lineno})")
        for o in normal:
            d = o.heap.get(ref, {})
            if any(k not in d or not same_entry(d[k], x) for k, x in add.items()):
                raise Unsupported(f"entry not set by every iteration (line {lineno})")
        C.heap[ref] = {**heap0[ref], **add}
    # final values of variables
    final = []
    for k, nm in enumerate(names):
        if nm in clos:
            final.append(wrap(clos[nm](n)) if not isinstance(clos[nm](n), (Poison,)) else clos[nm](n))
        elif nm in carried:
            final.append(Poison(f"`{nm}` after the loop at line {lineno}"))
        else:
            final.append(init[k])
    # events recorded in the body become quantified events
    evs = [e for o in normal for e in o.events[len(C.events):]]
    for e in evs:
        C.events.append(("loop", i, n, e))
    set_(tuple(final))
    return None


def same_entry(a, b):
    return a is b or isinstance(a, (str, int, float)) and type(a) is type(b) and a == b


def outlives(x, heap):
    """the same object in every iteration"""
    return x is None or isinstance(x, (str, int, float)) or getattr(x, "ref", None) in heap


def filled(ref, normal, i, n, lineno):
    """dict filled with one entry by every iteration"""
    ks = []
    for o in normal:
        d = o.heap[ref]
        if set(d) != {A.PEND} or d[A.PEND] is None:
            raise Unsupported(f"dict not written once by every iteration (line {lineno})")
        ks.append((z3.And(o.rel) if o.rel else z3.BoolVal(True), *d[A.PEND]))
    if len(ks) > 1 and not all(is_scalar(v) for _, _, v in ks):
        raise Unsupported(f"dict entries that depend on a condition (line {lineno})")
    k, v = ks[-1][1:]
    for g, k1, v1 in ks[:-1][::-1]:
        a, b = coerce2(v1, v)
        k, v = z3.If(g, k1, k), z3.If(g, a, b)
    return A.SymDict(n, lambda t: z3.substitute(k, (i, toint(t))), lambda t: subst(v, [(i, toint(t))]))


def has_pre(t, pre):
    if not isinstance(t, z3.ExprRef):
        return False
    names = {f"pre!{p.key}" for p in pre.values()}
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x) and x.decl().name() in names:
            return True
        st.extend(x.children())
    return False


_recs = {}


def recursive(still, carried, clos, names, init, normal, i, n):
    """the remaining carried scalars as the recursive functions the loop defines: R(0) = start, R(i+1) = body(i, R(i))

    Only a name for the sequence: what is known of it is what a contract proves by induction over this definition."""
    C = ctx()
    steps = []
    for nm in still:
        k, cst = names.index(nm), carried[nm]
        fin = None
        for o in normal[::-1]:
            f = coerce2(o.after[k], cst)[0]
            if f.sort() != cst.sort():
                return False
            g = z3.And(o.rel) if o.rel else z3.BoolVal(True)
            fin = f if fin is None else z3.If(g, f, fin)
        v0 = coerce2(init[k], cst)[0]
        if fin is None or v0.sort() != cst.sort():
            return False
        steps.append((nm, cst, v0, norm(fin) if fin.sort() in (Int, Real) else fin))
    outer = [v for v in C.loopvars if not v.eq(i)]
    csts = [c for _, c, _, _ in steps]
    canon = [z3.Const(f"@r{k}", c.sort()) for k, c in enumerate(csts)]
    body = tuple(z3.substitute(s, *zip(csts, canon), (i, z3.Const("@i", Int))) for _, _, _, s in steps)
    key = tuple(b.get_id() for b in body) + tuple(s[2].get_id() for s in steps) + tuple(v.get_id() for v in outer)
    if key not in _recs:
        _recs[key] = (len(_recs), body, [s[2] for s in steps], list(outer))
    u = _recs[key][0]
    for k, (nm, cst, v0, _) in enumerate(steps):
        R = z3.Function(f"LOOP{u}_{k}", *([Int] * len(outer) + [Int, cst.sort()]))
        C.recs[R.name()] = (outer, z3.Const("@i", Int), canon, v0, body[k], u)
        clos[nm] = lambda x, R=R: R(*outer, toint(x))
    return True


def common(gs, i, n):
    """the disjunction of path conditions, as the conjunction of what they share where that is the same"""
    if len(gs) == 1:
        return gs[0]
    cs = [A.conjuncts(g) for g in gs]
    shared = [c for k, c in enumerate(cs[0]) if all(any(c.eq(x) for x in o) for o in cs[1:]) and not any(c.eq(x) for x in cs[0][:k])]
    C = ctx()
    if shared:
        s = z3.And(shared) if len(shared) > 1 else shared[0]
        save = list(C.pc)
        C.pc += [0 <= i, i < n]
        try:
            if C.valid(z3.Or(gs) == s):
                return s
        finally:
            C.pc[:] = save
    return z3.Or(gs)


def closed_form(nm, cst, v0, finals, normal, i, n, others):
    """value at the start of iteration i, or None"""
    C = ctx()
    if cst.sort() in (Int, Real):
        deltas = []
        ok = True
        for f in finals:
            d = norm(f - cst)
            if occurs(cst, d) or occurs_any(others, d):
                ok = False
                break
            deltas.append(d)
        if ok:
            d0 = deltas[0]
            if all(norm(d - d0).eq(norm(z3.IntVal(0) if d0.sort() == Int else z3.RealVal(0))) or norm(d).eq(norm(d0)) for d in deltas[1:]):
                if not occurs(i, d0):
                    if cst.sort() == Int:
                        return lambda x: norm(v0 + d0 * toint(x))
                    return lambda x: norm(v0 + d0 * z3.ToReal(toint(x)))
            # accumulate
            # the most frequent increment needs no condition (exactly one outcome happens)
            kinds = {}
            for o, d in zip(normal, deltas):
                g = z3.And(o.rel) if o.rel else z3.BoolVal(True)
                if occurs(cst, g) or occurs_any(others, g):
                    return None
                kinds.setdefault(norm(d).get_id(), (norm(d), []))[1].append(g)
            kinds = sorted(kinds.values(), key=lambda k: len(k[1]))
            inc = kinds[-1][0]
            for d, gs in kinds[:-1][::-1]:
                inc = z3.If(common(gs, i, n), d, inc)
            if cst.sort() == Real:
                def f(x, inc=inc):
                    t = z3.FreshConst(Int, "acc")
                    return norm(v0 + A.sum_term(toint(x), t, z3.substitute(inc, (i, t))))
                return f

            def f(x, inc=inc):
                t = z3.FreshConst(Int, "acc")
                return norm(v0 + A._sumi(toint(x), lambda u: z3.substitute(inc, (i, u))))
            return f
    # value of the previous iteration
    fin = None
    for o, f in list(zip(normal, finals))[::-1]:
        g = z3.And(o.rel) if o.rel else z3.BoolVal(True)
        if occurs(cst, f) or occurs_any(others, f) or occurs(cst, g) or occurs_any(others, g):
            return None
        fin = f if fin is None else z3.If(g, f, fin)

    def f(x):
        x = toint(x)
        return z3.If(x > 0, z3.substitute(fin, (i, norm(x - 1))), v0)

    return f


def lift(fm, i, t, lo, hi):
    m = [(i, t)]
    s = lambda x: z3.substitute(x, *m)
    return Fam((t,) + fm.vars, [(lo, hi)] + [(s(a), s(b)) for a, b in fm.ranges], s(fm.guard), [s(p) for p in fm.pat],
               fm.val if isinstance(fm.val, Poison) else subst(fm.val, m))


def interferes(f1, f2, i, n):
    """can iterations t < t' (or any t != t') of f1, f2 write the same cell?"""
    C = ctx()
    t = z3.FreshConst(Int, "t")
    u = z3.FreshConst(Int, "u")
    a = lift(Fam(f1.vars, f1.ranges, f1.guard, f1.pat, z3.IntVal(0)), i, t, z3.IntVal(0), n)
    b = lift(Fam(f2.vars, f2.ranges, f2.guard, f2.pat, z3.IntVal(0)), i, u, z3.IntVal(0), n).rename()
    u2 = b.vars[0]
    save = list(C.pc)
    C.pc.append(b.range_cond())
    try:
        try:
            m, cond, free = invert(a, b.pat)
        except Unsupported:
            m = None
        if m is None:
            goal = z3.Not(z3.And([a.range_cond(), a.vars[0] != u2] + [x == y for x, y in zip(a.pat, b.pat)]))
            return not C.valid(goal, 5000)
        tv = [x for v, x in m if v.eq(a.vars[0])]
        if not tv:
            return not C.valid(z3.Not(cond))
        return not C.valid(z3.Implies(cond, tv[0] == u2), 5000)
    finally:
        C.pc[:] = save


def appended(ref, clos, normal, i, n):
    """does every iteration write only between the list's length at its start and at its end?"""
    C = ctx()
    if ("len", ref) not in clos:
        return False
    lo = toint(clos["len", ref](i))
    save = list(C.pc)
    try:
        for o in normal:
            st = o.heap.get(ref)
            if not isinstance(st, ListState) or not isinstance(st.content, CChain):
                continue
            hi = toint(st.length)
            C.pc[:] = save + [0 <= i, i < n] + o.rel
            if not C.valid(hi >= lo):
                return False
            for f in st.content.fams:
                C.pc[:] = save + [0 <= i, i < n] + o.rel + [f.guard] + [c for v, (a, b) in zip(f.vars, f.ranges) for c in (a <= v, v < b)]
                a, b = norm(f.pat[0] - lo), norm(hi - f.pat[0])
                if not C.valid(z3.And(a >= 0, b > 0)):
                    return False
    finally:
        C.pc[:] = save
    return True


def summarise(base, fs, i, n, lineno, disjoint=False):
    C = ctx()
    if not fs:
        return base
    bad = None
    for x in range(0 if disjoint else len(fs)):
        for y in range(x, len(fs)):
            if interferes(fs[x], fs[y], i, n):
                bad = (x, y)
                break
        if bad:
            break
    if bad is None:
        t = z3.Const(C.name("t"), Int)
        return chain(base, [lift(f, i, t, z3.IntVal(0), n) for f in fs])
    # rewritten in every iteration at the same cells: the last iteration wins
    if all(not any(occurs(i, p) for p in f.pat) and not occurs(i, f.guard) and not any(occurs(i, x) for r in f.ranges for x in r) for f in fs):
        last = norm(n - 1)
        out = []
        for f in fs:
            m = [(i, last)]
            out.append(Fam(f.vars, f.ranges, z3.And(f.guard, n > 0), f.pat, subst(f.val, m)))
        return chain(base, out)
    return CPoison(f"array written repeatedly at the same positions by the loop at line {lineno}")


def try_accumulate(pre, fams, i, n):
    """x[p] = x[p] + inc with p independent of i"""
    C = ctx()
    out = {}
    for ref, p in pre.items():
        fs = fams[ref]
        plan = []
        for f in fs:
            if any(occurs(i, x) for x in f.pat):
                return None if _val_has(f, pre) else None
            if not isinstance(f.val, z3.ExprRef) or f.val.sort() not in (Int, Real):
                return None
            s = f.val.sort()
            k = (len(f.pat), s)
            if k not in p.fns:
                return None
            lv = tuple(C.loopvars) + (i,)
            h = p.fns[k](*(lv + tuple(f.pat)))
            inc = norm(f.val - norm(h))
            if has_pre(inc, pre):
                return None
            plan.append((f, inc))
        if len(plan) != 1:
            if not plan:
                continue
            return None
        f, inc = plan[0]

        def mk(base, f=f, inc=inc):
            t = z3.FreshConst(Int, "acc")

            def add(x, q):
                # cells hit by the family
                g = Fam(f.vars, f.ranges, z3.BoolVal(True), f.pat, z3.IntVal(0))
                m, cond, free = invert(g, q)
                if free:
                    raise Unsupported("accumulation")
                gi = z3.substitute(f.guard, *m) if m else f.guard
                e = z3.substitute(inc, *m) if m else inc
                zero = z3.IntVal(0) if e.sort() == Int else z3.RealVal(0)
                e = z3.simplify(z3.If(gi, e, zero)) if not z3.is_true(z3.simplify(gi)) else e
                e = z3.substitute(e, (i, t))
                if e.sort() == Real:
                    sm = A.sum_term(n, t, e)
                else:
                    sm = A._sumi(n, lambda u: z3.substitute(e, (t, u)))
                cv = C.valid(cond)
                if cv:
                    return norm(x + sm)
                return z3.If(cond, x + sm, x)

            return CFn(lambda *q: add(term(base.read(q)), q))

        out[ref] = mk
    return out


def _val_has(f, pre):
    return has_pre(f.val, pre) if isinstance(f.val, z3.ExprRef) else True
