"""Ghost runs of the contracts of other properties: the code is executed exactly as in their contracts (same
preconditions, same callee contracts), but the obligations are only those of the ghost state - what the call wrote,
and where its random draws came from."""
import importlib
import inspect
from .common import *
from pyvc import verify
from pyvc.arrays import heap_get, ListState, _refs

ENTRIES = ("analyze", "sample", "rsa", "generate_contrast", "extend_bounds", "interactions")
SEED = z3.Int("the_seed")


class Ghost(verify.V):
    def __init__(self, prop, cname):
        super().__init__(prop, cname)
        self.calls = 0
        self.stubs = set()
        self._wrapped = {}

    # obligations of the other property are not this one's
    def prove(self, name, goal, timeout=None):
        return True

    def prove_eq(self, name, a, b, timeout=None):
        return True

    def expect(self, name, ok):
        return True

    def _record(self, name, status, backend, dt, detail):
        if name.startswith("ghost: "):
            return super()._record(name[7:], status, backend, dt, detail)

    def _index(self, t, d):
        pass

    def under(self, *quals):
        pass

    def ghost(self, name, ok, detail=""):
        if ok is None:
            raise Unsupported(name + ": " + detail)
        super()._record(name, "discharged" if ok else "refuted", "ghost state", 0, detail)

    def ghost_prove(self, name, goal):
        return super().prove(name, goal)

    def module(self, name):
        m = super().module(name)
        for e in ENTRIES:
            f = m.__dict__.get(e)
            if inspect.isfunction(f) and f.__module__ == name or inspect.isfunction(f) and name in (f.__globals__.get("__name__"),):
                if f not in self._wrapped.values():
                    w = self.wrap(f"{name}.{e}", f, True)
                    self._wrapped[(name, e)] = w
                    m.__dict__[e] = w
        return m

    def target(self, qual):
        f = super().target(qual)
        if f in self._wrapped.values():
            return f
        return self.wrap(qual, f, qual.rsplit(".", 1)[1] in ENTRIES)

    def stub(self, mod, name, value, why=None):
        self.stubs.add(f"{mod}.{name}")
        return super().stub(mod, name, value, why)

    def wrap(self, qual, f, entry):
        sig = inspect.signature(f)

        def call(*a, **k):
            self.calls += 1
            if qual not in self.functions:
                self.functions.append(qual)
            return self.ghost_call(qual, f, sig, a, k, entry)

        call.__signature__ = sig
        call.__globals__["__name__"]
        return call


def objects(x, out=None, depth=0):
    """the arrays, lists and dictionaries reachable from an argument: {ref: object}"""
    out = {} if out is None else out
    if depth > 6 or x is None:
        return out
    ref = getattr(x, "ref", None)
    if isinstance(x, (Arr, PList, PDict)):
        if ref in out:
            return out
        out[ref] = x
    if isinstance(x, PDict):
        for v in heap_get(x.ref).values():
            objects(v, out, depth + 1)
    elif isinstance(x, PList):
        st = heap_get(x.ref)
        if st.items is not None:
            for v in st.items:
                objects(v, out, depth + 1)
    elif isinstance(x, (tuple, list)):
        for v in x:
            objects(v, out, depth + 1)
    return out


class Frame(Ghost):
    """the call writes nothing that existed before it (but the entries `allowed` of the problem)"""

    allowed = {"sample": {"sample_scaled", "groups"}, "scale_samples": {"sample_scaled"}, "_define_problem_with_groups": {"groups"}}
    in_place = {"scale_samples": ("params",), "_scale_samples": ("params",), "_unscale_samples": ("params",)}  # documented to write their argument

    def ghost_call(self, qual, f, sig, a, k, entry):
        C = self.C
        before = dict(C.heap)
        args = {}
        for n, x in sig.bind(*a, **k).arguments.items():
            for ref, o in objects(x).items():
                args.setdefault(ref, (n, o))
        first = min(next(_refs), 10 ** 18)
        try:
            return f(*a, **k)
        finally:
            kind = qual.rsplit(".", 1)[1]
            ok = self.frame(before, args, self.allowed.get(kind, set()), self.in_place.get(kind, ()))
            if ok is not None:
                self.ghost(f"{qual}: nothing that existed before the call is written", True)

    def frame(self, before, args, allowed, in_place):
        C = self.C
        after = dict(C.heap)
        good = True
        for ref, b in before.items():
            if ref not in after or after[ref] is b:
                continue
            n, o = args.get(ref, (f"object {ref}", None))
            a = after[ref]
            if n in in_place and isinstance(o, Arr):
                continue
            if isinstance(b, dict):
                for key in set(a) | set(b):
                    if key in allowed:
                        continue
                    if key not in a or key not in b or a[key] is not b[key] and not same_scalar(a[key], b[key]):
                        self.ghost(f"{n}: entry {key!r} as the caller gave it", False, "written by the call")
                        good = None
            elif isinstance(b, ListState):
                if a.items is not None and b.items is not None:
                    same = len(a.items) == len(b.items) and all(x is y or same_scalar(x, y) for x, y in zip(a.items, b.items))
                    if not same:
                        self.ghost(f"{n}: list as the caller gave it", False, "written by the call")
                        good = None
                    continue
                sa, sb = a.symbolic(), b.symbolic()
                t = C.fresh("fr", Int)
                save = list(C.pc)
                if not self.ghost_prove(f"{n}: list length as the caller gave it", sa.length == sb.length):
                    good = None
                    continue
                C.pc += [0 <= t, t < toint(sb.length)]
                x, y = sa.content.read((t,)), sb.content.read((t,))
                if is_scalar(x) and is_scalar(y):
                    self.ghost_prove(f"{n}: list items as the caller gave them", term(x) == term(y)) or (good := None)
                else:
                    self.ghost(f"{n}: list items", None, "not scalars")
                C.pc[:] = save
            else:
                if o is None or not isinstance(o, Arr):
                    self.ghost(f"{n}: array written by the call", None, "not an argument")
                base = o
                q = [C.fresh("fr", Int) for _ in base.shape]
                save = list(C.pc)
                C.pc += [z3.And(0 <= t, t < toint(d)) for t, d in zip(q, base.shape)]
                x = base.read(*q)
                C.heap[ref] = b
                y = base.read(*q)
                C.heap[ref] = a
                if not verify.V.prove_eq(self_as(self), f"{n}: contents as the caller gave them", x, y):
                    good = None
                C.pc[:] = save
        return good


def same_scalar(x, y):
    if isinstance(x, Sc) and isinstance(y, Sc):
        return x.t.eq(y.t)
    return type(x) is type(y) and isinstance(x, (int, float, str, bool, tuple)) and x == y


class self_as:
    """the verifier with its own obligations (not the muted ones)"""

    def __init__(self, v):
        object.__setattr__(self, "v", v)

    def __getattr__(self, n):
        f = getattr(verify.V, n, None)
        if callable(f):
            return lambda *a, **k: f(self, *a, **k)
        return getattr(self.v, n)

    def __setattr__(self, n, x):
        setattr(self.v, n, x)

    def _record(self, name, status, backend, dt, detail):
        return verify.V._record(self.v, name, status, backend, dt, detail)


class Seeded(Ghost):
    """every random draw of the call comes from the seed (or the generator) it was given"""

    generator = False

    def ghost_call(self, qual, f, sig, a, k, entry):
        C = self.C
        b = sig.bind(*a, **k)
        given = None
        if "seed" in sig.parameters:
            given = npshim.SymRng("given", "given") if self.generator else Sc(SEED)
            b.arguments["seed"] = given
        else:
            C.events.append(("np.random.seed", Sc(SEED)))  # the caller seeded
            for x in b.arguments.values():
                if isinstance(x, npshim.SymRng):
                    x.origin = Sc(SEED)
                owner = getattr(x, "__self__", None)
                if isinstance(owner, npshim.SymRng):
                    owner.origin = Sc(SEED)
        state = {n: dict(m.__dict__) for n, m in self.L.mods.items()}
        mine = {r for d in state.values() for x in d.values() for r in objects(x)}
        before = {r: C.heap.get(r) for r in mine}
        bad, n = [], [0]
        old = C.on_draw
        start = len(C.events)

        def drawn(g):
            n[0] += 1
            if not self.from_seed(g, given):
                bad.append(getattr(g, "label", type(g).__name__))

        C.on_draw = drawn
        try:
            return f(*b.args, **b.kwargs)
        finally:
            C.on_draw = old
            self.ghost(f"{qual}: every draw comes from the seed given", not bad, f"{n[0]} draws, not from the seed: {bad[:3]}")
            moved = [f"{m}.{x}" for m, d in state.items() for x in set(d) | set(self.L.mods[m].__dict__) if d.get(x, d) is not self.L.mods[m].__dict__.get(x, d)]
            self.ghost(f"{qual}: no module variable is changed", not moved, str(moved[:3]))
            self.ghost(f"{qual}: no module object is written", all(C.heap.get(r) is x for r, x in before.items()))

    def from_seed(self, g, given):
        o = g.origin if isinstance(g, npshim.SymRng) else getattr(g, "seed", None)
        if isinstance(o, npshim.SymRng):
            return self.from_seed(o, given)
        if isinstance(o, str) and o == "given":
            return True  # the generator given, or one spawned from it
        if isinstance(o, str) and o == "global":
            ev = [e for e in self.C.events if e[0] == "np.random.seed"]
            return bool(ev) and isinstance(ev[-1][1], Sc) and ev[-1][1].t.eq(SEED)
        return isinstance(o, Sc) and o.t.eq(SEED)


def borrow(props, skip=()):
    """the contracts of the other properties that run a whole call"""
    out = []
    for p in props:
        m = importlib.import_module("contracts." + p)
        for n, fn in m.CONTRACTS:
            if not any(n.startswith(s) for s in skip):
                out.append((f"{p}: {n}", fn))
    return out
