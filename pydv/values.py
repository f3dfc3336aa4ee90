"""Values of the symbolic interpreter."""
import itertools
from fractions import Fraction

import z3

from pydv.terms import B, I, R, All, as_int, fresh, fresh_fun, is_z, ite, lift, num, real, simp


class Unsupported(Exception):
    """outside the subset the verifier handles"""


class Undef:
    def __repr__(self):
        return "UNDEF"


UNDEF = Undef()


class Poison:
    """a value the summary of a loop does not know"""

    def __init__(self, why):
        self.why = why


class Opaque:
    """a value nothing is known about (progress bars, messages)"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<{self.name}>"


class FaceV:
    """one of the two values of the sequence; b: is it heads (the larger)?"""

    def __init__(self, b):
        self.b = b if isinstance(b, bool) else b

    def __repr__(self):
        return f"Face({self.b})"


class NumpyBool:
    pass


class Ext:
    """something of a library, by dotted name"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"Ext({self.name})"


class Cell:
    """a mutable object; all state is in slots"""
    count = itertools.count(1)

    def __init__(self, **slots):
        self.slots = slots
        self.birth = next(Cell.count)


class Frame(Cell):
    def __init__(self, parent=None, module=None, name="", func=None):
        super().__init__()
        self.parent, self.module, self.name, self.func = parent, module, name, func
        self.yield_hook = None
        self.nonlocals = {}


class Obj(Cell):
    """instance of a class of the repository"""

    def __init__(self, cls, **slots):
        super().__init__(**slots)
        self.cls = cls

    def __repr__(self):
        return f"<{self.cls.name}>"


class ListObj(Cell):
    def __init__(self, seq=()):
        super().__init__(seq=seq)


class DictObj(Cell):
    """content: FinMap, KMap or HMap; factory: default of missing keys (or None)"""

    def __init__(self, d=None, factory=None, cls="dict"):
        super().__init__(d=d if d is not None else FinMap({}))
        self.factory, self.cls = factory, cls


class IterObj(Cell):
    def __init__(self, src):
        super().__init__(pos=0)
        self.src = src


class FinMap:
    """finite map with concrete keys, in order"""

    def __init__(self, m):
        self.m = dict(m)


class KMap:
    """map built by a loop: keys key(i) for 0 <= i < n with guard(i); see interp.summarise"""

    def __init__(self, n, key, guard, value_at, member_at, fresh_key, iterable=True, base=None):
        self.n, self.key, self.guard, self.value_at, self.member_at = n, key, guard, value_at, member_at
        self.fresh_key, self.iterable = fresh_key, iterable
        self.default = self.additive = None


class SymSeq:
    """sequence of n elements; fn(i) gives the i-th; with a guard, only those i with guard(i) are elements"""

    def __init__(self, n, fn, guard=None, dictspace=None):
        self.n, self.fn, self.guard, self.dictspace = n, fn, guard, dictspace

    def get(self, i):
        return self.fn(lift(i))


class Sparse:
    """concrete sequence whose items are there only under a condition"""

    def __init__(self, items):
        self.items = tuple(items)  # (guard, value)


class HSeq:
    """content of a list at the start of a loop iteration, then extended by log"""

    def __init__(self, hid, log=()):
        self.hid, self.log = hid, tuple(log)


class AbsSeq:
    """list content known by its measures only"""

    def __init__(self, measure):
        self.measure = measure


class ByIndex:
    """content of a list of n items whose items are assigned to: a dict from index to item"""

    def __init__(self, d, n):
        self.d, self.n = d, n


class HMap:
    """content of a dict at the start of an iteration, overlaid with accesses (key, before, now, member before, member now)"""

    def __init__(self, hid, overlay=()):
        self.hid, self.overlay = hid, tuple(overlay)


class SeriesV:
    def __init__(self, seq, index=None):
        self.seq = seq  # tuple or SymSeq
        self.index = index  # None: 0..n-1; otherwise 'other'


class ArrayV:
    def __init__(self, seq):
        self.seq = seq


class TupV:
    """tuple of symbolic length"""

    def __init__(self, seq):
        self.seq = seq


class RangeV:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class SliceV:
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class CountsV:
    """result of value_counts(): count(key value), of a sequence"""

    def __init__(self, seq):
        self.seq = seq


class GenV:
    def __init__(self, run):
        self.run = run  # run(callback)


class FuncV:
    def __init__(self, node, frame, module, name, defaults, kwdefaults, is_gen):
        self.node, self.frame, self.module, self.name = node, frame, module, name
        self.defaults, self.kwdefaults, self.is_gen = defaults, kwdefaults, is_gen
        self.attrs = {}

    def __repr__(self):
        return f"<function {self.name}>"


class NativeV:
    """a function of the models"""

    def __init__(self, fn, name=""):
        self.fn, self.name = fn, name


class BoundV:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class ClassV:
    def __init__(self, name, module, bases):
        self.name, self.module, self.bases = name, module, bases
        self.ns = {}
        self.fields = None  # [(name, default or UNDEF)]
        self.kind = None  # 'dataclass', 'namedtuple'

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                out += [c for c in b.mro() if c not in out]
            elif b not in out:
                out.append(b)
        return out

    def lookup(self, name):
        for c in self.mro():
            if isinstance(c, ClassV) and name in c.ns:
                return c.ns[name]
        return None

    def __repr__(self):
        return f"<class {self.name}>"


class PropV:
    def __init__(self, fget):
        self.fget = fget
        self.fset = None


class StaticV:
    def __init__(self, fn):
        self.fn = fn


class ClassMethodV:
    def __init__(self, fn):
        self.fn = fn


class OptV:
    """None when none holds, else val"""

    def __init__(self, none, val):
        self.none, self.val = none, val


class PyRaise(Exception):
    def __init__(self, exc, args=(), cause=None):
        super().__init__(str(exc))
        self.exc, self.eargs = exc, args  # exc: Obj, or Ext class name


def is_num(v):
    return (isinstance(v, (bool, int, Fraction)) or
            (is_z(v) and v.sort() in (I, R, B)))


def is_symbolic_num(v):
    return is_z(v)


def face_eq(a, b):
    return simp(lift(a.b) == lift(b.b))


def isnum_real(v):
    return isinstance(v, Fraction) or (is_z(v) and v.sort() == R)


def merge(c, a, b):
    """value that is a if c else b"""
    if a is b:
        return a
    if isinstance(c, bool):
        return a if c else b
    c = simp(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if isinstance(a, Poison) or isinstance(b, Poison):
        return a if isinstance(a, Poison) else b
    if a is UNDEF or b is UNDEF:
        return Poison("maybe undefined")
    if is_num(a) and is_num(b):
        if not is_z(a) and not is_z(b) and type(a) == type(b) and a == b:
            return a
        x, y = lift(a), lift(b)
        if z3.is_bool(x) != z3.is_bool(y):
            x, y = as_int(x), as_int(y)
        if x.sort() != y.sort():
            x, y = real(x), real(y)
        if x.eq(y):
            return a
        return simp(z3.If(c, x, y))
    if isinstance(a, FaceV) and isinstance(b, FaceV):
        return FaceV(simp(z3.If(c, lift(a.b), lift(b.b))))
    if a is None and b is None:
        return None
    if (a is None) != (b is None):
        v = b if a is None else a
        n = c if a is None else z3.Not(c)
        if isinstance(v, OptV):
            return OptV(simp(z3.Or(n, v.none)), v.val)
        return OptV(simp(n), v)
    if isinstance(a, OptV) or isinstance(b, OptV):
        an, av = (a.none, a.val) if isinstance(a, OptV) else (z3.BoolVal(False), a)
        bn, bv = (b.none, b.val) if isinstance(b, OptV) else (z3.BoolVal(False), b)
        return OptV(simp(z3.If(c, an, bn)), merge(c, av, bv))
    if isinstance(a, str) and isinstance(b, str):
        if a == b:
            return a
        return Opaque("text")
    if isinstance(a, Opaque) and isinstance(b, (Opaque, str)):
        return a
    if isinstance(b, Opaque) and isinstance(a, str):
        return b
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Obj) and isinstance(b, Obj) and a.cls is b.cls and set(a.slots) == set(b.slots):
        return Obj(a.cls, **{k: merge(c, a.slots[k], b.slots[k]) for k in a.slots})
    if isinstance(a, ListObj) and isinstance(b, ListObj):
        return ListObj(merge(c, a.slots["seq"], b.slots["seq"]))
    if isinstance(a, DictObj) and isinstance(b, DictObj):
        o = DictObj(merge(c, a.slots["d"], b.slots["d"]), a.factory, a.cls)
        return o
    if isinstance(a, FinMap) and isinstance(b, FinMap) and list(a.m) == list(b.m):
        return FinMap({k: merge(c, a.m[k], b.m[k]) for k in a.m})
    if isinstance(a, Sparse) or isinstance(b, Sparse) or (isinstance(a, tuple) and isinstance(b, tuple)):
        def items(x):
            return x.items if isinstance(x, Sparse) else tuple((z3.BoolVal(True), v) for v in x) if isinstance(x, tuple) else None
        ia, ib = items(a), items(b)
        if ia is not None and ib is not None:
            k = 0
            while k < min(len(ia), len(ib)) and ia[k][1] is ib[k][1] and lift(ia[k][0]).eq(lift(ib[k][0])):
                k += 1
            return Sparse(ia[:k] + tuple((simp(z3.And(c, g)), v) for g, v in ia[k:]) +
                          tuple((simp(z3.And(z3.Not(c), g)), v) for g, v in ib[k:]))
    sa, sb = seq_of(a, None), seq_of(b, None)
    if sa is not None and sb is not None and type(a) == type(b) and sa.guard is None and sb.guard is None:
        n = merge(c, sa.n, sb.n)
        s = SymSeq(n, lambda i: merge(c, sa.get(i), sb.get(i)))
        return s if isinstance(a, (SymSeq, tuple)) else type(a)(s)
    if isinstance(a, Ext) and isinstance(b, Ext) and a.name == b.name:
        return a
    raise Unsupported(f"values {type(a).__name__} and {type(b).__name__} cannot be merged")


def seq_of(v, default="raise"):
    """SymSeq of a sequence value"""
    if isinstance(v, (SeriesV, ArrayV, TupV)):
        v = v.seq
    if isinstance(v, ListObj):
        v = v.slots["seq"]
    if isinstance(v, ByIndex):
        m = v.d.slots["d"]
        if not isinstance(m, KMap):
            raise Unsupported("a list whose items a loop changes")
        return SymSeq(v.n, m.value_at)
    if isinstance(v, SymSeq):
        return v
    if isinstance(v, tuple):
        def get(i, v=v):
            c = num(simp(i))
            if c is not None:
                if 0 <= c < len(v):
                    return v[c]
                raise Unsupported("index out of a concrete sequence")
            if not v:
                raise Unsupported("index into an empty sequence")
            r = v[-1]
            for k in range(len(v) - 2, -1, -1):
                r = merge(i == k, v[k], r)
            return r
        return SymSeq(len(v), get)
    if isinstance(v, RangeV):
        n = range_len(v)
        return SymSeq(n, lambda i: arith_int(v.start, i, v.step))
    if default == "raise":
        raise Unsupported(f"{type(v).__name__} is not an indexable sequence")
    return default


def arith_int(a, i, s):
    if s == 1 and not is_z(a) and a == 0:
        return i
    return simp(lift(a) + lift(i) * lift(s))


def factor(t, s):
    """q with t == q * s syntactically, or None"""
    t, s = simp(lift(t)), simp(lift(s))
    cs, ct = num(s), num(t)
    if cs is not None:
        if ct is not None:
            return lift(ct // cs) if ct % cs == 0 else None
    if t.eq(s):
        return z3.IntVal(1)
    if ct == 0:
        return z3.IntVal(0)
    from pydv import poly
    try:
        E = poly.Expander()
        p, d = E.expand(t), E.expand(s)
        if len(d) != 1 or not p or E.guards:
            return None
        (m, c), = d.items()
        m = dict(m)
        q = {}
        for m1, c1 in p.items():
            r = dict(m1)
            for a, e in m.items():
                if a in E.A.ind or a < 0 or e < 0 or r.get(a, 0) < e:
                    return None
                r[a] -= e
                if not r[a]:
                    r.pop(a)
            if any(e < 0 for e in r.values()) or (c1 / c).denominator != 1:
                return None
            q[tuple(sorted(r.items()))] = c1 / c
        r = simp(E.rebuild(q))
        return r if r.sort() == I else None
    except poly.TooBig:
        return None


def range_len(v):
    a, b, s = lift(v.start), lift(v.stop), lift(v.step)
    cs = num(simp(s))
    if cs == 1:
        d = simp(b - a)
        return simp(z3.If(d > 0, d, 0)) if num(d) is None else max(num(d), 0)
    if cs == -1:
        d = simp(a - b)
        return simp(z3.If(d > 0, d, 0)) if num(d) is None else max(num(d), 0)
    q = factor(simp(b - a), s)
    if q is not None:  # (b - a) / s exactly; s > 0 is an obligation of range()
        q = simp(q)
        return simp(z3.If(q > 0, q, 0)) if num(q) is None else max(num(q), 0)
    if cs is not None and cs > 0:
        d = simp((b - a + (cs - 1)) / cs)
        return simp(z3.If(d > 0, d, 0)) if num(d) is None else max(num(d), 0)
    if cs is not None and cs < 0:
        d = simp((a - b + (-cs - 1)) / (-cs))
        return simp(z3.If(d > 0, d, 0)) if num(d) is None else max(num(d), 0)
    d = (b - a + s - 1) / s
    return simp(z3.If(d > 0, d, 0))


def vsubst(v, pairs, funs=()):
    """value with constants (and functions) replaced by terms"""
    if not pairs and not funs:
        return v

    def z(t):
        if pairs:
            t = z3.substitute(t, *pairs)
        if funs:
            t = z3.substitute_funs(t, *funs)
        return simp(t)

    def go(v):
        if is_z(v):
            return z(v)
        if isinstance(v, FaceV):
            return FaceV(go(v.b)) if is_z(v.b) else v
        if isinstance(v, tuple):
            return tuple(go(x) for x in v)
        if isinstance(v, SymSeq):
            def fn(i, s=v):
                j = fresh("j")
                t = go(s.fn(j))
                return vsubst(t, [(j, i)])
            g = None
            if v.guard is not None:
                def g(i, s=v):
                    j = fresh("j")
                    return z3.substitute(z(lift(s.guard(j))), (j, lift(i)))
            return SymSeq(go(v.n), fn, g)
        if isinstance(v, (SeriesV,)):
            return SeriesV(go(v.seq), v.index)
        if isinstance(v, (ArrayV, TupV)):
            return type(v)(go(v.seq))
        if isinstance(v, Sparse):
            return Sparse([(go(g), go(x)) for g, x in v.items])
        if isinstance(v, OptV):
            return OptV(z(v.none), go(v.val))
        if isinstance(v, Obj):
            return Obj(v.cls, **{k: go(x) for k, x in v.slots.items()})
        if isinstance(v, ListObj):
            return ListObj(go(v.slots["seq"]))
        if isinstance(v, DictObj):
            return DictObj(go(v.slots["d"]), v.factory, v.cls)
        if isinstance(v, FinMap):
            return FinMap({k: go(x) for k, x in v.m.items()})
        if isinstance(v, KMap):
            def key(i, s=v):
                j = fresh("j")
                return vsubst(go(s.key(j)), [(j, lift(i))])

            def guard(i, s=v):
                j = fresh("j")
                return z3.substitute(z(lift(s.guard(j))), (j, lift(i)))

            def at(name):
                def f(k, s=v):
                    kk, kf = s.fresh_key()
                    t = getattr(s, name)(kk)
                    t = go(t) if not is_z(t) else z(t)
                    return subst_key(t, kk, k)
                return f
            km = KMap(go(v.n), key, guard if v.guard else None, at("value_at"), at("member_at"), v.fresh_key, v.iterable)
            km.default = getattr(v, "default", None)
            return km
        if isinstance(v, ByIndex):
            return ByIndex(go(v.d), go(v.n))
        if isinstance(v, RangeV):
            return RangeV(go(v.start), go(v.stop), go(v.step))
        if isinstance(v, CountsV):
            return CountsV(go(v.seq))
        return v
    return go(v)


def subst_key(t, generic, actual):
    """replace a generic key (from fresh_key) by an actual key in a value"""
    pairs, funs = [], []

    def go(g, a):
        if isinstance(g, FaceV):
            pairs.append((g.b, lift(a.b)))
        elif isinstance(g, tuple):
            if not isinstance(a, tuple) or len(a) != len(g):
                raise Unsupported("keys of different shapes")
            for x, y in zip(g, a):
                go(x, y)
        elif isinstance(g, TupV):
            s = seq_of(a)
            f = g.fun
            funs.append((f, lift(s.get(z3.Var(0, I)).b) if f.range() == B else lift(s.get(z3.Var(0, I)))))
        elif is_z(g):
            a = lift(a)
            if a.sort() != g.sort():
                raise Unsupported("keys of different sorts")
            pairs.append((g, a))
        else:
            raise Unsupported("key shape")
    go(generic, actual)
    # functions whose replacement has the variable: bound variables inside are handled by z3
    return vsubst(t, pairs, funs)


def key_shape(k):
    """returns a maker of fresh generic keys of the shape of k"""
    if isinstance(k, FaceV):
        return lambda: (lambda x: (x, x))(FaceV(fresh("kf", B)))
    if isinstance(k, bool) or (is_z(k) and z3.is_bool(k)):
        return lambda: (lambda x: (x, x))(fresh("kb", B))
    if isinstance(k, int) or (is_z(k) and k.sort() == I):
        return lambda: (lambda x: (x, x))(fresh("ki", I))
    if isinstance(k, Fraction) or (is_z(k) and k.sort() == R):
        return lambda: (lambda x: (x, x))(fresh("kr", R))
    if isinstance(k, TupV) or isinstance(k, SymSeq):
        s = seq_of(k)
        if s.guard is not None:
            raise Unsupported("filtered sequence as a key")
        e = s.get(fresh("j"))
        if not isinstance(e, FaceV) and not (is_z(e) and e.sort() in (I, B)):
            raise Unsupported("key elements")
        face = isinstance(e, FaceV)

        def mk(n=s.n):
            f = fresh_fun("kap", I, B if face else e.sort())
            t = TupV(SymSeq(n, lambda i: FaceV(f(lift(i))) if face else f(lift(i))))
            t.fun = f
            return t, t
        return mk
    if isinstance(k, tuple):
        makers = [key_shape(x) for x in k]

        def mk():
            t = tuple(m()[0] for m in makers)
            return t, t
        return mk
    if isinstance(k, Obj) and k.cls.kind == "namedtuple":
        return key_shape(tuple(k.slots.values()))
    raise Unsupported(f"{type(k).__name__} as a symbolic key")


def key_eq(a, b):
    """z3 condition that two keys are equal"""
    if isinstance(a, FaceV) and isinstance(b, FaceV):
        return face_eq(a, b)
    if is_num(a) and is_num(b):
        x, y = lift(a), lift(b)
        if z3.is_bool(x) != z3.is_bool(y):
            x, y = as_int(x), as_int(y)
        if x.sort() != y.sort():
            x, y = real(x), real(y)
        return simp(x == y)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return z3.BoolVal(False)
        return simp(z3.And([z3.BoolVal(True)] + [key_eq(x, y) for x, y in zip(a, b)]))
    if isinstance(a, (TupV, tuple)) and isinstance(b, (TupV, tuple)):
        s, t = seq_of(a), seq_of(b)
        eqn = simp(lift(s.n) == lift(t.n))
        return simp(z3.And(eqn, All(0, s.n, lambda j: key_eq(s.get(j), t.get(j)))))
    if isinstance(a, str) and isinstance(b, str):
        return z3.BoolVal(a == b)
    raise Unsupported(f"comparison of keys {type(a).__name__} and {type(b).__name__}")
