"""Models of what the repository's code uses: operators, builtins, pandas, numpy, scipy, math, warnings.

These are the trusted contracts of the dependencies (listed in every evidence file).  Anything not
listed here is outside the verifier's reach and raises Unsupported.
"""
import ast
from fractions import Fraction

import z3

from pydv import terms as T
from pydv.loop import AbsSeq, Chunk, Entry, Hid, concat, measure, symloop
from pydv.interp import (CtxV, Deferred, Infeasible, Machine, PyRaise, StopSig, TruthV, _boolish)
from pydv.terms import (B, I, R, All, Ex, Max, Min, Sum, as_int, ceil, decl, fn, floor, fresh, is_z, ite, lift, num, pow2, real, simp,
                        zabs, zmax, zmin)
from pydv.values import *
from pydv.values import UNDEF

USED = set()


# -- numbers ---------------------------------------------------------------------------------
def py(t):
    """z3 numeral of a python number, else the term"""
    t = simp(t)
    c = num(t)
    if c is None:
        return t
    if z3.is_bool(t):
        return bool(c)
    if t.sort() == R:
        return Fraction(c)
    return int(c)


def unopt(M, v):
    if isinstance(v, OptV):
        if M.decide(v.none):
            M.raise_("TypeError", "None")
        return unopt(M, v.val)
    return v


def isreal(v):
    return isinstance(v, Fraction) or (is_z(v) and v.sort() == R)


def arith(M, op, a, b):
    if not is_z(a) and not is_z(b):
        return carith(M, op, a, b)
    x, y = lift(a), lift(b)
    if z3.is_bool(x) and z3.is_bool(y) and isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
        return py({ast.BitAnd: z3.And, ast.BitOr: z3.Or, ast.BitXor: z3.Xor}[type(op)](x, y))
    x, y = (as_int(x) if z3.is_bool(x) else x), (as_int(y) if z3.is_bool(y) else y)
    if isinstance(op, (ast.Add, ast.Sub, ast.Mult)):
        if x.sort() != y.sort():
            x, y = real(x), real(y)
        return py(x + y if isinstance(op, ast.Add) else x - y if isinstance(op, ast.Sub) else x * y)
    if isinstance(op, ast.Div):
        M.oblige("division by zero", y != 0)
        cy = num(simp(y))
        if cy is not None and cy != 0:
            return py(real(x) * T.lift(1 / Fraction(cy)))
        return py(real(x) / real(y))
    if isinstance(op, (ast.FloorDiv, ast.Mod)):
        M.oblige("division by zero", y != 0)
        if x.sort() == R or y.sort() == R:
            q = z3.ToInt(real(x) / real(y))
            return py(real(q)) if isinstance(op, ast.FloorDiv) else py(real(x) - real(q) * real(y))
        qf = factor(x, y) if num(simp(y)) is None else None  # y != 0 is obliged and assumed
        if qf is not None:
            return py(qf) if isinstance(op, ast.FloorDiv) else 0
        if M.known(y > 0):
            return py(x / y) if isinstance(op, ast.FloorDiv) else py(x % y)
        q = z3.If(y > 0, x / y, (-x) / (-y))
        return py(q) if isinstance(op, ast.FloorDiv) else py(x - y * q)
    if isinstance(op, ast.Pow):
        return power(M, a, b)
    if isinstance(op, ast.LShift):
        c = num(simp(y))
        if c is not None and c >= 0:
            return py(x * (2 ** c))
    if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)) and x.sort() == I and y.sort() == I:
        # on 0 and 1
        bits = z3.And(x >= 0, x <= 1, y >= 0, y <= 1)
        if M.known(bits):
            if isinstance(op, ast.BitAnd):
                return py(z3.If(z3.And(x == 1, y == 1), z3.IntVal(1), z3.IntVal(0)))
            if isinstance(op, ast.BitOr):
                return py(z3.If(z3.Or(x == 1, y == 1), z3.IntVal(1), z3.IntVal(0)))
            return py(z3.If(x != y, z3.IntVal(1), z3.IntVal(0)))
    raise Unsupported(f"operator {type(op).__name__} on symbolic numbers")


def carith(M, op, a, b):
    try:
        if isinstance(op, ast.Add):
            return a + b
        if isinstance(op, ast.Sub):
            return a - b
        if isinstance(op, ast.Mult):
            return a * b
        if isinstance(op, ast.Div):
            return Fraction(a) / Fraction(b)
        if isinstance(op, ast.FloorDiv):
            q = a // b
            return Fraction(q) if isinstance(a, Fraction) or isinstance(b, Fraction) else q
        if isinstance(op, ast.Mod):
            return a % b
        if isinstance(op, ast.Pow):
            return power(M, a, b)
        if isinstance(op, ast.LShift):
            return a << b
        if isinstance(op, ast.RShift):
            return a >> b
        if isinstance(op, ast.BitAnd):
            return a & b
        if isinstance(op, ast.BitOr):
            return a | b
        if isinstance(op, ast.BitXor):
            return a ^ b
    except ZeroDivisionError:
        M.oblige("division by zero", z3.BoolVal(False))
        M.raise_("ZeroDivisionError")
    raise Unsupported(f"operator {type(op).__name__}")


def power(M, a, b):
    ca, cb = (a if not is_z(a) else num(simp(a))), (b if not is_z(b) else num(simp(b)))
    if isinstance(ca, bool):
        ca = int(ca)
    if cb is not None:
        if cb == int(cb) and 0 <= cb <= 64 or (ca is not None and cb == int(cb) and abs(cb) < 4000):
            k = int(cb)
            if ca is not None:
                if ca == 0 and k < 0:
                    M.raise_("ZeroDivisionError")
                r = Fraction(ca) ** k
                whole = isinstance(ca, int) and not isinstance(a, Fraction) and not isinstance(b, Fraction) and k >= 0
                return int(r) if whole else r
            if k <= 8:
                x = lift(a)
                x = as_int(x) if z3.is_bool(x) else x
                t = lift(1) if x.sort() == I else real(1)
                for _ in range(k):
                    t = t * x
                if isinstance(b, Fraction) and t.sort() == I:
                    t = real(t)
                return py(t)
        if cb == Fraction(1, 2):
            return m_sqrt(M, [a], {})
        raise Unsupported("power")
    bb = lift(b)
    if ca == 2 and bb.sort() == I:
        return py(pow2(bb))
    if ca == -1 and bb.sort() == I:
        return py(z3.If(bb % 2 == 0, z3.IntVal(1), z3.IntVal(-1)))
    if ca is not None and ca > 0 and bb.sort() == I:
        # ca ** b as an uninterpreted power
        return py(fn("POWR", ca, real(bb)))
    raise Unsupported("power with a symbolic exponent")


def unary(M, op, v):
    v = unopt(M, v)
    if isinstance(v, (SeriesV, ArrayV)):
        return elementwise(v, lambda x: unary(M, op, x))
    if isinstance(v, bool):
        v = int(v)
    if is_num(v):
        if isinstance(op, ast.USub):
            return -v if not is_z(v) else py(-(as_int(v) if z3.is_bool(v) else v))
        if isinstance(op, ast.UAdd):
            return v
        if isinstance(op, ast.Invert) and is_z(v) and z3.is_bool(v):
            return simp(z3.Not(v))
    raise Unsupported("unary operator")


def elementwise(s, f, other=None):
    q = s.seq
    if other is None:
        g = f
        if isinstance(q, tuple):
            r = tuple(g(x) for x in q)
        else:
            r = SymSeq(q.n, lambda i: g(q.get(i)))
    else:
        o = other.seq
        a, b = seq_of(s), seq_of(other)
        r = SymSeq(a.n, lambda i: f(a.get(i), b.get(i)))
    return SeriesV(r, s.index) if isinstance(s, SeriesV) else ArrayV(r)


def binop(M, op, a, b):
    a, b = unopt(M, a), unopt(M, b)
    if is_num(a) and is_num(b):
        return arith(M, op, a, b)
    sa, sb = isinstance(a, (SeriesV, ArrayV)), isinstance(b, (SeriesV, ArrayV))
    if sa and sb:
        na, nb = seq_of(a).n, seq_of(b).n
        if isinstance(a, SeriesV) and isinstance(b, SeriesV) and (a.index is not None or b.index is not None):
            raise Unsupported("alignment of indexes")
        if not M.known(lift(na) == lift(nb)):
            raise Unsupported("operands of different lengths")
        return elementwise(a, lambda x, y: pure(M, lambda: binop(M, op, x, y)), b)
    if sa and is_num(b):
        return elementwise(a, lambda x: pure(M, lambda: binop(M, op, x, b)))
    if sb and is_num(a):
        return elementwise(b, lambda x: pure(M, lambda: binop(M, op, a, x)))
    if isinstance(op, ast.Add):
        if isinstance(a, ListObj) and isinstance(b, ListObj):
            return ListObj(concat(M, M.get(a, "seq"), M.get(b, "seq")))
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        if isinstance(a, (str, Opaque)) and isinstance(b, (str, Opaque)):
            return Opaque("text")
        if isinstance(a, (tuple, TupV)) and isinstance(b, (tuple, TupV)):
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            return TupV(concat(M, a if isinstance(a, tuple) else a.seq, b if isinstance(b, tuple) else b.seq))
    if isinstance(op, ast.Mult):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (ListObj, tuple)) and is_num(y) and not isreal(y):
                seq = M.get(x, "seq") if isinstance(x, ListObj) else x
                if isinstance(seq, tuple) and not is_z(y):
                    r = seq * y
                    return ListObj(r) if isinstance(x, ListObj) else r
                if isinstance(seq, tuple) and len(seq) == 1:
                    n = simp(z3.If(y > 0, y, 0))
                    if M.known(y >= 0):
                        n = y
                    s = SymSeq(n, lambda i, v=seq[0]: v)
                    return ListObj(s) if isinstance(x, ListObj) else TupV(s)
            if isinstance(x, str) and isinstance(y, int):
                return x * y
    if isinstance(op, ast.Mod) and isinstance(a, str):
        return Opaque("text")
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque("text")
    raise Unsupported(f"operator {type(op).__name__} on {type(a).__name__} and {type(b).__name__}")


def pure(M, f):
    """evaluation of an element of a symbolic sequence: obligations inside it are not recorded here"""
    n = len(M.obs)
    r = f()
    del M.obs[n:]
    return r


def compare(M, op, a, b):
    if isinstance(op, (ast.Is, ast.IsNot)):
        r = is_same(M, a, b)
        return r if isinstance(op, ast.Is) else (not r if isinstance(r, bool) else simp(z3.Not(r)))
    if isinstance(op, (ast.In, ast.NotIn)):
        r = contains(M, b, a)
        return r if isinstance(op, ast.In) else (not r if isinstance(r, bool) else simp(z3.Not(r)))
    if isinstance(op, (ast.Eq, ast.NotEq)) and (a is None or b is None or isinstance(a, OptV) or isinstance(b, OptV)):
        r = opt_eq(M, a, b)
        return r if isinstance(op, ast.Eq) else (not r if isinstance(r, bool) else simp(z3.Not(r)))
    a, b = unopt(M, a), unopt(M, b)
    sa, sb = isinstance(a, (SeriesV, ArrayV)), isinstance(b, (SeriesV, ArrayV))
    if sa and not sb:
        return elementwise(a, lambda x: pure(M, lambda: compare(M, op, x, b)))
    if sb and not sa:
        return elementwise(b, lambda x: pure(M, lambda: compare(M, op, a, x)))
    if sa and sb:
        if isinstance(a, SeriesV) and isinstance(b, SeriesV) and (a.index is not None or b.index is not None):
            raise Unsupported("alignment of indexes")
        if not M.known(lift(seq_of(a).n) == lift(seq_of(b).n)):
            raise Unsupported("operands of different lengths")
        return elementwise(a, lambda x, y: pure(M, lambda: compare(M, op, x, y)), b)
    if isinstance(op, ast.Eq):
        return eq(M, a, b)
    if isinstance(op, ast.NotEq):
        r = eq(M, a, b)
        return (not r) if isinstance(r, bool) else simp(z3.Not(r))
    if isinstance(a, FaceV) and isinstance(b, FaceV):
        x, y = as_int(lift(a.b)), as_int(lift(b.b))
    elif is_num(a) and is_num(b):
        if not is_z(a) and not is_z(b):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        x, y = lift(a), lift(b)
        x, y = (as_int(x) if z3.is_bool(x) else x), (as_int(y) if z3.is_bool(y) else y)
        if x.sort() != y.sort():
            x, y = real(x), real(y)
    elif isinstance(a, (tuple, Obj)) and isinstance(b, (tuple, Obj)):
        raise Unsupported("order of tuples")
    elif isinstance(a, str) and isinstance(b, str):
        return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
    else:
        raise Unsupported(f"comparison of {type(a).__name__} and {type(b).__name__}")
    return py({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)])


def is_same(M, a, b):
    if a is None or b is None:
        v = b if a is None else a
        if v is None:
            return True
        if isinstance(v, OptV):
            return v.none
        if isinstance(v, CtxV):
            return not v.truth if isinstance(v.truth, bool) else simp(z3.Not(v.truth))
        return False
    if isinstance(a, bool) and isinstance(b, bool):
        return a is b
    if isinstance(a, Cell) and isinstance(b, Cell):
        return a is b
    if (is_z(a) and z3.is_bool(a) and isinstance(b, bool)) or (is_z(b) and z3.is_bool(b) and isinstance(a, bool)):
        raise Unsupported("identity of booleans")
    if isinstance(a, ClassV) or isinstance(b, ClassV):
        return a is b
    if isinstance(a, Ext) and isinstance(b, Ext):
        return a.name == b.name
    raise Unsupported("is")


def opt_eq(M, a, b):
    if a is None and b is None:
        return True
    if a is None or b is None:
        return is_same(M, a, b)
    na, va = (a.none, a.val) if isinstance(a, OptV) else (z3.BoolVal(False), a)
    nb, vb = (b.none, b.val) if isinstance(b, OptV) else (z3.BoolVal(False), b)
    return py(z3.Or(z3.And(na, nb), z3.And(z3.Not(na), z3.Not(nb), lift(eq(M, va, vb)))))


def eq(M, a, b):
    if isinstance(a, FaceV) and isinstance(b, FaceV):
        return py(face_eq(a, b))
    if is_num(a) and is_num(b):
        if not is_z(a) and not is_z(b):
            return a == b
        return py(key_eq(a, b))
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, (tuple, TupV)) and isinstance(b, (tuple, TupV)):
        return py(key_eq(a, b))
    if isinstance(a, ListObj) and isinstance(b, ListObj):
        x, y = M.get(a, "seq"), M.get(b, "seq")
        if isinstance(x, Sparse) or isinstance(y, Sparse):
            raise Unsupported("comparison of conditional lists")
        return py(key_eq(TupV(x) if isinstance(x, SymSeq) else x, TupV(y) if isinstance(y, SymSeq) else y))
    if isinstance(a, Obj) and isinstance(b, Obj) and a.cls.kind == "namedtuple" and a.cls is b.cls:
        return py(key_eq(M.concrete(a), M.concrete(b)))
    if isinstance(a, Obj):
        c = a.cls.lookup("__eq__")
        if c is not None:
            return M.call(c, [a, b], {})
    if type(a) is not type(b) and isinstance(a, (str, tuple, ListObj)) and isinstance(b, (str, tuple, ListObj, int)):
        return False
    raise Unsupported(f"equality of {type(a).__name__} and {type(b).__name__}")


def contains(M, c, x):
    if isinstance(c, (tuple, ListObj, TupV, SeriesV, ArrayV)) and not isinstance(c, SeriesV):
        seq = M.get(c, "seq") if isinstance(c, ListObj) else c
        if isinstance(seq, tuple):
            r = [eq(M, x, y) for y in seq]
            if any(q is True for q in r):
                return True
            return py(z3.Or(*[lift(q) for q in r])) if r else False
        s = seq_of(seq)
        g = s.guard
        return py(Ex(0, s.n, lambda j: z3.And(lift(g(j)), lift(eq(M, x, s.get(j)))) if g else lift(eq(M, x, s.get(j)))))
    if isinstance(c, RangeV):
        s, e, st = c.start, c.stop, c.step
        if st == 1:
            return py(z3.And(lift(s) <= lift(x), lift(x) < lift(e)))
    if isinstance(c, DictObj):
        return dict_member(M, c, x)
    if isinstance(c, Obj):
        f = c.cls.lookup("__contains__")
        if f is not None:
            return M.call(f, [c, x], {})
    raise Unsupported(f"in {type(c).__name__}")


# -- lists -----------------------------------------------------------------------------------
def by_index(v):
    s = seq_of(v)
    m = KMap(s.n, lambda j: j, lambda j: z3.BoolVal(True), lambda q: s.get(q), lambda q: z3.And(0 <= lift(q), lift(q) < lift(s.n)), key_shape(z3.Int("q")), iterable=False)
    m.default = m.additive = None
    return ByIndex(DictObj(m), s.n)


def by_index_seq(M, v):
    d = M.get(v.d, "d")
    return SymSeq(v.n, lambda q: li_get(M, d, q))


def li_get(M, d, q):
    if isinstance(d, KMap):
        return d.value_at(q)
    h = d.hid
    ix, e = access(M, d, py(q) if is_z(q) else q)
    m, v = hm_now(d, ix, e)
    if v is None:
        if h.shape is None:
            h.shape = h.owner.hshapes.get((h.key, h.path)) or li_get(M, h.init, fresh("q"))
        v = e.val = h.owner.havoc_cell(h.shape, h)
    return v


def li_set(M, l, k, v):
    """assignment of an item; the index is in range"""
    raw = l.slots["seq"]
    d = M.get(raw.d, "d")
    if isinstance(d, KMap):
        m = KMap(d.n, d.key, d.guard, lambda q: merge(simp(lift(q) == lift(k)), v, d.value_at(q)), d.member_at, d.fresh_key, iterable=False)
        m.default = m.additive = None
        M.set(raw.d, "d", m)
        return
    li_get(M, d, k)
    ix, e = access(M, d, k)
    hm_set(M, raw.d, d, ix, True, v)


def list_append(M, l, x):
    seq = M.get(l, "seq")
    if isinstance(seq, tuple):
        seq = seq + (x,)
    elif isinstance(seq, HSeq):
        seq = HSeq(seq.hid, seq.log + (x,))
    elif isinstance(seq, Sparse):
        seq = Sparse(seq.items + ((z3.BoolVal(True), x),))
    else:
        seq = concat(M, seq, (x,))
    M.set(l, "seq", seq)


def list_extend(M, l, v):
    if isinstance(v, (tuple, ListObj, TupV, RangeV)):
        s = M.get(v, "seq") if isinstance(v, ListObj) else v.seq if isinstance(v, TupV) else v
        if isinstance(s, RangeV):
            s = seq_of(s)
        M.set(l, "seq", concat(M, M.get(l, "seq"), s))
    else:
        M.iterate(v, lambda x: list_append(M, l, x))


def length(M, v):
    if isinstance(v, tuple):
        return len(v)
    if isinstance(v, str):
        return len(v)
    if isinstance(v, ListObj):
        seq = M.get(v, "seq")
        if isinstance(seq, (HSeq, AbsSeq, Sparse)) or (isinstance(seq, SymSeq) and seq.guard is not None):
            return py(lift(measure(M, seq, ("len",))))
        return len(seq) if isinstance(seq, tuple) else py(lift(seq.n))
    if isinstance(v, (SeriesV, ArrayV, TupV)):
        s = seq_of(v)
        if s.guard is not None:
            raise Unsupported("length of a filtered series")
        return py(lift(s.n))
    if isinstance(v, RangeV):
        return py(lift(range_len(v)))
    if isinstance(v, DictObj):
        d = M.get(v, "d")
        if isinstance(d, FinMap):
            return len(d.m)
        if isinstance(d, KMap):
            s = keys_seq(M, v)
            return py(Sum(0, s.n, lambda j: as_int(lift(s.guard(j)))))
    if isinstance(v, Obj):
        if v.cls.kind == "namedtuple":
            return len(v.slots)
        c = v.cls.lookup("__len__")
        if c is not None:
            return M.call(c, [v], {})
    if isinstance(v, BinsV):
        return len(v.intervals)
    raise Unsupported(f"len of {type(v).__name__}")


def iter_value(M, v):
    """tuple, SymSeq, GenV or Sparse to iterate over"""
    if isinstance(v, (tuple, SymSeq)):
        return v
    if isinstance(v, (SeriesV, ArrayV, TupV)):
        return v.seq if isinstance(v.seq, (tuple, SymSeq)) else seq_of(v)
    if isinstance(v, RangeV):
        n = M.const_int(range_len(v))
        if not is_z(v.step) and v.step == 0:
            M.raise_("ValueError")
        if is_z(v.step) and not M.known(v.step > 0):
            M.oblige("range step positive", v.step > 0)
            M.assume(v.step > 0)
        s = seq_of(v)
        if n is not None:
            if n > 100000:
                raise Unsupported("long range")
            if n <= M.unrolled_limit:
                return tuple(py(s.get(k)) for k in range(n))
        m = lift(s.n)
        if n is None and m.decl().kind() == z3.Z3_OP_ITE and M.known(m == m.arg(1)):
            m = m.arg(1)
        elif n is None and m.decl().kind() == z3.Z3_OP_ITE and M.known(m == m.arg(2)):
            m = m.arg(2)
        return SymSeq(m, lambda i: py(s.get(i)))
    if isinstance(v, DictObj):
        return keys_iter(M, v)
    if isinstance(v, ViewV):
        return v.seq(M)
    if isinstance(v, Obj):
        c = v.cls.lookup("__iter__")
        if c is not None:
            r = M.call(c, [v], {})
            return iter_value(M, r) if not isinstance(r, (GenV, IterObj)) else r
        raise Unsupported(f"iteration over {v.cls.name}")
    if isinstance(v, GenV):
        return v
    if isinstance(v, BinsV):
        return tuple(v.intervals)
    if isinstance(v, Sparse):
        return v
    if isinstance(v, AbsSeq):
        raise Unsupported("iteration over a list known by its measures only")
    if isinstance(v, HSeq):
        raise Unsupported("iteration over a list that the loop builds")
    if v is None:
        M.raise_("TypeError", "None")
    raise Unsupported(f"iteration over {type(v).__name__}")


class ViewV:
    """keys(), values(), items()"""

    def __init__(self, d, kind):
        self.d, self.kind = d, kind

    def seq(self, M):
        return view_iter(M, self.d, self.kind)


def keys_seq(M, d):
    c = M.get(d, "d")
    if getattr(d, "loose", False) or not c.iterable:
        raise Unsupported("order of a dict that is read at missing keys")
    return SymSeq(c.n, c.key, c.guard)


def keys_iter(M, d):
    return view_iter(M, d, "keys")


def view_iter(M, d, kind):
    if isinstance(d, BinsV):
        m = d.counts(M)
        ks = list(d.intervals)
        return tuple(ks) if kind == "keys" else tuple(m[k] for k in ks) if kind == "values" else tuple((k, m[k]) for k in ks)
    if isinstance(d, Obj):
        # Mapping mixin
        ks = M.concrete(GenV(lambda cb: M.iterate(iter_value(M, d), cb, collect=True)))
        if kind == "keys":
            return tuple(ks)
        vs = [M.getitem(d, k) for k in ks]
        return tuple(vs) if kind == "values" else tuple(zip(ks, vs))
    c = M.get(d, "d")
    if isinstance(c, FinMap):
        ks = list(c.m)
        if d.cls == "SortedDict":
            ks = sorted(ks)
        return tuple(ks) if kind == "keys" else tuple(c.m[k] for k in ks) if kind == "values" else tuple((k, c.m[k]) for k in ks)
    if isinstance(c, KMap):
        s = keys_seq(M, d)
        if kind == "keys":
            r = SymSeq(s.n, s.fn, s.guard)
        elif kind == "values":
            r = SymSeq(s.n, lambda i: c.value_at(s.get(i)), s.guard)
        else:
            r = SymSeq(s.n, lambda i: (s.get(i), c.value_at(s.get(i))), s.guard)
        r.dictspace = (c, kind)
        return r
    raise Unsupported("iteration over a dict that the loop changes")


# -- dicts -----------------------------------------------------------------------------------
def ckey(k):
    """hashable python key, or None if symbolic"""
    if isinstance(k, (int, str, Fraction)) or k is None:
        return k
    if isinstance(k, FaceV) and not is_z(k.b):
        return k
    if isinstance(k, FaceV) and num(simp(lift(k.b))) is not None:
        return FaceV(bool(num(simp(lift(k.b)))))
    if isinstance(k, tuple):
        t = tuple(ckey(x) for x in k)
        return None if any(x is None for x in t) else t
    if is_z(k):
        return num(simp(k))
    return None


def access(M, d, k):
    """the entry of a symbolic key in a content that a loop changes"""
    h = d.hid
    for ix, e in enumerate(h.entries):
        if z3.is_true(key_eq_safe(e.key, k)):
            return ix, e
    for e in h.entries:
        c = key_eq_safe(e.key, k)
        if not z3.is_false(c) and not M.known(z3.Not(c)):
            raise Unsupported("two keys that may be equal in one iteration")
    shape = h.shape
    val = None
    if shape is not None:
        val = h.owner.havoc_cell(shape, h)
    e = Entry(k, fresh("mem", B), val)
    h.entries.append(e)
    return len(h.entries) - 1, e


def key_eq_safe(a, b):
    try:
        return lift(key_eq(a, b))
    except Unsupported:
        return z3.BoolVal(False) if type(a) is not type(b) else fresh("q", B)


def hm_now(d, ix, e):
    for j, x in d.overlay:
        if j == ix:
            return x
    return e.msym, e.val


def hm_set(M, o, d, ix, m, v):
    ov = tuple((j, x) for j, x in d.overlay if j != ix) + ((ix, (m, v)),)
    M.set(o, "d", HMap(d.hid, tuple(sorted(ov, key=lambda q: q[0]))))


def dict_member(M, o, k):
    d = M.get(o, "d")
    if isinstance(d, FinMap):
        c = ckey(k)
        if c is not None:
            return find(d, c) is not None
        return py(z3.Or(*[key_eq(x, k) for x in d.m])) if d.m else False
    if isinstance(d, KMap):
        if getattr(o, "loose", False):
            raise Unsupported("membership in a dict that is read at missing keys")
        return py(lift(d.member_at(k)))
    if isinstance(d, HMap):
        ix, e = access(M, d, k)
        return py(lift(hm_now(d, ix, e)[0]))
    raise Unsupported("membership")


def find(d, c):
    for x in d.m:
        if type(x) is type(c) or (isinstance(x, (int, Fraction)) and isinstance(c, (int, Fraction))):
            if isinstance(x, FaceV):
                if x.b == c.b:
                    return (x,)
            elif isinstance(x, tuple):
                if len(x) == len(c) and z3.is_true(key_eq_safe(x, c)):
                    return (x,)
            elif x == c:
                return (x,)
    return None


def default_of(M, o):
    v = M.call(o.factory, [], {})
    return v


def dict_get(M, o, k, missing="raise"):
    if isinstance(o, DictObj) and o.cls == "Counter" and missing == "raise":
        missing = 0
    d = M.get(o, "d")
    if isinstance(d, FinMap):
        c = ckey(k)
        if c is not None:
            f = find(d, c)
            if f is not None:
                return d.m[f[0]]
        else:
            # symbolic key of a finite map
            for x in d.m:
                if M.decide(key_eq(x, k)):
                    return d.m[x]
        if missing != "raise":
            return missing
        if o.factory is not None:
            v = default_of(M, o)
            dict_set(M, o, k, v)
            return v
        M.raise_("KeyError", k)
    if isinstance(d, KMap):
        if o.factory is not None and missing == "raise":
            dv = d.default
            if dv is not None and is_num(dv):
                o.loose = True
                return d.value_at(k)
            v = d.value_at(k)
            if isinstance(v, ListObj):
                o.loose = True
                return v
            raise Unsupported("default of a dict")
        m = lift(d.member_at(k))
        if missing == "raise":
            if not M.decide(m):
                M.raise_("KeyError", k)
            return d.value_at(k)
        return merge(m, d.value_at(k), missing)
    if isinstance(d, HMap):
        h = d.hid
        ix, e = access(M, d, k)
        m, v = hm_now(d, ix, e)
        if o.factory is not None and missing == "raise":
            if v is None:
                sample = default_of(M, o)
                h.default = sample
                if isinstance(sample, ListObj):
                    if M.get(sample, "seq") != ():
                        raise Unsupported("default list")
                elif not is_num(sample):
                    raise Unsupported(f"dict of {type(sample).__name__} built in a loop")
                if h.shape is None:
                    h.shape = h.owner.hshapes.setdefault((h.key, h.path), sample)
                v = e.val = h.owner.havoc_cell(h.shape, h)
            if h.default is None:
                h.default = default_of(M, o)
            # a cell that is not a member holds the default: the closed form starts from it
            hm_set(M, o, d, ix, True, v)
            return v
        if v is None:
            if h.shape is None:
                base = h.init
                sample = None
                if isinstance(base, FinMap) and base.m:
                    sample = next(iter(base.m.values()))
                if sample is None:
                    sample = h.owner.hshapes.get((h.key, h.path))
                if sample is None:
                    if missing != "raise" and is_num(missing):
                        sample = missing
                    else:
                        raise Unsupported("shape of dict values")
                h.shape = sample
            v = e.val = h.owner.havoc_cell(h.shape, h)
        if missing == "raise":
            if not M.decide(lift(m)):
                M.raise_("KeyError", k)
            return v
        return merge(lift(m), v, missing)
    raise Unsupported("dict content")


def dict_set(M, o, k, v):
    d = M.get(o, "d")
    if isinstance(d, FinMap):
        c = ckey(k)
        if c is not None and all(ckey(x) is not None for x in d.m):
            f = find(d, c)
            m = dict(d.m)
            m[f[0] if f else c] = v
            M.set(o, "d", FinMap(m))
            return
        for x in d.m:
            if M.decide(key_eq(x, k)):
                m = dict(d.m)
                m[x] = v
                M.set(o, "d", FinMap(m))
                return
        m = dict(d.m)
        m[HK(k) if False else k] = v
        M.set(o, "d", FinMap(m))
        return
    if isinstance(d, HMap):
        if is_num(v) and d.hid.shape is None:
            d.hid.owner.hshapes.setdefault((d.hid.key, d.hid.path), v)
        ix, e = access(M, d, k)
        hm_set(M, o, d, ix, True, v)
        return
    raise Unsupported("a dict built by a loop is changed outside one")


def dict_del(M, o, k):
    d = M.get(o, "d")
    if isinstance(d, FinMap):
        c = ckey(k)
        if c is not None:
            f = find(d, c)
            if f is None:
                M.raise_("KeyError", k)
            m = dict(d.m)
            del m[f[0]]
            M.set(o, "d", FinMap(m))
            return
        for x in d.m:
            if M.decide(key_eq(x, k)):
                m = dict(d.m)
                del m[x]
                M.set(o, "d", FinMap(m))
                return
        M.raise_("KeyError", k)
    raise Unsupported("deletion from a dict built by a loop")


# -- indexing --------------------------------------------------------------------------------
def norm_slice(M, s, n):
    """(start, count, step) of a slice of a sequence of length n; step is concrete"""
    step = 1 if s.c is None else s.c
    if is_z(step):
        step = M.const_int(step)
    if step is None or step == 0:
        raise Unsupported("slice step")
    n = lift(n)

    def clamp(x, default):
        if x is None:
            return default
        x = unopt(M, x)
        x = lift(x)
        if M.known(x >= 0):
            pass
        elif M.known(x < 0):
            x = simp(n + x)
            if M.known(x >= 0):
                return x
            x = simp(z3.If(x < 0, 0, x))
            return x
        else:
            x = simp(z3.If(x < 0, z3.If(n + x < 0, 0, n + x), x))
        if M.known(x <= n):
            return x
        return simp(z3.If(x > n, n, x))
    if step == 1:
        a, b = clamp(s.a, lift(0)), clamp(s.b, n)
        c = simp(b - a)
        if not M.known(c >= 0):
            c = simp(z3.If(c < 0, 0, c))
        return a, c, 1
    if step == -1 and s.a is None and s.b is None:
        return simp(n - 1), n, -1
    if step > 1:
        a, b = clamp(s.a, lift(0)), clamp(s.b, n)
        c = simp((b - a + step - 1) / step)
        if not M.known(c >= 0):
            c = simp(z3.If(c < 0, 0, c))
        return a, c, step
    raise Unsupported("slice")


def slice_seq(M, seq, s):
    if isinstance(seq, tuple):
        ints = [M.const_int(x) if x is not None else None for x in (s.a, s.b, s.c)]
        if all((x is None) == (y is None) for x, y in zip((s.a, s.b, s.c), ints)):
            return seq[slice(*ints)]
    q = seq_of(seq)
    if q.guard is not None:
        raise Unsupported("slice of conditional items")
    a, c, st = norm_slice(M, s, q.n)
    if st == 1 and num(simp(a)) == 0:
        return SymSeq(py(c), q.fn)
    return SymSeq(py(c), lambda i: q.get(simp(a + lift(i) * st)))


def settle(M, q):
    """the items a conditional sequence has, by cases"""
    return tuple(x for g, x in q.items if M.decide(lift(g)))


def index_seq(M, q, i, kind="IndexError"):
    if isinstance(q, Sparse):
        q = settle(M, q)
    s = seq_of(q)
    if s.guard is not None:
        raise Unsupported("index into conditional items")
    i = unopt(M, i)
    if isinstance(i, bool):
        i = int(i)
    n = lift(s.n)
    x = lift(i)
    if x.sort() != I:
        M.raise_("TypeError", "index")
    c = num(simp(x))
    if c is not None:
        if c >= 0:
            ok = n > c
        else:
            ok = n >= -c
            x = n + c
    else:
        if M.known(x >= 0):
            ok = x < n
        elif M.known(x < 0):
            ok = n + x >= 0
            x = n + x
        else:
            ok = z3.And(x < n, x >= -n)
            x = z3.If(x < 0, n + x, x)
    if not M.known(ok) and not M.decide(ok):
        M.raise_(kind, "index")
    return s.get(simp(x))


def getitem(M, o, k):
    o = unopt(M, o)
    if isinstance(o, (tuple, TupV)):
        if isinstance(k, SliceV):
            r = slice_seq(M, o.seq if isinstance(o, TupV) else o, k)
            return r if isinstance(r, tuple) else TupV(r)
        if isinstance(o, tuple) and isinstance(k, int):
            if -len(o) <= k < len(o):
                return o[k]
            M.raise_("IndexError")
        return index_seq(M, o, k)
    if isinstance(o, ListObj):
        seq = M.get(o, "seq")
        if isinstance(seq, Sparse):
            seq = settle(M, seq)
        if isinstance(k, SliceV):
            return ListObj(slice_seq(M, seq, k))
        if isinstance(seq, tuple) and isinstance(k, int):
            if -len(seq) <= k < len(seq):
                return seq[k]
            M.raise_("IndexError")
        if isinstance(seq, HSeq) and not seq.log and is_num(k):
            seq.hid.owner.by_index(seq.hid)
        return index_seq(M, seq, k)
    if isinstance(o, DictObj):
        return dict_get(M, o, k)
    if isinstance(o, SeriesV):
        if isinstance(k, SliceV):
            if o.index == "other":
                raise Unsupported("slice of a series with an index of its own")
            r = slice_seq(M, o.seq, k)
            whole = (k.a is None or k.a == 0) and k.c is None
            return SeriesV(r, None if whole else "offset")
        if o.index is None and is_num(k):
            return index_seq(M, o.seq, k if not (not is_z(k) and k < 0) else _label(M), "KeyError")
        if isinstance(k, (SeriesV, ArrayV)):
            m = seq_of(k)
            s = seq_of(o)
            if s.guard is not None or not M.known(lift(m.n) == lift(s.n)) or (isinstance(k, SeriesV) and (k.index is not None or o.index is not None)):
                raise Unsupported("mask")
            return SeriesV(SymSeq(s.n, s.fn, lambda j: lift(m.get(j))), "other")
        raise Unsupported("series label")
    if isinstance(o, ArrayV):
        if isinstance(k, SliceV):
            return ArrayV(slice_seq(M, o.seq, k))
        if is_num(k):
            return index_seq(M, o.seq, k)
        if isinstance(k, (ArrayV, SeriesV)):
            m, s = seq_of(k), seq_of(o)
            if s.guard is None and M.known(lift(m.n) == lift(s.n)):
                return ArrayV(SymSeq(s.n, s.fn, lambda j: lift(m.get(j))))
    if isinstance(o, CountsV):
        return counts_get(M, o, k)
    if isinstance(o, BinsV):
        return o.get(M, k)
    if isinstance(o, IlocV):
        if isinstance(k, SliceV):
            r = slice_seq(M, o.s.seq, k)
            return SeriesV(r, "offset") if isinstance(o.s, SeriesV) else ArrayV(r)
        return index_seq(M, o.s.seq, k)
    if isinstance(o, AtV):
        if isinstance(o.s, CountsV):
            return counts_get(M, o.s, k)
        if isinstance(o.s, SeriesV) and o.s.index is None:
            return index_seq(M, o.s.seq, k, "KeyError")
        raise Unsupported(".at")
    if isinstance(o, RangeV):
        return py(index_seq(M, seq_of(o), k))
    if isinstance(o, Obj):
        if o.cls.kind == "namedtuple":
            return getitem(M, M.concrete(o), k)
        c = o.cls.lookup("__getitem__")
        if c is not None:
            return M.call(c, [o, k], {})
    if isinstance(o, Ext):
        return Ext(o.name + "[]")
    if isinstance(o, str) and isinstance(k, (int, SliceV)):
        if isinstance(k, int):
            return o[k]
    if isinstance(o, ClassV):
        return o
    raise Unsupported(f"index into {type(o).__name__}")


def _label(M):
    raise Unsupported("negative label")


def setitem(M, o, k, v):
    if isinstance(o, DictObj):
        return dict_set(M, o, k, v)
    if isinstance(o, BinsV):
        return o.put(M, k, v)
    if isinstance(o, ListObj):
        seq = M.get(o, "seq")
        if isinstance(seq, tuple) and isinstance(k, int):
            if not -len(seq) <= k < len(seq):
                M.raise_("IndexError")
            k %= len(seq)
            M.set(o, "seq", seq[:k] + (v,) + seq[k + 1:])
            return
        if isinstance(seq, tuple) and is_num(k):
            n = len(seq)
            kk = lift(k)
            kk = simp(z3.If(kk < 0, kk + n, kk))
            if not M.decide(z3.And(kk >= 0, kk < n)):
                M.raise_("IndexError")
            M.set(o, "seq", tuple(merge(kk == j, v, x) for j, x in enumerate(seq)))
            return
        if isinstance(seq, HSeq):
            if seq.log:
                raise Unsupported("assignment to an item of a list that the loop builds")
            seq.hid.owner.by_index(seq.hid)
        if isinstance(seq, (SymSeq, tuple)) and is_num(k) and (isinstance(seq, tuple) or seq.guard is None):
            if not isinstance(o.slots["seq"], ByIndex):
                M.set(o, "seq", by_index(seq))
            n, kk = lift(o.slots["seq"].n), lift(k)
            if not M.known(kk >= 0):
                kk = simp(z3.If(kk < 0, kk + n, kk))
            if not M.decide(z3.And(kk >= 0, kk < n)):
                M.raise_("IndexError")
            return li_set(M, o, py(kk), v)
        raise Unsupported("assignment to an element of a long list")
    if isinstance(o, Obj):
        c = o.cls.lookup("__setitem__")
        if c is not None:
            M.call(c, [o, k, v], {})
            return
    if isinstance(o, (SeriesV, ArrayV)):
        raise Unsupported("in-place change of a series")
    raise Unsupported(f"assignment to an item of {type(o).__name__}")


def delitem(M, o, k):
    if isinstance(o, DictObj):
        return dict_del(M, o, k)
    if isinstance(o, Obj):
        c = o.cls.lookup("__delitem__")
        if c is not None:
            M.call(c, [o, k], {})
            return
    if isinstance(o, ListObj):
        seq = M.get(o, "seq")
        if isinstance(seq, tuple) and isinstance(k, int) and -len(seq) <= k < len(seq):
            k %= len(seq)
            M.set(o, "seq", seq[:k] + seq[k + 1:])
            return
    raise Unsupported("del")


def counts_get(M, c, k, missing="raise"):
    cnt = Sum(0, c.seq.n, lambda j: as_int(lift(key_eq(c.seq.get(j), k))))
    cnt = simp(cnt)
    if missing != "raise":
        return merge(cnt > 0, cnt, missing)
    if not M.decide(cnt > 0):
        M.raise_("KeyError", k)
    return cnt


class IlocV:
    def __init__(self, s):
        self.s = s


class AtV:
    def __init__(self, s):
        self.s = s


class ComplexV:
    """element j of a discrete Fourier transform"""

    def __init__(self, lam, n, j):
        self.lam, self.n, self.j = lam, n, j


# -- attributes of library values -----------------------------------------------------------
def method(f):
    return NativeV(f, getattr(f, "__name__", "method"))


def attr(M, v, name):
    if isinstance(v, (SeriesV, CountsV)) and not (isinstance(v, CountsV) and name not in ("at", "get", "loc", "index")):
        USED.add(f"pandas.Series.{name}")
        return series_attr(M, v, name)
    if isinstance(v, ArrayV):
        USED.add(f"numpy.ndarray.{name}")
        return series_attr(M, v, name)
    if isinstance(v, ListObj):
        return list_attr(M, v, name)
    if isinstance(v, DictObj):
        return dict_attr(M, v, name)
    if isinstance(v, BinsV):
        if name in ("keys", "values", "items"):
            return method(lambda M_, a, k: ViewV(v, name))
        if name == "intervals":
            return tuple(v.intervals)
    if isinstance(v, (SeqInputV,)):
        return input_attr(M, v, name)
    if isinstance(v, str):
        return method(lambda M_, a, k: str_method(M, v, name, a))
    if isinstance(v, (Opaque, CtxV)):
        return Opaque(f"{name}")
    if isinstance(v, (tuple, TupV)):
        if name == "count":
            return method(lambda M_, a, k: py(lift(measure(M, v.seq if isinstance(v, TupV) else v, ("count", a[0])))))
        if name == "index":
            raise Unsupported("tuple.index")
    if isinstance(v, PyRaise):
        if name == "args":
            return tuple(v.eargs)
        return Opaque(name)
    if isinstance(v, RangeV):
        if name in ("start", "stop", "step"):
            return getattr(v, name)
    if isinstance(v, (int, Fraction)) or is_z(v):
        if name == "is_integer":
            return method(lambda M_, a, k: py(real(z3.ToInt(real(v))) == real(v)))
        if name in ("real",):
            return v
    if isinstance(v, PropV):
        if name == "setter":
            def setter(M_, a, k):
                p = PropV(v.fget)
                p.fset = a[0]
                return p
            return method(setter)
    if v is None:
        M.raise_("AttributeError", name)
    raise Unsupported(f"attribute {name} of {type(v).__name__}")


def str_method(M, s, name, a):
    if name == "join":
        return Opaque("text")
    if name in ("format",):
        return Opaque("text")
    if all(isinstance(x, (str, int)) for x in a) and name in ("lower", "upper", "strip", "startswith", "endswith", "rstrip", "replace", "count"):
        return getattr(s, name)(*a)
    raise Unsupported(f"str.{name}")


def list_attr(M, l, name):
    if name == "append":
        return method(lambda M_, a, k: list_append(M, l, a[0]))
    if name == "extend":
        return method(lambda M_, a, k: list_extend(M, l, a[0]))
    if name == "copy":
        return method(lambda M_, a, k: ListObj(M.get(l, "seq")))
    if name == "count":
        return method(lambda M_, a, k: py(lift(measure(M, M.get(l, "seq"), ("count", a[0])))))
    if name == "insert":
        def insert(M_, a, k):
            seq = M.get(l, "seq")
            if isinstance(seq, tuple) and isinstance(a[0], int):
                x = list(seq)
                x.insert(a[0], a[1])
                M.set(l, "seq", tuple(x))
                return
            if a[0] == 0:
                M.set(l, "seq", concat(M, (a[1],), seq))
                return
            raise Unsupported("insert")
        return method(insert)
    if name == "clear":
        return method(lambda M_, a, k: M.set(l, "seq", ()))
    if name == "pop":
        def pop(M_, a, k):
            seq = M.get(l, "seq")
            if isinstance(seq, tuple):
                if not seq:
                    M.raise_("IndexError")
                x = list(seq)
                r = x.pop(*a)
                M.set(l, "seq", tuple(x))
                return r
            raise Unsupported("pop")
        return method(pop)
    raise Unsupported(f"list.{name}")


def dict_attr(M, d, name):
    if name in ("keys", "values", "items"):
        return method(lambda M_, a, k: ViewV(d, name))
    if name == "get":
        return method(lambda M_, a, k: dict_get(M, d, a[0], a[1] if len(a) > 1 else None))
    if name == "setdefault":
        def sd(M_, a, k):
            if M.decide(lift(dict_member(M, d, a[0]))):
                return dict_get(M, d, a[0])
            v = a[1] if len(a) > 1 else None
            dict_set(M, d, a[0], v)
            return v
        return method(sd)
    if name == "pop":
        def pop(M_, a, k):
            if len(a) > 1 and not M.decide(lift(dict_member(M, d, a[0]))):
                return a[1]
            v = dict_get(M, d, a[0])
            dict_del(M, d, a[0])
            return v
        return method(pop)
    if name == "clear":
        return method(lambda M_, a, k: M.set(d, "d", FinMap({})))
    if name == "copy":
        return method(lambda M_, a, k: DictObj(M.get(d, "d"), d.factory, d.cls))
    if name == "update":
        def upd(M_, a, k):
            def one(kv):
                kk, vv = M.concrete(kv)
                dict_set(M, d, kk, vv)
            if a:
                src = a[0]
                if isinstance(src, (DictObj, BinsV)):
                    src = ViewV(src, "items")
                M.iterate(src, one)
            for kk, vv in k.items():
                dict_set(M, d, kk, vv)
        return method(upd)
    if name == "default_factory":
        return d.factory
    if name == "most_common" and d.cls == "Counter":
        raise Unsupported("most_common")
    if name in ("bisect_left", "bisect_right", "bisect") and d.cls == "SortedDict":
        return method(lambda M_, a, k: bisect(M, [view_iter(M, d, "keys"), a[0]], "left" if name == "bisect_left" else "right"))
    if name == "peekitem" and d.cls == "SortedDict":
        def peek(M_, a, k):
            items = view_iter(M, d, "items")
            i = a[0] if a else -1
            if not isinstance(i, int):
                if not M.decide(z3.And(lift(i) >= -len(items), lift(i) < len(items))):
                    M.raise_("IndexError")
                j = lift(i)
                j = z3.If(j < 0, j + len(items), j)
                r = items[-1]
                for q in range(len(items) - 2, -1, -1):
                    r = merge(j == q, items[q], r)
                return r
            if not -len(items) <= i < len(items):
                M.raise_("IndexError")
            return items[i]
        return method(peek)
    raise Unsupported(f"dict.{name}")


def bisect(M, a, side):
    seq = a[0]
    if isinstance(seq, (ListObj,)):
        seq = M.get(seq, "seq")
    if isinstance(seq, TupV):
        seq = seq.seq
    if not isinstance(seq, tuple):
        raise Unsupported("bisect in a long list")
    x = a[1]
    t = lift(0)
    for y in seq:
        c = compare(M, ast.Lt() if side == "left" else ast.LtE(), y, x)
        t = t + as_int(lift(c))
    return py(t)


class BinsV(Cell):
    """contract of Bins: distinct intervals, ascending; a key acts on the nearest interval, the larger
    of two equally near.  Bins itself is verified against this contract by C20."""

    def __init__(self, intervals):
        super().__init__(d=FinMap({k: 0 for k in intervals}))
        self.intervals = intervals

    def counts(self, M):
        return M.get(self, "d").m

    def here(self, k):
        """conditions under which each interval is the nearest"""
        ks = self.intervals
        x = real(k)
        out = []
        for j, a in enumerate(ks):
            c = []
            if j > 0:
                c.append(x * 2 >= real(ks[j - 1]) + real(a))
            if j < len(ks) - 1:
                c.append(x * 2 < real(a) + real(ks[j + 1]))
            out.append(simp(z3.And(*c)) if c else z3.BoolVal(True))
        return out

    def get(self, M, k):
        m = self.counts(M)
        r = None
        for c, a in reversed(list(zip(self.here(k), self.intervals))):
            r = m[a] if r is None else merge(c, m[a], r)
        return r

    def put(self, M, k, v):
        m = self.counts(M)
        M.set(self, "d", FinMap({a: merge(c, v, m[a]) for c, a in zip(self.here(k), self.intervals)}))


def contract_bins(M, args, kw):
    ks = M.concrete(args[0] if args else kw["intervals"])
    if any(is_z(k) for k in ks):
        raise Unsupported("symbolic intervals")
    if len(set(ks)) != len(ks):
        M.raise_("ValueError", "duplicate")
    return BinsV(tuple(sorted(ks)))


def nonempty_reduce(M, s, what):
    if not M.decide(lift(s.n) > 0):
        M.raise_("ValueError", f"{what} of nothing")


def series_attr(M, v, name):
    if name == "iloc":
        return IlocV(v)
    if name in ("at", "loc"):
        return AtV(v)
    if isinstance(v, CountsV):
        if name == "get":
            return method(lambda M_, a, k: counts_get(M, v, a[0], a[1] if len(a) > 1 else None))
        raise Unsupported(f"value_counts().{name}")
    s = seq_of(v)
    one = lambda f: method(lambda M_, a, k: f(*a, **k))
    series = isinstance(v, SeriesV)

    def body(j):
        x = s.get(j)
        if s.guard is None:
            return lift(x)
        x = lift(x)
        x = as_int(x) if z3.is_bool(x) else x
        return z3.If(lift(s.guard(j)), x, lift(0) if x.sort() == I else real(0))
    if name in ("values", "array") and series:
        return ArrayV(v.seq)
    if name in ("to_numpy", "to_list", "tolist"):
        return one(lambda *a: ListObj(v.seq) if "list" in name else ArrayV(v.seq))
    if name == "size":
        return py(lift(s.n))
    if name in ("sum",):
        return one(lambda: py(Sum(0, s.n, body)))
    if name in ("items", "iteritems") and series:
        lab = (lambda i: py(lift(i))) if v.index is None else (lambda i: Opaque("label"))
        return one(lambda: IterObj(SymSeq(s.n, lambda i: (lab(i), s.get(i)), s.guard)))
    if s.guard is not None:
        if name == "count":
            return one(lambda: py(Sum(0, s.n, lambda j: as_int(lift(s.guard(j))))))
        raise Unsupported(f"{name} of a filtered series")
    if name == "abs":
        return one(lambda: elementwise(v, lambda x: pure(M, lambda: m_abs(M, [x], {}))))
    if name == "cumsum":
        def cs():
            q = SymSeq(s.n, lambda i: py(Sum(0, simp(lift(i) + 1), lambda j: lift(s.get(j)))))
            return SeriesV(q, v.index) if series else ArrayV(q)
        return one(cs)
    if name in ("max", "min"):
        def mx():
            nonempty_reduce(M, s, name)
            f = Max if name == "max" else Min
            return py(f(0, s.n, s.get(0), s.get))
        return one(mx)
    if name == "nlargest":
        def nl(k=5):
            if k != 1:
                raise Unsupported("nlargest")
            if not M.decide(lift(s.n) > 0):
                return SeriesV((), "other")
            return SeriesV((py(Max(0, s.n, s.get(0), s.get)),), "other")
        return one(nl)
    if name == "mean":
        def mean():
            M.oblige("division by zero", lift(s.n) > 0)
            return py(real(Sum(0, s.n, lambda j: lift(s.get(j)))) / real(s.n))
        return one(mean)
    if name == "count":
        return one(lambda: py(lift(s.n)))
    if name in ("any", "all"):
        return one(lambda: py((Ex if name == "any" else All)(0, s.n, lambda j: lift(M.truth(s.get(j))))))
    if name == "nunique":
        def nu():
            e = s.get(fresh("j"))
            if not isinstance(e, FaceV):
                raise Unsupported("nunique of numbers")
            h = Ex(0, s.n, lambda j: lift(s.get(j).b))
            t = Ex(0, s.n, lambda j: z3.Not(lift(s.get(j).b)))
            return py(as_int(h) + as_int(t))
        return one(nu)
    if name == "hasnans":
        return False
    if name == "value_counts":
        def vc(**k):
            if k:
                raise Unsupported("value_counts arguments")
            return CountsV(s)
        return one(vc)
    if name == "reset_index":
        def ri(drop=False):
            if drop is not True:
                raise Unsupported("reset_index")
            return SeriesV(v.seq, None)
        return one(ri)
    if name in ("copy", "astype"):
        if name == "astype":
            def ast_(t, *a, **k):
                nm = t.name if isinstance(t, Ext) else t
                e = s.get(fresh("j"))
                if nm in ("builtins.int", "int", "int64", "numpy.int64") and is_num(e) and not isreal(e):
                    return elementwise(v, lambda x: py(as_int(lift(x))))
                raise Unsupported("astype")
            return one(ast_)
        return one(lambda *a, **k: type(v)(v.seq, v.index) if series else ArrayV(v.seq))
    if name == "tail" or name == "head":
        def ht(k=5):
            if name == "head":
                return getitem(M, IlocV(v), SliceV(None, k, None))
            return getitem(M, IlocV(v), SliceV(-k if not is_z(k) else -k, None, None))
        return one(ht)
    if name in ("eq", "ne", "lt", "gt", "le", "ge", "add", "sub", "mul"):
        ops = dict(eq=ast.Eq, ne=ast.NotEq, lt=ast.Lt, gt=ast.Gt, le=ast.LtE, ge=ast.GtE, add=ast.Add, sub=ast.Sub, mul=ast.Mult)
        op = ops[name]()
        return one(lambda x: compare(M, op, v, x) if isinstance(op, ast.cmpop) else binop(M, op, v, x))
    if name == "drop_duplicates" and isinstance(v, GateSeries):
        raise Unsupported("drop_duplicates")
    if name == "drop_duplicates":
        raise Unsupported("drop_duplicates of a series in a test")
    raise Unsupported(f"Series.{name}")


class GateSeries(SeriesV):
    pass


class SeqInputV:
    """what the caller passes: a Series with any index, or another container of the same values"""

    def __init__(self, is_series, seq, nans, nunique, info):
        self.is_series, self.seq, self.nans, self.nunique, self.info = is_series, seq, nans, nunique, info


class RawSeriesV:
    """the sequence as a Series, before it is known to be binary"""

    def __init__(self, inp, index):
        self.inp, self.index = inp, index


def input_attr(M, v, name):
    raise Unsupported(f"attribute {name} of the passed sequence")


def obj_attr(M, v, name):
    """methods that Python's abstract collections or dataclasses give"""
    mro = [c.name for c in v.cls.mro() if isinstance(c, Ext)]
    mapping = any(n in ("collections.abc.Mapping", "collections.abc.MutableMapping") for n in mro)
    seq = any(n in ("collections.abc.MutableSequence", "collections.abc.Sequence") for n in mro)
    if mapping and name in ("keys", "values", "items"):
        return method(lambda M_, a, k: ViewV(v, name))
    if mapping and name == "get":
        def get(M_, a, k):
            try:
                return M.getitem(v, a[0])
            except PyRaise as e:
                if not M.exc_matches(e, Ext("builtins.KeyError")):
                    raise
                return a[1] if len(a) > 1 else None
        return method(get)
    if seq and name == "append":
        return method(lambda M_, a, k: M.call(M.getattr_(v, "insert"), [length(M, v), a[0]], {}))
    if seq and name == "extend":
        return method(lambda M_, a, k: M.iterate(a[0], lambda x: M.call(M.getattr_(v, "append"), [x], {})))
    if v.cls.kind == "namedtuple":
        if name == "_asdict":
            return method(lambda M_, a, k: DictObj(FinMap(dict(v.slots))))
        if name == "_fields":
            return tuple(n for n, _ in v.cls.fields)
        if name == "_replace":
            def rep(M_, a, k):
                o = Obj(v.cls)
                o.slots.update(v.slots)
                o.slots.update(k)
                return o
            return method(rep)
    if name == "args":
        return v.slots.get("args", ())
    return None


# -- functions -------------------------------------------------------------------------------
EXT = {}


def ext(*names):
    def d(f):
        for n in names:
            EXT[n] = f
        return f
    return d


def call_ext(M, name, args, kw):
    f = EXT.get(name)
    if f is None:
        b = name[9:] if name.startswith("builtins.") else None
        import builtins
        c = getattr(builtins, b, None) if b else None
        if isinstance(c, type) and issubclass(c, BaseException):
            return PyRaise(Ext(name), tuple(args))
        if name.split(".")[0] in ("rich", "altair", "click"):
            return Opaque(name)
        raise Unsupported(f"call of {name}")
    if not name.startswith("builtins."):
        USED.add(name)
    return f(M, args, kw)


def nargs(M, args):
    return [unopt(M, a) for a in args]


def mathfn(name, dom=None, conc=None):
    def f(M, args, kw):
        x = unopt(M, args[0])
        if isinstance(x, (SeriesV, ArrayV)):
            return elementwise(x, lambda e: pure(M, lambda: f(M, [e], {})))
        if not is_num(x):
            raise Unsupported(f"{name} of {type(x).__name__}")
        if dom is not None:
            M.oblige(f"domain of {name}", dom(real(x)))
        if conc is not None:
            c = conc(x)
            if c is not None:
                return c
        return py(fn(name, x))
    return f


def m_sqrt(M, args, kw):
    x = unopt(M, args[0])
    M.oblige("domain of sqrt", real(x) >= 0)
    return py(T.sqrt(x))


ext("math.sqrt", "numpy.sqrt")(m_sqrt)
ext("math.erfc", "scipy.special.erfc")(mathfn("ERFC"))
ext("math.exp", "numpy.exp")(mathfn("EXP", conc=lambda x: Fraction(1) if num(simp(lift(x))) == 0 else None))


@ext("math.log", "numpy.log")
def m_log(M, args, kw):
    x = unopt(M, args[0])
    M.oblige("domain of log", real(x) > 0)
    if len(args) == 2:
        b = num(simp(lift(args[1])))
        if b == 2:
            return py(fn("LOG2", x))
        raise Unsupported("log with a base")
    return py(fn("LOG", x))


ext("math.log2", "numpy.log2")(mathfn("LOG2", dom=lambda x: x > 0))


@ext("math.floor")
def m_floor(M, args, kw):
    return py(floor(_n(M, args[0])))


@ext("math.ceil")
def m_ceil(M, args, kw):
    return py(ceil(_n(M, args[0])))


def _n(M, x):
    x = unopt(M, x)
    if not is_num(x):
        raise Unsupported("a number expected")
    x = lift(x)
    return as_int(x) if z3.is_bool(x) else x


@ext("math.isclose")
def m_isclose(M, args, kw):
    a, b = real(_n(M, args[0])), real(_n(M, args[1]))
    return decl("ISCLOSE", R, R, B)(a, b)


@ext("math.prod", "math.comb", "math.factorial", "math.pow")
def m_unknown(M, args, kw):
    raise Unsupported("math function")


@ext("scipy.special.gammaincc")
def m_igamc(M, args, kw):
    a, x = (real(_n(M, v)) for v in args)
    M.oblige("domain of gammaincc", z3.And(a > 0, x >= 0))
    return py(T.igamc(a, x))


@ext("scipy.special.hyp1f1")
def m_hyp(M, args, kw):
    return py(fn("HYP1F1", *[_n(M, v) for v in args]))


@ext("scipy.stats.norm.cdf")
def m_cdf(M, args, kw):
    return py(fn("NORMCDF", _n(M, args[0])))


@ext("scipy.stats.chisquare")
def m_chisquare(M, args, kw):
    args = list(args)
    if len(args) < 2:
        if "f_exp" not in kw:
            raise Unsupported("chisquare")
        args.append(kw["f_exp"])
    if set(kw) - {"f_exp"}:
        raise Unsupported("chisquare arguments")
    o, e = to_seq(M, args[0]), to_seq(M, args[1])
    n = M.const_int(o.n)
    if n is not None and M.const_int(e.n) == n:
        os_, es = [real(o.get(k)) for k in range(n)], [real(e.get(k)) for k in range(n)]
        so, se = simp(z3.Sum(*os_)), simp(z3.Sum(*es))
        stat = simp(z3.Sum(*[(a - b) * (a - b) / b for a, b in zip(os_, es)]))
        pos = simp(z3.And(*[b > 0 for b in es]))
        k = lift(n - 1)
    else:
        if not M.known(lift(o.n) == lift(e.n)):
            raise Unsupported("chisquare of different lengths")
        so, se = Sum(0, o.n, lambda j: real(o.get(j))), Sum(0, e.n, lambda j: real(e.get(j)))
        stat = Sum(0, o.n, lambda j: (real(o.get(j)) - real(e.get(j))) * (real(o.get(j)) - real(e.get(j))) / real(e.get(j)))
        pos = All(0, e.n, lambda j: real(e.get(j)) > 0)
        k = simp(lift(o.n) - 1)
    M.oblige("chisquare: expected frequencies positive", pos)
    M.oblige("chisquare: observed and expected frequencies agree", so == se)
    p = decl("CHI2SF", I, R, R)(k, stat)
    return (py(stat), py(p))


def to_seq(M, v):
    if isinstance(v, ListObj):
        v = M.get(v, "seq")
    if isinstance(v, (ViewV,)):
        v = v.seq(M)
    if isinstance(v, Obj) and v.cls.kind == "namedtuple":
        v = M.concrete(v)
    s = seq_of(v)
    if s.guard is not None:
        raise Unsupported("conditional items")
    return s


@ext("scipy.fft.fft", "numpy.fft.fft")
def m_fft(M, args, kw):
    s = to_seq(M, args[0])
    j = fresh("j")
    l = T.lam([j], simp(real(s.get(j))))
    n = lift(s.n)
    return ArrayV(SymSeq(s.n, lambda i: ComplexV(l, n, lift(i))))


@ext("scipy.fft.rfft", "numpy.fft.rfft")
def m_rfft(M, args, kw):
    s = to_seq(M, args[0])
    j = fresh("j")
    l = T.lam([j], simp(real(s.get(j))))
    n = lift(s.n)
    return ArrayV(SymSeq(simp(n / 2 + 1), lambda i: ComplexV(l, n, lift(i))))


# builtins
@ext("builtins.len")
def b_len(M, args, kw):
    v = args[0]
    if isinstance(v, RawSeriesV):
        return v.inp.info["n"]
    return length(M, unopt(M, v))


def m_abs(M, args, kw):
    v = unopt(M, args[0])
    if isinstance(v, ComplexV):
        return fn_fft(v)
    if isinstance(v, (SeriesV, ArrayV)):
        return elementwise(v, lambda x: pure(M, lambda: m_abs(M, [x], {})))
    if not is_z(v):
        return abs(v)
    if isinstance(v, bool) or z3.is_bool(v):
        return as_int(v)
    return py(zabs(v))


def fn_fft(v):
    return decl("FFTMOD", z3.ArraySort(I, R), I, I, R)(v.lam, v.n, simp(v.j))




def _ev_fft(ch, env, stack, memo, ev):
    import numpy as np
    n, j = ev(ch[1]), ev(ch[2])
    x = [float(T._lam_eval(ch[0], env, stack, memo, (i,))) for i in range(n)]
    return float(abs(np.fft.fft(x)[j]))


def _ev_chi2(ch, env, stack, memo, ev):
    return T._igamc(ev(ch[0]) / 2, ev(ch[1]) / 2)


def _ev_isclose(ch, env, stack, memo, ev):
    import math
    return math.isclose(ev(ch[0]), ev(ch[1]))


T.SPECIAL.update(FFTMOD=_ev_fft, CHI2SF=_ev_chi2, ISCLOSE=_ev_isclose)
ext("builtins.abs", "numpy.abs", "numpy.absolute", "math.fabs")(m_abs)


def m_minmax(which):
    def f(M, args, kw):
        key = kw.pop("key", None) if kw else None
        default = kw.pop("default", UNDEF) if kw else UNDEF
        if len(args) == 1:
            v = args[0]
            if isinstance(v, (GenV,)) or not isinstance(v, tuple):
                if isinstance(v, (ListObj, TupV, SeriesV, ArrayV, RangeV, ViewV, GenV, DictObj)):
                    items = collect_seq(M, v)
                    if isinstance(items, SymSeq):
                        if key is not None:
                            raise Unsupported("max with a key of a long list")
                        if not M.decide(lift(items.n) > 0):
                            if default is not UNDEF:
                                return default
                            M.raise_("ValueError")
                        if items.guard is not None:
                            raise Unsupported("max of conditional items")
                        return py((Max if which == "max" else Min)(0, items.n, items.get(0), items.get))
                    args = items
                else:
                    args = M.concrete(v)
            else:
                args = v
        if not args:
            if default is not UNDEF:
                return default
            M.raise_("ValueError")
        args = [unopt(M, a) for a in args]
        kf = (lambda x: M.call(key, [x], {})) if key is not None else (lambda x: x)
        if key is None and all(isinstance(a, FaceV) for a in args):
            return FaceV(simp((z3.Or if which == "max" else z3.And)(*[lift(a.b) for a in args])))
        best = args[0]
        for x in args[1:]:
            c = compare(M, ast.Gt() if which == "max" else ast.Lt(), kf(x), kf(best))
            if isinstance(c, bool):
                best = x if c else best
            elif is_num(x) and is_num(best) and isinstance(x, bool) == isinstance(best, bool):
                best = py((zmax if which == "max" else zmin)(best, x))
            else:
                best = merge(c, x, best)
        return best
    return f


ext("builtins.max")(m_minmax("max"))
ext("builtins.min")(m_minmax("min"))


def collect_seq(M, v):
    """tuple or SymSeq of the items"""
    if isinstance(v, tuple):
        return v
    if isinstance(v, (ListObj, TupV, SeriesV, ArrayV, RangeV, ViewV, DictObj, SymSeq)):
        s = M.get(v, "seq") if isinstance(v, ListObj) else iter_value(M, v)
        if isinstance(s, (tuple, SymSeq, Sparse)):
            if isinstance(s, SymSeq):
                n = M.const_int(s.n)
                if n is not None and s.guard is None and n <= M.unrolled_limit:
                    return tuple(s.get(k) for k in range(n))
            return s
    out = ListObj(())
    M.iterate(v, lambda x: list_append(M, out, x))
    return M.get(out, "seq")


@ext("builtins.sum", "numpy.sum", "math.fsum")
def b_sum(M, args, kw):
    v = args[0]
    start = args[1] if len(args) > 1 else 0
    if isinstance(v, ViewV) and v.kind == "values" and isinstance(v.d, DictObj):
        d = M.get(v.d, "d")
        if isinstance(d, KMap) and getattr(d, "additive", None) is not None and not getattr(v.d, "loose", False):
            # sum over the distinct keys of the sums per key: the sum over all iterations
            M.loop_rules["fibres"] = M.loop_rules.get("fibres", 0) + 1
            return py(Sum(0, d.n, lambda j: lift(d.additive(j))) + lift(start))
    if isinstance(v, (SeriesV, ArrayV, TupV, ListObj, ViewV, RangeV)):
        s = collect_seq(M, v)
        if isinstance(s, SymSeq):
            e = s.get(fresh("j"))
            if not is_num(e):
                raise Unsupported("sum")

            def body(j):
                x = lift(s.get(j))
                x = as_int(x) if z3.is_bool(x) else x
                if s.guard is not None:
                    x = z3.If(lift(s.guard(j)), x, lift(0) if x.sort() == I else real(0))
                return x
            return binop(M, ast.Add(), start, py(Sum(0, s.n, body)))
        if isinstance(s, tuple):
            acc = start
            for x in s:
                acc = binop(M, ast.Add(), acc, x)
            return acc
    cell = Cell(acc=start)

    def one(x):
        M.set(cell, "acc", binop(M, ast.Add(), M.get(cell, "acc"), x))
    M.iterate(v, one)
    return M.get(cell, "acc")


def b_allany(which):
    def f(M, args, kw):
        v = args[0]
        if isinstance(v, (ListObj, tuple, TupV, SeriesV, ArrayV)):
            s = collect_seq(M, v)
            if isinstance(s, tuple):
                ts = [lift(M.truth(x)) for x in s]
                return py(z3.And(*ts) if which == "all" else z3.Or(*ts)) if ts else which == "all"
            if isinstance(s, SymSeq):
                g = s.guard or (lambda j: z3.BoolVal(True))
                if which == "all":
                    return py(All(0, s.n, lambda j: z3.Implies(lift(g(j)), lift(M.truth(s.get(j))))))
                return py(Ex(0, s.n, lambda j: z3.And(lift(g(j)), lift(M.truth(s.get(j))))))
        cell = Cell(acc=which == "all")

        def one(x):
            t = lift(M.truth(x))
            a = lift(M.get(cell, "acc"))
            M.set(cell, "acc", py(z3.And(a, t) if which == "all" else z3.Or(a, t)))
        M.iterate(v, one)
        return M.get(cell, "acc")
    return f


ext("builtins.all", "numpy.all")(b_allany("all"))
ext("builtins.any", "numpy.any")(b_allany("any"))


@ext("builtins.list")
def b_list(M, args, kw):
    if not args:
        return ListObj(())
    return ListObj(collect_seq(M, args[0]))


@ext("builtins.tuple")
def b_tuple(M, args, kw):
    if not args:
        return ()
    v = args[0]
    if isinstance(v, Obj) and v.cls.kind == "namedtuple":
        return M.concrete(v)
    s = collect_seq(M, v)
    if isinstance(s, Sparse):
        raise Unsupported("tuple of conditional items")
    return s if isinstance(s, tuple) else TupV(s)


@ext("builtins.dict")
def b_dict(M, args, kw):
    d = DictObj()
    if args:
        dict_attr(M, d, "update").fn(M, [args[0]], {})
    for k, v in kw.items():
        dict_set(M, d, k, v)
    return d


@ext("builtins.range", "numpy.arange")
def b_range(M, args, kw):
    a = [unopt(M, x) for x in args]
    for x in a:
        if isreal(x) or not is_num(x):
            M.raise_("TypeError", "range")
    if len(a) == 1:
        return RangeV(0, a[0], 1)
    if len(a) == 2:
        return RangeV(a[0], a[1], 1)
    return RangeV(*a)


@ext("builtins.enumerate")
def b_enumerate(M, args, kw):
    start = args[1] if len(args) > 1 else kw.get("start", 0)
    v = args[0]

    def run(cb):
        if isinstance(v, (ListObj, tuple, TupV, SeriesV, ArrayV, RangeV, str)):
            s = collect_seq(M, tuple(v) if isinstance(v, str) else v)
            if isinstance(s, tuple):
                return M.iterate(tuple((py(lift(start) + j), x) for j, x in enumerate(s)), cb)
            if isinstance(s, SymSeq) and s.guard is None:
                return M.iterate(SymSeq(s.n, lambda i: (py(lift(start) + lift(i)), s.get(i))), cb)
        cell = Cell(k=start)

        def one(x):
            k = M.get(cell, "k")
            M.set(cell, "k", binop(M, ast.Add(), k, 1))
            cb((k, x))
        M.iterate(v, one)
    return GenV(run)


@ext("builtins.zip")
def b_zip(M, args, kw):
    seqs = [seq_arg(M, a) for a in args]
    if all(isinstance(s, tuple) for s in seqs):
        return ListIter(tuple(zip(*seqs)))
    ss = [seq_of(s) for s in seqs]
    if any(s.guard is not None for s in ss):
        raise Unsupported("zip of conditional items")
    n = lift(ss[0].n)
    for s in ss[1:]:
        m = lift(s.n)
        if M.known(n <= m):
            continue
        if M.known(m <= n):
            n = m
            continue
        n = simp(z3.If(m < n, m, n))
    return GenV(lambda cb: M.iterate(SymSeq(n, lambda i: tuple(s.get(i) for s in ss)), cb))


def ListIter(t):
    return t


def seq_arg(M, a):
    if isinstance(a, GenV):
        return collect_seq(M, a)
    if isinstance(a, IterObj):
        out = ListObj(())
        M.iterate(a, lambda x: list_append(M, out, x))
        return M.get(out, "seq")
    return collect_seq(M, a)


@ext("builtins.reversed")
def b_reversed(M, args, kw):
    s = collect_seq(M, args[0])
    if isinstance(s, tuple):
        return tuple(reversed(s))
    if s.guard is not None:
        raise Unsupported("reversed conditional items")
    return ListObj(SymSeq(s.n, lambda i: s.get(simp(lift(s.n) - 1 - lift(i)))))


@ext("builtins.sorted")
def b_sorted(M, args, kw):
    s = collect_seq(M, args[0])
    if isinstance(s, tuple) and all(isinstance(x, (int, Fraction)) for x in s) and "key" not in kw:
        return ListObj(tuple(sorted(s, reverse=bool(kw.get("reverse", False)))))
    raise Unsupported("sorted")


@ext("builtins.map")
def b_map(M, args, kw):
    f = args[0]
    if len(args) != 2:
        raise Unsupported("map")
    return GenV(lambda cb: M.iterate(args[1], lambda x: cb(M.call(f, [x], {}))))


@ext("builtins.filter")
def b_filter(M, args, kw):
    f = args[0]

    def run(cb):
        def one(x):
            if M.decide(M.truth(x if f is None else M.call(f, [x], {}))):
                cb(x)
        M.iterate(args[1], one)
    return GenV(run)


@ext("builtins.iter")
def b_iter(M, args, kw):
    v = args[0]
    if isinstance(v, (GenV, IterObj)):
        return v
    if isinstance(v, Obj) and v.cls.lookup("__iter__") is not None:
        return M.call(v.cls.lookup("__iter__"), [v], {})
    return IterObj(collect_seq(M, v))


@ext("builtins.next")
def b_next(M, args, kw):
    v = args[0]
    if isinstance(v, IterObj):
        pos = M.get(v, "pos")
        if isinstance(v.src, tuple) and isinstance(pos, int):
            if pos < len(v.src):
                M.set(v, "pos", pos + 1)
                return v.src[pos]
            if len(args) > 1:
                return args[1]
            M.raise_("StopIteration")
        s = seq_of(v.src)
        if s.guard is not None:
            raise Unsupported("next of conditional items")
        if M.decide(lift(pos) < lift(s.n)):
            M.set(v, "pos", py(lift(pos) + 1))
            return s.get(simp(lift(pos)))
        if len(args) > 1:
            return args[1]
        M.raise_("StopIteration")
    if isinstance(v, GenV):
        token = object()

        def one(x):
            raise StopSig(token, x)

        def again():
            v.used = False
            M.iterate(v, one)
        nob = len(M.obs)
        try:
            ps = M.paths(again, 8)
        except Unsupported:
            ps = []
        if len(ps) > 1 and all(isinstance(p.kind, StopSig) and p.kind.token is token and isinstance(p.kind.value, FaceV) and all(getattr(c, "comp", False) for c, _, _ in p.frozen.values()) for p in ps):
            if M.in_prefix():
                del M.obs[nob:]
            r = None
            for j, p in enumerate(reversed(ps)):
                r = p.kind.value if j == 0 else merge(p.cond(), p.kind.value, r)
            return r
        del M.obs[nob:]
        v.used = False
        try:
            M.iterate(v, one)
        except StopSig as s:
            if s.token is not token:
                raise
            return s.value
        if len(args) > 1:
            return args[1]
        M.raise_("StopIteration")
    if isinstance(v, Obj):
        c = v.cls.lookup("__next__")
        if c is not None:
            return M.call(c, [v], {})
    raise Unsupported("next")


@ext("builtins.int", "numpy.int64")
def b_int(M, args, kw):
    v = unopt(M, args[0]) if args else 0
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Fraction):
        return int(v)
    if is_z(v):
        if z3.is_bool(v):
            return as_int(v)
        if v.sort() == I:
            return v
        return py(z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)))
    raise Unsupported("int()")


@ext("builtins.float", "numpy.float64")
def b_float(M, args, kw):
    v = unopt(M, args[0])
    if is_num(v):
        return Fraction(v) if not is_z(v) else py(real(v))
    raise Unsupported("float()")


@ext("builtins.bool")
def b_bool(M, args, kw):
    t = M.truth(args[0])
    return t if isinstance(t, bool) else py(t)


@ext("builtins.str", "builtins.repr")
def b_str(M, args, kw):
    return args[0] if args and isinstance(args[0], str) else Opaque("text")


@ext("builtins.round")
def b_round(M, args, kw):
    v = args[0]
    if len(args) == 1 and isinstance(v, (int,)):
        return v
    raise Unsupported("round")


@ext("builtins.print")
def b_print(M, args, kw):
    return None


@ext("builtins.pow")
def b_pow(M, args, kw):
    if len(args) == 2:
        return power(M, unopt(M, args[0]), unopt(M, args[1]))
    raise Unsupported("pow")


@ext("builtins.divmod")
def b_divmod(M, args, kw):
    return (arith(M, ast.FloorDiv(), args[0], args[1]), arith(M, ast.Mod(), args[0], args[1]))


@ext("builtins.slice")
def b_slice(M, args, kw):
    a = list(args)
    if len(a) == 1:
        return SliceV(None, a[0], None)
    return SliceV(*(a + [None] * (3 - len(a))))


@ext("builtins.object")
def b_object(M, args, kw):
    return Opaque("object")


@ext("builtins.type")
def b_type(M, args, kw):
    v = args[0]
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, PyRaise):
        return M.exc_class(v)
    return Opaque("type")


@ext("builtins.isinstance")
def b_isinstance(M, args, kw):
    v, c = args
    if isinstance(v, SeqInputV):
        if isinstance(c, Ext) and c.name == "pandas.Series":
            return v.is_series
        raise Unsupported("type of the passed sequence")
    if isinstance(c, tuple):
        rs = [b_isinstance(M, [v, x], {}) for x in c]
        if any(r is True for r in rs):
            return True
        return False if all(r is False for r in rs) else py(z3.Or(*[lift(r) for r in rs]))
    if isinstance(v, PyRaise):
        return M.exc_matches(v, c)
    if isinstance(v, Obj):
        return M.subclass(v.cls, c)
    if isinstance(c, Ext):
        n = c.name
        if n == "pandas.Series":
            return isinstance(v, (SeriesV, CountsV, RawSeriesV))
        if n == "builtins.int":
            return (isinstance(v, int)) or (is_z(v) and v.sort() in (I, B))
        if n == "builtins.bool":
            return isinstance(v, bool) or (is_z(v) and v.sort() == B)
        if n == "builtins.float":
            return isreal(v)
        if n == "builtins.slice":
            return isinstance(v, SliceV)
        if n == "builtins.str":
            return isinstance(v, (str,))
        if n in ("builtins.list",):
            return isinstance(v, ListObj)
        if n == "builtins.tuple":
            return isinstance(v, (tuple, TupV))
        if n == "builtins.dict":
            return isinstance(v, DictObj)
        if n in ("typing.Iterable", "collections.abc.Iterable"):
            return isinstance(v, (ListObj, tuple, TupV, DictObj, GenV, RangeV, IterObj, SeriesV, ArrayV, str, ViewV))
        if n in ("typing.Sequence", "collections.abc.Sequence"):
            return isinstance(v, (ListObj, tuple, TupV, RangeV, str))
    if isinstance(c, ClassV):
        return isinstance(v, Obj) and M.subclass(v.cls, c)
    raise Unsupported("isinstance")


@ext("builtins.issubclass")
def b_issubclass(M, args, kw):
    return M.subclass(*args)


@ext("builtins.hasattr", "builtins.getattr")
def b_getattr(M, args, kw):
    if len(args) >= 2 and isinstance(args[1], str):
        return M.getattr_(args[0], args[1])
    raise Unsupported("getattr")


@ext("builtins.setattr")
def b_setattr(M, args, kw):
    if isinstance(args[1], str):
        return M.setattr_(*args)
    raise Unsupported("setattr")


@ext("builtins.super")
def b_super(M, args, kw):
    raise Unsupported("super")


@ext("builtins.property")
def b_property(M, args, kw):
    return PropV(args[0])


@ext("builtins.staticmethod")
def b_static(M, args, kw):
    return StaticV(args[0])


@ext("builtins.classmethod")
def b_classm(M, args, kw):
    return ClassMethodV(args[0])


@ext("functools.lru_cache", "functools.cache")
def b_lru(M, args, kw):
    if args and isinstance(args[0], FuncV):
        return args[0]
    return NativeV(lambda M_, a, k: a[0], "lru_cache")  # memoisation of a function without effects


@ext("functools.wraps")
def b_wraps(M, args, kw):
    return NativeV(lambda M_, a, k: a[0], "wraps")


@ext("functools.partial")
def b_partial(M, args, kw):
    f, a0, k0 = args[0], list(args[1:]), dict(kw)
    return NativeV(lambda M_, a, k: M.call(f, a0 + list(a), dict(k0, **k)), "partial")


@ext("functools.reduce")
def b_reduce(M, args, kw):
    f = args[0]
    if len(args) < 3:
        raise Unsupported("reduce without an initial value")
    cell = Cell(acc=args[2])
    M.iterate(args[1], lambda x: M.set(cell, "acc", M.call(f, [M.get(cell, "acc"), x], {})))
    return M.get(cell, "acc")


@ext("dataclasses.dataclass")
def b_dataclass(M, args, kw):
    def deco(M_, a, k):
        c = a[0]
        fs = []
        for b in reversed(c.mro()[1:]):
            if isinstance(b, ClassV) and b.fields:
                for f in b.fields:
                    fs = [x for x in fs if x[0] != f[0]] + [f] if f[0] not in [x[0] for x in fs] else [f if x[0] == f[0] else x for x in fs]
        for f in c.anns:
            fs = [f if x[0] == f[0] else x for x in fs] if f[0] in [x[0] for x in fs] else fs + [f]
        c.kind, c.fields = "dataclass", fs
        return c
    if args and isinstance(args[0], ClassV):
        return deco(M, args, {})
    return NativeV(deco, "dataclass")


@ext("dataclasses.field")
def b_field(M, args, kw):
    raise Unsupported("dataclasses.field")


@ext("dataclasses.astuple")
def b_astuple(M, args, kw):
    o = args[0]
    return tuple(M.get(o, n) for n, _ in o.cls.fields)


@ext("dataclasses.asdict")
def b_asdict(M, args, kw):
    o = args[0]
    return DictObj(FinMap({n: M.get(o, n) for n, _ in o.cls.fields}))


@ext("dataclasses.fields")
def b_fields(M, args, kw):
    o = args[0]
    c = o.cls if isinstance(o, Obj) else o
    return tuple(Opaque(n) for n, _ in c.fields)


@ext("operator.attrgetter")
def b_attrgetter(M, args, kw):
    n = args[0]
    if len(args) != 1:
        raise Unsupported("attrgetter")
    return NativeV(lambda M_, a, k: M.getattr_(a[0], n), "attrgetter")


@ext("operator.itemgetter")
def b_itemgetter(M, args, kw):
    n = args[0]
    if len(args) != 1:
        raise Unsupported("itemgetter")
    return NativeV(lambda M_, a, k: M.getitem(a[0], n), "itemgetter")


@ext("copy.copy")
def b_copy(M, args, kw):
    v = args[0]
    if isinstance(v, ListObj):
        return ListObj(M.get(v, "seq"))
    if isinstance(v, DictObj):
        return DictObj(M.get(v, "d"), v.factory, v.cls)
    if isinstance(v, (tuple, TupV)) or is_num(v):
        return v
    raise Unsupported("copy")


@ext("collections.defaultdict")
def b_defaultdict(M, args, kw):
    if len(args) > 1:
        raise Unsupported("defaultdict with content")
    return DictObj(FinMap({}), args[0] if args else None, "defaultdict")


@ext("collections.OrderedDict")
def b_od(M, args, kw):
    return b_dict(M, args, kw)


@ext("sortedcontainers.SortedDict")
def b_sorteddict(M, args, kw):
    d = b_dict(M, args, kw)
    c = M.get(d, "d")
    if not isinstance(c, FinMap) or any(is_z(k) for k in c.m):
        raise Unsupported("SortedDict of symbolic keys")
    return DictObj(c, None, "SortedDict")


class CounterV:
    """Counter of a long list"""

    def __init__(self, seq):
        self.seq = seq


@ext("collections.Counter")
def b_counter(M, args, kw):
    if not args:
        return DictObj(FinMap({}), None, "Counter")
    v = args[0]
    if isinstance(v, (ListObj, tuple, TupV, SeriesV, ArrayV)):
        s = M.get(v, "seq") if isinstance(v, ListObj) else iter_value(M, v)
        if isinstance(s, tuple) and all(ckey(x) is not None for x in s):
            m = {}
            for x in s:
                c = ckey(x)
                f = find(FinMap(m), c)
                m[f[0] if f else c] = m.get(f[0] if f else c, 0) + 1
            return DictObj(FinMap(m), None, "Counter")
        if isinstance(v, ListObj):
            # snapshot: the list is only read through its measures
            return CountObj(s)
        return CountObj(s)
    d = DictObj(FinMap({}), None, "Counter")

    def one(x):
        dict_set(M, d, x, binop(M, ast.Add(), dict_get(M, d, x, 0), 1))
    M.iterate(v, one)
    return d


class CountObj(Cell):
    """Counter(list), read only"""

    def __init__(self, content):
        super().__init__(content=content)


_getitem0 = getitem


def getitem(M, o, k):  # noqa: F811
    if isinstance(o, CountObj):
        return py(lift(measure(M, o.slots["content"], ("count", k))))
    if isinstance(o, RawSeriesV):
        raise Unsupported("index into the sequence before it is checked")
    return _getitem0(M, o, k)


_attr0 = attr


def attr(M, v, name):  # noqa: F811
    if isinstance(v, RawSeriesV):
        return raw_attr(M, v, name)
    if isinstance(v, SeqInputV):
        if name == "reset_index" and v.is_series is True:
            return method(lambda M_, a, k: RawSeriesV(v, None) if k == {"drop": True} else _bad("reset_index"))
        if v.is_series is True:
            return raw_attr(M, RawSeriesV(v, "other"), name)
        raise Unsupported(f"attribute {name} of the passed sequence")
    if isinstance(v, CountObj):
        if name == "get":
            return method(lambda M_, a, k: merge(lift(getitem(M, v, a[0])) > 0, getitem(M, v, a[0]), a[1] if len(a) > 1 else None))
        return Opaque(name)
    if isinstance(v, ComplexV):
        raise Unsupported("complex number")
    return _attr0(M, v, name)


def _bad(what):
    raise Unsupported(what)


def raw_attr(M, v, name):
    i = v.inp
    if name == "hasnans":
        return i.nans
    if name == "nunique":
        def nu(M_, a, k):
            if a or (k and k != {"dropna": True}):
                raise Unsupported("nunique arguments")
            return i.nunique
        return method(nu)
    if name == "reset_index":
        return method(lambda M_, a, k: RawSeriesV(i, None) if k == {"drop": True} else _bad("reset_index"))
    if name in ("drop_duplicates", "unique"):
        def dd(M_, a, k):
            if a or k:
                raise Unsupported("drop_duplicates arguments")
            # two distinct values, none missing: the first one, and the other
            M.oblige("the sequence is binary where its faces are inferred", z3.And(z3.Not(lift(i.nans)), lift(i.nunique) == 2))
            M.assume(z3.And(z3.Not(lift(i.nans)), lift(i.nunique) == 2))
            f = i.seq.get(z3.IntVal(0))
            return SeriesV((f, FaceV(simp(z3.Not(lift(f.b))))), "other")
        return method(dd)
    if name == "size":
        return i.info["n"]
    if name in ("isna", "isnull"):
        class _N:
            pass
        return method(lambda M_, a, k: NaMask(i))
    raise Unsupported(f"Series.{name} before the sequence is checked")


class NaMask:
    def __init__(self, inp):
        self.inp = inp


@ext("pandas.Series")
def b_series(M, args, kw):
    v = args[0] if args else kw.get("data")
    if set(kw) - {"data"} or len(args) > 1:
        raise Unsupported("Series arguments")
    if isinstance(v, SeqInputV):
        return RawSeriesV(v, "other" if v.is_series is True else None)
    if isinstance(v, RawSeriesV):
        return v
    if isinstance(v, ArrayV):
        return SeriesV(v.seq, None)
    if isinstance(v, SeriesV):
        return v
    if isinstance(v, DictObj):
        d = M.get(v, "d")
        if isinstance(d, FinMap):
            return SeriesV(tuple(d.m.values()), "other")
    if isinstance(v, (ListObj, tuple, TupV, GenV)):
        s = collect_seq(M, v)
        if isinstance(s, (tuple, SymSeq)):
            return SeriesV(s, None)
    raise Unsupported("Series()")


@ext("pandas.concat")
def b_concat(M, args, kw):
    if set(kw) - {"ignore_index"}:
        raise Unsupported("concat arguments")
    parts = M.concrete(args[0])
    r = ()
    for p in parts:
        if not isinstance(p, SeriesV):
            raise Unsupported("concat of other than series")
        r = concat(M, r, p.seq)
    return SeriesV(r, None if kw.get("ignore_index") is True else "other")


@ext("pandas.isna", "pandas.isnull")
def b_isna(M, args, kw):
    raise Unsupported("isna")


@ext("numpy.where")
def b_where(M, args, kw):
    c, a, b = args
    if not isinstance(c, (SeriesV, ArrayV)):
        raise Unsupported("where")
    s = seq_of(c)

    def at(x, i):
        return seq_of(x).get(i) if isinstance(x, (SeriesV, ArrayV)) else x
    q = SymSeq(s.n, lambda i: merge(lift(M.truth(s.get(i))), at(a, i), at(b, i)))
    n = M.const_int(s.n)
    return ArrayV(q if n is None else tuple(q.get(k) for k in range(n)))


@ext("numpy.array", "numpy.asarray", "numpy.fromiter")
def b_array(M, args, kw):
    s = collect_seq(M, args[0])
    if isinstance(s, (tuple, SymSeq)):
        return ArrayV(s)
    raise Unsupported("array")


@ext("numpy.cumsum")
def b_cumsum(M, args, kw):
    v = args[0]
    if isinstance(v, ListObj):
        v = ArrayV(M.get(v, "seq"))
    return series_attr(M, v, "cumsum").fn(M, [], {})


@ext("numpy.concatenate")
def b_concatenate(M, args, kw):
    r = ()
    for p in M.concrete(args[0]):
        s = collect_seq(M, p)
        r = concat(M, r, s)
    return ArrayV(r)


@ext("itertools.product")
def b_product(M, args, kw):
    rep = kw.get("repeat", 1)
    items = [M.concrete(a) for a in args]
    c = rep if isinstance(rep, int) else M.const_int(rep)
    import itertools
    if c is not None:
        if len(items[0]) ** (c * len(items)) > 64:
            raise Unsupported("a large product")
        return tuple(itertools.product(*items, repeat=c))
    if len(items) == 1 and len(items[0]) == 2 and all(isinstance(x, FaceV) for x in items[0]):
        return ProductV(items[0], rep)
    raise Unsupported("product")


class ProductV:
    """all tuples of two values of a symbolic length, in product order"""

    def __init__(self, faces, m):
        self.faces, self.m = faces, m


@ext("itertools.chain")
def b_chain(M, args, kw):
    def run(cb):
        for a in args:
            M.iterate(a, cb)
    return GenV(run)


@ext("itertools.islice")
def b_islice(M, args, kw):
    s = collect_seq(M, args[0])
    rest = list(args[1:])
    sl = SliceV(None, rest[0], None) if len(rest) == 1 else SliceV(*(rest + [None] * (3 - len(rest))))
    r = slice_seq(M, s, sl)
    return r if isinstance(r, tuple) else ListObj(r)


@ext("itertools.accumulate")
def b_accumulate(M, args, kw):
    if len(args) != 1 or kw:
        raise Unsupported("accumulate")
    s = collect_seq(M, args[0])
    s = seq_of(s)
    return ListObj(SymSeq(s.n, lambda i: py(Sum(0, simp(lift(i) + 1), lambda j: lift(s.get(j))))))


@ext("itertools.groupby", "itertools.count", "itertools.takewhile", "itertools.repeat")
def b_itertools(M, args, kw):
    raise Unsupported("itertools function")


@ext("warnings.warn")
def b_warn(M, args, kw):
    cat = args[1] if len(args) > 1 else kw.get("category", Ext("builtins.UserWarning"))
    M.set(M.events, "log", M.events.slots["log"] + (("warn", args[0], cat),))
    return None


@ext("typing.NewType", "typing.TypeVar")
def b_typing(M, args, kw):
    return Opaque("type")


@ext("bisect.bisect_left")
def b_bl(M, args, kw):
    return bisect(M, args, "left")


@ext("bisect.bisect_right", "bisect.bisect")
def b_br(M, args, kw):
    return bisect(M, args, "right")


@ext("typing_extensions.get_args", "typing.get_args")
def b_get_args(M, args, kw):
    raise Unsupported("get_args")
