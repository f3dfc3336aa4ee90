"""Polynomial normal forms: boolean conditions as 0/1 indicators, sums distributed over their bodies."""
from fractions import Fraction

import z3

from pydv.terms import B, I, R, Sum, apply_lam, as_int, decl, fresh, lift, num, occurs, real, simp

LIMIT = 60
VAR = z3.Const("%i", I)


class TooBig(Exception):
    pass


class Atoms:
    """x / 0 is 0 here (an inverse of a product is the product of inverses); x * (1 / x) = 1 adds the guard x != 0"""

    def __init__(self):
        self.t = {}
        self.guards = []

    def add(self, t):
        self.t[t.get_id()] = t
        return t.get_id()


def const(c):
    return {(): Fraction(c)} if c else {}


def add(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        c = r.get(m, 0) + k * c
        if c:
            r[m] = c
        else:
            r.pop(m, None)
    if len(r) > LIMIT:
        raise TooBig()
    return r


def mulmon(m1, m2, A):
    d = dict(m1)
    for a, e in m2:
        if a in A.ind:
            d[a] = 1
        else:
            f = d.get(a, 0)
            if e * f < 0:
                A.guards.append(A.t[a] != 0)
            e = f + e
            if e:
                d[a] = e
            else:
                d.pop(a)
    return tuple(sorted(d.items()))


def mul(p, q, A):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mulmon(m1, m2, A)
            c = r.get(m, 0) + c1 * c2
            if c:
                r[m] = c
            else:
                r.pop(m, None)
            if len(r) > LIMIT:
                raise TooBig()
    return r


class Expander:
    def __init__(self, var=None):
        self.A = Atoms()
        self.A.ind = set()
        self.var = var
        self.guards = self.A.guards
        self.memo = {}
        self.plain = False  # inverses are atoms of their own: nothing cancels, no guards

    def atom(self, t, e=1):
        return {((self.A.add(t), e),): Fraction(1)}

    def cond(self, c):
        """0/1 polynomial of a condition"""
        if z3.is_true(c):
            return const(1)
        if z3.is_false(c):
            return {}
        if z3.is_not(c):
            return add(const(1), self.cond(c.arg(0)), -1)
        if z3.is_and(c):
            p = const(1)
            for x in c.children():
                p = mul(p, self.cond(x), self.A)
            return p
        if z3.is_or(c):
            p = const(1)
            for x in c.children():
                p = mul(p, add(const(1), self.cond(x), -1), self.A)
            return add(const(1), p, -1)
        k = c.decl().kind()
        ch = c.children()
        if k == z3.Z3_OP_IMPLIES:
            return self.cond(z3.Or(z3.Not(ch[0]), ch[1]))
        if (k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF, z3.Z3_OP_XOR) or (k == z3.Z3_OP_DISTINCT and len(ch) == 2)) and ch[0].sort() == B:
            p, q = self.cond(ch[0]), self.cond(ch[1])
            pq = mul(p, q, self.A)
            x = add(add(p, q), pq, -2)
            return x if k in (z3.Z3_OP_XOR, z3.Z3_OP_DISTINCT) else add(const(1), x, -1)
        if k == z3.Z3_OP_ITE:
            p = self.cond(ch[0])
            return add(mul(p, self.cond(ch[1]), self.A), mul(add(const(1), p, -1), self.cond(ch[2]), self.A))
        i = self.A.add(c)
        self.A.ind.add(i)
        return {((i, 1),): Fraction(1)}

    def expand(self, t):
        k = t.get_id()
        if k not in self.memo:
            self.memo[k] = (t, self._expand(t))
        return self.memo[k][1]

    def _expand(self, t):
        c = num(t)
        if c is not None:
            return const(c)
        if not z3.is_app(t):
            return self.atom(t)
        if t.sort() == B:
            return self.cond(t)
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            p = {}
            for x in ch:
                p = add(p, self.expand(x))
            return p
        if k == z3.Z3_OP_SUB:
            p = self.expand(ch[0])
            for x in ch[1:]:
                p = add(p, self.expand(x), -1)
            return p
        if k == z3.Z3_OP_UMINUS:
            return add({}, self.expand(ch[0]), -1)
        if k == z3.Z3_OP_MUL:
            p = const(1)
            for x in ch:
                p = mul(p, self.expand(x), self.A)
            return p
        if k == z3.Z3_OP_TO_REAL:
            return self.expand(ch[0])
        if k == z3.Z3_OP_ITE:
            p, a, b = self.cond(ch[0]), self.expand(ch[1]), self.expand(ch[2])
            return add(mul(p, a, self.A), mul(add(const(1), p, -1), b, self.A))
        if k == z3.Z3_OP_POWER:
            e = num(ch[1])
            if e is not None and e == int(e) and 0 <= e <= 4:
                p = const(1)
                for _ in range(int(e)):
                    p = mul(p, self.expand(ch[0]), self.A)
                return p
        if k == z3.Z3_OP_DIV:
            d = self.expand(ch[1])
            if len(d) == 1 and not any(m and any(a in self.A.ind for a, _ in m) for m in d):
                (m, c), = d.items()
                if self.plain:
                    inv = {tuple(sorted((-a, e) for a, e in m)): 1 / c}
                else:
                    inv = {tuple((a, -e) for a, e in m): 1 / c}
                return mul(self.expand(ch[0]), inv, self.A)
            elif d:
                f = d[min(d)]
                d = {m: c / f for m, c in d.items()}
                ch = [ch[0] * lift(1 / f) if ch[0].sort() == R else real(ch[0]) * lift(1 / f), ch[1]]
                t_ = real(simp(self.rebuild(d)))
                if self.plain:
                    i = self.A.add(t_)
                    return mul(self.expand(ch[0]), {((-i, 1),): Fraction(1)}, self.A)
                return mul(self.expand(ch[0]), self.atom(t_, -1), self.A)
        if k == z3.Z3_OP_TO_INT:
            p = self.expand(ch[0])
            whole = {m: c for m, c in p.items() if c.denominator == 1 and all(a > 0 and e > 0 and self.A.t[a].sort() != R for a, e in m)}
            rest = {m: c for m, c in p.items() if m not in whole}
            if not rest:
                return p
            return add(whole, self.atom(simp(z3.ToInt(real(self.rebuild(rest))))))
        if k == z3.Z3_OP_UNINTERPRETED and t.decl().name() in ("SumI", "SumR") and z3.is_quantifier(t.arg(0)) and self.var is None:
            r = normal_sum(t)
            if r is not None and not r[0].eq(t):
                return self.expand_lin(r[0])
        return self.atom(t)

    def expand_lin(self, t):
        """of a normal form: its sums are atoms"""
        k = t.decl().kind()
        ch = t.children()
        if num(t) is not None:
            return const(num(t))
        if k == z3.Z3_OP_ADD:
            p = {}
            for x in ch:
                p = add(p, self.expand_lin(x))
            return p
        if k == z3.Z3_OP_MUL:
            p = const(1)
            for x in ch:
                p = mul(p, self.expand_lin(x), self.A)
            return p
        if k == z3.Z3_OP_TO_REAL:
            return self.expand_lin(ch[0])
        if k == z3.Z3_OP_UNINTERPRETED and t.decl().name() in ("SumI", "SumR"):
            return self.atom(t)
        return self.expand(t)

    def monomial(self, m, want=None):
        """term of a monomial (without coefficient), indicators as one condition"""
        conds = [self.A.t[a] for a, e in m if a in self.A.ind]
        rest = [(self.A.t[abs(a)], e if a > 0 else -e) for a, e in m if a not in self.A.ind]
        allint = all(x.sort() == I and e > 0 for x, e in rest)
        t = None
        for x, e in rest:
            x = x if allint else real(x)
            for _ in range(abs(e)):
                f = x if e > 0 else 1 / x
                t = f if t is None else t * f
        one = lift(1) if allint else real(1)
        zero = lift(0) if allint else real(0)
        if conds:
            c = z3.And(*conds) if len(conds) > 1 else conds[0]
            t = z3.If(c, t if t is not None else one, zero)
        return t if t is not None else one

    def order(self, m):
        return (len(m), m)

    def rebuild_sorted(self, p, sort):
        r = self.rebuild(p)
        if sort is not None and r.sort() != sort:
            if sort == R:
                r = real(r)
            else:
                raise TooBig()
        return r

    def rebuild(self, p):
        r = None
        for m in sorted(p):
            t = self.monomial(m)
            c = p[m]
            if c.denominator != 1:
                t = real(t)
            t = lift(c if t.sort() == R else int(c)) * t
            if r is not None and r.sort() != t.sort():
                r, t = real(r), real(t)
            r = t if r is None else r + t
        return r if r is not None else lift(0)


_ns = {}


def normal_sum(a):
    """(linear combination of sums equal to a, guards under which it is), or None"""
    k = a.get_id()
    if k in _ns:
        return _ns[k][1]
    r = None
    try:
        r = _normal_sum(a)
    except TooBig:
        pass
    _ns[k] = (a, r)
    return r


def _normal_sum(a):
    l, lo, hi = a.children()
    clo, chi = num(simp(lo)), num(simp(hi))
    if clo is not None and chi is not None and chi - clo <= 8:
        t = lift(0) if a.sort() == I else real(0)
        for k in range(clo, chi):
            b = apply_lam(l, z3.IntVal(k))
            t = t + (as_int(b) if z3.is_bool(b) else b)
        return simp(t), []
    body = simp(apply_lam(l, VAR))
    E = Expander(VAR)
    p = E.expand(body)
    groups = {}
    for m, c in p.items():
        dep = tuple((x, e) for x, e in m if occurs(VAR, E.A.t[abs(x)]))
        free = tuple((x, e) for x, e in m if not occurs(VAR, E.A.t[abs(x)]))
        groups.setdefault(dep, {})[free] = c
    w = z3.If(hi > lo, hi - lo, 0)
    total = None
    for dep in sorted(groups):
        coef = E.rebuild(groups[dep])
        if dep == ():
            s = w
        else:
            b = simp(E.monomial(dep))
            v = fresh("v")
            s = Sum(lo, hi, lambda i: z3.substitute(b, (VAR, i)), real_=b.sort() == R)
        if coef.sort() != s.sort():
            coef, s = real(coef), real(s)
        t = coef * s
        if total is not None and total.sort() != t.sort():
            total, t = real(total), real(t)
        total = t if total is None else total + t
    if total is None:
        total = lift(0)
    if total.sort() != a.sort():
        if a.sort() == R:
            total = real(total)
        else:
            return None
    total = simp(total)
    if total.eq(a):
        return None
    return total, [g for g in E.guards]


def equal(a, b):
    """guards under which a == b by polynomial arithmetic, or None"""
    try:
        E = Expander(None)
        d = add(E.expand(simp(a)), E.expand(simp(b)), -1)
        # squares of square roots
        for _ in range(4):
            hit = False
            for m, c in list(d.items()):
                for x, e in m:
                    t = E.A.t[abs(x)]
                    if z3.is_app(t) and t.decl().name() == "SQRT" and abs(e) >= 2:
                        rest = tuple((y, f) for y, f in m if y != x)
                        e2 = e - 2 if e > 0 else e + 2
                        if e2:
                            rest = tuple(sorted(rest + ((x, e2),)))
                        arg = E.expand(t.arg(0))
                        if e < 0:
                            if len(arg) != 1:
                                continue
                            (m0, c0), = arg.items()
                            arg = {tuple((y, -f) for y, f in m0): 1 / c0}
                        E.guards.append(t.arg(0) > 0)
                        d.pop(m)
                        d = add(d, mul({rest: c}, arg, E.A))
                        hit = True
                        break
                if hit:
                    break
            if not hit:
                break
        return list(E.guards) if not d else None
    except TooBig:
        return None


# -- one normal form for the whole term -------------------------------------------------------
_nf = {}
_BV = [z3.Const(f"%b{d}_{k}_{s.name()}", s) for d in range(12) for k in range(3) for s in (I, R, B)]
_BVD = {(d, k, s.name()): z3.Const(f"%b{d}_{k}_{s.name()}", s) for d in range(12) for k in range(3) for s in (I, R, B)}
_ARITH = {z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_DIV}


def norm(t, depth=0):
    """a term equal to t, the same for terms equal by (guard-free) polynomial arithmetic"""
    key = (t.get_id(), depth)
    if key not in _nf:
        if len(_nf) > 100000:
            _nf.clear()
        _nf[key] = (t, _norm(t, depth))
    return _nf[key][1]


def _norm(t, depth):
    if num(t) is not None or z3.is_var(t):
        return t
    if z3.is_quantifier(t):
        if not t.is_lambda() or depth >= 11:
            return t
        vs = []
        for k in range(t.num_vars()):
            sn = t.var_sort(k).name()
            if (depth, k, sn) not in _BVD:
                return t
            vs.append(_BVD[(depth, k, sn)])
        b = norm(z3.substitute_vars(t.body(), *reversed(vs)), depth + 1)
        from pydv.terms import lam
        return lam(vs, b)
    if t.num_args() == 0:
        return t
    k = t.decl().kind()
    ch = [norm(c, depth) for c in t.children()]
    try:
        if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) or (k == z3.Z3_OP_EQ and ch[0].sort() in (I, R)):
            return _cmp(k, ch[0], ch[1])
        if k == z3.Z3_OP_UNINTERPRETED and t.decl().name() in ("SumI", "SumR", "All", "MaxI", "MaxR") and z3.is_quantifier(ch[0]):
            ch = _range(ch, depth)
        t = t.decl()(*ch)
        if k == z3.Z3_OP_UNINTERPRETED and t.decl().name() in ("SumI", "SumR") and z3.is_quantifier(ch[0]):
            r = normal_sum(t)
            if r is not None and not r[1] and not r[0].eq(t):
                E = Expander(None)
                E.plain = True
                return E.rebuild_sorted(E.expand_lin(r[0]), t.sort())
        if k in _ARITH:
            E = Expander(None)
            E.plain = True
            return E.rebuild_sorted(E.expand(t), t.sort())
    except TooBig:
        pass
    return simp(t)


def _range(ch, depth):
    """ranges start at 0, and an upper end cut off at 0 is not cut off"""
    from pydv import prover
    from pydv.terms import lam
    l, lo, hi = ch[:3]
    if num(lo) != 0:
        v = _BVD[(depth, 0, "Int")]
        b = norm(apply_lam(l, v + lo), depth + 1)
        l = lam([v], b)
        hi = norm(hi - lo, depth)
        lo = lift(0)
    if z3.is_app(hi) and hi.decl().kind() == z3.Z3_OP_ITE:
        c, x, y = hi.children()
        if num(y) == 0:
            c, x, y = z3.Not(c), y, x
        if num(x) == 0 and prover.quick([], z3.Implies(c, y <= 0)):
            hi = norm(y, depth)
    return [l, lo, hi] + ch[3:]


def _cmp(k, a, b):
    E = Expander(None)
    E.plain = True
    if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
        a, b = b, a
        k = z3.Z3_OP_LE if k == z3.Z3_OP_GE else z3.Z3_OP_LT
    neg = False
    if k == z3.Z3_OP_LT:  # a < b: not b <= a
        a, b, neg, k = b, a, True, z3.Z3_OP_LE
    d = add(E.expand(a), E.expand(b), -1)
    keys = sorted((m for m in d if m), key=E.order)
    if not keys:
        c = d.get((), 0)
        r = z3.BoolVal(c <= 0 if k == z3.Z3_OP_LE else c == 0)
    else:
        f = abs(d[keys[0]]) if k == z3.Z3_OP_LE else d[keys[0]]
        c = -d.pop((), Fraction(0)) / f
        d = {m: x / f for m, x in d.items()}
        l = E.rebuild_sorted(d, None)
        c = lift(c if l.sort() == R else int(c)) if c.denominator == 1 or l.sort() == R else None
        if c is None:
            l, c = real(l), lift(-d.get((), 0))
            raise TooBig()
        r = l <= c if k == z3.Z3_OP_LE else l == c
    return simp(z3.Not(r)) if neg else simp(r)
