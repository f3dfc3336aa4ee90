"""Terms: z3 expressions plus aggregators over index ranges, and their concrete evaluation.

Aggregators are applications of uninterpreted functions to z3 lambdas; their meaning is given by
`ceval` (executable) and by the rules in prover.py.
    Sum(lo, hi, f)        sum of f(i) for lo <= i < hi (0 if empty)
    Max(lo, hi, init, f)  largest of init and the f(i)
    All(lo, hi, p)        p(i) for every lo <= i < hi
    Rec(...)              state after hi steps of a recurrence
"""
import itertools
import math
from fractions import Fraction

import z3

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
_fresh = itertools.count()


def fresh(name, sort=I):
    return z3.Const(f"{name}!{next(_fresh)}", sort)


def fresh_fun(name, *sorts):
    return z3.Function(f"{name}!{next(_fresh)}", *sorts)


def is_z(x):
    return isinstance(x, z3.ExprRef)


def lift(x):
    """python number or z3 term -> z3 term"""
    if is_z(x):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(f"{x.numerator}/{x.denominator}")
    raise TypeError(f"not a number: {x!r}")


def real(x):
    x = lift(x)
    if z3.is_bool(x):
        x = z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return z3.ToReal(x) if x.sort() == I else x


def as_int(x):
    x = lift(x)
    return z3.If(x, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(x) else x


def num(x):
    """concrete value of a numeral term, else None"""
    if not is_z(x):
        return x
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_rational_value(x):
        return Fraction(x.numerator_as_long(), x.denominator_as_long())
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return None


_simp_cache = {}


def simp(t):
    if not is_z(t):
        return t
    k = t.get_id()
    if k not in _simp_cache:
        if len(_simp_cache) > 200000:
            _simp_cache.clear()
        _simp_cache[k] = (t, orient(z3.simplify(t, som=False, elim_and=False), 0))
    return _simp_cache[k][1]


_orient_cache = {}


def orient(t, depth):
    """equations with a numeral have it on the right, everywhere"""
    if z3.is_var(t) or (z3.is_app(t) and t.num_args() == 0):
        return t
    k = (t.get_id(), depth)
    if k in _orient_cache:
        return _orient_cache[k][1]
    if len(_orient_cache) > 200000:
        _orient_cache.clear()
    if z3.is_quantifier(t):
        r = t
        if t.is_lambda():
            vs = [z3.Const(f"%o{depth}_{j}", t.var_sort(j)) for j in range(t.num_vars())]
            b = z3.substitute_vars(t.body(), *reversed(vs))
            c = orient(b, depth + 1)
            if not c.eq(b):
                r = lam(vs, c)
    else:
        ch = t.children()
        cs = [orient(c, depth) for c in ch]
        r = t if all(x.eq(y) for x, y in zip(ch, cs)) else t.decl()(*cs)
        if r.decl().kind() == z3.Z3_OP_EQ and num(cs[0]) is not None and num(cs[1]) is None:
            r = r.decl()(cs[1], cs[0])  # (the operator == would put a numeral first)
    _orient_cache[k] = (t, r)
    return r


def lam(vs, body):
    """lambda with canonical names of its variables, so that equal ones are the same object"""
    cs = [z3.Const(f"#{k}", v.sort()) for k, v in enumerate(vs)]
    return z3.Lambda(cs, z3.substitute(body, *zip(vs, cs)))


def apply_lam(l, *args):
    if z3.is_quantifier(l) and l.is_lambda():
        return z3.substitute_vars(l.body(), *[lift(a) for a in reversed(args)])
    return simp(z3.Select(l, *[lift(a) for a in args]))


_decls = {}


def decl(name, *sorts):
    key = (name,) + tuple(s.sexpr() for s in sorts)
    if key not in _decls:
        _decls[key] = z3.Function(name, *sorts)
    return _decls[key]


def occurs(v, t):
    """is the constant (or function declaration) v in t?"""
    seen = set()
    isf = isinstance(v, z3.FuncDeclRef)

    def go(x):
        if x.get_id() in seen:
            return False
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return go(x.body())
        if isf and z3.is_app(x) and x.decl().eq(v):
            return True
        if not isf and x.eq(v):
            return True
        return any(go(c) for c in x.children())
    return go(t)


def consts_in(t):
    out, seen = {}, set()

    def go(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            go(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 0:
                out[x.get_id()] = x
            for c in x.children():
                go(c)
    go(t)
    return list(out.values())


def Sum(lo, hi, fn, real_=False):
    lo, hi = lift(lo), lift(hi)
    i = fresh("i")
    b = lift(fn(i))
    if z3.is_bool(b):
        b = as_int(b)
    if real_:
        b = real(b)
    b = simp(b)
    clo, chi = num(simp(lo)), num(simp(hi))
    if clo is not None and chi is not None and chi - clo <= 8:
        t = lift(0) if b.sort() == I else real(0)
        for k in range(clo, chi):
            t = t + z3.substitute(b, (i, z3.IntVal(k)))
        return simp(t)
    if num(b) == 0:
        return lift(0) if b.sort() == I else real(0)
    f = decl("SumI" if b.sort() == I else "SumR", z3.ArraySort(I, b.sort()), I, I, b.sort())
    return f(lam([i], b), lo, hi)


def Max(lo, hi, init, fn):
    i = fresh("i")
    b = lift(fn(i))
    init = lift(init)
    if b.sort() != init.sort():
        b, init = real(b), real(init)
    b = simp(b)
    f = decl("MaxI" if b.sort() == I else "MaxR", z3.ArraySort(I, b.sort()), I, I, b.sort(), b.sort())
    return f(lam([i], b), lift(lo), lift(hi), init)


def Min(lo, hi, init, fn):
    return -Max(lo, hi, -lift(init), lambda i: -lift(fn(i)))


def All(lo, hi, fn):
    lo, hi = lift(lo), lift(hi)
    i = fresh("i")
    b = simp(lift(fn(i)))
    if z3.is_true(b):
        return z3.BoolVal(True)
    clo, chi = num(simp(lo)), num(simp(hi))
    if clo is not None and chi is not None and chi - clo <= 12:
        return simp(z3.And(*[z3.substitute(b, (i, z3.IntVal(k))) for k in range(clo, chi)]))
    f = decl("All", z3.ArraySort(I, B), I, I, B)
    return f(lam([i], b), lo, hi)


def Ex(lo, hi, fn):
    return z3.Not(All(lo, hi, lambda i: z3.Not(lift(fn(i)))))


def Rec(inits, step, hi, start=0):
    """state (list) after the steps start <= i < hi from inits; step(i, *state) -> list"""
    inits = [lift(x) for x in inits]
    while True:
        i = fresh("i")
        ss = [fresh("s", x.sort()) for x in inits]
        outs = [lift(o) for o in step(i, *ss)]
        again = False
        for j, o in enumerate(outs):
            if o.sort() != inits[j].sort():
                if o.sort() == R and inits[j].sort() == I:
                    inits[j] = real(inits[j])
                    again = True
                elif o.sort() == I and inits[j].sort() == R:
                    outs[j] = real(o)
                else:
                    raise TypeError("recurrence changes sort")
        if not again:
            break
    outs = [simp(o) for o in outs]
    lams = [lam([i] + ss, o) for o in outs]
    sig = "".join({"Int": "I", "Real": "R", "Bool": "B"}[x.sort().name()] for x in inits)
    res = []
    for j in range(len(inits)):
        args = lams + inits + [lift(start), lift(hi)]
        f = decl(f"Rec_{sig}_{j}", *[a.sort() for a in args], inits[j].sort())
        res.append(f(*args))
    return res


def rec_parts(t):
    """(lams, inits, start, hi, component) of a Rec application"""
    _, sig, j = t.decl().name().split("_")
    k = len(sig)
    c = t.children()
    return c[:k], c[k:2 * k], c[2 * k], c[2 * k + 1], int(j)


# functions of the mathematical library: name -> concrete evaluation
def _igamc(a, x):
    from scipy.special import gammaincc
    return float(gammaincc(float(a), float(x)))


def _hyp(a, b, x):
    from scipy.special import hyp1f1
    return float(hyp1f1(float(a), float(b), float(x)))


def _phi(x):
    return 0.5 * math.erfc(-x / math.sqrt(2))


MATH = {
    "SQRT": math.sqrt, "ERFC": math.erfc, "EXP": math.exp, "LOG": math.log, "LOG2": math.log2,
    "IGAMC": _igamc, "HYP1F1": _hyp, "NORMCDF": _phi, "POW2": lambda e: 2.0 ** e if not isinstance(e, int) or e < 0 else 2 ** e,
    "POWR": lambda x, e: float(x) ** float(e),
}


def fn(name, *args):
    args = [real(a) for a in args]
    return decl(name, *[R] * (len(args) + 1))(*args)


def sqrt(x):
    c = num(simp(lift(x)))
    if c is not None and c >= 0:
        f = Fraction(c)
        a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if a * a == f.numerator and b * b == f.denominator:
            return lift(Fraction(a, b))
    return fn("SQRT", x)


def erfc(x):
    return fn("ERFC", x)


def igamc(a, x):
    return fn("IGAMC", a, x)


def pow2(e):
    """2 ** e as a real, e an integer term"""
    c = num(simp(lift(e)))
    if c is not None:
        return lift(Fraction(2) ** int(c))
    e = simp(lift(e))
    return decl("POW2", I, R)(e)


def ite(c, a, b):
    c = lift(c)
    if z3.is_true(c):
        return lift(a)
    if z3.is_false(c):
        return lift(b)
    a, b = lift(a), lift(b)
    if a.sort() != b.sort():
        a, b = real(a), real(b)
    return z3.If(c, a, b)


def floor(x):
    x = lift(x)
    return z3.ToInt(x) if x.sort() == R else x


def ceil(x):
    x = lift(x)
    return -z3.ToInt(-x) if x.sort() == R else x


def zmax(a, b):
    a, b = lift(a), lift(b)
    if a.sort() != b.sort():
        a, b = real(a), real(b)
    return simp(z3.If(b > a, b, a))


def zmin(a, b):
    a, b = lift(a), lift(b)
    if a.sort() != b.sort():
        a, b = real(a), real(b)
    return simp(z3.If(b < a, b, a))


def zabs(a):
    a = lift(a)
    return z3.If(a >= 0, a, -a)


class CevalError(Exception):
    pass


def ceval(t, env, stack=(), memo=None):
    """value of a term; env maps constant and function names to numbers and python functions"""
    if memo is None:
        memo = {}
    if z3.is_var(t):
        return stack[z3.get_var_index(t)]
    key = (t.get_id(), stack)
    if key in memo:
        return memo[key][1]
    v = _ceval(t, env, stack, memo)
    memo[key] = (t, v)
    return v


def _lam_eval(l, env, stack, memo, args):
    if z3.is_quantifier(l):
        return ceval(l.body(), env, tuple(reversed(args)) + stack, memo)
    if z3.is_app(l) and l.decl().kind() == z3.Z3_OP_CONST_ARRAY:
        return ceval(l.arg(0), env, stack, memo)
    if z3.is_app(l) and l.decl().kind() == z3.Z3_OP_AS_ARRAY:
        return env[z3.get_as_array_func(l).name()](*args)
    raise CevalError(f"array {l}")


def _ceval(t, env, stack, memo):
    ev = lambda x: ceval(x, env, stack, memo)
    c = num(t)
    if c is not None:
        return c
    k = t.decl().kind()
    name = t.decl().name()
    if k == z3.Z3_OP_UNINTERPRETED:
        if t.num_args() == 0:
            if name in env:
                return env[name]
            raise CevalError(f"no value for {name}")
        ch = t.children()
        if "%limit" in env and (name in ("SumI", "SumR", "MaxI", "MaxR", "All") and ev(ch[2]) - ev(ch[1]) > env["%limit"]
                                or name.startswith("Rec_") and ev(rec_parts(t)[3]) - ev(rec_parts(t)[2]) > env["%limit"]):
            raise CevalError("too long")
        if name in ("SumI", "SumR"):
            return sum((_lam_eval(ch[0], env, stack, memo, (i,)) for i in range(ev(ch[1]), ev(ch[2]))), 0)
        if name in ("MaxI", "MaxR"):
            return max([ev(ch[3])] + [_lam_eval(ch[0], env, stack, memo, (i,)) for i in range(ev(ch[1]), ev(ch[2]))])
        if name == "All":
            return all(_lam_eval(ch[0], env, stack, memo, (i,)) for i in range(ev(ch[1]), ev(ch[2])))
        if name.startswith("Rec_"):
            lams, inits, st, hi, j = rec_parts(t)
            s = tuple(ev(x) for x in inits)
            for i in range(ev(st), ev(hi)):
                s = tuple(_lam_eval(l, env, stack, memo, (i,) + s) for l in lams)
            return s[j]
        if name in MATH:
            a = [ev(x) for x in ch]
            try:
                return MATH[name](*a) if name == "POW2" else MATH[name](*[float(x) for x in a])
            except (ValueError, OverflowError) as e:
                raise CevalError(f"{name}{tuple(a)}: {e}")
        if name in SPECIAL:
            return SPECIAL[name](ch, env, stack, memo, ev)
        if name in env:
            return env[name](*[ev(x) for x in ch])
        raise CevalError(f"no function {name}")
    ch = t.children()
    if k == z3.Z3_OP_ITE:
        return ev(ch[1]) if ev(ch[0]) else ev(ch[2])
    if k == z3.Z3_OP_AND:
        return all(ev(x) for x in ch)
    if k == z3.Z3_OP_OR:
        return any(ev(x) for x in ch)
    if k == z3.Z3_OP_IMPLIES:
        return (not ev(ch[0])) or ev(ch[1])
    v = [ev(x) for x in ch]
    if k == z3.Z3_OP_ADD:
        return sum(v[1:], v[0])
    if k == z3.Z3_OP_SUB:
        r = v[0]
        for x in v[1:]:
            r = r - x
        return r
    if k == z3.Z3_OP_UMINUS:
        return -v[0]
    if k == z3.Z3_OP_MUL:
        r = v[0]
        for x in v[1:]:
            r = r * x
        return r
    if k == z3.Z3_OP_DIV:
        if v[1] == 0:
            raise CevalError("division by zero")
        return v[0] / v[1] if isinstance(v[0], float) or isinstance(v[1], float) else Fraction(v[0]) / Fraction(v[1])
    if k == z3.Z3_OP_IDIV:
        return v[0] // v[1]
    if k == z3.Z3_OP_MOD:
        return v[0] % v[1]
    if k == z3.Z3_OP_TO_REAL:
        return v[0]
    if k == z3.Z3_OP_TO_INT:
        return math.floor(v[0])
    if k == z3.Z3_OP_LE:
        return v[0] <= v[1]
    if k == z3.Z3_OP_LT:
        return v[0] < v[1]
    if k == z3.Z3_OP_GE:
        return v[0] >= v[1]
    if k == z3.Z3_OP_GT:
        return v[0] > v[1]
    if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF):
        return v[0] == v[1]
    if k == z3.Z3_OP_DISTINCT:
        return len(set(v)) == len(v)
    if k == z3.Z3_OP_NOT:
        return not v[0]
    if k == z3.Z3_OP_XOR:
        return bool(v[0]) != bool(v[1])
    if k == z3.Z3_OP_POWER:
        return v[0] ** v[1]
    raise CevalError(f"operator {t.decl()}")


SPECIAL = {}  # name -> evaluator; filled by models.py


def show(t, limit=4000):
    try:
        z3.set_option(max_args=200, max_lines=60, max_depth=30)
        return str(t)[:limit]
    except Exception:
        return "<term>"
