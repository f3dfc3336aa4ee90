"""Proves formulas over the terms of terms.py.

valid(hyps, goal): every ground application of an opaque function (aggregator or mathematical
function) is replaced by a constant; two applications share a constant when their arguments are
proved equal (pointwise on the range, for lambdas); facts about the applications are added; z3 decides.
"""
import itertools
import math
import os
import random
import time

import z3

from pydv import poly
from pydv.terms import (B, I, R, All, apply_lam, as_int, ceval, consts_in, decl, fresh, is_z, ite, lift, num, real, rec_parts, show, simp)

STATS = {"queries": 0, "solver_s": 0.0, "backends": {}}
_opaque_names = {"SumI", "SumR", "MaxI", "MaxR", "All"}
EXTRA_OPAQUE = {"FFTMOD": [(0, [1])], "RANK": [(0, [1, 2])], "BM": [(0, [1])]}  # name -> list of argument descriptions: 'e' (term) or ('l', ranges) lambda with range args indices
PASS_THROUGH = set()  # uninterpreted functions left to z3 (congruence only)
TIMEOUT = int(os.environ.get("PYDV_TIMEOUT", "8000"))


def is_opaque(t):
    if not z3.is_app(t) or t.decl().kind() != z3.Z3_OP_UNINTERPRETED or t.num_args() == 0:
        return False
    n = t.decl().name()
    if n in _opaque_names or n.startswith("Rec_"):
        return True
    if n in EXTRA_OPAQUE:
        return True
    # plain functions of integers / booleans (the sequence, generic keys): z3's congruence closure
    if all(c.sort() in (I, B) for c in t.children()) and t.sort() in (I, B):
        return False
    return True


def ground_opaque(ts):
    """opaque applications not under a binder, innermost first"""
    out, seen = [], set()

    def go(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return
        for c in x.children():
            go(c)
        if is_opaque(x):
            out.append(x)
    for t in ts:
        go(t)
    return out


_closed_memo = {}


def _maxvar(x):
    """1 + largest free de Bruijn index"""
    k = x.get_id()
    if k in _closed_memo:
        return _closed_memo[k][1]
    if z3.is_var(x):
        r = z3.get_var_index(x) + 1
    elif z3.is_quantifier(x):
        r = max(0, _maxvar(x.body()) - x.num_vars())
    else:
        r = max([0] + [_maxvar(c) for c in x.children()])
    _closed_memo[k] = (x, r)
    return r


def closed_opaque(t):
    """opaque applications without free variables, also under binders, smallest first"""
    out, seen = [], set()

    def go(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return go(x.body())
        if z3.is_var(x):
            return
        for c in x.children():
            go(c)
        if is_opaque(x) and _maxvar(x) == 0:
            out.append(x)
    go(t)
    return sorted(out, key=_size)


def canonical(hyps, goal, ctx, depth):
    """the goal with provably equal applications made the same"""
    reps, tried = [], set()
    start = goal
    while ctx.left() > 0:
        nxt = next((a for a in closed_opaque(goal) if a.get_id() not in tried), None)
        if nxt is None:
            break
        tried.add(nxt.get_id())
        hit = None
        for b in reps:
            if b.sort() == nxt.sort() and (b.decl().name() == nxt.decl().name() or (b.decl().name().startswith("Rec_") and nxt.decl().name().startswith("Rec_"))):
                if same_app(nxt, b, hyps, ctx, depth):
                    hit = b
                    break
        if hit is None:
            reps.append(nxt)
        else:
            goal = simp(z3.substitute(goal, (nxt, hit)))
            if z3.is_true(goal):
                break
    return goal


_names_memo = {}


def _names(f):
    k = f.get_id()
    if k not in _names_memo:
        _names_memo[k] = (f, consts_in(f))
    return _names_memo[k][1]


def _true(t, env, memo):
    if z3.is_and(t):
        return all(_true(c, env, memo) for c in t.children())
    if z3.is_or(t):
        return any(_true(c, env, memo) for c in t.children())
    if z3.is_eq(t) and t.arg(0).sort() == R:
        a, b = ceval(t.arg(0), env, (), memo), ceval(t.arg(1), env, (), memo)
        if isinstance(a, float) or isinstance(b, float):
            return math.isclose(float(a), float(b), rel_tol=1e-7, abs_tol=1e-9)
        return a == b
    return bool(ceval(t, env, (), memo))


class Ctx:
    """one proof attempt: hypotheses, and a budget"""

    def __init__(self, budget_s=60, envs=()):
        self.memo = {}
        self.t_end = time.time() + budget_s
        self.envs = list(envs)  # sample environments: only used to give up early
        self.rng = random.Random(3)
        self.wholes, self.keep, self.tried = set(), [], {}

    def fresh_goal(self, goal):
        """not tried before in this attempt"""
        if goal.get_id() in self.tried:
            return False
        self.tried[goal.get_id()] = goal
        return True

    def some_int(self, env):
        n = max(2, int(env.get("n", 8)))
        return self.rng.randrange(n if self.rng.random() < 0.5 else min(n, 4))

    def plausible(self, hyps, cands, states, builders, k, start, hi, points=60):
        """the candidates true at sampled steps of sampled runs"""
        if not self.envs:
            return cands
        t0 = time.time()
        base = hyps + [start < hi]
        miss = {}
        for f in base + [b(hi) for b in builders]:
            for c in _names(f):
                miss[c.decl().name()] = c
        left, seen = list(cands), 0
        for env in self.envs * 3:
            if seen >= points or time.time() - t0 > 6:
                break
            e = dict(env)
            for nm, c in miss.items():
                if nm not in e:
                    e[nm] = (self.some_int(env) if c.sort() == I
                             else self.rng.random() < 0.5 if c.sort() == B else self.rng.choice([-2, -1, 0, 1, 2, 3]))
            try:
                memo = {}
                if not all(_true(h, e, memo) for h in base):
                    continue
                lo_, hi_ = ceval(start, e), ceval(hi, e)
                if "%limit" in e:
                    hi_ = min(hi_, lo_ + 40)
                for kk in [lo_, hi_] + [self.rng.randint(lo_, hi_) for _ in range(4)]:
                    e2 = dict(e)
                    for s, b in zip(states, builders):
                        e2[s.decl().name()] = ceval(b(z3.IntVal(kk)), e, (), memo)
                    e2[k.decl().name()] = kk
                    m2 = {}
                    left = [c for c in left if _true(c, e2, m2)]
                    seen += 1
            except Exception:
                continue
        STATS["refute_s"] = STATS.get("refute_s", 0) + time.time() - t0
        return left

    def refuted(self, hyps, goal):
        """is the goal false in a sample in which the hypotheses hold?"""
        if not self.envs:
            return False
        t0 = time.time()
        try:
            fs = hyps + [goal]
            missing = []
            for f in fs:
                for c in _names(f):
                    missing.append(c)
            tried = 0
            for env in self.envs:
                if time.time() - t0 > 1:
                    return False
                miss = [c for c in missing if c.decl().name() not in env]
                for _ in range(4 if miss else 1):
                    e = dict(env)
                    for c in miss:
                        if c.decl().name() not in e:
                            e[c.decl().name()] = (self.some_int(env) if c.sort() == I
                                                  else self.rng.random() < 0.5 if c.sort() == B else self.rng.choice([-2, -1, 0, 1, 2, 3]))
                    try:
                        memo = {}
                        if all(_true(h, e, memo) for h in hyps) and not _true(goal, e, memo):
                            return True
                    except Exception:
                        continue
        finally:
            STATS["refute_s"] = STATS.get("refute_s", 0) + time.time() - t0
        return False

    def left(self):
        return self.t_end - time.time()


def _tactic_check(fs, timeout):
    STATS["queries"] += 1
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", int(timeout))
    for f in fs:
        s.add(f)
    r = s.check()
    STATS["solver_s"] += time.time() - t0
    if r == z3.unknown:
        # nonlinear real arithmetic
        t0 = time.time()
        try:
            g = z3.Then("simplify", "purify-arith", "propagate-values", "solve-eqs", "elim-uncnstr", "smt").solver()
            g.set("timeout", int(timeout))
            for f in fs:
                g.add(f)
            r = g.check()
        except z3.Z3Exception:
            r = z3.unknown
        STATS["solver_s"] += time.time() - t0
    STATS["backends"]["z3"] = STATS["backends"].get("z3", 0) + 1
    return r


def conj(hyps):
    out = []
    for h in hyps:
        h = lift(h)
        if z3.is_and(h):
            out += conj(h.children())
        elif not z3.is_true(h):
            out.append(h)
    return out


class Result:
    def __init__(self, ok, why=""):
        self.ok, self.why = ok, why

    def __bool__(self):
        return self.ok


def valid(hyps, goal, ctx=None, depth=0, timeout=None):
    ctx = ctx or Ctx()
    goal = simp(lift(goal))
    if z3.is_true(goal):
        return Result(True)
    hyps = conj([simp(lift(h)) for h in hyps])
    if any(z3.is_false(h) for h in hyps):
        return Result(True)
    if any(h.eq(goal) for h in hyps):
        return Result(True)
    key = (tuple(sorted(h.get_id() for h in hyps)), goal.get_id())
    hit = ctx.memo.get(key)
    if hit is not None:
        return hit[0]
    if ctx.left() < 0:
        return Result(False, "budget used up")
    ctx.memo[key] = (Result(False, "circular"), hyps, goal)
    r = _valid(hyps, goal, ctx, depth, timeout or TIMEOUT)
    ctx.memo[key] = (r, hyps, goal)
    return r


def _split(goal):
    if z3.is_and(goal):
        return [g for c in goal.children() for g in _split(c)]
    if z3.is_not(goal) and z3.is_or(goal.arg(0)):
        return [h for c in goal.arg(0).children() for h in _split(simp(z3.Not(c)))]
    return [goal]


# -- syntactic abstraction: every ground opaque application has its own constant, for good -----
_abs_const = {}
_abs_memo = {}
_cheap_memo = {}


def const_of(a):
    k = a.get_id()
    if k not in _abs_const:
        _abs_const[k] = (a, fresh("q", a.sort()))
    return _abs_const[k][1]


def abstract(f):
    """(f with its maximal opaque applications replaced, the ground applications in it)"""
    k = f.get_id()
    if k not in _abs_memo:
        apps = ground_opaque([f])
        subs = [(a, const_of(a)) for a in sorted(apps, key=lambda t: -_size(t))]
        _abs_memo[k] = (f, z3.substitute(f, *subs) if subs else f, apps)
    return _abs_memo[k][1], _abs_memo[k][2]


def _nonneg(t, var=None):
    """0 <= t, and is it at most 1?  (syntactic)"""
    c = num(t)
    if c is not None:
        return (c >= 0, 0 <= c <= 1)
    if z3.is_app(t):
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ITE:
            x, y = _nonneg(ch[1]), _nonneg(ch[2])
            return (x[0] and y[0], x[1] and y[1])
        if k == z3.Z3_OP_TO_REAL:
            return _nonneg(ch[0])
        if k == z3.Z3_OP_ADD:
            return (all(_nonneg(x)[0] for x in ch), False)
        if k == z3.Z3_OP_MUL:
            if all(_nonneg(x)[0] for x in ch):
                return (True, all(_nonneg(x)[1] for x in ch))
            if len(ch) == 2 and ch[0].eq(ch[1]):
                return (True, False)
            rest = list(ch)
            for i in range(len(ch)):
                for j in range(i + 1, len(ch)):
                    if ch[i].eq(ch[j]):
                        rest = [x for m, x in enumerate(ch) if m not in (i, j)]
                        if all(_nonneg(x)[0] for x in rest):
                            return (True, False)
        if k == z3.Z3_OP_UNINTERPRETED and t.decl().name() in ("SumI",):
            l = t.arg(0)
            return (z3.is_quantifier(l) and _nonneg(l.body())[0], False)
        if k == z3.Z3_OP_UNINTERPRETED and t.decl().name() in ("SQRT", "POW2", "EXP", "ERFC"):
            return (True, False)
    return (False, False)


def cheap_facts(a):
    k = a.get_id()
    if k in _cheap_memo:
        return _cheap_memo[k][1]
    n = a.decl().name()
    c = a.children()
    out = basic_facts(a)
    if n in ("SumI", "SumR") and z3.is_quantifier(c[0]):
        nn, le1 = _nonneg(c[0].body())
        if nn:
            out.append(a >= 0)
        if le1:
            w = z3.If(c[2] > c[1], c[2] - c[1], 0)
            out.append(a <= (z3.ToReal(w) if a.sort() == R else w))
        ns = poly.normal_sum(a)
        if ns is not None:
            f = a == ns[0]
            out.append(z3.Implies(z3.And(*ns[1]), f) if ns[1] else f)
    _cheap_memo[k] = (a, out)
    return out


def quick(hyps, goal, timeout=400):
    """cheap sound check: is the goal implied?"""
    goal = simp(lift(goal))
    if z3.is_true(goal):
        return True
    hyps = conj([simp(lift(h)) for h in hyps])
    fs, todo, seen, lem = [], [], set(), []
    for f in hyps + [z3.Not(goal)]:
        if z3.is_false(f):
            return True
        g, apps = abstract(f)
        fs.append(g)
        todo += apps
    rounds = 0
    while todo and rounds < 2:
        new = []
        for a in todo:
            if a.get_id() in seen:
                continue
            seen.add(a.get_id())
            for l in cheap_facts(a):
                g, apps = abstract(l)
                lem.append(g)
                new += apps
        todo = [a for a in new if a.get_id() not in seen]
        rounds += 1
    allf = fs + lem
    allf = allf + mul_hints(allf)
    STATS["queries"] += 1
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", int(timeout))
    s.add(*allf)
    r = s.check()
    STATS["solver_s"] += time.time() - t0
    return r == z3.unsat


_tidy_memo = {}


def tidy(t, budget=400):
    """t with conditions that the enclosing conditions decide removed"""
    k = t.get_id()
    if k not in _tidy_memo:
        if len(_tidy_memo) > 20000:
            _tidy_memo.clear()
        cnt = [budget]
        _tidy_memo[k] = (t, simp(_tidy(t, (), cnt)))
    return _tidy_memo[k][1]


def _decided(c, ctx, cnt):
    if not ctx or z3.is_true(c) or z3.is_false(c):
        return None
    n = simp(z3.Not(c))
    for h in ctx:
        if h.eq(c):
            return True
        if h.eq(n):
            return False
    mine = {x.get_id() for x in consts_in(c)} | {a.get_id() for a in ground_opaque([c])}
    rel = [h for h in ctx if mine & ({x.get_id() for x in consts_in(h)} | {a.get_id() for a in ground_opaque([h])})]
    if not rel or cnt[0] <= 0:
        return None
    cnt[0] -= 1
    if quick(rel, c, 60):
        return True
    if quick(rel, n, 60):
        return False
    return None


def _with(ctx, c):
    return tuple(list(ctx) + conj([simp(c)]))


def _tidy(t, ctx, cnt):
    if not z3.is_app(t) or t.num_args() == 0 or cnt[0] <= 0:
        return t
    if t.sort() == B:
        d = _decided(t, ctx, cnt)
        if d is not None:
            return z3.BoolVal(d)
    k = t.decl().kind()
    if k == z3.Z3_OP_ITE:
        c = _tidy(t.arg(0), ctx, cnt)
        if z3.is_true(c):
            return _tidy(t.arg(1), ctx, cnt)
        if z3.is_false(c):
            return _tidy(t.arg(2), ctx, cnt)
        a, b = _tidy(t.arg(1), _with(ctx, c), cnt), _tidy(t.arg(2), _with(ctx, z3.Not(c)), cnt)
        return a if a.eq(b) else z3.If(c, a, b)
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        out = list(t.children())
        neg = k == z3.Z3_OP_OR
        for j in range(len(out)):
            c2 = ctx
            for m, x in enumerate(out):
                if m != j and not z3.is_true(x) and not z3.is_false(x):
                    c2 = _with(c2, z3.Not(x) if neg else x)
            out[j] = _tidy(out[j], c2, cnt)
        return z3.Or(*out) if neg else z3.And(*out)
    if is_opaque(t) or any(z3.is_quantifier(c) for c in t.children()):
        return t
    ch = t.children()
    cs = [_tidy(c, ctx, cnt) for c in ch]
    return t if all(x.eq(y) for x, y in zip(ch, cs)) else t.decl()(*cs)


_witness = {}


def witness(a):
    k = a.get_id()
    if k not in _witness:
        _witness[k] = (a, fresh("w"))
    return _witness[k][1]


def index_terms(ts):
    """terms at which universal statements are worth instantiating"""
    out, seen = [], set()

    def go(x):
        if x.get_id() in seen or z3.is_quantifier(x):
            return
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if x.num_args() == 0:
                    if x.sort() == I:
                        out.append(x)
                elif not is_opaque(x):
                    out.extend(c for c in x.children() if c.sort() == I)
            for c in x.children():
                go(c)
    for t in ts:
        go(t)
    return _dedup(out)


def with_literals(hyps, goal):
    """the goal with the atoms that the hypotheses state replaced"""
    subs = []
    for h in hyps:
        neg = z3.is_not(h)
        a = h.arg(0) if neg else h
        if z3.is_app(a) and a.num_args():
            if z3.is_eq(a) and not neg and num(a.arg(1)) is not None and is_opaque(a.arg(0)):
                subs.append((a.arg(0), a.arg(1)))
            subs.append((a, z3.BoolVal(not neg)))
    return simp(z3.substitute(goal, *subs)) if subs else goal


def top_case(goal):
    """the condition of a conditional side of an equation"""
    if z3.is_eq(goal):
        for x in goal.children():
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and any(is_opaque(y) and not y.decl().name().startswith(("Sum", "Max")) for y in (x.arg(1), x.arg(2))):
                return x.arg(0)
    return None


def _valid(hyps, goal, ctx, depth, timeout):
    if depth <= 2 and ctx.fresh_goal(goal) and _coupled(goal, hyps, ctx):
        return Result(True)
    parts = _split(goal)
    if len(parts) > 1:
        for p in parts:
            r = valid(hyps, p, ctx, depth, timeout)
            if not r:
                return r
        return Result(True)
    # a universally quantified goal: a fresh index
    if z3.is_app(goal) and goal.decl().name() == "All":
        l, lo, hi = goal.children()
        k = fresh("k")
        return valid(hyps + [lo <= k, k < hi], apply_lam(l, k), ctx, depth, timeout)
    if z3.is_implies(goal):
        return valid(hyps + [goal.arg(0)], goal.arg(1), ctx, depth, timeout)
    if z3.is_or(goal):
        ds = goal.children()
        eqs = [d for d in ds if z3.is_eq(d) and d.arg(0).sort() in (I, R)]
        if len(eqs) == 1:
            return valid(hyps + [simp(z3.Not(d)) for d in ds if not d.eq(eqs[0])], eqs[0], ctx, depth, timeout)
    if quick(hyps, goal, 300 if depth else 1000):
        return Result(True)
    if z3.is_eq(goal) and goal.arg(0).sort() in (I, R):
        gs = poly.equal(goal.arg(0), goal.arg(1))
        if gs is not None and all(valid(hyps, g, ctx, depth + 1) for g in gs):
            return Result(True)
    if depth > 6:
        return Result(False, "too deep")
    sg = _sign_goal(goal)
    if sg is not None and all(valid(hyps, g, ctx, depth + 1, timeout) for g in sg):
        return Result(True)
    if depth <= 2 and _positive_sum(goal, hyps, ctx, depth):
        return Result(True)
    if depth <= 2 and not any(h.get_id() in ctx.wholes for h in hyps):
        w = partitions([a for a in ground_opaque([goal]) if a.decl().name() == "SumI"], hyps, ctx, depth)
        if w:
            ctx.wholes |= {h.get_id() for h in w}
            ctx.keep += w
            return valid(hyps + w, goal, ctx, depth, timeout)
    g0 = with_literals(hyps, goal)
    if not g0.eq(goal):
        return valid(hyps, g0, ctx, depth, timeout)
    g1 = poly.norm(goal)
    if z3.is_true(g1):
        return Result(True)
    if depth and ctx.refuted(hyps, goal):
        return Result(False, "false for a sample")
    if z3.is_eq(goal) and is_opaque(goal.arg(0)) and is_opaque(goal.arg(1)) and same_app(goal.arg(0), goal.arg(1), hyps, ctx, depth):
        return Result(True)
    c = top_case(goal)
    if c is not None:
        for h in (c, simp(z3.Not(c))):
            if not quick(hyps, z3.Not(h), 300):
                r = valid(hyps + [h], goal, ctx, depth, timeout)
                if not r:
                    return r
        return Result(True)
    g2 = canonical(hyps, g1, ctx, depth)
    if not g2.eq(g1):
        return valid(hyps, g2, ctx, depth, timeout)
    neg = z3.Not(goal)
    fs = hyps + [neg]
    lem = []
    # universal statements: instances and witnesses
    insts = index_terms([goal])
    for h in hyps:
        if len(insts) > 10:
            break
        insts = _dedup(insts + [t for t in index_terms([h]) if z3.is_app(t) and t.num_args() == 0 and t.decl().name().startswith(("k!", "w!"))])
    apps = ground_opaque(fs)
    alls = [a for a in apps if a.decl().name() == "All"]
    for a in alls:
        w = witness(a)
        l, lo, hi = a.children()
        lem.append(z3.Or(a, z3.And(lo <= w, w < hi, z3.Not(apply_lam(l, w)))))
        insts = _dedup(insts + [w])
    for a in alls:
        l, lo, hi = a.children()
        for t in insts[:14] + [lo, simp(hi - 1)]:
            lem.append(z3.Implies(z3.And(a, lo <= t, t < hi), apply_lam(l, t)))
    # largest values and non-negative sums: at least each of their items
    for a in apps:
        if a.decl().name() in ("MaxI", "MaxR"):
            l, lo, hi, init = a.children()
            ts = insts[:6] if len(apps) < 40 else []
            for t in _dedup([simp(t) for t in ts + [lo, lo + 1, hi - 1]]):
                lem.append(z3.Implies(z3.And(lo <= t, t < hi), a >= apply_lam(l, t)))
    goal_apps = ground_opaque([goal] + lem)
    todo = goal_apps
    seen = set()
    done = []
    for rnd in range(2):
        new = []
        for a in todo:
            if a.get_id() in seen:
                continue
            seen.add(a.get_id())
            done.append(a)
            f = facts(a, hyps, ctx, depth)
            lem += f
            new += ground_opaque(f)
        todo = new
    if depth <= 3:
        lem += rec_facts(_dedup(apps), hyps, ctx, depth)
    every = _dedup(done + apps)
    # equal applications
    eqs = []
    ids = {a.get_id() for a in done}
    for a, b in itertools.combinations(every, 2):
        if a.sort() != b.sort() or (a.get_id() not in ids and b.get_id() not in ids):
            continue
        na, nb = a.decl().name(), b.decl().name()
        if na != nb and not (na.startswith("Rec_") and nb.startswith("Rec_")):
            continue
        if same_app(a, b, hyps, ctx, depth):
            eqs.append(const_of(a) == const_of(b))
    g = list(eqs)
    pend, seen2 = fs + lem, set()
    for rnd in range(2):
        new = []
        for f in pend:
            h, aps = abstract(simp(f))
            g.append(h)
            for a in aps:
                if a.get_id() not in seen2:
                    seen2.add(a.get_id())
                    new += cheap_facts(a)
        pend = new
    g += [abstract(simp(f))[0] for f in pend]
    g += mul_hints(g)
    r = _tactic_check(g, min(timeout, max(200, ctx.left() * 1000)))
    if r == z3.unsat:
        return Result(True)
    return Result(False, ("no proof; negated goal satisfiable in the abstraction: " if r == z3.sat else "solver gave up: ") + show(goal, 1500))


def _sign_goal(goal):
    """a product or quotient is positive (not negative) if its factors are"""
    neg = z3.is_not(goal)
    g = goal.arg(0) if neg else goal
    if not z3.is_app(g) or g.num_args() != 2:
        return None
    k = g.decl().kind()
    a, b = g.children()
    if a.sort() not in (I, R):
        return None
    if neg and k in (z3.Z3_OP_LE, z3.Z3_OP_GE):
        strict = True
        t = a if k == z3.Z3_OP_LE and num(b) == 0 else b if k == z3.Z3_OP_GE and num(a) == 0 else None
    elif not neg and k in (z3.Z3_OP_LE, z3.Z3_OP_GE):
        strict = False
        t = b if k == z3.Z3_OP_LE and num(a) == 0 else a if k == z3.Z3_OP_GE and num(b) == 0 else None
    else:
        return None
    if t is None:
        return None
    fs = []

    def factors(x):
        k = x.decl().kind()
        if k == z3.Z3_OP_MUL:
            for c in x.children():
                factors(c)
        elif k in (z3.Z3_OP_DIV,):
            factors(x.arg(0))
            fs.append((x.arg(1), True))
        elif k == z3.Z3_OP_TO_REAL:
            factors(x.arg(0))
        elif num(x) is None or num(x) <= 0:
            fs.append((x, strict))
    factors(t)
    if len(fs) == 1 and fs[0][0].eq(t):
        return None
    return [simp(x > 0) if st else simp(x >= 0) for x, st in fs]


def _size(t, memo={}):
    k = t.get_id()
    if k in memo:
        return memo[k][1]
    n = 1 + (_size(t.body()) if z3.is_quantifier(t) else sum(_size(c) for c in t.children()))
    memo[k] = (t, n)
    if len(memo) > 300000:
        memo.clear()
    return n


def _ordered(merged):
    return sorted(merged, key=lambda p: -_size(p[0]))


def substitute_all(f, subs):
    # outermost applications first; z3.substitute is simultaneous on maximal matches
    return z3.substitute(f, *subs) if subs else f


def lam_args(t):
    """[(argument index, [(lo, hi) ranges])] of the lambda arguments of an aggregator"""
    n = t.decl().name()
    c = t.children()
    if n in ("SumI", "SumR", "All", "MaxI", "MaxR"):
        return [(0, [(c[1], c[2])])]
    if n in EXTRA_OPAQUE:
        return [(ix, [(lift(0), c[h]) for h in his]) for ix, his in EXTRA_OPAQUE[n]]
    return []


def same_app(a, b, hyps, ctx, depth):
    """are two applications of the same opaque function provably equal?"""
    if a.eq(b):
        return True
    na, nb = a.decl().name(), b.decl().name()
    if na.startswith("Rec_"):
        return nb.startswith("Rec_") and same_rec(a, b, hyps, ctx, depth)
    if na != nb:
        return False
    ca, cb = a.children(), b.children()
    lams = dict(lam_args(a))
    for i, (x, y) in enumerate(zip(ca, cb)):
        if i in lams or x.eq(y):
            continue
        if x.sort() != y.sort():
            return False
        if x.sort().kind() == z3.Z3_ARRAY_SORT:
            return False
        if not valid(hyps, x == y, ctx, depth + 1, 3000):
            return False
    for i, ranges in lams.items():
        if ca[i].eq(cb[i]):
            continue
        ks = [fresh("k") for _ in ranges]
        h = [z3.And(lo <= k, k < hi) for k, (lo, hi) in zip(ks, ranges)]
        if not valid(hyps + h, apply_lam(ca[i], *ks) == apply_lam(cb[i], *ks), ctx, depth + 1, 5000):
            return False
    return True


def same_rec(a, b, hyps, ctx, depth):
    _, _, sa, ha, _ = rec_parts(a)
    _, _, sb, hb, _ = rec_parts(b)
    if a.sort() != b.sort():
        return False
    if not (ha.eq(hb) and sa.eq(sb)) and not valid(hyps, z3.And(ha == hb, sa == sb), ctx, depth + 1, 3000):
        return False
    inv = couple([a, b], sa, ha, hyps, ctx, depth)
    if not inv:
        return False
    b2 = comp_of(b)(ha)
    return bool(quick(hyps + inv.at(ha), a == b2)) or bool(valid(hyps + inv.at(ha), a == b2, ctx, depth + 2, 2000))


def comp_of(a):
    """k -> the application with k steps"""
    c = list(a.children())

    def at(k):
        c[-1] = k
        return a.decl()(*c)
    return at


def comps_of(a):
    """[(init, k -> application, (k, *component symbols) -> next)] of all components"""
    lams, inits, st, hi, j = rec_parts(a)
    n = a.decl().name()
    out = []
    for i, l in enumerate(lams):
        f = decl("_".join(n.split("_")[:2] + [str(i)]), *[x.sort() for x in a.children()], inits[i].sort())
        out.append((inits[i], comp_of(f(*a.children())), l))
    return out


class Inv:
    """formulas over states and the step number, true of the recurrences at every step"""

    def __init__(self, states, builders, kvar, cands):
        self.states, self.builders, self.kvar, self.cands = states, builders, kvar, cands

    def at(self, k):
        subs = [(s, b(k)) for s, b in zip(self.states, self.builders)]
        return [simp(z3.substitute(z3.substitute(c, (self.kvar, k)), *subs)) for c in self.cands]


def _coupled(goal, hyps, ctx):
    """goal about recurrences run side by side: proved from their invariant alone?"""
    groups = {}
    for a in ground_opaque([goal]):
        if a.decl().name().startswith("Rec_"):
            _, _, st, hi, _ = rec_parts(a)
            groups.setdefault((st.get_id(), hi.get_id()), []).append(a)
    for g in groups.values():
        if 2 <= len(g) <= 6:
            _, _, st, hi, _ = rec_parts(g[0])
            inv = couple(g, st, hi, hyps, ctx, 9, fast=True)
            if inv and quick(hyps + [z3.Implies(st <= hi, f) for f in inv.at(hi)], goal, 1000):
                return True
    return False


def couple(recs, start, hi, hyps, ctx, depth, fast=False):
    """an inductive invariant (the candidates that survive) of recurrences run side by side"""
    at0 = [comp_of(x)(z3.IntVal(0)) for x in recs]
    key = ("couple", fast, tuple(sorted(set(x.get_id() for x in at0))), start.get_id(), hi.get_id(), tuple(sorted(h.get_id() for h in hyps)))
    if key in ctx.memo:
        return ctx.memo[key][0]
    used = (at0, start, hi, list(hyps))  # (keeps what the key is made of alive)
    ctx.memo[key] = (None, used)
    k = z3.Const("%k", I)
    builders, inits, states, outs, ids = [], [], [], [], {}
    pending = list(recs)
    raw = []
    while pending:
        a = pending.pop(0)
        cs = comps_of(a)
        t0 = cs[0][1](k)
        if t0.get_id() in ids:
            continue
        syms = []
        for init, bld, l in cs:
            s = fresh("st", init.sort())
            t0 = bld(k)
            ids[t0.get_id()] = s
            ctx.keep.append(t0)
            builders.append(bld)
            inits.append(init)
            states.append(s)
            syms.append(s)
        if len(states) > 8:
            return None
        for init, bld, l in cs:
            o = apply_lam(l, k, *syms)
            raw.append(o)
            for x in ground_opaque([o]):
                if x.decl().name().startswith("Rec_"):
                    _, _, st2, hi2, _ = rec_parts(x)
                    if hi2.eq(k) and st2.eq(start):
                        pending.append(x)
    subs = [(b(k), s) for b, s in zip(builders, states)]
    outs = [simp(z3.substitute(o, *subs)) for o in raw]
    cands = candidates(states, outs, k)
    cands = ctx.plausible(hyps, cands, states, builders, k, start, hi)
    # initially
    sub0 = list(zip(states, inits)) + [(k, start)]
    keep = []
    for c in cands:
        c0 = simp(z3.substitute(c, *sub0))
        if z3.is_true(c0) or not z3.is_false(c0) and quick(hyps, c0, 100) or not fast and valid(hyps, c0, ctx, depth + 2, 500):
            keep.append(c)
    # preserved: drop until stable
    subn = list(zip(states, outs))
    base = hyps + [start <= k, k < hi]
    after = [simp(z3.substitute(z3.substitute(c, (k, k + 1)), *subn)) for c in keep]
    slow = depth <= 2 and not fast
    s = z3.Solver()
    s.set("timeout", 300)
    for f in base + [g for a in ground_opaque(base + after) for g in cheap_facts(a)]:
        s.add(abstract(simp(f))[0])
    lits = [z3.Const(f"%keep{j}", B) for j in range(len(keep))]
    for p, c in zip(lits, keep):
        s.add(z3.Implies(p, abstract(c)[0]))
    left = list(range(len(keep)))
    while left and ctx.left() > 0:
        bad = []
        for j in left:
            STATS["queries"] += 1
            t0 = time.time()
            r = s.check([lits[i] for i in left] + [abstract(simp(z3.Not(after[j])))[0]]) if not z3.is_true(after[j]) else z3.unsat
            STATS["solver_s"] += time.time() - t0
            STATS["backends"]["z3"] = STATS["backends"].get("z3", 0) + 1
            if r != z3.unsat and not (slow and valid(base + [keep[i] for i in left], after[j], ctx, depth + 3, 800)):
                bad.append(j)
        if not bad:
            break
        left = [j for j in left if j not in bad]
    keep = [keep[j] for j in left]
    if ctx.left() <= 0:
        return None
    inv = Inv(states, builders, k, keep)
    ctx.memo[key] = (inv, used)
    return inv


def candidates(states, outs, k):
    cands, have = [], set()

    def add(c):
        c = simp(c)
        if not z3.is_true(c) and not z3.is_false(c) and c.get_id() not in have:
            have.add(c.get_id())
            cands.append(c)
    bools = []
    for o in outs:
        bools += _bool_atoms(o, states, k)
    bools += [x for x in states if x.sort() == B]
    bools = _dedup(bools)[:8]
    nums = [x for x in states if x.sort() in (I, R)]
    zero = lambda x: lift(0) if x.sort() == I else real(0)
    for x, y in itertools.combinations(states, 2):
        if x.sort() != y.sort():
            continue
        add(x == y)
        if x.sort() == B:
            add(x == z3.Not(y))
    for x in nums:
        add(x >= 0)
        add(x >= 1)
        if x.sort() == I:
            add(x <= k)
            add(x == k)
        for b in bools:
            add(z3.Implies(b, x >= 1))
            add(z3.Implies(z3.Not(b), x == 0))
    for x, y in itertools.permutations(nums, 2):
        if x.sort() != y.sort():
            continue
        add(x >= y)
        for b in bools:
            add(x == z3.If(b, y, zero(x)))
            add(x == z3.If(b, zero(x), y))
    for x, y, z in itertools.permutations(nums, 3):
        if not (x.sort() == y.sort() == z.sort()):
            continue
        add(x == z3.If(y > z, y, z))
        for b in bools:
            add(x == z3.If(z3.And(b, y > z), y, z))
            add(x == z3.If(z3.And(z3.Not(b), y > z), y, z))
    return cands


def fresh_like(s):
    return fresh("s", s.sort())


def _dedup(ts):
    out = []
    for t in ts:
        if not any(t.eq(u) for u in out):
            out.append(t)
    return out


def _bool_atoms(t, exclude, k):
    """boolean subterms without the given constants and without binders"""
    out, seen = [], set()

    def has(x):
        return any(any(c.eq(e) for e in exclude) for c in consts_in(x))

    def go(x):
        if x.get_id() in seen or z3.is_quantifier(x):
            return
        seen.add(x.get_id())
        if is_opaque(x):
            return
        if x.sort() == B and not z3.is_true(x) and not z3.is_false(x) and not has(x) and not z3.is_not(x):
            out.append(x)
        for c in x.children():
            go(c)
    go(t)
    return out


def basic_facts(a):
    """true statements about one application, without proof search"""
    n = a.decl().name()
    c = a.children()
    out = []
    if n == "SQRT":
        out += [z3.Implies(c[0] >= 0, z3.And(a >= 0, a * a == c[0])), z3.Implies(c[0] > 0, a > 0)]
    elif n == "ERFC":
        out += [a >= 0, a <= 2, z3.Implies(c[0] >= 0, a <= 1)]
    elif n == "IGAMC":
        out += [z3.Implies(z3.And(c[0] > 0, c[1] >= 0), z3.And(a >= 0, a <= 1))]
    elif n == "CHI2SF":
        out += [z3.Implies(c[1] >= 0, z3.And(a >= 0, a <= 1))]
    elif n == "HYP1F1":
        out += [z3.Implies(z3.And(c[0] > 0, c[1] > 0, c[2] >= 0), a >= 1)]
    elif n == "NORMCDF":
        out += [a >= 0, a <= 1]
    elif n == "EXP":
        out += [a > 0, z3.Implies(c[0] <= 0, a <= 1), z3.Implies(c[0] < 0, a < 1)]
    elif n == "POW2":
        out += [a > 0, z3.Implies(c[0] >= 0, a >= 1), z3.Implies(c[0] >= 1, a >= 2), z3.Implies(c[0] == 0, a == 1)]
    elif n == "LOG2" or n == "LOG":
        out += [z3.Implies(c[0] >= 1, a >= 0), z3.Implies(z3.And(c[0] > 0, c[0] <= 1), a <= 0), z3.Implies(c[0] > 1, a > 0),
                z3.Implies(c[0] > 0, a <= c[0]), z3.Implies(c[0] > 0, a <= c[0] - 1) if n == "LOG" else z3.Implies(c[0] >= 2, z3.And(a >= 1, a <= c[0] - 1))]
    elif n in ("SumI", "SumR"):
        l, lo, hi = c
        out.append(z3.Implies(hi <= lo, a == 0))
    elif n in ("MaxI", "MaxR"):
        out.append(a >= c[3])
    elif n == "All":
        l, lo, hi = c
        out.append(z3.Implies(hi <= lo, a))
    elif n.startswith("Rec_"):
        lams, inits, st, hi, j = rec_parts(a)
        out.append(z3.Implies(hi <= st, a == inits[j]))
    return out


def facts(a, hyps, ctx, depth):
    """true statements about one application, with proof search"""
    n = a.decl().name()
    c = a.children()
    out = basic_facts(a)
    if n in ("SumI", "SumR"):
        l, lo, hi = c
        if depth <= 2 and num(simp(hi - lo)) is None:
            at = lambda i: (lambda b: as_int(b) if z3.is_bool(b) else b)(apply_lam(l, simp(i)))
            f = a.decl()
            out.append(z3.Implies(lo < hi, a == at(lo) + f(l, simp(lo + 1), hi)))
            out.append(z3.Implies(lo + 1 < hi, a == at(lo) + f(l, simp(lo + 1), simp(hi - 1)) + at(hi - 1)))
        k = fresh("k")
        b = apply_lam(l, k)
        if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE and num(b.arg(2)) == 0 and (z3.is_and(b.arg(0)) or z3.is_eq(b.arg(0))) and quick(hyps + [lo <= k, k < hi], z3.Not(b.arg(0)), 150):
            out.append(a == 0)
        elif depth <= 4:
            rng = hyps + [lo <= k, k < hi]
            if valid(rng, b >= 0, ctx, depth + 2, 800):
                out.append(a >= 0)
                if valid(rng, b <= 1, ctx, depth + 2, 800):
                    w = z3.If(hi > lo, hi - lo, 0)
                    out.append(a <= (z3.ToReal(w) if a.sort() == R else w))
    elif n.startswith("Rec_"):
        lams, inits, st, hi, j = rec_parts(a)
        if depth <= 3:
            # the last step
            cs = comps_of(a)
            prev = simp(hi - 1)
            ps = [bld(prev) for _, bld, _ in cs]
            out.append(z3.Implies(st < hi, a == simp(apply_lam(lams[j], hi - 1, *ps))))
            out.append(z3.Implies(st >= hi - 1, z3.And([p == i0 for p, i0 in zip(ps, inits)])))
    return out


def _positive_sum(goal, hyps, ctx, depth):
    """goal says that a sum is positive: no item is negative, and one at a known index is at least 1"""
    a = None
    if z3.is_not(goal) and z3.is_le(goal.arg(0)) and num(goal.arg(0).arg(1)) == 0:
        a = goal.arg(0).arg(0)
    elif (z3.is_gt(goal) and num(goal.arg(1)) == 0) or (z3.is_ge(goal) and num(goal.arg(1)) == 1):
        a = goal.arg(0)
    elif z3.is_le(goal) and num(goal.arg(0)) == 1:
        a = goal.arg(1)
    while a is not None and z3.is_to_real(a):
        a = a.arg(0)
    if a is None or not z3.is_app(a) or a.decl().name() != "SumI":
        return False
    l, lo, hi = a.children()
    pts = [x for x in consts_in(l) if x.sort() == I and quick(hyps, z3.And(lo <= x, x < hi), 100)][:4]
    if not pts:
        return False
    k = fresh("k")
    if not quick(hyps + [lo <= k, k < hi], apply_lam(l, k) >= 0, 300):
        return False
    return any(valid(hyps, simp(apply_lam(l, x)) >= 1, ctx, depth + 2, 800) for x in pts)


def rec_facts(apps, hyps, ctx, depth):
    """invariants of the recurrences run side by side"""
    groups = {}
    for a in apps:
        if a.decl().name().startswith("Rec_"):
            _, _, st, hi, _ = rec_parts(a)
            groups.setdefault((st.get_id(), hi.get_id()), []).append(a)
    out = []
    for g in groups.values():
        _, _, st, hi, _ = rec_parts(g[0])
        inv = couple(g[:5], st, hi, hyps, ctx, depth)
        if inv:
            out += [z3.Implies(st <= hi, f) for f in inv.at(hi)]
    return out


def _is_unrolled(hi):
    return False


def pair_facts(apps, hyps, ctx, depth):
    """relations between two sums over the same range whose bodies are linearly related, and between
    universal statements"""
    out = []
    sums = [a for a in apps if a.decl().name() in ("SumI", "SumR")]
    if depth <= 3:
        out += partitions(sums, hyps, ctx, depth)
        for a, b in itertools.combinations(sums, 2):
            la, loa, hia = a.children()
            lb, lob, hib = b.children()
            if not (loa.eq(lob) and hia.eq(hib)):
                continue
            k = fresh("k")
            x, y = apply_lam(la, k), apply_lam(lb, k)
            if x.sort() != y.sort():
                x, y = real(x), real(y)
            w = z3.If(hia > loa, hia - loa, 0)
            for p, q in ((-1, 1), (1, -1), (2, -1), (-2, 1)):
                for u, v, au, av in ((x, y, a, b), (y, x, b, a)):
                    if valid(hyps + [loa <= k, k < hia], u == p * v + q, ctx, depth + 2, 600):
                        uu, vv = (au, av) if au.sort() == av.sort() else (real(au), real(av))
                        ww = z3.ToReal(w) if uu.sort() == R else w
                        out.append(uu == p * vv + q * ww)
    return out


def partitions(sums, hyps, ctx, depth):
    groups = {}
    for a in sums:
        _, lo, hi = a.children()
        groups.setdefault((lo.get_id(), hi.get_id()), []).append(a)
    out = []
    for g in groups.values():
        if len(g) > 1:
            out += whole(g, hyps, ctx, depth)
    return out


def whole(g, hyps, ctx, depth):
    """sums over one range whose bodies are the indicators of a partition of it"""
    _, lo, hi = g[0].children()
    k = fresh("k")
    b = [apply_lam(a.children()[0], k) for a in g]
    if any(a.decl().name() != "SumI" for a in g):
        return []
    if not quick(hyps + [lo <= k, k < hi], z3.Sum(*b) == 1, 300) and not (depth and len(g) > 2 and valid(hyps + [lo <= k, k < hi], z3.Sum(*b) == 1, ctx, depth + 2, 2000)):
        return []
    return [z3.Sum(*g) == z3.If(hi > lo, hi - lo, 0)]


def mul_hints(fs):
    """for products with a common positive factor: order of the other factors orders the products"""
    prods = {}
    seen = set()

    def go(x):
        if x.get_id() in seen or z3.is_quantifier(x):
            return
        seen.add(x.get_id())
        if z3.is_mul(x) and x.sort() == I and x.num_args() == 2:
            a, b = x.children()
            if num(a) is None and num(b) is None:
                prods.setdefault(b.get_id(), (b, []))[1].append((a, x))
                prods.setdefault(a.get_id(), (a, []))[1].append((b, x))
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_IDIV:
            a, b = x.children()
            if num(b) is None:
                prods.setdefault(b.get_id(), (b, []))[1].append((x, x * b))
                extra.append(z3.Implies(b > 0, z3.And(x * b <= a, a < x * b + b)))
        for c in x.children():
            go(c)
    extra = []
    for f in fs:
        go(f)
    out = list(extra)
    for _, (c, items) in prods.items():
        for (a, x), (b, y) in itertools.combinations(items[:8], 2):
            out.append(z3.Implies(z3.And(c > 0, a < b), x + c <= y))
            out.append(z3.Implies(z3.And(c > 0, b < a), y + c <= x))
    return out
