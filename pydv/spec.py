"""From properties to obligations: symbolic inputs, contracts, and the bookkeeping of one run."""
import math
import random
import time
import traceback
from fractions import Fraction

import z3

from pydv import prover
from pydv.interp import CtxV, Machine, Ob, Path, Restart
from pydv.models import USED, SeqInputV, contract_bins, py
from pydv.terms import *
from pydv.terms import CevalError
from pydv.values import *

BASE = ["CPython executes the source as its language reference says; pydv/interp.py and pydv/loop.py represent that (checked on random inputs: tools/crosscheck.py)",
        "floating point numbers are treated as the real numbers they approximate",
        "the models of pandas, NumPy, SciPy and the standard library in pydv/models.py (erfc, igamc, 1F1, sqrt, log, exp are uninterpreted, with the ranges and signs stated in prover.py)",
        "z3's answers"]


class Input:
    """the sequence passed: n values, H(i): is value i the larger one?"""

    def __init__(self, is_series=False, gate=False, name="H", min_n=1):
        self.H = z3.Function(name, I, B)
        self.n = z3.Int("n")
        self.gate = gate
        H, n = self.H, self.n
        self.heads = Sum(0, n, lambda i: H(i))
        self.wh, self.wt = z3.Int("wh"), z3.Int("wt")
        seq = SymSeq(n, lambda i: FaceV(H(lift(i))))
        if gate:
            self.nans, self.nun = z3.Bool("nans"), z3.Int("nunique")
            self.hyps = [n >= 0, self.nun >= 0]
        else:
            self.nans, self.nun = z3.BoolVal(False), z3.IntVal(2)
            self.hyps = [n >= 2, self.heads >= 1, self.heads <= n - 1, 0 <= self.wh, self.wh < n, H(self.wh),
                         0 <= self.wt, self.wt < n, z3.Not(H(self.wt))]
        self.v = SeqInputV(is_series, seq, self.nans, self.nun, {"n": n})

    def env(self, bits, **more):
        bits = list(bits)
        e = dict(more)
        e.update(n=len(bits), H=lambda i: bits[i], wh=bits.index(True) if True in bits else 0,
                 wt=bits.index(False) if False in bits else 0, nans=False, nunique=len(set(bits)))
        return e


def sample_bits(rng, n):
    k = rng.random()
    if k < 0.35:
        p = rng.choice([0.5, 0.5, 0.2, 0.8, 0.05, 0.95])
        b = [rng.random() < p for _ in range(n)]
    elif k < 0.6:
        m = rng.randint(1, 6)
        w = [rng.random() < 0.5 for _ in range(m)]
        b = [w[i % m] for i in range(n)]
    elif k < 0.8:
        b, v = [], rng.random() < 0.5
        while len(b) < n:
            b += [v] * rng.randint(1, max(1, n // 3))
            v = not v
        b = b[:n]
    else:
        b = [False] * n
        for _ in range(rng.randint(1, 3)):
            b[rng.randrange(n)] = True
        if rng.random() < 0.5:
            b = [not x for x in b]
    if len(set(b)) < 2 and n >= 2:
        b[rng.randrange(n)] = not b[0]
    return b


class Report:
    def __init__(self, pid, budget=330):
        self.pid = pid
        self.failed, self.undecided, self.names = [], [], []
        self.total = self.ok = 0
        self.t_end = time.time() + budget
        self.assumptions, self.trusted = [], list(BASE)
        self.functions = set()
        self.bounded = []
        self.reach = []
        self.loops = 0
        self.rules = {}
        self.verbose = False
        self._samples = {}

    def obligation(self, name, hyps, goal, sampler=None, budget=60):
        """proves hyps => goal; sampler(rng) gives environments for a refutation"""
        self.total += 1
        goal = simp(lift(goal))
        if name not in self.names:
            self.names.append(name)
        if time.time() > self.t_end:
            self.undecided.append(dict(name=name, why="time budget of the proof part used up"))
            return False
        t0 = time.time()
        easy = prover.quick(hyps, goal) or z3.is_true(prover.poly.norm(goal))
        bad = refute(hyps, goal, sampler, 40, 1.5) if sampler and not easy else None
        if bad is not None:
            self.failed.append(dict(name=name, why=f"false for {bad}", input=bad))
            if self.verbose:
                print(f"  FAILED {name}: {bad}")
            return False
        r = easy or prover.valid(hyps, goal, prover.Ctx(min(budget, self.t_end - time.time()), self.samples(sampler)))
        if r:
            self.ok += 1
            if self.verbose:
                print(f"  ok {name} {time.time() - t0:.2f}s")
            return True
        why = r.why
        bad = refute(hyps, goal, sampler) if sampler else None
        if bad is not None:
            self.failed.append(dict(name=name, why=f"false for {bad}", input=bad))
        elif "gave up" in why or "budget" in why or "circular" in why or "too deep" in why:
            self.undecided.append(dict(name=name, why=why))
        else:
            self.failed.append(dict(name=name, why=why))
        if self.verbose:
            print(f"  FAILED {name} {time.time() - t0:.2f}s: {why[:1200]} {bad}")
        return False

    def lemma(self, name, hyps, goal, sampler=None):
        """an obligation of its own; afterwards a hypothesis"""
        return [simp(lift(goal))] if self.obligation("lemma: " + name, hyps, goal, sampler) else []

    def samples(self, sampler):
        if sampler is None:
            return ()
        if sampler not in self._samples:
            rng = random.Random(11)
            out = []
            for _ in range(40):
                e = sampler(rng)
                if e is not None and e.get("n", 0) <= e.get("%max", 24):
                    out.append(e)
            self._samples[sampler] = out[:16]
        return self._samples[sampler]

    def unsupported(self, name, e):
        self.total += 1
        self.names.append(name)
        self.undecided.append(dict(name=name, why=f"{type(e).__name__}: {e}"))
        if self.verbose:
            print(f"  UNDECIDED {name}: {e}")

    def fail(self, name, why):
        self.total += 1
        self.names.append(name)
        self.failed.append(dict(name=name, why=why))
        if self.verbose:
            print(f"  FAILED {name}: {why}")

    def good(self, name):
        self.total += 1
        self.ok += 1
        self.names.append(name)

    def out(self):
        return dict(failed=self.failed, undecided=self.undecided, obligations=self.total, discharged=self.ok,
                    trusted_base=self.trusted + sorted("library model: " + u for u in USED), functions=sorted(self.functions),
                    backends=dict(prover.STATS["backends"], queries=prover.STATS["queries"]),
                    solver_s=round(prover.STATS["solver_s"], 2), names=self.names, assumptions=self.assumptions,
                    bounded=self.bounded, reachability=self.reach, loops_summarised=self.loops, loop_rules=self.rules)


def free_names(ts):
    cs, fs = {}, {}
    seen = set()

    def go(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return go(x.body())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if x.num_args() == 0:
                    cs[x.decl().name()] = x
                else:
                    fs[x.decl().name()] = x.decl()
            for c in x.children():
                go(c)
    for t in ts:
        go(t)
    return cs, fs


def differs(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) != bool(b)
    if isinstance(a, float) or isinstance(b, float):
        return not math.isclose(float(a), float(b), rel_tol=1e-7, abs_tol=1e-9)
    return a != b


def holds(t, env, memo=None):
    """truth of a formula; equalities of reals up to rounding"""
    memo = {} if memo is None else memo
    if z3.is_and(t):
        return all(holds(c, env, memo) for c in t.children())
    if z3.is_or(t):
        return any(holds(c, env, memo) for c in t.children())
    if z3.is_implies(t):
        return not holds(t.arg(0), env, memo) or holds(t.arg(1), env, memo)
    if z3.is_eq(t) and t.arg(0).sort() == R:
        return not differs(ceval(t.arg(0), env, (), memo), ceval(t.arg(1), env, (), memo))
    return bool(ceval(t, env, (), memo))


def refute(hyps, goal, sampler, tries=400, limit_s=12):
    rng = random.Random(7)
    t_end = time.time() + limit_s
    hyps = prover.conj([simp(lift(h)) for h in hyps])
    cs, fs = free_names(hyps + [goal])
    for _ in range(tries):
        if time.time() > t_end:
            return None
        env = sampler(rng)
        if env is None:
            continue
        for c, x in cs.items():
            if c not in env:
                if x.sort() == I:
                    env[c] = rng.randint(0, max(1, int(env.get("n", 8)) - 1))
                elif x.sort() == B:
                    env[c] = rng.random() < 0.5
                else:
                    env[c] = rng.choice([-2, -1, 0, 1, 2, 3])
        try:
            memo = {}
            if all(holds(h, env, memo) for h in hyps) and not holds(goal, env, memo):
                H = env.get("H")
                d = {k: v for k, v in env.items() if not callable(v)}
                if H and "n" in env:
                    d["H"] = "".join("1" if H(i) else "0" for i in range(env["n"]))
                return d
        except (CevalError, KeyError, IndexError, ZeroDivisionError, TypeError, ValueError, OverflowError, RecursionError):
            continue
    return None


def contract_failures(M, a, k):
    """check_recommendations (its own contract is C29): the failed ones, listed; no other effect than the warning"""
    d = a[1] if len(a) > 1 else k["recommendations"]
    m = M.get(d, "d")
    if not isinstance(m, FinMap):
        raise Unsupported("recommendations")
    return ListObj(Sparse([(simp(z3.Not(lift(M.truth(v)))), x) for x, v in m.m.items()]))


def machine(extra=None, contracts=True):
    c = {}
    if contracts:
        c = {"coinflip._randtests.common.collections.Bins": contract_bins,
             "coinflip._randtests.common.core.make_failures_msg": lambda M, a, k: Opaque("text"),
             "coinflip._randtests.common.core.check_recommendations": contract_failures}
    c.update(extra or {})
    return Machine(c)


def run_paths(M, f, hyps, limit=60):
    """the paths of f() under the hypotheses"""
    for h in hyps:
        M.assume(h)
    mark = len(M.pc)
    ps = M.paths(f, limit)
    del M.pc[mark:]
    return ps


class Got:
    """one path of a call, with what it needs to state obligations about its result"""

    def __init__(self, M, hyps, path, rep, fname, sampler):
        self.M, self.rep, self.fname, self.sampler = M, rep, fname, sampler
        self.path = path
        self.pc = list(hyps) + list(path.conds)
        self.value = path.value
        self.rw = []  # (term of the code, proved equal term of the specification)

    def attr(self, dotted, base=None):
        v = self.value if base is None else base
        M = self.M
        saved = M.pc
        M.pc = list(self.pc)
        try:
            for part in dotted.split("."):
                if isinstance(v, DictObj):
                    raise Unsupported("attribute of dict")
                v = M.getattr_(v, part)
            self.pc = M.pc
        finally:
            M.pc = saved
        return v

    def do(self, f):
        """evaluates something in the path's context (single path)"""
        M = self.M
        saved = M.pc
        M.pc = list(self.pc)
        try:
            ps = M.paths(f)
            if len(ps) != 1 or ps[0].kind != "normal":
                raise Unsupported(f"reading the result: {[p.kind for p in ps]}")
            return ps[0].value
        finally:
            M.pc = saved

    def resolve(self, t):
        """the term with the cases the path excludes removed"""
        t = simp(lift(t))
        memo = {}

        def go(x):
            if x.get_id() in memo:
                return memo[x.get_id()][1]
            r = x
            if z3.is_app(x) and x.num_args():
                if x.decl().kind() == z3.Z3_OP_ITE:
                    c = go(x.arg(0))
                    if prover.quick(self.pc, c):
                        r = go(x.arg(1))
                    elif prover.quick(self.pc, z3.Not(c)):
                        r = go(x.arg(2))
                    else:
                        r = z3.If(c, go(x.arg(1)), go(x.arg(2)))
                elif not any(z3.is_quantifier(c) for c in x.children()):
                    r = x.decl()(*[go(c) for c in x.children()])
            memo[x.get_id()] = (x, r)
            return r
        return simp(go(t))

    def name(self, what):
        return f"{self.fname}: {what}"

    def eq(self, what, got, want, budget=60):
        n = self.name(what)
        try:
            g = self.goal(got, want)
        except Unsupported as e:
            self.rep.unsupported(n, e)
            return False
        if g is False:
            self.rep.fail(n, f"{got!r} instead of {want!r}")
            return False
        if self.rw and (prover.quick(self.pc, simp(lift(g))) or z3.is_true(prover.poly.norm(simp(lift(g))))):
            g = lift(g)
        else:
            g = self.rewrite(g)
        ok = self.rep.obligation(n, self.pc, g, self.sampler, budget)
        if ok:
            self.known_equal(got, want)
        return ok

    def known_equal(self, got, want):
        if isinstance(want, (list, tuple)):
            for a, b in zip(self.do(lambda: self.M.concrete(got)), want):
                self.known_equal(a, b)
            return
        if not is_num(got) or not is_num(want):
            return
        a, b = lift(got), lift(want)
        if a.sort() != b.sort():
            a, b = (as_int(a), as_int(b)) if z3.is_bool(a) or z3.is_bool(b) else (real(a), real(b))
        pairs = [(a, b), (simp(a), b)]
        sa = simp(a)
        if z3.is_add(sa) and sa.num_args() == 2 and num(sa.arg(0)) is not None:
            pairs.append((sa.arg(1), b - sa.arg(0)))
        for x, y in pairs:
            if x.sort() == y.sort() and num(x) is None and prover._size(x) > 3 and not x.eq(y):
                self.rw.append((x, y))

    def rewrite(self, g):
        if not self.rw:
            return g
        rw = sorted(self.rw, key=lambda p: -prover._size(p[0]))
        return z3.substitute(simp(z3.substitute(lift(g), *rw)), *rw)

    def goal(self, got, want):
        if isinstance(got, OptV):
            return z3.And(z3.Not(got.none), self.goal(got.val, want)) if want is not None else got.none
        if want is None or isinstance(want, str):
            return z3.BoolVal(True) if got == want and type(got) == type(want) else False
        if isinstance(want, FaceV):
            return lift(got.b) == lift(want.b) if isinstance(got, FaceV) else False
        if isinstance(want, (list, tuple)):
            items = self.do(lambda: self.M.concrete(got))
            if len(items) != len(want):
                return False
            gs = [self.goal(a, b) for a, b in zip(items, want)]
            return False if any(g is False for g in gs) else z3.And(*[lift(g) for g in gs]) if gs else z3.BoolVal(True)
        if isinstance(want, SymSeq):
            s = self.seq(got)
            k = fresh("k")
            return z3.And(lift(s.n) == lift(want.n), z3.Implies(z3.And(0 <= k, k < lift(want.n)), self.goal(s.get(k), want.get(k))))
        if not is_num(got):
            return False if got is None or isinstance(got, (str, FaceV, Obj, ListObj)) else self._bad(got)
        a, b = lift(got), lift(want)
        if z3.is_bool(a) != z3.is_bool(b):
            a, b = as_int(a), as_int(b)
        if not z3.is_bool(a) and a.sort() != b.sort():
            a, b = real(a), real(b)
        return a == b

    def _bad(self, got):
        raise Unsupported(f"{type(got).__name__} compared with a number")

    def seq(self, v):
        M = self.M
        v = self.do(lambda: M.models.collect_seq(M, v)) if not isinstance(v, (SymSeq, tuple)) else v
        s = seq_of(v)
        if s.guard is not None:
            raise Unsupported("a sequence with conditional items")
        return s

    def given(self, what, goal):
        """proved here, a hypothesis of what follows on this path"""
        self.pc = self.pc + self.rep.lemma(self.name(what), self.pc, goal, self.sampler)

    def holds(self, what, goal, budget=60):
        return self.rep.obligation(self.name(what), self.pc, goal, self.sampler, budget)


def call_test(rep, fname, inp, kw, body, M=None, hyps=(), sampler=None, allow=(), safety=True, module="coinflip.randtests", label="", needs_result=True):
    """runs a public function symbolically; body(got) states the obligations of each normal path"""
    M = M or machine()
    hyps = list(inp.hyps) + list(hyps)
    label = label or fname
    try:
        f = M.get_func(f"{module}.{fname}")
        del M.obs[:]
        ps = run_paths(M, lambda: M.call(f, [inp.v], kw), hyps)
    except Unsupported as e:
        rep.unsupported(f"{label}: symbolic execution", e)
        rep.functions |= M.functions_seen
        if rep.verbose:
            traceback.print_exc()
        return M, []
    rep.functions |= M.functions_seen
    rep.loops += M.loops_summarised
    for k, v in M.loop_rules.items():
        rep.rules[k] = rep.rules.get(k, 0) + v
    if rep.verbose:
        print(label, "paths:", [(p.kind if isinstance(p.kind, str) else repr(p.kind), len(p.conds)) for p in ps], "obligations:", len(M.obs))
    if safety:
        for o in M.obs:
            rep.obligation(f"{label}: {o.kind} ({o.where})", o.pc, o.goal, sampler)
    normal = 0
    for p in ps:
        if p.kind == "normal":
            normal += 1
            try:
                body(Got(M, hyps, p, rep, label, sampler))
            except Unsupported as e:
                rep.unsupported(f"{label}: postcondition", e)
                if rep.verbose:
                    traceback.print_exc()
            except PyRaise as e:
                rep.fail(f"{label}: postcondition", f"reading the result raises {e}")
        else:
            exc = p.kind.exc if isinstance(p.kind, PyRaise) else p.kind
            nm = exc.cls.name if isinstance(exc, Obj) else getattr(exc, "name", str(exc))
            ok = None
            for a, cond in allow:
                if nm.split(".")[-1] == a:
                    ok = cond
            g = lift(False) if ok is None else ok
            rep.obligation(f"{label}: raises {nm} only as documented", hyps + p.conds, g, sampler)
    if not normal and needs_result:
        rep.fail(f"{label}: returns", "no path returns a result")
    return M, ps
