"""Symbolic interpreter of the repository's own source.

The abstract syntax trees are read from the files of the tree under test on every run and executed
on symbolic values.  Branches are explored by re-execution with recorded decisions; a loop over a
symbolic range is summarised by closed forms of the recurrences its body induces (loop.py).
"""
import ast
import builtins
import itertools
import os
from fractions import Fraction

import z3

from pydv import prover
from pydv.terms import (B, I, R, All, Ex, Max, Min, Rec, Sum, apply_lam, as_int, ceil, fn, floor, fresh, fresh_fun, igamc, is_z, ite,
                        lift, num, occurs, pow2, real, simp, sqrt, zabs, zmax, zmin)
from pydv.values import *
from pydv.values import UNDEF

REPO = os.environ.get("VERIF_REPO", "/repo")


class Signal(Exception):
    pass


class BreakSig(Signal):
    def __init__(self, token):
        self.token = token


class ContinueSig(Signal):
    def __init__(self, token):
        self.token = token


class ReturnSig(Signal):
    def __init__(self, token, value):
        self.token, self.value = token, value


class StopSig(Signal):
    """stops an iteration from inside (next(), any())"""

    def __init__(self, token, value=None):
        self.token, self.value = token, value


class NeedTyped(Exception):
    def __init__(self, owner, key):
        self.owner, self.key = owner, key


class Restart(Exception):
    """run everything again: a loop needs one more ghost variable"""


class Infeasible(Exception):
    pass


class HavocMark:
    """value of a slot that a loop changes, not yet given a symbol"""

    def __init__(self, owner, key):
        self.owner, self.key = owner, key


class Deferred:
    """value computed when it is read"""

    def __init__(self, thunk):
        self.thunk = thunk


class Trace:
    def __init__(self, prefix):
        self.prefix, self.pos, self.pending = list(prefix), 0, []


class Ob:
    def __init__(self, kind, pc, goal, where):
        self.kind, self.pc, self.goal, self.where = kind, list(pc), goal, where


class Path:
    def __init__(self, conds, kind, value, changes, frozen):
        self.conds, self.kind, self.value, self.changes, self.frozen = conds, kind, value, changes, frozen

    def cond(self):
        return simp(z3.And(*self.conds)) if self.conds else z3.BoolVal(True)


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.frame = Frame(module=self, name=name)
        self.all = None


def has_yield(node):
    todo = list(node.body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo += list(ast.iter_child_nodes(x))
    return False


class Machine:
    def __init__(self, contracts=None, repo=None):
        self.repo = repo or REPO
        self.journal = []
        self.pc = []
        self.trace = Trace([])
        self.obs = []
        self.modules = {}
        self.contracts = contracts or {}
        self.events = Cell(log=())
        self.where = []
        self.hints = {}
        self.depth = 0
        self.call_birth = None
        self.functions_seen = set()
        self.frame_writes = []
        self.loops_summarised = 0
        self.loop_rules = {}
        self.unrolled_limit = 40
        from pydv import models
        self.models = models

    # -- state -------------------------------------------------------------------------------
    def set(self, cell, name, val):
        self.journal.append((cell, name, cell.slots.get(name, UNDEF)))
        if self.call_birth is not None and cell.birth < self.call_birth and cell is not self.events:
            self.frame_writes.append((cell, name))
        if val is UNDEF:
            cell.slots.pop(name, None)
        else:
            cell.slots[name] = val

    def get(self, cell, name):
        v = cell.slots.get(name, UNDEF)
        if isinstance(v, HavocMark):
            raise NeedTyped(v.owner, v.key)
        if isinstance(v, Deferred):
            v = v.thunk()
            self.set(cell, name, v)
        if isinstance(v, Poison):
            raise Unsupported(f"value of {name}: {v.why}")
        if isinstance(v, ByIndex):
            return self.models.by_index_seq(self, v)
        return v

    def undo(self, mark):
        while len(self.journal) > mark:
            cell, name, old = self.journal.pop()
            if old is UNDEF:
                cell.slots.pop(name, None)
            else:
                cell.slots[name] = old

    def changes_since(self, mark):
        out = {}
        for cell, name, old in self.journal[mark:]:
            k = (id(cell), name)
            if k not in out:
                out[k] = (cell, name, old)
        res = {}
        for k, (cell, name, old) in out.items():
            now = cell.slots.get(name, UNDEF)
            if now is not old:
                res[k] = (cell, name, now)
        return res

    # -- solver ------------------------------------------------------------------------------
    def entails(self, c, timeout=400):
        return prover.quick(self.pc, c, timeout)

    def recorded(self, f):
        """a solver-dependent answer, the same on re-execution"""
        t = self.trace
        if t.pos < len(t.prefix):
            r = t.prefix[t.pos]
            if not (isinstance(r, tuple) and r[0] == "rec"):
                raise Unsupported("replay diverged")
            r = r[1]
        else:
            r = f()
            t.prefix.append(("rec", r))
        t.pos += 1
        return r

    def known(self, c):
        c = simp(lift(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if any(h.eq(c) for h in self.pc):
            return True
        return self.recorded(lambda: self.entails(c))

    def decide(self, c):
        if isinstance(c, bool):
            return c
        c = simp(lift(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if any(h.eq(c) for h in self.pc):
            return True
        nc = simp(z3.Not(c))
        if any(h.eq(nc) for h in self.pc):
            return False
        t = self.trace
        if t.pos < len(t.prefix):
            d = t.prefix[t.pos]
            if not (d in ("T", "F") or isinstance(d, bool)):
                raise Unsupported("replay diverged")
        else:
            if self.entails(c):
                d = "T"
            elif self.entails(nc):
                d = "F"
            else:
                d = True
                t.pending.append(t.prefix[:t.pos] + [False])
            t.prefix.append(d)
        t.pos += 1
        if d == "T":
            return True
        if d == "F":
            return False
        self.pc.append(c if d else nc)
        return d

    def in_prefix(self):
        return self.trace.pos < len(self.trace.prefix)

    def oblige(self, kind, goal):
        goal = simp(lift(goal))
        if z3.is_true(goal) or self.in_prefix():
            return
        if any(h.eq(goal) for h in self.pc):
            return
        self.obs.append(Ob(kind, self.pc, goal, self.loc()))

    def assume(self, c):
        c = simp(lift(c))
        if not z3.is_true(c):
            self.pc.append(c)

    def loc(self):
        return self.where[-1] if self.where else "?"

    # -- paths -------------------------------------------------------------------------------
    def paths(self, f, limit=200):
        """explores f from here; the state is as before afterwards"""
        outs, pending = [], [[]]
        saved = self.trace
        birth = next(Cell.count)
        while pending:
            if len(outs) >= limit:
                self.trace = saved
                raise Unsupported("too many paths")
            tr = Trace(pending.pop())
            self.trace = tr
            mark, pcm = len(self.journal), len(self.pc)
            depth, wh = self.depth, len(self.where)
            try:
                try:
                    kind, val = "normal", f()
                except (Signal, PyRaise) as s:
                    kind, val = s, None
                except Infeasible:
                    kind = None
                if kind is not None:
                    ch = self.changes_since(mark)
                    frozen = {k: (c, n, self.freeze(v, birth, {})) for k, (c, n, v) in ch.items() if c.birth <= birth}
                    fval = self.freeze(val, birth, {})
                    outs.append(Path(self.pc[pcm:], kind, fval, ch, frozen))
            finally:
                self.undo(mark)
                del self.pc[pcm:]
                del self.where[wh:]
                self.depth = depth
                self.trace = saved
            pending += tr.pending
        return outs

    def freeze(self, v, birth, memo):
        """copy of a value with its own copies of the cells that were made since"""
        if isinstance(v, Cell):
            if v.birth <= birth or isinstance(v, Frame):
                return v
            if id(v) in memo:
                return memo[id(v)]
            if isinstance(v, Obj):
                o = Obj(v.cls)
            elif isinstance(v, ListObj):
                o = ListObj()
            elif isinstance(v, DictObj):
                o = DictObj(None, v.factory, v.cls)
            elif isinstance(v, IterObj):
                o = IterObj(v.src)
            else:
                o = type(v).__new__(type(v))
                o.__dict__.update(v.__dict__)
            memo[id(v)] = o
            o.birth = v.birth
            o.slots = {k: self.freeze(x, birth, memo) for k, x in v.slots.items()}
            return o
        if isinstance(v, tuple):
            r = tuple(self.freeze(x, birth, memo) for x in v)
            return v if all(x is y for x, y in zip(r, v)) else r
        if isinstance(v, FinMap):
            return FinMap({k: self.freeze(x, birth, memo) for k, x in v.m.items()})
        if isinstance(v, ByIndex):
            return ByIndex(self.freeze(v.d, birth, memo), v.n)
        if isinstance(v, HSeq):
            return HSeq(v.hid, self.freeze(v.log, birth, memo))
        if isinstance(v, HMap):
            return HMap(v.hid, tuple((ix, (m, self.freeze(x, birth, memo))) for ix, (m, x) in v.overlay))
        if isinstance(v, Sparse):
            return Sparse([(g, self.freeze(x, birth, memo)) for g, x in v.items])
        return v

    def merged(self, f):
        """runs f, its branches joined afterwards"""
        t = self.trace
        nob = len(self.obs)
        prefixing = self.in_prefix()
        if prefixing:
            how = t.prefix[t.pos]
            if how not in ("joined", "plain"):
                raise Unsupported("replay diverged")
        else:
            t.prefix.append("joined")
            how = "joined"
        at = t.pos
        t.pos += 1
        if how == "plain":
            return f()
        mark = len(self.journal)
        try:
            ps = self.paths(f)
        except Unsupported:
            raise
        if prefixing:
            del self.obs[nob:]
        if not ps:
            raise Infeasible()
        try:
            if any(p.kind != "normal" for p in ps):
                if len(ps) == 1:
                    p = ps[0]
                    self.apply(p.changes)
                    self.pc += p.conds
                    raise p.kind
                raise Unsupported("exits")
            if len(ps) == 1:
                p = ps[0]
                self.apply(p.changes)
                self.pc += p.conds
                return p.value
            keys = {}
            for p in ps:
                keys.update({k: (c, n) for k, (c, n, _) in p.frozen.items()})
            vals = []
            for k, (c, n) in keys.items():
                old = c.slots.get(n, UNDEF)
                v = None
                for j, p in enumerate(reversed(ps)):
                    x = p.frozen[k][2] if k in p.frozen else old
                    v = x if j == 0 else merge(p.cond(), x, v)
                vals.append((c, n, v))
            val = None
            for j, p in enumerate(reversed(ps)):
                val = p.value if j == 0 else merge(p.cond(), p.value, val)
            for c, n, v in vals:
                self.set(c, n, v)
            self.assume(z3.Or(*[p.cond() for p in ps]))
            return val
        except Unsupported:
            self.undo(mark)
            if not prefixing:
                del self.obs[nob:]
            if prefixing:
                raise Unsupported("replay diverged")
            t.prefix[at] = "plain"
            return f()

    def apply(self, changes):
        for c, n, v in changes.values():
            self.set(c, n, v)

    # -- modules -----------------------------------------------------------------------------
    def module_path(self, name):
        base = os.path.join(self.repo, "src", *name.split("."))
        if os.path.isdir(base):
            return os.path.join(base, "__init__.py")
        if os.path.exists(base + ".py"):
            return base + ".py"
        return None

    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        path = self.module_path(name)
        if path is None:
            raise Unsupported(f"module {name}")
        m = Module(name, path)
        self.modules[name] = m
        m.frame.slots["__name__"] = name
        tree = ast.parse(open(path).read(), path) if os.path.exists(path) else ast.Module([], [])  # namespace package
        saved = (self.call_birth, self.trace, self.pc)
        self.call_birth, self.trace, self.pc = None, Trace([]), []
        n = len(self.journal)
        try:
            for st in tree.body:
                try:
                    self.exec_stmt(st, m.frame)
                except Unsupported as e:
                    for t in _targets(st):
                        m.frame.slots[t] = Poison(f"{name}: {e}")
        finally:
            self.call_birth, self.trace, self.pc = saved
            # module state is no part of a call's effects
            del self.journal[n:]
        return m

    def import_name(self, modname, attr):
        if modname.split(".")[0] == "coinflip":
            if self.module_path(modname + "." + attr) and attr not in self.module(modname).frame.slots:
                return self.module(modname + "." + attr)
            v = self.module(modname).frame.slots.get(attr, UNDEF)
            if v is UNDEF:
                raise Unsupported(f"{modname} has no {attr}")
            return v
        return Ext(modname + "." + attr)

    def get_func(self, dotted):
        mod, name = dotted.rsplit(".", 1)
        v = self.module(mod).frame.slots.get(name, UNDEF)
        if v is UNDEF or isinstance(v, Poison):
            raise Unsupported(f"no {dotted}")
        return v

    # -- names -------------------------------------------------------------------------------
    def lookup(self, name, fr):
        f = fr
        while f is not None:
            if name in f.slots and (f is fr or not getattr(f, "is_class", False)):
                v = self.get(f, name)
                if v is not UNDEF:
                    return v
            f = f.parent
        if fr.module is not None and name in fr.module.frame.slots:
            return self.get(fr.module.frame, name)
        if hasattr(builtins, name):
            return Ext("builtins." + name)
        self.raise_("NameError", name)

    def raise_(self, cls, *args):
        raise PyRaise(Ext("builtins." + cls), args)

    # -- statements --------------------------------------------------------------------------
    def exec_block(self, body, fr):
        for st in body:
            self.exec_stmt(st, fr)

    def exec_stmt(self, st, fr):
        self.where.append(f"{fr.module.name if fr.module else '?'}:{getattr(st, 'lineno', 0)}")
        getattr(self, "st_" + type(st).__name__, self.st_unknown)(st, fr)
        self.where.pop()

    def st_unknown(self, st, fr):
        raise Unsupported(f"statement {type(st).__name__}")

    def st_Pass(self, st, fr):
        pass

    def st_Global(self, st, fr):
        for n in st.names:
            fr.nonlocals[n] = fr.module.frame

    def st_Nonlocal(self, st, fr):
        for n in st.names:
            f = fr.parent
            while f is not None and n not in f.slots:
                f = f.parent
            if f is None:
                raise Unsupported("nonlocal")
            fr.nonlocals[n] = f

    def st_Expr(self, st, fr):
        self.ev(st.value, fr)

    def st_Import(self, st, fr):
        for a in st.names:
            top = a.name.split(".")[0]
            if top == "coinflip":
                m = self.module(a.name)
                self.set(fr, a.asname or top, m if a.asname else self.module(top))
            else:
                self.set(fr, a.asname or top, Ext(a.name if a.asname else top))

    def st_ImportFrom(self, st, fr):
        mod = st.module
        if st.level:
            base = fr.module.name.split(".")
            if not fr.module.path.endswith("__init__.py"):
                base = base[:-1]
            base = base[:len(base) - st.level + 1]
            mod = ".".join(base + ([mod] if mod else []))
        for a in st.names:
            if a.name == "*":
                if mod.split(".")[0] != "coinflip":
                    raise Unsupported("import *")
                m = self.module(mod)
                allv = m.frame.slots.get("__all__", UNDEF)
                names = ([x for x in allv.slots["seq"]] if isinstance(allv, ListObj) else
                         [k for k in m.frame.slots if not k.startswith("_")])
                for n in names:
                    if n in m.frame.slots:
                        self.set(fr, n, m.frame.slots[n])
            else:
                self.set(fr, a.asname or a.name, self.import_name(mod, a.name))

    def st_FunctionDef(self, st, fr):
        f = FuncV(st, fr, fr.module, st.name, [self.ev(d, fr) for d in st.args.defaults],
                  [None if d is None else self.ev(d, fr) for d in st.args.kw_defaults], has_yield(st))
        for d in reversed(st.decorator_list):
            f = self.call(self.ev(d, fr), [f], {})
        self.set(fr, st.name, f)

    def st_ClassDef(self, st, fr):
        bases = [self.ev(b, fr) for b in st.bases]
        cls = ClassV(st.name, fr.module, bases)
        body = Frame(parent=fr, module=fr.module, name=st.name)
        body.is_class = True
        anns = []
        for s in st.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                anns.append((s.target.id, self.ev(s.value, fr) if s.value is not None else UNDEF))
            else:
                self.exec_stmt(s, body)
        for k, v in body.slots.items():
            cls.ns[k] = v
        for k, v in anns:
            if v is not UNDEF:
                cls.ns[k] = v
        cls.anns = anns
        if any(isinstance(b, Ext) and b.name == "typing.NamedTuple" for b in bases):
            cls.kind = "namedtuple"
            cls.fields = list(anns)
        elif any(isinstance(b, ClassV) and b.kind == "dataclass" for b in bases):
            b = next(b for b in bases if isinstance(b, ClassV) and b.kind == "dataclass")
            cls.kind, cls.fields = "dataclass", list(b.fields)
        v = cls
        for d in reversed(st.decorator_list):
            v = self.call(self.ev(d, fr), [v], {})
        self.set(fr, st.name, v)

    def st_Return(self, st, fr):
        f = fr
        while getattr(f, "comp", False):
            f = f.parent
        raise ReturnSig(f, self.ev(st.value, fr) if st.value is not None else None)

    def st_Assign(self, st, fr):
        v = self.ev(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr), fr)

    def st_AugAssign(self, st, fr):
        t = st.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, fr)
            self.assign(t, self.inplace(st.op, old, lambda: self.ev(st.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            self.setattr_(o, t.attr, self.inplace(st.op, self.getattr_(o, t.attr), lambda: self.ev(st.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev(t.slice, fr)
            self.setitem(o, k, self.inplace(st.op, self.getitem(o, k), lambda: self.ev(st.value, fr)))
        else:
            raise Unsupported("augmented assignment")

    def inplace(self, op, old, thunk):
        if isinstance(old, ListObj) and isinstance(op, ast.Add):
            self.models.list_extend(self, old, thunk())
            return old
        if isinstance(old, (DictObj,)):
            raise Unsupported("in-place operation on a dict")
        return self.binop(op, old, thunk())

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            f = fr.nonlocals.get(t.id, fr)
            self.set(f, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = self.concrete(v)
            if star:
                s = star[0]
                after = len(t.elts) - s - 1
                if len(items) < len(t.elts) - 1:
                    self.raise_("ValueError", "unpack")
                parts = list(items[:s]) + [ListObj(tuple(items[s:len(items) - after]))] + list(items[len(items) - after:])
                for e, x in zip(t.elts, parts):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
                return
            if len(items) != len(t.elts):
                self.raise_("ValueError", "unpack")
            for e, x in zip(t.elts, items):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev(t.slice, fr), v)
        else:
            raise Unsupported("assignment target")

    def st_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.set(fr, t.id, UNDEF)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, fr), self.ev(t.slice, fr))
            else:
                raise Unsupported("del")

    def st_If(self, st, fr):
        if self.decide(self.truth(self.ev(st.test, fr))):
            self.exec_block(st.body, fr)
        else:
            self.exec_block(st.orelse, fr)

    def st_Assert(self, st, fr):
        if not self.decide(self.truth(self.ev(st.test, fr))):
            self.raise_("AssertionError")

    def st_For(self, st, fr):
        it = self.ev(st.iter, fr)
        token = object()

        def body(x):
            tokens.append(token)
            try:
                self.assign(st.target, x, fr)
                self.exec_loop_body(st.body, fr, token)
            finally:
                tokens.pop()
        tokens = fr.__dict__.setdefault("tokens", [])
        try:
            self.iterate(it, body)
        except BreakSig as b:
            if b.token is not token:
                raise
            return
        self.exec_block(st.orelse, fr)

    def exec_loop_body(self, body, fr, token):
        try:
            self.exec_block(body, fr)
        except ContinueSig as c:
            if c.token is not token:
                raise

    def st_Break(self, st, fr):
        raise BreakSig(fr.tokens[-1])

    def st_Continue(self, st, fr):
        raise ContinueSig(fr.tokens[-1])

    def st_While(self, st, fr):
        token = object()
        tokens = fr.__dict__.setdefault("tokens", [])

        def cond():
            return self.truth(self.ev(st.test, fr))

        def body():
            tokens.append(token)
            try:
                self.exec_loop_body(st.body, fr, token)
            finally:
                tokens.pop()
        try:
            from pydv.loop import whileloop
            whileloop(self, cond, body)
        except BreakSig as b:
            if b.token is not token:
                raise
            return
        self.exec_block(st.orelse, fr)

    def st_Raise(self, st, fr):
        if st.exc is None:
            cur = getattr(fr, "handling", None)
            if cur is None:
                raise Unsupported("bare raise")
            raise cur
        e = self.ev(st.exc, fr)
        if st.cause is not None:
            self.ev(st.cause, fr)
        if isinstance(e, PyRaise):
            raise e
        if isinstance(e, (ClassV, Ext)):
            e = self.call(e, [], {})
            if isinstance(e, PyRaise):
                raise e
        raise PyRaise(e)

    def st_Try(self, st, fr):
        try:
            try:
                self.exec_block(st.body, fr)
            except PyRaise as e:
                for h in st.handlers:
                    if h.type is None or self.exc_matches(e, self.ev(h.type, fr)):
                        if h.name:
                            self.set(fr, h.name, e)
                        old = getattr(fr, "handling", None)
                        fr.handling = e
                        try:
                            self.exec_block(h.body, fr)
                        finally:
                            fr.handling = old
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, fr)
        finally:
            if st.finalbody:
                self.exec_block(st.finalbody, fr)

    def exc_class(self, e):
        return e.exc.cls if isinstance(e.exc, Obj) else e.exc

    def exc_matches(self, e, cls):
        if isinstance(cls, tuple):
            return any(self.exc_matches(e, c) for c in cls)
        return self.subclass(self.exc_class(e), cls)

    def subclass(self, c, d):
        if c is d:
            return True
        if isinstance(c, ClassV):
            return any(self.subclass(b, d) for b in c.bases)
        if isinstance(c, Ext) and isinstance(d, Ext):
            if c.name == d.name:
                return True
            a, b = _builtin(c), _builtin(d)
            if a is not None and b is not None:
                return issubclass(a, b)
        return False

    def st_With(self, st, fr):
        raise Unsupported("with")

    # -- expressions -------------------------------------------------------------------------
    def ev(self, e, fr):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, fr)

    def ev_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float):
            return Fraction(repr(v))
        if v is Ellipsis:
            return Opaque("...")
        return v

    def ev_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def ev_Attribute(self, e, fr):
        return self.getattr_(self.ev(e.value, fr), e.attr)

    def ev_Tuple(self, e, fr):
        return tuple(self.ev_items(e.elts, fr))

    def ev_items(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += list(self.concrete(self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return out

    def ev_List(self, e, fr):
        return ListObj(tuple(self.ev_items(e.elts, fr)))

    def ev_Set(self, e, fr):
        raise Unsupported("set")

    def ev_Dict(self, e, fr):
        d = DictObj()
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported("dict unpacking")
            kk = self.ev(k, fr)
            self.setitem(d, kk, self.ev(v, fr))
        return d

    def ev_JoinedStr(self, e, fr):
        out = ""
        for x in e.values:
            v = self.ev(x.value if isinstance(x, ast.FormattedValue) else x, fr)
            if isinstance(x, ast.FormattedValue) and (x.format_spec is not None or x.conversion != -1):
                v = Opaque("text")
            if isinstance(v, Fraction):
                v = Opaque("text")
            if out is not None and isinstance(v, (str, int)):
                out += str(v)
            else:
                out = None
        return out if out is not None else Opaque("text")

    def ev_Lambda(self, e, fr):
        return FuncV(e, fr, fr.module, "<lambda>", [self.ev(d, fr) for d in e.args.defaults], [], False)

    def ev_IfExp(self, e, fr):
        c = self.truth(self.ev(e.test, fr))
        if self.const(c) is None:
            return self.merged(lambda: self.ev(e.body, fr) if self.decide(c) else self.ev(e.orelse, fr))
        return self.ev(e.body, fr) if self.decide(c) else self.ev(e.orelse, fr)

    def const(self, c):
        if isinstance(c, bool):
            return c
        c = simp(c)
        return True if z3.is_true(c) else False if z3.is_false(c) else None

    def ev_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        acc = self.ev(e.values[0], fr)
        for x in e.values[1:]:
            t = self.truth(acc)
            k = self.const(t)
            if k is not None:
                if k != isand:
                    return acc
                acc = self.ev(x, fr)
                continue
            mark = len(self.pc)
            jm = len(self.journal)
            self.pc.append(simp(t) if isand else simp(z3.Not(t)))
            nxt = self.ev(x, fr)
            del self.pc[mark:mark + 1]
            if self.changes_since(jm):
                raise Unsupported("side effect in a condition")
            a, b = _boolish(acc), _boolish(nxt)
            if a is not None and b is not None:
                acc = simp(z3.And(a, b) if isand else z3.Or(a, b))
            else:
                b = self.truth(nxt)
                acc = TruthV(simp(z3.And(t, lift(b)) if isand else z3.Or(t, lift(b))))
        return acc

    def ev_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else simp(z3.Not(t))
        return self.models.unary(self, e.op, v)

    def ev_BinOp(self, e, fr):
        return self.binop(e.op, self.ev(e.left, fr), self.ev(e.right, fr))

    def binop(self, op, a, b):
        return self.models.binop(self, op, a, b)

    def ev_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        acc = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            v = self.models.compare(self, op, left, right)
            if acc is None:
                acc = v
            else:
                a, b = _boolish(acc), _boolish(v)
                if a is None or b is None:
                    raise Unsupported("chained comparison")
                acc = simp(z3.And(a, b))
                k = self.const(acc)
                acc = acc if k is None else k
            if acc is False:
                return False
            left = right
        return acc

    def ev_Subscript(self, e, fr):
        return self.getitem(self.ev(e.value, fr), self.ev(e.slice, fr))

    def ev_Slice(self, e, fr):
        g = lambda x: None if x is None else self.ev(x, fr)
        return SliceV(g(e.lower), g(e.upper), g(e.step))

    def ev_Call(self, e, fr):
        f = self.ev(e.func, fr)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += list(self.concrete(self.ev(a.value, fr)))
            else:
                args.append(self.ev(a, fr))
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                if not isinstance(v, DictObj) or not isinstance(v.slots["d"], FinMap):
                    raise Unsupported("**")
                kw.update(v.slots["d"].m)
            else:
                kw[k.arg] = v
        return self.call(f, args, kw)

    def ev_ListComp(self, e, fr):
        out = ListObj(())
        self.comp(e.generators, fr, lambda f: self.models.list_append(self, out, self.ev(e.elt, f)))
        return out

    def ev_SetComp(self, e, fr):
        raise Unsupported("set comprehension")

    def ev_DictComp(self, e, fr):
        d = DictObj()

        def one(f):
            k = self.ev(e.key, f)
            self.setitem(d, k, self.ev(e.value, f))
        self.comp(e.generators, fr, one)
        return d

    def ev_GeneratorExp(self, e, fr):
        first = self.ev(e.generators[0].iter, fr)
        used = []

        def run(cb):
            if used:
                raise Unsupported("a generator used twice")
            self.comp(e.generators, fr, lambda f: cb(self.ev(e.elt, f)), first)
        return GenV(run)

    def comp(self, gens, fr, one, first=None):
        f = Frame(parent=fr, module=fr.module, name="<comp>")
        f.comp = True

        def level(j):
            if j == len(gens):
                one(f)
                return
            g = gens[j]
            it = first if j == 0 and first is not None else self.ev(g.iter, f)

            def body(x):
                self.assign(g.target, x, f)
                for c in g.ifs:
                    if not self.decide(self.truth(self.ev(c, f))):
                        return
                level(j + 1)
            self.iterate(it, body)
        level(0)

    def ev_Yield(self, e, fr):
        f = fr
        while f is not None and f.yield_hook is None:
            f = f.parent if getattr(f, "comp", False) else None
        if f is None:
            raise Unsupported("yield")
        f.yield_hook(self.ev(e.value, fr) if e.value is not None else None)
        return None

    def ev_YieldFrom(self, e, fr):
        if fr.yield_hook is None:
            raise Unsupported("yield from")
        self.iterate(self.ev(e.value, fr), fr.yield_hook)
        return None

    def ev_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        f = fr
        while getattr(f, "comp", False):
            f = f.parent
        self.assign(e.target, v, f)
        return v

    def ev_Starred(self, e, fr):
        raise Unsupported("*")

    # -- truth, iteration --------------------------------------------------------------------
    def truth(self, v):
        if isinstance(v, TruthV):
            return v.t
        if v is None or isinstance(v, (bool, int, Fraction, str)):
            return bool(v)
        if is_z(v):
            return v if z3.is_bool(v) else simp(v != 0)
        if isinstance(v, OptV):
            t = self.truth(v.val)
            return simp(z3.And(z3.Not(v.none), lift(t)))
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, (ListObj, TupV, DictObj, RangeV)):
            if isinstance(v, ListObj) and isinstance(v.slots["seq"], Sparse):
                items = self.get(v, "seq").items
                return simp(z3.Or(*[lift(g) for g, _ in items])) if items else False
            n = self.models.length(self, v)
            return bool(n) if isinstance(n, int) else simp(n > 0)
        if isinstance(v, (FuncV, ClassV, Ext, NativeV, BoundV)):
            return True
        if isinstance(v, Obj):
            return len(v.slots) > 0 if v.cls.kind == "namedtuple" else True
        if isinstance(v, CtxV):
            return v.truth
        if isinstance(v, FaceV):
            raise Unsupported("truth of a sequence value")
        raise Unsupported(f"truth of {type(v).__name__}")

    def concrete(self, v):
        """items of a sequence of known length"""
        if isinstance(v, tuple):
            return v
        if isinstance(v, Obj) and v.cls.kind == "namedtuple":
            return tuple(v.slots[n] for n, _ in v.cls.fields)
        if isinstance(v, OptV):
            if self.decide(v.none):
                self.raise_("TypeError", "None")
            return self.concrete(v.val)
        if isinstance(v, CtxV):
            return (Opaque("progress"), Opaque("task"))
        if isinstance(v, ListObj) and isinstance(self.get(v, "seq"), tuple):
            return self.get(v, "seq")
        if isinstance(v, (ListObj, SeriesV, TupV, ArrayV)):
            s = seq_of(self.get(v, "seq") if isinstance(v, ListObj) else v)
            n = self.const_int(s.n)
            if n is not None and s.guard is None:
                return tuple(s.get(k) for k in range(n))
            raise Unsupported("sequence of unknown length unpacked")
        out = []
        self.iterate(v, lambda x: out.append(x), collect=True)
        return tuple(out)

    def const_int(self, n):
        n = num(simp(lift(n)))
        return n

    def iterate(self, v, cb, collect=False):
        from pydv.loop import symloop
        if isinstance(v, GenV):
            if getattr(v, "used", False):
                raise Unsupported("a generator used twice")
            v.used = True
            return v.run(cb)
        if isinstance(v, SparseIter):
            v = v.seq
        if isinstance(v, ListObj):
            v = self.get(v, "seq")
        if isinstance(v, Sparse):
            if collect:
                for x in self.models.settle(self, v):
                    cb(x)
                return
            for g, x in v.items:
                def one(g=g, x=x):
                    if self.decide(g):
                        cb(x)
                self.merged(one)
            return
        if isinstance(v, str):
            v = tuple(v)
        if isinstance(v, Obj) and v.cls.kind == "namedtuple":
            v = self.concrete(v)
        if isinstance(v, IterObj):
            s = seq_of(v.src) if not isinstance(v.src, SymSeq) else v.src
            pos = self.get(v, "pos")
            n = simp(lift(s.n) - lift(pos))
            if s.guard is not None:
                raise Unsupported("iterator over conditional items")
            self.set(v, "pos", s.n)
            c = self.const_int(n)
            if c is not None and (collect or c <= self.unrolled_limit):
                for k in range(c):
                    self.step(cb, s.get(simp(lift(pos) + k)), collect)
                return
            if not self.known(n >= 0):
                n = simp(z3.If(n > 0, n, 0))
            return symloop(self, n, lambda i: s.get(simp(i + lift(pos))), cb)
        r = self.models.iter_value(self, v)
        if isinstance(r, tuple):
            for x in r:
                self.step(cb, x, collect)
            return
        if isinstance(r, GenV):
            return r.run(cb)
        if isinstance(r, Sparse):
            return self.iterate(r, cb, collect)
        if isinstance(r, SymSeq):
            n = self.const_int(r.n)
            if n is not None and r.guard is None and n <= self.unrolled_limit:
                for k in range(n):
                    self.step(cb, r.get(k), collect)
                return
            if collect:
                raise Unsupported("sequence of unknown length unpacked")
            if r.guard is None:
                return symloop(self, r.n, r.get, cb)

            def body(x):
                if self.decide(x[0]):
                    cb(x[1])
            return symloop(self, r.n, lambda i: (r.guard(lift(i)), r.get(i)), body, guarded=True)
        raise Unsupported(f"iteration over {type(v).__name__}")

    def step(self, cb, x, collect):
        if collect:
            cb(x)
        else:
            self.merged(lambda: cb(x))

    # -- attributes --------------------------------------------------------------------------
    def getattr_(self, v, name):
        if isinstance(v, Module):
            x = v.frame.slots.get(name, UNDEF)
            if x is UNDEF:
                return self.module(v.name + "." + name)
            if isinstance(x, Poison):
                raise Unsupported(x.why)
            return x
        if isinstance(v, OptV):
            if self.decide(v.none):
                self.raise_("AttributeError", name)
            return self.getattr_(v.val, name)
        if isinstance(v, Obj):
            if name in v.slots:
                return self.get(v, name)
            if name == "__class__":
                return v.cls
            c = v.cls.lookup(name)
            if c is not None:
                return self.bind(c, v)
            m = self.models.obj_attr(self, v, name)
            if m is not None:
                return m
            self.raise_("AttributeError", name)
        if isinstance(v, ClassV):
            c = v.lookup(name)
            if isinstance(c, ClassMethodV):
                return BoundV(c.fn, v)
            if isinstance(c, StaticV):
                return c.fn
            if c is not None:
                return c
            if name == "__name__":
                return v.name
            raise Unsupported(f"class attribute {name}")
        if isinstance(v, FuncV):
            if name == "__name__":
                return v.name
            if name in v.attrs:
                return v.attrs[name]
            raise Unsupported(f"function attribute {name}")
        if isinstance(v, Ext):
            return Ext(v.name + "." + name)
        return self.models.attr(self, v, name)

    def bind(self, c, v):
        if isinstance(c, PropV):
            return self.call(c.fget, [v], {})
        if isinstance(c, StaticV):
            return c.fn
        if isinstance(c, ClassMethodV):
            return BoundV(c.fn, v.cls)
        if isinstance(c, (FuncV, NativeV)):
            return BoundV(c, v)
        return c

    def setattr_(self, o, name, v):
        if isinstance(o, Obj):
            c = o.cls.lookup(name)
            if isinstance(c, PropV):
                if c.fset is None:
                    self.raise_("AttributeError", name)
                self.call(c.fset, [o, v], {})
                return
            self.set(o, name, v)
            return
        if isinstance(o, FuncV):
            o.attrs[name] = v
            return
        raise Unsupported(f"attribute of {type(o).__name__} set")

    def getitem(self, o, k):
        return self.models.getitem(self, o, k)

    def setitem(self, o, k, v):
        return self.models.setitem(self, o, k, v)

    def delitem(self, o, k):
        return self.models.delitem(self, o, k)

    # -- calls -------------------------------------------------------------------------------
    def call(self, f, args, kw):
        if isinstance(f, BoundV):
            return self.call(f.fn, [f.self_] + list(args), kw)
        if isinstance(f, NativeV):
            return f.fn(self, args, kw)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, Ext):
            return self.models.call_ext(self, f.name, args, kw)
        if isinstance(f, Obj):
            c = f.cls.lookup("__call__")
            if c is not None:
                return self.call(c, [f] + list(args), kw)
        if isinstance(f, Opaque):
            return Opaque(f.name + "()")
        raise Unsupported(f"call of {type(f).__name__}")

    def call_func(self, f, args, kw):
        q = f"{f.module.name}.{f.name}" if f.module else f.name
        c = self.contracts.get(q)
        if c is not None:
            return c(self, args, kw)
        self.functions_seen.add(q)
        fr = Frame(parent=f.frame, module=f.module, name=f.name, func=f)
        self.bind_args(f, fr, args, kw)
        if isinstance(f.node, ast.Lambda):
            return self.ev(f.node.body, fr)
        if f.is_gen:
            def run(cb):
                fr.yield_hook = cb
                try:
                    self.exec_block(f.node.body, fr)
                except ReturnSig as r:
                    if r.token is not fr:
                        raise
            return GenV(run)
        if self.depth > 60:
            raise Unsupported("recursion")
        self.depth += 1
        try:
            self.exec_block(f.node.body, fr)
        except ReturnSig as r:
            if r.token is not fr:
                raise
            return r.value
        finally:
            self.depth -= 1
        return None

    def bind_args(self, f, fr, args, kw):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        vals = {}
        for n, v in zip(pos, args):
            vals[n] = v
        rest = args[len(pos):]
        if rest and a.vararg is None:
            self.raise_("TypeError", "too many arguments")
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(rest)
        for n in list(kw):
            if n in pos + [x.arg for x in a.kwonlyargs]:
                if n in vals:
                    self.raise_("TypeError", "argument given twice")
                vals[n] = kw.pop(n)
        if a.kwarg is not None:
            vals[a.kwarg.arg] = DictObj(FinMap(kw))
        elif kw:
            self.raise_("TypeError", f"unexpected {list(kw)}")
        for n, d in zip(pos[len(pos) - len(f.defaults):], f.defaults):
            vals.setdefault(n, d)
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if d is not None:
                vals.setdefault(x.arg, d)
        for n in pos + [x.arg for x in a.kwonlyargs]:
            if n not in vals:
                self.raise_("TypeError", f"missing {n}")
        for n, v in vals.items():
            if isinstance(v, self.models.RawSeriesV):
                # checked to be binary: an ordinary series from here on
                ok = z3.And(z3.Not(lift(v.inp.nans)), lift(v.inp.nunique) == 2)
                if self.known(ok):
                    if getattr(v, "series", None) is None:
                        v.series = SeriesV(v.inp.seq, v.index)
                    vals[n] = v.series
        fr.slots.update(vals)

    def instantiate(self, cls, args, kw):
        q = f"{cls.module.name}.{cls.name}"
        c = self.contracts.get(q)
        if c is not None:
            return c(self, args, kw)
        if self.subclass(cls, Ext("builtins.BaseException")) and cls.kind is None and cls.lookup("__init__") is None:
            return Obj(cls, args=tuple(args))
        o = Obj(cls)
        init = cls.lookup("__init__")
        if init is not None:
            self.call(init, [o] + list(args), kw)
            return o
        if cls.kind in ("dataclass", "namedtuple"):
            names = [n for n, _ in cls.fields]
            if len(args) > len(names):
                self.raise_("TypeError", "too many arguments")
            vals = dict(zip(names, args))
            for k, v in kw.items():
                if k not in names or k in vals:
                    self.raise_("TypeError", k)
                vals[k] = v
            for n, d in cls.fields:
                if n not in vals:
                    if d is UNDEF:
                        self.raise_("TypeError", f"missing {n}")
                    vals[n] = d
                o.slots[n] = vals[n]
            pi = cls.lookup("__post_init__")
            if pi is not None:
                self.call(pi, [o], {})
            return o
        if args or kw:
            raise Unsupported(f"constructor of {cls.name}")
        return o


class TruthV:
    """a value of which only the truth is known"""

    def __init__(self, t):
        self.t = t


class CtxV:
    """the progress context: given or not"""

    def __init__(self, truth):
        self.truth = truth


class SparseIter:
    def __init__(self, seq):
        self.seq = seq


def _boolish(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if is_z(v) and z3.is_bool(v):
        return v
    return None


def _builtin(x):
    if x.name.startswith("builtins."):
        return getattr(builtins, x.name[9:], None)
    if x.name == "click.ClickException":
        return None
    return None


def _targets(st):
    out = []
    if isinstance(st, ast.Assign):
        for t in st.targets:
            if isinstance(t, ast.Name):
                out.append(t.id)
    elif isinstance(st, (ast.FunctionDef, ast.ClassDef)):
        out.append(st.name)
    elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
        out.append(st.target.id)
    elif isinstance(st, (ast.Import, ast.ImportFrom)):
        for a in st.names:
            out.append(a.asname or a.name.split(".")[0])
    return out
