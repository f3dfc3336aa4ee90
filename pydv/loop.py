"""Loops over symbolic ranges: the body is executed once at a generic iteration on a generic state;
the recurrences it induces on the state are given closed forms, which are the loop's invariant.

Rules (each is inductive by construction: base is the initial value, step is the body's effect):
  unchanged      x' = x                       x_k = x_0
  last value     x' = e(i), x not in e        x_k = x_0 if k = 0 else e(k - 1)
  sum            x' = x + e(i)                x_k = x_0 + Sum(0, k, e)
  maximum        x' = max(x, e(i))            x_k = Max(0, k, x_0, e)
  conjunction    x' = x and e(i)              x_k = x_0 and All(0, k, e)
  recurrence     otherwise                    x_k = Rec(k), the k-fold application of the step itself
Lists that are appended to, and dictionaries read and written at symbolic keys, are treated per
position and per generic key.
"""
import z3

from pydv import prover
from pydv.terms import (B, I, R, All, Ex, Max, Min, Rec, Sum, as_int, consts_in, fresh, fresh_fun, is_z, ite, lift, num, occurs, real, simp)
from pydv.values import *
from pydv.values import UNDEF
from pydv import interp as IP


class Hid:
    """identity of a list or dict content at the start of an iteration"""

    def __init__(self, shape=None, init=None, owner=None):
        self.ghosts = {}      # measure -> symbol
        self.entries = []     # dict accesses: [key, member symbol, value (symbols)]
        self.shape = shape
        self.init = init
        self.owner = owner
        self.default = None


class Chunk:
    def __init__(self, seq):
        self.seq = seq


class Leaf:
    def __init__(self, sym, init, nxt):
        self.sym, self.init, self.next = sym, init, nxt


def sort_like(v):
    if isinstance(v, bool) or (is_z(v) and z3.is_bool(v)):
        return B
    if isinstance(v, int) or (is_z(v) and v.sort() == I):
        return I
    return R


class NeedRound(Exception):
    pass


class SymLoop:
    def __init__(self, M, n, elem, cb):
        self.M, self.n, self.elem, self.cb = M, simp(lift(n)), elem, cb
        self.i = fresh("i")
        self.modified = {}
        self.typed = set()
        self.shapes = {}      # key -> sample of a next value
        self.hshapes = {}     # key -> sample dict value
        self.sorts = {}       # (key, path) -> sort found necessary
        self.place = M.loc()
        self.convert = None

    # -- generic state -----------------------------------------------------------------------
    def havoc(self, key, v, path=()):
        hint = self.shapes.get((key, path))
        if v is UNDEF or isinstance(v, (Poison, IP.Deferred)):
            if hint is None:
                raise Unsupported("a variable that is read before it is set in a loop")
            if isinstance(v, IP.Deferred):
                v = v.thunk()
                return self.havoc(key, v, path)
            return self.havoc(key, hint, path)
        if v is None or isinstance(v, OptV):
            inner = v.val if isinstance(v, OptV) else hint
            if inner is None or isinstance(inner, OptV):
                inner = inner.val if isinstance(inner, OptV) else None
            if inner is None:
                return None
            return OptV(fresh("none", B), self.havoc(key, inner, path + ("val",)))
        if isinstance(v, IP.TruthV):
            v = v.t
        if is_num(v):
            s = sort_like(v)
            s2 = self.sorts.get((key, path))
            return fresh("s", s2 if s2 is not None else s)
        if isinstance(v, FaceV):
            return FaceV(fresh("f", B))
        if isinstance(v, str) or isinstance(v, Opaque):
            return Opaque("text")
        if isinstance(v, tuple):
            if path and path[-1] == "seq" and not self.sorts.get((key, path, "fixed")):
                return HSeq(self.hid_of(key, path, v))
            return tuple(self.havoc(key, x, path + (j,)) for j, x in enumerate(v))
        if isinstance(v, (SymSeq, HSeq, AbsSeq, Sparse)):
            return HSeq(self.hid_of(key, path, v))
        if isinstance(v, Obj):
            o = Obj(v.cls)
            for k, x in v.slots.items():
                o.slots[k] = self.havoc(key, x, path + (k,))
            return o
        if isinstance(v, ListObj):
            return ListObj(self.havoc(key, v.slots["seq"], path + ("seq",)))
        if isinstance(v, DictObj):
            return DictObj(self.havoc(key, v.slots["d"], path + ("d",)), v.factory, v.cls)
        if isinstance(v, FinMap):
            if v.m and not self.sorts.get((key, path, "symkeys")):
                return FinMap({k: self.havoc(key, x, path + (("k", k),)) for k, x in v.m.items()})
            h = Hid(init=v, owner=self)
            h.key, h.path = key, path
            h.shape = self.hshapes.get((key, path))
            return HMap(h)
        if isinstance(v, (KMap, HMap)):
            h = Hid(init=v, owner=self)
            h.key, h.path = key, path
            h.shape = self.hshapes.get((key, path))
            return HMap(h)
        if isinstance(v, TupV) or isinstance(v, (SeriesV, ArrayV)):
            raise Unsupported(f"loop-carried {type(v).__name__}")
        return v

    def hid_of(self, key, path, v):
        h = Hid(init=v, owner=self)
        h.key, h.path = key, path
        return h

    def by_index(self, hid):
        """the items of this list are assigned to: restart with a content that allows it"""
        key, path = getattr(hid, "key", None), getattr(hid, "path", None)
        v = hid.init
        if key is None or key not in self.modified:
            raise Unsupported("assignment to an item of a list in a loop")
        if isinstance(v, HSeq):
            if v.log:
                raise Unsupported("assignment to an item of a list that the loop builds")
            v.hid.owner.by_index(v.hid)
        if isinstance(v, tuple) and len(v) <= 16:
            if self.sorts.get((key, path, "fixed")):
                raise Unsupported("list items")
            self.sorts[(key, path, "fixed")] = True
            raise NeedRound(self)
        cell, name, _ = self.modified[key]
        if path != ("seq",) or not isinstance(cell, ListObj) or not isinstance(v, (tuple, SymSeq)) or (isinstance(v, SymSeq) and v.guard is not None):
            raise Unsupported("assignment to an item of a list in a loop")
        self.convert = key
        raise NeedRound(self)

    # -- running the body --------------------------------------------------------------------
    def run(self):
        M, i, n = self.M, self.i, self.n
        nob0 = len(M.obs)
        prefixing = M.in_prefix()
        birth = next(Cell.count)
        owner = self
        for _ in range(25):
            del M.obs[nob0:]
            if self.convert is not None:
                cell, name, v = self.modified.pop(self.convert)
                self.typed.discard(self.convert)
                M.set(cell, name, M.models.by_index(v))
                self.convert = None
                birth = next(Cell.count)
            mark, pcm = len(M.journal), len(M.pc)
            M.pc += [z3.IntVal(0) <= i, i < n]
            hv = {}
            redo = False
            try:
                for key, (cell, name, init) in self.modified.items():
                    if key in self.typed:
                        path = (name,) if isinstance(cell, (ListObj, DictObj)) else ()
                        v = self.havoc(key, init, path)
                    else:
                        v = IP.HavocMark(owner, key)
                    hv[key] = v
                for key, (cell, name, init) in self.modified.items():
                    M.journal.append((cell, name, cell.slots.get(name, UNDEF)))
                    cell.slots[name] = hv[key]
                try:
                    saved = M.trace
                    ps = M.paths(lambda: self.cb(self.elem(i)))
                except IP.NeedTyped as e:
                    if e.owner is not owner:
                        raise
                    self.typed.add(e.key)
                    redo = True
                except NeedRound as e:
                    if e.args[0] is not owner:
                        raise
                    redo = True
            finally:
                M.undo(mark)
                del M.pc[pcm:]
            if redo:
                continue
            new = False
            for p in ps:
                for k, (c, nm, v) in p.changes.items():
                    if c.birth <= birth:
                        if k not in self.modified:
                            self.modified[k] = (c, nm, c.slots.get(nm, UNDEF))
                            new = True
                        if p.kind == "normal":
                            fv = p.frozen[k][2]
                            if (k, ()) not in self.shapes and fv is not None and fv is not UNDEF:
                                self.shapes[(k, ())] = fv
            if new:
                continue
            # keys that some path leaves alone need a symbol
            for k in self.modified:
                if k not in self.typed and any(k not in p.changes for p in ps if p.kind == "normal"):
                    if self.typeable(k):
                        self.typed.add(k)
                        new = True
            if new:
                continue
            try:
                self.ps, self.hv, self.birth = ps, hv, birth
                self.solve()
            except NeedRound:
                continue
            break
        else:
            raise Unsupported("loop does not stabilise")
        M.loops_summarised += 1
        # obligations of the body, at the closed forms
        for ob in M.obs[nob0:]:
            ob.pc = [self.at(h, i) for h in ob.pc]
            ob.goal = self.at(ob.goal, i)
        if prefixing:
            del M.obs[nob0:]
        self.finish()

    def typeable(self, k):
        c, nm, init = self.modified[k]
        v = init if init is not UNDEF and init is not None else self.shapes.get((k, ()))
        if isinstance(v, IP.Deferred):
            return False
        return is_num(v) or isinstance(v, (FaceV, tuple, Obj, ListObj, DictObj, OptV, FinMap, KMap, HMap, SymSeq, HSeq))

    # -- recurrences -------------------------------------------------------------------------
    def resolve(self, p, v, memo=None):
        """value at the end of path p, deeply"""
        memo = {} if memo is None else memo
        if isinstance(v, Cell) and not isinstance(v, Frame):
            if id(v) in memo:
                return memo[id(v)]
            o = Obj(v.cls) if isinstance(v, Obj) else ListObj() if isinstance(v, ListObj) else DictObj(None, v.factory, v.cls) if isinstance(v, DictObj) else None
            if o is None:
                return v
            memo[id(v)] = o
            o.origin = v
            o.slots = {k: self.resolve(p, p.frozen[(id(v), k)][2] if (id(v), k) in p.frozen else x, memo) for k, x in v.slots.items()}
            for (cid, k), (c, nm, x) in p.frozen.items():
                if c is v and nm not in o.slots:
                    o.slots[nm] = self.resolve(p, x, memo)
            return o
        if isinstance(v, tuple):
            return tuple(self.resolve(p, x, memo) for x in v)
        if isinstance(v, FinMap):
            return FinMap({k: self.resolve(p, x, memo) for k, x in v.m.items()})
        if isinstance(v, IP.ByIndex):
            return IP.ByIndex(self.resolve(p, v.d, memo), v.n)
        if isinstance(v, HSeq):
            return HSeq(v.hid, tuple(self.resolve(p, x, memo) for x in v.log))
        if isinstance(v, HMap):
            return HMap(v.hid, tuple((ix, (m, self.resolve(p, x, memo))) for ix, (m, x) in v.overlay))
        if isinstance(v, OptV):
            return OptV(v.none, self.resolve(p, v.val, memo))
        return v

    def next_values(self, key):
        out = []
        for p in self.normal:
            v = p.frozen[key][2] if key in p.frozen else self.hv[key]
            out.append((p.cond(), self.resolve(p, v)))
        return out

    def solve(self):
        self.normal = [p for p in self.ps if p.kind == "normal"]
        self.exits = [p for p in self.ps if p.kind != "normal"]
        self.leaves = []
        self.lists = {}      # id(hid) -> (hid, [(cond, content)])
        self.dicts = {}
        self.last = {}
        self.bad = {}
        for key, (cell, name, init) in self.modified.items():
            nx = self.next_values(key)
            if not nx:
                continue
            if key in self.typed:
                try:
                    self.collect(key, self.hv[key], init, nx, (name,) if isinstance(cell, (ListObj, DictObj)) else ())
                except Unsupported as e:
                    self.bad[key] = e
            else:
                self.last[key] = nx
        # dictionary cells
        self.kappas = {}
        for hid, nx in list(self.dicts.values()):
            self.collect_dict(hid, nx)
        # ghosts of lists
        for hid, nx in list(self.lists.values()):
            for meas, sym in list(hid.ghosts.items()):
                ini = measure(self.M, hid.init, meas)
                m = None
                for j, (c, content) in enumerate(reversed(nx)):
                    x = measure(self.M, content, meas)
                    m = x if j == 0 else merge(c, x, m)
                self.leaf(sym, ini, m)
        self.close()

    def leaf(self, sym, init, nxt, key=None, path=()):
        a, b = lift(init), lift(nxt)
        for t in (a, b):
            if t.sort() != sym.sort():
                if sym.sort() == I and t.sort() == R and key is not None:
                    self.sorts[(key, path)] = R
                    raise NeedRound(self)
                if sym.sort() == R and t.sort() == I:
                    continue
                if sym.sort() == I and z3.is_bool(t):
                    continue
                if sym.sort() == B and t.sort() in (I, R) and key is not None:
                    self.sorts[(key, path)] = t.sort()
                    raise NeedRound(self)
                raise Unsupported("a variable changes its type in a loop")
        co = real if sym.sort() == R else as_int if sym.sort() == I else (lambda x: x)
        self.leaves.append(Leaf(sym, simp(co(a)), simp(co(b))))

    def collect(self, key, h, init, nx, path):
        if h is None:
            if any(v is not None for _, v in nx):
                v = next(v for _, v in nx if v is not None)
                if (key, path) not in self.shapes:
                    self.shapes[(key, path)] = v
                    raise NeedRound(self)
                if self.shapes[(key, path)] is None:
                    self.shapes[(key, path)] = v
                    raise NeedRound(self)
                raise Unsupported("None or a value")
            return
        if is_z(h):
            init = self.unopt(init)
            m = None
            for j, (c, v) in enumerate(reversed(nx)):
                v = self.unopt(v)
                if isinstance(v, IP.TruthV):
                    v = v.t
                if not is_num(v):
                    raise Unsupported(f"a number becomes {type(v).__name__}")
                m = v if j == 0 else merge(c, v, m)
            if init is UNDEF or init is None or isinstance(init, (Poison,)):
                init = fresh("any", h.sort())
            if isinstance(init, IP.Deferred):
                init = init.thunk()
            self.leaf(h, init, m, key, path)
            return
        if isinstance(h, FaceV):
            if not isinstance(init, FaceV):
                init = FaceV(fresh("any", B))
            m = None
            for j, (c, v) in enumerate(reversed(nx)):
                if not isinstance(v, FaceV):
                    raise Unsupported("a sequence value becomes something else")
                m = v if j == 0 else merge(c, v, m)
            self.leaf(h.b, lift(init.b), lift(m.b))
            return
        if isinstance(h, OptV):
            def none(v):
                return z3.BoolVal(True) if v is None else v.none if isinstance(v, OptV) else z3.BoolVal(False)
            m = None
            for j, (c, v) in enumerate(reversed(nx)):
                m = none(v) if j == 0 else simp(z3.If(c, none(v), m))
            self.leaf(h.none, none(init), m)
            arb = h.val
            self.collect(key, h.val, self.unopt(init, arb), [(c, self.unopt(v, arb)) for c, v in nx], path + ("val",))
            return
        if isinstance(h, tuple):
            for v in [init] + [v for _, v in nx]:
                if not isinstance(v, tuple) or len(v) != len(h):
                    raise Unsupported("a tuple changes its shape")
            for j, x in enumerate(h):
                self.collect(key, x, init[j], [(c, v[j]) for c, v in nx], path + (j,))
            return
        if isinstance(h, Obj):
            for v in [init] + [v for _, v in nx]:
                if not isinstance(v, Obj) or v.cls is not h.cls:
                    raise Unsupported("an object is replaced by something else")
            for k in h.slots:
                self.collect(key, h.slots[k], init.slots[k], [(c, v.slots[k]) for c, v in nx], path + (k,))
            return
        if isinstance(h, ListObj):
            if not all(isinstance(v, ListObj) for _, v in nx):
                raise Unsupported("a list is replaced by something else")
            self.collect(key, h.slots["seq"], init.slots["seq"], [(c, v.slots["seq"]) for c, v in nx], path + ("seq",))
            return
        if isinstance(h, HSeq):
            self.lists[id(h.hid)] = (h.hid, nx)
            return
        if isinstance(h, DictObj):
            if not all(isinstance(v, DictObj) for _, v in nx):
                raise Unsupported("a dict is replaced by something else")
            self.collect(key, h.slots["d"], init.slots["d"], [(c, v.slots["d"]) for c, v in nx], path + ("d",))
            return
        if isinstance(h, FinMap):
            for _, v in nx:
                if not isinstance(v, FinMap) or list(v.m) != list(h.m):
                    self.sorts[(key, path, "symkeys")] = True
                    raise NeedRound(self)
            for k, x in h.m.items():
                self.collect(key, x, init.m[k], [(c, v.m[k]) for c, v in nx], path + (("k", k),))
            return
        if isinstance(h, HMap):
            self.dicts[id(h.hid)] = (h.hid, nx)
            return
        if isinstance(h, Opaque):
            return
        if all(v is h for _, v in nx):
            return
        raise Unsupported(f"loop-carried {type(h).__name__}")

    def unopt(self, v, default=None):
        if isinstance(v, OptV):
            return v.val
        if v is None and default is not None:
            return default
        return v

    def kappa(self, keyv):
        sig = sig_of(keyv)
        if sig not in self.kappas:
            self.kappas[sig] = (key_shape(keyv), key_shape(keyv)()[0])
        return self.kappas[sig]

    def collect_dict(self, hid, nx):
        """the cell of a generic key"""
        if not hid.entries:
            return
        mk, kap = self.kappa(hid.entries[0].key)
        hid.mk, hid.kap = mk, kap
        hid.msym = fresh("mem", B)
        for _, content in nx:
            if not isinstance(content, HMap) or content.hid is not hid:
                raise Unsupported("a dict is replaced in a loop")
        sample = next((e.val for e in hid.entries if e.val is not None), None)
        if sample is None:  # written, never read
            for _, content in nx:
                for ix, (m, v) in content.overlay:
                    if v is not None:
                        sample = v
        hid.vsym = self.havoc_cell(sample, hid)
        hid.contents = nx
        hid.base = base_cell(self.M, hid, kap)

    def havoc_cell(self, sample, hid):
        if sample is None:
            raise Unsupported("dict values of unknown shape")
        if is_num(sample):
            s = sort_like(sample)
            return fresh("cell", self.sorts.get((hid.key, hid.path, "cell"), s))
        if isinstance(sample, FaceV):
            return FaceV(fresh("cell", B))
        if isinstance(sample, ListObj):
            return ListObj(HSeq(Hid(init=(), owner=self)))
        raise Unsupported(f"dict of {type(sample).__name__} changed in a loop")

    def finish_dicts(self):
        live = [h for h, _ in self.dicts.values() if hasattr(h, "msym")]
        for hid in live:
            nm, nv = hid.msym, hid.vsym
            for ix, e in enumerate(hid.entries):
                # accesses at the same key are accesses of the same generic cell
                pairs = []
                for h2 in live:
                    for e2 in h2.entries:
                        if sig_of(e2.key) == sig_of(e.key) and z3.is_true(key_eq(e2.key, e.key)):
                            pairs.append((e2.msym, h2.msym))
                            if is_z(e2.val) and is_z(h2.vsym):
                                if e2.val.sort() != h2.vsym.sort():
                                    raise Unsupported("dict cell sorts")
                                pairs.append((e2.val, h2.vsym))
                eq = key_eq(e.key, hid.kap)
                m = v = None
                for j, (c, content) in enumerate(reversed(hid.contents)):
                    ov = dict(content.overlay).get(ix)
                    pm, pv = ov if ov is not None else (e.msym, e.val)
                    m = lift(pm) if j == 0 else merge(c, pm, m)
                    if is_z(hid.vsym):
                        if pv is None:
                            pv = hid.vsym
                        v = lift(pv) if j == 0 else merge(c, pv, v)
                nm = z3.If(eq, z3.substitute(lift(m), *pairs), nm)
                if is_z(hid.vsym):
                    v = lift(v)
                    if v.sort() == R and hid.vsym.sort() == I:
                        self.sorts[(hid.key, hid.path, "cell")] = R
                        self.hshapes[(hid.key, hid.path)] = real(0)
                        raise NeedRound(self)
                    nv = merge(eq, z3.substitute(v, *pairs), nv)
            self.leaf(hid.msym, hid.base[0], nm)
            if is_z(hid.vsym):
                bv = hid.base[1]
                if bv is None:
                    bv = fresh("any", hid.vsym.sort())
                self.leaf(hid.vsym, bv, nv)
            elif isinstance(hid.vsym, ListObj):
                hid.listcell = True
            else:
                raise Unsupported("dict values")

    # -- closed forms ------------------------------------------------------------------------
    def close(self):
        self.finish_dicts()
        self.closed = {}   # sym id -> (sym, term in self.i)
        self.access = []   # (symbol of an access, closed form in i)
        todo = list(self.leaves)
        while True:
            progress = False
            # accesses of solved dict cells
            self._close_access()
            for lf in list(todo):
                nxt = prover.tidy(self.sub(lf.next))
                deps = [t for t in todo if occurs(t.sym, nxt)]
                acc = [a for a in self._open_access() if occurs(a, nxt)]
                if acc or any(d is not lf for d in deps):
                    continue
                t = self.rule(lf, nxt)
                if t is None:
                    continue
                self.closed[lf.sym.get_id()] = (lf.sym, simp(t))
                todo.remove(lf)
                progress = True
            if not todo:
                break
            if progress:
                continue
            # a strongly connected group: the recurrence itself
            grp = self.group(todo)
            nexts = [prover.tidy(self.sub(lf.next)) for lf in grp]
            acc = [a for a in self._open_access() if any(occurs(a, t) for t in nexts)]
            if acc:
                raise Unsupported("a loop that carries state through dict cells")
            for lf in grp:
                for other in todo:
                    if other not in grp and any(occurs(other.sym, t) for t in nexts):
                        raise Unsupported("recurrence order")

            def step(j, *ss, grp=grp, nexts=nexts):
                ps = [(lf.sym, s) for lf, s in zip(grp, ss)] + [(self.i, j)]
                return [z3.substitute(t, *ps) for t in nexts]
            res = Rec([lf.init for lf in grp], step, self.i)
            for lf, r in zip(grp, res):
                if r.sort() != lf.sym.sort():
                    raise Unsupported("recurrence sort")
                self.closed[lf.sym.get_id()] = (lf.sym, r)
                todo.remove(lf)
            self.M.loop_rules["recurrence"] = self.M.loop_rules.get("recurrence", 0) + 1
        self._close_access()

    def group(self, todo):
        dep = {}
        for lf in todo:
            nxt = self.sub(lf.next)
            dep[id(lf)] = [t for t in todo if occurs(t.sym, nxt)]

        def reach(lf):
            seen, st = {id(lf): lf}, [lf]
            while st:
                for d in dep[id(st.pop())]:
                    if id(d) not in seen:
                        seen[id(d)] = d
                        st.append(d)
            return seen
        best = None
        for lf in todo:
            r = reach(lf)
            if best is None or len(r) < len(best):
                best = r
        return [lf for lf in todo if id(lf) in best]

    def _open_access(self):
        out = []
        for hid, _ in self.dicts.values():
            for e in hid.entries:
                for s in (e.msym, e.val):
                    if is_z(s) and not any(s.eq(a) for a, _ in self.access):
                        out.append(s)
        return out

    def _close_access(self):
        for hid, _ in self.dicts.values():
            if not hasattr(hid, "msym"):
                continue
            for e in hid.entries:
                for s, c in ((e.msym, hid.msym), (e.val, hid.vsym)):
                    if not is_z(s) or not is_z(c) or any(s.eq(a) for a, _ in self.access):
                        continue
                    cf = self.closed.get(c.get_id())
                    if cf is None:
                        continue
                    key = self.subv(e.key)
                    if any(occurs(a, t) for t in value_terms(key) for a in self._open_access()):
                        continue
                    t = subst_key(cf[1], hid.kap, key)
                    if t.sort() != s.sort():
                        t = real(t)
                    self.access.append((s, simp(t)))

    def sub(self, t):
        pairs = list(self.closed.values()) + list(self.access)
        return simp(z3.substitute(t, *pairs)) if pairs else t

    def subv(self, v):
        return vsubst(v, list(self.closed.values()) + list(self.access))

    def rule(self, lf, nxt):
        s, i = lf.sym, self.i
        R_ = self.M.loop_rules

        def cnt(nm):
            R_[nm] = R_.get(nm, 0) + 1
        if nxt.eq(s):
            cnt("unchanged")
            return lf.init
        if occurs(s, nxt):
            # not really dependent?
            if s.sort() == B:
                a, b = z3.substitute(nxt, (s, z3.BoolVal(True))), z3.substitute(nxt, (s, z3.BoolVal(False)))
                if prover.quick([], simp(a == b), 400):
                    nxt = simp(a)
        if not occurs(s, nxt):
            cnt("last value")
            prev = simp(z3.substitute(nxt, (i, i - 1)))
            at0 = simp(z3.substitute(nxt, (i, z3.IntVal(-1))))
            if at0.eq(lf.init):
                return prev
            return z3.If(i <= 0, lf.init, prev)
        if s.sort() in (I, R):
            d = delta(nxt, s)
            if d is not None and not occurs(s, d):
                cnt("sum")
                return lf.init + Sum(0, i, lambda j: z3.substitute(d, (i, j)), real_=s.sort() == R)
            mx = maxof(nxt, s)
            if mx is not None:
                cnt("maximum")
                kind, e = mx
                if kind == "max":
                    return Max(0, i, lf.init, lambda j: z3.substitute(e, (i, j)))
                return Min(0, i, lf.init, lambda j: z3.substitute(e, (i, j)))
        if s.sort() == B:
            t1, t0 = simp(z3.substitute(nxt, (s, z3.BoolVal(True)))), simp(z3.substitute(nxt, (s, z3.BoolVal(False))))
            if z3.is_false(t0) or prover.quick([], z3.Not(t0), 300):
                cnt("conjunction")
                return z3.And(lf.init, All(0, i, lambda j: z3.substitute(t1, (i, j))))
            if z3.is_true(t1) or prover.quick([], t1, 300):
                cnt("conjunction")
                return z3.Or(lf.init, Ex(0, i, lambda j: z3.substitute(t0, (i, j))))
        return None

    def at(self, t, k):
        """term or condition of the body at iteration k"""
        t = z3.substitute(t, *(list(self.closed.values()) + list(self.access))) if (self.closed or self.access) else t
        if not (is_z(k) and k.eq(self.i)):
            t = z3.substitute(t, (self.i, lift(k)))
        return simp(t)

    def val_at(self, v, k):
        """value of the body at iteration k"""
        v = vsubst(v, list(self.closed.values()) + list(self.access))
        if not (is_z(k) and k.eq(self.i)):
            v = vsubst(v, [(self.i, lift(k))])
        return v

    # -- after the loop ----------------------------------------------------------------------
    def finish(self):
        M, n, i = self.M, self.n, self.i
        if not self.exits:
            self.state_at(n)
            M.assume(n >= 0) if num(n) is None and False else None
            return
        X = simp(z3.Or(*[self.at(p.cond(), i) for p in self.exits]))
        noexit = All(0, n, lambda j: z3.Not(z3.substitute(X, (i, j))))
        rec = M.recorded(lambda: bool(prover.valid(M.pc, noexit, prover.Ctx(4))))
        if rec:
            self.state_at(n)
            return
        if M.decide(noexit):
            self.state_at(n)
            return
        f = fresh("x")
        M.pc += [z3.IntVal(0) <= f, f < n, All(0, f, lambda j: z3.Not(z3.substitute(X, (i, j)))), z3.substitute(X, (i, f))]
        self.state_at(f)
        self.cb(self.elem(f))
        raise IP.Infeasible()

    def state_at(self, k):
        M = self.M
        for key, (cell, name, init) in self.modified.items():
            if key in self.bad:
                M.set(cell, name, Poison(f"loop at {self.place}: {self.bad[key]}"))
            elif key in self.typed:
                M.set(cell, name, self.final(self.hv[key], init, k))
            elif key in self.last:
                M.set(cell, name, self.last_value(key, init, k))

    def last_value(self, key, init, k):
        nx = self.last[key]
        if all(isinstance(v, Poison) for _, v in nx):
            return nx[0][1]

        def thunk():
            m = None
            for j, (c, v) in enumerate(reversed(nx)):
                if isinstance(v, IP.Deferred):
                    v = v.thunk()
                m = v if j == 0 else merge(c, v, m)
            m = self.val_at(m, simp(k - 1))
            if self.M.known(k > 0):
                return m
            if init is UNDEF:
                return Poison("set only by a loop that may not run")
            return merge(k > 0, m, init.thunk() if isinstance(init, IP.Deferred) else init)
        return IP.Deferred(thunk)

    def final(self, h, init, k):
        """the value h (of loop symbols) at iteration k"""
        if h is None or isinstance(h, Opaque):
            return h
        if is_z(h):
            if h.get_id() in self.closed:
                return simp(z3.substitute(self.closed[h.get_id()][1], (self.i, lift(k))))
            return h
        if isinstance(h, FaceV):
            return FaceV(self.final(h.b, None, k)) if is_z(h.b) else h
        if isinstance(h, OptV):
            return OptV(self.final(h.none, None, k), self.final(h.val, None, k))
        if isinstance(h, tuple):
            return tuple(self.final(x, None, k) for x in h)
        if isinstance(h, Obj):
            # the havocked object itself is private to the loop
            return Obj(h.cls, **{s: self.final(x, init.slots.get(s) if isinstance(init, Obj) else None, k) for s, x in h.slots.items()})
        if isinstance(h, ListObj):
            return ListObj(self.final(h.slots["seq"], None, k))
        if isinstance(h, HSeq):
            return self.final_list(h.hid, k)
        if isinstance(h, DictObj):
            return DictObj(self.final(h.slots["d"], None, k), h.factory, h.cls)
        if isinstance(h, FinMap):
            return FinMap({q: self.final(x, None, k) for q, x in h.m.items()})
        if isinstance(h, HMap):
            return self.final_dict(h.hid, k)
        return h

    def final_list(self, hid, k):
        _, nx = self.lists.get(id(hid), (None, None))
        if nx is None:
            return hid.init
        if all(isinstance(c, HSeq) and c.hid is hid and not any(isinstance(x, Chunk) for x in c.log) for _, c in nx):
            logs = [(c, content.log) for c, content in nx]
            return concat(self.M, hid.init, self.log_seq(logs, k))
        meas = {m: self.final(s, None, k) for m, s in hid.ghosts.items()}
        place = self.place

        def get(m):
            if m in meas:
                return meas[m]
            raise Unsupported(f"{m} of a list built by the loop at {place}")
        return AbsSeq(get)

    def log_seq(self, logs, k, extra_guard=None):
        """SymSeq of what the iterations 0..k-1 append"""
        i = self.i
        mmax = max(len(l) for _, l in logs)
        if mmax == 0:
            return ()
        full = all(len(l) == mmax for _, l in logs)

        def item(r):
            v = None
            for c, l in reversed(logs):
                if len(l) > r:
                    v = l[r] if v is None else merge(c, l[r], v)
            return v
        items = [item(r) for r in range(mmax)]
        guards = [simp(z3.Or(*[c for c, l in logs if len(l) > r])) if not full else None for r in range(mmax)]
        cache = {}

        def atk(r, j):
            j = simp(lift(j))
            kk = (r, j.get_id())
            if kk not in cache:
                cache[kk] = (j, self.val_at(items[r], j))
            return cache[kk][1]

        def gat(r, j):
            g = self.at(guards[r], j) if guards[r] is not None else z3.BoolVal(True)
            return simp(z3.And(g, extra_guard(j))) if extra_guard is not None else g
        hasg = (not full) or extra_guard is not None
        if mmax == 1:
            return SymSeq(k, lambda j: atk(0, j), (lambda j: gat(0, j)) if hasg else None)

        def fn(q):
            q = lift(q)
            v = atk(mmax - 1, q / mmax)
            for r in range(mmax - 2, -1, -1):
                v = merge(q % mmax == r, atk(r, q / mmax), v)
            return v

        def gd(q):
            v = gat(mmax - 1, lift(q) / mmax)
            for r in range(mmax - 2, -1, -1):
                v = z3.If(lift(q) % mmax == r, gat(r, lift(q) / mmax), v)
            return v
        return SymSeq(simp(lift(k) * mmax), fn, gd if hasg else None)

    def final_dict(self, hid, k):
        _, nx = self.dicts.get(id(hid), (None, None))
        if nx is None or not hid.entries:
            return hid.init
        i = self.i
        kap = hid.kap
        mterm = self.closed[hid.msym.get_id()][1]
        empty = isinstance(hid.init, FinMap) and not hid.init.m

        def mem_at(j, key):
            return simp(z3.substitute(subst_key(mterm, kap, key), (i, lift(j)))) if False else subst_key(simp(z3.substitute(mterm, (i, lift(j)))), kap, key)

        e0 = hid.entries[0]
        one = len(hid.entries) == 1

        def key(j):
            return self.val_at(e0.key, j)
        # which iterations insert the key?
        ins = []
        for c, content in nx:
            for ix, (m, v) in content.overlay:
                ins.append(z3.And(c, lift(m)))
        guard_t = simp(z3.Or(*ins)) if ins else z3.BoolVal(False)

        def first(j):
            j = lift(j)
            return simp(z3.And(self.at(guard_t, j), z3.Not(mem_at(j, key(j)))))

        if getattr(hid, "listcell", False):
            def value_at(q):
                logs = []
                for c, content in nx:
                    ov = [v for _, (m, v) in content.overlay]
                    if len(ov) > 1:
                        raise Unsupported("two lists of a dict changed in an iteration")
                    if ov and isinstance(ov[0], ListObj):
                        cont = ov[0].slots["seq"]
                        if not isinstance(cont, HSeq) or any(isinstance(x, Chunk) for x in cont.log):
                            raise Unsupported("a list in a dict is replaced")
                        logs.append((c, cont.log))
                    else:
                        logs.append((c, ()))
                return ListObj(self.log_seq(logs, k, extra_guard=lambda j: key_eq(key(j), q)))
            if not empty:
                raise Unsupported("a dict of lists changed again")
            additive = None
        else:
            vterm = self.closed[hid.vsym.get_id()][1] if is_z(hid.vsym) else None
            fin = simp(z3.substitute(vterm, (i, lift(k))))

            def value_at(q):
                return subst_key(fin, kap, q)
            additive = None
            base = hid.base[1]
            lf = next(l for l in self.leaves if l.sym.eq(hid.vsym))
            if empty and base is not None and num(lift(base)) == 0:
                nxt = self.sub(lf.next)
                d = delta(nxt, hid.vsym) if hid.vsym.sort() in (I, R) else None
                # the closed form is a sum over the iterations with this key
                if d is None:
                    # cell equals a sum with own symbol already substituted: recompute from the leaf
                    d = None
                raw = z3.substitute(lf.next, *[(s, t) for s, t in list(self.closed.values()) if not s.eq(hid.vsym)] + list(self.access))
                d = delta(simp(raw), hid.vsym)
                if d is not None and not occurs(hid.vsym, d):
                    # contribution of iteration j to its own key
                    def contrib(j, d=d):
                        t = simp(z3.substitute(d, (i, lift(j))))
                        return subst_key(t, kap, key(j))
                    additive = contrib if one else None
        mfin = simp(z3.substitute(mterm, (i, lift(k))))
        km = KMap(k, key, first, value_at, lambda q: subst_key(mfin, kap, q), hid.mk, iterable=empty and one)
        km.additive = additive
        km.default = hid.base[1]
        return km


class Entry:
    """an access of a dict at a key in one iteration: member and value before"""

    def __init__(self, key, msym, val):
        self.key, self.msym, self.val = key, msym, val


def sig_of(k):
    if isinstance(k, FaceV):
        return "F"
    if isinstance(k, bool) or (is_z(k) and z3.is_bool(k)):
        return "I"
    if isinstance(k, int) or (is_z(k) and k.sort() == I):
        return "I"
    if is_num(k):
        return "R"
    if isinstance(k, tuple):
        return "(" + "".join(sig_of(x) for x in k) + ")"
    if isinstance(k, (TupV, SymSeq)):
        s = seq_of(k)
        return "T" + sig_of(s.get(z3.IntVal(0))) + simp(lift(s.n)).sexpr()
    if isinstance(k, str):
        return "S" + k
    raise Unsupported(f"{type(k).__name__} as a key")


def value_terms(v):
    if is_z(v):
        return [v]
    if isinstance(v, FaceV):
        return [lift(v.b)]
    if isinstance(v, tuple):
        return [t for x in v for t in value_terms(x)]
    if isinstance(v, (TupV, SymSeq)):
        s = seq_of(v)
        return value_terms(s.get(fresh("j"))) + [lift(s.n)]
    return []


def base_cell(M, hid, kap):
    """(member, value) of a generic key before the loop"""
    d = hid.init
    dflt = hid.default
    if isinstance(d, FinMap) and not d.m:
        return z3.BoolVal(False), dflt
    if isinstance(d, FinMap):
        m, v = z3.BoolVal(False), dflt
        for k, x in d.m.items():
            e = key_eq(kap, k)
            m = simp(z3.Or(m, e))
            v = x if v is None else merge(e, x, v)
        return m, v
    if isinstance(d, KMap):
        return lift(d.member_at(kap)), d.value_at(kap)
    raise Unsupported("dict content at the start of a loop")


def delta(t, s):
    """d with t == s + d, or None"""
    if t.eq(s):
        return lift(0) if s.sort() == I else real(0)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = t.children()
        if occurs(s, c):
            return None
        x, y = delta(a, s), delta(b, s)
        return None if x is None or y is None else simp(z3.If(c, x, y))
    if z3.is_add(t):
        ch = t.children()
        own = [x for x in ch if x.eq(s)]
        if len(own) == 1:
            rest = [x for x in ch if not x.eq(s)]
            if not any(occurs(s, x) for x in rest):
                return simp(z3.Sum(*rest)) if len(rest) > 1 else rest[0]
        for j, x in enumerate(ch):
            if occurs(s, x):
                d = delta(x, s)
                rest = ch[:j] + ch[j + 1:]
                if d is None or any(occurs(s, y) for y in rest):
                    return None
                return simp(z3.Sum(d, *rest))
    if z3.is_sub(t):
        ch = t.children()
        d = delta(ch[0], s)
        if d is not None and not any(occurs(s, x) for x in ch[1:]):
            for x in ch[1:]:
                d = d - x
            return simp(d)
    d = simp(t - s)
    return d if not occurs(s, d) else None


def maxof(t, s):
    """('max', e) if t == max(s, e)"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = t.children()
        for x, y, neg in ((a, b, False), (b, a, True)):
            if y.eq(s) and not occurs(s, x):
                # t is x under cond, else s: cond must be x > s or x >= s
                cc = simp(z3.Not(c)) if neg else c
                if prover.quick([], cc == (x > s), 300) or prover.quick([], cc == (x >= s), 300):
                    return "max", x
                if prover.quick([], cc == (x < s), 300) or prover.quick([], cc == (x <= s), 300):
                    return "min", x
                # guarded: cond = g and x > s
                if z3.is_and(cc):
                    parts = cc.children()
                    cmp_ = [p for p in parts if occurs(s, p)]
                    gs = [p for p in parts if not occurs(s, p)]
                    if len(cmp_) == 1 and (prover.quick([], cmp_[0] == (x > s), 300)):
                        return None
    return None


def concat(M, a, b):
    if isinstance(a, tuple) and not a:
        return b
    if isinstance(b, tuple) and not b:
        return a
    if isinstance(a, tuple) and isinstance(b, tuple):
        return a + b
    if isinstance(a, HSeq):
        if isinstance(b, tuple):
            return HSeq(a.hid, a.log + b)
        return HSeq(a.hid, a.log + (Chunk(b),))
    if isinstance(a, Sparse) or isinstance(b, Sparse):
        ia = a.items if isinstance(a, Sparse) else tuple((z3.BoolVal(True), x) for x in a) if isinstance(a, tuple) else None
        ib = b.items if isinstance(b, Sparse) else tuple((z3.BoolVal(True), x) for x in b) if isinstance(b, tuple) else None
        if ia is None or ib is None:
            raise Unsupported("conditional items in a long list")
        return Sparse(ia + ib)
    sa, sb = seq_of(a), seq_of(b)
    na = lift(sa.n)

    def fn(j):
        j = simp(lift(j))
        cj, ca = num(j), num(simp(na))
        if cj is not None and ca is not None:
            return sa.get(j) if cj < ca else sb.get(simp(j - na))
        if isinstance(a, tuple) and not a:
            return sb.get(j)
        if M.known(j < na) if False else False:
            return sa.get(j)
        return merge(j < na, sa.get(j), sb.get(simp(j - na)))
    g = None
    if isinstance(a, tuple) and sa.guard is None and sb.guard is None:
        # do the leading values continue the rest to the left?
        def same(x, y):
            if isinstance(x, FaceV) and isinstance(y, FaceV):
                x, y = x.b, y.b
            if not (is_num(x) and is_num(y)) or isinstance(x, bool) != isinstance(y, bool):
                return False
            x, y = simp(lift(x)), simp(lift(y))
            return x.sort() == y.sort() and x.eq(y)
        try:
            if all(same(x, sb.get(simp(lift(k - len(a))))) for k, x in enumerate(a)):
                return SymSeq(simp(na + lift(sb.n)), lambda j: sb.get(simp(lift(j) - na)))
        except (Unsupported, IndexError):
            pass
    if sa.guard is not None or sb.guard is not None:
        ga = sa.guard or (lambda j: z3.BoolVal(True))
        gb = sb.guard or (lambda j: z3.BoolVal(True))
        g = lambda j: z3.If(lift(j) < na, ga(lift(j)), gb(simp(lift(j) - na)))
    return SymSeq(simp(na + lift(sb.n)), fn, g)


def measure(M, content, m):
    """len / count / ... of a list content"""
    kind = m[0]
    if isinstance(content, ListObj):
        content = content.slots["seq"]
    if isinstance(content, HSeq):
        g = content.hid.ghosts.get(m)
        if g is None:
            g = fresh("g", I)
            content.hid.ghosts[m] = g
        t = g
        for x in content.log:
            if isinstance(x, Chunk):
                t = t + lift(measure(M, x.seq, m))
            elif kind == "len":
                t = t + 1
            elif kind == "count":
                t = t + as_int(key_eq(x, m[1]))
        return simp(t)
    if isinstance(content, AbsSeq):
        return content.measure(m)
    if isinstance(content, Sparse):
        if kind == "len":
            return simp(z3.Sum(*[as_int(lift(g)) for g, _ in content.items])) if content.items else 0
        return simp(z3.Sum(*[as_int(z3.And(lift(g), key_eq(x, m[1]))) for g, x in content.items])) if content.items else 0
    if isinstance(content, tuple):
        if kind == "len":
            return len(content)
        t = lift(0)
        for x in content:
            t = t + as_int(key_eq(x, m[1]))
        return simp(t)
    s = seq_of(content)
    if kind == "len":
        if s.guard is None:
            return s.n
        return Sum(0, s.n, lambda j: as_int(lift(s.guard(j))))

    def one(j):
        e = key_eq(s.get(j), m[1])
        if s.guard is not None:
            e = z3.And(lift(s.guard(j)), e)
        return as_int(e)
    return Sum(0, s.n, one)


def symloop(M, n, elem, cb, guarded=False):
    if num(simp(lift(n))) == 0:
        return
    SymLoop(M, n, elem, cb).run()


def whileloop(M, cond, body):
    count = 0
    while True:
        c = M.const(cond())
        if c is None:
            break
        if not c:
            return
        count += 1
        if count > 300:
            raise Unsupported("long while loop")
        M.merged(body)
    N = fresh("N")
    M.assume(N >= 0)

    def cb(_):
        c = cond()
        if isinstance(c, bool):
            if not c:
                raise IP.Infeasible()
        else:
            M.assume(c)
        body()
    symloop(M, N, lambda i: None, cb)
    c = cond()
    if c is True:
        raise IP.Infeasible()
    if not isinstance(c, bool):
        M.assume(z3.Not(c))
