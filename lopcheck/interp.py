"""Abstract interpreter: builds the gated value graph of a function.

No path is enumerated: both arms of a branch are evaluated once and joined by a gate; loops are
summarised once (sum, comprehension, scatter, running extremum) or become opaque terms.
"""
import ast
from .values import *
from .repo import AnalysisBroken
from .npsem import NpSem

UNROLL = 12
MAXDEPTH = 60


def force(v, st):
    """element of a statically known sequence, read in the state of its iteration"""
    return v(st) if callable(v) else v


class Outcome:
    """tree of leaves: None (falls through) or (kind, value, state); gates ('if', c, a, b)"""
    __slots__ = ("tree", "normal")

    def __init__(self, tree, normal):
        self.tree, self.normal = tree, normal


class Gate:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


HOLE = None


class Leaf:
    __slots__ = ("kind", "value", "state", "node")

    def __init__(self, kind, value, state, node=None):
        self.kind, self.value, self.state, self.node = kind, value, state, node


def tree_leaves(t):
    if isinstance(t, Gate):
        yield from tree_leaves(t.a)
        yield from tree_leaves(t.b)
    else:
        yield t


def tree_map(t, f):
    if isinstance(t, Gate):
        return Gate(t.c, tree_map(t.a, f), tree_map(t.b, f))
    return f(t)


def has_hole(t):
    return any(x is HOLE for x in tree_leaves(t))


class Event:
    __slots__ = ("kind", "func", "node", "facts", "data", "loops")

    def __init__(self, kind, func, node, facts, data, loops):
        self.kind, self.func, self.node, self.facts, self.data, self.loops = kind, func, node, facts, data, loops

    def where(self):
        return self.func.where(self.node) if self.func else "?"

    def __repr__(self):
        return "<%s %s %r>" % (self.kind, self.where(), self.data)


class Interp(NpSem):
    def __init__(self, repo, interior=True, budget=400000):
        self.repo = repo
        self.interior = interior
        self.events = []
        self.loops = []          # loop records
        self.errors = []         # certain run-time errors found on the way
        self.stack = []
        self.modcache = {}
        self.no_exc = False      # operations of the library are taken not to raise
        self.force_exc = ()      # names of functions whose try statements fail at once
        self.hooks = {}          # Func -> python callable(interp, st, args, kwargs, node)
        self.exthooks = {}       # external name -> callable
        self.unroll = UNROLL
        self.budget = budget
        self.loopstack = []
        self.excs = []
        self.tries = []
        self.opq_n = 0
        self.modheap = {}

    # ---------------------------------------------------------------- bookkeeping
    def cur(self):
        return self.stack[-1] if self.stack else None

    def event(self, kind, st, node, **data):
        self.events.append(Event(kind, self.cur(), node, dict(st.facts), data, tuple(self.loopstack)))

    def error(self, st, node, msg):
        self.event("error", st, node, msg=msg)
        self.errors.append((self.cur(), node, msg, dict(st.facts)))
        return self.unk("error", K(msg))

    def unk(self, name, *args):
        return Unk(opq(name, *args))

    def fresh_unk(self, name):
        self.opq_n += 1
        return Unk(opq(name, K(self.opq_n)))

    # ---------------------------------------------------------------- merging
    def merge_val(self, c, a, b, heap):
        if same(a, b):
            return a
        if isinstance(a, Phi) and a.c is c:
            a = a.a
        if isinstance(b, Phi) and b.c is c:
            b = b.b
        if isinstance(a, T) and isinstance(b, T):
            return ite(c, a, b)
        if isinstance(a, VTuple) and isinstance(b, VTuple) and len(a.items) == len(b.items):
            return VTuple([self.merge_val(c, x, y, heap) for x, y in zip(a.items, b.items)])
        if isinstance(a, Ref) and isinstance(b, Ref):
            oa, ob = heap.get(a.id), heap.get(b.id)
            if isinstance(oa, Arr) and isinstance(ob, Arr) and self.same_dims(oa, ob):
                r = Ref()
                heap[r.id] = self.merge_arr(c, oa, ob)
                return r
            if isinstance(oa, VList) and isinstance(ob, VList) and oa.static and ob.static \
                    and len(oa.segs) == len(ob.segs):
                r = Ref()
                heap[r.id] = VList.of([self.merge_val(c, x, y, heap) for x, y in zip(oa.items(), ob.items())])
                return r
        if isinstance(a, Unk) and isinstance(b, T) or isinstance(b, Unk) and isinstance(a, T) or \
                isinstance(a, Unk) and isinstance(b, Unk):
            pass
        if isinstance(a, T) and isinstance(b, Ref) and isinstance(heap.get(b.id), Arr) and heap[b.id].rank == 0:
            return ite(c, a, heap[b.id].body)
        if isinstance(b, T) and isinstance(a, Ref) and isinstance(heap.get(a.id), Arr) and heap[a.id].rank == 0:
            return ite(c, heap[a.id].body, b)
        return Phi(c, a, b)

    def same_dims(self, x, y):
        return x.rank == y.rank and all(p is q or self.dims_equal(p, q) for p, q in zip(x.dims, y.dims))

    def dims_equal(self, p, q):
        if p is q:
            return True
        try:
            return norm(p) is norm(q)
        except Limit:
            return False

    def merge_arr(self, c, x, y):
        ivs = tuple(IV() for _ in x.dims)
        return Arr(ivs, x.dims, ite(c, x.at(*ivs), y.at(*ivs)), x.dt if x.dt == y.dt else None)

    def merge_obj(self, c, x, y, heap):
        """the same heap cell in two states"""
        if x is y:
            return x
        if isinstance(x, Arr) and isinstance(y, Arr) and self.same_dims(x, y):
            r = self.merge_arr(c, x, y)
            r.base, r.src = x.base, x.src
            return r
        if isinstance(x, VObj) and isinstance(y, VObj) and x.cls is y.cls:
            at = {}
            for k in list(x.attrs) + [k for k in y.attrs if k not in x.attrs]:
                at[k] = self.merge_val(c, x.attrs.get(k, UNDEF), y.attrs.get(k, UNDEF), heap)
            return VObj(x.cls, at, x.hooks, x.name)
        if isinstance(x, VList) and isinstance(y, VList):
            n = min(len(x.segs), len(y.segs))
            k = 0
            while k < n and self.same_seg(x.segs[k], y.segs[k]):
                k += 1
            pre, rx, ry = x.segs[:k], x.segs[k:], y.segs[k:]
            if len(rx) == len(ry) and all(s[0] == "item" for s in rx + ry):
                return VList(pre + tuple(("item", self.merge_val(c, s[1], t[1], heap)) for s, t in zip(rx, ry)))
            if any(s[0] not in ("item", "comp") for s in rx + ry):
                return PhiObj(c, x, y)
            # conditional segments
            out = list(pre)
            for cc, segs in ((c, rx), (NOT(c), ry)):
                for s in segs:
                    if s[0] == "item":
                        out.append(("comp", IV("c"), ONE, cc, s[1]))
                    else:
                        out.append(("comp", s[1], s[2], AND(cc, s[3]), s[4]))
            return VList(out)
        if isinstance(x, VDict) and isinstance(y, VDict):
            kx, ky = [k for k, _ in x.items], [k for k, _ in y.items]
            items = []
            for k, v in x.items:
                w = next((w for q, w in y.items if same(q, k)), UNDEF)
                items.append((k, self.merge_val(c, v, w, heap)))
            for k, v in y.items:
                if not any(same(q, k) for q in kx):
                    items.append((k, self.merge_val(c, UNDEF, v, heap)))
            return VDict(items)
        if isinstance(x, VSet) and isinstance(y, VSet):
            return VSet(None, ("merge", c, x, y))
        return PhiObj(c, x, y)

    def same_seg(self, s, t):
        if s is t:
            return True
        return s[0] == t[0] == "item" and same(s[1], t[1])

    def merge_states(self, c, a, b):
        heap = {}
        for k, v in a.heap.items():
            w = b.heap.get(k)
            heap[k] = v if (w is None or w is v) else None
        for k, v in b.heap.items():
            if k not in heap:
                heap[k] = v
        pend = [k for k, v in heap.items() if v is None]
        # temporary union so that merge_val can look at both; new cells created in either are visible
        for k in pend:
            heap[k] = a.heap[k]
        for k in pend:
            heap[k] = self.merge_obj(c, a.heap[k], b.heap[k], heap)
        env = {}
        for k in list(a.env) + [k for k in b.env if k not in a.env]:
            va, vb = a.env.get(k, UNDEF), b.env.get(k, UNDEF)
            if same(va, vb):
                env[k] = va
            elif isinstance(va, Ref) and isinstance(vb, Ref):
                env[k] = self.merge_val2(c, va, vb, a.heap, b.heap, heap)
            else:
                env[k] = self.merge_val2(c, va, vb, a.heap, b.heap, heap)
        facts = {}
        for k, v in a.facts.items():
            if b.facts.get(k) is v:
                facts[k] = v
        return State(env, heap, facts)

    def merge_val2(self, c, va, vb, ha, hb, heap):
        """merge values that live in different heaps (cells may have diverged)"""
        if isinstance(va, Ref) and isinstance(vb, Ref) and va.id != vb.id:
            oa, ob = ha.get(va.id), hb.get(vb.id)
            if isinstance(oa, Arr) and isinstance(ob, Arr) and self.same_dims(oa, ob):
                r = Ref()
                heap[r.id] = self.merge_arr(c, oa, ob)
                return r
        if isinstance(va, VTuple) and isinstance(vb, VTuple) and len(va.items) == len(vb.items):
            return VTuple([self.merge_val2(c, x, y, ha, hb, heap) for x, y in zip(va.items, vb.items)])
        return self.merge_val(c, va, vb, heap)

    # ---------------------------------------------------------------- outcome handling
    def join_normals(self, tree, base=None):
        """not used directly: see seq"""

    def exec_block(self, stmts, st):
        """st is consumed. returns Outcome"""
        tree, cur = HOLE, st
        for s in stmts:
            if cur is None:
                break
            self.budget -= 1
            if self.budget < 0:
                raise Limit("budget")
            o = self.exec_stmt(s, cur)
            tree = self.fill(tree, o.tree)
            cur = o.normal
        return Outcome(tree, cur)

    def fill(self, tree, sub):
        if tree is HOLE:
            return sub
        if sub is HOLE:
            return tree
        return tree_map(tree, lambda l: sub if l is HOLE else l)

    def normal(self, st):
        return Outcome(HOLE, st)

    def abrupt(self, kind, value, st, node=None):
        return Outcome(Leaf(kind, value, st, node), None)

    def branch(self, c, oa, ob):
        """join the outcomes of two arms under gate c"""
        na, nb = oa.normal, ob.normal
        if na is not None and nb is not None:
            n = self.merge_states(c, na, nb)
        else:
            n = na if na is not None else nb
        if oa.tree is HOLE and ob.tree is HOLE:
            return Outcome(HOLE, n)
        return Outcome(Gate(c, oa.tree, ob.tree), n)

    def collapse(self, tree, holestate, kinds, default):
        """fold a tree whose leaves of `kinds` (and holes) are to be merged into (value, state);
        leaves of other kinds are ignored. returns (value, state) or None"""
        if isinstance(tree, Gate):
            a = self.collapse(tree.a, holestate, kinds, default)
            b = self.collapse(tree.b, holestate, kinds, default)
            if a is None:
                return b
            if b is None:
                return a
            if a is b:
                return a
            return self.join2(tree.c, a, b)
        if tree is HOLE:
            if holestate is None:
                return None
            return (default, holestate)
        if tree.kind in kinds:
            return (tree.value if tree.value is not None else default, tree.state)
        return None

    def join2(self, c, a, b):
        va, sa = a
        vb, sb = b
        if sa is sb:
            heap = sa.heap
            return (self.merge_val2(c, va, vb, heap, heap, heap), sa)
        s = self.merge_states(c, sa, sb)
        v = self.merge_val2(c, va, vb, sa.heap, sb.heap, s.heap)
        return (v, s)

    # ---------------------------------------------------------------- statements
    def exec_stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            return self.normal(st)
        pre = len(self.excs)
        o = m(s, st)
        if len(self.excs) > pre:          # a call inside always raises
            exc = self.excs[pre:]
            del self.excs[pre:]
            return self.abrupt("raise", exc[0], st, s)
        return o

    def s_Expr(self, s, st):
        self.ev(s.value, st)
        return self.normal(st)

    def s_Pass(self, s, st):
        return self.normal(st)

    def s_Import(self, s, st):
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            full = a.name if a.asname else a.name.split(".")[0]
            st.env[nm] = self.repo.modules.get(full) or Ext(full)
        return self.normal(st)

    def s_ImportFrom(self, s, st):
        for a in s.names:
            mm = self.repo.modules.get(s.module or "")
            v = self.module_value(mm, a.name) if mm else Ext((s.module or "") + "." + a.name)
            st.env[a.asname or a.name] = v
        return self.normal(st)

    def s_FunctionDef(self, s, st):
        st.env[s.name] = Closure(s, st.env, self.cur())
        return self.normal(st)

    def s_Global(self, s, st):
        return self.normal(st)

    s_Nonlocal = s_Global

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        return self.abrupt("return", v, st, s)

    def s_Break(self, s, st):
        return self.abrupt("break", None, st, s)

    def s_Continue(self, s, st):
        return self.abrupt("continue", None, st, s)

    def s_Raise(self, s, st):
        nm = "Exception"
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            nm = ast.unparse(e)
        self.event("raise", st, s, name=nm)
        return self.abrupt("raise", K(nm), st, s)

    def s_Assert(self, s, st):
        c = self.cond(s.test, st)
        if c is FALSE:
            return self.abrupt("raise", K("AssertionError"), st, s)
        add_fact(st.facts, c, True)
        return self.normal(st)

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env[t.id] = UNDEF
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st)
                o = st.get(b)
                if isinstance(o, VList) and o.static:
                    i = self.ev(t.slice, st)
                    if isinstance(i, T) and isnum(i):
                        it = o.items()
                        del it[int(i.args[0])]
                        st.put(b, VList.of(it))
                        continue
                if isinstance(b, Ref):
                    st.put(b, self.opaque_like(o, "del"))
        return self.normal(st)

    def s_Assign(self, s, st):
        pre = len(self.excs)
        v = self.ev(s.value, st)
        if len(self.excs) > pre:
            return self.normal(st)        # raised before anything is stored
        for t in s.targets:
            self.assign(t, v, st)
        return self.normal(st)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st)
        return self.normal(st)

    def s_AugAssign(self, s, st):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            idx = self.ev_index(t.slice, st)
            rhs = self.ev(s.value, st)
            self.aug_store(base, idx, op, rhs, st, s)
            return self.normal(st)
        old = self.ev(t, st)
        rhs = self.ev(s.value, st)
        o = st.get(old)
        if isinstance(o, Arr):
            r = st.get(self.binop(op, old, rhs, st, s))
            if isinstance(r, Arr):
                self.inplace(old, r, st, s)
            else:
                st.put(old, self.opaque_like(o, "aug"))
                self.event("mutate", st, s, ref=old)
            return self.normal(st) if isinstance(t, ast.Name) else self.normal(self.reassign(t, old, st))
        if isinstance(o, VList) and op == "Add":
            segs = self.list_segs(rhs, st)
            self.event("mutate", st, s, ref=old)
            st.put(old, VList(o.segs + tuple(segs)) if segs is not None else self.opaque_like(o, "extend"))
            return self.normal(st) if isinstance(t, ast.Name) else self.normal(self.reassign(t, old, st))
        self.assign(t, self.binop(op, old, rhs, st, s), st)
        return self.normal(st)

    def reassign(self, t, v, st):
        self.assign(t, v, st)
        return st

    def inplace(self, ref, arr, st, node):
        old = st.get(ref)
        dims = old.dims if arr.rank == old.rank else arr.dims
        arr2 = Arr(arr.ivs, dims, arr.body, arr.dt, old.base, old.src)
        st.put(ref, arr2)
        self.event("mutate", st, node, ref=ref)
        self.poison_aliases(ref, st)

    def opaque_like(self, o, tag):
        self.opq_n += 1
        if isinstance(o, Arr):
            ivs = tuple(IV() for _ in o.dims)
            return Arr(ivs, o.dims, opq(tag, K(self.opq_n), *ivs), o.dt, o.base, o.src)
        if isinstance(o, VList):
            return VList([("comp", IV(), S("len#%d" % self.opq_n, False, "dim"), TRUE, Unk(opq(tag, K(self.opq_n))))])
        if isinstance(o, VSet):
            return VSet(None, (tag, self.opq_n))
        if isinstance(o, VDict):
            return VDict([])
        return o

    def s_If(self, s, st):
        c = self.cond(s.test, st)
        if self.excs:
            return self.normal(st)
        if c is TRUE:
            return self.exec_block(s.body, st)
        if c is FALSE:
            return self.exec_block(s.orelse, st)
        sa, sb = st.fork(), st
        add_fact(sa.facts, c, True)
        add_fact(sb.facts, c, False)
        self.refine(s.test, sa, True)
        self.refine(s.test, sb, False)
        oa = self.exec_block(s.body, sa)
        ob = self.exec_block(s.orelse, sb)
        return self.branch(c, oa, ob)

    def refine(self, test, st, val):
        """resolve Phi values whose gate is now known"""
        for k, v in list(st.env.items()):
            st.env[k] = self.res(v, st)

    def res(self, v, st):
        while isinstance(v, Phi):
            c = simp(v.c, st.facts)
            if c is TRUE:
                v = v.a
            elif c is FALSE:
                v = v.b
            else:
                break
        if isinstance(v, T) and v.op == "if":
            c = simp(v.args[0], st.facts)
            if c is TRUE:
                return self.res(v.args[1], st)
            if c is FALSE:
                return self.res(v.args[2], st)
        return v

    def s_With(self, s, st):
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st)
        return self.exec_block(s.body, st)

    def s_Try(self, s, st):
        pre = st.fork()
        catches = any(h.type is None or any(isinstance(n, ast.Name) and n.id in ("Exception", "AttributeError", "BaseException")
                                            for n in ast.walk(h.type)) for h in s.handlers)
        if catches:
            self.tries.append(len(self.stack))
        o = self.exec_block(s.body, st)
        if catches:
            self.tries.pop()
        if s.orelse and o.normal is not None:
            o2 = self.exec_block(s.orelse, o.normal)
            o = Outcome(self.fill(o.tree, o2.tree), o2.normal)
        explicit = any(l is not HOLE and l.kind == "raise" for l in tree_leaves(o.tree))
        if s.handlers and self.force_exc and self.cur() is not None and self.cur().name in self.force_exc:
            # the body fails before it has changed anything
            if s.handlers[0].name:
                pre.env[s.handlers[0].name] = self.fresh_unk("exception")
            o = self.exec_block(s.handlers[0].body, pre)
        elif s.handlers and (explicit or not self.no_exc):
            # explicit raise leaves go to the first handler
            h = s.handlers[0]
            self.opq_n += 1
            c = S("exc@%s:%d" % (self.cur().qual if self.cur() else "", self.opq_n), False, "bool")
            hs = pre
            if o.normal is None and isinstance(o.tree, Leaf) and o.tree.state is not None:
                hs = o.tree.state.fork()          # the body always fails in the same place
            # what the body may have changed is unknown in the handler
            if o.normal is not None:
                mod = self.merge_states(S("mid" + c.args[0], False, "bool"), o.normal, pre)
                hs = mod
            hs.facts = dict(pre.facts)
            add_fact(hs.facts, c, True)
            if h.name:
                hs.env[h.name] = self.fresh_unk("exception")
            oh = self.exec_block(h.body, hs)
            if any(l is not HOLE and l.kind == "raise" for l in tree_leaves(o.tree)):
                def sub(l):
                    if l is not HOLE and l.kind == "raise":
                        return oh.tree
                    return l
                hole = any(x is HOLE for x in tree_leaves(o.tree)) or o.tree is HOLE
                # collapse explicit raises into the exceptional arm
                o = Outcome(self.strip_raises(o.tree), o.normal)
            if oh.normal is None and all(l is not HOLE and l.kind == "raise" for l in tree_leaves(oh.tree)):
                pass          # re-raised: assume no exception on the way on
            elif o.normal is None and o.tree is HOLE:
                o = oh
            else:
                o = self.branch(c, oh, o)
        if s.finalbody:
            if o.normal is not None:
                f = self.exec_block(s.finalbody, o.normal)
                o = Outcome(self.fill(o.tree, f.tree), f.normal)
            # the final block also runs on abrupt leaves

            def fin(l):
                if l is HOLE or l.state is None:
                    return l
                fo = self.exec_block(s.finalbody, l.state.fork())
                if fo.normal is not None:
                    return Leaf(l.kind, l.value, fo.normal, l.node)
                return l
            o = Outcome(tree_map(o.tree, fin), o.normal)
        return o

    def strip_raises(self, tree):
        if isinstance(tree, Gate):
            a, b = self.strip_raises(tree.a), self.strip_raises(tree.b)
            ra = isinstance(a, Leaf) and a.kind == "raise"
            rb = isinstance(b, Leaf) and b.kind == "raise"
            if ra:
                return b
            if rb:
                return a
            if a is HOLE and b is HOLE:
                return HOLE
            return Gate(tree.c, a, b)
        return tree

    # ---------------------------------------------------------------- loops
    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        return self.loop_over(s, it, st)

    def loop_over(self, s, it, st):
        it = self.res(it, st)
        seqs = self.iter_parts(it, st, s)
        tree, cur = HOLE, st
        broke = []
        for kind, payload in seqs:
            if cur is None:
                break
            if kind == "static":
                for v in payload:
                    if cur is None:
                        break
                    self.assign(s.target, v(cur) if callable(v) else v, cur)
                    o = self.exec_block(s.body, cur)
                    t, n = self.loop_step(o)
                    tree = self.fill(tree, t)
                    cur = n
            else:
                iv, dim, elem, cond = payload
                o = self.sym_loop(s, cur, iv, dim, elem, cond)
                tree = self.fill(tree, o.tree)
                cur = o.normal
        # breaks become fall-through
        o = self.unbreak(tree, cur)
        if s.orelse and o.normal is not None:
            e = self.exec_block(s.orelse, o.normal)
            o = Outcome(self.fill(o.tree, e.tree), e.normal)
        return o

    def loop_step(self, o):
        """continue leaves of one iteration join the fall-through"""
        if all(l is HOLE or l.kind != "continue" for l in tree_leaves(o.tree)):
            return o.tree, o.normal
        r = self.collapse(o.tree, o.normal, ("continue",), None)
        t = tree_map(o.tree, lambda l: HOLE if (l is not HOLE and l.kind == "continue") else l)
        return self.tidy(t), (r[1] if r else None)

    def unbreak(self, tree, cur):
        if all(l is HOLE or l.kind != "break" for l in tree_leaves(tree)):
            return Outcome(tree, cur)
        r = self.collapse(tree, cur, ("break",), None)
        t = tree_map(tree, lambda l: HOLE if (l is not HOLE and l.kind == "break") else l)
        return Outcome(self.tidy(t), r[1] if r else None)

    def tidy(self, t):
        if isinstance(t, Gate):
            a, b = self.tidy(t.a), self.tidy(t.b)
            if a is HOLE and b is HOLE:
                return HOLE
            return Gate(t.c, a, b)
        return t

    def s_While(self, s, st):
        """iterations whose condition is decided are executed; the rest is not summarised"""
        tree, cur = HOLE, st
        for _ in range(40):
            if cur is None or len(list(tree_leaves(tree))) > 24:
                break
            ev0, er0 = len(self.events), len(self.errors)
            c = self.cond(s.test, cur.fork())
            del self.events[ev0:]
            del self.errors[er0:]
            if c is FALSE:
                self.cond(s.test, cur)
                return self.while_end(s, tree, cur)
            if c is not TRUE:
                break
            self.cond(s.test, cur)
            o = self.exec_block(s.body, cur)
            t, cur = self.loop_step(o)
            tree = self.fill(tree, t)
        if cur is None:
            return self.unbreak(tree, None)
        o = self.opaque_loop(s, cur, None)
        return self.while_end(s, self.fill(tree, o.tree), o.normal)

    def while_end(self, s, tree, cur):
        o = self.unbreak(tree, cur)
        if s.orelse and o.normal is not None:
            e = self.exec_block(s.orelse, o.normal)
            o = Outcome(self.fill(o.tree, e.tree), e.normal)
        return o

    # -- symbolic loop
    def sym_loop(self, s, st, iv, dim, elem, cond):
        dim = num(dim)
        if cond is not TRUE and cond is not None:
            # filtered comprehension element: the body runs under cond
            pass
        entry = st
        mod_env, mod_heap = set(), {}
        for attempt in range(6):
            b = entry.fork()
            mus = {}
            for k in mod_env:
                mus[("env", k)] = self.make_mu(k, entry.env.get(k, UNDEF), iv, b)
                b.env[k] = mus[("env", k)]
            for hid, sub in mod_heap.items():
                b.heap[hid] = self.mu_obj(entry.heap.get(hid), sub, iv, mus, hid)
            ev0 = len(self.events)
            rec = len(self.loops)
            self.loopstack.append((iv, dim))
            add_fact(b.facts, lt(iv, dim), True)
            b0 = b.fork()
            c0 = cond if cond is not None else TRUE
            bb = b
            if c0 is not TRUE:
                add_fact(bb.facts, c0, True)
            try:
                self.assign(s.target, elem(bb, iv), bb)
                o = self.exec_block(s.body, bb)
            finally:
                self.loopstack.pop()
            t, n = self.loop_step(o)
            if n is not None and c0 is not TRUE:
                n = self.merge_states(c0, n, b0)
            if n is None:
                break
            me, mh = self.diff(b0, n, entry)
            new = False
            for k in me:
                if k not in mod_env and (k in entry.env):
                    mod_env.add(k)
                    new = True
            for hid, sub in mh.items():
                if sub - mod_heap.get(hid, set()):
                    mod_heap.setdefault(hid, set()).update(sub)
                    new = True
            if not new:
                break
            del self.events[ev0:]
            del self.loops[rec:]
        else:
            return self.opaque_loop(s, entry, iv)
        leaves = [l for l in tree_leaves(t) if l is not HOLE]
        abrupt = [l for l in leaves if l.kind in ("return", "break")]
        if n is None:
            # every iteration leaves the loop: the first one decides
            if c0 is TRUE:
                del self.events[ev0:]
                b, some = entry.fork(), lt(ZERO, dim)
                self.assign(s.target, elem(b, ZERO), b)
                o = self.exec_block(s.body, b)
                t, n = self.loop_step(o)
                if n is None:
                    if simp(some, entry.facts) is TRUE:
                        return Outcome(t, None)
                    return self.branch(some, Outcome(t, None), Outcome(HOLE, entry.fork()))
            return self.opaque_loop(s, entry, iv, dim, elem)
        if abrupt:
            r = self.search_loop(s, entry, iv, dim, t, n, mus, mod_env, mod_heap)
            if r is not None:
                return r
            return self.opaque_loop(s, entry, iv, dim, elem)
        out = entry
        # names defined only in the body keep their last value
        mapping = {}
        for k in mod_env:
            out_v = self.close_loop(entry.env.get(k, UNDEF), mus[("env", k)], n.env.get(k, UNDEF), iv, dim, n, entry, mus, s)
            mapping[k] = out_v
        for k, v in n.env.items():
            if k not in entry.env:
                mapping[k] = self.last_value(v, iv, dim, n, mus, s)
        heap_new = {}
        for hid, sub in mod_heap.items():
            heap_new[hid] = self.close_obj(entry.heap.get(hid), n.heap.get(hid), hid, sub, iv, dim, n, entry, mus, s)
        for hid, o_ in n.heap.items():
            if hid not in entry.heap:
                out.heap[hid] = o_
        out.heap.update(heap_new)
        out.env.update(mapping)
        self.loops.append(dict(kind="for", node=s, func=self.cur(), iv=iv, dim=dim, mus=mus, next=n, entry=entry))
        return Outcome(HOLE, out)

    def make_mu(self, name, v, iv, st):
        if isinstance(v, T):
            return mk("mu", name, iv)
        if isinstance(v, Ref) and isinstance(st.heap.get(v.id), Arr):
            o = st.heap[v.id]
            ivs = tuple(IV() for _ in o.dims)
            return st.new(Arr(ivs, o.dims, mk("mu", name, iv, *ivs), o.dt))
        if isinstance(v, VTuple):
            return VTuple([self.make_mu("%s.%d" % (name, k), x, iv, st) for k, x in enumerate(v.items)])
        return Unk(mk("mu", name, iv))

    def mu_obj(self, o, sub, iv, mus, hid):
        if isinstance(o, Arr):
            ivs = tuple(IV() for _ in o.dims)
            m = Arr(ivs, o.dims, mk("mu", "h%d" % hid, iv, *ivs), o.dt, o.base, o.src)
            mus[("heap", hid)] = m
            return m
        if isinstance(o, VList):
            m = VList([("mu", hid, iv)])
            mus[("heap", hid)] = m
            return m
        if isinstance(o, VObj):
            at = dict(o.attrs)
            for k in sub:
                v = o.attrs.get(k, UNDEF)
                if isinstance(v, T):
                    at[k] = mk("mu", "h%d.%s" % (hid, k), iv)
                else:
                    at[k] = Unk(mk("mu", "h%d.%s" % (hid, k), iv))
                mus[("heap", hid, k)] = at[k]
            return VObj(o.cls, at, o.hooks, o.name)
        if isinstance(o, VSet):
            return VSet(None, ("mu", hid))
        if isinstance(o, VDict):
            return VDict([])
        return o

    def diff(self, a, b, entry):
        me = {k for k in b.env if k in a.env and not same(a.env[k], b.env[k])}
        mh = {}
        for hid, o in b.heap.items():
            p = a.heap.get(hid)
            if p is None or p is o:
                continue
            if hid not in entry.heap:
                continue
            if isinstance(o, VObj) and isinstance(p, VObj):
                ks = {k for k in set(o.attrs) | set(p.attrs) if not same(o.attrs.get(k, UNDEF), p.attrs.get(k, UNDEF))}
                if ks:
                    mh[hid] = ks
            else:
                mh[hid] = {"*"}
        return me, mh

    @staticmethod
    def has_mu(t, iv=None):
        if isinstance(t, T):
            return any(x.op == "mu" and (iv is None or x.args[1] is iv) for x in walk(t))
        return False

    def mentions_mu(self, v, st, iv):
        if isinstance(v, T):
            return self.has_mu(v, iv)
        if isinstance(v, Unk):
            return self.has_mu(v.t, iv)
        if isinstance(v, VTuple):
            return any(self.mentions_mu(x, st, iv) for x in v.items)
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if isinstance(o, Arr):
                return self.has_mu(o.body, iv)
            if isinstance(o, VList):
                return any(s[0] == "mu" or self.mentions_mu(s[-1], st, iv) for s in o.segs)
            return False
        if isinstance(v, Phi):
            return self.has_mu(v.c, iv) or self.mentions_mu(v.a, st, iv) or self.mentions_mu(v.b, st, iv)
        return False

    def last_value(self, v, iv, dim, st, mus, s):
        if isinstance(v, T):
            if self.has_mu(v, iv):
                self.opq_n += 1
                return opq("loopvar", K(self.opq_n))
            return tsubst(v, {iv: sub(dim, ONE)})
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if isinstance(o, Arr) and not self.has_mu(o.body, iv):
                m = {iv: sub(dim, ONE)}
                ivs = tuple(IV() for _ in o.dims)
                return st.new(Arr(ivs, [tsubst(d, m) for d in o.dims], tsubst(o.at(*ivs), m), o.dt))
        if isinstance(v, VTuple):
            return VTuple([self.last_value(x, iv, dim, st, mus, s) for x in v.items])
        return self.fresh_unk("loopvar")

    def close_loop(self, v0, mu, v1, iv, dim, st, entry, mus, s):
        """value after the loop"""
        if isinstance(v0, T) and isinstance(v1, T) and isinstance(mu, T):
            return self.close_scalar(v0, mu, v1, iv, dim, mus, entry)
        if isinstance(v1, Ref) and isinstance(mu, Ref):
            o0, om, o1 = entry.heap.get(v0.id), st.heap.get(mu.id), st.heap.get(v1.id)
            if isinstance(o0, Arr) and isinstance(o1, Arr) and isinstance(om, Arr) and o1.rank == om.rank:
                ivs = tuple(IV() for _ in o0.dims)
                b = self.close_scalar(o0.at(*ivs), om.at(*ivs), o1.at(*ivs), iv, dim, mus, entry)
                return entry.new(Arr(ivs, o0.dims, b, o0.dt))
        if isinstance(v1, VTuple) and isinstance(v0, VTuple) and isinstance(mu, VTuple) and \
                len(v1.items) == len(v0.items):
            return VTuple([self.close_loop(a, m, b, iv, dim, st, entry, mus, s)
                           for a, m, b in zip(v0.items, mu.items, v1.items)])
        if not self.mentions_mu(v1, st, iv) and isinstance(v1, (Ref, VTuple)):
            # value of the last iteration, or the value before when there is none
            lv = self.last_value(v1, iv, dim, st, mus, s)
            for k, o in st.heap.items():
                entry.heap.setdefault(k, o)
            c = simp(lt(ZERO, dim), entry.facts)
            if c is TRUE or v0 is UNDEF:
                return lv
            return self.merge_val(c, lv, v0, entry.heap)
        return self.fresh_unk("loop")

    def close_scalar(self, v0, mu, v1, iv, dim, mus, entry):
        if v1 is mu:
            return v0
        r = self.running(v0, mu, v1, iv, dim)
        if r is not None:
            return r
        # accumulations under gates
        d = self.increment(mu, v1)
        if d is not None and not self.has_mu(d, iv):
            return add(v0, self.summ(dim, lambda k: tsubst(d, {iv: k})))
        r = self.scatter(v0, mu, v1, iv, dim)
        if r is None:
            r = self.pointwise(v0, mu, v1, iv, dim)
        if r is not None:
            return r
        m = self.factor(mu, v1)
        if m is not None and not self.has_mu(m, iv):
            return mul(v0, mk("red", "prod", iv, dim, m))
        if not self.has_mu(v1, iv):
            lv = tsubst(v1, {iv: sub(dim, ONE)})
            return ite(simp(lt(ZERO, dim), entry.facts), lv, v0)
        # conditional last write: mu' = c ? val : mu
        if v1.op == "if" and (v1.args[1] is mu or v1.args[2] is mu):
            c, val = (v1.args[0], v1.args[1]) if v1.args[2] is mu else (NOT(v1.args[0]), v1.args[2])
            if not self.has_mu(c, iv) and not self.has_mu(val, iv):
                return mk("lastw", iv, dim, (ite(c, ONE, ZERO),), (ONE,), num(val), num(v0))
        self.opq_n += 1
        return opq("loop", K(self.opq_n))

    def increment(self, mu, v):
        """d with v == mu + d, through gates; None when not of that shape"""
        if v is mu:
            return ZERO
        if v.op == "add":
            if sum(1 for x in v.args if x is mu) == 1:
                rest = [x for x in v.args if x is not mu]
                return add(*rest)
            gates = [x for x in v.args if x.op == "if" and self.refers(x, mu)]
            if len(gates) == 1:
                d = self.increment(mu, gates[0])
                if d is not None:
                    return add(d, *[x for x in v.args if x is not gates[0]])
            return None
        if v.op == "if":
            a, b = self.increment(mu, v.args[1]), self.increment(mu, v.args[2])
            if a is None or b is None:
                return None
            return ite(v.args[0], num(a), num(b))
        return None

    def factor(self, mu, v):
        if v is mu:
            return ONE
        if v.op == "mul" and sum(1 for x in v.args if x is mu) == 1:
            return mul(*[x for x in v.args if x is not mu])
        if v.op == "if":
            a, b = self.factor(mu, v.args[1]), self.factor(mu, v.args[2])
            if a is None or b is None:
                return None
            return ite(v.args[0], a, b)
        return None

    @staticmethod
    def refers(t, x):
        return any(y is x for y in walk(t))

    def scatter(self, v0, mu, v1, iv, dim):
        """array cell written at computed positions: v1 = (idx == p(iv)) ? val : mu, nested"""
        writes = []
        v = v1
        while v.op == "if":
            if v.args[2] is mu or (v.args[2].op == "if"):
                writes.append((v.args[0], v.args[1]))
                v = v.args[2]
            else:
                return None
        if v is not mu or not writes:
            return None
        name_iv = mu
        res = None
        if len(writes) != 1:
            return None
        c, val = writes[0]
        if self.has_mu(c, iv):
            return None
        cell = mu
        # read-modify-write at the same cell
        conj = list(c.args) if c.op == "and" else [c]
        idxs, targets, rest = [], [], []
        for x in conj:
            if x.op == "eq" and (self.refers(x.args[0], iv) != self.refers(x.args[1], iv)):
                p, q = x.args if self.refers(x.args[0], iv) else x.args[::-1]
                idxs.append(p)
                targets.append(q)
            elif not self.refers(x, iv):
                rest.append(x)
            else:
                idxs.append(ite(x, ONE, ZERO))
                targets.append(ONE)
        if not idxs:
            return None
        if self.has_mu(val, iv):
            return None
        # position is the loop index itself: injective
        for k, p in enumerate(idxs):
            if p is iv:
                m = {iv: targets[k]}
                cc = AND(*[eq(tsubst(a, m), b) for j, (a, b) in enumerate(zip(idxs, targets)) if j != k])
                inside = self.inrange(targets[k], dim)
                return ite(AND(cc, inside, *rest), tsubst(val, m), v0)
        r = mk("lastw", iv, dim, tuple(num(x) for x in idxs), tuple(num(x) for x in targets), num(val), num(v0))
        return ite(AND(*rest), r, v0)

    def pointwise(self, v0, mu, v1, iv, dim):
        """iteration k touches the cells at position k only: each cell is the body run once on it"""
        if mu.op != "mu":
            return None
        for c in mu.args[2:]:
            if not isinstance(c, T) or c.op != "iv" or c is iv:
                continue
            facts = {}
            add_fact(facts, eq(iv, c), False)
            add_fact(facts, eq(c, iv), False)
            if assume(v1, facts) is not mu:
                continue
            r = tsubst(v1, {iv: c})
            r = tsubst(r, {tsubst(mu, {iv: c}): v0})
            if self.has_mu(r, c) or self.has_mu(r, iv):
                return None
            return ite(self.inrange(c, dim), r, v0)
        return None

    def inrange(self, i, dim):
        """0 <= i < dim: array indices are in range of their own axis"""
        if i.op == "iv":
            d = self.ivdim.get(i)
            if d is not None and self.dims_equal(d, dim):
                return TRUE
        if i.op == "iv":
            return TRUE if i not in self.ivdim else lt(i, dim)
        return lt(i, dim)

    ivdim = {}

    def running(self, v0, mu, v1, iv, dim):
        if v1.op != "if":
            if v1.op == "fn" and v1.args[0] in ("maximum", "minimum") and mu in v1.args[1:]:
                o = [x for x in v1.args[1:] if x is not mu]
                if len(o) == 1 and not self.has_mu(o[0], iv):
                    k = "max" if v1.args[0] == "maximum" else "min"
                    return self.extreme(k, v0, mk("red", k, iv, dim, o[0]))
            return None
        c, a, b = v1.args
        if c.op != "lt":
            return None
        x, y = c.args
        for e, keep, new in ((b, b, a), (a, a, b)):
            if keep is mu and not self.has_mu(new, iv):
                # if (mu < e) mu = e
                val = new
                if x is mu and y is val:
                    k = "max" if keep is b else "min"
                elif y is mu and x is val:
                    k = "min" if keep is b else "max"
                else:
                    continue
                return self.extreme(k, v0, mk("red", k, iv, dim, val))
        return None

    def extreme(self, k, v0, r):
        if (k == "max" and v0 is NINF) or (k == "min" and v0 is INF):
            return r
        return fn("maximum" if k == "max" else "minimum", v0, r)

    def close_obj(self, o0, o1, hid, sub, iv, dim, st, entry, mus, s):
        if isinstance(o0, Arr) and isinstance(o1, Arr) and o0.rank == o1.rank:
            ivs = tuple(IV() for _ in o0.dims)
            for k, d in zip(ivs, o0.dims):
                self.ivdim[k] = d
            m = mus[("heap", hid)]
            b = self.close_scalar(o0.at(*ivs), m.at(*ivs), o1.at(*ivs), iv, dim, mus, entry)
            return Arr(ivs, o0.dims, b, o0.dt, o0.base, o0.src)
        if isinstance(o0, VList) and isinstance(o1, VList):
            segs = self.close_list(o0, o1, hid, iv, dim)
            if segs is not None:
                return VList(segs)
            return self.opaque_like(o0, "loop")
        if isinstance(o0, VObj) and isinstance(o1, VObj):
            at = dict(o0.attrs)
            for k in sub:
                mu = mus.get(("heap", hid, k))
                at[k] = self.close_loop(o0.attrs.get(k, UNDEF), mu, o1.attrs.get(k, UNDEF), iv, dim, st, entry, mus, s)
            return VObj(o0.cls, at, o0.hooks, o0.name)
        return self.opaque_like(o0, "loop") if o0 is not None else o1

    def close_list(self, o0, o1, hid, iv, dim):
        segs = list(o1.segs)
        if not segs or segs[0][0] != "mu":
            return None
        new = segs[1:]
        if len(new) == 0:
            return list(o0.segs)
        if any(s[0] == "mu" for s in new):
            return None
        if len(new) == 1 and new[0][0] == "item" and not self.value_has_mu(new[0][1], iv):
            return list(o0.segs) + [("comp", iv, dim, TRUE, new[0][1])]
        if len(new) == 1 and new[0][0] == "comp" and new[0][2] is ONE and not self.has_mu(new[0][3], iv) \
                and not self.value_has_mu(new[0][4], iv):
            return list(o0.segs) + [("comp", iv, dim, new[0][3], new[0][4])]
        # several items per iteration
        flat = []
        for s in new:
            if s[0] == "item":
                flat.append(("item", s[1]))
            else:
                flat.append(s)
        if any(self.value_has_mu(s[-1], iv) for s in flat):
            return None
        return list(o0.segs) + [("block", iv, dim, TRUE, tuple(flat))]

    def value_has_mu(self, v, iv):
        if isinstance(v, T):
            return self.has_mu(v, iv)
        if isinstance(v, Unk):
            return self.has_mu(v.t, iv)
        if isinstance(v, VTuple):
            return any(self.value_has_mu(x, iv) for x in v.items)
        return False

    def search_loop(self, s, entry, iv, dim, t, n, mus, mod_env, mod_heap):
        """loop that leaves early with a value that does not depend on the iteration"""
        if mod_env or mod_heap:
            return None
        if isinstance(t, Gate):
            conds = self.path_conds(t)
            rets = [(c, l) for c, l in conds if l is not HOLE and l.kind == "return"]
            others = [l for c, l in conds if l is not HOLE and l.kind == "break"]
            if others or not rets:
                return None
            v = rets[0][1].value
            if not all(same(v, l.value) for _, l in rets) or not isinstance(v, T) or self.refers(v, iv):
                return None
            c = OR(*[c for c, _ in rets])
            if self.has_mu(c):
                return None
            q = mk("red", "any", iv, dim, ite(c, ONE, ZERO))
            q = eq(q, ONE)
            st2 = entry.fork()
            return Outcome(Gate(q, Leaf("return", v, st2), HOLE), entry)
        return None

    def path_conds(self, t, c=TRUE):
        if isinstance(t, Gate):
            return self.path_conds(t.a, AND(c, t.c)) + self.path_conds(t.b, AND(c, NOT(t.c)))
        return [(c, t)]

    def opaque_loop(self, s, st, iv, dim=None, elem=None):
        """loop whose effect is not summarised: what it modifies becomes opaque; the body is recorded"""
        entry = st
        mod_env, mod_heap = set(), {}
        iv = IV("it")
        n, t = None, HOLE
        for attempt in range(8):
            b = entry.fork()
            mus = {}
            for k in mod_env:
                mus[("env", k)] = self.make_mu(k, entry.env.get(k, UNDEF), iv, b)
                b.env[k] = mus[("env", k)]
            for hid, sub_ in mod_heap.items():
                b.heap[hid] = self.mu_obj(entry.heap.get(hid), sub_, iv, mus, hid)
            ev0, rec = len(self.events), len(self.loops)
            self.loopstack.append((iv, None))
            try:
                cnd = TRUE
                if isinstance(s, ast.While):
                    cnd = self.cond(s.test, b)
                    add_fact(b.facts, cnd, True)
                elif elem is not None:
                    self.assign(s.target, elem(b, iv), b)
                else:
                    self.assign(s.target, self.fresh_unk("elem"), b)
                b0 = b.fork()
                o = self.exec_block(s.body, b)
            finally:
                self.loopstack.pop()
            t, n = self.loop_step(o)
            leafs = [l.state for l in tree_leaves(t) if l is not HOLE and l.kind in ("break", "return")]
            new = False
            for stt in ([n] if n is not None else []) + leafs:
                me, mh = self.diff(b0, stt, entry)
                for k in me:
                    if k not in mod_env and k in entry.env:
                        mod_env.add(k)
                        new = True
                for hid, sub_ in mh.items():
                    if sub_ - mod_heap.get(hid, set()):
                        mod_heap.setdefault(hid, set()).update(sub_)
                        new = True
            if not new:
                break
            del self.events[ev0:]
            del self.loops[rec:]
        self.loops.append(dict(kind="while" if isinstance(s, ast.While) else "for", node=s, func=self.cur(), iv=iv,
                               dim=dim, mus=mus, next=n, entry=entry.fork(), cond=cnd, tree=t, start=b0))
        out = entry
        for k in mod_env:
            out.env[k] = self.opaque_val(entry.env.get(k, UNDEF), entry, "loop:" + k)
        srcs = ([n] if n is not None else []) + leafs
        for stt in srcs:
            for k in stt.env:
                if k not in out.env:
                    out.env[k] = self.opaque_val(stt.env[k], stt, "loop:" + k)
            for hid, o_ in stt.heap.items():
                if hid not in out.heap:
                    out.heap[hid] = o_
        for hid, sub_ in mod_heap.items():
            o0 = entry.heap.get(hid)
            if isinstance(o0, VObj):
                at = dict(o0.attrs)
                for k in sub_:
                    at[k] = self.opaque_val(at.get(k, UNDEF), entry, "loop:" + k)
                out.heap[hid] = VObj(o0.cls, at, o0.hooks, o0.name)
            else:
                out.heap[hid] = self.opaque_like(o0, "loop")
        rets = [l for l in tree_leaves(t) if l is not HOLE and l.kind == "return"]
        if rets:
            self.opq_n += 1
            c = S("ret@%d" % self.opq_n, False, "bool")
            v = self.opaque_val(rets[0].value, rets[0].state, "loopret")
            return Outcome(Gate(c, Leaf("return", v, out.fork()), HOLE), out)
        return Outcome(HOLE, out)

    def opaque_val(self, v, st, tag):
        self.opq_n += 1
        if isinstance(v, T):
            return opq(tag, K(self.opq_n))
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if isinstance(o, Arr):
                r = Ref()
                st.heap[r.id] = self.opaque_like(o, tag)
                return r
        if isinstance(v, VTuple):
            return VTuple([self.opaque_val(x, st, tag) for x in v.items])
        return Unk(opq(tag, K(self.opq_n)))

    # ---------------------------------------------------------------- iteration
    def iter_parts(self, it, st, node):
        """list of ('static', [values]) / ('sym', (iv, dim, elem(st, iv), cond))"""
        o = st.get(it)
        if isinstance(it, VTuple):
            return [("static", list(it.items))]
        if isinstance(o, VList):
            out = []
            for s in o.segs:
                if s[0] == "item":
                    out.append(("static", [s[1]]))
                elif s[0] == "comp":
                    iv = IV()
                    out.append(("sym", (iv, s[2], (lambda s: lambda q, k: self.subst_value(s[4], {s[1]: k}, q))(s),
                                        tsubst(s[3], {s[1]: iv}))))
                else:
                    out.append(("sym", (IV(), S("len#%d" % id(s), False, "dim"),
                                        lambda q, k: self.fresh_unk("elem"), TRUE)))
            return out
        if isinstance(o, VDict):
            return [("static", [k for k, v in o.items])]
        if isinstance(o, VSet) and o.items is not None:
            return [("static", list(o.items))]
        if isinstance(it, VIter) and it.kind in ("items", "values"):
            d = st.get(it.parts[0])
            if isinstance(d, VDict):
                return [("static", [VTuple(kv) if it.kind == "items" else kv[1] for kv in d.items])]
        if isinstance(it, VIter) and it.kind == "reversed":
            parts = self.iter_parts(it.parts[0], st, node)
            if all(k == "static" for k, _ in parts):
                return [("static", [v for _, p in parts for v in p][::-1])]
            dim, elem = self.seq_of(it.parts[0], st)
            iv = IV()
            return [("sym", (iv, dim, lambda q, k: elem(q, sub(sub(dim, ONE), k)), TRUE))]
        if isinstance(it, VIter) and it.kind in ("enumerate", "zip"):
            parts = [self.iter_parts(p, st, node) for p in it.parts]
            if all(all(k == "static" for k, _ in p) for p in parts):
                lists = [[v for _, pl in p for v in pl] for p in parts]
                n = min(len(x) for x in lists)
                if it.kind == "enumerate":
                    return [("static", [(lambda i, v: lambda q: VTuple((C(i), force(v, q))))(i, v) for i, v in enumerate(lists[0])])]
                return [("static", [(lambda vs: lambda q: VTuple([force(v, q) for v in vs]))([x[i] for x in lists]) for i in range(n)])]
            if it.kind == "enumerate" and len(parts[0]) > 1:
                out, off = [], ZERO
                for kind, pl in parts[0]:
                    if kind == "static":
                        out.append(("static", [(lambda i, v: lambda q: VTuple((i, force(v, q))))(add(off, C(i)), v) for i, v in enumerate(pl)]))
                        off = add(off, C(len(pl)))
                    else:
                        iv, dim, elem, cond = pl
                        if cond is not TRUE:
                            return [("sym", (IV(), S("len#%d" % id(pl), False, "dim"),
                                             lambda q, k: VTuple((k, self.fresh_unk("elem"))), TRUE))]
                        out.append(("sym", (iv, dim, (lambda elem, off: lambda q, k: VTuple((add(off, k), elem(q, k))))(elem, off), cond)))
                        off = add(off, dim)
                return out
            seqs = [self.seq_of(p, st) for p in it.parts]
            iv = IV()
            dim = seqs[0][0]
            for d, _ in seqs[1:]:
                if isnum(d) and not isnum(dim):
                    dim = d
            if it.kind == "enumerate":
                el = seqs[0][1]
                return [("sym", (iv, dim, lambda q, k: VTuple((k, el(q, k))), TRUE))]
            return [("sym", (iv, dim, lambda q, k: VTuple([e(q, k) for _, e in seqs]), TRUE))]
        dim, elem = self.seq_of(it, st)
        if isnum(dim) and 0 <= dim.args[0] <= self.unroll:
            return [("static", [(lambda i: lambda q: elem(q, C(i)))(i) for i in range(int(dim.args[0]))])]
        return [("sym", (IV(), dim, elem, TRUE))]

    def seq_of(self, it, st):
        """(dim, elem(st, index))"""
        it = self.res(it, st)
        o = st.get(it)
        if isinstance(it, VRange):
            if it.c is ONE:
                return sub(it.b, it.a), lambda q, k: add(it.a, k)
            if it.c is C(-1):
                return sub(it.a, it.b), lambda q, k: sub(it.a, k)
            return fn("ceil", div(sub(it.b, it.a), it.c)), lambda q, k: add(it.a, mul(k, it.c))
        if isinstance(o, Arr) and o.rank >= 1:
            return o.dims[0], lambda q, k: self.getitem(it, k, q, None)
        if isinstance(o, VList) or isinstance(it, VTuple):
            d = self.length(it, st)
            return d, lambda q, k: self.getitem(it, k, q, None)
        if isinstance(it, VIter):
            if it.kind == "enumerate":
                d, e = self.seq_of(it.parts[0], st)
                return d, lambda q, k: VTuple((k, e(q, k)))
            if it.kind == "zip":
                ss = [self.seq_of(p, st) for p in it.parts]
                return ss[0][0], lambda q, k: VTuple([e(q, k) for _, e in ss])
        t = self.term_of(it, st)
        return S("len(%d)" % t.uid, False, "dim"), lambda q, k: Unk(opq("item", t, k))

    def subst_value(self, v, m, st):
        if isinstance(v, T):
            return tsubst(v, m)
        if isinstance(v, VTuple):
            return VTuple([self.subst_value(x, m, st) for x in v.items])
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if isinstance(o, Arr):
                ivs = tuple(IV() for _ in o.dims)
                return st.new(Arr(ivs, [tsubst(d, m) for d in o.dims], tsubst(o.at(*ivs), m), o.dt))
            if isinstance(o, VList) and o.static:
                return st.new(VList.of([self.subst_value(x, m, st) for x in o.items()]))
            return v
        if isinstance(v, Unk):
            return Unk(tsubst(v.t, m))
        if isinstance(v, Phi):
            return Phi(tsubst(v.c, m), self.subst_value(v.a, m, st), self.subst_value(v.b, m, st))
        return v

    # ---------------------------------------------------------------- assignment
    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            v = self.res(v, st)
            for k, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, self.fresh_unk("star"), st)
                    continue
                self.assign(e, self.unpack(v, k, n, st, t), st)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            self.setattr(b, t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            idx = self.ev_index(t.slice, st)
            self.store(b, idx, v, st, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)

    def unpack(self, v, k, n, st, node):
        if isinstance(v, Phi):
            return self.merge_val(v.c, self.unpack(v.a, k, n, st, node), self.unpack(v.b, k, n, st, node), st.heap)
        if isinstance(v, VTuple):
            if len(v.items) != n:
                return self.error(st, node, "unpack %d values into %d names" % (len(v.items), n))
            return v.items[k]
        return self.getitem(v, C(k), st, node)

    def setattr(self, b, attr, v, st, node):
        b = self.res(b, st)
        if isinstance(b, Phi):
            # weak update on both
            for side, c in ((b.a, b.c), (b.b, NOT(b.c))):
                old = self.getattr_raw(side, attr, st)
                self.setattr(side, attr, self.merge_val(c, v, old, st.heap) if old is not None else v, st, node)
            return
        o = st.get(b)
        if isinstance(o, VObj):
            at = dict(o.attrs)
            old = at.get(attr)
            at[attr] = v
            st.put(b, VObj(o.cls, at, o.hooks, o.name))
            self.event("setattr", st, node, obj=b, attr=attr, value=v, old=old)
        elif isinstance(b, Super):
            self.setattr(b.self_, attr, v, st, node)
        else:
            self.event("setattr", st, node, obj=b, attr=attr, value=v, old=None)

    def getattr_raw(self, b, attr, st):
        o = st.get(b)
        if isinstance(o, VObj):
            return o.attrs.get(attr)
        return None

    # ---------------------------------------------------------------- expressions
    def ev(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.fresh_unk("expr:" + type(e).__name__)
        return m(e, st)

    def cond(self, e, st):
        return self.truthy(self.ev(e, st), st)

    def truthy(self, v, st):
        v = self.res(v, st)
        if isinstance(v, T):
            return simp(truth(v), st.facts)
        if isinstance(v, Phi):
            return simp(ite(v.c, self.truthy(v.a, st), self.truthy(v.b, st)), st.facts)
        if isinstance(v, Unk):
            return simp(truth(v.t), st.facts)
        if isinstance(v, VTuple):
            return TRUE if v.items else FALSE
        o = st.get(v)
        if isinstance(o, VList):
            return simp(lt(ZERO, self.length(v, st)), st.facts)
        if isinstance(o, Arr):
            if o.rank == 0:
                return simp(truth(o.body), st.facts)
            return simp(truth(opq("truth", o.lam())), st.facts)
        if isinstance(o, VDict):
            return TRUE if o.items else FALSE
        if isinstance(o, VSet) and o.items is not None:
            return TRUE if o.items else FALSE
        if v is UNDEF:
            return FALSE
        if isinstance(o, VSet):
            return truth(opq("nonempty", K(repr(o.src))))
        return TRUE

    def e_Constant(self, e, st):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
            return K(v) if v is not None else NONE
        if isinstance(v, (int, float)):
            return C(v)
        if v is Ellipsis:
            return ELLIPSIS
        return self.fresh_unk("const")

    def e_JoinedStr(self, e, st):
        return self.fresh_unk("str")

    def e_Name(self, e, st):
        return self.name(e.id, st, e)

    def name(self, nm, st, node):
        if nm in st.env:
            v = self.res(st.env[nm], st)
            if v is UNDEF:
                return self.error(st, node, "name %r is not assigned" % nm)
            if isinstance(v, Phi) and (v.a is UNDEF or v.b is UNDEF):
                v = v.b if v.a is UNDEF else v.a      # the other side would raise
            return v
        f = self.cur()
        clo = st.env.get("$closure")
        if clo is not None and nm in clo:
            return clo[nm]
        if f is not None:
            return self.module_value(f.module, nm, node, st)
        return self.fresh_unk("name:" + nm)

    BUILTINS = {"len", "range", "enumerate", "zip", "abs", "min", "max", "sum", "int", "float", "str", "list", "tuple",
                "dict", "set", "isinstance", "hasattr", "super", "print", "type", "sorted", "reversed", "map", "filter",
                "any", "all", "bool", "round", "pow", "getattr", "setattr", "id", "object", "Exception", "ValueError",
                "TypeError", "NotImplementedError", "RuntimeError", "KeyError", "IndexError", "AttributeError",
                "ImportError", "callable", "iter", "next", "open", "repr", "slice", "frozenset", "issubclass", "divmod",
                "ArithmeticError", "ZeroDivisionError", "StopIteration", "AssertionError", "FloatingPointError", "vars",
                "property", "staticmethod", "classmethod", "hash", "input", "complex", "bytes", "BaseException", "OSError",
                "DeprecationWarning", "Warning", "UserWarning", "__name__", "__file__", "exit", "quit", "globals", "locals",
                "format", "chr", "ord", "LookupError", "OverflowError", "KeyboardInterrupt", "SystemExit", "ModuleNotFoundError", "RuntimeWarning", "NameError", "__import__", "dir", "eval", "exec", "breakpoint"}

    def module_value(self, m, nm, node=None, st=None):
        v = self.repo.lookup(m, nm)
        if isinstance(v, tuple) and v[0] == "assign":
            key = (v[2].name, nm)
            if key not in self.modcache:
                self.modcache[key] = Unk(opq("module", K(v[2].name + "." + nm)))
                if v[1] is not None:
                    fake = Func(ast.parse("def module_body(): pass").body[0], v[2])
                    self.stack.append(fake)
                    s2 = State({}, self.modheap, {})
                    try:
                        self.modcache[key] = self.ev(v[1], s2)
                    except (Limit, RecursionError):
                        pass
                    finally:
                        self.stack.pop()
            val = self.modcache[key]
            if isinstance(val, Ref) and st is not None and val.id not in st.heap:
                st.heap[val.id] = self.modheap.get(val.id)
            return val
        if v is None:
            if nm in self.BUILTINS:
                return Ext("builtins." + nm)
            if st is not None:
                return self.error(st, node, "name %r is not defined" % nm)
            return self.unk("name:" + nm)
        return v

    def e_Attribute(self, e, st):
        b = self.ev(e.value, st)
        return self.getattr(b, e.attr, st, e)

    def getattr(self, b, attr, st, node):
        b = self.res(b, st)
        if isinstance(b, Phi):
            if b.a is UNDEF:
                return self.getattr(b.b, attr, st, node)
            if b.b is UNDEF:
                return self.getattr(b.a, attr, st, node)
            return self.merge_val(b.c, self.getattr(b.a, attr, st, node), self.getattr(b.b, attr, st, node), st.heap)
        if isinstance(b, Ext):
            return self.ext_attr(b, attr)
        if isinstance(b, Module):
            return self.module_value(b, attr, node, st)
        if isinstance(b, Class):
            m = self.repo.method(b, attr)
            if m is not None:
                return m
            ca = self.repo.classattr(b, attr)
            if ca is not None:
                return self.class_attr_value(ca, st)
            if attr == "__name__":
                return K(b.name)
            return self.unk("clsattr", K(b.name), K(attr))
        if isinstance(b, Super):
            o = st.get(b.self_)
            m = self.repo.method(o.cls, attr, after=b.after) if isinstance(o, VObj) and o.cls else None
            if m is not None:
                return Bound(m, b.self_)
            if attr == "__init__":
                return Ext("builtins.object_init")
            return self.error(st, node, "super() has no %r" % attr)
        o = st.get(b)
        if isinstance(o, VObj):
            if attr in o.attrs:
                v = self.res(o.attrs[attr], st)
                if v is UNDEF:
                    return self.error(st, node, "attribute %r is not set" % attr)
                if isinstance(v, Phi) and (v.a is UNDEF or v.b is UNDEF):
                    v = v.b if v.a is UNDEF else v.a
                return v
            if attr in o.hooks:
                return BoundExt("hook:" + attr, b)
            if o.cls is not None:
                m = self.repo.method(o.cls, attr)
                if m is not None:
                    if m.prop:
                        return self.call_func(m, [b], {}, st, node)
                    if m.static:
                        return m
                    return Bound(m, b)
                ca = self.repo.classattr(o.cls, attr)
                if ca is not None:
                    return self.class_attr_value(ca, st)
                if attr == "__class__":
                    return o.cls
                if attr == "__dict__":
                    return self.fresh_unk("dict")
                if self.tries and self.tries[-1] == len(self.stack):
                    self.excs.append(K("AttributeError"))       # caught where it is raised
                    return self.fresh_unk("exception")
                return self.error(st, node, "%s object has no attribute %r" % (o.cls.name, attr))
            return self.unk("attr", K(str(o.name)), K(attr))
        if isinstance(o, (Arr, VList, VDict, VSet)) or isinstance(b, (T, VTuple)):
            return self.val_attr(b, o, attr, st, node)
        if isinstance(b, (Unk, BoundExt)):
            return BoundExt(attr, b)
        if isinstance(o, PhiObj):
            return self.fresh_unk("phiobj." + attr)
        return self.fresh_unk("attr:" + attr)

    def class_attr_value(self, ca, st):
        node, cls = ca
        fake = Func(ast.parse("def class_body(): pass").body[0], cls.module)
        self.stack.append(fake)
        try:
            return self.ev(node, st)
        finally:
            self.stack.pop()

    def e_Tuple(self, e, st):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                parts = self.iter_parts(v, st, e)
                if all(k == "static" for k, _ in parts):
                    out += [y(st) if callable(y) else y for _, p in parts for y in p]
                else:
                    return self.fresh_unk("startuple")
            else:
                out.append(self.ev(x, st))
        return VTuple(out)

    def e_List(self, e, st):
        segs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                s = self.list_segs(self.ev(x.value, st), st)
                if s is None:
                    return self.fresh_unk("list")
                segs += s
            else:
                segs.append(("item", self.ev(x, st)))
        return st.new(VList(segs))

    def e_Dict(self, e, st):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = st.get(self.ev(v, st))
                if isinstance(d, VDict):
                    items += list(d.items)
                continue
            kk = self.ev(k, st)
            items = [(a, b) for a, b in items if not same(a, kk)] + [(kk, self.ev(v, st))]
        return st.new(VDict(items))

    def e_Set(self, e, st):
        vs = [self.ev(x, st) for x in e.elts]
        d = self.mkset(vs, st)
        return st.new(d if d is not None else VSet(vs))

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return NOT(self.cond(e.operand, st))
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.USub):
            return self.map1(neg, v, st)
        if isinstance(e.op, ast.UAdd):
            return v
        return self.map1(lambda x: NOT(truth(x)) if self.isbool(x) else sub(C(-1), x), v, st)

    @staticmethod
    def isbool(t):
        return t in (TRUE, FALSE) or t.op in ("eq", "lt", "and", "or", "not") or (t.op == "s" and t.args[2] == "bool") \
            or (t.op == "if" and Interp.isbool(t.args[1]) and Interp.isbool(t.args[2]))

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        return self.binop(type(e.op).__name__, a, b, st, e)

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        vals, acc = [], None
        base = dict(st.facts)
        r = None
        conds = []
        for x in e.values:
            v = self.ev(x, st)
            c = self.truthy(v, st)
            conds.append(c)
            vals.append(v)
            if (isand and c is FALSE) or (not isand and c is TRUE):
                break
            add_fact(st.facts, c, isand)
        st.facts = base
        if all(isinstance(v, T) and self.isbool(v) for v in vals) or True:
            # value of and/or used as a condition almost everywhere
            if all(c in (TRUE, FALSE) for c in conds[:-1]) and not (isinstance(vals[-1], T) and self.isbool(vals[-1])):
                return vals[-1]         # which operand is the value is known
            if all(not (isinstance(v, T) and self.isbool(v)) for v in vals) and len(vals) == 2:
                c = conds[0]
                if c in (TRUE, FALSE):
                    return vals[1] if (c is TRUE) == isand else vals[0]
            return AND(*conds) if isand else OR(*conds)

    def e_Compare(self, e, st):
        left = self.ev(e.left, st)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st)
            out.append(self.compare(type(op).__name__, left, right, st, e))
            left = right
        if len(out) == 1:
            return out[0]
        return AND(*[self.truthy(x, st) for x in out])

    def compare(self, op, a, b, st, node):
        a, b = self.res(a, st), self.res(b, st)
        if op in ("Is", "IsNot"):
            r = self.is_(a, b, st)
            return r if op == "Is" else NOT(r)
        if op in ("In", "NotIn"):
            r = self.contains(b, a, st)
            return r if op == "In" else NOT(r)
        f = {"Eq": eq, "NotEq": lambda x, y: NOT(eq(x, y)), "Lt": lt, "LtE": le, "Gt": lambda x, y: lt(y, x),
             "GtE": lambda x, y: le(y, x)}[op]

        def g(x, y):
            if (x is NONE) != (y is NONE) and op in ("Eq", "NotEq"):
                other = y if x is NONE else x
                if other.op in ("c", "k", "add", "mul", "fn", "sum", "at", "s"):
                    return FALSE if op == "Eq" else TRUE
            return f(x, y)
        if isinstance(a, VTuple) and isinstance(b, VTuple) and op in ("Eq", "NotEq"):
            if len(a.items) != len(b.items):
                r = FALSE
            else:
                r = AND(*[self.truthy(self.compare("Eq", x, y, st, node), st) for x, y in zip(a.items, b.items)])
            return r if op == "Eq" else NOT(r)
        oa, ob = st.get(a), st.get(b)
        if isinstance(oa, VList) and not isinstance(ob, Arr) or isinstance(ob, VList) and not isinstance(oa, Arr):
            if isinstance(oa, VList) and isinstance(ob, VList) and oa.static and ob.static and op in ("Eq", "NotEq"):
                return self.compare(op, VTuple(oa.items()), VTuple(ob.items()), st, node)
            if op in ("Eq", "NotEq") and (isinstance(a, T) or isinstance(b, T)):
                return FALSE if op == "Eq" else TRUE
            return opq("cmp" + op, self.term_of(a, st), self.term_of(b, st))
        r = self.map2(g, a, b, st, node)
        if isinstance(r, Ref):
            o = st.get(r)
            o.dt = "b"
        elif isinstance(r, T):
            r = simp(r, st.facts) if r.op not in ("c",) else r
        return r

    def is_(self, a, b, st):
        if isinstance(a, Phi):
            return simp(ite(a.c, self.is_(a.a, b, st), self.is_(a.b, b, st)), st.facts)
        if isinstance(b, Phi):
            return simp(ite(b.c, self.is_(a, b.a, st), self.is_(a, b.b, st)), st.facts)
        if isinstance(a, T) and isinstance(b, T):
            if a is b:
                return TRUE
            for x, y in ((a, b), (b, a)):
                if y is NONE:
                    if x.op == "if":
                        return simp(ite(x.args[0], self.is_(x.args[1], y, st), self.is_(x.args[2], y, st)), st.facts)
                    if x.op in ("opq", "mu"):
                        return simp(mk("opq", "isnone", x), st.facts)
                    return FALSE
            return simp(eq(a, b), st.facts)
        if isinstance(a, Unk) or isinstance(b, Unk):
            u, o = (a, b) if isinstance(a, Unk) else (b, a)
            if o is NONE:
                return simp(mk("opq", "isnone", u.t), st.facts)
            return simp(mk("opq", "is", u.t, self.term_of(o, st)), st.facts)
        return TRUE if same(a, b) else FALSE

    def contains(self, c, x, st):
        o = st.get(c)
        items = None
        if isinstance(c, VTuple):
            items = c.items
        elif isinstance(o, VList) and o.static:
            items = o.items()
        elif isinstance(o, VDict):
            items = [k for k, _ in o.items]
        elif isinstance(o, VSet) and o.items is not None:
            items = o.items
        if items is not None:
            return simp(OR(*[self.truthy(self.compare("Eq", i, x, st, None), st) for i in items]), st.facts)
        if isinstance(c, T) and c.op == "k" and isinstance(x, T) and x.op == "k":
            return TRUE if str(x.args[0]) in str(c.args[0]) else FALSE
        if isinstance(o, Arr) and o.rank == 1 and isinstance(x, T):
            iv = IV()
            if isnum(o.dims[0]) and o.dims[0].args[0] <= 40:
                out = [eq(o.at(C(k)), x) for k in range(int(o.dims[0].args[0]))]
                if all(isnum(c) or c in (TRUE, FALSE) for c in out):
                    return TRUE if any(c is TRUE for c in out) else FALSE
            return eq(mk("red", "any", iv, o.dims[0], ite(eq(o.at(iv), x), ONE, ZERO)), ONE)
        return simp(truth(opq("in", self.term_of(x, st), self.term_of(c, st))), st.facts)

    def e_IfExp(self, e, st):
        c = self.cond(e.test, st)
        if c is TRUE:
            return self.ev(e.body, st)
        if c is FALSE:
            return self.ev(e.orelse, st)
        base = dict(st.facts)
        add_fact(st.facts, c, True)
        a = self.ev(e.body, st)
        st.facts = dict(base)
        add_fact(st.facts, c, False)
        b = self.ev(e.orelse, st)
        st.facts = base
        return self.merge_val(c, a, b, st.heap)

    def e_Lambda(self, e, st):
        return Closure(e, st.env, self.cur())

    def e_Subscript(self, e, st):
        b = self.ev(e.value, st)
        idx = self.ev_index(e.slice, st)
        return self.getitem(b, idx, st, e)

    def ev_index(self, s, st):
        return self.ev(s, st)

    def e_Slice(self, e, st):
        f = lambda x: self.ev(x, st) if x is not None else NONE
        return VSlice(f(e.lower), f(e.upper), f(e.step))

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st)
        return v

    def e_ListComp(self, e, st):
        return self.comp(e, e.elt, st, "list")

    def e_GeneratorExp(self, e, st):
        return self.comp(e, e.elt, st, "list")

    def e_SetComp(self, e, st):
        r = self.comp(e, e.elt, st, "list")
        o = st.get(r)
        if isinstance(o, VList) and o.static:
            d = self.mkset(list(o.items()), st)
            return st.new(d if d is not None else VSet(o.items()))
        return st.new(VSet(None, ("setcomp", id(e))))

    def e_DictComp(self, e, st):
        save = dict(st.env)
        out = []
        if len(e.generators) == 1:
            g = e.generators[0]
            parts = self.iter_parts(self.ev(g.iter, st), st, e)
            if all(k == "static" for k, _ in parts):
                for _, p in parts:
                    for v in p:
                        self.assign(g.target, v(st) if callable(v) else v, st)
                        cs = [self.cond(c, st) for c in g.ifs]
                        if any(c is FALSE for c in cs):
                            continue
                        out.append((self.ev(e.key, st), self.ev(e.value, st)))
                st.env = save
                return st.new(VDict(out))
        st.env = save
        return st.new(VDict([]))

    def comp(self, e, elt, st, kind):
        save = dict(st.env)
        segs = self.comp_gen(e.generators, 0, elt, st, TRUE)
        st.env = save
        if segs is None:
            return self.fresh_unk("comp")
        return st.new(VList(segs))

    def comp_gen(self, gens, i, elt, st, cond):
        if i == len(gens):
            v = self.ev(elt, st)
            if cond is TRUE:
                return [("item", v)]
            return [("comp", IV("c"), ONE, cond, v)]
        g = gens[i]
        it = self.ev(g.iter, st)
        out = []
        for kind, pl in self.iter_parts(it, st, g):
            if kind == "static":
                for v in pl:
                    self.assign(g.target, v(st) if callable(v) else v, st)
                    cs = AND(cond, *[self.cond(c, st) for c in g.ifs])
                    if cs is FALSE:
                        continue
                    base = dict(st.facts)
                    add_fact(st.facts, cs, True)
                    r = self.comp_gen(gens, i + 1, elt, st, cs)
                    st.facts = base
                    if r is None:
                        return None
                    out += r
            else:
                iv, dim, elem, c0 = pl
                base = dict(st.facts)
                self.loopstack.append((iv, dim))
                try:
                    self.assign(g.target, elem(st, iv), st)
                    cs = AND(cond, c0, *[self.cond(c, st) for c in g.ifs])
                    add_fact(st.facts, cs, True)
                    r = self.comp_gen(gens, i + 1, elt, st, cs)
                finally:
                    self.loopstack.pop()
                st.facts = base
                if r is None:
                    return None
                if len(r) == 1 and r[0][0] == "item":
                    out.append(("comp", iv, dim, TRUE, r[0][1]))
                elif len(r) == 1 and r[0][0] == "comp" and r[0][2] is ONE:
                    out.append(("comp", iv, dim, r[0][3], r[0][4]))
                else:
                    out.append(("block", iv, dim, TRUE, tuple(r)))
        return out

    # ---------------------------------------------------------------- calls
    def e_Call(self, e, st):
        # super() needs the syntactic class
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in st.env:
            f = self.cur()
            cls = f.cls if f else None
            slf = st.env.get(f.node.args.args[0].arg) if f and f.node.args.args else None
            if e.args:
                c = self.ev(e.args[0], st)
                if isinstance(c, Class):
                    cls = c
                if len(e.args) > 1:
                    slf = self.ev(e.args[1], st)
            return Super(cls, slf)
        fv = self.ev(e.func, st)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                parts = self.iter_parts(v, st, a)
                if all(k == "static" for k, _ in parts):
                    args += [y(st) if callable(y) else y for _, p in parts for y in p]
                else:
                    kwargs["*"] = v
            else:
                args.append(self.ev(a, st))
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                d = st.get(v)
                if isinstance(d, VDict):
                    for a, b in d.items:
                        if isinstance(a, T) and a.op == "k":
                            kwargs[a.args[0]] = b
                else:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = v
        return self.call(fv, args, kwargs, st, e)

    def call(self, fv, args, kwargs, st, node):
        fv = self.res(fv, st)
        if isinstance(fv, Phi):
            sa, sb = st.fork(), st.fork()
            add_fact(sa.facts, fv.c, True)
            add_fact(sb.facts, fv.c, False)
            va = self.call(fv.a, [self.res(a, sa) for a in args], {k: self.res(a, sa) for k, a in kwargs.items()}, sa, node)
            vb = self.call(fv.b, [self.res(a, sb) for a in args], {k: self.res(a, sb) for k, a in kwargs.items()}, sb, node)
            facts = st.facts
            v, s = self.join2(fv.c, (va, sa), (vb, sb))
            st.take(s)
            st.facts = facts
            return v
        if isinstance(fv, Func):
            return self.call_func(fv, args, kwargs, st, node)
        if isinstance(fv, Bound):
            return self.call_func(fv.func, [fv.self_] + list(args), kwargs, st, node)
        if isinstance(fv, Closure):
            return self.call_closure(fv, args, kwargs, st, node)
        if isinstance(fv, Class):
            return self.construct(fv, args, kwargs, st, node)
        if isinstance(fv, Ext):
            self.event("call", st, node, name=fv.name, args=args, kwargs=kwargs)
            h = self.exthooks.get(fv.name)
            if h is not None:
                return h(self, st, args, kwargs, node)
            return self.call_ext(fv.name, args, kwargs, st, node)
        if isinstance(fv, BoundExt):
            return self.call_boundext(fv, args, kwargs, st, node)
        if isinstance(fv, Super):
            return self.error(st, node, "'super' object is not callable")
        o = st.get(fv)
        if isinstance(o, VObj):
            if "__call__" in o.hooks:
                return o.hooks["__call__"](self, st, fv, args, kwargs, node)
            m = self.repo.method(o.cls, "__call__") if o.cls else None
            if m is not None:
                return self.call_func(m, [fv] + list(args), kwargs, st, node)
            if o.cls is not None:
                return self.error(st, node, "%s object is not callable" % o.cls.name)
        if isinstance(fv, Unk):
            self.event("callunk", st, node, fv=fv, args=args, kwargs=kwargs)
            return Unk(opq("call", fv.t, *[self.term_of(a, st) for a in args]))
        if isinstance(fv, T) and fv.op in ("c", "k"):
            return self.error(st, node, "%s is not callable" % show(fv))
        return self.fresh_unk("call")

    def call_boundext(self, fv, args, kwargs, st, node):
        b = fv.self_
        if fv.name.startswith("hook:"):
            o = st.get(b)
            return o.hooks[fv.name[5:]](self, st, b, args, kwargs, node)
        o = st.get(b)
        if isinstance(b, (Unk, BoundExt)):
            self.event("callunk", st, node, fv=fv, args=args, kwargs=kwargs)
            t = b.t if isinstance(b, Unk) else K(b.name)
            return Unk(opq("m:" + fv.name, t, *[self.term_of(a, st) for a in args]))
        return self.method_ext(b, o, fv.name, args, kwargs, st, node)

    def construct(self, cls, args, kwargs, st, node):
        r = st.new(VObj(cls, {}))
        self.event("new", st, node, cls=cls, args=args, kwargs=kwargs, ref=r)
        h = self.hooks.get(("new", cls.name))
        if h is not None:
            return h(self, st, r, args, kwargs, node)
        m = self.repo.method(cls, "__init__")
        if m is not None:
            self.call_func(m, [r] + list(args), kwargs, st, node)
        elif args:
            if not any(isinstance(b, Ext) for k in self.repo.mro(cls) for b in k.bases):
                self.error(st, node, "%s() takes no arguments" % cls.name)
        return r

    def bind(self, f, node, args, kwargs, st, callnode):
        a = node.args
        env = {}
        params = [p.arg for p in a.posonlyargs + a.args]
        if len(args) > len(params) and a.vararg is None:
            self.error(st, callnode, "%s takes %d arguments, %d given" % (f.qual if f else "lambda", len(params), len(args)))
            args = args[:len(params)]
        for p, v in zip(params, args):
            env[p] = v
        if a.vararg is not None:
            env[a.vararg.arg] = VTuple(args[len(params):])
        kwo = [p.arg for p in a.kwonlyargs]
        rest = {}
        unknown = "*" in kwargs or "**" in kwargs
        for k, v in kwargs.items():
            if k in ("*", "**"):
                continue
            if k in params or k in kwo:
                if k in env:
                    self.error(st, callnode, "%s got two values for %r" % (f.qual if f else "lambda", k))
                env[k] = v
            elif a.kwarg is None:
                self.error(st, callnode, "%s got an unexpected argument %r" % (f.qual if f else "lambda", k))
            else:
                rest[k] = v
        if a.kwarg is not None:
            env[a.kwarg.arg] = st.new(VDict([(K(k), v) for k, v in rest.items()]))
        defs = list(zip(params[len(params) - len(a.defaults):], a.defaults)) + \
            [(p, d) for p, d in zip(kwo, a.kw_defaults) if d is not None]
        for p, d in defs:
            if p not in env:
                env[p] = self.default(f, d, st)
        for p in params + kwo:
            if p not in env:
                if unknown:
                    env[p] = self.fresh_unk("arg")
                else:
                    env[p] = self.error(st, callnode, "%s misses argument %r" % (f.qual if f else "lambda", p))
        return env

    def default(self, f, d, st):
        if f is not None:
            self.stack.append(Func(f.node, f.module, None) if f.cls is not None else f)
        try:
            return self.ev(d, State({}, st.heap, st.facts))
        finally:
            if f is not None:
                self.stack.pop()

    def call_func(self, f, args, kwargs, st, node):
        h = self.hooks.get(f) or self.hooks.get(f.qual)
        self.event("callfn", st, node, func=f, args=args, kwargs=kwargs)
        if h is not None:
            return h(self, st, args, kwargs, node)
        if len(self.stack) > MAXDEPTH or sum(1 for x in self.stack if x is f) > 4:
            return self.fresh_unk("recursion:" + f.qual)
        if getattr(f.node, "decorator_list", None) and not (f.static or f.prop or f.clsmeth):
            for d in f.node.decorator_list:
                dn = ast.unparse(d)
                if "jit" not in dn:
                    self.event("decorated", st, node, func=f)
        env = self.bind(f, f.node, args, kwargs, st, node)
        return self.run(f, f.node.body, env, st, node)

    def call_closure(self, c, args, kwargs, st, node):
        env = self.bind(None, c.node, args, kwargs, st, node)
        clo = dict(c.env.get("$closure", {}))
        clo.update({k: v for k, v in c.env.items() if k != "$closure"})
        env["$closure"] = clo
        if isinstance(c.node, ast.Lambda):
            s2 = State(env, st.heap, st.facts)
            self.stack.append(c.func)
            try:
                return self.ev(c.node.body, s2)
            finally:
                self.stack.pop()
        if len(self.stack) > MAXDEPTH:
            return self.fresh_unk("recursion")
        return self.run(c.func, c.node.body, env, st, node)

    def run(self, f, body, env, st, node):
        s2 = State(env, dict(st.heap), dict(st.facts))
        self.stack.append(f)
        pre = len(self.excs)
        try:
            o = self.exec_block(body, s2)
        finally:
            self.stack.pop()
        del self.excs[pre:]
        r = self.collapse(o.tree, o.normal, ("return",), NONE)
        if r is None:
            # always raises
            ls = [l for l in tree_leaves(o.tree) if l is not HOLE and l.kind == "raise"]
            self.excs.append(ls[0].value if ls else K("Exception"))
            if ls:
                # what was written before the failure stays written
                x = self.collapse(o.tree, None, ("raise",), None)
                if x is not None:
                    st.heap = x[1].heap
            return self.unk("raised")
        v, s = r
        st.heap = s.heap
        # facts learned inside (arguments checked) survive
        keep = dict(st.facts)
        for k, b in s.facts.items():
            keep.setdefault(k, b)
        st.facts = keep
        return v

    # entry point for the rules
    def invoke(self, fv, args=(), kwargs=None, st=None, node=None):
        st = st or State()
        return self.call(fv, list(args), kwargs or {}, st, node)


class PhiObj:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b
