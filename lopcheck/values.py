"""Abstract values of the interpreter and the gated merge."""
import itertools
from .terms import *
from .repo import Func, Class, Ext, Module

_ids = itertools.count(1)


class Ref:
    __slots__ = ("id",)

    def __init__(self, i=None):
        self.id = next(_ids) if i is None else i

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(("ref", self.id))

    def __repr__(self):
        return "Ref%d" % self.id


class Arr:
    """array of symbolic shape: element at index ivs is the term body"""
    __slots__ = ("ivs", "dims", "body", "dt", "base", "src")

    def __init__(self, ivs, dims, body, dt=None, base=None, src=None):
        self.ivs, self.dims, self.body, self.dt, self.base, self.src = tuple(ivs), tuple(dims), body, dt, base, src

    @property
    def rank(self):
        return len(self.dims)

    def at(self, *idx):
        return tsubst(self.body, dict(zip(self.ivs, idx)))

    def lam(self):
        return mk("lam", self.ivs, self.dims, self.body)

    def __repr__(self):
        return "Arr<%s>(%s)" % (",".join(map(show, self.dims)), show(self.lam()))


class VTuple:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return "(%s)" % ", ".join(map(repr, self.items))

    def __eq__(self, o):
        return isinstance(o, VTuple) and len(o.items) == len(self.items) and all(same(a, b) for a, b in zip(self.items, o.items))

    def __hash__(self):
        return hash(len(self.items))


class VList:
    """list in the heap: segments ('item', v) or ('comp', iv, dim, cond, v)"""
    __slots__ = ("segs",)

    def __init__(self, segs):
        self.segs = tuple(segs)

    @staticmethod
    def of(items):
        return VList([("item", v) for v in items])

    @property
    def static(self):
        return all(s[0] == "item" for s in self.segs)

    def items(self):
        return [s[1] for s in self.segs]

    def __repr__(self):
        return "List" + repr(list(self.segs))


class VDict:
    __slots__ = ("items", "cls")

    def __init__(self, items=()):
        self.items = tuple(items)

    def __repr__(self):
        return "Dict" + repr(list(self.items))


class VSet:
    """set: known items (may be empty), or unknown content"""
    __slots__ = ("items", "src")

    def __init__(self, items=(), src=None):
        self.items, self.src = (tuple(items) if items is not None else None), src

    def __repr__(self):
        return "Set" + repr(self.items)


class VObj:
    __slots__ = ("cls", "attrs", "hooks", "name")

    def __init__(self, cls, attrs=None, hooks=None, name=None):
        self.cls, self.attrs, self.hooks, self.name = cls, dict(attrs or {}), hooks or {}, name

    def __repr__(self):
        return "Obj<%s>" % (self.cls.name if self.cls else self.name)


class Bound:
    __slots__ = ("func", "self_")

    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __eq__(self, o):
        return isinstance(o, Bound) and o.func is self.func and same(o.self_, self.self_)

    def __hash__(self):
        return hash(id(self.func))

    def __repr__(self):
        return "Bound(%r)" % (self.func,)


class BoundExt:
    __slots__ = ("name", "self_")

    def __init__(self, name, self_):
        self.name, self.self_ = name, self_

    def __repr__(self):
        return "BoundExt(%s, %r)" % (self.name, self.self_)


class Closure:
    __slots__ = ("node", "env", "func")

    def __init__(self, node, env, func):
        self.node, self.env, self.func = node, env, func


class Super:
    __slots__ = ("after", "self_")

    def __init__(self, after, self_):
        self.after, self.self_ = after, self_


class VSlice:
    __slots__ = ("a", "b", "c")

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class VRange:
    __slots__ = ("a", "b", "c")

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class VIter:
    """zip / enumerate / items of other iterables"""
    __slots__ = ("kind", "parts")

    def __init__(self, kind, parts):
        self.kind, self.parts = kind, parts


class Phi:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "Phi(%s, %r, %r)" % (show(self.c), self.a, self.b)


class Unk:
    """opaque value; identity is the identity of its term"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, Unk) and o.t is self.t

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return "Unk(%s)" % show(self.t, 10)


class _Undef:
    def __repr__(self):
        return "UNDEF"


UNDEF = _Undef()
ELLIPSIS = K("...")


def same(a, b):
    if a is b:
        return True
    if isinstance(a, T) or isinstance(b, T):
        return False
    if type(a) is not type(b):
        return False
    if isinstance(a, (Ref, VTuple, Unk, Ext, Bound)):
        return a == b
    if isinstance(a, Phi):
        return a.c is b.c and same(a.a, b.a) and same(a.b, b.b)
    if isinstance(a, Closure):
        return a.node is b.node and a.env is b.env
    if isinstance(a, BoundExt):
        return a.name == b.name and same(a.self_, b.self_)
    if isinstance(a, Super):
        return a.after is b.after and same(a.self_, b.self_)
    return False


class State:
    __slots__ = ("env", "heap", "facts")

    def __init__(self, env=None, heap=None, facts=None):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.facts = facts if facts is not None else {}

    def fork(self):
        return State(dict(self.env), dict(self.heap), dict(self.facts))

    def take(self, o):
        self.env, self.heap, self.facts = o.env, o.heap, o.facts

    def new(self, obj):
        r = Ref()
        self.heap[r.id] = obj
        return r

    def get(self, v):
        """dereference"""
        if isinstance(v, Ref):
            return self.heap.get(v.id)
        return v

    def put(self, ref, obj):
        self.heap[ref.id] = obj


def add_fact(facts, c, val):
    if c.op == "not":
        add_fact(facts, c.args[0], not val)
        return
    facts[c] = val
    if val and c.op == "and":
        for x in c.args:
            add_fact(facts, x, True)
    if not val and c.op == "or":
        for x in c.args:
            add_fact(facts, x, False)


def posterm(t):
    if t.op == "s":
        return t.args[1]
    if t.op == "c":
        return t.args[0] > 0
    if t.op in ("add", "mul"):
        return all(posterm(x) for x in t.args)
    return False


def nonneg(t):
    if t.op == "s":
        return t.args[1] or t.args[2] == "dim"
    if t.op == "c":
        return t.args[0] >= 0
    if t.op in ("add", "mul"):
        return all(nonneg(x) for x in t.args)
    if t.op == "iv":
        return True
    if t.op == "fn" and t.args[0] in ("abs", "exp"):
        return True
    return False


def simp(c, facts):
    """simplify a condition under the facts of the path"""
    if not isinstance(c, T):
        return c
    if c.op in ("k", "c"):
        return truth(c)
    v = facts.get(c)
    if v is not None:
        return TRUE if v else FALSE
    o, a = c.op, c.args
    if o == "not":
        return NOT(simp(a[0], facts))
    if o == "and":
        return AND(*[simp(x, facts) for x in a])
    if o == "or":
        return OR(*[simp(x, facts) for x in a])
    if o == "if":
        x = simp(a[0], facts)
        if x is TRUE:
            return simp(truth(a[1]), facts)
        if x is FALSE:
            return simp(truth(a[2]), facts)
        return ite(x, simp(truth(a[1]), facts), simp(truth(a[2]), facts))
    if o == "lt":
        if a[0].op == "c" and a[0].args[0] <= 0 and posterm(a[1]):
            return TRUE
        if a[1].op == "c" and a[1].args[0] <= 0 and nonneg(a[0]):
            return FALSE
        d = linconst(a[0], a[1])
        if d is not None:
            return TRUE if d > 0 else FALSE
    if o == "eq":
        for x, y in (a, a[::-1]):
            if x.op == "c" and x.args[0] <= 0 and posterm(y):
                return FALSE
            if x.op == "c" and x.args[0] < 0 and nonneg(y):
                return FALSE
        d = linconst(a[0], a[1])
        if d is not None:
            return TRUE if d == 0 else FALSE
    return c


def assume(t, facts):
    """a term with its gates decided by the facts"""
    m = {}
    for x in walk(t):
        if x.op == "if":
            c = simp(x.args[0], facts)
            if c is not x.args[0]:
                m[x.args[0]] = c
    return tsubst(t, m) if m else t


def linconst(a, b):
    """b - a when it is a number"""
    if a.op in ("add", "s", "iv", "c") and b.op in ("add", "s", "iv", "c"):
        d = {}
        c = F0
        for t, sg in ((b, 1), (a, -1)):
            for x in (t.args if t.op == "add" else (t,)):
                if x.op == "c":
                    c += sg * x.args[0]
                else:
                    d[x] = d.get(x, 0) + sg
        if all(v == 0 for v in d.values()):
            return c
    return None
