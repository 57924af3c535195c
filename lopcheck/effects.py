"""Ownership and in-place mutation analysis.

Every expression gets an alias value: `own` = origins whose memory it is (or is a part or view of), `inner` = origins its
elements are parts of. Origins: ("param", name), ("attr", path) for data held in self, ("default", func, param),
("global", module, name). Values created here have no origin. Calls of repository functions use summaries (fixpoint)."""
import ast
from .repo import *

EMPTY = (frozenset(), frozenset())

MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "add", "discard", "update", "setdefault",
            "popitem", "fill", "resize", "put", "itemset", "partition", "setfield", "setflags", "byteswap",
            "difference_update", "intersection_update", "symmetric_difference_update", "appendleft", "popleft"}
STORING = {"append", "extend", "insert", "add", "update", "setdefault", "appendleft"}
VIEW_METHODS = {"reshape", "ravel", "transpose", "squeeze", "swapaxes", "view", "diagonal", "T", "flat", "real", "imag",
                "values", "items", "get", "keys", "base"}
COPY_METHODS = {"copy", "astype", "flatten", "tolist"}
VIEW_FUNCS = {"numpy.asarray", "numpy.asanyarray", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.atleast_3d", "numpy.transpose",
              "numpy.reshape", "numpy.ravel", "numpy.squeeze", "numpy.swapaxes", "numpy.expand_dims", "numpy.moveaxis",
              "numpy.broadcast_to", "numpy.flip", "numpy.fliplr", "numpy.flipud", "numpy.split", "numpy.array_split",
              "numpy.hsplit", "numpy.vsplit", "numpy.ascontiguousarray", "numpy.real", "numpy.imag", "numpy.rollaxis",
              "numpy.diagonal", "numpy.nan_to_num_nocopy", "numpy.rot90"}
# external functions that write into an argument: name -> positions
WRITERS = {"numpy.fill_diagonal": (0,), "numpy.add.at": (0,), "numpy.subtract.at": (0,), "numpy.multiply.at": (0,),
           "numpy.put": (0,), "numpy.place": (0,), "numpy.copyto": (0,), "numpy.putmask": (0,), "numpy.put_along_axis": (0,),
           "numpy.random.shuffle": (0,), "random.shuffle": (0,), "heapq.heappush": (0,), "heapq.heapify": (0,),
           "heapq.heappop": (0,), "bisect.insort": (0,), "numpy.maximum.at": (0,), "numpy.minimum.at": (0,)}
SHALLOW = {"list", "tuple", "set", "frozenset", "sorted", "dict", "reversed", "enumerate", "zip", "copy.copy", "map", "filter", "iter",
           "itertools.combinations", "itertools.permutations", "itertools.product", "itertools.chain"}


def deep(o):
    """origin of an element"""
    if o[0] == "?":
        return maybe(deep(o[1:]))
    return ("attr", o[1] + "[]") if o[0] == "attr" and not o[1].endswith("[]") else o


def part(o, rest):
    """origin of the attribute `rest` of an object"""
    return (o[0], o[1] + "." + rest) if o[0] in ("param", "attr") and o[1].count(".") < 3 else o


def maybe(o):
    return o if o[0] == "?" else ("?",) + o


def join(a, b):
    return (a[0] | b[0], a[1] | b[1])


class Summary:
    def __init__(self):
        self.ret = EMPTY          # origins in terms of the function's own params/attrs
        self.mut = {}             # origin -> (where node, text)
        self.tup = None           # per-element return alias for literal tuples
        self.stores = {}          # attr -> origins stored there, with node

    def key(self):
        return (self.ret, frozenset(self.mut), frozenset((a, o) for a, d in self.stores.items() for o in d),
                tuple(self.tup) if self.tup else None)


def is_immutable_const(e):
    return isinstance(e, (ast.Constant, ast.JoinedStr)) or isinstance(e, ast.UnaryOp) and isinstance(e.operand, ast.Constant)


class Effects:
    def __init__(self, repo, resolve):
        self.repo, self.resolve = repo, resolve
        self.sum = {}
        self.funcs = [f for f in repo.all_funcs()]
        for f in self.funcs:
            self.sum[f.node] = Summary()
        for rnd in range(8):
            changed = False
            for f in self.funcs:
                old = self.sum[f.node].key()
                s = FuncPass(self, f).run()
                if s.key() != old:
                    changed = True
                self.sum[f.node] = s
            if not changed:
                break
        self.rounds = rnd + 1


class FuncPass:
    def __init__(self, eff, f):
        self.eff, self.f, self.repo = eff, f, eff.repo
        self.s = Summary()
        a = f.node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
        top = f
        while top.parent is not None:
            top = top.parent
        self.me = top.node.args.args[0].arg if top.cls is not None and not top.static and top.node.args.args else None
        self.local_funcs = {}
        self.arr = self.arrayish()
        self.globals = set()

    def arrayish(self):
        """names with evidence of being containers: subscripted, .shape, len(), iterated, matrix product"""
        out = set()
        for n in ast.walk(self.f.node):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name):
                out.add(n.value.id)
            elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.attr in {"shape", "T", "ndim", "size", "dtype"} | VIEW_METHODS | COPY_METHODS:
                out.add(n.value.id)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("len", "enumerate", "sorted", "list", "set") and n.args and isinstance(n.args[0], ast.Name):
                out.add(n.args[0].id)
            elif isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.iter, ast.Name):
                out.add(n.iter.id)
            elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.MatMult):
                for x in (n.left, n.right):
                    if isinstance(x, ast.Name):
                        out.add(x.id)
        return out

    def attr_arrayish(self, attr):
        if self.f.cls is None:
            return False
        for k in self.repo.mro(self.f.cls):
            for n in ast.walk(k.node):
                x = None
                if isinstance(n, ast.Subscript):
                    x = n.value
                elif isinstance(n, ast.Attribute) and n.attr in ("shape", "T", "append"):
                    x = n.value
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "len" and n.args:
                    x = n.args[0]
                if isinstance(x, ast.Attribute) and x.attr == attr and isinstance(x.value, ast.Name) and x.value.id == self.me:
                    return True
        return False

    def run(self):
        env = {}
        for p in self.params:
            if p == self.me and self.f.parent is None:
                continue
            o = frozenset([("param", p)])
            env[p] = (o, o)
        if self.f.parent is not None:
            for p in self.params:
                pass
        self.block(self.f.node.body, env)
        return self.s

    # -------------------------------------------------------------- statements
    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def merge(self, env, others):
        keys = set()
        for o in others:
            keys |= set(o)
        for k in keys:
            v = EMPTY
            for o in others:
                v = join(v, o.get(k, EMPTY))
            env[k] = v

    def stmt(self, s, env):
        if isinstance(s, ast.Assign):
            if isinstance(s.value, ast.Tuple) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and \
                    len(s.value.elts) == len(s.targets[0].elts):
                vs = [self.expr(e, env) for e in s.value.elts]
                for t, v in zip(s.targets[0].elts, vs):
                    self.store(t, v, env, s)
                return
            v = self.expr(s.value, env)
            tup = self.tuple_ret(s.value, env)
            for t in s.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and tup is not None and len(tup) == len(t.elts):
                    for x, y in zip(t.elts, tup):
                        self.store(x, y, env, s)
                else:
                    self.store(t, v, env, s)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.store(s.target, self.expr(s.value, env), env, s)
        elif isinstance(s, ast.AugAssign):
            v = self.expr(s.value, env)
            t = s.target
            if isinstance(t, ast.Name):
                x = env.get(t.id, EMPTY)
                if t.id in self.arr and not is_immutable_const(s.value) or (t.id in self.arr and x[0]):
                    self.mutate(x[0], s, "%s= on %s" % (type(s.op).__name__, t.id))
                env[t.id] = (x[0], x[1] | (v[1] if isinstance(s.op, (ast.Add, ast.BitOr)) else frozenset()))
                if t.id not in self.arr:
                    env[t.id] = EMPTY
            elif isinstance(t, ast.Subscript):
                x = self.expr(t.value, env)
                self.expr(t.slice, env)
                self.mutate(x[0], s, "in-place update of an element of %s" % ast.unparse(t.value))
            elif isinstance(t, ast.Attribute):
                base = self.path(t)
                if base is not None and (isinstance(s.value, (ast.List, ast.Set, ast.ListComp)) or self.attr_arrayish(t.attr)):
                    self.mutate(frozenset([("attr", base)]) | env.get("self." + base, EMPTY)[0], s, "in-place update of self." + base)
        elif isinstance(s, ast.For):
            it = self.expr(s.iter, env)
            self.store(s.target, self.elements(s.iter, it, env), env, s)
            for k in range(2):
                e2 = dict(env)
                self.block(s.body, e2)
                self.merge(env, [env, e2])
            self.block(s.orelse, env)
        elif isinstance(s, ast.While):
            self.expr(s.test, env)
            for k in range(2):
                e2 = dict(env)
                self.block(s.body, e2)
                self.merge(env, [env, e2])
            self.block(s.orelse, env)
        elif isinstance(s, ast.If):
            self.expr(s.test, env)
            a, b = dict(env), dict(env)
            self.narrow(s.test, a, True)
            self.narrow(s.test, b, False)
            self.block(s.body, a)
            self.block(s.orelse, b)
            outs = []
            if not stops(s.body):
                outs.append(a)
            if not s.orelse or not stops(s.orelse):
                outs.append(b)
            if outs:
                env.clear()
                self.merge(env, outs)
        elif isinstance(s, ast.With):
            for i in s.items:
                v = self.expr(i.context_expr, env)
                if i.optional_vars is not None:
                    self.store(i.optional_vars, v, env, s)
            self.block(s.body, env)
        elif isinstance(s, ast.Try):
            e0 = dict(env)
            self.block(s.body, env)
            outs = []
            e1 = dict(env)
            self.block(s.orelse, e1)
            outs.append(e1)
            for h in s.handlers:
                e2 = {}
                self.merge(e2, [e0, env])
                if h.name:
                    e2[h.name] = EMPTY
                self.block(h.body, e2)
                outs.append(e2)
            self.merge(env, outs)
            self.block(s.finalbody, env)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                v = self.expr(s.value, env)
                self.s.ret = join(self.s.ret, v)
                if isinstance(s.value, ast.Tuple):
                    vs = [self.expr(e, env) for e in s.value.elts]
                    if self.s.tup is None:
                        self.s.tup = vs
                    elif len(self.s.tup) == len(vs):
                        self.s.tup = [join(x, y) for x, y in zip(self.s.tup, vs)]
        elif isinstance(s, ast.Expr):
            self.expr(s.value, env)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.mutate(self.expr(t.value, env)[0], s, "del of an element of %s" % ast.unparse(t.value))
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            pass
        elif isinstance(s, ast.Global):
            self.globals |= set(s.names)
        elif isinstance(s, (ast.Raise, ast.Assert)):
            for x in ast.iter_child_nodes(s):
                if isinstance(x, ast.expr):
                    self.expr(x, env)

    def narrow(self, test, env, pos):
        """a value known to be a number, None or a string has no memory to share"""
        neg = False
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            test, neg = test.operand, True
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) and pos and not neg:
                for v in test.values:
                    self.narrow(v, env, True)
            return
        yes = pos != neg
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant) and \
                test.comparators[0].value is None and isinstance(test.left, ast.Name):
            if isinstance(test.ops[0], ast.Is) == yes and isinstance(test.ops[0], (ast.Is, ast.IsNot)):
                env[test.left.id] = EMPTY
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance" and len(test.args) == 2 \
                and isinstance(test.args[0], ast.Name):
            ts = test.args[1].elts if isinstance(test.args[1], ast.Tuple) else [test.args[1]]
            names = {ast.unparse(t) for t in ts}
            if yes and names <= {"int", "float", "str", "bool", "np.integer", "np.floating", "tuple"} - {"tuple"}:
                env[test.args[0].id] = EMPTY
            elif yes and names == {"tuple"}:
                v = env.get(test.args[0].id, EMPTY)
                env[test.args[0].id] = (frozenset(), v[1] | v[0])

    def store(self, t, v, env, s):
        if isinstance(t, ast.Name):
            if t.id in self.globals:
                self.s.mut.setdefault(("global", self.f.module.name, t.id), (s, "assignment of global " + t.id))
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            e = (v[0] | v[1], v[1])
            for x in t.elts:
                self.store(x.value if isinstance(x, ast.Starred) else x, e, env, s)
        elif isinstance(t, ast.Subscript):
            x = self.expr(t.value, env)
            self.expr(t.slice, env)
            self.mutate(x[0], s, "assignment to an element of %s" % ast.unparse(t.value))
            if isinstance(t.value, ast.Name) and not isinstance(t.slice, (ast.Slice, ast.Tuple)):
                y = env.get(t.value.id, EMPTY)
                env[t.value.id] = (y[0], y[1] | v[0] | v[1]) if not self.known_array(t.value.id) else y
        elif isinstance(t, ast.Attribute):
            p = self.path(t)
            if p is not None and "." not in p:
                for o in v[0] | {("in",) + x for x in v[1] - v[0]}:
                    self.s.stores.setdefault(p, {}).setdefault(o, s)
                env["self." + p] = v if (v[0] or v[1]) else EMPTY

    def known_array(self, name):
        """every local definition creates an ndarray (element stores copy)"""
        defs = [n.value for n in ast.walk(self.f.node) if isinstance(n, ast.Assign) and
                any(isinstance(t, ast.Name) and t.id == name for t in n.targets)]
        def arr(e):
            if isinstance(e, ast.Call):
                r = self.repo.resolve_expr(self.f.module, e.func)
                return isinstance(r, Ext) and r.name.startswith("numpy.")
            return isinstance(e, ast.BinOp) and (arr(e.left) or arr(e.right))
        return bool(defs) and all(arr(d) for d in defs) and name not in self.params

    def mutate(self, origins, node, text):
        for o in origins:
            self.s.mut.setdefault(o, (node, text))

    # -------------------------------------------------------------- expressions
    def path(self, e):
        parts = []
        while isinstance(e, ast.Attribute):
            parts.append(e.attr)
            e = e.value
        if isinstance(e, ast.Name) and e.id == self.me and self.me is not None:
            return ".".join(reversed(parts))
        return None

    def elements(self, it_node, v, env):
        if isinstance(it_node, ast.Call) and isinstance(it_node.func, ast.Name) and it_node.func.id == "range":
            return EMPTY
        if isinstance(it_node, ast.Call) and isinstance(it_node.func, ast.Name) and it_node.func.id in ("enumerate", "zip"):
            m = frozenset(deep(o) for o in v[1])
            return (m, m)
        m = frozenset(deep(o) for o in v[0] | v[1])
        return (m, m)

    def copying_index(self, sl, env):
        """an index that makes numpy copy: list, boolean/integer array expression, comparison"""
        if isinstance(sl, ast.Tuple):
            return any(self.copying_index(x, env) for x in sl.elts)
        if isinstance(sl, (ast.List, ast.ListComp, ast.Compare)):
            return True
        if isinstance(sl, ast.UnaryOp) and isinstance(sl.op, ast.Invert):
            return True
        if isinstance(sl, ast.Call):
            r = self.repo.resolve_expr(self.f.module, sl.func)
            if isinstance(r, Ext) and r.name.startswith("numpy.") and r.name.split(".")[-1] in (
                    "where", "nonzero", "flatnonzero", "argsort", "array", "arange", "isfinite", "isnan", "logical_and", "logical_or", "logical_not", "ix_", "triu_indices", "tril_indices"):
                return True
            if isinstance(sl.func, ast.Name) and sl.func.id == "list":
                return True
        return False

    def viewing_index(self, sl):
        """an index known to be integers and slices only: the result shares memory"""
        if isinstance(sl, ast.Tuple):
            return all(self.viewing_index(x) for x in sl.elts)
        if isinstance(sl, (ast.Slice, ast.Constant)):
            return True
        if isinstance(sl, ast.UnaryOp):
            return self.viewing_index(sl.operand)
        if isinstance(sl, ast.BinOp):
            return self.viewing_index(sl.left) and self.viewing_index(sl.right)
        if isinstance(sl, ast.Attribute):
            return sl.attr == "newaxis" or sl.attr.endswith("idx")
        if isinstance(sl, ast.Subscript):        # self.probit_idxs['abs']
            return isinstance(sl.slice, ast.Constant) and isinstance(sl.slice.value, str) or self.int_value(sl)
        if isinstance(sl, ast.Name):
            kinds = set()
            for n in ast.walk(self.f.node):
                if isinstance(n, (ast.For, ast.comprehension)):
                    call = n.iter.func.id if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) else None
                    if isinstance(n.target, ast.Name) and n.target.id == sl.id:
                        kinds.add("int" if call == "range" else "?")
                    elif isinstance(n.target, ast.Tuple) and isinstance(n.target.elts[0], ast.Name) and n.target.elts[0].id == sl.id:
                        kinds.add("int" if call == "enumerate" else "?")
                elif isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == sl.id for t in n.targets):
                    kinds.add("int" if self.int_value(n.value) else "?")
                elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == sl.id:
                    kinds.add("int" if self.int_value(n.value) else "?")
            return kinds == {"int"}
        return False

    def int_value(self, e):
        if isinstance(e, ast.Constant):
            return isinstance(e.value, int)
        if isinstance(e, ast.BinOp):
            return self.int_value(e.left) and self.int_value(e.right)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id in ("len", "int"):
                return True
            r = self.repo.resolve_expr(self.f.module, e.func)
            return isinstance(r, Ext) and r.name in ("numpy.argmax", "numpy.argmin")
        if isinstance(e, ast.Subscript):
            return ".probit_idxs" in ast.unparse(e.value) or ".shape" in ast.unparse(e.value)
        return False

    def tuple_ret(self, e, env):
        if not isinstance(e, ast.Call):
            return None
        ts = self.targets(e)
        if len(ts) == 1 and self.eff.sum.get(ts[0][0].node) is not None and self.eff.sum[ts[0][0].node].tup is not None:
            return [self.subst(ts[0], e, v, env) for v in self.eff.sum[ts[0][0].node].tup]
        return None

    def targets(self, call):
        out = []
        for t in self.eff.resolve(self.repo, self.f, call):
            if t[0] == "family":
                out += t[1]
            else:
                out.append(t)
        return out

    def argmap(self, t, call, env):
        f, skip, lb = t
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if skip:
            names = names[1:]
        m = {}
        for n, x in zip(names, call.args):
            if isinstance(x, ast.Starred):
                break
            m[n] = self.expr(x, env)
        for k in call.keywords:
            if k.arg:
                m[k.arg] = self.expr(k.value, env)
        return m

    def subst(self, t, call, v, env, m=None):
        m = self.argmap(t, call, env) if m is None else m
        # receivers: attributes of self stay attributes of self when called on self
        onself = isinstance(call.func, ast.Attribute) and (
            isinstance(call.func.value, ast.Name) and call.func.value.id == self.me or
            isinstance(call.func.value, ast.Call))
        own, inner = set(), set()
        for src, dst in ((v[0], own), (v[1], inner)):
            for o in src:
                if o[0] == "?":
                    x = self.subst(t, call, (frozenset([o[1:]]), frozenset()), env, m)
                    dst |= {maybe(y) for y in x[0]}
                    continue
                if o[0] == "param":
                    base, _, rest = o[1].partition(".")
                    x = m.get(base, EMPTY)
                    if rest:
                        x = (frozenset(part(y, rest) for y in x[0] if y[0] != "?"),) * 2
                    dst |= x[0] if dst is own else (x[0] | x[1])
                    if dst is own:
                        inner |= x[1]
                elif o[0] == "attr":
                    if onself:
                        dst.add(o)
                    else:
                        p = self.path(call.func.value) if isinstance(call.func, ast.Attribute) else None
                        if p:
                            dst.add(("attr", p + "." + o[1]))
                elif o[0] == "global":
                    dst.add(o)
        return (frozenset(own), frozenset(inner))

    def expr(self, e, env):
        if e is None:
            return EMPTY
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            if self.f.parent is None and e.id in self.f.module.sym and isinstance(self.f.module.sym[e.id], tuple) and \
                    self.f.module.sym[e.id][0] == "assign":
                v = self.f.module.sym[e.id][1]
                if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or isinstance(v, ast.Call):
                    o = frozenset([("global", self.f.module.name, e.id)])
                    return (o, o)
            return EMPTY
        if isinstance(e, ast.Attribute):
            p = self.path(e)
            if p is not None:
                if "self." + p in env:
                    v = env["self." + p]
                    o = frozenset([("attr", p)])
                    return (v[0] | o, v[1] | o)
                o = frozenset([("attr", p)])
                return (o, o)
            v = self.expr(e.value, env)
            if e.attr in VIEW_METHODS:
                return v
            if e.attr in ("shape", "size", "ndim", "dtype"):
                return EMPTY
            # data held by an object that was passed in
            return (frozenset(part(o, e.attr) for o in v[0] if o[0] != "?"),) * 2 if v[0] else EMPTY
        if isinstance(e, ast.Subscript):
            v = self.expr(e.value, env)
            self.expr(e.slice, env)
            if self.copying_index(e.slice, env):
                return EMPTY if not v[1] - v[0] else (frozenset(), v[1])
            if not self.viewing_index(e.slice):
                m = frozenset(maybe(deep(o)) for o in v[0] | v[1])
                return (m, m)
            m = frozenset(deep(o) for o in v[0] | v[1])
            return (m, m)
        if isinstance(e, ast.Starred):
            return self.expr(e.value, env)
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            inner = frozenset()
            for x in e.elts:
                v = self.expr(x, env)
                inner |= v[0] | v[1]
            return (frozenset(), inner)
        if isinstance(e, ast.Dict):
            inner = frozenset()
            for x in e.keys + e.values:
                if x is not None:
                    v = self.expr(x, env)
                    inner |= v[0] | v[1]
            return (frozenset(), inner)
        if isinstance(e, ast.IfExp):
            self.expr(e.test, env)
            a, b = dict(env), dict(env)
            self.narrow(e.test, a, True)
            self.narrow(e.test, b, False)
            return join(self.expr(e.body, a), self.expr(e.orelse, b))
        if isinstance(e, ast.BoolOp):
            v = EMPTY
            for x in e.values:
                v = join(v, self.expr(x, env))
            return v
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            en = dict(env)
            for g in e.generators:
                it = self.expr(g.iter, en)
                self.store(g.target, self.elements(g.iter, it, en), en, e)
                for i in g.ifs:
                    self.expr(i, en)
            if isinstance(e, ast.DictComp):
                v = join(self.expr(e.key, en), self.expr(e.value, en))
            else:
                v = self.expr(e.elt, en)
            return (frozenset(), v[0] | v[1])
        if isinstance(e, ast.NamedExpr):
            v = self.expr(e.value, env)
            env[e.target.id] = v
            return v
        if isinstance(e, ast.Lambda):
            return EMPTY
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, ast.BinOp):
            a, b = self.expr(e.left, env), self.expr(e.right, env)
            # list + list shares its elements; arithmetic on arrays creates a new one
            if isinstance(e.op, ast.Add) and isinstance(e.left, (ast.List, ast.ListComp)) or isinstance(e.right, (ast.List, ast.ListComp)):
                return (frozenset(), a[1] | b[1])
            return EMPTY
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.expr(x, env)
        return EMPTY

    def call(self, e, env):
        args = [self.expr(a, env) for a in e.args]
        kws = {k.arg: self.expr(k.value, env) for k in e.keywords}
        fn = e.func
        # out= and external writers
        if "out" in kws:
            self.mutate(kws["out"][0], e, "out= argument")
        r = None
        if isinstance(fn, ast.Name) and fn.id in env and env[fn.id] != EMPTY:
            return EMPTY
        r = self.repo.resolve_expr(self.f.module, fn) if not (isinstance(fn, ast.Attribute) and self.path(fn) is not None) else None
        if isinstance(r, Ext):
            for pos in WRITERS.get(r.name, ()):
                if pos < len(args):
                    self.mutate(args[pos][0], e, "%s writes into its argument" % r.name)
            for k in e.keywords:
                if k.arg in ("overwrite_a", "overwrite_b", "overwrite_x") and isinstance(k.value, ast.Constant) and k.value.value is True and args:
                    self.mutate(args[0][0], e, "%s may overwrite its argument" % r.name)
                if k.arg == "copy" and isinstance(k.value, ast.Constant) and k.value.value is False and args:
                    if r.name == "numpy.nan_to_num":
                        self.mutate(args[0][0], e, "nan_to_num in place")
                    elif r.name == "numpy.array":
                        return args[0]
            if r.name in VIEW_FUNCS and args:
                return args[0]
            if r.name in SHALLOW and args:
                return (frozenset(), args[0][0] | args[0][1])
            if r.name == "copy.deepcopy":
                return EMPTY
            if r.name == "numpy.clip" and len(args) > 3:
                self.mutate(args[3][0], e, "out argument of clip")
            return EMPTY
        if isinstance(fn, ast.Name) and fn.id in SHALLOW:
            inner = frozenset()
            for a in args:
                inner |= a[0] | a[1]
            return (frozenset(), inner)
        ts = self.targets(e)
        if ts:
            res = EMPTY
            for t in ts:
                sm = self.eff.sum.get(t[0].node)
                if sm is None:
                    continue
                m = self.argmap(t, e, env)
                for o, (nd, tx) in sm.mut.items():
                    if o[0] == "?":
                        if o[1] == "param" and "." not in o[2] and m.get(o[2]):
                            self.mutate(frozenset(maybe(y) for y in m[o[2]][0]), e, "%s may change its argument %s (%s)" % (t[2], o[2], tx))
                        continue
                    if o[0] == "param" and "." not in o[1]:
                        x = m.get(o[1])
                        if x is None:
                            if o[1] in [p.arg for p in t[0].node.args.args + t[0].node.args.kwonlyargs]:
                                pass
                            continue
                        self.mutate(x[0], e, "%s changes its argument %s (%s)" % (t[2], o[1], tx))
                    elif o[0] == "param":
                        base, rest = o[1].split(".", 1)
                        x = m.get(base, EMPTY)
                        self.mutate(frozenset(part(y, rest) for y in x[0] if y[0] != "?"), e, "%s changes %s of its argument (%s)" % (t[2], rest, tx))
                    elif o[0] == "attr":
                        v = self.subst(t, e, (frozenset([o]), frozenset()), env, m)
                        # a method changing data of its own object is that object's business
                        if isinstance(fn, ast.Attribute) and (isinstance(fn.value, ast.Name) and fn.value.id == self.me or isinstance(fn.value, ast.Call)):
                            self.mutate(v[0], e, tx)
                if t[0].name != "__init__":
                    res = join(res, self.subst(t, e, sm.ret, env, m))
            return res
        if isinstance(fn, ast.Attribute):
            v = self.expr(fn.value, env)
            if fn.attr in MUTATORS and not self.repo_method(fn):
                self.mutate(v[0], e, ".%s() on %s" % (fn.attr, ast.unparse(fn.value)))
                if fn.attr in STORING and isinstance(fn.value, ast.Name) and args:
                    x = env.get(fn.value.id, EMPTY)
                    add = frozenset()
                    for a in args:
                        add |= a[1] if fn.attr in ("extend", "update") else a[0] | a[1]
                    env[fn.value.id] = (x[0], x[1] | add)
                return (v[0] | v[1], v[0] | v[1]) if fn.attr in ("pop", "setdefault") else EMPTY
            if fn.attr in COPY_METHODS:
                return (frozenset(), v[1] - v[0])
            if fn.attr in VIEW_METHODS:
                return v
            if fn.attr in ("union", "difference", "intersection"):
                return (frozenset(), v[1])
        return EMPTY

    def repo_method(self, fn):
        """receiver is one of the library's own objects (model.add, ...)"""
        v = fn.value
        nm = v.attr if isinstance(v, ast.Attribute) else v.id if isinstance(v, ast.Name) else ""
        return nm in ("model", "active_learner", "pairwise_l", "abs_l", "abs_comp", "cov_func", "probit", "self", "gp", "user", "fake_func") or nm == self.me


def stops(stmts):
    return bool(stmts) and isinstance(stmts[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))
