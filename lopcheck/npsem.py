"""Meaning of numpy / scipy / builtin operations on abstract values."""
import ast
import itertools
import math
from .values import *

NP1 = {
    "exp": lambda x: fn("exp", x), "log": lambda x: fn("log", x), "sqrt": lambda x: pw(x, C(Fraction(1, 2))),
    "sin": lambda x: fn("sin", x), "cos": lambda x: fn("cos", x), "tan": lambda x: fn("tan", x),
    "tanh": lambda x: fn("tanh", x), "abs": lambda x: fn("abs", x), "absolute": lambda x: fn("abs", x),
    "fabs": lambda x: fn("abs", x), "square": lambda x: mul(x, x), "negative": neg, "sign": lambda x: fn("sign", x),
    "floor": lambda x: fn("floor", x), "ceil": lambda x: fn("ceil", x), "log1p": lambda x: fn("log", add(ONE, x)),
    "expm1": lambda x: sub(fn("exp", x), ONE), "log10": lambda x: div(fn("log", x), fn("log", C(10))),
    "log2": lambda x: div(fn("log", x), fn("log", C(2))), "reciprocal": lambda x: pw(x, C(-1)),
    "logical_not": lambda x: NOT(truth(x)), "invert": lambda x: NOT(truth(x)),
    "asarray": None,
}
NP2 = {
    "add": add, "subtract": sub, "multiply": mul, "divide": div, "true_divide": div, "power": pw,
    "logical_and": AND, "logical_or": OR, "greater": lambda x, y: lt(y, x), "less": lt,
    "greater_equal": lambda x, y: le(y, x), "less_equal": le, "equal": eq, "not_equal": lambda x, y: NOT(eq(x, y)),
    "maximum": lambda x, y: maxmin("maximum", x, y), "minimum": lambda x, y: maxmin("minimum", x, y),
    "fmax": lambda x, y: maxmin("maximum", x, y), "fmin": lambda x, y: maxmin("minimum", x, y),
    "floor_divide": lambda x, y: fn("floor", div(x, y)), "mod": lambda x, y: fn("mod", x, y),
    "remainder": lambda x, y: fn("mod", x, y), "float_power": pw,
    "bitwise_and": AND, "bitwise_or": OR, "logical_xor": lambda x, y: NOT(eq(truth(x), truth(y))),
}


def maxmin(k, x, y):
    if isnum(x) and isnum(y):
        v = max if k == "maximum" else min
        return C(v(x.args[0], y.args[0]))
    if x is y:
        return x
    return fn(k, x, y)


def floordiv(x, y):
    if isnum(x) and isnum(y) and y.args[0] != 0:
        return C(x.args[0] // y.args[0])
    if y is ONE:
        return x
    return fn("floor", div(x, y))


def mod(x, y):
    if isnum(x) and isnum(y) and y.args[0] != 0:
        return C(x.args[0] % y.args[0])
    return fn("mod", x, y)


PI = S("pi", True)
BIN = {"Add": add, "Sub": sub, "Mult": mul, "Div": div, "Pow": pw, "FloorDiv": floordiv, "Mod": mod,
       "BitAnd": lambda a, b: AND(a, b), "BitOr": lambda a, b: OR(a, b),
       "BitXor": lambda a, b: NOT(eq(truth(a), truth(b)))}
DUNDER = {"Add": ("__add__", "__radd__"), "Sub": ("__sub__", "__rsub__"), "Mult": ("__mul__", "__rmul__"),
          "Div": ("__truediv__", "__rtruediv__"), "Pow": ("__pow__", "__rpow__"), "MatMult": ("__matmul__", "__rmatmul__")}

SAFE_EXT = ("numpy.", "scipy.", "math.", "copy.", "builtins.")


class NpSem:
    # ------------------------------------------------------------ conversion
    def summ(self, dim, f):
        dim = num(dim)
        if isnum(dim) and 0 <= dim.args[0] <= 8:
            return add(*[num(f(C(i))) for i in range(int(dim.args[0]))]) if dim.args[0] > 0 else ZERO
        iv = IV("k")
        return SUM(iv, dim, f(iv))

    def red(self, kind, dim, f):
        dim = num(dim)
        iv = IV("k")
        if isnum(dim) and 1 <= dim.args[0] <= 8:
            vs = [f(C(i)) for i in range(int(dim.args[0]))]
            if kind == "any":
                return OR(*[truth(v) for v in vs])
            if kind == "all":
                return AND(*[truth(v) for v in vs])
            if kind == "prod":
                return mul(*vs)
            if kind in ("max", "min"):
                r = vs[0]
                for v in vs[1:]:
                    r = maxmin("maximum" if kind == "max" else "minimum", r, v)
                return r
        b = f(iv)
        if kind in ("any", "all"):
            b = truth(b)
            if b in (TRUE, FALSE) and posterm(dim):
                return b
            return eq(mk("red", kind, iv, dim, ite(b, ONE, ZERO)), ONE)
        return mk("red", kind, iv, dim, num(b))

    def term_of(self, v, st):
        v = self.res(v, st)
        if isinstance(v, T):
            return v
        if isinstance(v, Unk):
            return v.t
        if isinstance(v, VTuple):
            return mk("opq", "tup", *[self.term_of(x, st) for x in v.items])
        if isinstance(v, Phi):
            return mk("opq", "phi", v.c, self.term_of(v.a, st), self.term_of(v.b, st))
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if isinstance(o, Arr):
                return o.lam() if o.rank else o.body
            if isinstance(o, VList):
                if o.static:
                    return mk("opq", "list", *[self.term_of(x, st) for x in o.items()])
                return mk("opq", "symlist", K(v.id))
            if isinstance(o, VObj):
                return K("obj%d" % v.id)
            return K("ref%d" % v.id)
        if isinstance(v, (Ext,)):
            return K(v.name)
        if isinstance(v, VSlice):
            return mk("opq", "slice", *[self.term_of(x, st) for x in (v.a, v.b, v.c)])
        return K(repr(v))

    def scalar(self, v, st):
        v = self.res(v, st)
        if isinstance(v, T):
            return v
        o = st.get(v)
        if isinstance(o, Arr):
            if o.rank == 0:
                return o.body
            if all(d is ONE for d in o.dims):
                return o.at(*[ZERO] * o.rank)
        if isinstance(v, Phi):
            return ite(v.c, self.scalar(v.a, st), self.scalar(v.b, st))
        return self.term_of(v, st)

    def arr(self, v, st):
        """Arr or T for anything numpy would convert; None when unknown"""
        v = self.res(v, st)
        if isinstance(v, T):
            return v
        o = st.get(v)
        if isinstance(o, Arr):
            return o if o.rank else o.body
        if isinstance(v, VTuple):
            return self.arr_of_items(list(v.items), st)
        if isinstance(o, VList):
            if o.static:
                return self.arr_of_items(o.items(), st)
            if len(o.segs) == 1 and o.segs[0][0] == "comp" and o.segs[0][3] is TRUE:
                _, iv, dim, _, val = o.segs[0]
                a = self.arr(val, st)
                if isinstance(a, T):
                    k = IV()
                    return Arr((k,), (dim,), tsubst(a, {iv: k}))
                if isinstance(a, Arr):
                    k = IV()
                    ivs = tuple(IV() for _ in a.dims)
                    return Arr((k,) + ivs, (dim,) + a.dims, tsubst(a.at(*ivs), {iv: k}), a.dt)
                return None
            return self.arr_of_segs(o.segs, st)
        if isinstance(v, Phi):
            a, b = self.arr(v.a, st), self.arr(v.b, st)
            if isinstance(a, Arr) and isinstance(b, Arr) and self.same_dims(a, b):
                return self.merge_arr(v.c, a, b)
            return None
        if isinstance(v, VRange):
            d, e = self.seq_of(v, st)
            k = IV()
            return Arr((k,), (d,), e(st, k), "i")
        return None

    def arr_of_segs(self, segs, st):
        """items and unconditional comprehensions one after the other, elements of one shape"""
        parts, off = [], ZERO
        inner = None
        for s in segs:
            if s[0] == "item":
                a = self.arr(s[1], st)
                n = ONE
                f = (lambda a: lambda k: a)(a)
            elif s[0] == "comp" and s[3] is TRUE:
                a = self.arr(s[4], st)
                n = s[2]
                iv = s[1]
                f = (lambda a, iv: lambda k: self.arr_subst(a, {iv: k}))(a, iv)
            else:
                return None
            if a is None:
                return None
            dims = a.dims if isinstance(a, Arr) else ()
            if inner is None:
                inner = dims
            elif len(inner) != len(dims):
                return None
            parts.append((off, n, f))
            off = add(off, n)
        k = IV()
        ivs = tuple(IV() for _ in inner)
        body = None
        for o, n, f in reversed(parts):
            a = f(sub(k, o))
            b = a.at(*ivs) if isinstance(a, Arr) else a
            body = b if body is None else ite(lt(k, add(o, n)), b, body)
        return Arr((k,) + ivs, (off,) + tuple(inner), body)

    def arr_subst(self, a, m):
        if isinstance(a, T):
            return tsubst(a, m)
        ivs = tuple(IV() for _ in a.dims)
        return Arr(ivs, [tsubst(d, m) for d in a.dims], tsubst(a.at(*ivs), m), a.dt)

    def arr_of_items(self, items, st):
        if not items:
            return Arr((IV(),), (ZERO,), ZERO, "f")
        els = [self.arr(x, st) for x in items]
        if any(e is None for e in els):
            return None
        if all(isinstance(e, T) for e in els):
            k = IV()
            return Arr((k,), (C(len(els)),), self.select(k, els))
        if all(isinstance(e, Arr) for e in els) and len({e.rank for e in els}) == 1:
            k = IV()
            ivs = tuple(IV() for _ in els[0].dims)
            return Arr((k,) + ivs, (C(len(els)),) + els[0].dims, self.select(k, [e.at(*ivs) for e in els]), els[0].dt)
        return None

    def select(self, k, vals):
        b = vals[-1]
        for i in range(len(vals) - 2, -1, -1):
            b = ite(eq(k, C(i)), vals[i], b)
        return b

    def wrap(self, a, st):
        if a is None:
            return self.fresh_unk("array")
        if isinstance(a, T):
            return a
        if a.rank == 0:
            return a.body
        return st.new(a)

    # ------------------------------------------------------------ elementwise
    def bdims(self, ds, st=None, node=None):
        r = max(len(d) for d in ds)
        out = []
        for k in range(r):
            cur = ONE
            for d in ds:
                j = k - (r - len(d))
                if j < 0:
                    continue
                x = d[j]
                if cur is ONE:
                    cur = x
                elif x is ONE or x is cur:
                    continue
                elif isnum(x) and not isnum(cur):
                    cur = x
                elif isnum(x) and isnum(cur) and st is not None:
                    self.error(st, node, "shapes do not match: %s and %s" % (show(cur), show(x)))
            out.append(cur)
        return out

    def bindex(self, a, ivs, dims):
        """index of a broadcast operand"""
        off = len(ivs) - a.rank
        return [ZERO if (a.dims[k] is ONE and dims[off + k] is not ONE) else ivs[off + k] for k in range(a.rank)]

    def mapn(self, f, vals, st, node=None, name="op", dt=None):
        vals = [self.res(v, st) for v in vals]
        for i, v in enumerate(vals):
            if isinstance(v, Phi) and not isinstance(self.arr(v, st), Arr):
                l, r = list(vals), list(vals)
                l[i], r[i] = v.a, v.b
                return self.merge_val(v.c, self.mapn(f, l, st, node, name), self.mapn(f, r, st, node, name), st.heap)
        As = [self.arr(v, st) for v in vals]
        if any(a is None for a in As):
            return Unk(opq(name, *[self.term_of(v, st) for v in vals]))
        if all(isinstance(a, T) for a in As):
            return f(*As)
        dims = self.bdims([a.dims for a in As if isinstance(a, Arr)], st, node)
        ivs = tuple(IV() for _ in dims)
        body = f(*[a if isinstance(a, T) else a.at(*self.bindex(a, ivs, dims)) for a in As])
        return st.new(Arr(ivs, dims, body, dt))

    def map1(self, f, v, st, name="op1"):
        return self.mapn(f, [v], st, None, name)

    def map2(self, f, a, b, st, node=None, name="op2"):
        return self.mapn(f, [a, b], st, node, name)

    def binop(self, op, a, b, st, node):
        a, b = self.res(a, st), self.res(b, st)
        if op == "MatMult":
            return self.matmul(a, b, st, node)
        oa, ob = st.get(a), st.get(b)
        for x, o, y, i in ((a, oa, b, 0), (b, ob, a, 1)):
            if isinstance(o, VObj):
                nm = DUNDER.get(op, ("?", "?"))[i]
                if nm in o.hooks:
                    return o.hooks[nm](self, st, x, [y], {}, node)
                m = self.repo.method(o.cls, nm) if o.cls else None
                if m is not None:
                    return self.call_func(m, [x, y], {}, st, node)
        if op == "Add":
            if isinstance(a, VTuple) and isinstance(b, VTuple):
                return VTuple(a.items + b.items)
            if isinstance(oa, VList) and isinstance(ob, VList):
                return st.new(VList(oa.segs + ob.segs))
            if isinstance(a, T) and isinstance(b, T) and a.op == "k" and b.op == "k" and \
                    isinstance(a.args[0], str) and isinstance(b.args[0], str) and a not in (INF, NINF, NAN):
                return K(a.args[0] + b.args[0])
            if (isinstance(a, VTuple) and isinstance(ob, VList)) or (isinstance(b, VTuple) and isinstance(oa, VList)):
                return self.error(st, node, "can only concatenate like sequences")
        if op == "Mult":
            for x, o, y in ((a, oa, b), (b, ob, a)):
                if isinstance(o, VList) and isinstance(y, T):
                    if isnum(y) and o.static and y.args[0] <= 32:
                        return st.new(VList(o.segs * int(y.args[0])))
                    if o.static and len(o.segs) == 1:
                        return st.new(VList([("comp", IV(), y, TRUE, o.segs[0][1])]))
                    return self.fresh_unk("listrepeat")
                if isinstance(x, VTuple) and isinstance(y, T):
                    if isnum(y) and y.args[0] <= 32:
                        return VTuple(x.items * int(y.args[0]))
                    return self.fresh_unk("tuplerepeat")
        if op == "Mod" and isinstance(a, T) and a.op == "k":
            return self.fresh_unk("str")
        if op in ("Sub", "BitAnd", "BitOr", "BitXor") and (isinstance(oa, VSet) or isinstance(ob, VSet)):
            x, y = self.setkeys(a, st), self.setkeys(b, st)
            if x is not None and y is not None and isinstance(oa, VSet) and isinstance(ob, VSet):
                return st.new(self.mkset(self.setop(op, x, y), st))
            return st.new(VSet(None, (op, self.term_of(a, st), self.term_of(b, st))))
        f = BIN.get(op)
        if f is None:
            return Unk(opq(op, self.term_of(a, st), self.term_of(b, st)))
        if op == "Add" and isinstance(a, T) and isinstance(b, T) and (self.isstr(a) or self.isstr(b)):
            return Unk(opq("strcat", a, b))
        return self.mapn(f, [a, b], st, node, "bin" + op)

    @staticmethod
    def isstr(t):
        return t.op == "k" and t.args[1] == "str"

    # ------------------------------------------------------------ linear algebra
    def matmul(self, a, b, st, node=None):
        if isinstance(a, Phi):
            return self.merge_val(a.c, self.matmul(a.a, b, st, node), self.matmul(a.b, b, st, node), st.heap)
        if isinstance(b, Phi):
            return self.merge_val(b.c, self.matmul(a, b.a, st, node), self.matmul(a, b.b, st, node), st.heap)
        A, B = self.arr(a, st), self.arr(b, st)
        if A is None or B is None:
            return Unk(opq("matmul", self.term_of(a, st), self.term_of(b, st)))
        if isinstance(A, T) or isinstance(B, T):
            return self.mapn(mul, [a, b], st, node, "matmul")
        ra, rb = A.rank, B.rank
        da = A.dims[-1]
        db = B.dims[-2] if rb >= 2 else B.dims[0]
        if isnum(da) and isnum(db) and da is not db:
            return self.error(st, node, "matmul shapes do not match")
        dim = da if isnum(da) or not isnum(db) else db
        if ra == 1 and rb == 1:
            return self.summ(dim, lambda k: mul(A.at(k), B.at(k)))
        if ra == 1:
            ivs = tuple(IV() for _ in range(rb - 1))
            dims = B.dims[:-2] + B.dims[-1:]
            body = self.summ(dim, lambda k: mul(A.at(k), B.at(*ivs[:-1], k, ivs[-1])))
            return st.new(Arr(ivs, dims, body))
        if rb == 1:
            ivs = tuple(IV() for _ in range(ra - 1))
            return st.new(Arr(ivs, A.dims[:-1], self.summ(dim, lambda k: mul(A.at(*ivs, k), B.at(k)))))
        bd = self.bdims([A.dims[:-2], B.dims[:-2]]) if (ra > 2 or rb > 2) else []
        bi = tuple(IV() for _ in bd)
        i, j = IV("i"), IV("j")
        fa = Arr(A.ivs[:-2], A.dims[:-2], ZERO)
        fb = Arr(B.ivs[:-2], B.dims[:-2], ZERO)
        body = self.summ(dim, lambda k: mul(A.at(*self.bindex(fa, bi, bd), i, k), B.at(*self.bindex(fb, bi, bd), k, j)))
        return st.new(Arr(bi + (i, j), tuple(bd) + (A.dims[-2], B.dims[-1]), body))

    def dot(self, a, b, st, node=None):
        A, B = self.arr(a, st), self.arr(b, st)
        if isinstance(A, Arr) and isinstance(B, Arr) and B.rank > 2:
            return Unk(opq("dot", self.term_of(a, st), self.term_of(b, st)))
        return self.matmul(a, b, st, node)

    def mat(self, kind, A, st):
        """inverse / cholesky factor of a matrix"""
        l = A.lam()
        i, j = IV("i"), IV("j")
        if A.dims[0] is ONE and kind == "inv":
            return Arr((i, j), A.dims, pw(A.at(ZERO, ZERO), C(-1)))
        return Arr((i, j), A.dims, mk("mat", kind, l, i, j))

    # ------------------------------------------------------------ shape helpers
    def length(self, v, st):
        v = self.res(v, st)
        if isinstance(v, Phi):
            return ite(v.c, self.length(v.a, st), self.length(v.b, st))
        if isinstance(v, VTuple):
            return C(len(v.items))
        o = st.get(v)
        if isinstance(o, Arr):
            return o.dims[0] if o.rank else ZERO
        if isinstance(o, VList):
            tot = ZERO
            for s in o.segs:
                if s[0] == "item":
                    tot = add(tot, ONE)
                elif s[0] == "comp":
                    if s[3] is TRUE:
                        tot = add(tot, s[2])
                    else:
                        tot = add(tot, self.summ(s[2], lambda k: ite(tsubst(s[3], {s[1]: k}), ONE, ZERO)))
                elif s[0] == "block":
                    c = ZERO
                    for x in s[4]:
                        c = add(c, ONE if x[0] == "item" else S("len#%d" % id(x), False, "dim"))
                    tot = add(tot, mul(s[2], c))
                else:
                    tot = add(tot, mk("mu", "len%s" % s[1], s[2]))
            return tot
        if isinstance(o, VDict):
            return C(len(o.items))
        if isinstance(o, VSet):
            return C(len(o.items)) if o.items is not None else S("len#set%d" % (v.id if isinstance(v, Ref) else 0), False, "dim")
        if isinstance(v, VRange):
            return self.seq_of(v, st)[0]
        if isinstance(v, T) and v.op == "k" and isinstance(v.args[0], str):
            return C(len(v.args[0]))
        return S("len(%d)" % self.term_of(v, st).uid, False, "dim")

    def list_segs(self, v, st):
        v = self.res(v, st)
        o = st.get(v)
        if isinstance(v, VTuple):
            return [("item", x) for x in v.items]
        if isinstance(o, VList):
            return list(o.segs)
        if isinstance(v, (VRange, VIter)) or isinstance(o, (Arr, VDict)) or (isinstance(o, VSet) and o.items is not None):
            out = []
            for kind, p in self.iter_parts(v, st, None):
                if kind == "static":
                    out += [("item", x(st) if callable(x) else x) for x in p]
                else:
                    iv, dim, elem, cond = p
                    out.append(("comp", iv, dim, cond, elem(st, iv)))
            return out
        return None

    # ------------------------------------------------------------ indexing
    def norm_index(self, i, d):
        if isnum(i) and i.args[0] < 0:
            return add(d, i)
        if i.op == "mul" and isnum(i.args[0]) and i.args[0].args[0] < 0 and len(i.args) == 2 and nonneg(i.args[1]):
            return add(d, i)
        return i

    def slice_of(self, s, d, st):
        """(start, dim, step) of a slice over length d"""
        step = s.c if s.c is not NONE else ONE
        a, b = s.a, s.b
        a = self.scalar(a, st) if a is not NONE else NONE
        b = self.scalar(b, st) if b is not NONE else NONE
        step = self.scalar(step, st)
        if step is C(-1):
            if a is NONE and b is NONE:
                return sub(d, ONE), d, C(-1)
            return None
        if step is not ONE:
            if isnum(step) and a is NONE and b is NONE and step.args[0] > 0:
                if isnum(d):
                    return ZERO, C(-(-d.args[0] // step.args[0])), step
                return ZERO, fn("ceil", div(d, step)), step
            return None
        a = ZERO if a is NONE else self.norm_index(a, d)
        b = d if b is NONE else self.norm_index(b, d)
        if isnum(b) and isnum(d) and b.args[0] > d.args[0]:
            b = d
        dim = sub(b, a)
        if isnum(dim) and dim.args[0] < 0:
            dim = ZERO
        return a, dim, ONE

    def index_items(self, idx, st, rank):
        idx = self.res(idx, st)
        items = list(idx.items) if isinstance(idx, VTuple) else [idx]
        # number of axes consumed
        n = 0
        for x in items:
            x = self.res(x, st)
            if x is ELLIPSIS or x is NONE:
                continue
            a = st.get(x)
            if isinstance(a, Arr) and a.dt == "b":
                n += a.rank
            else:
                n += 1
        out, seen = [], False
        for x in items:
            if self.res(x, st) is ELLIPSIS:
                out += [VSlice(NONE, NONE, NONE)] * (rank - n)
                seen = True
            else:
                out.append(x)
        if not seen:
            out += [VSlice(NONE, NONE, NONE)] * (rank - n)
        return out if n <= rank else None

    def resolve_index(self, A, idx, st):
        """plan of an index expression: list of out axes and the source index per axis.
        returns (dims, build) with build(out_ivs) -> source indices; None when unsupported; ('mask', Arr)"""
        items = self.index_items(idx, st, A.rank)
        if items is None:
            return None
        plan, ax = [], 0
        for x in items:
            x = self.res(x, st)
            if x is NONE:
                plan.append(("new",))
                continue
            if isinstance(x, VSlice):
                s = self.slice_of(x, A.dims[ax], st)
                if s is None:
                    return None
                plan.append(("slice",) + s)
                ax += 1
                continue
            if isinstance(x, T):
                if self.isbool(x):
                    return None
                plan.append(("int", self.norm_index(x, A.dims[ax])))
                ax += 1
                continue
            a = self.arr(x, st)
            if a is None:
                return None
            if isinstance(a, T):
                plan.append(("int", self.norm_index(a, A.dims[ax])))
                ax += 1
                continue
            cv = self.consts(a) if a.dt == "b" and a.rank == 1 else None
            if cv is not None and A.dims[ax] is a.dims[0]:
                # a mask whose entries are known: the positions it selects
                a = st.get(self.from_consts([i for i, v in enumerate(cv) if v], st))
            if a.dt == "b":
                if len(items) == 1 or a.rank == 1:
                    if a.rank == A.rank and len([i for i in items]) == 1:
                        return ("mask", a)
                return None
            plan.append(("adv", a))
            ax += 1
        adv = [p for p in plan if p[0] == "adv"]
        if adv:
            bd = self.bdims([p[1].dims for p in adv])
            pos = [k for k, p in enumerate(plan) if p[0] in ("adv", "int")]
            contiguous = pos == list(range(pos[0], pos[-1] + 1))
            first = pos[0]
        dims, kinds = [], []
        placed = False
        if adv and not contiguous:
            dims += bd
            kinds += [("b", k) for k in range(len(bd))]
            placed = True
        for k, p in enumerate(plan):
            if p[0] == "new":
                dims.append(ONE)
                kinds.append(("n",))
            elif p[0] == "slice":
                dims.append(p[2])
                kinds.append(("s", k))
            elif adv and not placed and k == first:
                dims += bd
                kinds += [("b", q) for q in range(len(bd))]
                placed = True

        def build(ivs):
            bi = [None] * (len(bd) if adv else 0)
            sl = {}
            for q, kd in zip(ivs, kinds):
                if kd[0] == "b":
                    bi[kd[1]] = q
                elif kd[0] == "s":
                    sl[kd[1]] = q
            src = []
            for k, p in enumerate(plan):
                if p[0] == "int":
                    src.append(p[1])
                elif p[0] == "slice":
                    src.append(add(p[1], mul(sl[k], p[3])))
                elif p[0] == "adv":
                    src.append(p[1].at(*self.bindex(p[1], bi, bd)))
            return src
        return (dims, build, plan, kinds, bd if adv else None)

    def getitem(self, b, idx, st, node):
        b = self.res(b, st)
        idx = self.res(idx, st)
        if isinstance(b, Phi):
            return self.merge_val(b.c, self.getitem(b.a, idx, st, node), self.getitem(b.b, idx, st, node), st.heap)
        o = st.get(b)
        if isinstance(b, VTuple) or (isinstance(o, VList)):
            return self.seq_item(b, o, idx, st, node)
        if isinstance(idx, Phi) and not isinstance(self.arr(idx, st), Arr):
            return self.merge_val(idx.c, self.getitem(b, idx.a, st, node), self.getitem(b, idx.b, st, node), st.heap)
        if isinstance(o, VDict):
            return self.dict_item(o, idx, st, node)
        if isinstance(o, Arr):
            r = self.resolve_index(o, idx, st)
            if r is None:
                return Unk(opq("index", o.lam(), self.term_of(idx, st)))
            if r[0] == "mask":
                cnt = opq("count", r[1].lam())
                iv = IV()
                cnt = S("count(%d)" % r[1].lam().uid, False, "dim")
                return st.new(Arr((iv,), (cnt,), opq("select", o.lam(), r[1].lam(), iv), o.dt))
            dims, build = r[0], r[1]
            ivs = tuple(IV() for _ in dims)
            body = o.at(*build(ivs))
            if not dims:
                return body
            isview = r[4] is None
            base = (o.base if o.base is not None else b.id) if (isview and isinstance(b, Ref)) else None
            return st.new(Arr(ivs, dims, body, o.dt, base, self.view_map(o, r) if base is not None else None))
        if isinstance(o, VObj):
            m = self.repo.method(o.cls, "__getitem__") if o.cls else None
            if m is not None:
                return self.call_func(m, [b, idx], {}, st, node)
        if isinstance(b, T) and not self.isbool(b):
            its = list(idx.items) if isinstance(idx, VTuple) else [idx]
            if any(x is ELLIPSIS for x in its) and all(x is ELLIPSIS or x is NONE for x in its):
                q = [IV() for x in its if x is NONE]
                return st.new(Arr(tuple(q), (ONE,) * len(q), b, "f")) if q else b
        if isinstance(b, T) and b.op in ("c",):
            return self.error(st, node, "number is not subscriptable")
        return Unk(opq("item", self.term_of(b, st), self.term_of(idx, st)))

    def seq_item(self, b, o, idx, st, node):
        items = list(b.items) if isinstance(b, VTuple) else None
        if items is None and o.static:
            items = o.items()
        if isinstance(idx, VSlice):
            if items is not None:
                q = []
                for x in (idx.a, idx.b, idx.c):
                    x = self.scalar(x, st) if x is not NONE else NONE
                    if x is NONE:
                        q.append(None)
                    elif isnum(x):
                        q.append(int(x.args[0]))
                    else:
                        return self.fresh_unk("slice")
                r = items[slice(*q)]
                return VTuple(r) if isinstance(b, VTuple) else st.new(VList.of(r))
            if idx.a is NONE and idx.b is NONE and idx.c is NONE:
                return st.new(VList(o.segs))
            if len(o.segs) == 1 and o.segs[0][0] == "comp" and o.segs[0][3] is TRUE:
                _, iv, dim, _, v = o.segs[0]
                s = self.slice_of(idx, dim, st)
                if s is not None:
                    k = IV()
                    return st.new(VList([("comp", k, s[1], TRUE, self.subst_value(v, {iv: add(s[0], mul(k, s[2]))}, st))]))
            return self.fresh_unk("slice")
        a = self.arr(idx, st)
        if isinstance(a, Arr) and a.rank >= 1:
            return self.error(st, node, "list indices must be integers")
        i = self.scalar(idx, st)
        if isnum(i):
            n = int(i.args[0])
            if items is not None:
                if -len(items) <= n < len(items):
                    return items[n]
                return self.error(st, node, "index %d out of range" % n)
            off = 0
            if n >= 0:
                for s in o.segs:
                    if s[0] == "item":
                        if off == n:
                            return s[1]
                        off += 1
                    elif s[0] == "comp" and s[3] is TRUE and len(o.segs) == 1:
                        return self.subst_value(s[4], {s[1]: i}, st)
                    else:
                        break
            elif o.segs and o.segs[-1][0] == "item" and n == -1:
                return o.segs[-1][1]
            elif len(o.segs) == 1 and o.segs[0][0] == "comp" and o.segs[0][3] is TRUE:
                s = o.segs[0]
                return self.subst_value(s[4], {s[1]: add(s[2], i)}, st)
            return self.fresh_unk("listitem")
        if items is not None and items and len(items) <= 16:
            r = items[-1]
            for k in range(len(items) - 2, -1, -1):
                r = self.merge_val(simp(eq(i, C(k)), st.facts), items[k], r, st.heap)
            return r
        if o is not None and len(o.segs) == 1 and o.segs[0][0] == "comp" and o.segs[0][3] is TRUE:
            s = o.segs[0]
            return self.subst_value(s[4], {s[1]: i}, st)
        if o is not None:
            a = self.arr(b, st)
            if isinstance(a, Arr) and a.rank == 1:
                return a.at(i)
        return Unk(opq("item", self.term_of(b, st), i))

    def dict_item(self, o, idx, st, node):
        cands = []
        for k, v in o.items:
            c = simp(self.truthy(self.compare("Eq", k, idx, st, node), st), st.facts)
            if c is TRUE:
                return self.res(v, st)
            if c is not FALSE:
                cands.append((c, v))
        if not cands:
            if isinstance(idx, T) and idx.op in ("k", "c") and o.items:
                return self.error(st, node, "key %s not in dictionary" % show(idx))
            return Unk(opq("dictitem", K(id(o)), self.term_of(idx, st)))
        r = cands[-1][1]
        for c, v in reversed(cands[:-1]):
            r = self.merge_val(c, v, r, st.heap)
        return r

    def store(self, b, idx, v, st, node):
        b, idx = self.res(b, st), self.res(idx, st)
        if isinstance(b, Phi):
            for side in (b.a, b.b):
                o = st.get(side)
                if isinstance(side, Ref):
                    st.put(side, self.opaque_like(o, "store"))
            return
        o = st.get(b)
        if isinstance(b, Ref):
            self.event("store", st, node, ref=b, idx=idx, value=v)
        if isinstance(o, VList):
            i = self.scalar(idx, st) if not isinstance(idx, VSlice) else None
            if i is not None and isnum(i) and o.static and -len(o.segs) <= i.args[0] < len(o.segs):
                it = o.items()
                it[int(i.args[0])] = v
                st.put(b, VList.of(it))
            elif i is not None and len(o.segs) == 1 and o.segs[0][0] == "comp" and o.segs[0][3] is TRUE and \
                    isinstance(v, T) and isinstance(o.segs[0][4], T):
                s = o.segs[0]
                st.put(b, VList([("comp", s[1], s[2], TRUE, ite(eq(s[1], i), v, s[4]))]))
            elif i is not None and o.static and len(o.segs) <= 16:
                st.put(b, VList.of([self.merge_val(simp(eq(i, C(k)), st.facts), v, x, st.heap)
                                    for k, x in enumerate(o.items())]))
            else:
                st.put(b, self.opaque_like(o, "store"))
            return
        if isinstance(o, VDict):
            items = []
            hit = False
            for k, w in o.items:
                c = self.truthy(self.compare("Eq", k, idx, st, node), st)
                if c is TRUE:
                    items.append((k, v))
                    hit = True
                elif c is FALSE:
                    items.append((k, w))
                else:
                    items.append((k, self.merge_val(c, v, w, st.heap)))
                    hit = True
            if not hit:
                items.append((idx, v))
            st.put(b, VDict(items))
            return
        if not isinstance(o, Arr):
            if isinstance(o, VObj):
                m = self.repo.method(o.cls, "__setitem__") if o.cls else None
                if m is not None:
                    self.call_func(m, [b, idx, v], {}, st, node)
            return
        r = self.resolve_index(o, idx, st)
        val = self.arr(v, st)
        if r is None:
            st.put(b, self.opaque_like(o, "store"))
            self.poison_aliases(b, st)
            return
        if r[0] == "mask":
            ivs = tuple(IV() for _ in o.dims)
            m = r[1].at(*ivs)
            if isinstance(val, T):
                nb = ite(m, val, o.at(*ivs))
            else:
                # x[mask] = y[mask]
                nb = None
                if isinstance(val, Arr) and val.rank == 1 and val.body.op == "opq" and val.body.args[0] == "select":
                    sel = val.body
                    lam_x, lam_m = sel.args[1], sel.args[2]
                    if norm(lam_m) is norm(r[1].lam()):
                        x = Arr(lam_x.args[0], lam_x.args[1], lam_x.args[2])
                        nb = ite(m, x.at(*ivs), o.at(*ivs))
                if nb is None:
                    st.put(b, self.opaque_like(o, "store"))
                    self.poison_aliases(b, st)
                    return
            self.put_arr(b, o, ivs, nb, st)
            return
        self.scatter_store(b, o, r, val, st, None)

    def put_arr(self, b, o, ivs, body, st):
        st.put(b, Arr(ivs, o.dims, body, o.dt, o.base, o.src))
        self.poison_aliases(b, st)

    def view_map(self, o, r):
        """(build, inv) of a basic-index view: build maps an index of the view to an index of the array that
        owns the elements; inv maps an owner's index to (conditions to be in the view, index in the view)"""
        dims, build, plan, kinds, bd = r
        if o.base is not None and o.src is None:
            return None
        b0, i0 = o.src if o.base is not None else (lambda u: u, lambda t: ([], t))
        if any(p[0] not in ("new", "int", "slice") for p in plan):
            return None
        if any(p[0] == "slice" and p[3] not in (ONE, C(-1)) for p in plan):
            return None
        odims = o.dims

        def inv(t):
            conds, w = i0(t)
            conds, out, ax = list(conds), [], 0
            for p in plan:
                if p[0] == "new":
                    out.append(ZERO)
                    continue
                x = w[ax]
                if p[0] == "int":
                    if not (odims[ax] is ONE and p[1] is ZERO):
                        conds.append(eq(x, p[1]))
                else:
                    start, dim, step = p[1:]
                    out.append(sub(x, start) if step is ONE else sub(start, x))
                    if step is ONE and not (start is ZERO and self.dims_equal(dim, odims[ax])):
                        if start is not ZERO:
                            conds.append(le(start, x))
                        if not self.dims_equal(add(start, dim), odims[ax]):
                            conds.append(lt(x, add(start, dim)))
                ax += 1
            return conds, out
        return (lambda u: b0(build(u))), inv

    def poison_aliases(self, ref, st):
        """ref was just written: the arrays that share its elements show the write"""
        o = st.get(ref)
        root = o.base
        rid = ref.id if root is None else root
        ro = st.heap.get(rid)
        known = isinstance(ro, Arr)
        if known and root is not None:
            if o.src is None:
                known = False
            else:
                ivs = tuple(IV() for _ in ro.dims)
                for k, d in zip(ivs, ro.dims):
                    self.ivdim[k] = d
                conds, w = o.src[1](list(ivs))
                ro = Arr(ivs, ro.dims, ite(AND(*conds), o.at(*w), ro.at(*ivs)), ro.dt, ro.base, ro.src)
                st.heap[rid] = ro
        for k, x in list(st.heap.items()):
            if isinstance(x, Arr) and k != ref.id:
                if k == rid and root is not None:
                    if not known:
                        st.heap[k] = self.opaque_like(x, "aliased")
                elif x.base == rid:
                    if known and x.src is not None:
                        ivs = tuple(IV() for _ in x.dims)
                        for q, d in zip(ivs, x.dims):
                            self.ivdim[q] = d
                        st.heap[k] = Arr(ivs, x.dims, ro.at(*x.src[0](list(ivs))), x.dt, x.base, x.src)
                    else:
                        st.heap[k] = self.opaque_like(x, "aliased")

    def scatter_store(self, b, o, r, val, st, accf):
        """b[plan] = val, or b[plan] = accf(old, val)"""
        dims, build, plan, kinds, bd = r
        if val is None:
            st.put(b, self.opaque_like(o, "store"))
            self.poison_aliases(b, st)
            return
        tgt = tuple(IV() for _ in o.dims)
        for k, d in zip(tgt, o.dims):
            self.ivdim[k] = d
        old = o.at(*tgt)
        # out ivs as functions of the target index (slices are affine), advanced: scatter iv
        conds, outidx = [], {}
        ax = 0
        advaxes = []
        for k, p in enumerate(plan):
            if p[0] == "new":
                continue
            t = tgt[ax]
            if p[0] == "int":
                if o.dims[ax] is ONE and p[1] is ZERO:
                    pass
                else:
                    conds.append(eq(t, p[1]))
            elif p[0] == "slice":
                start, dim, step = p[1:]
                q = sub(t, start) if step is ONE else (sub(start, t) if step is C(-1) else div(sub(t, start), step))
                outidx[k] = q
                if not (start is ZERO and self.dims_equal(dim, o.dims[ax])) and step is ONE:
                    if start is not ZERO:
                        conds.append(le(start, t))
                    if not self.dims_equal(add(start, dim), o.dims[ax]):
                        conds.append(lt(t, add(start, dim)))
                elif step not in (ONE, C(-1)):
                    conds.append(eq(mod(sub(t, start), step), ZERO))
            else:
                advaxes.append((ax, p[1]))
            ax += 1

        def value(bi):
            ivs = []
            for kd in kinds:
                if kd[0] == "b":
                    ivs.append(bi[kd[1]])
                elif kd[0] == "s":
                    ivs.append(outidx[kd[1]])
                else:
                    ivs.append(ZERO)
            if isinstance(val, T):
                return val
            if val.rank > len(ivs):
                off = val.rank - len(ivs)
                return val.at(*([ZERO] * off), *self.bindex_l(val, ivs, dims, off))
            off = len(ivs) - val.rank
            return val.at(*[ZERO if val.dims[j] is ONE and dims[off + j] is not ONE else ivs[off + j]
                            for j in range(val.rank)])
        if not advaxes:
            nv = value([])
            if accf is not None:
                nv = accf(old, nv)
            c = AND(*conds)
            self.put_arr(b, o, tgt, ite(c, nv, old), st)
            return
        if len(bd) == 1:
            q = IV("q")
            n = bd[0]
            idxs = [a.at(*self.bindex(a, [q], bd)) for _, a in advaxes]
            tg = [tgt[ax] for ax, _ in advaxes]
            nv = value([q])
            if accf is not None:
                # buffered: the old value is read once for every write
                nv = accf(old, nv)
            if isnum(n) and n.args[0] <= 8:
                body = old
                for i in range(int(n.args[0])):
                    m = {q: C(i)}
                    body = ite(AND(*[eq(tsubst(x, m), t) for x, t in zip(idxs, tg)], *conds), tsubst(nv, m), body)
                self.put_arr(b, o, tgt, body, st)
                return
            # injective identity index
            for k0, (x, t) in enumerate(zip(idxs, tg)):
                if x is q:
                    m = {q: t}
                    cc = AND(*[eq(tsubst(y, m), u) for k1, (y, u) in enumerate(zip(idxs, tg)) if k1 != k0], self.inrange(t, n), *conds)
                    self.put_arr(b, o, tgt, ite(cc, tsubst(nv, m), old), st)
                    return
            body = mk("lastw", q, n, tuple(num(x) for x in idxs), tuple(tg), num(nv), num(old))
            self.put_arr(b, o, tgt, ite(AND(*conds), body, old), st)
            return
        if len(bd) == 0:
            conds += [eq(a.at(), tgt[ax]) for ax, a in advaxes]
            nv = value([])
            if accf is not None:
                nv = accf(old, nv)
            self.put_arr(b, o, tgt, ite(AND(*conds), nv, old), st)
            return
        if len(bd) == 2 and len(advaxes) == 2 and accf is None:
            # index grids: position (p, q) -> (I(p,q), J(p,q)); row major, last write wins
            p_, q_ = IV("p"), IV("q")
            idxs = [num(a.at(*self.bindex(a, [p_, q_], bd))) for _, a in advaxes]
            tg = [tgt[ax] for ax, _ in advaxes]
            dp = [any(y is p_ for y in walk(x)) for x in idxs]
            dq = [any(y is q_ for y in walk(x)) for x in idxs]
            if sum(dp) == 1 and sum(dq) == 1 and dp != dq:
                ip, iq = dp.index(True), dq.index(True)
                nv = num(value([p_, q_]))
                inner = mk("lastw", q_, bd[1], (idxs[iq],), (tg[iq],), nv, num(old))
                hit = mk("lastw", q_, bd[1], (idxs[iq],), (tg[iq],), ONE, ZERO)
                body = mk("lastw", p_, bd[0], (idxs[ip],), (tg[ip],), inner, num(old))
                self.put_arr(b, o, tgt, ite(AND(*conds), body, old), st)
                return
        st.put(b, self.opaque_like(o, "store"))
        self.poison_aliases(b, st)

    def bindex_l(self, val, ivs, dims, off):
        return [ZERO if val.dims[off + j] is ONE and dims[j] is not ONE else ivs[j] for j in range(len(ivs))]

    def aug_store(self, b, idx, op, rhs, st, node):
        b, idx = self.res(b, st), self.res(idx, st)
        o = st.get(b)
        if isinstance(o, Arr):
            self.event("store", st, node, ref=b, idx=idx, value=rhs)
            r = self.resolve_index(o, idx, st)
            f = BIN.get(op)
            val = self.arr(rhs, st)
            if r is None or f is None or val is None:
                st.put(b, self.opaque_like(o, "store"))
                self.poison_aliases(b, st)
                return
            if r[0] == "mask":
                ivs = tuple(IV() for _ in o.dims)
                if isinstance(val, T):
                    self.put_arr(b, o, ivs, ite(r[1].at(*ivs), f(o.at(*ivs), val), o.at(*ivs)), st)
                    return
                st.put(b, self.opaque_like(o, "store"))
                self.poison_aliases(b, st)
                return
            self.scatter_store(b, o, r, val, st, lambda x, y: f(num(x), num(y)))
            return
        old = self.getitem(b, idx, st, node)
        oo = st.get(old)
        if isinstance(oo, VList) and op == "Add":
            segs = self.list_segs(rhs, st)
            st.put(old, VList(oo.segs + tuple(segs)) if segs is not None else self.opaque_like(oo, "extend"))
            self.event("mutate", st, node, ref=old)
            return
        if isinstance(oo, Arr):
            rr = st.get(self.binop(op, old, rhs, st, node))
            if isinstance(rr, Arr):
                self.inplace(old, rr, st, node)
                return
        self.store(b, idx, self.binop(op, old, rhs, st, node), st, node)

    # ------------------------------------------------------------ attributes of values
    def ext_attr(self, b, attr):
        n = b.name + "." + attr
        if n in ("numpy.pi", "math.pi"):
            return PI
        if n in ("numpy.newaxis",):
            return NONE
        if n in ("numpy.inf", "math.inf", "numpy.infty"):
            return INF
        if n in ("numpy.nan", "math.nan", "numpy.NaN"):
            return NAN
        if n in ("numpy.e", "math.e"):
            return fn("exp", ONE)
        if n == "sys.version_info":
            return VTuple([C(3), C(12), C(3)])
        if n in ("sys.float_info",):
            return Ext(n)
        return Ext(n)

    def val_attr(self, b, o, attr, st, node):
        if isinstance(o, Arr):
            if attr == "shape":
                return VTuple(o.dims)
            if attr == "ndim":
                return C(o.rank)
            if attr == "size":
                return mul(*o.dims) if o.rank else ONE
            if attr == "T":
                return self.transpose(b, None, st)
            if attr == "dtype":
                return K("dtype:" + str(o.dt))
            if attr == "flat":
                return self.reshape(o, [C(-1)], st)
        if isinstance(b, T) and attr == "shape" and b.op != "k":
            return VTuple(())
        if isinstance(b, T) and attr == "ndim":
            return ZERO
        return BoundExt(attr, b)

    def transpose(self, v, axes, st):
        A = self.arr(v, st)
        if A is None:
            return Unk(opq("T", self.term_of(v, st)))
        if isinstance(A, T):
            return A
        if axes is None:
            axes = list(range(A.rank))[::-1]
        ivs = tuple(IV() for _ in A.dims)
        src = [None] * A.rank
        for k, a in enumerate(axes):
            src[a] = ivs[k]
        base = (A.base if A.base is not None else v.id) if isinstance(v, Ref) else None
        vm = None
        if base is not None and not (A.base is not None and A.src is None):
            b0, i0 = A.src if A.base is not None else (lambda u: u, lambda t: ([], t))

            def build(u):
                w = [None] * len(axes)
                for k, a in enumerate(axes):
                    w[a] = u[k]
                return b0(w)

            def inv(t):
                c, w = i0(t)
                return c, [w[a] for a in axes]
            vm = (build, inv)
        return st.new(Arr(ivs, [A.dims[a] for a in axes], A.at(*src), A.dt, base, vm))

    def reshape(self, A, shape, st, base=None):
        if isinstance(A, T):
            A = Arr((), (), A)
        shape = [num(self.scalar(s, st)) for s in shape]
        dims = list(A.dims)
        if not shape and all(d is ONE for d in dims):
            return A.at(*[ZERO for _ in dims])
        neg1 = [k for k, s in enumerate(shape) if s is C(-1)]
        total = mul(*dims) if dims else ONE
        if len(neg1) == 1:
            others = [s for s in shape if s is not C(-1)]
            p = mul(*others) if others else ONE
            known = None
            if p is ONE:
                known = total
            else:
                rest = list(dims)
                ok = True
                for s in others:
                    if s is ONE:
                        continue
                    m = [d for d in rest if d is s]
                    if m:
                        rest.remove(m[0])
                    else:
                        ok = False
                if ok:
                    known = mul(*rest) if rest else ONE
                elif isnum(total) and isnum(p) and p.args[0]:
                    known = C(total.args[0] / p.args[0])
                else:
                    known = div(total, p)
            shape[neg1[0]] = known
        nt = [d for d in dims if d is not ONE]
        ns = [s for s in shape if s is not ONE]
        ivs = tuple(IV() for _ in shape)
        if len(nt) == len(ns) and all(self.dims_equal(x, y) for x, y in zip(nt, ns)):
            it = [v for v, s in zip(ivs, shape) if s is not ONE]
            src, k = [], 0
            for d in dims:
                if d is ONE:
                    src.append(ZERO)
                else:
                    src.append(it[k])
                    k += 1
            return st.new(Arr(ivs, shape, A.at(*src), A.dt, base))
        # row-major flat position
        pos = ZERO
        for v, s in zip(ivs, shape):
            pos = add(mul(pos, s), v) if s is not ONE else pos
        src = []
        rest = pos
        for k, d in enumerate(dims):
            inner = [x for x in dims[k + 1:] if x is not ONE]
            if d is ONE:
                src.append(ZERO)
                continue
            if not inner:
                src.append(mod(pos, d) if any(x is not ONE for x in dims[:k]) else pos)
            else:
                q = floordiv(pos, mul(*inner))
                src.append(mod(q, d) if any(x is not ONE for x in dims[:k]) else q)
        return st.new(Arr(ivs, shape, A.at(*src), A.dt, base))

    # ------------------------------------------------------------ reductions
    def axis_of(self, ax, rank, st):
        if ax is None or ax is NONE:
            return None
        ax = self.res(ax, st)
        if isinstance(ax, VTuple):
            out = []
            for x in ax.items:
                if not isnum(x):
                    return "?"
                out.append(int(x.args[0]) % rank)
            return out
        if isinstance(ax, T) and isnum(ax):
            n = int(ax.args[0])
            if not -rank <= n < rank:
                return "!"
            return [n % rank]
        return "?"

    def reduce(self, kind, v, st, axis=None, keep=False, node=None):
        v = self.res(v, st)
        if isinstance(v, Phi) and not isinstance(self.arr(v, st), Arr):
            return self.merge_val(v.c, self.reduce(kind, v.a, st, axis, keep, node),
                                  self.reduce(kind, v.b, st, axis, keep, node), st.heap)
        A = self.arr(v, st)
        if A is None:
            o = st.get(v)
            if isinstance(o, VList) and kind in ("sum",):
                r = self.list_sum(o, st)
                if r is not None:
                    return r
            if isinstance(o, VList) and kind in ("any", "all"):
                return opq(kind, self.term_of(v, st))
            return Unk(opq(kind, self.term_of(v, st)))
        if isinstance(A, T):
            if kind in ("any", "all"):
                return truth(A)
            if kind in ("argmax", "argmin"):
                return ZERO
            if kind in ("var", "std"):
                return ZERO
            return num(A)
        axes = self.axis_of(axis, A.rank, st)
        if axes == "!":
            return self.error(st, node, "axis out of bounds")
        if axes == "?":
            return Unk(opq(kind, A.lam(), self.term_of(axis, st)))
        if kind in ("mean", "var", "std"):
            ax2 = axes if axes is not None else list(range(A.rank))
            n = mul(*[A.dims[a] for a in ax2])
            s = self.reduce("sum", v, st, axis, True if kind != "mean" else keep, node)
            m = self.map1(lambda x: div(x, n), s, st)
            if kind == "mean":
                return m
            d = self.binop("Sub", v, m, st, node)
            r = self.reduce("sum", self.binop("Mult", d, d, st, node), st, axis, keep, node)
            r = self.map1(lambda x: div(x, n), r, st)
            return self.map1(NP1["sqrt"], r, st) if kind == "std" else r
        if kind in ("argmax", "argmin"):
            if axes is None:
                if A.rank > 1:
                    A = st.get(self.reshape(A, [C(-1)], st))
                axes = [0]
            k = axes[0]
            keepivs = tuple(IV() for j in range(A.rank) if j != k)
            q = IV("k")
            body = mk("red", kind, q, A.dims[k], num(A.at(*keepivs[:k], q, *keepivs[k:])))
            cv = self.consts(A) if A.rank == 1 else None
            if cv:
                return C(cv.index(max(cv) if kind == "argmax" else min(cv)))
            if not keepivs:
                return body
            return st.new(Arr(keepivs, [d for j, d in enumerate(A.dims) if j != k], body, "i"))
        if axes is None:
            axes = list(range(A.rank))
        if kind in ("max", "min") and A.rank == 1 and not keep:
            cv = self.consts(A)
            if cv and all(isinstance(x, (int, Fraction)) and not isinstance(x, bool) for x in cv):
                return C(max(cv) if kind == "max" else min(cv))
        outivs = {j: IV() for j in range(A.rank) if j not in axes}

        def go(j, idx):
            if j == A.rank:
                b = A.at(*idx)
                return num(b) if kind not in ("any", "all") else b
            if j in outivs:
                return go(j + 1, idx + [outivs[j]])
            if kind == "sum":
                return self.summ(A.dims[j], lambda q: go(j + 1, idx + [q]))
            return self.red(kind, A.dims[j], lambda q: go(j + 1, idx + [q]))
        body = go(0, [])
        if keep is True:
            ivs, dims = [], []
            for j in range(A.rank):
                ivs.append(outivs[j] if j in outivs else IV())
                dims.append(A.dims[j] if j in outivs else ONE)
            return st.new(Arr(ivs, dims, body))
        if not outivs:
            return body
        return st.new(Arr(tuple(outivs.values()), [A.dims[j] for j in outivs], body,
                          "b" if kind in ("any", "all") else None))

    def list_sum(self, o, st):
        tot = ZERO
        for s in o.segs:
            if s[0] == "item":
                v = self.arr(s[1], st)
                if not isinstance(v, T):
                    return None
                tot = add(tot, v)
            elif s[0] == "comp":
                v = self.arr(s[4], st)
                if not isinstance(v, T):
                    return None
                tot = add(tot, self.summ(s[2], lambda k: tsubst(ite(s[3], num(v), ZERO), {s[1]: k})))
            else:
                return None
        return tot

    # ------------------------------------------------------------ construction
    def shape_of(self, v, st):
        v = self.res(v, st)
        if isinstance(v, T):
            return [v]
        if isinstance(v, VTuple):
            return [num(self.scalar(x, st)) for x in v.items]
        o = st.get(v)
        if isinstance(o, VList) and o.static:
            return [num(self.scalar(x, st)) for x in o.items()]
        return None

    def full(self, shape, val, st, dt="f"):
        d = self.shape_of(shape, st)
        if d is None:
            return self.fresh_unk("full")
        ivs = tuple(IV() for _ in d)
        if not d:
            return val
        return st.new(Arr(ivs, d, val, dt))

    def rng(self, name, args, kwargs, st, node, size=None):
        self.opq_n += 1
        nm = "rng%d" % self.opq_n
        self.event("rng", st, node, name=name, args=args, kwargs=kwargs, sym=nm)
        sort = {"uniform": "real", "random": "unit", "rand": "unit", "random_sample": "unit", "gamma": "pos",
                "beta": "unit", "randint": "int", "choice": "int", "permutation": "int", "exponential": "pos"}.get(name, "real")
        if name in ("rand", "randn"):
            shape = [self.scalar(a, st) for a in args]
        else:
            if size is None:
                size = kwargs.get("size")
            if size is None:
                pos = {"normal": 2, "uniform": 2, "gamma": 2, "randint": 2, "beta": 2, "random": 0, "random_sample": 0,
                       "standard_normal": 0, "multivariate_normal": 2, "choice": 1, "exponential": 1,
                       "binomial": 2, "poisson": 1}.get(name)
                if pos is not None and len(args) > pos:
                    size = args[pos]
            shape = self.shape_of(size, st) if size is not None and size is not NONE else []
        if shape is None:
            return self.fresh_unk(nm)
        dists = [self.arr(a, st) for a in args[:2]] if name in ("normal", "uniform", "gamma", "beta") else []
        if not shape and any(isinstance(d, Arr) for d in dists):
            shape = self.bdims([d.dims for d in dists if isinstance(d, Arr)])
        if name == "multivariate_normal":
            m = self.arr(args[0], st) if args else None
            if not isinstance(m, Arr):
                return self.fresh_unk(nm)
            shape = list(shape) + list(m.dims)
        if name == "permutation":
            a = self.arr(args[0], st)
            iv = IV()
            ARRAYS[nm] = {"sort": "int"}
            if isinstance(a, Arr):
                ivs = tuple(IV() for _ in a.dims)
                return st.new(Arr(ivs, a.dims, a.at(AT(nm, ivs[0]), *ivs[1:]), a.dt))
            return st.new(Arr((iv,), (num(a) if a is not None else S("n" + nm, False, "dim"),), AT(nm, iv), "i"))
        ARRAYS[nm] = {"sort": sort}
        if name == "choice":
            a = self.arr(args[0], st) if args else (self.arr(kwargs["a"], st) if "a" in kwargs else None)
            f = (lambda t: a.at(t)) if isinstance(a, Arr) and a.rank == 1 else \
                ((lambda t: t) if isinstance(a, T) and a.op != "k" else (lambda t: opq("choice", K(nm), t)))
            if not shape:
                return f(S(nm, False, "int"))
            ivs = tuple(IV() for _ in shape)
            return st.new(Arr(ivs, shape, f(AT(nm, *ivs)), "i"))
        if not shape:
            return S(nm, sort in ("pos", "unit"), sort if sort in ("int", "unit") else "real")
        ivs = tuple(IV() for _ in shape)
        return st.new(Arr(ivs, shape, AT(nm, *ivs), "i" if sort == "int" else "f"))

    # ------------------------------------------------------------ external calls
    def call_ext(self, name, args, kwargs, st, node):
        parts = name.split(".")
        f = parts[-1]
        if name.startswith("builtins."):
            m = getattr(self, "b_" + f, None)
            if m is not None:
                return m(args, kwargs, st, node)
            return self.fresh_unk("builtin:" + f)
        if name.startswith("numpy.random."):
            if f in ("seed", "set_state", "get_state", "shuffle", "default_rng", "RandomState"):
                self.event("rng", st, node, name=f, args=args, kwargs=kwargs, sym=None)
                if f == "shuffle" and args and isinstance(args[0], Ref):
                    st.put(args[0], self.opaque_like(st.get(args[0]), "shuffle"))
                    self.event("mutate", st, node, ref=args[0])
                return self.fresh_unk(f) if f not in ("seed", "shuffle") else NONE
            return self.rng(f, args, kwargs, st, node)
        if name.startswith("random."):
            self.event("rng", st, node, name="stdlib:" + f, args=args, kwargs=kwargs, sym=None)
            if f == "shuffle" and args and isinstance(args[0], Ref):
                st.put(args[0], self.opaque_like(st.get(args[0]), "shuffle"))
            return self.fresh_unk(name)
        if name == "types.SimpleNamespace" and not args and "**" not in kwargs:
            return st.new(VObj(None, dict(kwargs), {}, "namespace"))
        if parts[0] == "itertools" and f in ("combinations", "permutations", "product") and args:
            xs = [self.sequence(a, st, node) for a in (args if f == "product" else args[:1])]
            r = self.arg(args, kwargs, 1, "r") if f != "product" else None
            if all(x is not None and len(x) <= 12 for x in xs) and (f != "product" or not kwargs):
                rc = None if r is None or r is NONE else self.constof(r)
                if f == "product":
                    return st.new(VList([("item", VTuple(list(c))) for c in itertools.product(*xs)]))
                if r is None or r is NONE or rc is not None:
                    g = getattr(itertools, f)
                    return st.new(VList([("item", VTuple(list(c))) for c in (g(xs[0]) if rc is None else g(xs[0], int(rc)))]))
        if parts[0] in ("numpy", "scipy", "math", "copy"):
            m = getattr(self, "n_" + f, None)
            if parts[:2] == ["numpy", "linalg"] or parts[:2] == ["scipy", "linalg"]:
                m = getattr(self, "la_" + f, m)
            if parts[:2] == ["scipy", "stats"]:
                m = getattr(self, "st_" + "_".join(parts[2:]), None)
            if parts[0] == "copy":
                m = getattr(self, "c_" + f, None)
            if "at" == f and len(parts) >= 3 and parts[-2] in ("add", "subtract"):
                return self.ufunc_at(parts[-2], args, st, node)
            if parts[0] == "numpy" and len(parts) > 2 and parts[1] != "linalg":
                return self.ufunc_method(parts[1:], args, kwargs, st, node)
            if m is not None:
                return m(args, kwargs, st, node)
            if f in NP1 and NP1[f] is not None and args:
                r = self.map1(NP1[f], args[0], st, "np." + f)
                return self.out(r, args[1:], kwargs, st, node)
            if f in NP2 and len(args) >= 2:
                g = NP2[f]
                if self.interior and f in ("maximum", "minimum"):
                    g = lambda x, y: self.declip(maxmin(f, x, y), st, node)
                r = self.mapn(g, args[:2], st, node, "np." + f)
                if f in ("logical_and", "logical_or", "greater", "less", "greater_equal", "less_equal", "equal", "not_equal",
                         "logical_xor", "bitwise_and", "bitwise_or") and isinstance(r, Ref):
                    st.get(r).dt = "b"
                return self.out(r, args[2:], kwargs, st, node)
        return Unk(opq("ext:" + name, *([self.term_of(a, st) for a in args] +
                                         [K(k) for k in sorted(kwargs)] + [self.term_of(kwargs[k], st) for k in sorted(kwargs)])))

    def ufunc_method(self, parts, args, kwargs, st, node):
        """np.subtract.outer, np.add.reduce ..."""
        u, f = parts[0], parts[-1]
        if len(parts) == 2 and u in NP2 and f == "outer" and len(args) == 2 and not kwargs:
            A, B = self.arr(args[0], st), self.arr(args[1], st)
            if isinstance(A, Arr) and isinstance(B, Arr):
                i, j = tuple(IV() for _ in A.dims), tuple(IV() for _ in B.dims)
                return st.new(Arr(i + j, tuple(A.dims) + tuple(B.dims), NP2[u](A.at(*i), B.at(*j))))
        red = {"add": "sum", "multiply": "prod", "maximum": "max", "minimum": "min", "logical_and": "all", "logical_or": "any"}
        if len(parts) == 2 and u in red and f == "reduce" and args and not set(kwargs) - {"axis"}:
            k = {"axis": kwargs.get("axis", args[1] if len(args) > 1 else ZERO)}
            g = getattr(self, "n_" + red[u], None)
            if len(args) < 3 and g is not None:
                return g([args[0]], k, st, node)
        return Unk(opq("ext:numpy." + ".".join(parts), *[self.term_of(a, st) for a in args]))

    def out(self, r, rest, kwargs, st, node):
        o = kwargs.get("out", rest[0] if rest else None)
        if o is not None and isinstance(o, Ref) and isinstance(st.get(o), Arr):
            a = self.arr(r, st)
            old = st.get(o)
            if isinstance(a, Arr) and a.rank == old.rank:
                self.inplace(o, Arr(a.ivs, old.dims, a.body, old.dt), st, node)
            elif isinstance(a, T):
                ivs = tuple(IV() for _ in old.dims)
                self.inplace(o, Arr(ivs, old.dims, a), st, node)
            else:
                st.put(o, self.opaque_like(old, "out"))
            return o
        return r

    def arg(self, args, kwargs, i, name, default=None):
        if name in kwargs:
            return kwargs[name]
        if len(args) > i:
            return args[i]
        return default

    def iskeep(self, kwargs):
        return kwargs.get("keepdims") is TRUE

    def n_sum(self, a, k, st, node):
        return self.reduce("sum", a[0], st, self.arg(a, k, 1, "axis"), self.iskeep(k), node)

    n_nansum = n_sum

    def n_mean(self, a, k, st, node):
        return self.reduce("mean", a[0], st, self.arg(a, k, 1, "axis"), self.iskeep(k), node)

    n_average = lambda self, a, k, st, node: (self.n_mean(a, k, st, node) if "weights" not in k and len(a) < 3
                                              else self.fresh_unk("average"))

    def n_prod(self, a, k, st, node):
        return self.reduce("prod", a[0], st, self.arg(a, k, 1, "axis"), self.iskeep(k), node)

    def n_max(self, a, k, st, node):
        return self.reduce("max", a[0], st, self.arg(a, k, 1, "axis"), self.iskeep(k), node)

    n_amax = n_max

    def n_min(self, a, k, st, node):
        return self.reduce("min", a[0], st, self.arg(a, k, 1, "axis"), self.iskeep(k), node)

    n_amin = n_min

    def n_std(self, a, k, st, node):
        return self.spread("std", a, k, st, node)

    def n_var(self, a, k, st, node):
        return self.spread("var", a, k, st, node)

    def spread(self, kind, a, k, st, node):
        ax = self.arg(a, k, 1, "axis")
        r = self.reduce(kind, a[0], st, ax, self.iskeep(k), node)
        dd = k.get("ddof", a[4] if len(a) > 4 else ZERO)
        if dd is ZERO or dd is NONE:
            return r
        A = self.arr(a[0], st)
        if not isinstance(A, Arr) or not isnum(dd):
            return self.fresh_unk(kind)
        if ax is None or ax is NONE:
            n = ONE
            for d in A.dims:
                n = mul(n, d)
        elif isnum(ax):
            n = A.dims[int(ax.args[0]) % A.rank]
        else:
            return self.fresh_unk(kind)
        f = div(n, sub(n, dd))
        if kind == "std":
            f = pw(f, C(Fraction(1, 2)))
        return self.map1(lambda x: mul(x, f), r, st)

    def n_cov(self, a, k, st, node):
        A = self.arr(a[0], st)
        if not isinstance(A, Arr) or A.rank != 2 or len(a) > 1 or set(k) - {"rowvar", "bias", "ddof"}:
            return self.fresh_unk("cov")
        row, bias, dd = k.get("rowvar", TRUE), k.get("bias", FALSE), k.get("ddof", NONE)
        if row not in (TRUE, FALSE) or bias not in (TRUE, FALSE) or not (dd is NONE or isnum(dd)):
            return self.fresh_unk("cov")
        ent = (lambda v, o: A.at(v, o)) if row is TRUE else (lambda v, o: A.at(o, v))
        nv, no = A.dims if row is TRUE else A.dims[::-1]
        d = dd if dd is not NONE else (ZERO if bias is TRUE else ONE)

        def dev(v, o):
            m = IV()
            return sub(ent(v, o), mul(pw(no, C(-1)), SUM(m, no, ent(v, m))))
        i, j, m = IV(), IV(), IV()
        return st.new(Arr((i, j), (nv, nv), mul(pw(sub(no, d), C(-1)), SUM(m, no, mul(dev(i, m), dev(j, m)))), "f"))

    def consts(self, A, lim=256):
        """entries of a fully known array: list (rank 1) or list of lists (rank 2), or None"""
        if not isinstance(A, Arr) or A.rank not in (1, 2) or not all(isnum(d) for d in A.dims):
            return None
        sh = [int(d.args[0]) for d in A.dims]
        cnt = 1
        for x in sh:
            cnt *= x
        if cnt > lim:
            return None

        def val(*ix):
            t = A.at(*[C(i) for i in ix])
            if t is TRUE or t is FALSE:
                return t is TRUE
            if t is INF or t is NINF:
                return float("inf") if t is INF else float("-inf")
            if t.op == "c":
                return t.args[0]
            raise KeyError
        try:
            return [val(i) for i in range(sh[0])] if A.rank == 1 else [[val(i, j) for j in range(sh[1])] for i in range(sh[0])]
        except KeyError:
            return None

    def from_rows(self, rows, A, st):
        """a known matrix with the width and kind of A"""
        iv, jv = IV(), IV()
        b = ZERO
        for i in reversed(range(len(rows))):
            ts = [(TRUE if v else FALSE) if isinstance(v, bool) else (INF if v > 0 else NINF) if isinstance(v, float) else C(v) for v in rows[i]]
            r = ts[-1] if ts else ZERO
            for j in range(len(ts) - 2, -1, -1):
                r = ite(eq(jv, C(j)), ts[j], r)
            b = r if i == len(rows) - 1 else ite(eq(iv, C(i)), r, b)
        return st.new(Arr((iv, jv), (C(len(rows)), A.dims[1]), b, A.dt))

    def from_consts(self, vals, st, dt="i"):
        iv = IV()
        ts = [(TRUE if v else FALSE) if isinstance(v, bool) else (INF if v > 0 else NINF) if isinstance(v, float) and v in (float("inf"), float("-inf")) else C(v)
              for v in vals]
        b = ts[-1] if ts else ZERO
        for k in range(len(ts) - 2, -1, -1):
            b = ite(eq(iv, C(k)), ts[k], b)
        return st.new(Arr((iv,), (C(len(ts)),), b, dt))

    def n_argmax(self, a, k, st, node):
        return self.reduce("argmax", a[0], st, self.arg(a, k, 1, "axis"), False, node)

    def n_argmin(self, a, k, st, node):
        return self.reduce("argmin", a[0], st, self.arg(a, k, 1, "axis"), False, node)

    def n_any(self, a, k, st, node):
        return self.reduce("any", a[0], st, self.arg(a, k, 1, "axis"), self.iskeep(k), node)

    def n_all(self, a, k, st, node):
        return self.reduce("all", a[0], st, self.arg(a, k, 1, "axis"), self.iskeep(k), node)

    def n_array(self, a, k, st, node):
        A = self.arr(a[0], st)
        if A is None:
            return Unk(opq("np.array", self.term_of(a[0], st)))
        if isinstance(A, T):
            return A
        dt = A.dt
        d = k.get("dtype", a[1] if len(a) > 1 else None)
        if d is not None:
            dt = self.dtype(d)
        return st.new(Arr(A.ivs, A.dims, A.body, dt))

    def dtype(self, d):
        n = d.name if isinstance(d, Ext) else (str(d.args[0]) if isinstance(d, T) and d.op == "k" else "")
        if "int" in n:
            return "i"
        if "bool" in n:
            return "b"
        if "float" in n or "double" in n:
            return "f"
        return None

    def n_asarray(self, a, k, st, node):
        if isinstance(st.get(a[0]), Arr):
            return a[0]
        return self.n_array(a, k, st, node)

    n_ascontiguousarray = n_asanyarray = n_asarray

    def n_copy(self, a, k, st, node):
        return self.n_array(a[:1], {}, st, node)

    def n_atleast_1d(self, a, k, st, node):
        A = self.arr(a[0], st)
        if isinstance(A, T):
            return st.new(Arr((IV(),), (ONE,), A))
        return a[0]

    def n_atleast_2d(self, a, k, st, node):
        A = self.arr(a[0], st)
        if isinstance(A, T):
            return st.new(Arr((IV(), IV()), (ONE, ONE), A))
        if isinstance(A, Arr) and A.rank == 1:
            i = IV()
            return st.new(Arr((IV(), i), (ONE,) + A.dims, A.at(i), A.dt))
        return a[0] if A is not None else Unk(opq("atleast_2d", self.term_of(a[0], st)))

    def n_zeros(self, a, k, st, node):
        return self.full(self.arg(a, k, 0, "shape"), ZERO, st, self.dt_arg(a, k))

    def n_ones(self, a, k, st, node):
        return self.full(self.arg(a, k, 0, "shape"), ONE, st, self.dt_arg(a, k))

    def dt_arg(self, a, k):
        d = self.arg(a, k, 1, "dtype")
        return self.dtype(d) if d is not None else "f"

    def n_empty(self, a, k, st, node):
        d = self.shape_of(self.arg(a, k, 0, "shape"), st)
        if d is None:
            return self.fresh_unk("empty")
        self.opq_n += 1
        ivs = tuple(IV() for _ in d)
        if d and isnum(d[0]) and d[0].args[0] == 0:
            return st.new(Arr(ivs, d, ZERO, self.dt_arg(a, k)))
        return st.new(Arr(ivs, d, AT("uninit%d" % self.opq_n, *ivs), self.dt_arg(a, k)))

    def n_full(self, a, k, st, node):
        v = self.arr(self.arg(a, k, 1, "fill_value"), st)
        if not isinstance(v, T):
            return self.fresh_unk("full")
        return self.full(self.arg(a, k, 0, "shape"), v, st, None)

    def like(self, val):
        def g(a, k, st, node):
            A = self.arr(a[0], st)
            if A is None:
                return self.fresh_unk("like")
            if isinstance(A, T):
                return val
            return st.new(Arr(tuple(IV() for _ in A.dims), A.dims, val, A.dt))
        return g

    def n_zeros_like(self, a, k, st, node):
        return self.like(ZERO)(a, k, st, node)

    def n_ones_like(self, a, k, st, node):
        return self.like(ONE)(a, k, st, node)

    def n_empty_like(self, a, k, st, node):
        self.opq_n += 1
        A = self.arr(a[0], st)
        if not isinstance(A, Arr):
            return self.fresh_unk("like")
        ivs = tuple(IV() for _ in A.dims)
        return st.new(Arr(ivs, A.dims, AT("uninit%d" % self.opq_n, *ivs), A.dt))

    def n_full_like(self, a, k, st, node):
        v = self.arr(a[1], st)
        return self.like(v)(a, k, st, node) if isinstance(v, T) else self.fresh_unk("like")

    def n_eye(self, a, k, st, node):
        n = num(self.scalar(a[0], st))
        m = num(self.scalar(a[1], st)) if len(a) > 1 else n
        i, j = IV("i"), IV("j")
        return st.new(Arr((i, j), (n, m), ite(eq(i, j), ONE, ZERO), "f"))

    n_identity = n_eye

    def n_arange(self, a, k, st, node):
        xs = [num(self.scalar(x, st)) for x in a]
        if len(xs) == 1:
            lo, hi, stp = ZERO, xs[0], ONE
        else:
            lo, hi, stp = xs[0], xs[1], (xs[2] if len(xs) > 2 else ONE)
        n = sub(hi, lo) if stp is ONE else (sub(lo, hi) if stp is C(-1) else fn("ceil", div(sub(hi, lo), stp)))
        i = IV()
        return st.new(Arr((i,), (n,), add(lo, mul(i, stp)), "i"))

    def n_linspace(self, a, k, st, node):
        lo, hi = num(self.scalar(a[0], st)), num(self.scalar(a[1], st))
        n = num(self.scalar(self.arg(a, k, 2, "num", C(50)), st))
        if k.get("endpoint") is FALSE:
            den = n
        else:
            den = sub(n, ONE)
        i = IV()
        return st.new(Arr((i,), (n,), add(lo, mul(i, div(sub(hi, lo), den))), "f"))

    def n_repeat(self, a, k, st, node):
        A = self.arr(a[0], st)
        n = self.scalar(self.arg(a, k, 1, "repeats"), st)
        ax = self.arg(a, k, 2, "axis")
        if A is None or not isinstance(n, T):
            return self.fresh_unk("repeat")
        n = num(n)
        if isinstance(A, T):
            return st.new(Arr((IV(),), (n,), A))
        axes = self.axis_of(ax, A.rank, st)
        if axes is None:
            if A.rank != 1:
                A = st.get(self.reshape(A, [C(-1)], st))
            axes = [0]
        if axes in ("?", "!"):
            return self.fresh_unk("repeat")
        x = axes[0]
        ivs = tuple(IV() for _ in A.dims)
        d = A.dims[x]
        src = ZERO if d is ONE else floordiv(ivs[x], n)
        dims = list(A.dims)
        dims[x] = mul(d, n)
        return st.new(Arr(ivs, dims, A.at(*ivs[:x], src, *ivs[x + 1:]), A.dt))

    def n_tile(self, a, k, st, node):
        A = self.arr(a[0], st)
        reps = self.shape_of(a[1], st)
        if A is None or reps is None:
            return self.fresh_unk("tile")
        if isinstance(A, T):
            A = Arr((), (), A)
        r = max(A.rank, len(reps))
        dims = [ONE] * (r - A.rank) + list(A.dims)
        reps = [ONE] * (r - len(reps)) + reps
        ivs = tuple(IV() for _ in range(r))
        src = []
        for v, d, q in list(zip(ivs, dims, reps))[r - A.rank:]:
            src.append(v if q is ONE else (ZERO if d is ONE else mod(v, d)))
        return st.new(Arr(ivs, [mul(d, q) for d, q in zip(dims, reps)], A.at(*src), A.dt))

    def n_broadcast_to(self, a, k, st, node):
        A = self.arr(a[0], st)
        d = self.shape_of(a[1], st)
        if A is None or d is None:
            return self.fresh_unk("broadcast_to")
        ivs = tuple(IV() for _ in d)
        if isinstance(A, T):
            return st.new(Arr(ivs, d, A))
        return st.new(Arr(ivs, d, A.at(*self.bindex(A, ivs, d)), A.dt))

    def n_expand_dims(self, a, k, st, node):
        A = self.arr(a[0], st)
        ax = self.scalar(self.arg(a, k, 1, "axis"), st)
        if not isinstance(A, Arr) or not isnum(ax):
            return self.fresh_unk("expand_dims")
        x = int(ax.args[0]) % (A.rank + 1)
        ivs = tuple(IV() for _ in range(A.rank + 1))
        return st.new(Arr(ivs, A.dims[:x] + (ONE,) + A.dims[x:], A.at(*ivs[:x], *ivs[x + 1:]), A.dt))

    def n_squeeze(self, a, k, st, node):
        A = self.arr(a[0], st)
        if not isinstance(A, Arr):
            return a[0]
        keep = [j for j, d in enumerate(A.dims) if d is not ONE]
        ivs = {j: IV() for j in keep}
        return self.wrap(Arr(tuple(ivs.values()), [A.dims[j] for j in keep],
                             A.at(*[ivs.get(j, ZERO) for j in range(A.rank)]), A.dt), st)

    def n_reshape(self, a, k, st, node):
        A = self.arr(a[0], st)
        if A is None:
            return self.fresh_unk("reshape")
        sh = self.shape_of(a[1], st)
        return self.reshape(A, sh, st) if sh is not None else self.fresh_unk("reshape")

    def n_ravel(self, a, k, st, node):
        A = self.arr(a[0], st)
        return self.reshape(A, [C(-1)], st) if A is not None else self.fresh_unk("ravel")

    def n_transpose(self, a, k, st, node):
        ax = self.arg(a, k, 1, "axes")
        if ax is not None and ax is not NONE:
            s = self.shape_of(ax, st)
            if s is None or not all(isnum(x) for x in s):
                return self.fresh_unk("transpose")
            return self.transpose(a[0], [int(x.args[0]) for x in s], st)
        return self.transpose(a[0], None, st)

    def n_swapaxes(self, a, k, st, node):
        A = self.arr(a[0], st)
        if not isinstance(A, Arr) or not (isnum(a[1]) and isnum(a[2])):
            return self.fresh_unk("swapaxes")
        ax = list(range(A.rank))
        x, y = int(a[1].args[0]) % A.rank, int(a[2].args[0]) % A.rank
        ax[x], ax[y] = ax[y], ax[x]
        return self.transpose(a[0], ax, st)

    def n_moveaxis(self, a, k, st, node):
        A = self.arr(a[0], st)
        if not isinstance(A, Arr) or not (isnum(a[1]) and isnum(a[2])):
            return self.fresh_unk("moveaxis")
        ax = list(range(A.rank))
        x, y = int(a[1].args[0]) % A.rank, int(a[2].args[0]) % A.rank
        ax.insert(y, ax.pop(x))
        return self.transpose(a[0], ax, st)

    def concat(self, As, axis, st):
        if any(A is None for A in As) or not As:
            return self.fresh_unk("concat")
        As = [A if isinstance(A, Arr) else Arr((), (), A) for A in As]
        r = As[0].rank
        if any(A.rank != r for A in As) or r == 0:
            return self.fresh_unk("concat")
        if not -r <= axis < r:
            return self.error(st, None, "axis %d does not exist" % axis)
        x = axis % r
        for A in As[1:]:
            for k in range(r):
                if k != x and isnum(A.dims[k]) and isnum(As[0].dims[k]) and A.dims[k] is not As[0].dims[k]:
                    return self.error(st, None, "joined arrays differ along axis %d: %s and %s" % (
                        k, show(As[0].dims[k]), show(A.dims[k])))
        ivs = tuple(IV() for _ in range(r))
        off, body = ZERO, None
        parts = []
        for A in As:
            if isnum(A.dims[x]) and A.dims[x].args[0] == 0:
                continue
            parts.append((off, A))
            off = add(off, A.dims[x])
        if not parts:
            return st.new(As[0])
        for o, A in reversed(parts):
            b = A.at(*ivs[:x], sub(ivs[x], o), *ivs[x + 1:])
            body = b if body is None else ite(lt(ivs[x], add(o, A.dims[x])), b, body)
        dims = list(parts[0][1].dims)
        dims[x] = off
        return st.new(Arr(ivs, dims, body, parts[0][1].dt))

    def seq_arrays(self, v, st):
        o = st.get(self.res(v, st))
        if isinstance(v, VTuple):
            return [self.arr(x, st) for x in v.items]
        if isinstance(o, VList) and o.static:
            return [self.arr(x, st) for x in o.items()]
        return None

    def n_concatenate(self, a, k, st, node):
        xs = self.seq_arrays(a[0], st)
        ax = self.arg(a, k, 1, "axis", ZERO)
        if xs is None or not isinstance(ax, T) or not isnum(ax):
            return Unk(opq("concatenate", self.term_of(a[0], st)))
        return self.concat(xs, int(ax.args[0]), st)

    def n_hstack(self, a, k, st, node):
        xs = self.seq_arrays(a[0], st)
        if xs is None or any(x is None for x in xs):
            return Unk(opq("hstack", self.term_of(a[0], st)))
        xs = [Arr((IV(),), (ONE,), x) if isinstance(x, T) else x for x in xs]
        return self.concat(xs, 0 if xs[0].rank == 1 else 1, st)

    def n_vstack(self, a, k, st, node):
        xs = self.seq_arrays(a[0], st)
        if xs is None or any(x is None for x in xs):
            return Unk(opq("vstack", self.term_of(a[0], st)))
        ys = []
        for x in xs:
            if isinstance(x, T):
                x = Arr((IV(),), (ONE,), x)
            if x.rank == 1:
                i = IV()
                x = Arr((IV(), i), (ONE,) + x.dims, x.at(i), x.dt)
            ys.append(x)
        return self.concat(ys, 0, st)

    def n_stack(self, a, k, st, node):
        xs = self.seq_arrays(a[0], st)
        ax = self.arg(a, k, 1, "axis", ZERO)
        if xs is None or any(x is None for x in xs) or not isnum(ax):
            A = self.arr(a[0], st)
            if isinstance(A, Arr) and ax is ZERO:
                return st.new(A)
            return self.fresh_unk("stack")
        r = (xs[0].rank if isinstance(xs[0], Arr) else 0) + 1
        x = int(ax.args[0]) % r
        ivs = tuple(IV() for _ in range(r))
        rest = ivs[:x] + ivs[x + 1:]
        vals = [y.at(*rest) if isinstance(y, Arr) else y for y in xs]
        d = list(xs[0].dims) if isinstance(xs[0], Arr) else []
        d.insert(x, C(len(xs)))
        return st.new(Arr(ivs, d, self.select(ivs[x], vals)))

    def n_column_stack(self, a, k, st, node):
        xs = self.seq_arrays(a[0], st)
        if xs is None or any(not isinstance(x, Arr) for x in xs):
            return self.fresh_unk("column_stack")
        ys = []
        for x in xs:
            if x.rank == 1:
                i = IV()
                x = Arr((i, IV()), x.dims + (ONE,), x.at(i), x.dt)
            ys.append(x)
        return self.concat(ys, 1, st)

    def n_append(self, a, k, st, node):
        ax = self.arg(a, k, 2, "axis")
        A, B = self.arr(a[0], st), self.arr(a[1], st)
        if A is None or B is None:
            return Unk(opq("append", self.term_of(a[0], st), self.term_of(a[1], st)))
        if ax is None or ax is NONE:
            ys = []
            for x in (A, B):
                if isinstance(x, T):
                    ys.append(Arr((IV(),), (ONE,), x))
                elif x.rank != 1:
                    ys.append(st.get(self.reshape(x, [C(-1)], st)))
                else:
                    ys.append(x)
            return self.concat(ys, 0, st)
        if not isnum(ax):
            return self.fresh_unk("append")
        if isinstance(A, T) or isinstance(B, T) or A.rank != B.rank:
            return self.error(st, node, "np.append of arrays of different rank with axis")
        return self.concat([A, B], int(ax.args[0]), st)

    def n_where(self, a, k, st, node):
        if len(a) == 1:
            A = self.arr(a[0], st)
            cv = self.consts(A)
            if cv is not None and A.rank == 1:
                return VTuple([self.from_consts([i for i, v in enumerate(cv) if v], st)])
            if cv is not None:
                pos = [(i, j) for i, r in enumerate(cv) for j, v in enumerate(r) if v]
                return VTuple([self.from_consts([p[0] for p in pos], st), self.from_consts([p[1] for p in pos], st)])
            if isinstance(A, Arr) and A.rank == 1:
                i = IV()
                n = S("count(%d)" % A.lam().uid, False, "dim")
                return VTuple([st.new(Arr((i,), (n,), opq("nonzero", A.lam(), i), "i"))])
            return self.fresh_unk("where")
        return self.mapn(lambda c, x, y: ite(truth(c), num(x), num(y)), a[:3], st, node, "where")

    def n_nonzero(self, a, k, st, node):
        return self.n_where(a[:1], k, st, node)

    def n_flatnonzero(self, a, k, st, node):
        A = self.arr(a[0], st)
        if isinstance(A, Arr) and A.rank == 1:
            r = self.n_where(a[:1], k, st, node)
            return r.items[0] if isinstance(r, VTuple) else r
        cv = self.consts(A)
        if cv is not None and A.rank == 2:
            return self.from_consts([i for i, v in enumerate([v for r in cv for v in r]) if v], st)
        return self.fresh_unk("flatnonzero")

    def n_argwhere(self, a, k, st, node):
        A = self.arr(a[0], st)
        r = self.n_where(a[:1], k, st, node)
        if isinstance(r, VTuple) and isinstance(A, Arr) and len(r.items) == A.rank:
            cols = [self.arr(x, st) for x in r.items]
            if all(isinstance(x, Arr) and x.rank == 1 for x in cols):
                i, j = IV(), IV()
                b = cols[-1].at(i)
                for c in reversed(range(len(cols) - 1)):
                    b = ite(eq(j, C(c)), cols[c].at(i), b)
                return st.new(Arr((i, j), (cols[0].dims[0], C(len(cols))), b, "i"))
        return self.fresh_unk("argwhere")

    def n_clip(self, a, k, st, node):
        lo = self.arg(a, k, 1, "a_min", k.get("min", NONE))
        hi = self.arg(a, k, 2, "a_max", k.get("max", NONE))
        two = lo is not NONE and hi is not NONE
        if two:
            self.event("clip", st, node, x=self.arr(a[0], st), lo=lo, hi=hi)
        if self.interior and two:
            r = self.map1(lambda x: x, a[0], st)
        else:
            r = self.mapn(self.clipf, [a[0], lo, hi], st, node, "clip")
        return self.out(r, a[3:], k, st, node)

    def declip(self, t, st, node):
        """interior mode: a value limited from both sides by scalars is taken between its limits"""
        def limit(b):
            return not any(w.op in ("iv", "at") for w in walk(b))
        if isinstance(t, T) and t.op == "fn" and t.args[0] in ("maximum", "minimum"):
            other = "minimum" if t.args[0] == "maximum" else "maximum"
            for b, u in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
                if limit(b) and u.op == "fn" and u.args[0] == other:
                    for c, z in ((u.args[1], u.args[2]), (u.args[2], u.args[1])):
                        if limit(c) and not limit(z):
                            lo, hi = (c, b) if other == "maximum" else (b, c)
                            if isnum(lo) and isnum(hi) and lo.args[0] >= hi.args[0]:
                                return t
                            self.event("clip", st, node, x=z, lo=lo, hi=hi)
                            return z
        return t

    @staticmethod
    def clipf(x, lo, hi):
        if lo is not NONE:
            x = fn("maximum", x, lo)
        if hi is not NONE:
            x = fn("minimum", x, hi)
        return x

    def n_isinf(self, a, k, st, node):
        return self.pred("isinf", a, st)

    def n_isnan(self, a, k, st, node):
        return self.pred("isnan", a, st)

    def n_isfinite(self, a, k, st, node):
        r = self.mapn(lambda x: TRUE if self.interior else NOT(opq("isinf", x)), a[:1], st, node)
        if isinstance(r, Ref):
            st.get(r).dt = "b"
        return r

    def pred(self, nm, a, st):
        def f(x):
            if x in (INF, NINF):
                return TRUE if nm == "isinf" else FALSE
            return FALSE if self.interior else opq(nm, x)
        r = self.mapn(f, a[:1], st, None, nm)
        if isinstance(r, Ref):
            st.get(r).dt = "b"
        return r

    def n_nan_to_num(self, a, k, st, node):
        return self.map1(lambda x: x, a[0], st) if self.interior else self.fresh_unk("nan_to_num")

    def n_array_equal(self, a, k, st, node):
        if same(a[0], a[1]):
            return TRUE
        A, B = self.arr(a[0], st), self.arr(a[1], st)
        if isinstance(A, Arr) and isinstance(B, Arr):
            if A.rank != B.rank:
                return FALSE
            if A.rank == 0:
                return eq(A.body, B.body)
            dc = AND(*[TRUE if self.dims_equal(p, q) else eq(p, q) for p, q in zip(A.dims, B.dims)])

            def go(j, idx):
                if j == A.rank:
                    return eq(A.at(*idx), B.at(*idx))
                return self.red("all", A.dims[j], lambda q: go(j + 1, idx + [q]))
            try:
                ivs = tuple(IV() for _ in A.dims)
                if norm(A.at(*ivs)) is norm(B.at(*ivs)):
                    return dc
            except Limit:
                pass
            return AND(dc, go(0, []))
        if isinstance(A, T) and isinstance(B, T):
            return eq(A, B)
        return truth(opq("array_equal", self.term_of(a[0], st), self.term_of(a[1], st)))

    def n_isclose(self, a, k, st, node):
        r = self.arg(a, k, 2, "rtol", C(Fraction(1, 10 ** 5)))
        t = self.arg(a, k, 3, "atol", C(Fraction(1, 10 ** 8)))
        r, t = self.scalar(r, st), self.scalar(t, st)
        if not isinstance(r, T) or not isinstance(t, T):
            return self.fresh_unk("isclose")
        o = self.mapn(lambda x, y: NOT(lt(add(t, mul(r, fn("abs", y))), fn("abs", sub(x, y)))), a[:2], st, node)
        if isinstance(o, Ref) and isinstance(st.get(o), Arr):
            st.get(o).dt = "b"
        return o

    def n_allclose(self, a, k, st, node):
        A, B = self.arr(a[0], st), self.arr(a[1], st)
        if isinstance(A, (Arr, T)) and isinstance(B, (Arr, T)):
            o = self.n_isclose(a, k, st, node)
            if isinstance(o, T):
                return truth(o)
            if isinstance(o, Ref) and isinstance(st.get(o), Arr):
                return self.reduce("all", o, st, None, False, node)
        return truth(opq("allclose", self.term_of(a[0], st), self.term_of(a[1], st)))

    def n_dot(self, a, k, st, node):
        return self.dot(a[0], a[1], st, node)

    def n_matmul(self, a, k, st, node):
        return self.matmul(a[0], a[1], st, node)

    def n_inner(self, a, k, st, node):
        A, B = self.arr(a[0], st), self.arr(a[1], st)
        if isinstance(A, Arr) and isinstance(B, Arr) and A.rank == B.rank == 1:
            return self.matmul(a[0], a[1], st, node)
        return self.fresh_unk("inner")

    n_vdot = n_inner

    def n_outer(self, a, k, st, node):
        A, B = self.arr(a[0], st), self.arr(a[1], st)
        if not (isinstance(A, Arr) and isinstance(B, Arr) and A.rank == B.rank == 1):
            return self.fresh_unk("outer")
        i, j = IV("i"), IV("j")
        return st.new(Arr((i, j), A.dims + B.dims, mul(A.at(i), B.at(j))))

    def n_einsum(self, a, k, st, node):
        if not (isinstance(a[0], T) and a[0].op == "k"):
            return self.fresh_unk("einsum")
        spec = a[0].args[0].replace(" ", "")
        if "..." in spec:
            return self.fresh_unk("einsum")
        ins, _, outp = spec.partition("->")
        ins = ins.split(",")
        As = [self.arr(x, st) for x in a[1:]]
        if any(not isinstance(A, Arr) for A in As) or len(As) != len(ins) or any(len(s) != A.rank for s, A in zip(ins, As)):
            return self.fresh_unk("einsum")
        if "->" not in spec:
            allc = "".join(ins)
            outp = "".join(sorted(c for c in set(allc) if allc.count(c) == 1))
        dims = {}
        for s, A in zip(ins, As):
            for c, d in zip(s, A.dims):
                if c not in dims or (isnum(d) and not isnum(dims[c]) and d is not ONE):
                    dims[c] = d
        ov = {c: IV(c) for c in outp}
        summed = sorted(c for c in dims if c not in outp)

        def go(j, env):
            if j == len(summed):
                return mul(*[num(A.at(*[env[c] for c in s])) for s, A in zip(ins, As)])
            return self.summ(dims[summed[j]], lambda q: go(j + 1, dict(env, **{summed[j]: q})))
        body = go(0, dict(ov))
        return self.wrap(Arr(tuple(ov[c] for c in outp), [dims[c] for c in outp], body), st)

    def n_trace(self, a, k, st, node):
        A = self.arr(a[0], st)
        ax = []
        for q, nm, df in ((2, "axis1", ZERO), (3, "axis2", ONE)):
            v = k.get(nm, a[q] if len(a) > q else df)
            v = self.scalar(v, st)
            ax.append(int(v.args[0]) if isnum(v) else None)
        off = k.get("offset", a[1] if len(a) > 1 else ZERO)
        if isinstance(A, Arr) and A.rank in (2, 3) and None not in ax and off is ZERO:
            x, y = (q % A.rank for q in ax)
            if x == y:
                return self.error(st, node, "trace over one axis twice")
            if A.rank == 3:
                b = 3 - x - y
                i = IV()

                def ent(q):
                    z = [None] * 3
                    z[x], z[y], z[b] = q, q, i
                    return A.at(*z)
                return st.new(Arr((i,), (A.dims[b],), self.summ(A.dims[x], ent)))
        if not isinstance(A, Arr) or A.rank != 2 or off is not ZERO:
            return Unk(opq("trace", self.term_of(a[0], st)))
        return self.summ(A.dims[0], lambda q: A.at(q, q))

    def n_diag(self, a, k, st, node):
        A = self.arr(a[0], st)
        if len(a) > 1 or k:
            return self.fresh_unk("diag")
        if isinstance(A, Arr) and A.rank == 2:
            i = IV()
            return st.new(Arr((i,), (A.dims[0],), A.at(i, i), A.dt))
        if isinstance(A, Arr) and A.rank == 1:
            return self.diagm(A, st)
        return self.fresh_unk("diag")

    def diagm(self, A, st):
        i, j = IV("i"), IV("j")
        return st.new(Arr((i, j), (A.dims[0], A.dims[0]), ite(eq(i, j), num(A.at(i)), ZERO), A.dt))

    def n_diagflat(self, a, k, st, node):
        A = self.arr(a[0], st)
        if isinstance(A, Arr) and A.rank == 1:
            return self.diagm(A, st)
        return self.fresh_unk("diagflat")

    def n_diagonal(self, a, k, st, node):
        A = self.arr(a[0], st)
        ax1, ax2 = self.arg(a, k, 2, "axis1", ZERO), self.arg(a, k, 3, "axis2", ONE)
        if not isinstance(A, Arr) or not (isnum(ax1) and isnum(ax2)):
            return self.fresh_unk("diagonal")
        x, y = int(ax1.args[0]) % A.rank, int(ax2.args[0]) % A.rank
        rest = {j: IV() for j in range(A.rank) if j not in (x, y)}
        d = IV()
        idx = [d if j in (x, y) else rest[j] for j in range(A.rank)]
        return st.new(Arr(tuple(rest.values()) + (d,), [A.dims[j] for j in rest] + [A.dims[x]], A.at(*idx), A.dt))

    def n_fill_diagonal(self, a, k, st, node):
        A = st.get(a[0])
        v = self.arr(a[1], st)
        if not isinstance(A, Arr) or A.rank != 2 or v is None:
            if isinstance(a[0], Ref):
                st.put(a[0], self.opaque_like(A, "fill"))
            return NONE
        i, j = IV("i"), IV("j")
        val = v if isinstance(v, T) else v.at(i)
        self.put_arr(a[0], A, (i, j), ite(eq(i, j), num(val), A.at(i, j)), st)
        self.event("mutate", st, node, ref=a[0])
        return NONE

    def n_diag_indices(self, a, k, st, node):
        n = num(self.scalar(a[0], st))
        i, j = IV(), IV()
        return VTuple([st.new(Arr((i,), (n,), i, "i")), st.new(Arr((j,), (n,), j, "i"))])

    def n_meshgrid(self, a, k, st, node):
        As = [self.arr(x, st) for x in a]
        if len(As) == 2 and all(isinstance(A, Arr) and A.rank == 1 for A in As):
            ij = k.get("indexing") is K("ij")
            out = []
            for which in (0, 1):
                i, j = IV(), IV()
                if ij:
                    dims = (As[0].dims[0], As[1].dims[0])
                    b = As[which].at(i if which == 0 else j)
                else:
                    dims = (As[1].dims[0], As[0].dims[0])
                    b = As[which].at(j if which == 0 else i)
                out.append(st.new(Arr((i, j), dims, b, As[which].dt)))
            return st.new(VList.of(out))
        return self.fresh_unk("meshgrid")

    def n_ix_(self, a, k, st, node):
        As = [self.arr(x, st) for x in a]
        if not all(isinstance(A, Arr) and A.rank == 1 for A in As):
            return self.fresh_unk("ix_")
        out = []
        for q, A in enumerate(As):
            ivs = tuple(IV() for _ in As)
            dims = [ONE] * len(As)
            dims[q] = A.dims[0]
            out.append(st.new(Arr(ivs, dims, A.at(ivs[q]), "i")))
        return VTuple(out)

    def ufunc_at(self, f, a, st, node):
        o = st.get(a[0])
        if not isinstance(o, Arr):
            return NONE
        self.event("store", st, node, ref=a[0], idx=a[1], value=a[2] if len(a) > 2 else ONE)
        r = self.resolve_index(o, a[1], st)
        val = self.arr(a[2], st)
        if r is None or r[0] == "mask" or val is None:
            st.put(a[0], self.opaque_like(o, "at"))
            self.poison_aliases(a[0], st)
            return NONE
        dims, build, plan, kinds, bd = r
        tgt = tuple(IV() for _ in o.dims)
        old = o.at(*tgt)

        def go(j, ivs):
            if j == len(dims):
                c = AND(*[eq(s, t) for s, t in zip(build(ivs), tgt)])
                if isinstance(val, T):
                    v = val
                else:
                    off = len(ivs) - val.rank
                    v = val.at(*[ZERO if val.dims[q] is ONE and dims[off + q] is not ONE else ivs[off + q]
                                 for q in range(val.rank)])
                return ite(c, num(v), ZERO)
            return self.summ(dims[j], lambda q: go(j + 1, ivs + [q]))
        d = go(0, [])
        self.put_arr(a[0], o, tgt, add(num(old), d if f == "add" else neg(d)), st)
        return NONE

    def n_bincount(self, a, k, st, node):
        X = self.arr(a[0], st)
        W = self.arg(a, k, 1, "weights")
        n = self.arg(a, k, 2, "minlength")
        cv = self.consts(X)
        if cv and isinstance(cv[0], (int, Fraction)):
            m = C(int(max(cv)) + 1)
            n = m if n is None else C(max(m.args[0], num(self.scalar(n, st)).args[0])) if isnum(num(self.scalar(n, st))) else None
        if not isinstance(X, Arr) or n is None:
            return self.fresh_unk("bincount")
        w = self.arr(W, st) if W is not None else ONE
        i = IV()
        return st.new(Arr((i,), (num(self.scalar(n, st)),), self.summ(
            X.dims[0], lambda q: ite(eq(X.at(q), i), w if isinstance(w, T) else w.at(q), ZERO))))

    def n_unique(self, a, k, st, node):
        A = self.arr(a[0], st)
        cv = self.consts(A)
        more = ("return_index", "return_inverse", "return_counts")
        ask = [q for q, nm in enumerate(more) if self.arg(a, k, q + 1, nm, FALSE) is TRUE]
        ax = self.arg(a, k, 4, "axis")
        known = all(self.arg(a, k, q + 1, nm, FALSE) in (TRUE, FALSE) for q, nm in enumerate(more)) and not set(k) - set(more) - {"axis"}
        if cv is not None and known and (A.rank == 1 and ax in (None, NONE, ZERO) or A.rank == 2 and ax is ZERO):
            keys = [tuple(r) for r in cv] if A.rank == 2 else cv
            u = sorted(set(keys))
            r = self.from_rows([list(x) for x in u], A, st) if A.rank == 2 else self.from_consts(u, st, A.dt)
            if not ask:
                return r
            ex = [[keys.index(x) for x in u], [u.index(x) for x in keys], [keys.count(x) for x in u]]
            return VTuple([r] + [self.from_consts(ex[q], st) for q in ask])
        r = Unk(opq("unique", self.term_of(a[0], st)))
        return r

    def n_isin(self, a, k, st, node):
        A, B = self.arr(a[0], st), self.arr(a[1], st)
        inv = k.get("invert", FALSE)
        if isinstance(B, T) and not isinstance(A, Unk):
            B = Arr((IV(),), (ONE,), B)
        if not isinstance(A, (Arr, T)) or not isinstance(B, Arr) or B.rank != 1 or inv not in (TRUE, FALSE) or set(k) - {"invert", "assume_unique", "kind"}:
            return self.fresh_unk("isin")

        def one(x):
            t = self.red("any", B.dims[0], lambda q: eq(x, B.at(q)))
            return NOT(t) if inv is TRUE else t
        if isinstance(A, T):
            return one(A)
        ivs = tuple(IV() for _ in A.dims)
        return st.new(Arr(ivs, A.dims, one(A.at(*ivs)), "b"))

    n_in1d = n_isin

    def n_count_nonzero(self, a, k, st, node):
        r = self.mapn(lambda x: ite(truth(x), ONE, ZERO), a[:1], st, node)
        return self.n_sum([r] + list(a[1:]), k, st, node)

    def n_corrcoef(self, a, k, st, node):
        """correlations of the rows"""
        X = a[0]
        y = self.arg(a, k, 1, "y")
        rv = self.arg(a, k, 2, "rowvar", TRUE)
        A = self.arr(X, st)
        if not isinstance(A, Arr) or A.rank != 2 or rv not in (TRUE, FALSE):
            return self.fresh_unk("corrcoef")
        if rv is FALSE:
            X = self.n_transpose([X], {}, st, node)
        if y is not None and y is not NONE:
            if rv is FALSE:
                y = self.n_transpose([y], {}, st, node)
            X = self.n_append([X, y], {"axis": ZERO}, st, node)
        A = self.arr(X, st)
        if not isinstance(A, Arr) or A.rank != 2:
            return self.fresh_unk("corrcoef")
        i, j = IV(), IV()

        def mean(r):
            q = IV()
            return div(SUM(q, A.dims[1], A.at(r, q)), A.dims[1])

        def co(r, c):
            q = IV()
            return SUM(q, A.dims[1], mul(sub(A.at(r, q), mean(r)), sub(A.at(c, q), mean(c))))
        h = C(Fraction(-1, 2))
        return st.new(Arr((i, j), (A.dims[0], A.dims[0]), mul(co(i, j), pw(co(i, i), h), pw(co(j, j), h)), "f"))

    def st_rankdata(self, a, k, st, node):
        """ranks from 1, ties share their mean rank"""
        A = self.arr(a[0], st)
        m = self.arg(a, k, 1, "method", K("average"))
        ax = self.arg(a, k, 2, "axis")
        if not isinstance(A, Arr) or m is not K("average"):
            return self.fresh_unk("rankdata")
        ax = [0] if A.rank == 1 and (ax is None or ax is NONE) else self.axis_of(ax, A.rank, st)
        if not isinstance(ax, list) or len(ax) != 1:
            return self.fresh_unk("rankdata")
        ax = ax[0]
        ivs, q = [IV() for _ in A.dims], IV()
        x, y = A.at(*ivs), A.at(*[q if p == ax else v for p, v in enumerate(ivs)])
        less, same = SUM(q, A.dims[ax], ite(lt(y, x), ONE, ZERO)), SUM(q, A.dims[ax], ite(eq(y, x), ONE, ZERO))
        return st.new(Arr(tuple(ivs), A.dims, add(less, div(add(same, ONE), TWO)), "f"))

    def sequence(self, v, st, node):
        """the items of a sequence whose items are known, or None"""
        try:
            o = st.get(self.b_list([v], {}, st, node))
        except Exception:
            return None
        return list(o.items()) if isinstance(o, VList) and o.static else None

    def n_comb(self, a, k, st, node):
        x, y = (self.constof(self.scalar(q, st)) if len(a) == 2 and not k else None for q in a[:2]) if len(a) == 2 else (None, None)
        if x is None or y is None or x != int(x) or y != int(y) or x < 0 or y < 0:
            return self.fresh_unk("comb")
        return C(math.comb(int(x), int(y)))

    def n_sort(self, a, k, st, node):
        A = self.arr(a[0], st)
        cv = self.consts(A)
        if cv is not None and A.rank == 1:
            return self.from_consts(sorted(cv), st, A.dt)
        if cv is not None and A.rank == 2:
            ax = self.arg(a, k, 1, "axis")
            if ax is None or ax in (ONE, C(-1)):
                return self.from_rows([sorted(r) for r in cv], A, st)
            if ax in (ZERO, C(-2)):
                return self.from_rows([list(r) for r in zip(*[sorted(c) for c in zip(*cv)])], A, st)
        if isinstance(A, Arr):
            ivs = tuple(IV() for _ in A.dims)
            return st.new(Arr(ivs, A.dims, opq("sorted", A.lam(), *ivs), A.dt))
        return self.fresh_unk("sort")

    def n_argsort(self, a, k, st, node):
        A = self.arr(a[0], st)
        cv = self.consts(A)
        if cv is not None and A.rank == 1:
            return self.from_consts(sorted(range(len(cv)), key=lambda i: cv[i]), st)
        if isinstance(A, Arr):
            ivs = tuple(IV() for _ in A.dims)
            return st.new(Arr(ivs, A.dims, opq("argsort", A.lam(), *ivs), "i"))
        return self.fresh_unk("argsort")

    def n_cumsum(self, a, k, st, node):
        A = self.arr(a[0], st)
        if isinstance(A, Arr) and A.rank == 1:
            i = IV()
            return st.new(Arr((i,), A.dims, self.summ(add(i, ONE), lambda q: A.at(q))))
        return self.fresh_unk("cumsum")

    def n_flip(self, a, k, st, node):
        A = self.arr(a[0], st)
        ax = self.axis_of(self.arg(a, k, 1, "axis"), A.rank, st) if isinstance(A, Arr) else "?"
        if ax in ("?", "!"):
            return self.fresh_unk("flip")
        ivs = tuple(IV() for _ in A.dims)
        src = [sub(sub(d, ONE), v) if (ax is None or j in ax) else v for j, (v, d) in enumerate(zip(ivs, A.dims))]
        return st.new(Arr(ivs, A.dims, A.at(*src), A.dt))

    def n_triu_indices(self, a, k, st, node, up=True):
        v = [self.constof(self.scalar(x, st)) for x in (a[0], self.arg(a, k, 1, "k", ZERO))]
        if None in v or len(a) > 2 or set(k) - {"k"} or v[0] > 40:
            return self.fresh_unk("triu_indices")
        ix = [(i, j) for i in range(int(v[0])) for j in range(int(v[0])) if (j - i >= v[1] if up else j - i <= v[1])]
        return VTuple([self.from_consts([x[q] for x in ix], st) for q in (0, 1)])

    def n_tril_indices(self, a, k, st, node):
        return self.n_triu_indices(a, k, st, node, False)

    def n_delete(self, a, k, st, node):
        A = self.arr(a[0], st)
        ax = a[2] if len(a) > 2 else k.get("axis", NONE)
        ax = self.constof(self.scalar(ax, st)) if ax is not NONE else None
        rm = self.arr(a[1], st) if len(a) > 1 else None
        idx = None
        if isinstance(rm, T):
            idx = [self.constof(rm)]
        elif isinstance(rm, Arr) and rm.rank == 1 and isnum(rm.dims[0]):
            idx = [self.constof(rm.at(C(i))) for i in range(int(rm.dims[0].args[0]))]
        if isinstance(A, Arr) and ax is None and A.rank == 1:
            ax = 0
        if isinstance(A, Arr) and ax is not None and idx is not None and None not in idx and rm.dt != "b" \
                if isinstance(rm, Arr) else (isinstance(A, Arr) and ax is not None and idx is not None and None not in idx):
            ax = int(ax) % A.rank
            d = A.dims[ax]
            if all(i >= 0 for i in idx) or isnum(d):
                idx = sorted({int(i) if i >= 0 else int(i + d.args[0]) for i in idx})
                if isnum(d) and idx and not (0 <= idx[0] and idx[-1] < d.args[0]):
                    return self.error(st, node, "delete index out of range")
                ivs = tuple(IV() for _ in A.dims)
                src = add(ivs[ax], C(len(idx)))
                for j in range(len(idx) - 1, -1, -1):
                    src = ite(lt(ivs[ax], C(idx[j] - j)), add(ivs[ax], C(j)), src)
                dims = list(A.dims)
                dims[ax] = sub(d, C(len(idx)))
                self.ivdim[ivs[ax]] = dims[ax]
                at = list(ivs)
                at[ax] = src
                return st.new(Arr(ivs, dims, A.at(*at), A.dt))
        return Unk(opq("delete", *[self.term_of(x, st) for x in a]))

    def n_size(self, a, k, st, node):
        A = self.arr(a[0], st)
        return mul(*A.dims) if isinstance(A, Arr) else ONE

    def n_ndim(self, a, k, st, node):
        A = self.arr(a[0], st)
        return C(A.rank) if isinstance(A, Arr) else (ZERO if A is not None else self.fresh_unk("ndim"))

    def n_shape(self, a, k, st, node):
        A = self.arr(a[0], st)
        return VTuple(A.dims if isinstance(A, Arr) else ())

    def n_isscalar(self, a, k, st, node):
        v = self.res(a[0], st)
        return TRUE if isinstance(v, T) else (FALSE if isinstance(st.get(v), (Arr, VList)) else self.fresh_unk("isscalar"))

    def n_float64(self, a, k, st, node):
        return a[0]

    n_float32 = n_int64 = n_int32 = n_float_ = n_float64

    def n_errstate(self, a, k, st, node):
        return self.fresh_unk("errstate")

    # scipy.special / math
    def n_ndtr(self, a, k, st, node):
        return self.map1(lambda x: fn("ndtr", x), a[0], st, "ndtr")

    def n_log_ndtr(self, a, k, st, node):
        return self.map1(lambda x: fn("log", fn("ndtr", x)), a[0], st, "log_ndtr")

    def n_digamma(self, a, k, st, node):
        return self.map1(lambda x: fn("polygamma", ZERO, x), a[0], st, "digamma")

    n_psi = n_digamma

    def n_polygamma(self, a, k, st, node):
        return self.mapn(lambda n, x: fn("polygamma", n, x), a[:2], st, node, "polygamma")

    def n_gammaln(self, a, k, st, node):
        return self.map1(lambda x: fn("gammaln", x), a[0], st, "gammaln")

    n_lgamma = n_loggamma = n_gammaln

    def n_gamma(self, a, k, st, node):
        return self.map1(lambda x: fn("exp", fn("gammaln", x)), a[0], st, "gamma")

    def n_beta(self, a, k, st, node):
        return self.mapn(lambda x, y: fn("exp", sub(add(fn("gammaln", x), fn("gammaln", y)), fn("gammaln", add(x, y)))),
                         a[:2], st, node, "beta")

    def n_betaln(self, a, k, st, node):
        return self.mapn(lambda x, y: sub(add(fn("gammaln", x), fn("gammaln", y)), fn("gammaln", add(x, y))),
                         a[:2], st, node, "betaln")

    def n_expit(self, a, k, st, node):
        return self.map1(lambda x: div(ONE, add(ONE, fn("exp", neg(x)))), a[0], st, "expit")

    def n_erf(self, a, k, st, node):
        return self.map1(lambda x: sub(mul(TWO, fn("ndtr", mul(x, pw(TWO, C(Fraction(1, 2)))))), ONE), a[0], st, "erf")

    def n_erfc(self, a, k, st, node):
        return self.map1(lambda x: mul(TWO, fn("ndtr", neg(mul(x, pw(TWO, C(Fraction(1, 2))))))), a[0], st, "erfc")

    def n_softmax(self, a, k, st, node):
        A = self.arr(a[0], st)
        ax = self.axis_of(self.arg(a, k, 1, "axis"), A.rank, st) if isinstance(A, Arr) else "?"
        if ax in ("?", "!"):
            return self.fresh_unk("softmax")
        e = self.map1(NP1["exp"], a[0], st)
        s = self.reduce("sum", e, st, self.arg(a, k, 1, "axis"), True, node)
        return self.binop("Div", e, s, st, node)

    def n_logsumexp(self, a, k, st, node):
        e = self.map1(NP1["exp"], a[0], st)
        s = self.reduce("sum", e, st, self.arg(a, k, 1, "axis"), self.iskeep(k), node)
        return self.map1(NP1["log"], s, st)

    def n_xlogy(self, a, k, st, node):
        return self.mapn(lambda x, y: mul(x, fn("log", y)), a[:2], st, node, "xlogy")

    def n_entr(self, a, k, st, node):
        return self.map1(lambda x: neg(mul(x, fn("log", x))), a[0], st, "entr")

    def n_pow(self, a, k, st, node):
        return self.mapn(pw, a[:2], st, node, "pow")

    def n_fsum(self, a, k, st, node):
        return self.reduce("sum", a[0], st, None, False, node)

    # scipy.stats
    def st_norm_pdf(self, a, k, st, node):
        return self.normal_(a, k, st, node, lambda z, s: div(fn("exp", mul(C(Fraction(-1, 2)), z, z)),
                                                             mul(s, pw(mul(TWO, PI), C(Fraction(1, 2))))))

    def st_norm_logpdf(self, a, k, st, node):
        return self.normal_(a, k, st, node, lambda z, s: sub(mul(C(Fraction(-1, 2)), z, z), add(
            fn("log", s), mul(C(Fraction(1, 2)), fn("log", mul(TWO, PI))))))

    def st_norm_cdf(self, a, k, st, node):
        return self.normal_(a, k, st, node, lambda z, s: fn("ndtr", z))

    def st_norm_logcdf(self, a, k, st, node):
        return self.normal_(a, k, st, node, lambda z, s: fn("log", fn("ndtr", z)))

    def normal_(self, a, k, st, node, f):
        loc, sc = self.arg(a, k, 1, "loc", ZERO), self.arg(a, k, 2, "scale", ONE)
        return self.mapn(lambda x, l, s: f(div(sub(x, l), s), s), [a[0], loc, sc], st, node, "norm")

    def st_beta_logpdf(self, a, k, st, node):
        def f(x, p, q):
            return add(mul(sub(p, ONE), fn("log", x)), mul(sub(q, ONE), fn("log", sub(ONE, x))),
                       fn("gammaln", add(p, q)), neg(fn("gammaln", p)), neg(fn("gammaln", q)))
        return self.mapn(f, [self.arg(a, k, 0, "x"), self.arg(a, k, 1, "a"), self.arg(a, k, 2, "b")], st, node, "beta.logpdf")

    def st_beta_pdf(self, a, k, st, node):
        return self.map1(NP1["exp"], self.st_beta_logpdf(a, k, st, node), st)

    def st_gamma_logpdf(self, a, k, st, node):
        sc = k.get("scale", a[3] if len(a) > 3 else ONE)

        def f(x, s, t):
            return add(mul(sub(s, ONE), fn("log", x)), neg(div(x, t)), neg(fn("gammaln", s)), neg(mul(s, fn("log", t))))
        return self.mapn(f, [a[0], self.arg(a, k, 1, "a"), sc], st, node, "gamma.logpdf")

    def st_gamma_pdf(self, a, k, st, node):
        return self.map1(NP1["exp"], self.st_gamma_logpdf(a, k, st, node), st)

    # linear algebra
    def la_inv(self, a, k, st, node):
        A = self.arr(a[0], st)
        if not isinstance(A, Arr) or A.rank != 2:
            return Unk(opq("inv", self.term_of(a[0], st)))
        return st.new(self.mat("inv", A, st))

    la_pinv = la_pinvh = la_inv

    def la_cholesky(self, a, k, st, node):
        A = self.arr(a[0], st)
        if not isinstance(A, Arr) or A.rank != 2:
            return Unk(opq("cholesky", self.term_of(a[0], st)))
        L = self.mat("chol", A, st)
        if node is not None and "scipy" in ast.unparse(node.func) and k.get("lower") is not TRUE:
            return self.transpose(st.new(L), None, st)
        return st.new(L)

    def la_solve(self, a, k, st, node):
        return self.matmul(self.la_inv(a[:1], {}, st, node), a[1], st, node)

    def la_solve_triangular(self, a, k, st, node):
        inv = self.la_inv(a[:1], {}, st, node)
        tr = k.get("trans", a[2] if len(a) > 2 else ZERO)
        if tr is not ZERO and tr is not K("N"):
            inv = self.transpose(inv, None, st)
        return self.matmul(inv, a[1], st, node)

    def la_cho_factor(self, a, k, st, node):
        return VTuple([self.la_cholesky(a[:1], {"lower": TRUE}, st, None), TRUE])

    def la_cho_solve(self, a, k, st, node):
        f = self.res(a[0], st)
        if not isinstance(f, VTuple):
            return self.fresh_unk("cho_solve")
        L = f.items[0]
        lower = f.items[1]
        if lower is FALSE:
            L = self.transpose(L, None, st)
        A = self.matmul(L, self.transpose(L, None, st), st, node)
        return self.matmul(self.la_inv([A], {}, st, node), a[1], st, node)

    def la_det(self, a, k, st, node):
        A = self.arr(a[0], st)
        if not isinstance(A, Arr) or A.rank != 2:
            if isinstance(A, Arr) and A.rank == 3:
                i = IV()
                r, s = IV(), IV()
                return st.new(Arr((i,), A.dims[:1], mk("mat", "det", mk("lam", (r, s), A.dims[1:], A.at(i, r, s)))))
            return Unk(opq("det", self.term_of(a[0], st)))
        if A.dims[0] is ONE:
            return A.at(ZERO, ZERO)
        if A.dims[0] is TWO:
            return sub(mul(A.at(ZERO, ZERO), A.at(ONE, ONE)), mul(A.at(ZERO, ONE), A.at(ONE, ZERO)))
        return mk("mat", "det", A.lam())

    def la_slogdet(self, a, k, st, node):
        d = self.la_det(a, k, st, node)
        if isinstance(d, T):
            return VTuple([ONE if self.interior else fn("sign", d), fn("log", d if self.interior else fn("abs", d))])
        return self.fresh_unk("slogdet")

    def la_norm(self, a, k, st, node):
        o = self.arg(a, k, 1, "ord")
        ax = self.arg(a, k, 2, "axis")
        if o is None or o is NONE or o is TWO:
            sq = self.binop("Mult", a[0], a[0], st, node)
            A = self.arr(a[0], st)
            if o is TWO and isinstance(A, Arr) and A.rank == 2 and (ax is None or ax is NONE):
                return Unk(opq("norm2", A.lam()))
            return self.map1(NP1["sqrt"], self.reduce("sum", sq, st, ax, self.iskeep(k), node), st)
        if o is ONE:
            return self.reduce("sum", self.map1(NP1["abs"], a[0], st), st, ax, self.iskeep(k), node)
        A = self.arr(a[0], st)
        if o in (INF, NINF) and isinstance(A, Arr) and (A.rank == 1 or (ax is not None and isinstance(ax, T))):
            return self.reduce("max" if o is INF else "min", self.map1(NP1["abs"], a[0], st), st, ax, self.iskeep(k), node)
        return Unk(opq("norm", self.term_of(a[0], st), self.term_of(o, st)))

    # copy module
    def c_copy(self, a, k, st, node):
        return self.copy_value(a[0], st, False)

    def c_deepcopy(self, a, k, st, node):
        return self.copy_value(a[0], st, True)

    def copy_value(self, v, st, deep):
        v = self.res(v, st)
        o = st.get(v)
        if isinstance(v, VTuple):
            return VTuple([self.copy_value(x, st, deep) for x in v.items]) if deep else v
        if isinstance(v, Phi):
            return Phi(v.c, self.copy_value(v.a, st, deep), self.copy_value(v.b, st, deep))
        if isinstance(o, Arr):
            return st.new(Arr(o.ivs, o.dims, o.body, o.dt))
        if isinstance(o, VList):
            segs = o.segs
            if deep:
                segs = [("item", self.copy_value(s[1], st, True)) if s[0] == "item" else s for s in segs]
            return st.new(VList(segs))
        if isinstance(o, VDict):
            return st.new(VDict([(q, self.copy_value(w, st, deep) if deep else w) for q, w in o.items]))
        if isinstance(o, VSet):
            return st.new(VSet(o.items, o.src))
        if isinstance(o, VObj):
            return st.new(VObj(o.cls, {q: (self.copy_value(w, st, True) if deep else w) for q, w in o.attrs.items()}, o.hooks, o.name))
        return v

    # ------------------------------------------------------------ builtins
    def b_object_init(self, a, k, st, node):
        return NONE

    def b_len(self, a, k, st, node):
        v = self.res(a[0], st)
        o = st.get(v)
        if isinstance(o, VObj):
            if "__len__" in o.hooks:
                return o.hooks["__len__"](self, st, v, [], {}, node)
            m = self.repo.method(o.cls, "__len__") if o.cls else None
            if m is not None:
                return self.call_func(m, [v], {}, st, node)
            return self.error(st, node, "object has no len()")
        if isinstance(v, T) and v.op in ("c", "s", "add", "mul", "fn", "at", "sum") or v in (NONE, TRUE, FALSE):
            return self.error(st, node, "object of type number or None has no len()")
        if isinstance(o, Arr) and o.rank == 0:
            return self.error(st, node, "len() of unsized array")
        return self.length(v, st)

    def b_range(self, a, k, st, node):
        xs = [num(self.scalar(x, st)) for x in a]
        if len(xs) == 1:
            return VRange(ZERO, xs[0], ONE)
        return VRange(xs[0], xs[1], xs[2] if len(xs) > 2 else ONE)

    def b_enumerate(self, a, k, st, node):
        if len(a) > 1 or k:
            s = self.arg(a, k, 1, "start")
            if s is not ZERO:
                d, e = self.seq_of(a[0], st)
                parts = self.iter_parts(a[0], st, node)
                if all(q == "static" for q, _ in parts):
                    vals = [v for _, p in parts for v in p]
                    return st.new(VList.of([VTuple((add(s, C(i)), v(st) if callable(v) else v)) for i, v in enumerate(vals)]))
                iv = IV()
                return st.new(VList([("comp", iv, d, TRUE, VTuple((add(s, iv), e(st, iv))))]))
        return VIter("enumerate", [a[0]])

    def b_zip(self, a, k, st, node):
        return VIter("zip", list(a))

    def b_reversed(self, a, k, st, node):
        return VIter("reversed", [a[0]])

    def b_abs(self, a, k, st, node):
        return self.map1(lambda x: C(abs(x.args[0])) if isnum(x) else fn("abs", x), a[0], st, "abs")

    def b_min(self, a, k, st, node, kind="minimum"):
        if len(a) == 1:
            return self.reduce("min" if kind == "minimum" else "max", a[0], st, None, False, node) if "key" not in k else self.fresh_unk(kind)
        r = a[0]
        for x in a[1:]:
            r = self.mapn(lambda p, q: maxmin(kind, p, q), [r, x], st, node, kind)
        return r

    def b_max(self, a, k, st, node):
        return self.b_min(a, k, st, node, "maximum")

    def b_sum(self, a, k, st, node):
        v = self.res(a[0], st)
        A = self.arr(v, st)
        if isinstance(A, Arr) and A.rank > 1:
            r = self.reduce("sum", v, st, ZERO, False, node)
        else:
            r = self.reduce("sum", v, st, None, False, node)
        s = self.arg(a, k, 1, "start")
        return self.binop("Add", r, s, st, node) if s is not None else r

    def b_any(self, a, k, st, node):
        v = self.res(a[0], st)
        o = st.get(v)
        if isinstance(o, VList):
            return self.list_quant("any", o, st)
        return self.reduce("any", a[0], st, None, False, node)

    def b_all(self, a, k, st, node):
        v = self.res(a[0], st)
        o = st.get(v)
        if isinstance(o, VList):
            return self.list_quant("all", o, st)
        return self.reduce("all", a[0], st, None, False, node)

    def list_quant(self, kind, o, st):
        out = []
        for s in o.segs:
            if s[0] == "item":
                out.append(self.truthy(s[1], st))
            elif s[0] == "comp":
                c = self.truthy(s[4], st)
                b = AND(s[3], c) if kind == "any" else OR(NOT(s[3]), c)
                out.append(self.red(kind, s[2], lambda q: tsubst(b, {s[1]: q})))
            else:
                return opq(kind, K(id(s)))
        return OR(*out) if kind == "any" else AND(*out)

    def b_int(self, a, k, st, node):
        if not a:
            return ZERO
        v = self.scalar(a[0], st)
        if isnum(v):
            x = v.args[0]
            return C(int(x))
        if v.op in ("iv",) or (v.op == "s" and v.args[2] in ("int", "dim")):
            return v
        if v.op == "at" and ARRAYS.get(v.args[0], {}).get("sort") == "int":
            return v
        if self.isbool(v):
            return num(v)
        return fn("int", v)

    def b_float(self, a, k, st, node):
        v = self.res(a[0], st)
        if isinstance(v, T) and v.op == "k" and isinstance(v.args[0], str):
            s = v.args[0].strip().lower()
            if s in ("inf", "+inf", "infinity"):
                return INF
            if s in ("-inf", "-infinity"):
                return NINF
            if s == "nan":
                return NAN
            try:
                return C(float(s))
            except ValueError:
                return self.error(st, node, "could not convert to float")
        return self.scalar(v, st)

    def b_bool(self, a, k, st, node):
        return self.truthy(a[0], st)

    def b_str(self, a, k, st, node):
        v = a[0] if a else K("")
        if isinstance(v, T) and self.isstr(v):
            return v
        return Unk(opq("str", self.term_of(v, st)))

    b_repr = b_str

    def b_list(self, a, k, st, node):
        if not a:
            return st.new(VList(()))
        s = self.list_segs(a[0], st)
        return st.new(VList(s)) if s is not None else Unk(opq("list", self.term_of(a[0], st)))

    def b_tuple(self, a, k, st, node):
        if not a:
            return VTuple(())
        s = self.list_segs(a[0], st)
        if s is not None and all(x[0] == "item" for x in s):
            return VTuple([x[1] for x in s])
        return Unk(opq("tuple", self.term_of(a[0], st)))

    def b_dict(self, a, k, st, node):
        items = []
        if a:
            o = st.get(a[0])
            if isinstance(o, VDict):
                items = list(o.items)
            else:
                return self.fresh_unk("dict")
        return st.new(VDict(items + [(K(q), v) for q, v in k.items()]))

    def b_set(self, a, k, st, node):
        if not a:
            return st.new(VSet(()))
        s = self.list_segs(a[0], st)
        if s is not None and all(x[0] == "item" for x in s):
            d = self.mkset([x[1] for x in s], st)
            return st.new(d if d is not None else VSet([x[1] for x in s]))
        return st.new(VSet(None, ("set", self.term_of(a[0], st))))

    def pykey(self, v, st):
        """hashable Python value of a known constant, else None"""
        v = self.res(v, st)
        if isinstance(v, VTuple):
            ks = [self.pykey(x, st) for x in v.items]
            return None if any(x is None for x in ks) else tuple(ks)
        if isinstance(v, Ref) and isinstance(st.get(v), Arr) and not st.get(v).dims:
            v = st.get(v).body
        if v is TRUE or v is FALSE:
            return 1 if v is TRUE else 0
        if isinstance(v, T) and v.op in ("c", "k") and v is not NONE:
            return v.args[0]
        if isinstance(v, T) and v.op not in ("c", "k"):
            w = self.constof(v)
            return None if w is None else w
        return None

    def constof(self, t):
        try:
            p = norm(t)
        except Exception:
            return None
        if not p.terms:
            return 0
        if len(p.terms) == 1 and p.terms[0][0] == ():
            return p.terms[0][1]
        return None

    def mkset(self, items, st):
        """the set of known constants (in a fixed order), else None"""
        d = {}
        for v in items:
            q = self.pykey(v, st)
            if q is None:
                return None
            d.setdefault(q, v)
        try:
            ks = sorted(d)
        except TypeError:
            ks = list(d)
        return VSet([C(q) if isinstance(q, (int, Fraction)) and not isinstance(q, bool) else d[q] for q in ks])

    def setkeys(self, v, st):
        """{key: value} of a known set or sequence of constants, else None"""
        s = self.list_segs(v, st)
        if s is None or not all(x[0] == "item" for x in s):
            return None
        d = {}
        for x in s:
            q = self.pykey(x[1], st)
            if q is None:
                return None
            d[q] = x[1]
        return d

    def setop(self, op, x, y):
        if op in ("Sub", "difference", "difference_update"):
            return [v for q, v in x.items() if q not in y]
        if op in ("BitAnd", "intersection", "intersection_update"):
            return [v for q, v in x.items() if q in y]
        if op in ("BitOr", "union", "update"):
            return list(x.values()) + [v for q, v in y.items() if q not in x]
        if op in ("BitXor", "symmetric_difference", "symmetric_difference_update"):
            return [v for q, v in x.items() if q not in y] + [v for q, v in y.items() if q not in x]
        return None

    b_frozenset = b_set

    def b_sorted(self, a, k, st, node):
        if a and not k:
            segs = self.list_segs(a[0], st)
            if segs is not None and len(segs) <= 64 and all(x[0] == "item" for x in segs):
                ks = [self.constof(self.scalar(x[1], st)) for x in segs]
                if None not in ks:
                    return st.new(VList.of([x for _, x in sorted(zip(ks, [x[1] for x in segs]), key=lambda t: t[0])]))
        v = self.res(a[0], st)
        A = self.arr(v, st)
        if isinstance(A, Arr) and A.rank == 1 and not k:
            i = IV()
            return st.new(VList([("comp", i, A.dims[0], TRUE, opq("sorted", A.lam(), i))]))
        return self.fresh_unk("sorted")

    def b_map(self, a, k, st, node):
        s = self.list_segs(a[1], st) if len(a) == 2 else None
        if s is None:
            return self.fresh_unk("map")
        out = []
        for x in s:
            if x[0] == "item":
                out.append(("item", self.call(a[0], [x[1]], {}, st, node)))
            elif x[0] == "comp":
                out.append(x[:4] + (self.call(a[0], [x[4]], {}, st, node),))
            else:
                return self.fresh_unk("map")
        return st.new(VList(out))

    def b_round(self, a, k, st, node):
        return self.map1(lambda x: fn("round", x), a[0], st, "round")

    def b_pow(self, a, k, st, node):
        return self.mapn(pw, a[:2], st, node, "pow")

    def b_slice(self, a, k, st, node):
        a = list(a)
        if len(a) == 1:
            return VSlice(NONE, a[0], NONE)
        return VSlice(a[0], a[1], a[2] if len(a) > 2 else NONE)

    def b_print(self, a, k, st, node):
        return NONE

    def b_type(self, a, k, st, node):
        o = st.get(self.res(a[0], st))
        if isinstance(o, VObj) and o.cls:
            return o.cls
        return self.fresh_unk("type")

    def b_callable(self, a, k, st, node):
        v = self.res(a[0], st)
        if isinstance(v, (Func, Bound, Closure, Class, Ext)):
            return TRUE
        return FALSE if isinstance(v, T) else self.fresh_unk("callable")

    def b_getattr(self, a, k, st, node):
        if isinstance(a[1], T) and self.isstr(a[1]):
            if len(a) > 2 and self.b_hasattr(a[:2], {}, st, node) is FALSE:
                return a[2]
            return self.getattr(a[0], a[1].args[0], st, node)
        return self.fresh_unk("getattr")

    def b_setattr(self, a, k, st, node):
        if isinstance(a[1], T) and self.isstr(a[1]):
            self.setattr(a[0], a[1].args[0], a[2], st, node)
        return NONE

    def b_hasattr(self, a, k, st, node):
        v = self.res(a[0], st)
        at = a[1].args[0] if isinstance(a[1], T) and a[1].op == "k" else None
        o = st.get(v)
        if isinstance(v, Phi):
            return simp(ite(v.c, self.b_hasattr([v.a, a[1]], {}, st, node), self.b_hasattr([v.b, a[1]], {}, st, node)), st.facts)
        if isinstance(v, T):
            return TRUE if (at == "__len__" and self.isstr(v)) else FALSE
        if isinstance(o, Arr):
            return TRUE if at in ("__len__", "shape", "dtype", "__getitem__", "__iter__") else FALSE
        if isinstance(v, VTuple) or isinstance(o, (VList, VDict, VSet)):
            return TRUE if at in ("__len__", "__iter__", "__getitem__") else FALSE
        if isinstance(o, VObj) and o.cls:
            if at in o.attrs:
                x = o.attrs[at]
                if isinstance(x, Phi) and (x.a is UNDEF or x.b is UNDEF):
                    return x.c if x.b is UNDEF else NOT(x.c)
                return TRUE
            return TRUE if (self.repo.method(o.cls, at) or self.repo.classattr(o.cls, at)) else FALSE
        return truth(opq("hasattr", self.term_of(v, st), K(at)))

    def b_isinstance(self, a, k, st, node):
        return self.isinst(a[0], a[1], st)

    def isinst(self, v, c, st):
        v = self.res(v, st)
        if isinstance(v, Phi):
            return simp(ite(v.c, self.isinst(v.a, c, st), self.isinst(v.b, c, st)), st.facts)
        if isinstance(v, T) and v.op == "if":
            return simp(ite(v.args[0], self.isinst(v.args[1], c, st), self.isinst(v.args[2], c, st)), st.facts)
        if isinstance(c, VTuple):
            return OR(*[self.isinst(v, x, st) for x in c.items])
        o = st.get(v)
        if isinstance(c, Class):
            if isinstance(o, VObj) and o.cls:
                return TRUE if c in self.repo.mro(o.cls) else FALSE
            if isinstance(o, VObj):
                return truth(opq("isinstance", K(o.name), K(c.name)))
            if isinstance(v, Unk):
                return truth(opq("isinstance", v.t, K(c.name)))
            return FALSE
        n = c.name.split(".")[-1] if isinstance(c, Ext) else None
        if n is None:
            return truth(opq("isinstance", self.term_of(v, st), K(repr(c))))
        if isinstance(v, Unk):
            return truth(opq("isinstance", v.t, K(n)))
        if isinstance(o, Arr):
            return TRUE if n == "ndarray" or n in ("Iterable",) else FALSE
        if isinstance(v, VTuple):
            return TRUE if n in ("tuple", "Sequence", "Iterable", "Collection") else FALSE
        if isinstance(o, VList):
            return TRUE if n in ("list", "Sequence", "Iterable", "MutableSequence", "Collection") else FALSE
        if isinstance(o, VDict):
            return TRUE if n in ("dict", "Mapping", "Iterable") else FALSE
        if isinstance(o, VSet):
            return TRUE if n in ("set", "Iterable") else FALSE
        if isinstance(o, VObj):
            if o.cls is None:
                return truth(opq("isinstance", K(o.name), K(n)))
            return TRUE if n == "object" else FALSE
        if isinstance(v, T):
            if v.op == "k":
                return TRUE if n == v.args[1] or (n in ("Sequence", "Iterable") and v.args[1] == "str") or \
                    (n in ("Number", "floating") and v.args[1] == "float") else FALSE
            if v.op in ("opq", "mu"):
                return truth(opq("isinstance", v, K(n)))
            ints = (v.op == "c" and v.args[0].denominator == 1) or v.op == "iv" or (v.op == "s" and v.args[2] in ("int", "dim")) or \
                (v.op == "at" and ARRAYS.get(v.args[0], {}).get("sort") == "int")
            if n in ("int", "integer", "int64", "int32", "Integral"):
                return TRUE if ints else FALSE
            if n in ("float", "floating", "float64", "Real", "Number", "number", "generic"):
                if n == "float" and ints:
                    return FALSE if v.op != "c" else truth(opq("isinstance", v, K(n)))
                return TRUE
            if n == "bool":
                return TRUE if self.isbool(v) else FALSE
            return FALSE
        return FALSE

    # ------------------------------------------------------------ methods of values
    def method_ext(self, b, o, nm, a, k, st, node):
        if isinstance(o, Arr) or (isinstance(b, T) and b.op not in ("k",)):
            if nm in ("sum", "mean", "prod", "max", "min", "any", "all", "std", "var", "argmax", "argmin"):
                return self.reduce(nm, b, st, self.arg(a, k, 0, "axis"), self.iskeep(k), node)
            if nm == "copy":
                A = self.arr(b, st)
                return st.new(Arr(A.ivs, A.dims, A.body, A.dt)) if isinstance(A, Arr) else A
            if nm in ("dot",):
                return self.dot(b, a[0], st, node)
            if nm == "astype":
                A = self.arr(b, st)
                dt = self.dtype(a[0]) if a else None
                if isinstance(A, T):
                    return num(A)
                if dt == "i" and A.dt == "f":
                    ivs = tuple(IV() for _ in A.dims)
                    return st.new(Arr(ivs, A.dims, fn("int", A.at(*ivs)), "i"))
                return st.new(Arr(A.ivs, A.dims, A.body if dt == "b" else num(A.body), dt or A.dt))
            if nm == "reshape":
                A = self.arr(b, st)
                sh = self.shape_of(a[0], st) if len(a) == 1 else [self.scalar(x, st) for x in a]
                base = (A.base if A.base is not None else b.id) if isinstance(A, Arr) and isinstance(b, Ref) else None
                return self.reshape(A, sh, st, base) if sh is not None else self.fresh_unk("reshape")
            if nm in ("flatten", "ravel"):
                A = self.arr(b, st)
                return self.reshape(A, [C(-1)], st)
            if nm in ("item",):
                return self.scalar(b, st) if not a else self.getitem(b, a[0], st, node)
            if nm == "tolist":
                s = self.list_segs(b, st)
                return st.new(VList(s)) if s is not None else self.fresh_unk("tolist")
            if nm == "transpose":
                return self.n_transpose([b] + ([VTuple(a)] if len(a) > 1 else list(a)), k, st, node)
            if nm == "diagonal":
                return self.n_diagonal([b] + list(a), k, st, node)
            if nm == "trace":
                return self.n_trace([b], k, st, node)
            if nm == "squeeze":
                return self.n_squeeze([b], k, st, node)
            if nm == "repeat":
                return self.n_repeat([b] + list(a), k, st, node)
            if nm == "clip":
                return self.n_clip([b] + list(a), k, st, node)
            if nm == "swapaxes":
                return self.n_swapaxes([b] + list(a), k, st, node)
            if nm in ("argsort",):
                return self.n_argsort([b], k, st, node)
            if nm == "cumsum":
                return self.n_cumsum([b], k, st, node)
            if nm == "fill" and isinstance(o, Arr):
                v = self.arr(a[0], st)
                ivs = tuple(IV() for _ in o.dims)
                self.put_arr(b, o, ivs, v if isinstance(v, T) else opq("fill"), st)
                self.event("mutate", st, node, ref=b)
                return NONE
            if nm in ("sort", "partition", "resize", "put", "itemset") and isinstance(o, Arr):
                self.event("mutate", st, node, ref=b)
                if nm == "sort" and self.consts(o) is not None:
                    r = st.get(self.n_sort([b] + list(a[:1]), {q: v for q, v in k.items() if q == "axis"}, st, node))
                    self.put_arr(b, o, r.ivs, r.body, st)
                elif nm == "sort" and o.rank == 1:
                    i = IV()
                    self.put_arr(b, o, (i,), opq("sorted", o.lam(), i), st)
                else:
                    st.put(b, self.opaque_like(o, nm))
                return NONE
            if nm == "nonzero":
                return self.n_where([b], {}, st, node)
            return Unk(opq("m:" + nm, self.term_of(b, st), *[self.term_of(x, st) for x in a]))
        if isinstance(o, VList):
            if nm in ("append", "extend", "insert", "pop", "remove", "sort", "clear", "reverse"):
                self.event("mutate", st, node, ref=b)
            if nm == "append":
                st.put(b, VList(o.segs + (("item", a[0]),)))
                return NONE
            if nm == "extend":
                s = self.list_segs(a[0], st)
                st.put(b, VList(o.segs + tuple(s)) if s is not None else self.opaque_like(o, "extend"))
                return NONE
            if nm == "copy":
                return st.new(VList(o.segs))
            if nm == "insert" and isnum(self.scalar(a[0], st)) and o.static:
                it = o.items()
                it.insert(int(self.scalar(a[0], st).args[0]), a[1])
                st.put(b, VList.of(it))
                return NONE
            if nm == "pop" and o.static and (not a or isnum(self.scalar(a[0], st))) and o.segs:
                it = o.items()
                v = it.pop(int(self.scalar(a[0], st).args[0]) if a else -1)
                st.put(b, VList.of(it))
                return v
            if nm == "clear":
                st.put(b, VList(()))
                return NONE
            if o.static and nm == "reverse":
                st.put(b, VList.of(list(o.items())[::-1]))
                return NONE
            if o.static and nm in ("remove", "sort", "index", "count") and len(o.segs) <= 64 and not k:
                ks = [self.pykey(x, st) for x in o.items()]
                q = self.pykey(a[0], st) if a else None
                if all(x is not None for x in ks) and (q is not None or nm == "sort"):
                    it = list(o.items())
                    if nm == "count":
                        return C(ks.count(q))
                    if nm == "sort":
                        try:
                            st.put(b, VList.of([it[i] for i in sorted(range(len(ks)), key=lambda i: ks[i])]))
                            return NONE
                        except TypeError:
                            pass
                    elif q not in ks:
                        return self.error(st, node, "%s of an element that is not in the list" % nm)
                    elif nm == "index":
                        return C(ks.index(q))
                    else:
                        del it[ks.index(q)]
                        st.put(b, VList.of(it))
                        return NONE
            if nm in ("insert", "pop", "remove", "sort", "reverse"):
                st.put(b, self.opaque_like(o, nm))
                return self.fresh_unk(nm) if nm == "pop" else NONE
            if nm in ("index", "count"):
                return Unk(opq("list." + nm, self.term_of(b, st), self.term_of(a[0], st)))
        if isinstance(o, VDict):
            if nm == "keys":
                return st.new(VList.of([q for q, _ in o.items]))
            if nm in ("items", "values"):
                return VIter(nm, [b])
            if nm == "get":
                for q, v in o.items:
                    if self.truthy(self.compare("Eq", q, a[0], st, node), st) is TRUE:
                        return v
                return a[1] if len(a) > 1 else NONE
            if nm == "copy":
                return st.new(VDict(o.items))
            if nm in ("update", "pop", "setdefault", "clear"):
                self.event("mutate", st, node, ref=b)
                if nm == "update" and isinstance(st.get(a[0]) if a else None, VDict):
                    for q, v in st.get(a[0]).items:
                        self.store(b, q, v, st, node)
                    return NONE
                return self.fresh_unk(nm)
        if isinstance(o, VSet):
            if nm in ("add", "update", "remove", "discard", "pop", "clear"):
                self.event("mutate", st, node, ref=b)
                x = self.setkeys(b, st)
                q = self.pykey(a[0], st) if a and nm in ("add", "remove", "discard") else None
                y = self.setkeys(a[0], st) if nm == "update" and len(a) == 1 else None
                if x is not None and nm == "clear":
                    st.put(b, VSet(()))
                elif x is not None and nm == "add" and q is not None:
                    st.put(b, self.mkset(list(x.values()) + [a[0]], st))
                elif x is not None and y is not None:
                    st.put(b, self.mkset(self.setop("update", x, y), st))
                elif x is not None and nm in ("remove", "discard") and q is not None:
                    if q not in x and nm == "remove":
                        return self.error(st, node, "remove of an element that is not in the set")
                    st.put(b, self.mkset([v for k2, v in x.items() if k2 != q], st))
                elif nm == "add" and o.items is not None:
                    st.put(b, VSet(o.items + (a[0],)))
                else:
                    st.put(b, VSet(None, (nm, repr(o.src), self.term_of(a[0], st) if a else None)))
                return NONE if nm != "pop" else self.fresh_unk("pop")
            x = self.setkeys(b, st)
            ys = [self.setkeys(z, st) for z in a]
            if x is not None and all(y is not None for y in ys):
                if nm == "copy" and not a:
                    return st.new(VSet(o.items))
                if nm in ("union", "difference", "intersection", "symmetric_difference"):
                    for y in ys:
                        x = {self.pykey(v, st): v for v in self.setop(nm, x, y)}
                    return st.new(self.mkset(list(x.values()), st))
                if len(ys) == 1 and nm in ("issubset", "issuperset", "isdisjoint"):
                    y = set(ys[0])
                    return TRUE if {"issubset": set(x) <= y, "issuperset": set(x) >= y, "isdisjoint": not (set(x) & y)}[nm] else FALSE
            return st.new(VSet(None, (nm, repr(o.src), *[self.term_of(x, st) for x in a])))
        if isinstance(b, VTuple) and nm in ("index", "count"):
            return Unk(opq("tuple." + nm, self.term_of(b, st), self.term_of(a[0], st)))
        if isinstance(b, T) and b is NONE:
            return self.error(st, node, "None has no attribute %r" % nm)
        return Unk(opq("m:" + nm, self.term_of(b, st), *[self.term_of(x, st) for x in a]))
