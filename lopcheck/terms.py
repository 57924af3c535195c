"""Terms of the value graph, their canonical form (value numbering modulo ring laws, exp/log laws,
Kronecker deltas, sums over symbolic index ranges), differentiation, and random interpretation.

T      : hash-consed term, as built by the abstract interpreter.
Poly   : canonical form: a sum of monomials with rational coefficients over atoms.
"""
from fractions import Fraction
import hashlib, math, itertools, sys, time

sys.setrecursionlimit(20000)
F0, F1 = Fraction(0), Fraction(1)


class Limit(Exception):
    """A size limit of the canonical form was hit: the obligation becomes unknown."""


# ------------------------------------------------------------------ terms
class T:
    __slots__ = ("op", "args", "uid", "_p", "_fv")
    _tab = {}

    def __repr__(self):
        return show(self)


def mk(op, *args):
    key = (op, args)
    try:
        t = T._tab.get(key)
    except TypeError:
        key = (op, tuple(repr(a) for a in args))
        t = T._tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.uid = len(T._tab)
        t._p = None
        t._fv = None
        T._tab[key] = t
    return t


def C(v):
    """numeric constant"""
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, int):
        v = Fraction(v)
    elif isinstance(v, float):
        if math.isinf(v) or math.isnan(v):
            return mk("k", "nan" if math.isnan(v) else ("inf" if v > 0 else "-inf"), "float")
        v = Fraction(repr(v))
    return mk("c", v)


def K(v):
    """non numeric constant (str, None, bytes)"""
    if isinstance(v, bool):
        return TRUE if v else FALSE
    return mk("k", v, type(v).__name__)


TRUE = mk("k", True, "bool")
FALSE = mk("k", False, "bool")
NONE = mk("k", None, "NoneType")
ZERO, ONE, TWO = C(0), C(1), C(2)
INF = mk("k", "inf", "float")
NINF = mk("k", "-inf", "float")
NAN = mk("k", "nan", "float")

_fresh = itertools.count()


def IV(hint="i"):
    return mk("iv", next(_fresh), hint)


def S(name, pos=False, sort="real"):
    return mk("s", name, pos, sort)


# arrays: name -> metadata (sort: real / pos / int, range for int)
ARRAYS = {}


def AT(name, *idx):
    return mk("at", name, *idx)


def isnum(t):
    return isinstance(t, T) and t.op == "c"


def isconst(t):
    return isinstance(t, T) and t.op in ("c", "k")


def add(*ts):
    out, c = [], F0
    for t in ts:
        t = num(t)
        if t.op == "c":
            c += t.args[0]
        elif t.op == "add":
            for a in t.args:
                if a.op == "c":
                    c += a.args[0]
                else:
                    out.append(a)
        else:
            out.append(t)
    if c != 0 or not out:
        out.append(mk("c", c))
    if len(out) == 1:
        return out[0]
    return mk("add", *out)


def mul(*ts):
    out, c = [], F1
    for t in ts:
        t = num(t)
        if t.op == "c":
            c *= t.args[0]
        elif t.op == "mul":
            for a in t.args:
                if a.op == "c":
                    c *= a.args[0]
                else:
                    out.append(a)
        else:
            out.append(t)
    if c == 0:
        return ZERO
    if c == 1 and out:
        pass
    else:
        out.insert(0, mk("c", c))
    if len(out) == 1:
        return out[0]
    # -inf * ... stays opaque
    return mk("mul", *out)


def num(t):
    if isinstance(t, T):
        if t is TRUE:
            return ONE
        if t is FALSE:
            return ZERO
        if t.op in ("eq", "lt", "le", "and", "or", "not", "any", "all"):
            return ite(t, ONE, ZERO)
        return t
    return C(t)


def neg(t):
    t = num(t)
    if t is INF:
        return NINF
    if t is NINF:
        return INF
    return mul(C(-1), t)


def sub(a, b):
    return add(a, neg(b))


def pw(a, b):
    a, b = num(a), num(b)
    if b is ONE:
        return a
    if b is ZERO:
        return ONE
    if a.op == "c" and b.op == "c" and b.args[0].denominator == 1 and abs(b.args[0]) < 64:
        if a.args[0] != 0 or b.args[0] > 0:
            return mk("c", a.args[0] ** int(b.args[0]))
    return mk("pow", a, b)


def div(a, b):
    return mul(a, pw(b, C(-1)))


def fn(name, *args):
    if name in ("ceil", "floor", "int", "abs", "sign") and len(args) == 1:
        v = args[0]
        v = v.args[0] if isinstance(v, T) and v.op == "c" else v
        if isinstance(v, (int, Fraction)) and not isinstance(v, bool):
            v = Fraction(v)
            return C({"ceil": lambda: math.ceil(v), "floor": lambda: math.floor(v), "int": lambda: int(v), "abs": lambda: abs(v),
                      "sign": lambda: (v > 0) - (v < 0)}[name]())
        if name in ("ceil", "floor", "int") and isinstance(v, T) and v.op == "fn" and v.args[0] in ("ceil", "floor", "int"):
            return v
    return mk("fn", name, *[num(a) if isinstance(a, (T, int, float, Fraction)) else a for a in args])


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return NOT(c)
    if a.op == "if" and a.args[0] is c:
        a = a.args[1]
    if b.op == "if" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a in (TRUE, FALSE) and b.op in CONDS:
        return OR(c, b) if a is TRUE else AND(NOT(c), b)
    if b in (TRUE, FALSE) and a.op in CONDS:
        return OR(NOT(c), a) if b is TRUE else AND(c, a)
    return mk("if", c, a, b)


CONDS = ("lt", "and", "or", "not")


def NOT(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    if c.op == "c":
        return TRUE if c.args[0] == 0 else FALSE
    if c.op == "if":
        return ite(c.args[0], NOT(c.args[1]), NOT(c.args[2]))
    return mk("not", c)


def AND(*cs):
    out = []
    for c in cs:
        c = truth(c)
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        for d in (c.args if c.op == "and" else (c,)):
            if d not in out:
                out.append(d)
    for d in out:
        if NOT(d) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", *out)


def OR(*cs):
    out = []
    for c in cs:
        c = truth(c)
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        for d in (c.args if c.op == "or" else (c,)):
            if d not in out:
                out.append(d)
    for d in out:
        if NOT(d) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", *out)


def truth(t):
    if not isinstance(t, T):
        return TRUE if t else FALSE
    if t.op == "c":
        return TRUE if t.args[0] != 0 else FALSE
    if t.op == "k":
        if t in (TRUE, FALSE):
            return t
        if t in (INF, NINF, NAN):
            return TRUE
        return TRUE if t.args[0] else FALSE
    if t.op == "if":
        a, b = truth(t.args[1]), truth(t.args[2])
        return ite(t.args[0], a, b)
    if t.op in ("eq", "lt", "le", "and", "or", "not", "any", "all", "opq", "s"):
        return t
    return t


DISTINCT_KINDS = ("k",)


def eq(a, b):
    if not isinstance(a, T) or not isinstance(b, T):
        return mk("opq", "eq", repr(a), repr(b))
    if a is b and a is not NAN:
        return TRUE
    if a.op == "k" and b.op == "k":
        return FALSE
    if (a.op == "c" and b.op == "k") or (a.op == "k" and b.op == "c"):
        if a in (TRUE, FALSE) or b in (TRUE, FALSE):
            return eq(num(a), num(b))
        return FALSE
    if a.op == "c" and b.op == "c":
        return TRUE if a.args[0] == b.args[0] else FALSE
    if a.op == "if" and isconst(b):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == "if" and isconst(a):
        return ite(b.args[0], eq(b.args[1], a), eq(b.args[2], a))
    if a.uid > b.uid:
        a, b = b, a
    return mk("eq", a, b)


def lt(a, b):
    a, b = num(a), num(b)
    if a is b:
        return FALSE
    if a.op == "c" and b.op == "c":
        return TRUE if a.args[0] < b.args[0] else FALSE
    if b is INF and a.op == "c" or a is NINF and b.op == "c":
        return TRUE
    if a is INF or b is NINF:
        return FALSE
    for u, v, up in ((a, b, True), (b, a, False)):
        # a draw from (0, 1) against a bounded value or in logarithms
        w = u.args[1] if u.op == "fn" and u.args[0] == "log" and len(u.args) == 2 else u
        if not unit(w):
            continue
        if u is not w:
            return lt(w, fn("exp", v)) if up else lt(fn("exp", v), w)
        if v.op == "fn" and v.args[0] == "minimum" and len(v.args) == 3 and ONE in v.args[1:]:
            v = v.args[1] if v.args[2] is ONE else v.args[2]
            return lt(w, v) if up else lt(v, w)
        if v.op == "c" and not 0 < v.args[0] < 1:
            return TRUE if (v.args[0] >= 1) == up else FALSE
    x, y = closed(a), closed(b)
    if x is not None and y is not None and abs(x - y) > 1e-9 * max(1.0, abs(x), abs(y)):
        return TRUE if x < y else FALSE
    return mk("lt", a, b)


def unit(t):
    return t.op == "s" and t.args[2] == "unit"


def closed(t, depth=6):
    """numeric value of a term without symbols"""
    if t.op == "c":
        return float(t.args[0])
    if depth == 0:
        return None
    if t.op == "fn" and t.args[0] in ("exp", "log", "sqrt"):
        v = closed(t.args[1], depth - 1)
        try:
            return None if v is None else getattr(math, t.args[0])(v)
        except (ValueError, OverflowError):
            return None
    if t.op == "fn" and t.args[0] in ("minimum", "maximum"):
        vs = [closed(x, depth - 1) for x in t.args[1:]]
        return None if None in vs else (min if t.args[0] == "minimum" else max)(vs)
    if t.op in ("add", "mul") and len(t.args) <= 4:
        r = 0.0 if t.op == "add" else 1.0
        for x in t.args:
            v = closed(x, depth - 1) if isinstance(x, T) else None
            if v is None:
                return None
            r = r + v if t.op == "add" else r * v
        return r
    return None


def le(a, b):
    return NOT(lt(b, a))


def SUM(iv, dim, body):
    body = num(body)
    if body is ZERO:
        return ZERO
    return mk("sum", iv, dim, body)


def opq(name, *args):
    return mk("opq", name, *args)


def children(t):
    for a in t.args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, T):
                    yield b


def walk(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        yield x
        stack.extend(children(x))


def tsubst(t, m, memo=None):
    """substitute terms (uid -> term) in a term"""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    r = memo.get(t.uid)
    if r is not None:
        return r
    if not t.args or t.op in ("c", "k", "s", "iv"):
        r = t
    else:
        na = []
        ch = False
        for a in t.args:
            if isinstance(a, T):
                b = tsubst(a, m, memo)
            elif isinstance(a, tuple) and any(isinstance(x, T) for x in a):
                b = tuple(tsubst(x, m, memo) if isinstance(x, T) else x for x in a)
            else:
                b = a
            ch = ch or (b is not a and b != a)
            na.append(b)
        r = rebuild(t.op, na) if ch else t
    memo[t.uid] = r
    return r


def rebuild(op, a):
    if op == "add":
        return add(*a)
    if op == "mul":
        return mul(*a)
    if op == "pow":
        return pw(*a)
    if op == "if":
        c = truth(a[0])
        return ite(c, a[1], a[2])
    if op == "and":
        return AND(*a)
    if op == "or":
        return OR(*a)
    if op == "not":
        return NOT(truth(a[0]))
    if op == "eq":
        return eq(*a)
    if op == "lt":
        return lt(*a)
    if op == "sum":
        return SUM(*a)
    if op == "fn" and a[0] in ("ceil", "floor", "int", "abs", "sign") and len(a) == 2:
        return fn(*a)
    return mk(op, *a)


def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if d > 14:
        return "..."
    r = lambda x: show(x, d + 1)
    o, a = t.op, t.args
    if o == "c":
        return str(a[0]) if a[0].denominator == 1 else "(%s)" % a[0]
    if o == "k":
        return repr(a[0])
    if o == "s":
        return a[0]
    if o == "iv":
        return "%s%d" % (a[1], a[0])
    if o == "at":
        return "%s[%s]" % (a[0], ",".join(map(r, a[1:])))
    if o == "add":
        return "(" + " + ".join(map(r, a)) + ")"
    if o == "mul":
        return "*".join(map(r, a))
    if o == "pow":
        return "%s^%s" % (r(a[0]), r(a[1]))
    if o == "fn":
        return "%s(%s)" % (a[0], ",".join(map(r, a[1:])))
    if o == "sum":
        return "SUM{%s<%s}(%s)" % (r(a[0]), r(a[1]), r(a[2]))
    if o == "red":
        return "%s{%s<%s}(%s)" % (a[0], r(a[1]), r(a[2]), r(a[3]))
    if o == "if":
        return "[%s ? %s : %s]" % tuple(map(r, a))
    if o == "eq":
        return "(%s == %s)" % tuple(map(r, a))
    if o == "lt":
        return "(%s < %s)" % tuple(map(r, a))
    if o in ("and", "or"):
        return "(" + (" %s " % o).join(map(r, a)) + ")"
    if o == "not":
        return "!" + r(a[0])
    if o == "mat":
        return "%s(%s)[%s]" % (a[0], r(a[1]), ",".join(map(r, a[2:])))
    if o == "lam":
        return "\\%s. %s" % (" ".join(map(r, a[0])), r(a[2]))
    return "%s(%s)" % (o, ", ".join(map(r, a)))


# ------------------------------------------------------------------ canonical form
ATOM = []          # id -> tuple
_ATID = {}
ATFV = []          # id -> frozenset of free iv uids


def atom_id(a):
    i = _ATID.get(a)
    if i is None:
        i = len(ATOM)
        _ATID[a] = i
        ATOM.append(a)
        ATFV.append(_atom_fv(a))
    return i


def _atom_fv(a):
    if a[0] == "iv":
        return frozenset((a[1],))
    s = frozenset()
    for x in _subs(a):
        if isinstance(x, Poly):
            s |= x.fv
        else:
            s |= x
    return s


def _subs(x):
    for y in x:
        if isinstance(y, Poly):
            yield y
        elif isinstance(y, tuple):
            yield from _subs(y)


class Poly:
    __slots__ = ("terms", "fv", "_h", "_lv")
    _tab = {}

    @staticmethod
    def make(d):
        terms = tuple(sorted((m, c) for m, c in d.items() if c != 0))
        p = Poly._tab.get(terms)
        if p is None:
            p = Poly()
            p.terms = terms
            s = frozenset()
            for m, c in terms:
                for a, e in m:
                    s |= ATFV[a]
            p.fv = s
            p._h = hash(terms)
            p._lv = None
            Poly._tab[terms] = p
        return p

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.terms < o.terms

    def __repr__(self):
        return pshow(self)

    @property
    def zero(self):
        return not self.terms

    def const(self):
        if not self.terms:
            return F0
        if len(self.terms) == 1 and self.terms[0][0] == ():
            return self.terms[0][1]
        return None

    def single_atom(self):
        """atom tuple when the poly is exactly one atom with coefficient 1, exponent 1"""
        if len(self.terms) == 1 and self.terms[0][1] == 1 and len(self.terms[0][0]) == 1 \
                and self.terms[0][0][0][1] == 1:
            return ATOM[self.terms[0][0][0][0]]
        return None


def pc(v):
    return Poly.make({(): Fraction(v)})


PZERO, PONE = None, None


def patom(a, e=F1):
    return Poly.make({((atom_id(a), Fraction(e)),): F1})


PZERO, PONE = pc(0), pc(1)


def padd(*ps):
    d = {}
    for p in ps:
        for m, c in p.terms:
            d[m] = d.get(m, F0) + c
    return Poly.make(d)


def pscale(p, k):
    if k == 1:
        return p
    return Poly.make({m: c * k for m, c in p.terms})


def pneg(p):
    return pscale(p, F_1)


F_1 = Fraction(-1)
MAXTERMS = 4000


def mmul(m1, m2):
    """multiply monomials; returns (coef, mono) list via Poly when exp / delta / prime atoms interact"""
    d = dict(m1)
    exps = []
    for a, e in m2:
        if a in d:
            d[a] = d[a] + e
        else:
            d[a] = e
    ex = [a for a in d if ATOM[a][0] == "exp"]
    coef = F1
    extra = None
    if len(ex) > 1 or (ex and d[ex[0]] != 1):
        tot = PZERO
        for a in ex:
            tot = padd(tot, pscale(ATOM[a][1], d.pop(a)))
        extra = pexp(tot)
    rest = {}
    for a, e in d.items():
        k = ATOM[a][0]
        if e == 0:
            continue
        if k == "n":          # prime with fractional exponent: integer part to coefficient
            q = e.numerator // e.denominator
            if q:
                coef *= Fraction(ATOM[a][1]) ** q
                e = e - q
            if e == 0:
                continue
        elif k in ("delta", "ind"):
            if e > 0:
                e = F1
        elif k == "fn" and ATOM[a][1] == "cos" and e >= 2:
            # cos^2 = 1 - sin^2
            q = int(e) // 2
            base = padd(PONE, pscale(ppowi(pfn("sin", ATOM[a][2][0]), 2), F_1))
            x = ppowi(base, q)
            extra = x if extra is None else pmul(extra, x)
            e = e - 2 * q
            if e == 0:
                continue
        elif k == "fn" and ATOM[a][1] == "abs" and e.denominator == 1 and e % 2 == 0 and e > 0:
            x = ppowi(ATOM[a][2][0], int(e))
            extra = x if extra is None else pmul(extra, x)
            continue
        elif k == "P" and e.denominator == 1 and e > 0:
            x = ppowi(ATOM[a][1], int(e))
            extra = x if extra is None else pmul(extra, x)
            continue
        rest[a] = e
    m = tuple(sorted(rest.items()))
    return coef, m, extra


def pmul(p, q):
    if p.zero or q.zero:
        return PZERO
    if p is PONE:
        return q
    if q is PONE:
        return p
    if len(p.terms) * len(q.terms) > MAXTERMS:
        raise Limit("product too large")
    d = {}
    extras = []
    for m1, c1 in p.terms:
        for m2, c2 in q.terms:
            if not m1:
                d[m2] = d.get(m2, F0) + c1 * c2
                continue
            if not m2:
                d[m1] = d.get(m1, F0) + c1 * c2
                continue
            c, m, ex = mmul(m1, m2)
            c = c * c1 * c2
            if ex is None:
                d[m] = d.get(m, F0) + c
            else:
                extras.append(pmul(Poly.make({m: c}), ex))
    r = Poly.make(d)
    if extras:
        r = padd(r, *extras)
    if len(r.terms) > MAXTERMS:
        raise Limit("sum too large")
    return r


def ppowi(p, n):
    if n == 0:
        return PONE
    r = PONE
    for _ in range(n):
        r = pmul(r, p)
    return r


POSKINDS = {"exp", "n"}


def is_pos_atom(a):
    k = a[0]
    if k in POSKINDS:
        return True
    if k == "s":
        return a[2]
    if k == "at":
        return ARRAYS.get(a[1], {}).get("sort") == "pos" if isinstance(a[1], str) else False
    if k == "fn":
        return a[1] in ("abs", "ndtr", "sqrtabs")
    if k == "P":
        return True      # interior assumption: bases of fractional/negative powers and logs
    return False


def content(p):
    """p = coef * mono * primitive; coef > 0 when the primitive has several terms"""
    if len(p.terms) == 1:
        m, c = p.terms[0]
        return c, m, PONE
    common = None
    for m, c in p.terms:
        dm = dict(m)
        if common is None:
            common = dm
        else:
            common = {a: min(e, dm[a]) for a, e in common.items() if a in dm and (e > 0) == (dm[a] > 0)}
            # negative exponents: take the minimum (most negative) over all, missing = 0
    neg_ = {}
    for m, c in p.terms:
        for a, e in m:
            if e < 0:
                neg_[a] = min(neg_.get(a, F0), e)
    for a, e in neg_.items():
        common[a] = e
    common = {a: e for a, e in common.items() if e != 0 and ATOM[a][0] != "exp"}
    lead = p.terms[0][1]
    co = abs(lead)
    d = {}
    q = p
    if common:
        inv = tuple(sorted((a, -e) for a, e in common.items()))
        q = pmul(p, Poly.make({inv: F1}))
        if len(q.terms) == 1:
            m, c = q.terms[0]
            cc, mm, ex = mmul(m, tuple(sorted(common.items())))
            if ex is None:
                return c * cc, mm, PONE
        co = abs(q.terms[0][1])
    q = pscale(q, 1 / co)
    return co, tuple(sorted(common.items())), q


_primes = {}


def primes(n):
    r = {}
    p = 2
    while p * p <= n:
        while n % p == 0:
            r[p] = r.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        r[n] = r.get(n, 0) + 1
    return r


def cpow(c, e):
    """rational ** rational as Poly"""
    if e.denominator == 1:
        if c == 0 and e < 0:
            return patom(("opq", "div0", ()))
        return pc(c ** int(e))
    if c < 0:
        return patom(("opq", "negroot", (pc(c), pc(e))))
    if c == 0:
        return PZERO
    if c.numerator > 10 ** 9 or c.denominator > 10 ** 9:
        return patom(("opq", "bigroot", (pc(c), pc(e))))
    r = PONE
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for p, k in primes(n).items():
            x = e * k * s
            q = x.numerator // x.denominator
            fr = x - q
            r = pmul(r, pc(Fraction(p) ** q))
            if fr:
                r = pmul(r, patom(("n", p), fr))
    return r


def ppow(p, e):
    """p ** e, e rational"""
    if e == 0:
        return PONE
    if e == 1:
        return p
    if p.zero:
        return PZERO if e > 0 else patom(("opq", "div0", ()))
    if e.denominator == 1 and e > 0 and e <= 12:
        return ppowi(p, int(e))
    if len(p.terms) == 1:
        m, c = p.terms[0]
        r = cpow(c, e)
        for a, x in m:
            at = ATOM[a]
            if at[0] == "exp":
                r = pmul(r, pexp(pscale(at[1], x * e)))
                continue
            y = x * e
            if y.denominator != 1 and x.denominator == 1 and x % 2 == 0 and not is_pos_atom(at):
                r = pmul(r, patom(("fn", "abs", (patom(at),)), y))
            elif y.denominator == 1 and x.denominator == 1 and x % 2 == 0 and not is_pos_atom(at) \
                    and e.denominator != 1 and y % 2 != 0:
                r = pmul(r, patom(("fn", "abs", (patom(at),)), y))
            elif at[0] == "P" and y.denominator == 1 and y > 0:
                r = pmul(r, ppowi(at[1], int(y)))
            else:
                r = pmul(r, Poly.make({((a, y),): F1}))
        return r
    c, m, q = content(p)
    r = ppow(Poly.make({m: c}), e) if (m or c != 1) else PONE
    if q is not PONE:
        if e.denominator == 1 and e > 0:
            r = pmul(r, ppowi(q, int(e)))
        else:
            if len(q.terms) == 1:
                r = pmul(r, ppow(q, e))
            else:
                if e.denominator == 1 and q.terms[0][1] < 0:
                    q = pneg(q)
                    if e % 2:
                        r = pneg(r)
                r = pmul(r, patom(("P", q), e))
    return r


def pexp(p):
    if p.zero:
        return PONE
    # pull out logs: exp(c*log(x)) = x^c
    r = PONE
    d = {}
    for m, c in p.terms:
        la = [a for a, e in m if ATOM[a][0] == "log" and e == 1]
        if len(m) == 1 and len(la) == 1:
            r = pmul(r, ppow(ATOM[la[0]][1], c))
        else:
            d[m] = c
    q = Poly.make(d)
    if q.zero:
        return r
    # normalise: keep exp(q)
    return pmul(r, patom(("exp", q))) if r is not PONE else patom(("exp", q))


def plog(p):
    if p.zero:
        return patom(("opq", "log0", ()))
    c, m, q = content(p)
    r = PZERO
    if c != 1:
        if c < 0:
            if q is PONE:
                return patom(("fn", "logneg", (p,)))
            c = -c
            q = pneg(q)
        if c.numerator < 10 ** 9 and c.denominator < 10 ** 9:
            for n, s in ((c.numerator, 1), (c.denominator, -1)):
                for pr, k in primes(n).items():
                    r = padd(r, pscale(patom(("log", pc(pr))), Fraction(k * s)))
        else:
            r = padd(r, patom(("log", pc(c))))
    for a, e in m:
        at = ATOM[a]
        if at[0] == "exp":
            r = padd(r, pscale(at[1], e))
        elif at[0] == "n":
            r = padd(r, pscale(patom(("log", pc(at[1]))), e))
        elif at[0] == "P":
            r = padd(r, pscale(patom(("log", at[1])), e))
        elif at[0] == "red" and at[1] == "prod":
            # logarithm of a product of positive numbers
            v = fresh_iv()
            b = psubst(at[3], {atom_id(("B", at[4])): patom(("iv", v))})
            r = padd(r, pscale(psum(v, at[2], plog(b)), e))
        else:
            r = padd(r, pscale(patom(("log", patom(at))), e))
    if q is not PONE:
        r = padd(r, patom(("log", q)))
    return r


def leadneg(p):
    """sign normalisation: is the leading coefficient negative?"""
    return bool(p.terms) and p.terms[0][1] < 0


def pfn(name, *args):
    """canonical function application"""
    x = args[0] if args else None
    if name == "exp":
        return pexp(x)
    if name == "log":
        return plog(x)
    if name == "sqrt":
        return ppow(x, Fraction(1, 2))
    if name == "log_ndtr":
        return plog(pfn("ndtr", x))
    if name == "gamma":
        return pexp(pfn("gammaln", x))
    if name == "digamma":
        return pfn("polygamma", PZERO, x)
    if name == "abs":
        c = x.const()
        if c is not None:
            return pc(abs(c))
        if len(x.terms) == 1:
            m, c = x.terms[0]
            r = pc(abs(c))
            for a, e in m:
                at = ATOM[a]
                if is_pos_atom(at) or (e.denominator == 1 and e % 2 == 0):
                    r = pmul(r, Poly.make({((a, e),): F1}))
                else:
                    r = pmul(r, patom(("fn", "abs", (patom(at),)), e))
            return r
        if leadneg(x):
            x = pneg(x)
        return patom(("fn", "abs", (x,)))
    if name == "sign":
        c = x.const()
        if c is not None:
            return pc((c > 0) - (c < 0))
        if leadneg(x):
            return pneg(pfn("sign", pneg(x)))
        if len(x.terms) == 1 and all(is_pos_atom(ATOM[a]) for a, e in x.terms[0][0]):
            return PONE
        return patom(("fn", "sign", (x,)))
    if name == "tanh":
        return padd(pscale(ppow(padd(PONE, pexp(pscale(x, Fraction(-2)))), F_1), Fraction(2)), pc(-1))
    if name in ("sin", "tan", "arctan"):
        if x.zero:
            return PZERO
        if leadneg(x):
            return pneg(pfn(name, pneg(x)))
    if name == "cos":
        if x.zero:
            return PONE
        if leadneg(x):
            x = pneg(x)
    if name == "ndtr":
        if x.zero:
            return pc(Fraction(1, 2))
        if leadneg(x):
            return padd(PONE, pneg(pfn("ndtr", pneg(x))))
    if name == "erf":
        # erf(x) = 2*ndtr(x*sqrt2) - 1
        return padd(pscale(pfn("ndtr", pmul(x, cpow(Fraction(2), Fraction(1, 2)))), Fraction(2)), pc(-1))
    if name == "erfc":
        return padd(PONE, pneg(pfn("erf", x)))
    if name == "expit":
        return ppow(padd(PONE, pexp(pneg(x))), F_1)
    if name == "log1p":
        return plog(padd(PONE, x))
    if name == "expm1":
        return padd(pexp(x), pc(-1))
    if name == "log2":
        return pmul(plog(x), ppow(plog(pc(2)), F_1))
    if name == "log10":
        return pmul(plog(x), ppow(plog(pc(10)), F_1))
    if name in ("maximum", "minimum"):
        a, b = args
        if a is b:
            return a
        d = padd(a, pneg(b)).const()
        if d is not None:
            return (a if d >= 0 else b) if name == "maximum" else (b if d >= 0 else a)
        c = cgt0(padd(a, pneg(b)))
        if c is True or c is False:
            return a if c == (name == "maximum") else b
        if a.const() is not None or b.const() is not None:
            return pif(c, a, b) if name == "maximum" else pif(c, b, a)
        # canonical: max(a,b) = b + relu(a-b) ordering
        if b < a:
            a, b = b, a
        return patom(("fn", name, (a, b)))
    if name in ("kfun",) and len(args) == 2 and args[1] < args[0]:
        args = (args[1], args[0])
    if name == "betaln":
        a, b = args
        return padd(pfn("gammaln", a), pfn("gammaln", b), pneg(pfn("gammaln", padd(a, b))))
    if name == "floor":
        c = x.const()
        if c is not None:
            return pc(math.floor(c))
    if name == "mod":
        c, d = args[0].const(), args[1].const()
        if c is not None and d:
            return pc(c % d)
    return patom(("fn", name, tuple(args)))


# ---- conditions: True / False / ('gt0', P) / ('eq0', P) / ('not', c) / ('and', ..) / ('or', ..) / ('b', Poly)
def cnot(c):
    if c is True:
        return False
    if c is False:
        return True
    if c[0] == "not":
        return c[1]
    return ("not", c)


def cgt0(p):
    k = p.const()
    if k is not None:
        return k > 0
    s = possign(p)
    if s == 1:
        return True
    if s == -1:
        return False
    if not any(ATOM[a][0] == "exp" for m, c in p.terms for a, e in m):
        lead = abs(p.terms[0][1])
        p = pscale(p, 1 / lead)
    return ("gt0", p)


def possign(p):
    """+1 / -1 when every monomial is a product of positive atoms with the same sign"""
    sg = None
    for m, c in p.terms:
        for a, e in m:
            if not is_pos_atom(ATOM[a]) and not (e.denominator == 1 and e % 2 == 0 and False):
                return None
        s = 1 if c > 0 else -1
        if sg is None:
            sg = s
        elif sg != s:
            return upper_tail(p)
    return sg


def upper_tail(p):
    """the sign of c * (1 - ndtr(x))"""
    if len(p.terms) == 2:
        k = [c for m, c in p.terms if m == ()]
        t = [(m[0], c) for m, c in p.terms if len(m) == 1]
        if len(k) == 1 and len(t) == 1 and t[0][0][1] == 1 and ATOM[t[0][0][0]][:2] == ("fn", "ndtr") and t[0][1] == -k[0]:
            return 1 if k[0] > 0 else -1
    return None


def ceq0(p):
    k = p.const()
    if k is not None:
        return k == 0
    s = possign(p)
    if s is not None:
        return False
    if p.terms[0][1] < 0:
        p = pneg(p)
    if not any(ATOM[a][0] == "exp" for m, c in p.terms for a, e in m):
        p = pscale(p, 1 / abs(p.terms[0][1]))
    # index constants that differ by an integer were folded above
    return ("eq0", p)


def cand(cs):
    out = set()
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        if c[0] == "and":
            out |= set(c[1])
        else:
            out.add(c)
    for c in out:
        if cnot(c) in out:
            return False
    if not out:
        return True
    if len(out) == 1:
        return next(iter(out))
    return ("and", tuple(sorted(out, key=repr_key)))


def cor(cs):
    return cnot(cand([cnot(c) for c in cs]))


def repr_key(c):
    if isinstance(c, Poly):
        return ("p", c.terms)
    if isinstance(c, tuple):
        return ("t",) + tuple(repr_key(x) for x in c)
    return ("z", repr(c))


class _Key:
    pass


def repr_key(c):   # total order through strings of interned ids
    if isinstance(c, Poly):
        return "P" + repr(c.terms)
    if isinstance(c, tuple):
        return "(" + ",".join(repr_key(x) for x in c) + ")"
    return repr(c)


def pif(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if c[0] == "not":
        return pif(c[1], b, a)
    if c[0] == "and" and all(x[0] == "eq0" and is_index_eq(x) for x in c[1]):
        r = PONE
        for x in c[1]:
            r = pmul(r, pdelta0(x[1]))
        return padd(b, pmul(r, padd(a, pneg(b))))
    if c[0] == "eq0" and is_index_eq(c):
        d = pdelta0(c[1])
        return padd(b, pmul(d, padd(a, pneg(b))))
    # linear form: if(c,a,b) = b + ind(c)*(a-b)
    return padd(b, pmul(patom(("ind", c)), padd(a, pneg(b))))


def is_index_eq(c):
    """equality between integer (index valued) expressions: becomes a Kronecker delta"""
    p = c[1]
    for m, k in p.terms:
        for a, e in m:
            if not is_int_atom(ATOM[a]):
                return False
    return True


def is_int_atom(a):
    if a[0] in ("iv", "B"):
        return True
    if a[0] == "at" and isinstance(a[1], str):
        return ARRAYS.get(a[1], {}).get("sort") == "int"
    if a[0] == "s":
        return len(a) > 3 and a[3] in ("int", "dim")
    return False


def pdelta0(p):
    """delta of p == 0, split as A == B"""
    k = p.const()
    if k is not None:
        return PONE if k == 0 else PZERO
    if leadneg(p):
        p = pneg(p)
    return patom(("delta", p))


# ---- levels of bound variables
def levels(p):
    if p._lv is None:
        L = 0
        for m, c in p.terms:
            for a, e in m:
                L = max(L, alevel(ATOM[a]))
        p._lv = L
    return p._lv


def alevel(a):
    if a[0] == "B":
        return a[1]
    L = 0
    for x in _subs(a):
        L = max(L, levels(x))
    return L


def psubst(p, m, memo=None):
    """m: atom id -> Poly (for iv / B / s / at-atoms)"""
    if memo is None:
        memo = {}
    r = memo.get(p)
    if r is not None:
        return r
    out = []
    for mo, c in p.terms:
        r = pc(c)
        for a, e in mo:
            r = pmul(r, asubst(a, e, m, memo))
        out.append(r)
    r = padd(*out) if out else PZERO
    memo[p] = r
    return r


def asubst(a, e, m, memo):
    if a in m:
        return ppow(m[a], e)
    at = ATOM[a]
    key = ("a", a)
    r = memo.get(key)
    if r is None:
        r = arebuild(at, lambda q: psubst(q, m, memo))
        memo[key] = r
    return ppow(r, e)


def arebuild(at, f):
    k = at[0]
    if k in ("s", "iv", "B", "n"):
        return patom(at)
    if k == "at":
        nm = at[1]
        if isinstance(nm, tuple):
            nm = tmap(nm, f)
        return pat(nm, tuple(f(x) for x in at[2]))
    if k == "fn":
        return pfn(at[1], *[f(x) for x in at[2]])
    if k == "exp":
        return pexp(f(at[1]))
    if k == "log":
        return plog(f(at[1]))
    if k == "P":
        return f(at[1])
    if k == "delta":
        return pdelta0(f(at[1]))
    if k == "ind":
        return pif(cmap(at[1], f), PONE, PZERO)
    if k == "sum":
        # open the sum with fresh variables, then close again
        dims, body, ivs = open_sum(at)
        b = f(body)
        ds = [f(d) for d in dims]
        for v, d in zip(ivs, ds):
            b = psum(v, d, b)
        return b
    if k == "red":
        iv = fresh_iv()
        body = psubst(at[3], {atom_id(("B", alevel_binder(at))): patom(("iv", iv))})
        return pred(at[1], iv, f(at[2]), f(body))
    if k == "lam":
        ivs = [fresh_iv() for _ in at[1]]
        base = at[3]
        body = psubst(at[2], {atom_id(("B", base + j)): patom(("iv", v)) for j, v in enumerate(ivs)})
        return plam(ivs, [f(d) for d in at[1]], f(body))
    if k == "lastw":
        iv = fresh_iv()
        L = at[1]
        s = {atom_id(("B", L)): patom(("iv", iv))}
        return plastw(iv, f(at[2]), [f(psubst(x, s)) for x in at[3]], [f(x) for x in at[4]],
                      f(psubst(at[5], s)), f(at[6]))
    return patom(tmap(at, f))


def tmap(x, f):
    if isinstance(x, Poly):
        return f(x)
    if isinstance(x, tuple):
        return tuple(tmap(y, f) for y in x)
    return x


def cmap(c, f):
    if c is True or c is False:
        return c
    if c[0] == "gt0":
        return cgt0(f(c[1]))
    if c[0] == "eq0":
        return ceq0(f(c[1]))
    if c[0] == "not":
        return cnot(cmap(c[1], f))
    if c[0] == "and":
        return cand([cmap(x, f) for x in c[1]])
    if c[0] == "b":
        return ctruth(f(c[1]))
    return tmap(c, f)


def ctruth(p):
    k = p.const()
    if k is not None:
        return k != 0
    return ("b", p)


def fresh_iv():
    return next(_fresh)


def alevel_binder(at):
    # for 'red': body bound level is stored
    return at[4]


def pred(kind, iv, dim, body):
    """reduction max/min/prod/argmax/argmin/any/all over iv"""
    L = levels(body) + 1
    b = psubst(body, {atom_id(("iv", iv)): patom(("B", L))})
    if iv not in body.fv:
        if kind in ("max", "min", "any", "all"):
            return body
        if kind == "prod":
            k = dim.const()
            if body.const() == 1:
                return PONE
    n = dim.const()
    if kind != "prod" and n is not None and n == int(n) and 0 < n <= 24:
        vals = []
        for k in range(int(n)):
            vals.append(psubst(body, {atom_id(("iv", iv)): PONE if k == 1 else pscale(PONE, k) if k else PZERO}).const())
            if vals[-1] is None:
                break
        else:
            v = max(vals) if kind in ("max", "argmax") else min(vals) if kind in ("min", "argmin") else int(any(vals)) if kind == "any" else int(all(vals)) if kind == "all" else None
            if v is not None:
                v = vals.index(v) if kind.startswith("arg") else v
                return pscale(PONE, v) if v else PZERO
    if kind == "prod" and body.terms and len(body.terms) == 1:
        # exp/pos constants are left as they are
        pass
    return patom(("red", kind, dim, b, L))


def plam(ivs, dims, body):
    L = levels(body)
    for d in dims:
        L = max(L, levels(d))
    base = L + 1
    s = {atom_id(("iv", v)): patom(("B", base + j)) for j, v in enumerate(ivs)}
    return patom(("lam", tuple(dims), psubst(body, s), base))


def plastw(iv, dim, idxs, targets, val, old):
    """value at `targets` after `for iv in range(dim): A[idxs(iv)] = val(iv)` (last write wins)"""
    # exact permutation write: idxs == [iv + c]
    vid = atom_id(("iv", iv))
    if all(iv not in x.fv for x in idxs):
        # the index does not depend on the loop variable: last iteration wins
        c = cand([("eq0", padd(a, pneg(b))) if padd(a, pneg(b)).const() is None else
                  (padd(a, pneg(b)).const() == 0) for a, b in zip(idxs, targets)])
        if iv not in val.fv:
            return pif(c, val, old)
    L = max([levels(x) for x in idxs] + [levels(val), levels(old)] + [levels(t) for t in targets] + [0]) + 1
    s = {vid: patom(("B", L))}
    return patom(("lastw", L, dim, tuple(psubst(x, s) for x in idxs), tuple(targets), psubst(val, s), old))


def open_sum(at):
    """('sum', dims, body, base) -> dims, body with fresh ivs, ivs (innermost first)"""
    dims, body, base = at[1], at[2], at[3]
    ivs = [fresh_iv() for _ in dims]
    s = {atom_id(("B", base + j)): patom(("iv", v)) for j, v in enumerate(ivs)}
    return dims, psubst(body, s), ivs


def psum(iv, dim, p):
    """sum over iv in range(dim) of p, canonical"""
    k = dim.const()
    out = []
    vid = atom_id(("iv", iv))
    for m, c in p.terms:
        if iv not in Poly.make({m: F1}).fv:
            out.append(pmul(Poly.make({m: c}), dim))
            continue
        out.append(pscale(sum_mono(iv, dim, m), c))
    return padd(*out) if out else PZERO


def sum_mono(iv, dim, m):
    vid = atom_id(("iv", iv))
    indep = tuple((a, e) for a, e in m if iv not in ATFV[a])
    dep = [(a, e) for a, e in m if iv in ATFV[a]]
    # delta elimination
    for a, e in dep:
        at = ATOM[a]
        if at[0] == "delta" and e == 1:
            sol = solve_delta(at[1], iv)
            if sol is not None:
                rest = Poly.make({tuple(x for x in dep if x[0] != a): F1})
                r = psubst(rest, {vid: sol})
                return pmul(Poly.make({indep: F1}), r)
    # open dependent inner sums (positive integer powers)
    for a, e in dep:
        at = ATOM[a]
        if at[0] == "sum" and e.denominator == 1 and e > 0:
            rest = [(b, f) for b, f in m if b != a]
            if e > 1:
                rest.append((a, e - 1))
            dims, body, ivs = open_sum(at)
            q = pmul(Poly.make({tuple(sorted(rest)): F1}), body)
            q = psum(iv, dim, q)
            for v, d in zip(ivs, dims):
                q = psum(v, d, q)
            return q
    # sums of P^positive etc are left as atoms
    return pmul(Poly.make({indep: F1}), close_sum([(iv, dim)], dep))


def solve_delta(p, iv):
    """delta(p == 0) with p linear in iv: value of iv"""
    vid = atom_id(("iv", iv))
    coef, rest = None, []
    for m, c in p.terms:
        if m == ((vid, F1),):
            coef = c
        else:
            for a, e in m:
                if iv in ATFV[a]:
                    return None
            rest.append((m, c))
    if coef is None or abs(coef) != 1:
        return None
    return Poly.make({m: -c / coef for m, c in rest})


def mat_rewrite(vars_, mono):
    """sum_v inv(chol K)[v,i] inv(chol K)[v,j] = inv(K)[i,j];  sum_v chol(K)[i,v] chol(K)[j,v] = K[i,j]"""
    for v, d in vars_:
        occ = [(a, e) for a, e in mono if v in ATFV[a]]
        if len(occ) == 1 and occ[0][1] == 2:
            pair = [occ[0][0], occ[0][0]]
        elif len(occ) == 2 and occ[0][1] == 1 and occ[1][1] == 1:
            pair = [occ[0][0], occ[1][0]]
        else:
            continue
        A, B = ATOM[pair[0]], ATOM[pair[1]]
        if A[0] != "at" or B[0] != "at" or not isinstance(A[1], tuple) or A[1] != B[1]:
            # inv(M) * M -> delta
            r = inv_times(A, B, v) or inv_times(B, A, v)
            if r is not None:
                rest = [(a, e) for a, e in mono if a not in pair]
                return v, pmul(Poly.make({tuple(sorted(rest)): F1}), r)
            continue
        nm = A[1]
        vp = patom(("iv", v))
        r = None
        if nm[0] == "inv" and is_chol(nm[1]) and A[2][0] is vp and B[2][0] is vp:
            r = pat(("inv", chol_arg(nm[1])), (A[2][1], B[2][1]))
        elif nm[0] == "chol" and A[2][1] is vp and B[2][1] is vp:
            r = lam_apply(nm[1], (A[2][0], B[2][0]))
        if r is not None:
            rest = [(a, e) for a, e in mono if a not in pair]
            return v, pmul(Poly.make({tuple(sorted(rest)): F1}), r)
    return None


def inv_times(A, B, v):
    """sum_v inv(M)[i,v] * M[v,j] where M's element is exactly the atom B"""
    if A[0] == "at" and isinstance(A[1], tuple) and A[1][0] == "inv":
        lam = A[1][1]
        vp = patom(("iv", v))
        if A[2][1] is vp:
            # does B equal M[v, j] for some j? try with the body being a bare atom of the same head
            la = lam.single_atom()
            if la and la[0] == "lam" and len(la[1]) == 2:
                body = la[2].single_atom()
                if body and B[0] == "at" and body[0] == "at" and body[1] == B[1] and len(B[2]) == 2:
                    b0, b1 = ("B", la[3]), ("B", la[3] + 1)
                    if body[2][0].single_atom() == b0 and body[2][1].single_atom() == b1 and B[2][0] is vp:
                        return pdelta0(padd(A[2][0], pneg(B[2][1])))
    return None


def is_chol(lam):
    """lam body is chol(K)[b0,b1]"""
    la = lam.single_atom()
    if la and la[0] == "lam" and len(la[1]) == 2:
        b = la[2].single_atom()
        if b and b[0] == "at" and isinstance(b[1], tuple) and b[1][0] == "chol":
            return b[2][0].single_atom() == ("B", la[3]) and b[2][1].single_atom() == ("B", la[3] + 1)
    return False


def chol_arg(lam):
    la = lam.single_atom()
    return la[2].single_atom()[1][1]


def lam_apply(lam, args):
    la = lam.single_atom()
    if not la or la[0] != "lam":
        raise Limit("apply")
    return psubst(la[2], {atom_id(("B", la[3] + j)): a for j, a in enumerate(args)})


_sym_cache = {}


def lam_symmetric(lam):
    r = _sym_cache.get(lam)
    if r is None:
        la = lam.single_atom()
        r = False
        if la and la[0] == "lam" and len(la[1]) == 2:
            i, j = patom(("iv", fresh_iv())), patom(("iv", fresh_iv()))
            try:
                r = padd(lam_apply(lam, (i, j)), pneg(lam_apply(lam, (j, i)))).zero
            except Limit:
                r = False
        _sym_cache[lam] = r
    return r


def pat(name, idx):
    """array element"""
    if isinstance(name, tuple):
        if name[0] == "inv":
            la = name[1].single_atom()
            # inv of identity-like
            if la and la[0] == "lam" and la[2].single_atom() and la[2].single_atom()[0] == "delta":
                return pdelta0(padd(idx[0], pneg(idx[1])))
            # inv(inv M) = M
            if la and la[0] == "lam":
                b = la[2].single_atom()
                if b and b[0] == "at" and isinstance(b[1], tuple) and b[1][0] == "inv" and \
                        b[2][0].single_atom() == ("B", la[3]) and b[2][1].single_atom() == ("B", la[3] + 1):
                    return lam_apply(b[1][1], idx)
            if lam_symmetric(name[1]) and idx[1] < idx[0]:
                idx = (idx[1], idx[0])
    else:
        meta = ARRAYS.get(name, {})
        if meta.get("sym") and len(idx) == 2 and idx[1] < idx[0]:
            idx = (idx[1], idx[0])
    return patom(("at", name, tuple(idx)))


def close_sum(vars_, dep):
    """vars_: [(iv, dim)], dep: atoms depending on them. Connected components become separate sum atoms."""
    r = mat_rewrite(vars_, dep)
    if r is not None:
        v, q = r
        for w, d in vars_:
            if w != v:
                q = psum(w, d, q)
        return q
    # nested sums: dep may contain 'sum' atoms only with negative/fractional powers: keep
    comp = list(vars_)
    L = 0
    for a, e in dep:
        L = max(L, alevel(ATOM[a]))
    for v, d in vars_:
        L = max(L, levels(d))
    # merge with inner single-component sums already opened by caller: here vars_ has length >= 1
    best = None
    body = Poly.make({tuple(sorted(dep)): F1})
    # pull inner sums (positive powers) depending on our vars were opened; so flatten by searching
    perms = itertools.permutations(range(len(vars_))) if len(vars_) <= 4 else [tuple(range(len(vars_)))]
    for pm in perms:
        s = {atom_id(("iv", vars_[pm[j]][0])): patom(("B", L + 1 + j)) for j in range(len(vars_))}
        b = psubst(body, s)
        key = (len(b.terms), tuple(vars_[pm[j]][1].terms for j in range(len(vars_))), b.terms)
        if best is None or key < best[0]:
            best = (key, b, tuple(vars_[pm[j]][1] for j in range(len(vars_))))
    if best[0][0] == 1:
        c = best[1].terms[0][1]
        if c != 1:
            return pscale(patom(("sum", best[2], pscale(best[1], 1 / c), L + 1)), c)
        return patom(("sum", best[2], best[1], L + 1))
    # renaming the variables turned a factor round (ndtr(-x) = 1 - ndtr(x)): sum the terms one by one
    return close_bound({atom_id(("B", L + 1 + j)): d for j, d in enumerate(best[2])}, best[1])


def bound_in(aid, bs, memo):
    """the bound-variable atoms among `bs` an atom depends on"""
    if aid in bs:
        return frozenset((aid,))
    r = memo.get(aid)
    if r is None:
        out = set()
        for x in _subs(ATOM[aid]):
            for m, c in x.terms:
                for a, e in m:
                    out |= bound_in(a, bs, memo)
        r = memo[aid] = frozenset(out)
    return r


def level_without(p, bs, memo):
    L = 0
    for m, c in p.terms:
        for a, e in m:
            if a in bs:
                continue
            at = ATOM[a]
            if at[0] == "B":
                L = max(L, at[1])
            elif (a, 0) in memo:
                L = max(L, memo[(a, 0)])
            else:
                k = max([level_without(x, bs, memo) for x in _subs(at)] or [0])
                memo[(a, 0)] = k
                L = max(L, k)
    return L


def close_bound(bs, p, depth=0):
    """sum of p over the bound variables bs ({atom id: dim}), p already in terms of them"""
    if depth > 6:
        raise Limit("sum does not settle")
    out = []
    memo = {}
    for m, c in p.terms:
        dep = [(a, e) for a, e in m if bound_in(a, bs, memo)]
        r = Poly.make({tuple(x for x in m if x not in dep): c})
        used = set()
        while dep:
            comp, cv = [dep[0]], set(bound_in(dep[0][0], bs, memo))
            ch = True
            while ch:
                ch = False
                for x in dep:
                    if x not in comp and bound_in(x[0], bs, memo) & cv:
                        comp.append(x)
                        cv |= bound_in(x[0], bs, memo)
                        ch = True
            dep = [x for x in dep if x not in comp]
            used |= cv
            body = Poly.make({tuple(sorted(comp)): F1})
            lm = {}
            L = max([level_without(body, bs, lm)] + [levels(bs[v]) for v in cv])
            best = None
            vs = sorted(cv)
            for pm in (itertools.permutations(vs) if len(vs) <= 4 else [tuple(vs)]):
                b = psubst(body, {v: patom(("B", L + 1 + j)) for j, v in enumerate(pm)})
                key = (len(b.terms), tuple(bs[v].terms for v in pm), b.terms)
                if best is None or key < best[0]:
                    best = (key, b, tuple(bs[v] for v in pm))
            if best[0][0] == 1:
                k = best[1].terms[0][1]
                r = pscale(pmul(r, patom(("sum", best[2], pscale(best[1], 1 / k), L + 1))), k)
            else:
                r = pmul(r, close_bound({atom_id(("B", L + 1 + j)): d for j, d in enumerate(best[2])}, best[1], depth + 1))
        for v in bs:
            if v not in used:
                r = pmul(r, bs[v])
        out.append(r)
    return padd(*out) if out else PZERO


def sum_mono_multi(vars_, m):
    """sum of monomial over several variables with factorisation into connected components"""
    r = PONE
    atoms = list(m)
    vs = dict(vars_)
    todo = set(vs)
    # the part of an exponent that does not depend on the variables leaves the sum
    for a, e in list(atoms):
        if ATOM[a][0] == "exp" and ATFV[a] & todo:
            q = ATOM[a][1]
            inv = {k: c for k, c in q.terms if not any(ATFV[x] & todo for x, _ in k)}
            if inv:
                dep = {k: c for k, c in q.terms if k not in inv}
                out = ppow(patom(("exp", Poly.make(inv))), e)
                rest = [x for x in atoms if x[0] != a]
                inner = pmul(Poly.make({tuple(sorted(rest)): F1}), ppow(patom(("exp", Poly.make(dep))), e))
                return pmul(out, psum_multi(vars_, inner))
    # constants
    const = [(a, e) for a, e in atoms if not (ATFV[a] & todo)]
    atoms = [(a, e) for a, e in atoms if ATFV[a] & todo]
    r = Poly.make({tuple(const): F1})
    used = set()
    while atoms:
        comp = {atoms[0]}
        cv = set(ATFV[atoms[0][0]] & todo)
        ch = True
        while ch:
            ch = False
            for x in atoms:
                if x not in comp and ATFV[x[0]] & cv:
                    comp.add(x)
                    cv |= ATFV[x[0]] & todo
                    ch = True
        atoms = [x for x in atoms if x not in comp]
        used |= cv
        r = pmul(r, close_sum([(v, vs[v]) for v in sorted(cv)], sorted(comp)))
    for v in todo - used:
        r = pmul(r, vs[v])
    return r


def psum_multi(vars_, p):
    """sum over several variables at once (flattened, canonical)"""
    out = []
    for m, c in p.terms:
        done = False
        vs = list(vars_)
        # delta elimination first
        for v, d in vs:
            hit = None
            for a, e in m:
                at = ATOM[a]
                if at[0] == "delta" and e == 1 and v in ATFV[a]:
                    sol = solve_delta(at[1], v)
                    if sol is not None:
                        hit = (a, sol)
                        break
            if hit:
                rest = Poly.make({tuple(x for x in m if x[0] != hit[0]): c})
                q = psubst(rest, {atom_id(("iv", v)): hit[1]})
                out.append(psum_multi([x for x in vs if x[0] != v], q))
                done = True
                break
        if done:
            continue
        # open inner sums that depend on one of the variables
        for a, e in m:
            at = ATOM[a]
            if at[0] == "sum" and e.denominator == 1 and e > 0 and (ATFV[a] & {v for v, d in vs}):
                rest = [(b, f) for b, f in m if b != a]
                if e > 1:
                    rest.append((a, e - 1))
                dims, body, ivs = open_sum(at)
                q = pscale(pmul(Poly.make({tuple(sorted(rest)): F1}), body), c)
                out.append(psum_multi(vs + list(zip(ivs, dims)), q))
                done = True
                break
        if done:
            continue
        out.append(pscale(sum_mono_multi(vs, m), c))
    return padd(*out) if out else PZERO


def psum(iv, dim, p):      # noqa: F811  (final definition: flattened)
    return psum_multi([(iv, dim)], p)


# ---- T -> Poly
def norm(t):
    if t._p is not None:
        return t._p
    p = _norm(t)
    t._p = p
    return p


def _norm(t):
    o, a = t.op, t.args
    if o == "c":
        return pc(a[0])
    if o == "k":
        if t is TRUE:
            return PONE
        if t is FALSE:
            return PZERO
        return patom(("k", str(a[0]), a[1]))
    if o == "s":
        return patom(("s", a[0], a[1], a[2]))
    if o == "iv":
        return patom(("iv", a[0]))
    if o == "add":
        return padd(*[norm(x) for x in a])
    if o == "mul":
        r = PONE
        for x in a:
            r = pmul(r, norm(x))
        return r
    if o == "pow":
        b = norm(a[0])
        e = norm(a[1])
        k = e.const()
        if k is not None:
            return ppow(b, k)
        # b^e = exp(e*log b)
        return pexp(pmul(e, plog(b)))
    if o == "fn":
        return pfn(a[0], *[norm(x) if isinstance(x, T) else x for x in a[1:]])
    if o == "at":
        nm = a[0]
        return pat(nm, tuple(norm(x) for x in a[1:]))
    if o == "mat":
        return pat((a[0],) + tuple(norm(x) for x in a[1:2]), tuple(norm(x) for x in a[2:]))
    if o == "lam":
        return plam([x.args[0] for x in a[0]], [norm(x) for x in a[1]], norm(a[2]))
    if o == "sum":
        return psum(a[0].args[0], norm(a[1]), norm(a[2]))
    if o == "red":
        return pred(a[0], a[1].args[0], norm(a[2]), norm(num(a[3])))
    if o == "if":
        return pif(ncond(a[0]), norm(num(a[1])), norm(num(a[2])))
    if o in ("eq", "lt", "and", "or", "not"):
        return pif(ncond(t), PONE, PZERO)
    if o == "lastw":
        iv, dim, idxs, targets, val, old = a
        return plastw(iv.args[0], norm(dim), [norm(x) for x in idxs], [norm(x) for x in targets],
                      norm(num(val)), norm(num(old)))
    if o == "opq":
        return patom(("opq", a[0] if isinstance(a[0], str) else repr(a[0]),
                      tuple(norm(x) if isinstance(x, T) else ("lit", repr(x)) for x in a[1:])))
    return patom(("opq", o, tuple(norm(x) if isinstance(x, T) else ("lit", repr(x)) for x in a)))


def ncond(t):
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    o, a = t.op, t.args
    if o == "not":
        return cnot(ncond(a[0]))
    if o == "and":
        return cand([ncond(x) for x in a])
    if o == "or":
        return cor([ncond(x) for x in a])
    if o == "lt":
        return cgt0(padd(norm(a[1]), pneg(norm(a[0]))))
    if o == "eq":
        x, y = norm(num(a[0])), norm(num(a[1]))
        if any(z.single_atom() and z.single_atom()[0] == "k" for z in (x, y)):
            return ("b", patom(("opq", "eqk", tuple(sorted((x, y))))))
        return ceq0(padd(x, pneg(y)))
    if o == "if":
        c = ncond(a[0])
        x, y = ncond(truth(a[1])), ncond(truth(a[2]))
        return cor([cand([c, x]), cand([cnot(c), y])])
    if o == "c":
        return a[0] != 0
    return ctruth(norm(t))


# ---- differentiation
def pdiff(p, tgt):
    """derivative wrt tgt: ('s', name) or ('at', name, idx Polys)"""
    out = []
    for m, c in p.terms:
        for k, (a, e) in enumerate(m):
            da = adiff(ATOM[a], tgt)
            if da.zero:
                continue
            rest = m[:k] + m[k + 1:]
            at = ATOM[a]
            if e == 1:
                x = PONE
            else:
                x = pscale(Poly.make({((a, e - 1),): F1}), e)
            if at[0] == "exp" and e != 1:
                raise Limit("exp power")
            out.append(pmul(pscale(pmul(Poly.make({rest: F1}), x), c), da))
    return padd(*out) if out else PZERO


def mentions(p, tgt, memo=None):
    for m, c in p.terms:
        for a, e in m:
            if amentions(a, tgt):
                return True
    return False


_ment = {}


def amentions(aid, tgt):
    key = (aid, tgt[0], tgt[1])
    r = _ment.get(key)
    if r is None:
        at = ATOM[aid]
        if at[0] == tgt[0] and at[1] == tgt[1]:
            r = True
        else:
            r = any(mentions(x, tgt) for x in _subs(at))
        _ment[key] = r
    return r


SQ2PI = None


def pnormpdf(x):
    return pmul(pexp(pscale(pmul(x, x), Fraction(-1, 2))), ppow(pmul(pc(2), patom(("s", "pi", True, "real"))),
                                                               Fraction(-1, 2)))


class Undiff(Exception):
    pass


def adiff(at, tgt):
    k = at[0]
    aid = atom_id(at)
    if k == "s":
        return PONE if (tgt[0] == "s" and at[1] == tgt[1]) else PZERO
    if not amentions(aid, tgt):
        return PZERO
    if k == "at":
        if tgt[0] == "at" and at[1] == tgt[1]:
            if any(mentions(x, tgt) for x in at[2]):
                raise Undiff("index depends on target")
            r = PONE
            for x, y in zip(at[2], tgt[2]):
                r = pmul(r, pdelta0(padd(x, pneg(y))))
            return r
        raise Undiff("array " + str(at[1])[:40])
    if k == "exp":
        return pmul(patom(at), pdiff(at[1], tgt))
    if k == "log":
        return pmul(ppow(at[1], F_1), pdiff(at[1], tgt))
    if k == "P":
        return pdiff(at[1], tgt)
    if k in ("delta",):
        raise Undiff("delta")
    if k == "ind":
        # interior of each branch
        return PZERO
    if k == "sum":
        dims, body, ivs = open_sum(at)
        d = pdiff(body, tgt)
        return psum_multi(list(zip(ivs, dims)), d)
    if k == "fn":
        nm, args = at[1], at[2]
        if nm == "polygamma":
            return pmul(pfn("polygamma", padd(args[0], PONE), args[1]), pdiff(args[1], tgt))
        x = args[0]
        if len(args) == 1:
            dx = pdiff(x, tgt)
            if nm == "sin":
                return pmul(pfn("cos", x), dx)
            if nm == "cos":
                return pmul(pneg(pfn("sin", x)), dx)
            if nm == "abs":
                return pmul(pfn("sign", x), dx)
            if nm == "sign":
                return PZERO
            if nm == "ndtr":
                return pmul(pnormpdf(x), dx)
            if nm == "gammaln":
                return pmul(pfn("polygamma", PZERO, x), dx)
            if nm == "tanh":
                return pmul(padd(PONE, pneg(ppowi(pfn("tanh", x), 2))), dx)
        raise Undiff("function " + nm)
    raise Undiff(k)


# ---- clear denominators
def clear(p, depth=0):
    """multiply by positive powers of multi-term denominators; zero iff p is zero"""
    if depth > 12:
        raise Limit("clear")
    neg_ = {}
    for m, c in p.terms:
        for a, e in m:
            if ATOM[a][0] == "P" and e < 0 and e.denominator == 1:
                neg_[a] = min(neg_.get(a, F0), e)
    if not neg_:
        return p
    a, e = next(iter(sorted(neg_.items())))
    q = ATOM[a][1]
    out = []
    for m, c in p.terms:
        dm = dict(m)
        x = dm.pop(a, F0) - e       # >= 0
        r = Poly.make({tuple(sorted(dm.items())): c})
        if x > 0:
            if x.denominator == 1:
                r = pmul(r, ppowi(q, int(x)))
            else:
                r = pmul(r, patom(("P", q), x))
        out.append(r)
    return clear(padd(*out), depth + 1)


def sums_zero(p):
    """sums over the same range cancel as one sum of the combined body"""
    groups, rest = {}, []
    for m, c in p.terms:
        sums = [a for a, e in m if ATOM[a][0] == "sum" and e == 1]
        if len(sums) != 1:
            rest.append((m, c))
            continue
        at = ATOM[sums[0]]
        key = (tuple(x for x in m if x[0] != sums[0]), at[1])
        groups.setdefault(key, []).append((at, c))
    if not groups or not any(len(g) > 1 for g in groups.values()):
        return False
    if rest and not is_zero(Poly.make(dict(rest))):
        return False
    for (r, dims), g in groups.items():
        ivs = [fresh_iv() for _ in dims]
        body = PZERO
        for at, c in g:
            body = padd(body, pscale(psubst(at[2], {atom_id(("B", at[3] + j)): patom(("iv", v)) for j, v in enumerate(ivs)}), c))
        if not is_zero(body):
            return False
    return True


def is_zero(p):
    if p.zero:
        return True
    try:
        if clear(p).zero:
            return True
    except Limit:
        return False
    if sums_zero(p):
        return True
    # case split on indicator atoms
    inds = sorted({a for m, c in p.terms for a, e in m if ATOM[a][0] == "ind"})
    if inds and len(inds) <= 6:
        a = inds[0]
        return is_zero(psubst(p, {a: PONE})) and is_zero(psubst(p, {a: PZERO}))
    return False


def opaque_atoms(p, acc=None, seen=None):
    """names of opaque constructs occurring in p"""
    if acc is None:
        acc, seen = set(), set()
    if p in seen:
        return acc
    seen.add(p)
    for m, c in p.terms:
        for a, e in m:
            at = ATOM[a]
            if at[0] == "opq":
                acc.add(at[1])
            if at[0] == "k":
                acc.add("const:" + at[1])
            for x in _subs(at):
                opaque_atoms(x, acc, seen)
    return acc


def pshow(p, d=0):
    if p.zero:
        return "0"
    if d > 8:
        return "..."
    out = []
    for m, c in p.terms[:40]:
        s = "" if c == 1 and m else str(c)
        for a, e in m:
            s += ("*" if s else "") + ashow(ATOM[a], d + 1) + ("" if e == 1 else "^" + str(e))
        out.append(s)
    return " + ".join(out)


def ashow(at, d):
    k = at[0]
    if k == "s":
        return at[1]
    if k == "iv":
        return "i%d" % at[1]
    if k == "B":
        return "b%d" % at[1]
    if k == "at":
        nm = at[1] if isinstance(at[1], str) else "%s{%s}" % (at[1][0], ";".join(
            pshow(x, d + 1) if isinstance(x, Poly) else str(x) for x in at[1][1:]))
        return "%s[%s]" % (nm, ",".join(pshow(x, d + 1) for x in at[2]))
    if k == "fn":
        return "%s(%s)" % (at[1], ",".join(pshow(x, d + 1) for x in at[2]))
    if k == "sum":
        return "SUM{%s}(%s)" % (",".join("b%d" % (at[3] + j) for j in range(len(at[1]))), pshow(at[2], d + 1))
    if k in ("exp", "log", "P", "delta"):
        return "%s(%s)" % (k, pshow(at[1], d + 1))
    if k == "n":
        return str(at[1])
    if k == "ind":
        return "ind(%s)" % (cshow(at[1], d + 1))
    if k == "opq":
        return "?%s(%s)" % (at[1], ",".join(pshow(x, d + 1) if isinstance(x, Poly) else str(x) for x in at[2]))
    if k == "lam":
        return "lam(%s)" % pshow(at[2], d + 1)
    if k == "red":
        return "%s{b%d}(%s)" % (at[1], at[4], pshow(at[3], d + 1))
    return str(tuple(pshow(x, d + 1) if isinstance(x, Poly) else x for x in at))


def cshow(c, d):
    if isinstance(c, tuple):
        return "(" + " ".join(cshow(x, d) for x in c) + ")"
    if isinstance(c, Poly):
        return pshow(c, d + 1)
    return str(c)


# ------------------------------------------------------------------ random interpretation
class NoValue(Exception):
    pass


class Valuation:
    """assigns numbers to atoms; used only to *separate* two terms whose canonical forms differ"""

    def __init__(self, seed, dims=None, repeat=False):
        self.seed = seed
        self.repeat = repeat        # labels repeat: the entries of an index, sign or rating array are all the same
        self.bound = {}
        self.pin = {}               # given values of symbols
        self.dims = dims or {}
        self.memo = {}
        self.end = None             # when to give up
        self.rough = False          # covariances that are not positive semi-definite (as rounding makes them)
        self.wide = False           # far values: standard scores up to 5.5

    def h(self, *key):
        s = repr((self.seed,) + key).encode()
        return int.from_bytes(hashlib.blake2b(s, digest_size=8).digest(), "big") / 2.0 ** 64

    def r(self, v):
        if isinstance(v, float):
            return round(v, 9)
        return v

    def ev(self, p):
        tot = big = 0.0
        for m, c in p.terms:
            x = float(c)
            negs = 0
            for a, e in m:
                # a delta that is zero short-cuts
                v = self.atom(a)
                if v == 0 and e > 0:
                    x = 0.0
                    break
                try:
                    if e == 1:
                        x *= v
                    elif e.denominator == 1:
                        x *= v ** int(e)
                    else:
                        if v < 0:
                            # the root of a product was taken factor by factor: the signs of the factors cancel in pairs
                            if e.denominator != 2 or abs(v) < 1e-9:
                                raise NoValue("root of negative")
                            negs += 1
                            if int(e) % 2:
                                x = -x
                            v = -v
                        x *= v ** float(e)
                except (ZeroDivisionError, OverflowError):
                    raise NoValue("arith")
            if negs % 2:
                raise NoValue("root of negative")
            tot += x
            big = max(big, abs(x))
        if self.wide and abs(tot) < 1e-8 * big:
            raise NoValue("cancellation")
        if tot != tot or abs(tot) > 1e200:
            raise NoValue("range")
        return tot

    def idx(self, p):
        v = self.ev(p)
        if abs(v - round(v)) > 1e-6:
            raise NoValue("index")
        return int(round(v))

    def dim(self, p):
        v = self.ev(p)
        n = int(round(v))
        if abs(v - n) > 1e-6 or n < 0 or n > 12:
            raise NoValue("dim")
        return n

    def atom(self, a):
        at = ATOM[a]
        k = at[0]
        if k == "s":
            nm = at[1]
            if nm == "pi":
                return math.pi
            if nm in self.pin:
                return self.pin[nm]
            if at[3] == "dim":
                return self.dims.get(nm, 3 if self.seed % 2 == 0 else 2 + int(self.h("dim", nm) * 3))
            if at[3] == "int":
                return int(self.h("int", nm) * 3)
            if at[3] == "unit":
                return 0.02 + 0.96 * self.h("s", nm)
            if at[2]:
                return 0.35 + 1.3 * self.h("s", nm)
            return -1.4 + 2.8 * self.h("s", nm)
        if k in ("iv", "B"):
            key = (k, at[1])
            if key in self.bound:
                return self.bound[key]
            if k == "iv":
                return int(self.h("iv", at[1]) * 2)
            raise NoValue("bound")
        if k == "n":
            return at[1]
        if k == "at":
            return self.elem(at)
        if k == "exp":
            v = self.ev(at[1])
            if v > 300:
                raise NoValue("exp")
            return math.exp(v)
        if k == "log":
            v = self.ev(at[1])
            if v <= 0:
                raise NoValue("log")
            return math.log(v)
        if k == "P":
            return self.ev(at[1])
        if k == "delta":
            return 1.0 if abs(self.ev(at[1])) < 1e-9 else 0.0
        if k == "ind":
            return 1.0 if self.cond(at[1]) else 0.0
        if k == "fn":
            return self.func(at[1], at[2])
        if k == "sum":
            dims = [self.dim(d) for d in at[1]]
            keys = [("B", at[3] + j) for j in range(len(dims))]
            return math.fsum(self.loop(keys, dims, at[2]))
        if k == "red":
            n = self.dim(at[2])
            vals = list(self.loop([("B", at[4])], [n], at[3]))
            if at[1] == "prod":
                r = 1.0
                for v in vals:
                    r *= v
                return r
            if not vals:
                raise NoValue("empty")
            if at[1] == "max":
                return max(vals)
            if at[1] == "min":
                return min(vals)
            if at[1] == "argmax":
                return vals.index(max(vals))
            if at[1] == "argmin":
                return vals.index(min(vals))
            if at[1] == "any":
                return 1.0 if any(vals) else 0.0
            if at[1] == "all":
                return 1.0 if all(vals) else 0.0
            raise NoValue(at[1])
        if k == "lastw":
            L, dim, idxs, targets, val, old = at[1:]
            n = self.dim(dim)
            tg = [self.idx(x) for x in targets]
            key = ("B", L)
            sv = self.bound.get(key)
            res = None
            for q in range(n - 1, -1, -1):
                self.bound[key] = q
                if [self.idx(x) for x in idxs] == tg:
                    res = self.ev(val)
                    break
            self.rest(key, sv)
            return self.ev(old) if res is None else res
        if k == "lam":
            return self.lamhash(at)
        if k == "opq":
            return -1.0 + 2 * self.h("opq", at[1], tuple(self.r(self.ev(x)) if isinstance(x, Poly) else x
                                                         for x in at[2]))
        if k == "k":
            raise NoValue("constant " + at[1])
        raise NoValue(k)

    def rest(self, key, sv):
        if sv is None:
            self.bound.pop(key, None)
        else:
            self.bound[key] = sv

    def loop(self, keys, dims, body):
        sv = [self.bound.get(k) for k in keys]
        out = []
        for combo in itertools.product(*[range(n) for n in dims]):
            for k, v in zip(keys, combo):
                self.bound[k] = v
            if self.end and time.monotonic() > self.end:
                raise NoValue("time")
            out.append(self.ev(body))
        for k, s in zip(keys, sv):
            self.rest(k, s)
        return out

    def lamhash(self, at):
        dims = [self.dim(d) for d in at[1]]
        vals = self.loop([("B", at[3] + j) for j in range(len(dims))], dims, at[2])
        return self.h("lam", tuple(dims), tuple(self.r(v) for v in vals))

    def lammat(self, lam):
        at = lam.single_atom()
        if not at or at[0] != "lam" or len(at[1]) != 2:
            raise NoValue("matrix")
        n, m = self.dim(at[1][0]), self.dim(at[1][1])
        vals = self.loop([("B", at[3]), ("B", at[3] + 1)], [n, m], at[2])
        return [vals[i * m:(i + 1) * m] for i in range(n)]

    def elem(self, at):
        nm = at[1]
        if isinstance(nm, str) and ARRAYS.get(nm, {}).get("fun"):      # a function of real arguments
            return 0.35 + 1.3 * self.h("at", nm, tuple(self.r(self.ev(x)) for x in at[2]))
        idx = tuple(self.idx(x) for x in at[2])
        if isinstance(nm, str):
            if nm in self.pin:
                return self.pin[nm]
            meta = ARRAYS.get(nm, {})
            if meta.get("sym"):
                idx = tuple(sorted(idx))
            s = meta.get("sort", "real")
            if meta.get("perm") and len(idx) == 1:          # distinct labels
                return (idx[0] * 7 + int(self.h("at", nm) * 13)) % 13 + 13 * (idx[0] // 13)
            if self.repeat and s in ("int", "sign", "unit"):
                idx = ()
            if s == "int":
                rg = meta.get("range", 2)
                rg = self.dim(rg) if not isinstance(rg, int) else rg
                return int(self.h("at", nm, idx) * rg)
            if s == "sign":
                return 1 if self.h("at", nm, idx) > 0.5 else -1
            if s == "pos":
                return 0.35 + 1.3 * self.h("at", nm, idx)
            if s == "unit":
                return 0.1 + 0.8 * self.h("at", nm, idx)
            if meta.get("spd"):
                return (4.0 if idx[0] == idx[1] else 0.0) + 0.5 * self.h("at", nm, idx)
            return (-1.4 + 2.8 * self.h("at", nm, idx)) * (meta.get("wide", 1) if self.wide else 1)
        if nm[0] in ("inv", "chol"):
            M = self.memo.get((nm, tuple(sorted(self.bound.items()))))
            if M is None:
                A = self.lammat(nm[1])
                M = minv(A) if nm[0] == "inv" else mchol(A)
                self.memo[(nm, tuple(sorted(self.bound.items())))] = M
            try:
                return M[idx[0]][idx[1]]
            except IndexError:
                raise NoValue("range")
        if nm[0] == "det":
            return mdet(self.lammat(nm[1]))
        raise NoValue(str(nm[0]))

    def func(self, nm, args):
        if nm == "kfun":
            a, b = sorted(self.r(self.ev(x)) for x in args)
            if self.rough:
                return 0.2 + 0.2 * self.h("kfun", a, b) if a == b else 0.3 + 0.6 * self.h("kfun", a, b)
            return (3.0 if a == b else 0.0) + 0.6 * self.h("kfun", a, b)
        v = [self.ev(x) for x in args]
        try:
            if nm == "sin":
                return math.sin(v[0])
            if nm == "cos":
                return math.cos(v[0])
            if nm == "tan":
                return math.tan(v[0])
            if nm == "tanh":
                return math.tanh(v[0])
            if nm == "abs":
                return abs(v[0])
            if nm == "sign":
                return (v[0] > 0) - (v[0] < 0)
            if nm == "ndtr":
                return 0.5 * math.erfc(-v[0] / math.sqrt(2))
            if nm == "gammaln":
                if v[0] <= 0:
                    raise NoValue("gammaln")
                return math.lgamma(v[0])
            if nm == "maximum":
                return max(v)
            if nm == "minimum":
                return min(v)
            if nm == "floor":
                return math.floor(v[0])
            if nm == "ceil":
                return math.ceil(v[0])
            if nm == "mod":
                return v[0] % v[1]
            if nm == "polygamma":
                return polygamma(int(round(v[0])), v[1])
        except (ValueError, ZeroDivisionError, OverflowError):
            raise NoValue(nm)
        if str(nm).startswith("usr"):
            return 0.2 + 0.9 * self.h("fn", nm, tuple(self.r(x) for x in v))
        raise NoValue(nm)

    def cond(self, c):
        if c is True or c is False:
            return c
        if c[0] == "gt0":
            return self.ev(c[1]) > 0
        if c[0] == "eq0":
            return abs(self.ev(c[1])) < 1e-12
        if c[0] == "not":
            return not self.cond(c[1])
        if c[0] == "and":
            return all(self.cond(x) for x in c[1])
        if c[0] == "b":
            return self.ev(c[1]) > 0
        raise NoValue("cond")




def polygamma(n, x):
    """(-1)^(n+1) n! sum 1/(x+k)^(n+1); digamma by recurrence + asymptotics"""
    if x <= 0:
        raise NoValue("polygamma")
    if n == 0:
        r = 0.0
        while x < 12:
            r -= 1 / x
            x += 1
        f = 1 / (x * x)
        return r + math.log(x) - 0.5 / x - f * (1 / 12 - f * (1 / 120 - f * (1 / 252 - f / 240)))
    # shift then asymptotic expansion
    s = (-1) ** (n + 1) * math.factorial(n)
    tot = 0.0
    while x < 25:
        tot += 1 / x ** (n + 1)
        x += 1
    # Euler-Maclaurin for sum_{k>=0} 1/(x+k)^(n+1)
    m = n + 1
    em = x ** (1 - m) / (m - 1) + 0.5 * x ** (-m) + m / 12 * x ** (-m - 1) - m * (m + 1) * (m + 2) / 720 * x ** (-m - 3) \
        + m * (m + 1) * (m + 2) * (m + 3) * (m + 4) / 30240 * x ** (-m - 5)
    return s * (tot + em)


def minv(A):
    n = len(A)
    if n == 0 or any(len(r) != n for r in A):
        raise NoValue("inv shape")
    M = [list(r) + [1.0 if i == j else 0.0 for j in range(n)] for i, r in enumerate(A)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(M[r][c]))
        if abs(M[p][c]) < 1e-9:
            raise NoValue("singular")
        M[c], M[p] = M[p], M[c]
        d = M[c][c]
        M[c] = [x / d for x in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return [r[n:] for r in M]


def mdet(A):
    n = len(A)
    M = [list(r) for r in A]
    d = 1.0
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(M[r][c]))
        if M[p][c] == 0:
            return 0.0
        if p != c:
            M[c], M[p] = M[p], M[c]
            d = -d
        d *= M[c][c]
        for r in range(c + 1, n):
            f = M[r][c] / M[c][c]
            M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return d


def mchol(A):
    n = len(A)
    L = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            s = A[i][j] - sum(L[i][k] * L[j][k] for k in range(j))
            if i == j:
                if s <= 1e-12:
                    raise NoValue("not positive definite")
                L[i][i] = math.sqrt(s)
            else:
                L[i][j] = s / L[j][j]
    return L


def apply_assume(p, assume):
    """assume: list of (cond key, bool). Replaces indicator atoms."""
    if not assume:
        return p
    m = {}
    for c, v in assume:
        m[atom_id(("ind", c))] = PONE if v else PZERO
    return psubst(p, m)


def in_range(p, ranges):
    """p with the comparisons decided that follow from 0 <= i < dim for the given index atoms {atom: dim}"""
    m = {}
    for a in atoms_in(p):
        at = ATOM[a]
        if at[0] != "ind" or not isinstance(at[1], tuple) or at[1][0] != "gt0":
            continue
        lo, hi = at[1][1], at[1][1]
        used = False
        for mon, c in at[1][1].terms:
            if len(mon) == 1 and mon[0][1] == 1 and mon[0][0] in ranges:
                x = pscale(Poly.make({mon: 1}), c)
                top = pscale(padd(ranges[mon[0][0]], pneg(PONE)), c)
                lo = padd(padd(lo, pneg(x)), top if c < 0 else PZERO)
                hi = padd(padd(hi, pneg(x)), top if c > 0 else PZERO)
                used = True
        if not used:
            continue
        if plus_dims(lo, 1):
            m[a] = PONE
        elif plus_dims(pneg(hi), 0):
            m[a] = PZERO
    return psubst(p, m) if m else p


def plus_dims(p, least):
    """certainly >= least for all sizes"""
    c0 = 0
    for mon, c in p.terms:
        if not mon:
            c0 = c
        elif c < 0 or any(ATOM[a][0] != "s" or ATOM[a][3] != "dim" or e < 0 for a, e in mon):
            return False
    return c0 >= least


def separate(p, q, tries=6, dims=None):
    """a valuation on which p and q differ, or None"""
    hits = 0
    evals = 0
    t0 = time.monotonic()
    rare = list(range(tries * 4, tries * 4 + 60))        # differences that need a coincidence (equal indices, ...)
    for s in list(range(tries * 4)) + [-1 - i for i in range(4)] + rare:
        if 0 <= s < tries * 4 and evals >= tries:
            continue
        if s >= tries * 4 and time.monotonic() - t0 > 2:
            break
        v = Valuation(s, dims, s < 0)
        v.end = t0 + 40
        try:
            a, b = v.ev(p), v.ev(q)
        except NoValue:
            continue
        except (RecursionError, OverflowError, ZeroDivisionError):
            continue
        evals += 1
        if abs(a - b) > 1e-6 * max(1.0, abs(a), abs(b)):
            if s >= tries * 4 and abs(a - b) < 1e-4 * max(1.0, abs(a), abs(b)):
                continue
            hits += 1
            if hits >= 2:
                return (s, a, b)
    if not hits and evals and not dims:
        for big in far_sizes(p, q):
            for s in (0, 1, 2):
                if time.monotonic() - t0 > 8:
                    return None
                v = Valuation(s, big)
                v.end = t0 + 20
                try:
                    a, b = v.ev(p), v.ev(q)
                except (NoValue, RecursionError, OverflowError, ZeroDivisionError):
                    continue
                if abs(a - b) > 1e-4 * max(1.0, abs(a), abs(b)):
                    hits += 1
                    if hits >= 2:
                        return (s, a, b)
    if not hits and evals and any("wide" in m for m in ARRAYS.values()):
        for s in range(60):
            if time.monotonic() - t0 > 8:
                break
            v = Valuation(s, dims)
            v.wide, v.end = True, t0 + 20
            try:
                a, b = v.ev(p), v.ev(q)
            except (NoValue, RecursionError, OverflowError, ZeroDivisionError):
                continue
            if abs(a - b) > 1e-4 * max(1.0, abs(a), abs(b)):
                hits += 1
                if hits >= 2:
                    return (s, a, b)
    if hits:
        return ("one", hits, evals)
    return None


def atoms_in(p, acc=None, seen=None):
    """every atom of p, nested ones too"""
    if acc is None:
        acc, seen = set(), set()
    if p in seen:
        return acc
    seen.add(p)
    for m, c in p.terms:
        for a, e in m:
            acc.add(a)
            for x in _subs(ATOM[a]):
                atoms_in(x, acc, seen)
    return acc


def far_sizes(p, q):
    """sizes at which a condition on sizes alone takes another value than at the small ones"""
    out = []
    for a in sorted(atoms_in(padd(p, pneg(q)))):
        at = ATOM[a]
        if at[0] != "ind" or not isinstance(at[1], tuple):
            continue
        names = set()
        if not size_only(at[1], names) or not names:
            continue

        def val(n):
            try:
                return Valuation(0, {x: n for x in names}).cond(at[1])
            except (NoValue, RecursionError, OverflowError, ZeroDivisionError):
                return None
        small = {val(n) for n in (2, 3, 4)} - {None}
        if len(small) != 1:
            continue
        for n in range(5, 11):
            if val(n) not in small | {None}:
                out.append({x: n for x in names})
                break
    return out[:3]


def size_only(x, names):
    """does the condition depend on nothing but array sizes"""
    if isinstance(x, Poly):
        for m, _ in x.terms:
            for a, _ in m:
                at = ATOM[a]
                if at[0] == "s" and at[3] == "dim":
                    names.add(at[1])
                else:
                    return False
        return True
    if isinstance(x, tuple):
        return all(size_only(y, names) for y in x)
    return isinstance(x, (str, int, bool))


def decide(p, q, dims=None, tries=6):
    """'proved' / 'refuted' / 'unknown' for p == q (canonical forms)"""
    try:
        d = padd(p, pneg(q))
        if is_zero(d):
            return "proved", None
    except (Limit, RecursionError):
        pass
    oa = opaque_atoms(p) - opaque_atoms(q)
    if oa:
        return "unknown", "opaque: " + ",".join(sorted(oa))[:200]
    w = separate(p, q, tries, dims)
    if w is not None:
        return "refuted", w
    return "unknown", "canonical forms differ but no separating valuation"
