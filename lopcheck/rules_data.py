"""C11, C12, C13: the training data of the models: adding, dropping, selecting, and when a fit is current."""
from fractions import Fraction

from .rule import *
from .rules_choice import fold, method

N0, N1, P, Q = [S(x, True, "dim") for x in ("N0", "N1", "P", "Q")]
HALF, QUARTER = Fraction(1, 2), Fraction(1, 4)
KINDS = ("relative_discrete", "ordinal", "abs")
PREF_MODELS = ("PreferenceGP", "PreferenceLinear")


# ---------------------------------------------------------------- building values
def carr(r, vals, dt="int"):
    """an array of constants (or terms)"""
    def c(x):
        return x if isinstance(x, T) else C(x)
    iv, jv = IV(), IV()
    if vals and isinstance(vals[0], (tuple, list)):
        b = None
        for i, row in reversed(list(enumerate(vals))):
            rb = c(row[-1])
            for j in range(len(row) - 2, -1, -1):
                rb = ite(eq(jv, C(j)), c(row[j]), rb)
            b = rb if b is None else ite(eq(iv, C(i)), rb, b)
        return r.st.new(Arr((iv, jv), (C(len(vals)), C(len(vals[0]))), b, dt))
    b = c(vals[-1]) if vals else ZERO
    for i in range(len(vals) - 2, -1, -1):
        b = ite(eq(iv, C(i)), c(vals[i]), b)
    return r.st.new(Arr((iv,), (C(len(vals)),), b, dt))


def lst(r, vals):
    return r.st.new(VList([("item", v if not isinstance(v, (int, Fraction)) else C(v)) for v in vals]))


def make(r, cls, **kw):
    return r.new(cls, r.new("RBF_kern", ONE, ONE), **kw) if cls == "PreferenceGP" else r.new(cls, **kw)


def slot(r, m, kind):
    """position of the labels of one kind in the model's list of labels"""
    d = r.get(r.attr(m, "probit_idxs"))
    if isinstance(d, VDict):
        for k, v in d.items:
            if k is K(kind):
                i = I_const(v)
                if i is not None:
                    return int(i)
    raise AnalysisBroken("the model does not say where %r labels are kept" % kind)


def I_const(v):
    v = fold(v) if isinstance(v, T) else None
    return v.args[0] if isinstance(v, T) and v.op == "c" else None


def labels(r, m, kind, st=None):
    """None, or the tuple of label arrays of one kind: (pairs,) or (values, points)"""
    st = st or r.st
    y = st.get(r.attr(m, "y_train"))
    i = slot(r, m, kind)
    if isinstance(y, VTuple):
        v = y.items[i]
    elif isinstance(y, VList) and y.static:
        v = y.items()[i]
    else:
        return Unk(opq("labels"))
    return parts(r, v, st)


def parts(r, v, st=None):
    st = st or r.st
    v = r.I.res(v, st)
    if v is NONE:
        return None
    o = st.get(v)
    if isinstance(o, VTuple):
        return tuple(o.items)
    if isinstance(o, VList) and o.static and any(isinstance(st.get(x), Arr) for x in o.items()):
        items = o.items()
        if not all(isinstance(st.get(x), Arr) and st.get(x).dims and st.get(x).dims[0] is C(3) and st.get(x).rank == 1 for x in items):
            return tuple(items)
    return (v,)


def set_labels(r, m, **kw):
    """kw: relative_discrete=, ordinal=, abs= values"""
    items = [NONE] * 3
    for k in KINDS:
        items[slot(r, m, k)] = kw.get(k, NONE)
    y = r.st.new(VList([("item", v) for v in items]))
    r.set(m, y_train=y)
    return y


def rows(r, v, n=None, st=None):
    """[[entry terms]] of a 1-D or 2-D array with constant lengths; None when not resolved"""
    st = st or r.st
    o = st.get(v) if not isinstance(v, Arr) else v
    if isinstance(o, (VTuple, VList)):
        o = r.I.arr(v, st)
    if isinstance(o, VTuple) or not isinstance(o, Arr) or not isnum(o.dims[0]):
        return None
    k = int(o.dims[0].args[0])
    if o.rank == 1:
        return [fold(o.at(C(i))) for i in range(k)]
    if o.rank == 2 and isnum(o.dims[1]):
        return [[fold(o.at(C(i), C(j))) for j in range(int(o.dims[1].args[0]))] for i in range(k)]
    return None


def reach(r, v, seen=None):
    """ids of the heap cells reachable from a value"""
    seen = set() if seen is None else seen
    st = r.st
    if isinstance(v, Phi):
        reach(r, v.a, seen)
        reach(r, v.b, seen)
    elif isinstance(v, VTuple):
        for x in v.items:
            reach(r, x, seen)
    elif isinstance(v, Ref) and v.id not in seen:
        seen.add(v.id)
        o = st.heap.get(v.id)
        if isinstance(o, VObj):
            for x in o.attrs.values():
                reach(r, x, seen)
        elif isinstance(o, VList):
            for s in o.segs:
                if s[0] == "item":
                    reach(r, s[1], seen)
        elif isinstance(o, VDict):
            for _, x in o.items:
                reach(r, x, seen)
        elif isinstance(o, Arr) and o.base is not None:
            reach(r, Ref(o.base), seen)
    return seen


class Snapshot:
    """the model as it is before a call"""

    def __init__(self, r, m):
        self.r, self.m = r, m
        self.ids = reach(r, m)
        self.cells = {k: r.st.heap[k] for k in self.ids}
        self.n = len(r.I.events)
        self.ne = len(r.I.errors)

    def writes(self):
        """events that change the model, in order: [(position, attribute)]"""
        out = []
        for i, e in enumerate(self.r.I.events[self.n:]):
            if e.kind == "setattr" and isinstance(e.data["obj"], Ref) and e.data["obj"].id in self.ids:
                out.append((i, e.data["attr"]))
            elif e.kind in ("store", "mutate") and isinstance(e.data.get("ref"), Ref) and e.data["ref"].id in self.ids:
                out.append((i, "stored data"))
        return out


# ---------------------------------------------------------------- C12
def stacked(old, new, n):
    """entries of `new` placed behind n entries of `old`"""
    if old is None:
        return new
    return lambda i, *j: ite(lt(i, n), old(i, *j), new(sub(i, n), *j))


def piecewise(check, rule, name, w, st, v, old, n0, new, n, cols=None):
    """v holds n0 rows old(i[, j]) followed by n rows new(i[, j]); compared row kind by row kind"""
    o = st.get(v)
    if isinstance(o, (VTuple, VList)):
        o = as_array(o, st)
    if not isinstance(o, Arr):
        return check.ob(rule, name, w, "unknown", "value not resolved: %r" % (o,))
    want = [add(n0, n)] + ([C(cols)] if cols else [])
    if o.rank != len(want):
        return check.ob(rule, name, w, "refuted", "%d axes, %d required" % (o.rank, len(want)))
    for d, q in zip(o.dims, want):
        if norm(d) is not norm(q):
            s, _ = decide(norm(d), norm(q))
            return check.ob(rule, name, w, s if s == "refuted" else "unknown", "length %s, %s required" % (show(d), show(q)))
    places = []
    if n0 is not ZERO:
        i, rest = S("row", True, "dim"), S("rest", True, "dim")
        places.append((i, {n0: add(i, ONE, rest)}, old, i))
    if isnum(n):
        places += [(add(n0, C(k)), {}, new, C(k)) for k in range(int(n.args[0]))]
    else:
        q, rest = S("row", True, "dim"), S("rest", True, "dim")
        places.append((add(n0, q), {n: add(q, ONE, rest)}, new, q))
    for at, m, f, i in places:
        for j in ([(C(c),) for c in range(cols)] if cols else [()]):
            got = tsubst(o.at(at, *j), m)
            check.equal(rule, "%s, %s %s%s" % (name, "old row" if f is old else "new row", show(i), " column %s" % show(j[0]) if j else ""), w, got, tsubst(f(i, *j), m))


def old_labels(r, missing=()):
    """labels of all kinds that a model already holds: (values, arrays as functions)"""
    d = {}
    if "relative_discrete" not in missing:
        d["relative_discrete"] = r.arr("oy", P, C(3), dt="int")
    if "ordinal" not in missing:
        d["ordinal"] = VTuple([r.arr("oo", P, dt="int"), r.arr("oi", P, dt="int")])
    if "abs" not in missing:
        d["abs"] = VTuple([r.arr("oa", P), r.arr("oai", P, dt="int")])
    return d


OLD = {"relative_discrete": [("oy", 2)], "ordinal": [("oo", 1), ("oi", 1)], "abs": [("oa", 1), ("oai", 1)]}
FORMS = {
    "pairs as an array": "relative_discrete", "pairs as a list of tuples": "relative_discrete", "no pairs": "relative_discrete",
    "one ordinal rating per point": "ordinal", "one ordinal rating per point, as a list": "ordinal", "ordinal ratings with point numbers": "ordinal",
    "one rating per point": "abs", "ratings with point numbers": "abs", "ratings with a list of point numbers": "abs",
}


def new_labels(r, form):
    """(value given to add, n, [entry functions of the labels of the new points, point numbers before the shift])"""
    if form == "pairs as an array":
        return r.arr("ny", Q, C(3), dt="int"), Q, [lambda i, j: AT("ny", i, j)]
    if form == "pairs as a list of tuples":
        t = [[S("d%d" % i), S("u%d" % i, False, "int"), S("v%d" % i, False, "int")] for i in range(2)]
        def f(i, j):
            row = [ite(eq(j, ZERO), x[0], ite(eq(j, ONE), x[1], x[2])) for x in t]
            return ite(eq(i, ZERO), row[0], row[1])
        return lst(r, [VTuple(x) for x in t]), C(2), [f]
    if form == "no pairs":
        return lst(r, []), ZERO, None
    if form == "one ordinal rating per point":
        return r.arr("no", N1, dt="int"), N1, [lambda i: AT("no", i), lambda i: i]
    if form == "one ordinal rating per point, as a list":
        return lst(r, [2, 1, 4]), C(3), [lambda i: ite(eq(i, ZERO), C(2), ite(eq(i, ONE), ONE, C(4))), lambda i: i]
    if form == "ordinal ratings with point numbers":
        return r.arr("no", Q, C(2), dt="int"), Q, [lambda i: AT("no", i, ZERO), lambda i: AT("no", i, ONE)]
    v = [QUARTER, HALF, Fraction(3, 4)]
    fv = lambda i: ite(eq(i, ZERO), C(v[0]), ite(eq(i, ONE), C(v[1]), C(v[2])))
    if form == "one rating per point":
        return carr(r, v, "float"), C(3), [fv, lambda i: i]
    if form == "ratings with point numbers":
        return VTuple([carr(r, v, "float"), r.arr("ni", C(3), dt="int")]), C(3), [fv, lambda i: AT("ni", i)]
    if form == "ratings with a list of point numbers":
        return VTuple([carr(r, v, "float"), lst(r, [1, 0, 1])]), C(3), [fv, lambda i: ite(eq(i, ONE), ZERO, ONE)]
    raise ValueError(form)


HISTORY = {"no data": None, "data of every kind": (), "data, none of this kind": "this", "data, only of this kind": "others"}


def c12_add(check, cls, form, hist):
    add_ = method(check, cls, "add")
    w = add_.where()
    kind = FORMS[form]
    name = "%s.add, %s, on %s" % (cls, form, hist)
    r = Run(check, interior=False)
    m = make(r, cls)
    miss = HISTORY[hist]
    first = miss is None
    miss = set(KINDS) if first else {"this": {kind}, "others": set(KINDS) - {kind}}.get(miss, set())
    X0 = None
    if not first:
        set_labels(r, m, **old_labels(r, miss))
        X0 = r.arr("X0", N0, D)
        r.set(m, X_train=X0)
    r.set(m, optimized=TRUE)
    y, n, new = new_labels(r, form)
    nx = n if form in ("one rating per point", "one ordinal rating per point, as a list") else N1
    X = r.arr("X1", nx, D)
    sn = Snapshot(r, m)
    held = [(k, o) for k, o in sn.cells.items() if isinstance(o, Arr)]
    r.call(m, "add", X, y, type=K(kind))
    check.ok("acceptable feedback is accepted", name, w, not r.I.excs, "add always raises: %s" % [str(e) for e in r.I.excs][:2])
    if r.I.excs:
        return
    check.no_errors(r.I, "acceptable feedback is accepted", name)
    # points
    n0 = ZERO if first else N0
    fx = stacked(None if first else (lambda i, j: AT("X0", i, j)), lambda i, j: AT("X1", i, j), n0)
    check.arr_equal("new points follow the existing ones", name, w, r.attr(m, "X_train"), r.st, [add(n0, nx), D], fx)
    # labels
    for k in KINDS:
        got = labels(r, m, k)
        had = k not in miss
        tgt = [(lambda *i, a=a: AT(a, *i)) for a, _ in OLD[k]] if had else None
        rule = "labels stay with their points (%s)" % k
        if isinstance(got, Unk):
            check.ob(rule, name, w, "unknown", "labels not resolved")
            continue
        if k == kind and new is not None:
            np_ = P if had else ZERO
            if k == "relative_discrete":
                spec = [(tgt[0] if had else None, lambda i, j: new[0](i, j) if j is ZERO else add(new[0](i, j), n0))]
            else:
                spec = [(tgt[0] if had else None, new[0]), (tgt[1] if had else None, lambda i: add(new[1](i), n0))]
            nn = n
        elif had:
            spec, np_, nn = [(t, None) for t in tgt], P, ZERO
        else:
            check.ok(rule, name, w, got is None or all(r.get(x).dims[0] is ZERO for x in got if isinstance(r.get(x), Arr)),
                     "labels of a kind that was never given: %r" % (got,))
            continue
        if got is None:
            check.ob(rule, name, w, "refuted", "the labels are lost")
            continue
        if len(got) != len(spec):
            check.ob(rule, name, w, "unknown", "labels have an unexpected form")
            continue
        for g, (fo, fn_), what in zip(got, spec, ("label values", "label points")):
            piecewise(check, rule, name + ": " + what, w, r.st, g, fo, np_, fn_, nn, 3 if k == "relative_discrete" else None)
    # what was held before is not written
    bad = [k for k, o in held if k in r.st.heap and not same_arr(o, r.st.heap[k])]
    check.ok("existing points and labels are never altered", name, w, not bad, "an array the model already held is written")


def same_arr(a, b):
    return a is b or (isinstance(b, Arr) and a.dims == b.dims and norm(a.lam()) is norm(b.lam()))


RATINGS = [Fraction(0), Fraction(1, 10 ** 9), Fraction(1, 2000), QUARTER, HALF, Fraction(3, 4), 1 - Fraction(1, 2000),
           1 - Fraction(1, 10 ** 9), Fraction(1)]


def c12_range(check, cls, as_tuple, dt):
    w = method(check, cls, "add").where()
    name = "%s.add, ratings %s%s" % (cls, "with point numbers" if as_tuple else "one per point", ", integers" if dt == "int" else "")
    r = Run(check, interior=False)
    m = make(r, cls)
    vals = [v for v in RATINGS if dt == "float" or v.denominator == 1]
    v = carr(r, vals, dt)
    y = VTuple([v, carr(r, list(range(len(vals))))]) if as_tuple else v
    r.call(m, "add", r.arr("X1", C(len(vals)), D), y, type=K("abs"))
    if r.I.excs:
        check.ob("ratings in [0, 1] are accepted", name, w, "refuted", "add raises for ratings in [0, 1]")
        return
    check.ob("ratings in [0, 1] are accepted", name, w, "proved", "")
    got = labels(r, m, "abs")
    g = rows(r, got[0]) if got and not isinstance(got, Unk) and len(got) == 2 else None
    if g is None or len(g) != len(vals):
        check.ob("accepted ratings are stored strictly between 0 and 1", name, w, "unknown", "ratings not resolved")
        return
    for x, t in zip(vals, g):
        c = I_const(t)
        con = "%s: rating %s" % (name, x)
        if c is None:
            check.ob("accepted ratings are stored strictly between 0 and 1", con, w, "unknown", show(t))
            continue
        check.ok("accepted ratings are stored strictly between 0 and 1", con, w, 0 < c < 1, "stored as %s" % c)
        if QUARTER <= x <= Fraction(3, 4):
            check.ok("ratings away from 0 and 1 are stored as given", con, w, c == x, "stored as %s" % c)


def bad_inputs(r, n):
    """(name, kind, X, y, refused?) for a model whose points have 2 coordinates"""
    X2, X3 = (lambda k=2: r.arr("X1", C(k), C(2))), (lambda k=2: r.arr("X1", C(k), C(3)))
    f = lambda v: carr(r, v, "float")
    out = []
    for bad in ([HALF, Fraction(3, 2)], [-QUARTER, HALF], [HALF, 1 + Fraction(1, 1000)], [-Fraction(1, 1000), Fraction(1)], [Fraction(2), Fraction(-1)]):
        t = "ratings %s" % ", ".join(map(str, bad))
        out.append((t, "abs", X2(), f(bad)))
        out.append((t + " with point numbers", "abs", X2(), VTuple([f(bad), carr(r, [1, 0])])))
    for bad in ([0, 1], [1, 0], [2, -1], [0, 0]):
        t = "ordinal ratings %s" % bad
        out.append((t, "ordinal", X2(), carr(r, bad)))
        out.append((t + " as a list", "ordinal", X2(), lst(r, bad)))
        out.append((t + " with point numbers", "ordinal", X2(), carr(r, [(v, i) for i, v in enumerate(bad)])))
    for k in (1, 3):
        out.append(("%d ratings for two points" % k, "abs", X2(), f([HALF] * k)))
        out.append(("%d ordinal ratings for two points" % k, "ordinal", X2(), carr(r, [1] * k)))
    out.append(("an unknown kind of feedback", "unheard-of", X2(), lst(r, [1, 1])))
    if n:
        out.append(("points with one coordinate too many, pairs", "relative_discrete", X3(), carr(r, [(1, 0, 1)])))
        out.append(("points with one coordinate too many, ordinal ratings", "ordinal", X3(), carr(r, [1, 2])))
        out.append(("points with one coordinate too many, ratings", "abs", X3(), f([HALF, HALF])))
        out.append(("pairs with two entries", "relative_discrete", X2(), lst(r, [VTuple([C(1), C(0)])])))
        out.append(("ordinal ratings with three columns", "ordinal", X2(), carr(r, [(1, 0, 1), (1, 1, 2)])))
    return out


MUST = ("rating", "unknown kind")     # inputs the model itself has to refuse; others fail inside numpy


def small_model(r, cls, later):
    m = make(r, cls)
    if later:
        set_labels(r, m, relative_discrete=carr(r, [(1, 0, 1), (-1, 0, 1)]), ordinal=VTuple([carr(r, [1, 2]), carr(r, [0, 1])]),
                   abs=VTuple([carr(r, [HALF, QUARTER], "float"), carr(r, [1, 0])]))
        r.set(m, X_train=r.arr("X0", C(2), C(2)))
    r.set(m, optimized=TRUE)
    return m


def has_try(check, r, n):
    """a handler stands between an error and the caller: undoing a change is then possible"""
    import ast
    fs = {e.func for e in r.I.events[n:] if e.func is not None}
    return any(isinstance(x, ast.Try) for f in fs for x in ast.walk(f.node))


def c12_refuse(check, cls, later, k):
    w = method(check, cls, "add").where()
    r = Run(check, interior=False)
    m = small_model(r, cls, later)
    what, kind, X, y = bad_inputs(r, later)[k]
    name = "%s.add, %s, %s" % (cls, what, "model with data" if later else "first data")
    refused_attempt(check, r, m, "add", (X, y), {"type": K(kind)}, name, w, any(x in what for x in MUST) and "three columns" not in what and "coordinate" not in what)


def refused_attempt(check, r, m, meth, args, kw, name, w, must):
    sn = Snapshot(r, m)
    r.call(m, meth, *args, **kw)
    rule = "refused feedback leaves the model as it was"
    ev = r.I.events[sn.n:]
    errs = [i for i, e in enumerate(ev) if e.kind == "error" and not e.facts]
    if r.I.excs and not errs:
        if must:
            check.ob("feedback that cannot be right is refused", name, w, "proved", "")
        ch = sorted({a for _, a in sn.writes()})
        check.ok(rule, name, w, None if ch and has_try(check, r, sn.n) else not ch, "the call raises after it has changed: %s" % ", ".join(ch))
        return
    if errs:
        # numpy raises here
        ws = [x for x in sn.writes() if x[0] < errs[0]]
        if not ws:
            check.ob(rule, name, w, "proved", "")
        elif has_try(check, r, sn.n):
            check.ob(rule, name, w, "unknown", "handled by a try statement")
        else:
            check.ob(rule, name, w, "refuted", "%s fails after the model changed: %s" % (ev[errs[0]].data.get("msg"), ", ".join(sorted({a for _, a in ws}))))
        return
    if must:
        raises = [e for e in ev if e.kind == "raise"]
        st = "unknown" if any(e.facts for e in raises) else "refuted"
        check.ob("feedback that cannot be right is refused", name, w, st, "the call returns normally")


def c12_prior_refuse(check, cls, ncol):
    r = Run(check, interior=False)
    m = small_model(r, cls, True)
    r.set(m, pareto_pairs=TRUE)
    refused_attempt(check, r, m, "add_prior", (), {"pts": r.arr("X1", C(3), C(ncol)), "method": K("exact")},
                    "%s.add_prior, points with %d coordinates for a model with 2" % (cls, ncol), method(check, cls, "add_prior").where(), False)


def c12_pareto(check, cls, later, kind):
    """pairs recorded for dominating points state true dominance between the right points"""
    w = method(check, cls, "add").where()
    name = "%s.add with pareto_pairs, %s, %s" % (cls, kind, "model with data" if later else "first data")
    r = Run(check, interior=False)
    m = make(r, cls, pareto_pairs=TRUE)
    pts = [(0, 0), (2, 3), (1, 1)]
    off = 0
    if later:
        set_labels(r, m, relative_discrete=carr(r, [(1, 0, 1), (-1, 2, 0)]))
        r.set(m, X_train=carr(r, pts, "float"))
        off = 3
    newp = [(4, 4), (5, 0), (0, 9), (1, 2)]
    X = carr(r, newp, "float")
    given = [(1, 1, 2), (-1, 3, 0)] if kind == "pairs" else []
    if kind == "ratings":
        r.call(m, "add", X, carr(r, [HALF] * 4, "float"), type=K("abs"))
    else:
        r.call(m, "add", X, lst(r, [VTuple([C(x) for x in t]) for t in given]), type=K("relative_discrete"))
    got = labels(r, m, "relative_discrete")
    g = rows(r, got[0]) if got and not isinstance(got, Unk) else None
    rule = "automatic preference pairs state true dominance"
    if g is None or any(I_const(x) is None for row in g for x in row):
        check.ob(rule, name, w, "unknown", "pairs not resolved: %r" % (got,))
        return
    g = [tuple(int(I_const(x)) for x in row) for row in g]
    allp = (pts if later else []) + newp
    head = ([(1, 0, 1), (-1, 2, 0)] if later else []) + [(d, u + off, v + off) for d, u, v in given]
    check.ok("labels given with the points come through unchanged", name, w, g[:len(head)] == head, "got %s, want %s first" % (g, head))
    for d, u, v in g[len(head):]:
        a, b = (u, v) if d == -1 else (v, u)
        ok = 0 <= a < len(allp) and 0 <= b < len(allp) and all(x >= y for x, y in zip(allp[a], allp[b])) and allp[a] != allp[b]
        check.ok(rule, "%s: pair (%d, %d, %d)" % (name, d, u, v), w, ok, "the preferred point does not dominate the other")
    check.ok("dominating new points get their preference pairs", name, w, len(g) > len(head), "no pair is recorded")


def c12_gp(check, hist, mean, sig):
    w = method(check, "GP", "add").where()
    name = "GP.add on %s, %s, noise given as %s" % (hist, "prior mean" if mean else "no prior mean", sig)
    r = Run(check, interior=False)
    kw = {}
    if mean:
        kw["mean_func"] = r.st.new(VObj(None, {}, {"__call__": lambda I, st, me, a, k, nd: opaque_mean(I, st, a[0])}, "mean"))
    m = r.new("GP", r.new("RBF_kern", ONE, ONE), **kw)
    n0 = ZERO
    if hist != "no data":
        n0 = N0
        r.set(m, X_train=r.arr("X0", N0, D), y_train=r.arr("y0", N0), training_sigma=r.arr("s0", N0))
    n = N1 if sig != "a list" else C(2)
    X, y = r.arr("X1", n, D), r.arr("y1", n)
    fs = {"default": None, "a number": S("sg", True), "an array": r.arr("s1", n), "a list": lst(r, [S("sa", True), S("sb", True)])}[sig]
    sn = Snapshot(r, m)
    r.call(m, "add", X, y, **({} if fs is None else {"training_sigma": fs}))
    if r.I.excs:
        check.ob("acceptable feedback is accepted", name, w, "refuted", "add always raises")
        return
    check.no_errors(r.I, "acceptable feedback is accepted", name)
    o = n0 is not ZERO
    check.arr_equal("new points follow the existing ones", name, w, r.attr(m, "X_train"), r.st, [add(n0, n), D],
                    stacked((lambda i, j: AT("X0", i, j)) if o else None, lambda i, j: AT("X1", i, j), n0))
    mu = (lambda i: AT("mean(X1)", i)) if mean else (lambda i: ZERO)
    check.arr_equal("outputs stay with their points", name, w, r.attr(m, "y_train"), r.st, [add(n0, n)],
                    stacked((lambda i: AT("y0", i)) if o else None, lambda i: sub(AT("y1", i), mu(i)), n0))
    if sig != "default":
        ns = {"a number": lambda i: S("sg", True), "an array": lambda i: AT("s1", i), "a list": lambda i: ite(eq(i, ZERO), S("sa", True), S("sb", True))}[sig]
        check.arr_equal("noise levels stay with their points", name, w, r.attr(m, "training_sigma"), r.st, [add(n0, n)],
                        stacked((lambda i: AT("s0", i)) if o else None, ns, n0))
    bad = [k for k, a in sn.cells.items() if isinstance(a, Arr) and not same_arr(a, r.st.heap[k])]
    check.ok("existing points and labels are never altered", name, w, not bad, "an array the model already held is written")


def opaque_mean(I, st, x):
    A = I.arr(x, st)
    if isinstance(A, Arr) and A.rank == 2 and A.body.op == "at":
        return st.new(sym_arr("mean(%s)" % A.body.args[0], [A.dims[0]]))
    return I.fresh_unk("mean")


def c12_gp_refuse(check, later, k):
    w = method(check, "GP", "add").where()
    r = Run(check, interior=False)
    m = r.new("GP", r.new("RBF_kern", ONE, ONE))
    if later:
        r.set(m, X_train=r.arr("X0", C(2), C(2)), y_train=r.arr("y0", C(2)), training_sigma=r.arr("s0", C(2)))
    X2 = r.arr("X1", C(2), C(2))
    cases = [("fewer outputs than points", (X2, r.arr("y1", C(1)))), ("more outputs than points", (X2, r.arr("y1", C(3)))),
             ("fewer noise levels than points", (X2, r.arr("y1", C(2)), lst(r, [1]))),
             ("more noise levels than points", (X2, r.arr("y1", C(2)), lst(r, [1, 1, 1])))]
    if later:
        cases.append(("points with one coordinate too many", (r.arr("X1", C(2), C(3)), r.arr("y1", C(2)))))
        cases.append(("outputs with two axes", (X2, r.arr("y1", C(2), C(1)))))
    if k >= len(cases):
        return
    what, args = cases[k]
    refused_attempt(check, r, m, "add", args, {}, "GP.add, %s, %s" % (what, "model with data" if later else "first data"), w, "than points" in what)


def c12(check):
    check.tries = 40
    for cls in PREF_MODELS:
        w = method(check, cls, "add").where()
        for form in FORMS:
            for hist in HISTORY:
                check.guard("labels stay with their points (%s)" % FORMS[form], "%s.add, %s, on %s" % (cls, form, hist), w, c12_add, check, cls, form, hist)
        for tup in (False, True):
            for dt in ("float", "int"):
                check.guard("accepted ratings are stored strictly between 0 and 1", cls + ".add", w, c12_range, check, cls, tup, dt)
        for later in (False, True):
            for k in range(len(bad_inputs(Run(check), later))):
                check.guard("refused feedback leaves the model as it was", cls + ".add", w, c12_refuse, check, cls, later, k)
            if later:
                for ncol in (1, 3):
                    check.guard("refused feedback leaves the model as it was", cls + ".add_prior", method(check, cls, "add_prior").where(), c12_prior_refuse, check, cls, ncol)
            for kind in ("pairs", "no pairs", "ratings"):
                check.guard("automatic preference pairs state true dominance", cls + ".add", w, c12_pareto, check, cls, later, kind)
    w = method(check, "GP", "add").where()
    for hist in ("no data", "existing data"):
        for mean in (False, True):
            for sig in ("default", "a number", "an array", "a list"):
                check.guard("outputs stay with their points", "GP.add", w, c12_gp, check, hist, mean, sig)
        for k in range(6):
            check.guard("refused feedback leaves the model as it was", "GP.add", w, c12_gp_refuse, check, hist != "no data", k)


# ---------------------------------------------------------------- C13
# label patterns on seven points: (pairs (d, u, v), ordinal points, rating points, prior range)
PATTERNS = [
    ([(1, 0, 3), (-1, 5, 3)], None, [1, 3], (2, 5)),
    ([(-1, 6, 1)], [1, 4], None, (0, 4)),
    (None, [2, 0, 2], [6, 5], (4, 7)),
    (None, None, [6], (0, 7)),
    (None, [5], None, (3, 6)),
    ([(1, 2, 4), (1, 4, 2), (-1, 4, 6)], [4], [4, 2], None),
    ([(1, 0, 1), (1, 2, 3), (-1, 4, 5), (1, 6, 0)], [3, 3], [5], (1, 3)),
    ([(1, 1, 2)], [3], [4], (0, 1)),
    ([(1, 2, 3), (1, 5, 6)], None, None, (1, 4)),
    (None, [6, 1], [3], (2, 5)),
]
NPTS = 7


def pattern_model(check, cls, pat):
    r = Run(check, interior=False)
    m = make(r, cls)
    prs, od, ab, prior = pat
    kw, orig = {}, {}
    if prs is not None:
        kw["relative_discrete"] = carr(r, prs)
        orig["relative_discrete"] = [((C(d),), (u, v)) for d, u, v in prs]
    if od is not None:
        kw["ordinal"] = VTuple([r.arr("oo", C(len(od)), dt="int"), carr(r, od)])
        orig["ordinal"] = [((AT("oo", C(k)),), (p,)) for k, p in enumerate(od)]
    if ab is not None:
        kw["abs"] = VTuple([r.arr("oa", C(len(ab))), carr(r, ab)])
        orig["abs"] = [((AT("oa", C(k)),), (p,)) for k, p in enumerate(ab)]
    set_labels(r, m, **kw)
    r.set(m, X_train=r.arr("X0", C(NPTS), D), optimized=TRUE, prior_idx=NONE if prior is None else VTuple([C(prior[0]), C(prior[1])]))
    return r, m, orig


def origin(t):
    """row number of X0 that a row term comes from"""
    if isinstance(t, T):
        t = fold(t)
    if isinstance(t, T) and t.op == "at" and t.args[0] == "X0" and isnum(t.args[1]):
        return int(t.args[1].args[0])
    return None


def row_origins(r, v, st=None):
    """for a point array: the original row of every row; None when not resolved"""
    o = (st or r.st).get(v)
    if isinstance(o, (VList, VTuple)):
        o = as_array(o, st or r.st)
    if not isinstance(o, Arr) or o.rank != 2 or not isnum(o.dims[0]):
        return None
    if norm(o.dims[1]) is not norm(D):
        return None
    out = []
    for k in range(int(o.dims[0].args[0])):
        j = IV()
        t = o.at(C(k), j)
        p = norm(t)
        i = None
        for cand in range(NPTS):
            if p is norm(AT("X0", C(cand), j)):
                i = cand
        if i is None:
            return None
        out.append(i)
    return out


def read_labels(r, v, kind, st=None):
    """[(value terms, point numbers)] of labels in stored form; None when not resolved"""
    st = st or r.st
    q = parts(r, v, st)
    if q is None:
        return []
    if kind == "relative_discrete":
        g = rows(r, q[0], st=st) if len(q) == 1 else None
        if g is None:
            return None
        if g and not all(isinstance(x, list) and len(x) == 3 for x in g):
            return None
        out = [((x[0],), tuple(I_const(y) for y in x[1:])) for x in g]
    else:
        if len(q) != 2:
            return None
        a, b = rows(r, q[0], st=st), rows(r, q[1], st=st)
        if a is None or b is None or any(isinstance(x, list) for x in a + b):
            return None
        if len(a) != len(b):
            return "lengths"
        out = [((x,), (I_const(y),)) for x, y in zip(a, b)]
    if any(p is None for _, ps in out for p in ps):
        return None
    return [(vs, tuple(int(p) for p in ps)) for vs, ps in out]


def compare_labels(check, rule, name, w, kind, got, orig, where):
    """got labels (positions in a list of points with the given original rows) against the labels that must remain"""
    if got is None:
        check.ob(rule, name, w, "unknown", "labels not resolved")
        return
    if got == "lengths":
        check.ob(rule, name, w, "refuted", "as many values as points are required")
        return
    seen = []
    for vs, ps in got:
        if any(not 0 <= p < len(where) for p in ps):
            check.ob(rule, name, w, "refuted", "a label refers to position %s of %d points" % (ps, len(where)))
            return
        seen.append((tuple(norm(x) for x in vs), tuple(where[p] for p in ps)))
    want = [(tuple(norm(x) for x in vs), ps) for vs, ps in orig]
    if seen == want:
        check.ob(rule, name, w, "proved", "")
        return
    show_ = lambda l: "; ".join("%s on points %s" % (",".join(pshow(x) for x in v), list(p)) for v, p in l)
    # orders that only differ by position are not wrong
    if sorted(map(repr_label, seen)) == sorted(map(repr_label, want)):
        check.ob(rule, name, w, "proved", "in another order")
        return
    opaque = any("opq" in pshow(x) for v, _ in seen for x in v)
    check.ob(rule, name, w, "unknown" if opaque else "refuted", "labels %s; required %s" % (show_(seen), show_(want)))


def repr_label(l):
    return (tuple(pshow(x) for x in l[0]), l[1])


def c13_drop(check, cls, k):
    w = method(check, cls, "remove_without_reference").where()
    pat = PATTERNS[k]
    r, m, orig = pattern_model(check, cls, pat)
    name = "%s.remove_without_reference, pattern %d" % (cls, k)
    r.call(m, "remove_without_reference")
    if r.I.excs:
        check.ob("dropping unused points keeps labels on their points", name, w, "refuted", "the call always raises")
        return
    check.no_errors(r.I, "dropping unused points keeps labels on their points", name)
    org = row_origins(r, r.attr(m, "X_train"))
    if org is None:
        check.ob("exactly the points that no label refers to are dropped", name, w, "unknown", "points not resolved")
        return
    used = sorted({p for l in orig.values() for _, ps in l for p in ps})
    check.ok("exactly the points that no label refers to are dropped", name, w, sorted(org) == used,
             "points %s are kept, labels refer to %s" % (org, used))
    i = {k: slot(r, m, k) for k in KINDS}
    y = r.get(r.attr(m, "y_train"))
    items = y.items() if isinstance(y, VList) and y.static else (y.items if isinstance(y, VTuple) else None)
    for kind in KINDS:
        got = read_labels(r, items[i[kind]], kind) if items is not None else None
        compare_labels(check, "dropping unused points keeps labels on their points", name + ", " + kind, w, kind, got, orig.get(kind, []), org)
    c13_prior(check, r, m, name, w, org, None if pat[3] is None else [p for p in used if pat[3][0] <= p < pat[3][1]])


def c13_prior(check, r, m, name, w, org, want):
    rule = "the prior points are still known as such"
    v = r.call(m, "get_prior_pts")
    if want is None:
        check.ok(rule, name, w, v is NONE, "prior points appear: %r" % (v,))
        return
    o = r.get(v)
    if isinstance(o, Arr) and isnum(o.dims[0]) and o.dims[0].args[0] == 0:
        got = []
    else:
        got = row_origins(r, v)
    if got is None:
        check.ob(rule, name, w, "unknown", "prior points not resolved: %r" % (v,))
        return
    check.ok(rule, name, w, sorted(got) == sorted(want), "prior points %s, required %s" % (got, want))


def c13_add_prior(check, cls, k):
    """prior points with known coordinates on a model that already has data"""
    w = method(check, cls, "add_prior").where()
    r = Run(check, interior=False)
    m = make(r, cls, pareto_pairs=TRUE)
    old, prs, prior, rating = [
        ([(2, 3), (1, 1), (0, 9)], [(1, 0, 2)], [(4, 4), (5, 0), (7, 8)], None),
        (None, None, [(0, 0), (3, 0), (1, 1)], None),
        ([(9, 9), (0, 1)], None, [(1, 2), (5, 0), (3, 4)], [1]),
        ([(2, 2), (6, 6), (1, 9)], [(-1, 1, 0)], [(0, 0), (7, 7), (0, 20)], [2]),
    ][k]
    name = "%s.add_prior, case %d" % (cls, k)
    allp = (old or []) + prior
    n0 = len(old or [])
    first = []
    if old:
        kw = {}
        if prs:
            kw["relative_discrete"] = carr(r, prs)
            first += prs
        if rating:
            kw["abs"] = VTuple([r.arr("oa", C(len(rating))), carr(r, rating)])
        set_labels(r, m, **kw)
        r.set(m, X_train=carr(r, old, "float"), optimized=TRUE)
    r.call(m, "add_prior", pts=carr(r, prior, "float"), method=K("exact"))
    rule = "prior points get labels about themselves"
    if r.I.excs:
        check.ob(rule, name, w, "refuted", "the call always raises")
        return
    X = rows(r, r.attr(m, "X_train"))
    lab = labels(r, m, "relative_discrete")
    g = rows(r, lab[0]) if lab and not isinstance(lab, Unk) else None
    if X is None or g is None or any(I_const(x) is None for q in X + g for x in q):
        check.ob(rule, name, w, "unknown", "not resolved")
        return
    X = [tuple(int(I_const(x)) for x in q) for q in X]
    g = [tuple(int(I_const(x)) for x in q) for q in g]
    check.ok(rule, name + ": points", w, all(x in allp for x in X) and len(set(X)) == len(X), "points %s" % X)
    if not all(x in allp for x in X):
        return
    named = []
    for d, u, v in g:
        if not (0 <= u < len(X) and 0 <= v < len(X)):
            check.ob(rule, name, w, "refuted", "a pair refers to points %d and %d of %d" % (u, v, len(X)))
            return
        named.append((d, X[u], X[v]))
    want = [(d, allp[u], allp[v]) for d, u, v in first]
    check.ok("labels given before stay with their points", name, w, named[:len(want)] == want, "%s, required first %s" % (named, want))
    for d, a, b in named[len(want):]:
        a, b = (a, b) if d == -1 else (b, a)
        check.ok(rule, "%s: %s over %s" % (name, a, b), w, all(x >= y for x, y in zip(a, b)) and a != b, "not a dominated point")
    used = {p for t in named for p in t[1:]} | {allp[i] for i in rating or []}
    check.ok("exactly the points that no label refers to are dropped", name, w, set(X) == used, "kept %s, used %s" % (X, sorted(used)))
    if rating:
        ra = labels(r, m, "abs")
        ix = rows(r, ra[1]) if ra and len(ra) == 2 else None
        c = [I_const(x) for x in ix] if ix is not None else [None]
        if None in c:
            check.ob("labels given before stay with their points", name + ", ratings", w, "unknown", "")
        else:
            check.ok("labels given before stay with their points", name + ", ratings", w,
                     [X[int(i)] for i in c] == [allp[i] for i in rating], "ratings refer to %s" % c)
    v = r.call(m, "get_prior_pts")
    pp = rows(r, v)
    if pp is None or any(I_const(x) is None for q in pp for x in q):
        check.ob("the prior points are still known as such", name, w, "unknown", "")
    else:
        pp = [tuple(int(I_const(x)) for x in q) for q in pp]
        check.ok("the prior points are still known as such", name, w, pp == [x for x in X if x in prior], "prior points %s of %s" % (pp, X))


SUBSETS = [(3, 0, 5), (0, 2), (4,), (6, 5, 4, 3, 2, 1, 0), (1, 3, 4), (2, 3), (0, 1, 2, 3, 4, 5, 6), (5, 3, 0)]


def c13_subset(check, k, idx, as_list):
    f = check.repo.func("get_y_with_idx")
    w = f.where()
    r, m, orig = pattern_model(check, "PreferenceGP", PATTERNS[k])
    name = "get_y_with_idx, pattern %d, points %s as %s" % (k, list(idx), "a list" if as_list else "an array")
    before = r.attr(m, "y_train")
    sn = Snapshot(r, m)
    v = r.fn(f, before, lst(r, list(idx)) if as_list else carr(r, list(idx)))
    rule = "labels of a subset refer to the same points"
    if r.I.excs:
        check.ob(rule, name, w, "refuted", "the call always raises")
        return
    check.no_errors(r.I, rule, name)
    y = r.get(v)
    items = y.items() if isinstance(y, VList) and y.static else (y.items if isinstance(y, VTuple) else None)
    if items is None or len(items) != 3:
        check.ob(rule, name, w, "unknown", "labels not resolved: %r" % (y,))
        return
    for kind in KINDS:
        want = [(vs, ps) for vs, ps in orig.get(kind, []) if all(p in idx for p in ps)]
        compare_labels(check, rule, name + ", " + kind, w, kind, read_labels(r, items[slot(r, m, kind)], kind), want, list(idx))
    check.ok("taking a subset leaves the data as it was", name, w, not sn.writes(), "the call writes %s" % sn.writes())


def c13_folds(check, splits, conv):
    """the pieces that the hyper-parameter search is trained on"""
    f = method(check, "PreferenceGP", "optimize")
    w = f.where()
    r, m, orig = pattern_model(check, "PreferenceGP", PATTERNS[6])
    rp = check.repo
    name = "PreferenceGP.optimize, folds %s" % (sorted(splits.values())[-1],)
    calls = []
    tok = [0]

    def mode(I, st, args, kw, nd):
        b = I.bind(method(check, "PreferenceGP", "find_mode"), method(check, "PreferenceGP", "find_mode").node, args, kw, st, nd)
        vals = [v for k, v in b.items() if v is not m]
        calls.append((vals[0], vals[1], st, {k: st.get(vals[1]) for k in (0,)}, read_all(r, m, vals[1], st), row_origins(r, vals[0], st)))
        return NONE

    def search(I, st, args, kw, nd):
        b = I.bind(method(check, "PreferenceGP", "hyperparameter_search"), method(check, "PreferenceGP", "hyperparameter_search").node, args, kw, st, nd)
        vals = [v for v in b.values() if v is not m]
        calls.append(("search", read_all(r, m, vals[1], st), row_origins(r, vals[0], st), read_all(r, m, vals[3], st), row_origins(r, vals[2], st)))
        tok[0] += 1
        return TRUE if tok[0] >= conv else FALSE

    H = r.I.hooks
    H[method(check, "PreferenceGP", "find_mode")] = mode
    H[method(check, "PreferenceGP", "hyperparameter_search")] = search
    H[method(check, "PreferenceGP", "randomize_hyper")] = lambda I, st, a, kw, nd: NONE
    kf = rp.func("k_fold_x_y")

    def fold_points(I, st, a, kw, nd):
        k = I_const(I.bind(kf, kf.node, a, kw, st, nd).get("k"))
        s = splits.get(int(k)) if k is not None else None
        return lst_of(st, [[C(x) for x in q] for q in s]) if s else I.fresh_unk("folds")

    H[kf] = fold_points
    r.call(m, "optimize", TRUE)
    rule = "cross-validation trains on points with their own labels"
    fits = [c for c in calls if c[0] != "search"]
    if r.I.excs or not calls:
        check.ob(rule, name, w, "unknown", "no fit seen")
        return
    full = {k: v for k, v in orig.items()}
    for j, c in enumerate(calls):
        if c[0] == "search":
            pairs = [(c[1], c[2], "training part"), (c[3], c[4], "validation part")]
        else:
            pairs = [(c[4], c[5], "fit %d" % j)]
        for labs, org, what in pairs:
            con = "%s, %s %d" % (name, what, j)
            if labs is None or org is None:
                check.ob(rule, con, w, "unknown", "data not resolved")
                continue
            for kind in KINDS:
                want = [(vs, ps) for vs, ps in full.get(kind, []) if all(p in org for p in ps)]
                compare_labels(check, rule, con + ", " + kind, w, kind, labs.get(kind), want, org)


def lst_of(st, rows_):
    return st.new(VList([("item", st.new(VList([("item", x) for x in row]))) for row in rows_]))


def read_all(r, m, y, st):
    o = st.get(y)
    items = o.items() if isinstance(o, VList) and o.static else (o.items if isinstance(o, VTuple) else None)
    if items is None or len(items) != 3:
        return None
    return {k: read_labels(r, items[slot(r, m, k)], k, st) for k in KINDS}


def c13(check):
    check.tries = 40
    for cls in PREF_MODELS:
        w = method(check, cls, "remove_without_reference").where()
        for k in range(len(PATTERNS)):
            check.guard("dropping unused points keeps labels on their points", "%s.remove_without_reference, pattern %d" % (cls, k), w, c13_drop, check, cls, k)
        w = method(check, cls, "add_prior").where()
        for k in range(4):
            check.guard("prior points get labels about themselves", "%s.add_prior, case %d" % (cls, k), w, c13_add_prior, check, cls, k)
    f = check.repo.func("get_y_with_idx")
    for k in range(len(PATTERNS)):
        for idx in SUBSETS:
            for as_list in (True, False):
                check.guard("labels of a subset refer to the same points", "get_y_with_idx", f.where(), c13_subset, check, k, idx, as_list)
    for splits, conv in (({3: [[0, 1], [2, 3], [4, 5, 6]], 2: [[0, 1, 2], [3, 4, 5, 6]]}, 2),
                         ({3: [[6, 0], [5, 1, 2], [4, 3]], 2: [[6, 0, 3], [5, 1, 2, 4]], 4: [[0, 4], [1, 3], [2, 5], [6]]}, 4)):
        check.guard("cross-validation trains on points with their own labels", "PreferenceGP.optimize", method(check, "PreferenceGP", "optimize").where(), c13_folds, check, splits, conv)


# ---------------------------------------------------------------- C11
class Fits:
    """optimize() of one model replaced by a stand-in that delivers fresh fitted quantities"""

    def __init__(self, r, m, cls):
        self.r, self.m, self.n = r, m, 0
        self.f = method(r.check, cls, "optimize")
        r.I.hooks[self.f] = self.hook
        self.set(r.st, "old")

    def set(self, st, tag):
        o = st.get(self.m)
        X = o.attrs.get("X_train")
        A = st.get(X)
        n = A.dims[0] if isinstance(A, Arr) else N0
        d = A.dims[1] if isinstance(A, Arr) else D
        kw = {"F": st.new(sym_arr("F:" + tag, [n])), "W": st.new(sym_arr("W:" + tag, [n, n])), "K": st.new(sym_arr("K:" + tag, [n, n])),
              "w": st.new(sym_arr("w:" + tag, [d])), "optimized": TRUE}
        st.put(self.m, VObj(o.cls, dict(o.attrs, **{k: v for k, v in kw.items() if k in o.attrs or k != "w" or "F" not in o.attrs}), o.hooks, o.name))

    def hook(self, I, st, args, kw, nd):
        self.n += 1
        self.facts = dict(st.facts)
        self.set(st, "new%d" % self.n)
        return NONE


CHANGES = ["pairs as an array", "one ordinal rating per point", "ordinal ratings with point numbers", "one rating per point", "ratings with point numbers",
           "no pairs", "unused points dropped", "prior points added", "data forgotten and given again"]
ASKS = ["predict", "predict_large", "__call__", "select_best"]


def c11_change(r, m, change, cls):
    """apply one accepted change to the training data"""
    if change == "unused points dropped":
        r.call(m, "remove_without_reference")
    elif change == "prior points added":
        r.call(m, "add_prior", pts=carr(r, [(4, 4), (5, 0), (0, 9)], "float"), method=K("exact"))
    elif change == "data forgotten and given again":
        r.call(m, "reset")
        r.call(m, "add", r.arr("X1", C(2), C(2)), carr(r, [(1, 0, 1)]))
    else:
        y, n, _ = new_labels(r, change)
        nx = C(3) if change == "one rating per point" else C(2)
        if change == "one ordinal rating per point":
            y = carr(r, [1, 2])
        if change == "pairs as an array":
            y = carr(r, [(1, 0, 1)])
        if change == "ordinal ratings with point numbers":
            y = carr(r, [(1, 0), (3, 1)])
        r.call(m, "add", r.arr("X1", nx, C(2)), y, type=K(FORMS[change]))


def c11_model(check, cls, change):
    r = Run(check, interior=False)
    m = make(r, cls, pareto_pairs=TRUE if change == "prior points added" else FALSE)
    if change != "first data":
        set_labels(r, m, relative_discrete=carr(r, [(1, 0, 1), (-1, 2, 0)]), ordinal=VTuple([carr(r, [1, 2]), carr(r, [0, 1])]),
                   abs=VTuple([carr(r, [HALF, QUARTER], "float"), carr(r, [1, 0])]))
        r.set(m, X_train=carr(r, [(2, 3), (1, 1), (0, 7)], "float"))
    return r, m


def c11_refit(check, cls, change, ask):
    f = check.repo.method(check.repo.cls(cls), ask)
    w = f.where()
    r, m = c11_model(check, cls, change)
    fits = Fits(r, m, cls)
    name = "%s.%s after %s" % (cls, ask, change)
    rule = "predictions are made from a fit to the present data"
    X = r.arr("Xq", C(17) if ask == "predict_large" else M, C(2))
    if change != "first data":
        r.call(m, ask, X)       # whatever a prediction keeps for the next one is there
        if fits.n:
            return check.ob(rule, name, w, "unknown", "a fitted model is fitted again")
    c11_change(r, m, "pairs as an array" if change == "first data" else change, cls)
    if r.I.excs:
        check.ob(rule, name, w, "unknown", "the change always raises")
        return
    try1 = r.call(m, ask, X)
    if r.I.excs:
        check.ob(rule, name, w, "refuted", "the prediction always raises")
        return
    n1 = fits.n
    if not n1 or fits.facts:
        check.ob(rule, name, w, "refuted" if not n1 else "unknown", "the model is not fitted again")
        if not n1:
            return
    fits.n = 0
    st0 = r.st
    fits.set(r.st, "new%d" % n1)
    try2 = r.call(m, ask, X)
    a, b = flat_terms(r, try1), flat_terms(r, try2)
    if a is None or b is None or len(a) != len(b):
        check.ob(rule, name, w, "unknown", "prediction not resolved")
        return
    for k, ((x, d1), (y, d2)) in enumerate(zip(a, b)):
        toks = sorted({t.args[0] for t in walk(x) if t.op == "at" and isinstance(t.args[0], str) and ":" in t.args[0] and not t.args[0].endswith(":new%d" % n1)})
        if toks:
            check.ob(rule, "%s, value %d" % (name, k), w, "refuted", "uses %s, from before the fit" % ", ".join(toks))
            continue
        if has_opq(x):
            # not followed in detail: the values used are those of the fit
            check.ob(rule, "%s, value %d" % (name, k), w, "proved", "uses only quantities of the fit made for this prediction")
            continue
        check.equal(rule, "%s, value %d" % (name, k), w, x, y)


def c11_forgotten(check, cls, ask):
    """after reset the answer uses nothing of the fit or the data before it"""
    w = check.repo.method(check.repo.cls(cls), ask).where()
    r = Run(check, interior=False)
    m = make(r, cls)
    set_labels(r, m, relative_discrete=carr(r, [(1, 0, 1), (-1, 2, 0)]))
    r.set(m, X_train=r.arr("X0", C(3), C(2)))
    Fits(r, m, cls)
    X = r.arr("Xq", C(17) if ask == "predict_large" else M, C(2))
    name = "%s.%s after reset" % (cls, ask)
    rule = "a model without data answers from nothing it has forgotten"
    r.call(m, ask, X)
    if r.I.excs:
        return check.ob(rule, name, w, "unknown", "raises")
    r.call(m, "reset")
    a = flat_terms(r, r.call(m, ask, X))
    if a is None or r.I.excs:
        return check.ob(rule, name, w, "unknown", "prediction not resolved")
    for k, (x, _) in enumerate(a):
        toks = sorted({t.args[0] for t in walk(x) if t.op == "at" and isinstance(t.args[0], str) and (":" in t.args[0] or t.args[0] == "X0")})
        check.ob(rule, "%s, value %d" % (name, k), w, "refuted" if toks else "unknown" if has_opq(x) else "proved", "uses %s, from before the reset" % ", ".join(toks) if toks else "")


def has_opq(t):
    return any(x.op == "opq" for x in walk(t))


def flat_terms(r, v):
    """[(entry term, dims)] of the arrays and numbers in a result"""
    st = r.st
    o = st.get(v) if isinstance(v, Ref) else v
    if v is NONE:
        return []
    if isinstance(o, VTuple):
        out = []
        for x in o.items:
            q = flat_terms(r, x)
            if q is None:
                return None
            out += q
        return out
    if isinstance(o, Arr):
        if all(isnum(d) for d in o.dims) and o.rank == 1:
            return [(o.at(C(i)), ()) for i in range(int(o.dims[0].args[0]))]
        ivs = [S("q%d" % i, True, "dim") for i in range(o.rank)]
        return [(o.at(*ivs), o.dims)]
    if isinstance(o, T):
        return [(o, ())]
    return None


def c11_marks(check, cls, change):
    """the model is not marked as fitted when its data has changed"""
    meth = {"unused points dropped": "remove_without_reference", "prior points added": "add_prior", "data forgotten and given again": "reset"}.get(change, "add")
    w = method(check, cls, meth).where()
    r, m = c11_model(check, cls, change)
    r.set(m, optimized=TRUE)
    name = "%s.%s, %s" % (cls, meth, change)
    if meth == "reset":
        r.set(m, prior_idx=VTuple([ZERO, ONE]))
        r.call(m, "reset")
    else:
        c11_change(r, m, "pairs as an array" if change == "first data" else change, cls)
    v = r.attr(m, "optimized")
    v = r.I.truthy(v, r.st) if v is not None else None
    check.ok("changed data leaves the model marked as not fitted", name, w, True if v is FALSE else False if v is TRUE else None, "optimized is %s" % (v,))
    if meth == "reset":
        o = r.get(m).attrs
        ls = [labels(r, m, k) for k in KINDS]
        check.ok("reset forgets all data", name, w, o["X_train"] is NONE and all(x is None for x in ls) and o.get("prior_idx", NONE) is NONE,
                 "points %r, labels %r, prior points %r" % (o["X_train"], ls, o.get("prior_idx")))


def c11_optimize(check, cls, hyper, npts, init):
    f = method(check, cls, "optimize")
    w = f.where()
    r, m, orig = pattern_model(check, cls, PATTERNS[6])
    name = "%s.optimize%s, model marked as %sfitted before" % (cls, " with hyper-parameter search" if hyper else "", "" if init is TRUE else "not ")
    X, y = r.attr(m, "X_train"), r.attr(m, "y_train")
    y0 = read_all(r, m, y, r.st)
    r.set(m, optimized=init)
    fits = []
    turn = [0]

    def note(st, x, lab):
        a = st.get(m).attrs
        fits.append((a.get("optimized"), row_origins(r, x, st), read_all(r, m, lab, st), dict(st.facts)))

    def mode(I, st, args, kw, nd):
        g = method(check, "PreferenceGP", "find_mode")
        b = I.bind(g, g.node, args, kw, st, nd)
        vals = [v for v in b.values() if v is not m]
        note(st, vals[0], vals[1])
        return NONE

    def deriv(I, st, args, kw, nd):
        g = method(check, "PreferenceLinear", "derivatives")
        b = I.bind(g, g.node, args, kw, st, nd)
        vals = [v for v in b.values() if v is not m]
        note(st, vals[0], vals[1])
        turn[0] += 1
        return VTuple([r_arr(st, "Wd", D, D), r_arr(st, "gd", D), S("ll")])

    def search(I, st, args, kw, nd):
        turn[0] += 1
        return TRUE if turn[0] >= 3 else FALSE

    H = r.I.hooks
    if cls == "PreferenceGP":
        H[method(check, cls, "find_mode")] = mode
        H[method(check, cls, "hyperparameter_search")] = search
        H[method(check, cls, "randomize_hyper")] = lambda I, st, a, kw, nd: NONE
        kf = check.repo.func("k_fold_x_y")

        def folds(I, st, a, kw, nd):
            k = I_const(I.bind(kf, kf.node, a, kw, st, nd).get("k"))
            return lst_of(st, [[C(i) for i in range(NPTS) if i % int(k) == j] for j in range(int(k))]) if k else I.fresh_unk("folds")

        H[kf] = folds
    else:
        H[method(check, cls, "derivatives")] = deriv
        H[method(check, cls, "newton_update")] = lambda I, st, a, kw, nd: r_arr(st, "wn%d" % turn[0], D)
        r.I.exthooks["numpy.linalg.norm"] = lambda I, st, a, kw, nd: ONE if turn[0] < 3 else ZERO
    r.call(m, "optimize", TRUE if hyper else FALSE)
    rule = "a model is marked as fitted only after a fit to its own full data"
    if r.I.excs:
        check.ob(rule, name, w, "refuted", "optimize always raises")
        return
    if not fits:
        check.ob(rule, name, w, "unknown", "no fit is seen")
        return
    for k, (flag, org, lab, facts) in enumerate(fits):
        v = r.I.truthy(flag, r.st)
        check.ok("the model is marked as not fitted while it is being fitted", "%s, fit %d" % (name, k), w,
                 True if v is FALSE else False if v is TRUE else None, "optimized is %s, it stays so when the fit fails" % (v,))
    flag, org, lab, facts = fits[-1]
    check.ok(rule, name + ": points", w, None if org is None or facts else org == list(range(NPTS)), "the last fit is made on points %s" % org)
    if lab is None:
        check.ob(rule, name + ": labels", w, "unknown", "labels not resolved")
    else:
        for kind in KINDS:
            compare_labels(check, rule, "%s: %s" % (name, kind), w, kind, lab.get(kind), orig.get(kind, []), list(range(NPTS)))
    v = r.I.truthy(r.attr(m, "optimized"), r.st)
    check.ok(rule, name + ": mark", w, True if v is TRUE else False if v is FALSE else None, "optimized is %s after the fit" % (v,))
    same_ = row_origins(r, r.attr(m, "X_train")) == list(range(NPTS)) and eq_labels(read_all(r, m, r.attr(m, "y_train"), r.st), y0)
    check.ok("fitting leaves the data as it was", name, w, same_, "the training data is different after the fit")


def eq_labels(a, b):
    if a is None or b is None:
        return None
    f = lambda d: {k: None if not isinstance(v, list) else [repr_label((tuple(norm(x) for x in vs), ps)) for vs, ps in v] for k, v in d.items()}
    return f(a) == f(b)


def r_arr(st, name, *dims):
    return st.new(sym_arr(name, dims))


def trial(check, fail_at, more=None):
    """one AlignmentDecision.select in which the model and the pairwise learner are stand-ins; call number fail_at fails"""
    from .rules_mixed import World
    w = World(check, "AlignmentDecision")
    r = w.run
    m = w.model("m")
    o = r.get(m)
    calls = []
    fitted = {}

    def step(I, st, what):
        if I.excs:
            return True
        calls.append(what)
        if len(calls) - 1 == fail_at:
            if what == "optimize":
                a = st.get(m)
                st.put(m, VObj(None, dict(a.attrs, optimized=FALSE), a.hooks, a.name))
            I.excs.append(K("a failure in " + what))
            return True
        return False

    def contents(st):
        y = st.get(st.get(m).attrs["y_train"])
        return list(y.items()) if isinstance(y, VList) and y.static else list(y.items) if isinstance(y, VTuple) else None

    def optimize(I, st, me, a, kw, nd):
        if step(I, st, "optimize"):
            return I.unk("raised")
        x = st.get(m)
        st.put(m, VObj(None, dict(x.attrs, optimized=TRUE), x.hooks, x.name))
        fitted["data"] = contents(st)
        return NONE

    def predict(I, st, me, a, kw, nd):
        if step(I, st, "predict"):
            return I.unk("raised")
        x = st.get(m)
        if I.truthy(x.attrs["optimized"], st) is FALSE:
            st.put(m, VObj(None, dict(x.attrs, optimized=TRUE), x.hooks, x.name))
            fitted["data"] = contents(st)
        return VTuple([st.new(sym_arr("mu", [NR_()])), st.new(sym_arr("var", [NR_()]))])

    r.st.put(m, VObj(None, dict(o.attrs, X_train=r.arr("X0", N0, D)), dict(o.hooks, optimize=optimize, predict=predict), o.name))
    r.call(w.L, "set_model", m)
    for p in w.parts.values():
        po = r.get(p.ref)
        hk = dict(po.hooks)
        for nm in ("get_representative_Q", "get_samples_from_model", "alignment_between", "alignment", "select"):
            hk[nm] = (lambda nm, h: lambda I, st, me, a, kw, nd: I.unk("raised") if step(I, st, nm) else h(I, st, me, a, kw, nd))(nm, hk[nm])
        if more:
            hk.update(more(p, m, contents, fitted))
        r.st.put(p.ref, VObj(None, dict(po.attrs), hk, po.name))
    fitted["data"] = contents(r.st)
    before = (contents(r.st), {p.name: dict(r.get(p.ref).attrs) for p in w.parts.values()}, dict(r.get(m).attrs))
    r.set(w.L, num_calls=C(100))
    w.result = w.select()
    return w, m, calls, fitted, before, contents


def NR_():
    from .rules_mixed import NR
    return NR


def c11_trial(check, fail_at):
    f = method(check, "AlignmentDecision", "determine_query_type")
    wh = f.where()
    w, m, calls, fitted, before, contents = trial(check, fail_at)
    r = w.run
    if fail_at is not None and len(calls) <= fail_at:
        return False
    name = "AlignmentDecision.select" + ("" if fail_at is None else " when call %d (%s) fails" % (fail_at, calls[fail_at]))
    rule = "trying out a model leaves its data, settings and fit restored"
    if fail_at is None and r.I.excs:
        check.ob(rule, name, wh, "unknown", "the call always raises")
        return False
    if fail_at is not None and not r.I.excs:
        return True     # the failure was handled
    now = contents(r.st)
    if now is None:
        check.ob(rule, name + ": labels", wh, "unknown", "labels not resolved")
    else:
        ok = len(now) == len(before[0]) and all(a is b for a, b in zip(now, before[0]))
        und = any(isinstance(a, (Unk, Phi)) for a in now)
        check.ok(rule, name + ": labels", wh, True if ok else None if und else False, "the labels of the model are %s, before %s" % (list(map(sh, now)), list(map(sh, before[0]))))
    a = r.get(m).attrs
    check.ok(rule, name + ": points", wh, a["X_train"] is before[2]["X_train"], "the points of the model are replaced")
    flag = r.I.truthy(a["optimized"], r.st)
    if flag is TRUE:
        d = fitted["data"]
        ok = d is not None and len(d) == len(before[0]) and all(x is y for x, y in zip(d, before[0]))
        check.ok(rule, name + ": fit", wh, ok, "the model counts as fitted, the last fit was made with labels %s" % (list(map(sh, d)) if d else d))
    else:
        check.ok(rule, name + ": fit", wh, True if flag is FALSE else None, "optimized is %s" % (flag,))
    for p in w.parts.values():
        M1, M0 = r.get(p.ref).attrs.get("M"), before[1][p.name].get("M")
        check.ok(rule, "%s: number of samples of %s" % (name, p.name), wh, M1 is M0, "M is %s, before %s" % (sh(M1), sh(M0)))
    return True


def sh(v):
    return show(v) if isinstance(v, T) else repr(v)


def c11_gp(check, hist, ask):
    """GP: the same answer as from a model that was given all the data at once"""
    w = check.repo.method(check.repo.cls("GP"), ask).where()
    r = Run(check, interior=False)
    m = r.new("GP", r.new("RBF_kern", ONE, ONE))
    X = r.arr("Xq", C(2), C(2))
    X0, y0, X1, y1 = r.arr("X0", C(2), C(2)), r.arr("y0", C(2)), r.arr("X1", C(2), C(2)), r.arr("y1", C(2))
    name = "GP.%s, %s" % (ask, hist)
    rule = "predictions are made from a fit to the present data"
    s = S("sg", True)
    r.call(m, ask, X)
    r.call(m, "add", X0, y0, training_sigma=s)
    r.call(m, ask, X)
    last = (X0, y0)
    if hist == "data added twice":
        r.call(m, "add", X1, y1, training_sigma=s)
        last = (r.st.new(stack2(r, X0, X1)), r.st.new(stack2(r, y0, y1)))
    elif hist == "data forgotten and given again":
        r.call(m, "reset")
        r.call(m, ask, X)
        r.call(m, "add", X1, y1, training_sigma=s)
        last = (X1, y1)
    elif hist == "data forgotten":
        r.call(m, "reset")
        last = None
    a = flat_terms(r, r.call(m, ask, X))
    m2 = r.new("GP", r.new("RBF_kern", ONE, ONE))
    if last:
        r.call(m2, "add", last[0], last[1], training_sigma=s)
    b = flat_terms(r, r.call(m2, ask, X))
    if a is None or b is None or len(a) != len(b) or r.I.excs:
        check.ob(rule, name, w, "unknown", "prediction not resolved")
        return
    names = {t.args[0] for y, _ in b for t in walk(y) if t.op == "at" and isinstance(t.args[0], str)}
    for k, ((x, _), (y, _)) in enumerate(zip(a, b)):
        mine = {t.args[0] for t in walk(x) if t.op == "at" and isinstance(t.args[0], str)}
        if norm(x) is norm(y):
            check.ob(rule, "%s, value %d" % (name, k), w, "proved", "")
        elif mine & {"X0", "y0", "X1", "y1"} != {t.args[0] for t in walk(y) if t.op == "at" and isinstance(t.args[0], str)} & {"X0", "y0", "X1", "y1"}:
            check.ob(rule, "%s, value %d" % (name, k), w, "refuted", "made from %s; the data of the model is %s" % (sorted(mine & {"X0", "y0", "X1", "y1"}), sorted(names & {"X0", "y0", "X1", "y1"})))
        else:
            check.equal(rule, "%s, value %d" % (name, k), w, x, y)


def c11_gp_reset(check):
    w = method(check, "GP", "reset").where()
    r = Run(check, interior=False)
    m = r.new("GP", r.new("RBF_kern", ONE, ONE))
    r.call(m, "add", r.arr("X0", C(2), C(2)), r.arr("y0", C(2)), training_sigma=S("sg", True))
    r.call(m, "reset")
    o = r.get(m).attrs
    left = [k for k in ("X_train", "y_train") if o.get(k) is not NONE]
    check.ok("reset forgets all data", "GP.reset", w, None if r.I.excs or any(k not in o for k in ("X_train", "y_train")) else not left, "left: %s" % left)


def stack2(r, a, b):
    x, y = r.get(a), r.get(b)
    ivs = tuple(IV() for _ in x.dims)
    return Arr(ivs, (add(x.dims[0], y.dims[0]),) + tuple(x.dims[1:]), ite(lt(ivs[0], x.dims[0]), x.at(*ivs), y.at(sub(ivs[0], x.dims[0]), *ivs[1:])), "float")


def c11_writers(check):
    """who, outside the models, writes a model's data or its mark"""
    import ast
    rp = check.repo
    models = {c.name for c in [rp.cls("Model")] + list(rp.subclasses(rp.cls("Model")))}
    n = 0
    for fn in rp.all_funcs():
        if fn.cls is not None and fn.cls.name in models:
            continue
        n += 1
        for x in ast.walk(fn.node):
            t = None
            if isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                for t0 in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                    for t in ast.walk(t0):
                        if isinstance(t, ast.Attribute) and isinstance(t.ctx, ast.Store) and t.attr in ("optimized", "X_train", "y_train"):
                            v = getattr(x, "value", None)
                            if t.attr == "optimized":
                                fits = any(isinstance(q, ast.Call) and isinstance(q.func, ast.Attribute) and q.func.attr == "optimize" for q in ast.walk(fn.node))
                                ok = (v.value is False or (None if fits else False)) if isinstance(v, ast.Constant) else None
                                check.ok("only the models mark themselves as fitted", fn.qual, fn.where(x), ok,
                                         "%s is set to %s outside the model" % (ast.unparse(t), ast.unparse(v) if v is not None else "?"))
    check.ob("only the models mark themselves as fitted", "%d functions outside the models" % n, "src/lop", "proved", "")


def c11_given(check, cls):
    """a prediction from latent values handed in by the caller fits nothing, so it marks nothing as fitted"""
    w = method(check, cls, "predict").where()
    r, m = c11_model(check, cls, "pairs as an array")
    fits = Fits(r, m, cls)
    r.set(m, optimized=FALSE)
    name = cls + ".predict from given latent values"
    ag = method(check, cls, "predict").node.args
    names = [a.arg for a in ag.args + ag.kwonlyargs]
    kw = {k: v for k, v in (("F", r.arr("Fx", C(3))), ("W", r.arr("Wx", C(3), C(3))), ("w", r.arr("wx", C(2)))) if k in names}
    if not kw:
        return
    r.call(m, "predict", r.arr("Xq", M, C(2)), **kw)
    v = r.attr(m, "optimized")
    v = r.I.truthy(v, r.st) if v is not None else None
    check.ok("a model is marked as fitted only after a fit to its own full data", name, w,
             True if v is FALSE or (v is TRUE and fits.n) else False if v is TRUE else None, "optimized is %s after %d fits" % (v, fits.n))


def c11(check):
    check.tries = 40
    for cls in PREF_MODELS:
        check.guard("a model is marked as fitted only after a fit to its own full data", cls + ".predict", method(check, cls, "predict").where(), c11_given, check, cls)
    for cls in PREF_MODELS:
        for change in ["first data"] + CHANGES:
            check.guard("changed data leaves the model marked as not fitted", "%s, %s" % (cls, change), method(check, cls, "add").where(), c11_marks, check, cls, change)
            for ask in ASKS:
                check.guard("predictions are made from a fit to the present data", "%s.%s after %s" % (cls, ask, change),
                            method(check, cls, "predict").where(), c11_refit, check, cls, change, ask)
        for hyper in (False, True):
            for init in (TRUE, FALSE):
                check.guard("a model is marked as fitted only after a fit to its own full data", cls + ".optimize", method(check, cls, "optimize").where(),
                            c11_optimize, check, cls, hyper, NPTS, init)
        for ask in ("predict", "predict_large", "__call__"):
            check.guard("a model without data answers from nothing it has forgotten", "%s.%s" % (cls, ask), method(check, cls, "predict").where(), c11_forgotten, check, cls, ask)
    check.guard("reset forgets all data", "GP.reset", method(check, "GP", "reset").where(), c11_gp_reset, check)
    for hist in ("data added twice", "data forgotten and given again", "data forgotten", "data added once"):
        for ask in ("predict", "predict_large", "__call__"):
            check.guard("predictions are made from a fit to the present data", "GP.%s, %s" % (ask, hist), method(check, "GP", "predict").where(), c11_gp, check, hist, ask)
    f = method(check, "AlignmentDecision", "determine_query_type")
    check.guard("trying out a model leaves its data, settings and fit restored", "AlignmentDecision.select", f.where(), c11_trial, check, None)
    for k in range(30):
        if check.guard("trying out a model leaves its data, settings and fit restored", "AlignmentDecision.select, call %d fails" % k, f.where(), c11_trial, check, k) is not True:
            break
    c11_writers(check)
