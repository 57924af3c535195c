"""C36, C35, C27: what is kept, split or drawn is exactly the set stated.

Exhaustive constant propagation over small scenarios: every order type of a few points, every
sequence of draws of a few points.  Nothing of the library is executed.
"""
import ast
import itertools
import math
from .rule import *
from .rules_choice import method, mat
from .rules_data import I_const, carr


def weak_orders(n):
    """every way n values can compare, as tuples of ranks"""
    return sorted({tuple(sorted(set(p)).index(x) for x in p) for p in itertools.product(range(n), repeat=n)})


def ints(run, v, st=None):
    """the constants of an array or list of one dimension, or None"""
    st = st or run.st
    o = st.get(v)
    try:
        if isinstance(o, Arr):
            c = run.I.consts(o)
            return None if c is None or o.rank != 1 else list(c)
        if isinstance(o, VTuple):
            xs = list(o.items)
        else:
            xs = list(o.items())
        r = [I_const(x) if isinstance(x, T) else None for x in xs]
        return None if any(x is None for x in r) else [int(x) for x in r]
    except Exception:
        return None


# ------------------------------------------------------------------ Pareto filter
def maximal(rows):
    return {r for r in rows if not any(q != r and all(a >= b for a, b in zip(q, r)) for q in rows)}


def c36(check):
    f = check.repo.func("get_pareto")
    deep = check.tier == "thorough"
    spaces = [(n, d, weak_orders(n)) for n, d in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2))]
    spaces.append((4, 2, list(itertools.permutations(range(4)))))
    if deep:
        spaces += [(3, 3, weak_orders(3)), (4, 2, weak_orders(4))]
    for n, d, orders in spaces:
        for mask in (False, True):
            tag = "%s, every order of %d points in %d dimensions%s%s" % (f.qual, n, d, "" if len(orders) == len(weak_orders(n)) else ", no ties", ", as a mask" if mask else "")
            check.guard("exactly the points no other point dominates are kept", tag, f.where(), pareto, check, f, n, d, orders, mask, tag)


def pareto(check, f, n, d, orders, mask, tag):
    rule = "exactly the points no other point dominates are kept"
    cases = unknown = 0
    for cols in itertools.product(orders, repeat=d):
        if mask and cases > 200:
            break
        rows = [tuple(c[i] for c in cols) for i in range(n)]
        run = Run(check)
        v = run.fn(f, mat(run, rows), **({"return_mask": TRUE} if mask else {}))
        cases += 1
        if run.I.excs:
            check.ob(rule, tag, f.where(), "refuted", "the call fails for points %s" % rows)
            return
        if mask:
            o = run.get(v)
            b = [simp(o.at(C(q)), {}) for q in range(n)] if isinstance(o, Arr) and o.rank == 1 and I_const(o.dims[0]) == n else []
            got = [q for q in range(n) if b[q] is TRUE] if b and all(x is TRUE or x is FALSE for x in b) else None
        else:
            got = ints(run, v)
        if got is None:
            unknown += 1
            if unknown > 3:
                break
            continue
        kept = [rows[int(q)] for q in got]
        if len(set(got)) != len(got) or set(kept) != maximal(rows) or len(set(kept)) != len(kept):
            check.ob(rule, tag, f.where(), "refuted", "of the points %s those at %s are kept, the ones not dominated are %s" % (rows, got, sorted(maximal(rows))))
            return
    check.ob(rule, tag, f.where(), "unknown" if unknown else "proved", "%d orders, %d not resolved" % (cases, unknown))


# ------------------------------------------------------------------ scripted draws
class Script:
    """answers every draw from a list of choices; `next` moves to the next list: all lists in order,
    or (`mixed`) lists picked by a fixed congruential sequence"""

    def __init__(self):
        self.pick, self.n, self.mixed, self.lcg, self.at = [], [], False, 12345, 0

    def start(self):
        self.at = 0

    def choose(self, n):
        """one of n options"""
        if n <= 0:
            raise Empty("a draw from nothing")
        if self.at < len(self.pick) and self.n[self.at] != n:
            del self.pick[self.at:], self.n[self.at:]
        if self.at == len(self.pick):
            q = 0
            if self.mixed:
                self.lcg = (self.lcg * 1103515245 + 12345) % (1 << 31)
                q = (self.lcg >> 8) % n
            self.pick.append(q)
            self.n.append(n)
        self.at += 1
        return self.pick[self.at - 1]

    def next(self, mixed=False):
        """the following list of choices, or False at the end"""
        del self.pick[self.at:], self.n[self.at:]
        self.mixed = mixed
        if mixed:
            more = bool(self.pick)
            self.pick, self.n = [], []
            return more
        for q in reversed(range(len(self.pick))):
            if self.pick[q] + 1 < self.n[q]:
                self.pick[q] += 1
                del self.pick[q + 1:], self.n[q + 1:]
                return True
        return False


class Empty(Exception):
    pass


def arrangement(script, xs):
    """some order of xs"""
    xs, out = list(xs), []
    while len(xs) > 1:
        out.append(xs.pop(script.choose(len(xs))))
    return out + xs


def hook_draws(run, script):
    I = run.I

    def cint(t, st):
        t = I.scalar(t, st) if not isinstance(t, T) else t
        c = I.constof(t) if t is not None else None
        if c is None:
            raise NotImplementedError("size of a draw not resolved")
        return int(c)

    def randint(I, st, a, kw, nd):
        lo = a[0] if a else kw.get("low")
        hi = a[1] if len(a) > 1 else kw.get("high")
        if len(a) > 2 or "size" in kw:
            raise NotImplementedError("several integers drawn at once")
        lo, hi = (0, cint(lo, st)) if hi is None or hi is NONE else (cint(lo, st), cint(hi, st))
        return C(lo + script.choose(hi - lo))

    def members(x, st):
        v = I.arr(x, st)
        if isinstance(v, T):
            return list(range(cint(v, st)))
        cv = I.consts(v) if isinstance(v, Arr) and v.rank == 1 else None
        if cv is None:
            raise NotImplementedError("what is drawn from is not resolved")
        return cv

    def shuffle(I, st, a, kw, nd):
        o = st.get(a[0])
        if isinstance(o, VList) and o.static:
            st.put(a[0], VList([("item", x) for x in arrangement(script, o.items())]))
        elif isinstance(o, Arr) and o.rank == 1:
            xs = members(a[0], st)
            n = st.get(I.from_consts(arrangement(script, xs), st, o.dt))
            st.put(a[0], n)
        else:
            raise NotImplementedError("shuffle of something not resolved")
        return NONE

    def permutation(I, st, a, kw, nd):
        return I.from_consts(arrangement(script, members(a[0], st)), st)

    def choice(I, st, a, kw, nd):
        pop = members(a[0] if a else kw["a"], st)
        size = a[1] if len(a) > 1 else kw.get("size", NONE)
        rep = a[2] if len(a) > 2 else kw.get("replace", TRUE)
        if len(a) > 3 or "p" in kw or rep not in (TRUE, FALSE):
            raise NotImplementedError("draw with weights")
        if size is NONE:
            return C(pop[script.choose(len(pop))])
        sz = st.get(size) if isinstance(size, Ref) else size
        sh = [cint(x, st) for x in (sz.items if isinstance(sz, VTuple) else list(sz.items()) if isinstance(sz, VList) else [sz])]
        n, out, left = 1, [], list(pop)
        for x in sh:
            n *= x
        if rep is FALSE and n > len(pop):
            I.error(st, nd, "more drawn without replacement than there are")
            raise Empty("more are drawn without replacement than there are")
        for _ in range(n):
            q = script.choose(len(left))
            out.append(left[q])
            if rep is FALSE:
                left.pop(q)
        if len(sh) == 1:
            return I.from_consts(out, st)
        if len(sh) == 2:
            return carr(_St(st), [out[q * sh[1]:(q + 1) * sh[1]] for q in range(sh[0])], "i")
        raise NotImplementedError("draw of higher rank")

    for name, h in (("randint", randint), ("shuffle", shuffle), ("permutation", permutation), ("choice", choice)):
        I.exthooks["numpy.random." + name] = h


class _St:
    def __init__(self, st):
        self.st = st


# ------------------------------------------------------------------ folds
def comparisons(n):
    """which points are compared: none, chains, one against all, groups, all with all"""
    allp = [(i, j) for i in range(n) for j in range(i)]
    r = [None, [], [(i, i + 1) for i in range(n - 1)], [(0, i) for i in range(1, n)], [(i, i + 1) for i in range(0, n - 1, 2)], allp]
    if n > 3:
        r += [[(0, 1), (0, 2), (1, 2)] + [(i, i + 1) for i in range(3, n - 1)], allp[1:] + [(n - 1, n - 2)]]
    return r


def c35(check):
    f = check.repo.func("k_fold_x_y")
    deep = check.tier == "thorough"
    for n, k in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (3, 2), (3, 4), (4, 2), (4, 3), (5, 2), (5, 3), (6, 2), (6, 3), (6, 4), (7, 2), (7, 3), (7, 4), (8, 3), (9, 4), (10, 4), (11, 3)):
        check.guard("every point is in exactly one fold", "%s, %d points, %d folds" % (f.qual, n, k), f.where(), folds, check, f, n, k, 400 if deep else 24)
    for n, k in ((4, 2), (6, 3), (6, 2), (8, 2), (8, 4), (9, 3)):
        check.guard(TOGETHER, "%s, %d points, %d folds" % (f.qual, n, k), f.where(), groups, check, f, n, k, 400 if deep else 24)


def folds(check, f, n, k, most):
    w = f.where()
    for cmp in comparisons(n):
        script, cases, mixed = Script(), 0, False
        tag = "%s, %d points, %d folds, comparisons %s" % (f.qual, n, k, cmp)
        bad = {}
        unknown = 0
        for cases in range(most):
            mixed = cases >= most // 2
            script.start()
            run = Run(check)
            hook_draws(run, script)
            y0 = NONE if cmp is None else mat(run, [(1, i, j) for i, j in cmp]) if cmp and len(cmp) < 7 else run.st.new(VList([("item", VTuple([ONE, C(i), C(j)])) for i, j in cmp]))
            y = run.st.new(VList([("item", y0), ("item", NONE), ("item", NONE)]))
            try:
                v = run.fn(f, run.arr("X", C(n), D), y, C(k))
            except Empty as e:
                bad.setdefault("the data can be split", str(e))
                break
            if run.I.excs:
                bad.setdefault("the data can be split", "the call fails after the draws %s" % script.pick)
                break
            got = None
            if v is NONE:
                got = ()
            else:
                o = run.get(v)
                try:
                    got = [ints(run, x) for x in o.items()]
                    if any(g is None for g in got):
                        got = None
                except Exception:
                    got = None
            if got is None:
                unknown += 1
                if unknown > 2:
                    break
            else:
                facts(bad, n, k, got, script.pick)
            if len(bad) == 4 or not script.next(mixed):
                break
        for rule in ("the data can be split", "every point is in exactly one fold", "as many folds as asked for, two points in each or none at all", "folds are as equal as possible"):
            check.ob(rule, tag, w, "refuted" if rule in bad else "unknown" if unknown else "proved", bad.get(rule, "%d sequences of draws" % (cases + 1)))


TOGETHER = "compared points stay together where there is room"


def groups(check, f, n, k, most):
    """disjoint groups of compared points that just fill a fold: every fold is one of them"""
    q = n // k
    part = [list(range(n))[i * q:(i + 1) * q] for i in range(k)]
    odd = [list(range(n))[i::k] for i in range(k)]
    for gs in (part, odd):
        for flip in (False, True):
            cmp = [(g[0], x) if not flip else (x, g[0]) for g in gs for x in g[1:]] + ([] if q < 3 else [(a, b) for g in gs for a in g[1:] for b in g[1:] if a != b])
            tag = "%s, %d points, %d folds, comparisons %s" % (f.qual, n, k, cmp)
            script, bad, unknown = Script(), None, 0
            for cases in range(most):
                script.start()
                run = Run(check)
                hook_draws(run, script)
                y0 = run.st.new(VList([("item", VTuple([ONE, C(i), C(j)])) for i, j in cmp]))
                try:
                    v = run.fn(f, run.arr("X", C(n), D), run.st.new(VList([("item", y0), ("item", NONE), ("item", NONE)])), C(k))
                    got = [ints(run, x) for x in run.get(v).items()]
                    if any(g is None for g in got):
                        raise ValueError
                except (Empty, ValueError, AttributeError, TypeError):
                    unknown += 1
                    if unknown > 2:
                        break
                    continue
                if sorted(map(sorted, got)) != sorted(map(sorted, gs)):
                    bad = "%s after the draws %s" % (got, script.pick)
                    break
                if not script.next(cases >= most // 2):
                    break
            check.ob(TOGETHER, tag, f.where(), "refuted" if bad else "unknown" if unknown else "proved", bad or "")


def facts(bad, n, k, got, picks):
    if got == ():
        if n // 2 >= min(k, 2) and n >= 2:
            bad.setdefault("as many folds as asked for, two points in each or none at all", "no split of %d points into %d" % (n, k))
        return
    kk = min(k, n // 2) if k > n // 2 else k
    sizes = sorted(len(g) for g in got)
    flat = sorted(x for g in got for x in g)
    if flat != list(range(n)):
        bad.setdefault("every point is in exactly one fold", "%s after the draws %s" % (got, picks))
    if len(got) != kk or kk == 0:
        bad.setdefault("as many folds as asked for, two points in each or none at all", "%d folds of %d points" % (len(got), n))
    elif sizes[-1] - sizes[0] > 1:
        bad.setdefault("folds are as equal as possible", "%s after the draws %s" % (got, picks))


# ------------------------------------------------------------------ simulated reward functions
def density(I, st, a, kw, nd):
    """a density of each point: an unknown function of the coordinates, the mean and the covariance"""
    x = I.arr(a[0] if a else kw["x"], st)
    m = I.arr(kw.get("mean", a[1] if len(a) > 1 else None), st)
    c = I.arr(kw.get("cov", a[2] if len(a) > 2 else None), st)
    if not isinstance(m, Arr) or not isinstance(c, Arr) or m.rank != 1 or not isnum(m.dims[0]):
        return I.fresh_unk("pdf")
    d = int(m.dims[0].args[0])
    if x is None:
        return I.fresh_unk("pdf")
    par = [m.at(C(i)) for i in range(d)] + [c.at(C(i), C(j)) for i in range(d) for j in range(d)]
    if isinstance(x, T):
        return AT("pdf%d" % d, x, *par) if d == 1 else I.fresh_unk("pdf")
    if x.rank == 1 and d == 1:
        iv = IV()
        return st.new(Arr((iv,), x.dims, AT("pdf1", x.at(iv), *par), "f"))
    if x.dims[-1] is not m.dims[0]:
        return I.error(st, nd, "points of %s coordinates, density of %d" % (show(x.dims[-1]), d))
    ivs = tuple(IV() for _ in x.dims[:-1])
    body = AT("pdf%d" % d, *[x.at(*ivs, C(i)) for i in range(d)], *par)
    # scipy drops axes of length one from the result
    keep = [(i, n) for i, n in zip(ivs, x.dims[:-1]) if n is not ONE]
    if not keep:
        return x_at(body, {i: ZERO for i in ivs})
    r = Arr(tuple(i for i, _ in keep), tuple(n for _, n in keep), x_at(body, {i: ZERO for i, n in zip(ivs, x.dims) if n is ONE}), "f")
    return st.new(r)


def x_at(t, m):
    return tsubst(t, m) if m else t


def c26(check):
    check.tries = 12
    for d in (1, 2, 3):
        ARRAYS["pdf%d" % d] = {"fun": True}
    base = check.repo.cls("FakeFunction")
    for cls in check.repo.subclasses(base):
        if "calc" not in cls.methods or cls is base or cls.name == "FakeIntegrate":
            continue
        f = cls.methods["calc"]
        fixed = "__init__" not in cls.methods
        for d in (1,) if fixed else (1, 2, 3):
            check.guard("a point has the same value alone and among others", "%s, %d rewards" % (cls.name, d), f.where(), values_of, check, cls, f, d, fixed)


def values_of(check, cls, f, d, fixed):
    rule = "a point has the same value alone and among others"

    def fresh():
        run = Run(check)
        run.I.exthooks["scipy.stats.multivariate_normal.pdf"] = density
        if "num_kerns" in ast.dump(cls.node):
            run.I.exthooks["numpy.random.randint"] = lambda I, st, a, kw, nd: C(2)
        return run
    run = fresh()
    m = run.new(cls, *(() if fixed else (C(d),)))
    w = f.where()
    many = [("a row of points", (N,)), ("queries of points", (S("nQ", True, "dim"), N)), ("one point in a row", (ONE,)), ("a query of two points", (C(3), TWO))]
    for what, lead in many:
        tag = "%s, %d rewards, %s" % (cls.name, d, what)
        st = run.st.fork()
        if d == 1:
            x = sym_arr("R", lead)
        else:
            x = sym_arr("R", lead + (C(d),))
        e0 = len(run.I.errors)
        got = run.I.call(run.I.getattr(m, "calc", st, None), [st.new(x)], {}, st, None)
        if len(run.I.errors) > e0:
            check.ob(rule, tag, w, "refuted", "the call fails: %s" % run.I.errors[e0][2])
            continue

        def alone(*ivs):
            s1 = run.st.fork()
            if d == 1:
                p = AT("R", *ivs)
            else:
                k = IV()
                p = s1.new(Arr((k,), (C(d),), AT("R", *ivs, k), "f"))
            v = run.I.call(run.I.getattr(m, "calc", s1, None), [p], {}, s1, None)
            v = s1.get(v)
            if isinstance(v, Arr):
                v = v.at(*[ZERO for _ in v.dims]) if all(q is ONE for q in v.dims) else v
            if isinstance(v, Arr):
                raise OneValue("%s values for one point" % ",".join(show(q) for q in v.dims))
            if not isinstance(v, T):
                raise NotImplementedError("value of one point not resolved: %r" % (v,))
            return v
        try:
            check.arr_equal(rule, tag, w, got, st, lead, alone)
        except OneValue as e:
            check.ob("one point has one value", tag, w, "refuted", str(e))
    if d == 1:
        s2 = run.st.fork()
        a, b = S("ra", True, "real"), S("rb", True, "real")
        got = run.I.call(run.I.getattr(m, "calc", s2, None), [s2.new(VList([("item", a), ("item", b)]))], {}, s2, None)
        s3 = run.st.fork()
        want = run.I.call(run.I.getattr(m, "calc", s3, None), [s3.new(vec([a, b]))], {}, s3, None)
        wa = s3.get(want)
        if isinstance(wa, Arr) and not fixed:
            check.arr_equal(rule, "%s, 1 reward, a list of points" % cls.name, w, got, s2, (TWO,), lambda i: wa.at(i))
    definition(check, cls, f, run, m, d)


class OneValue(Exception):
    pass


def definition(check, cls, f, run, m, d):
    """the functions whose name says what they are"""
    if d == 1 or cls.name not in ("FakeLinear", "FakeSquared", "FakeWeightedMax", "FakeWeightedMin"):
        return
    st = run.st.fork()
    got = run.I.call(run.I.getattr(m, "calc", st, None), [st.new(sym_arr("R", (N, C(d))))], {}, st, None)
    wt = run.get(run.attr(m, "w"))
    if not isinstance(wt, Arr):
        return

    def want(n):
        xs = [mul(AT("R", n, C(k)), wt.at(C(k))) for k in range(d)]
        if cls.name == "FakeLinear":
            return add(*xs)
        if cls.name == "FakeSquared":
            return add(*[mul(AT("R", n, C(k)), x) for k, x in enumerate(xs)])
        best = xs[0]
        for x in xs[1:]:
            best = fn("maximum" if cls.name == "FakeWeightedMax" else "minimum", best, x)
        return best
    check.arr_equal("a reward function is what its name says", "%s, %d rewards" % (cls.name, d), f.where(), got, st, (N,), want)


# ------------------------------------------------------------------ sampled sets
def c27(check):
    deep = check.tier == "thorough"
    f = check.repo.func("sample_unique_sets")
    for s, size in ((2, 1), (2, 2), (3, 1), (3, 2), (4, 2), (4, 3), (5, 2), ([4, 7, 9], 2), ([9, 2, 5, 0], 3), (6, 3)):
        n = s if isinstance(s, int) else len(s)
        for num in sorted({0, 1, 2, math.comb(n, size) // 2, math.comb(n, size) - 1, math.comb(n, size)}):
            if 0 <= num <= min(12, math.comb(n, size)):
                check.guard("as many different sets as asked for", "%s, %d of size %d from %s" % (f.qual, num, size, s), f.where(), unique_sets, check, f, s, num, size, 120 if deep else 12)
    f = method(check, "AcquisitionBase", "get_representative_Q")
    for n, pts, q, alts in ((5, 3, 2, 2), (5, 9, 50, 2), (4, 4, 3, 3), (6, 5, 4, 1), (5, 2, 6, None), (3, 5, 4, 2), (1, 3, 3, 2), (4, 3, 1, 3), (5, 4, 9, 3), (4, 4, 9, 4), (5, 4, 9, 2)):
        check.guard("representative queries", "%s, sampled, %d training points" % (f.qual, n), f.where(), sampled_queries, check, f, n, pts, q, alts, 60 if deep else 8)
    for per, alts in ((2, 2), (3, 2), (4, 3), (2, 1), (3, 3), (3, None)):
        check.guard("representative queries", "%s, stable, %d points in each" % (f.qual, per), f.where(), stable_queries, check, f, per, alts)
    check.guard("no representative queries without data", f.qual, f.where(), no_data, check, f)
    f = method(check, "HumanChoiceUser", "sample_Qs")
    for n, size in ((2, 2), (3, 2), (4, 2), (4, 3), (5, 4), (5, 2)):
        check.guard("test queries of a simulated user are different sets of its points", "%s, %d of %d" % (f.qual, size, n), f.where(), user_queries, check, f, n, size, 40 if deep else 6)


def no_data(check, f):
    run = Run(check)
    L = acquisition(run, None, 2, rep_Q_method=K("sampled"), rep_Q_data=run.st.new(VDict([(K("num_pts"), C(3)), (K("num_Q"), C(4))])))
    v = run.call(L, "get_representative_Q", run.arr("cand", C(3), D))
    ok = isinstance(v, VTuple) and len(v.items) == 2 and v.items[0] is NONE
    check.ok("no representative queries without data", f.qual, f.where(), True if ok and not run.I.excs else False if run.I.excs else None, "%r" % (v,))


def impossible(check, run):
    """more different sets asked for than there are: the search for them never ends"""
    g = check.repo.func("sample_unique_sets")
    for e in run.I.events:
        if e.kind == "callfn" and e.data.get("func") is g and not e.facts:
            b = [run.I.constof(x) if isinstance(x, T) else None for x in list(e.data["args"]) + list(e.data["kwargs"].values())]
            if len(b) == 3 and None not in b and all(x == int(x) >= 0 for x in b) and b[1] > math.comb(int(b[0]), int(b[2])):
                return "%d different sets of %d of %d points are asked for" % (b[1], b[2], b[0])
    return None


def user_queries(check, f, n, size, most):
    rule = "test queries of a simulated user are different sets of its points"
    tag = "%s, %d of %d" % (f.qual, size, n)
    script, unknown = Script(), 0
    for cases in range(most):
        script.mixed = True
        script.start()
        run = Run(check)
        hook_draws(run, script)
        u = run.new("HumanChoiceUser", NONE)
        try:
            v = run.call(u, "sample_Qs", run.arr("R", C(n), D), C(size))
        except Empty as e:
            check.ob(rule, tag, f.where(), "refuted", str(e))
            return
        Q = table(run, v)
        more = impossible(check, run)
        if run.I.excs or more:
            check.ob(rule, tag, f.where(), "refuted", more or "the call fails")
            return
        if Q is None:
            unknown += 1
        else:
            sets = {frozenset(x) for x in Q}
            if not Q or len(sets) != len(Q) or any(len(set(x)) != size or not set(x) <= set(range(n)) for x in Q):
                check.ob(rule, tag, f.where(), "refuted", "%s" % Q)
                return
        if not script.next(True):
            break
    check.ob(rule, tag, f.where(), "unknown" if unknown > most // 3 else "proved", "%d sequences of draws, %d too long to follow" % (cases + 1, unknown))


def acquisition(run, n, alts, **kw):
    m = run.st.new(VObj(None, {"X_train": run.arr("X", C(n), D) if n is not None else NONE}, {}, "model"))
    L = run.new("AcquisitionBase")
    run.set(L, model=m, **kw)
    if alts is not None:
        run.set(L, num_alts=C(alts))
    return L


def sampled_queries(check, f, n, pts, q, alts, most):
    w = f.where()
    tag = "%s, sampled, %d training points, %d points and %d queries wanted, %s alternatives" % (f.qual, n, pts, q, alts)
    r1, r2 = "representative points are different points that are known", "as many different representative queries as asked for and possible"
    script, unknown, bad = Script(), 0, {}
    size = 2 if alts in (None, 1) else alts
    cand = 3
    total = n if n >= 4 else n + cand
    npts = min(total, pts)
    nq = min(q, math.comb(npts, size))
    for cases in range(most):
        script.mixed = True
        script.start()
        run = Run(check)
        hook_draws(run, script)
        L = acquisition(run, n, alts, rep_Q_method=K("sampled"), rep_Q_data=run.st.new(VDict([(K("num_pts"), C(pts)), (K("num_Q"), C(q))])))
        try:
            v = run.call(L, "get_representative_Q", run.arr("cand", C(cand), D))
        except Empty as e:
            bad.setdefault(r1, str(e))
            break
        if run.I.excs:
            bad.setdefault(r1, "the call fails")
            break
        more = impossible(check, run)
        if more:
            bad.setdefault(r2, more)
            break
        if not isinstance(v, VTuple) or len(v.items) != 2:
            unknown += 1
            script.next(True)
            continue
        P, Q = run.get(v.items[0]), table(run, v.items[1])
        org = origins(run, P)
        if org is None or Q is None:
            unknown += 1
        else:
            if len(set(org)) != len(org) or len(org) != npts:
                bad.setdefault(r1, "points %s" % (org,))
            sets = {frozenset(x) for x in Q}
            if len(Q) != nq or len(sets) != len(Q) or any(len(set(x)) != size or not set(x) <= set(range(len(org))) for x in Q):
                bad.setdefault(r2, "queries %s of %d points" % (Q, len(org)))
        if not script.next(True):
            break
    for rule in (r1, r2):
        check.ob(rule, tag, w, "refuted" if rule in bad else "unknown" if unknown > most // 3 else "proved", bad.get(rule, "%d sequences of draws, %d not resolved" % (cases + 1, unknown)))


def origins(run, P):
    """which training points or candidates the rows are"""
    if not isinstance(P, Arr) or P.rank != 2 or not isnum(P.dims[0]):
        return None
    out = []
    j = IV()
    for i in range(int(P.dims[0].args[0])):
        t = P.at(C(i), j)
        if not (isinstance(t, T) and t.op == "at" and t.args[0] in ("X", "cand") and t.args[2] is j):
            return None
        c = I_const(t.args[1])
        if c is None:
            return None
        out.append((t.args[0], int(c)))
    return out


def stable_queries(check, f, per, alts):
    w = f.where()
    tag = "%s, stable, %d points in each environment, %s alternatives" % (f.qual, per, alts)
    size = 2 if alts in (None, 1) else alts
    run = Run(check)
    run.I.exthooks["numpy.load"] = lambda I, st, a, kw, nd: st.new(sym_arr("X", (C(10 * per), D)))
    L = acquisition(run, 4, alts, rep_Q_method=K("stable"), rep_Q_data=run.st.new(VDict([(K("filename"), K("file"))])))
    v = run.call(L, "get_representative_Q", run.arr("cand", C(3), D))
    rule = "stable queries are all queries within each environment"
    if run.I.excs:
        check.ob(rule, tag, w, "refuted", "the call fails")
        return
    Q = table(run, v.items[1]) if isinstance(v, VTuple) and len(v.items) == 2 else None
    org = origins(run, run.get(v.items[0])) if isinstance(v, VTuple) and len(v.items) == 2 else None
    o = run.get(v.items[1]) if isinstance(v, VTuple) and len(v.items) == 2 else None
    if Q is None and isinstance(o, Arr) and o.rank == 2 and isnum(o.dims[0]) and isnum(o.dims[1]):
        left = [i for i in range(int(o.dims[0].args[0])) if "uninit" in show(o.at(C(i), ZERO))[:12]]
        if left:
            check.ob(rule, tag, w, "refuted", "the queries %s are never written" % left)
            return
    if Q is None or org is None:
        check.ob(rule, tag, w, "unknown", "%r" % (v,))
        return
    want = sorted(tuple(e * per + x for x in c) for e in range(10) for c in itertools.combinations(range(per), size))
    check.ok(rule, tag, w, sorted(tuple(sorted(x)) for x in Q) == want and org == [("X", i) for i in range(10 * per)], "queries %s" % Q[:12])


def table(run, v, st=None):
    """rows of a constant matrix"""
    o = (st or run.st).get(v)
    if isinstance(o, Arr) and o.rank == 2:
        if o.dims[0] is ZERO:
            return []
        c = run.I.consts(o)
        return None if c is None else [list(r) for r in c]
    return None


def unique_sets(check, f, s, num, size, most):
    w = f.where()
    tag = "%s, %d of size %d from %s" % (f.qual, num, size, s)
    rule = "as many different sets as asked for"
    script, unknown = Script(), 0
    pop = set(range(s) if isinstance(s, int) else s)
    for cases in range(most):
        script.mixed = True
        script.start()
        run = Run(check)
        hook_draws(run, script)
        try:
            v = run.fn(f, C(s) if isinstance(s, int) else carr(run, s, "i"), C(num), C(size))
        except Empty as e:
            check.ob(rule, tag, w, "refuted", str(e))
            return
        if run.I.excs:
            check.ob(rule, tag, w, "refuted", "the call fails")
            return
        got = table(run, v)
        if got is None:
            # draws that repeat themselves for longer than the loop is followed
            unknown += 1
            if unknown > most // 3:
                break
            script.next(True)
            continue
        sets = {frozenset(r) for r in got}
        if len(got) != num or len(sets) != num or any(len(set(r)) != size or not set(r) <= pop for r in got):
            check.ob(rule, tag, w, "refuted", "%s" % got)
            return
        if not script.next(True):
            break
    check.ob(rule, tag, w, "unknown" if unknown > most // 3 else "proved", "%d sequences of draws, %d of them too long to follow" % (cases + 1, unknown))
