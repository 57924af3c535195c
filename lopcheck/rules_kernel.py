"""C01 C02 C04 and the kernel part of C03."""
import ast
from .rule import *

OFF = div(C(1), C(1000000))

PROBE = '''
import numpy as np
from lop.kernels import KernelFunc

class _Probe(KernelFunc):
    def __init__(self, a, b):
        self.a = a
        self.b = b
    def set_param(self, theta):
        self.a = theta[0]
        self.b = theta[1]
    def get_param(self):
        return np.array([self.a, self.b])
    def __call__(self, u, v):
        return self.a * np.exp(-self.b * np.sum(np.abs(u - v)))
    def gradient(self, u, v):
        t = np.sum(np.abs(u - v))
        e = np.exp(-self.b * t)
        return np.array([e, -self.a * t * e])
    def __len__(self):
        return 2
'''


def leaf_kernels(repo):
    base = repo.cls("KernelFunc")
    out = []
    for c in repo.subclasses(base):
        if c is base or c.name == "DualKern":
            continue
        if repo.method(c, "__call__") is None or repo.method(c, "__call__").cls is base:
            continue
        out.append(c)
    if len(out) < 4:
        raise AnalysisBroken("only %d kernels found" % len(out))
    return out


def ctor_args(cls, repo, tag):
    f = repo.method(cls, "__init__")
    if f is None:
        return []
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args][1:]
    k = len(names) - len(a.defaults)
    return [S("%s_%s" % (tag, n), True) for n in names[:k]]


def build(run, cls, tag):
    return run.new(cls, *ctor_args(cls, run.check.repo, tag))


def combos(check):
    """(name, builder(run) -> kernel value)"""
    repo = check.repo
    leaves = leaf_kernels(repo)
    out = []
    for c in leaves:
        out.append((c.name, lambda run, c=c: build(run, c, "a"), "leaf"))
    repo.add_source("lopcheck_probe", PROBE)
    pc = repo.classes["_Probe"]
    out.append(("KernelFunc(base methods)", lambda run: build(run, pc, "a"), "probe"))

    def dual(op, x, y):
        def b(run):
            return run.I.binop(op, x(run), y(run), run.st, None)
        return b

    def leaf(n, tag):
        c = repo.classes.get(n)
        if c is None:
            raise AnalysisBroken("class %s not found" % n)
        return lambda run: build(run, c, tag)
    R, P, L, Z, Q = "RBF_kern", "PeriodicKern", "LinearKern", "RBF_kern_zeroed", "_Probe"
    for op, sg in (("Add", "+"), ("Mult", "*")):
        for x, y in ((R, P), (L, R), (P, L), (Z, L), (Q, R), (R, Q)):
            out.append(("DualKern(%s %s %s)" % (x, sg, y), dual(op, leaf(x, "a"), leaf(y, "b")), "dual"))
    out.append(("DualKern((%s * %s) + %s)" % (R, P, L), dual("Add", dual("Mult", leaf(R, "a"), leaf(P, "b")), leaf(L, "c")), "dual"))
    out.append(("DualKern(%s * (%s + %s))" % (L, R, P), dual("Mult", leaf(L, "a"), dual("Add", leaf(R, "b"), leaf(P, "c"))), "dual"))
    out.append(("DualKern((%s + %s) * (%s + %s))" % (L, R, P, R),
                dual("Mult", dual("Add", leaf(L, "a"), leaf(R, "b")), dual("Add", leaf(P, "c"), leaf(R, "d"))), "dual"))
    return out


def theta_of(run, kern, n, off=False, nm="t"):
    ts = [S("%s%d" % (nm, i), True) for i in range(n)]
    run.call(kern, "set_param", run.vec(*[add(OFF, t) if off else t for t in ts]))
    return ts


def plen(run, kern):
    """length of the hyper-parameter vector"""
    v = run.get(run.call(kern, "get_param"))
    if isinstance(v, VList) or isinstance(v, VTuple):
        v = as_array(v, run.st)
    if isinstance(v, Arr) and v.rank == 1:
        d = norm(v.dims[0])
        c = pc_const(d)
        if c is not None:
            return int(c)
    return None


def pc_const(p):
    if not p.terms:
        return 0
    if len(p.terms) == 1 and not p.terms[0][0]:
        return p.terms[0][1]
    return None


def mref(repo, kern_st, kern, name):
    o = kern_st.get(kern)
    f = repo.method(o.cls, name) if isinstance(o, VObj) else None
    return f.where() if f else "src/lop/kernels"


def points(run, form):
    """(u, v, X, Y, row(X, i)) symbolic points"""
    if getattr(run, "pts", None) is not None:
        return run.pts
    if form == "vector":
        return run.arr("u", D), run.arr("v", D), run.arr("X", N, D), run.arr("Y", M, D)
    return S("u"), S("v"), run.arr("X", N), run.arr("Y", M)


def rows(run, form, X, i, nm):
    if form == "vector":
        iv = IV()
        return run.st.new(Arr((iv,), (D,), AT(nm, i, iv)))
    return AT(nm, i)


def warm_up(run, k, form, q):
    """earlier use of the kernel on other points"""
    if form == "vector":
        u, v, X, Y = run.arr("wu" + q, D), run.arr("wv" + q, D), run.arr("wX" + q, N, D), run.arr("wY" + q, M, D)
    else:
        u, v, X, Y = S("wu" + q), S("wv" + q), run.arr("wX" + q, N), run.arr("wY" + q, M)
    run.I.call(k, [u, v], {}, run.st, None)
    for m in ("cov", "cov_gradient"):
        run.call(k, m, X, Y)
    run.call(k, "gradient", u, v)


def setup(check, b, form, off=False, warm=False):
    """a kernel with the hyper-parameters t0, t1, ...; warm: that has been used before"""
    run = Run(check)
    k = b(run)
    n = plen(run, k)
    if warm:
        warm_up(run, k, form, "1")
    ts = theta_of(run, k, n, off) if n is not None else None
    if warm:
        warm_up(run, k, form, "2")
        # the points asked about are those asked about before, with other hyper-parameters
        theta_of(run, k, n, off, "old") if n is not None else None
        run.pts = points(run, form)
        u, v, X, Y = run.pts
        for q in ([u, v], [v, u]):
            run.I.call(k, q, {}, run.st, None)
            run.call(k, "gradient", *q)
        for q in ([X, Y], [X, X], [Y, X], [X, Y]):
            run.call(k, "cov", *q)
            run.call(k, "cov_gradient", *q)
        ts = theta_of(run, k, n, off) if n is not None else None
        run.I.errors.clear()
        run.I.events.clear()
    return run, k, n, ts


def c01(check):
    repo = check.repo
    for name, b, kind in combos(check):
        for form, warm in (("vector", False), ("scalar", False), ("vector", True), ("scalar", True)):
            tag = "%s [%s points%s]" % (name, form, ", used before" if warm else "")

            def go(name=name, b=b, form=form, tag=tag, warm=warm):
                run, k, n, ts = setup(check, b, form, warm=warm)
                if n is None:
                    check.ob("hyper vector length", tag, None, "unknown", "not constant")
                    return
                u, v, X, Y = points(run, form)
                # one pair of points
                r = run.fork()
                kv = r.I.call(k, [u, v], {}, r.st, None)
                kv = scalar_of(kv, r.st)
                r2 = run.fork()
                g = r2.call(k, "gradient", u, v)
                w = mref(repo, run.st, k, "gradient")
                if check.no_errors(r2.I, "gradient runs", tag + ".gradient") and check.no_errors(r.I, "covariance runs", tag + ".__call__"):
                    if not isinstance(kv, T):
                        check.ob("gradient is the derivative", tag + ".gradient", w, "unknown", "covariance not resolved: %r" % (kv,))
                    else:
                        kp = norm(kv)
                        comps_check(check, "gradient is the derivative", tag + ".gradient", w, g, r2.st, n,
                                    lambda j: ((), lambda: pdiff(kp, ("s", "t%d" % j))))
                # two sets
                for same_set in (False, True):
                    YY = X if same_set else Y
                    r3 = run.fork()
                    gm = r3.call(k, "cov_gradient", X, YY)
                    t3 = tag + (".cov_gradient(X, X)" if same_set else ".cov_gradient(X, Y)")
                    w = mref(repo, run.st, k, "cov_gradient")
                    if not check.no_errors(r3.I, "gradient runs", t3):
                        continue
                    i, j = IV(), IV()
                    r4 = run.fork()
                    kij = scalar_of(r4.I.call(k, [rows(r4, form, X, i, "X"), rows(r4, form, YY, j, "X" if same_set else "Y")], {}, r4.st, None), r4.st)
                    if not isinstance(kij, T):
                        check.ob("gradient is the derivative", t3, w, "unknown", "covariance not resolved: %r" % (kij,))
                        continue
                    kp = norm(kij)
                    r5 = run.fork()
                    km = r5.get(r5.call(k, "cov", X, YY))
                    mp = norm(km.at(i, j)) if isinstance(km, Arr) and km.rank == 2 else None

                    def entry(q):
                        ds = [pdiff(x, ("s", "t%d" % q)) for x in (kp, mp) if x is not None]
                        return ((N, N if same_set else M), lambda a, c: [subst_iv(d, {i: a, j: c}) for d in ds])
                    comps_check(check, "gradient is the derivative", t3, w, gm, r3.st, n, entry)
            first = len(check.obs)
            check.guard("gradient is the derivative", tag, None, go)
            if not warm:
                check.guard("gradient matrix of a given number of points", tag, None, small_sets, check, b, form, tag, first, True)


def small_sets(check, b, form, tag, first, grad):
    """what could not be decided for sets of any size is tried for two and three points: only a difference counts"""
    if not any(o[3] == "unknown" and str(o[1]).startswith(tag) for o in check.obs[first:]):
        return
    run, k, n, ts = setup(check, b, form)
    rule = "gradient matrix of a given number of points" if grad else "matrix of a given number of points"
    if n is None:
        return
    for nx, ny in ((2, 2), (2, 3), (3, 3), (2, None), (3, None)):
        r = run.fork()
        mk = lambda nm, c: r.arr(nm, C(c), D) if form == "vector" else r.arr(nm, C(c))
        X = mk("X", nx)
        Y = X if ny is None else mk("Y", ny)
        ny_, yn = (nx, "X") if ny is None else (ny, "Y")
        o = r.get(r.call(k, "cov_gradient" if grad else "cov", X, Y))
        parts = None
        if grad:
            if isinstance(o, (VTuple, VList)):
                its = o.items if isinstance(o, VTuple) else (o.items() if o.static else [])
                parts = [r.get(x) for x in its]
                parts = parts if len(parts) == n and all(isinstance(x, Arr) and x.rank == 2 for x in parts) else None
            elif isinstance(o, Arr) and o.rank == 3 and pc_const(norm(o.dims[0])) == n:
                parts = [o] * n
        elif isinstance(o, Arr) and o.rank == 2:
            parts = [o]
        if not parts:
            continue
        for i in range(nx):
            for j in range(ny_):
                q = run.fork()
                kij = scalar_of(q.I.call(k, [rows(q, form, X, C(i), "X"), rows(q, form, Y, C(j), yn)], {}, q.st, None), q.st)
                if not isinstance(kij, T) or (not grad and ny is None and i == j):
                    continue
                kp = norm(kij)
                for h, x in enumerate(parts):
                    got = norm(x.at(C(h), C(i), C(j)) if x.rank == 3 else x.at(C(i), C(j)))
                    want = pdiff(kp, ("s", "t%d" % h)) if grad else kp
                    if ny is not None:
                        got = psubst(got, {a: PZERO for a in inds(got) if never_same(ATOM[a][1])})
                    if decide(got, want)[0] == "refuted":
                        check.equal(rule, "%s entry %d, %d of %d x %s%s" % (tag, i, j, nx, ny or "the same", ", component %d" % h if grad else ""),
                                    mref(check.repo, run.st, k, "cov_gradient" if grad else "cov"), got, want)
                        return


def subst_iv(p, m):
    """substitute index variables in a canonical form"""
    return psubst(p, {atom_id(_ivatom(k)): norm(v) for k, v in m.items()})


def _ivatom(iv):
    (m, c), = norm(iv).terms
    return ATOM[m[0][0]]


def scalar_of(v, st):
    o = st.get(v)
    if isinstance(o, Arr) and o.rank == 0:
        return o.body
    return o


def comps_check(check, rule, construct, where, g, st, n, entry):
    """g: one component per hyper-parameter along the first axis, component j = entry(j)"""
    o = st.get(g)
    if o is NONE:
        check.ob(rule, construct, where, "refuted", "returns nothing")
        return
    if isinstance(o, (VTuple, VList)):
        items = o.items if isinstance(o, VTuple) else (o.items() if o.static else None)
        if items is None:
            check.ob(rule, construct, where, "unknown", "components not resolved")
            return
        cnt, comp = len(items), lambda j: st.get(items[j])
    elif isinstance(o, Arr):
        if o.rank == 0:
            check.ob(rule, construct, where, "refuted", "a single number instead of one component per hyper-parameter")
            return
        c = pc_const(norm(o.dims[0]))
        if c is None:
            s, _ = decide(norm(o.dims[0]), norm(C(n)))
            check.ob(rule, construct, where, s if s == "refuted" else "unknown",
                     "first axis of the result has length %s; one component per hyper-parameter (%d) required" % (show(o.dims[0]), n))
            return
        cnt = int(c)

        def comp(j):
            ivs = tuple(IV() for _ in o.dims[1:])
            return Arr(ivs, o.dims[1:], o.at(C(j), *ivs)) if ivs else o.at(C(j))
    else:
        check.ob(rule, construct, where, "unknown", "not resolved: %r" % (o,))
        return
    if cnt != n:
        check.ob(rule, construct, where, "refuted", "%d components, but %d hyper-parameters" % (cnt, n))
        return
    for j in range(n):
        dims, f = entry(j)
        check.arr_equal(rule, "%s component %d" % (construct, j), where, comp(j), st, list(dims), f)


# ---------------------------------------------------------------- C02
def c02(check):
    repo = check.repo
    for name, b, kind in combos(check):
        for form, warm in (("vector", False), ("scalar", False), ("vector", True), ("scalar", True)):
            tag = "%s [%s points%s]" % (name, form, ", used before" if warm else "")
            first = len(check.obs)
            check.guard("matrix is pointwise", tag, None, c02_one, check, name, b, kind, form, tag, warm)
            if not warm:
                check.guard("matrix of a given number of points", tag, None, small_sets, check, b, form, tag, first, False)
    # sums and products
    ops(check)


def c02_one(check, name, b, kind, form, tag, warm=False):
    repo = check.repo
    run, k, n, ts = setup(check, b, form, warm=warm)
    u, v, X, Y = points(run, form)
    wc = mref(repo, run.st, k, "cov")
    w0 = mref(repo, run.st, k, "__call__")
    i, j = IV(), IV()

    def pt(rr, A, q, nm):
        return rows(rr, form, A, q, nm)
    # pointwise symmetric
    ra, rb = run.fork(), run.fork()
    kuv = scalar_of(ra.I.call(k, [u, v], {}, ra.st, None), ra.st)
    kvu = scalar_of(rb.I.call(k, [v, u], {}, rb.st, None), rb.st)
    if check.no_errors(ra.I, "covariance runs", tag + ".__call__"):
        if isinstance(kuv, T) and isinstance(kvu, T):
            check.equal("pointwise covariance is symmetric", tag, w0, kuv, norm(kvu))
        else:
            check.ob("pointwise covariance is symmetric", tag, w0, "unknown", "%r" % (kuv,))
    # different sets
    r4 = run.fork()
    kij = scalar_of(r4.I.call(k, [pt(r4, X, i, "X"), pt(r4, Y, j, "Y")], {}, r4.st, None), r4.st)
    kxx = scalar_of(r4.I.call(k, [pt(r4, X, i, "X"), pt(r4, X, j, "X")], {}, r4.st, None), r4.st)
    if not isinstance(kij, T) or not isinstance(kxx, T):
        check.ob("matrix is pointwise", tag + ".cov", wc, "unknown", "covariance not resolved: %r" % (kij,))
        return
    kp, kxp = norm(kij), norm(kxx)
    r = run.fork()
    cv = r.call(k, "cov", X, Y)
    if not check.no_errors(r.I, "covariance runs", tag + ".cov"):
        return
    o = r.get(cv)
    if not isinstance(o, Arr):
        check.ob("matrix is pointwise", tag + ".cov(X, Y)", wc, "refuted" if o is NONE else "unknown", "not resolved: %r" % (o,))
        return
    if o.rank != 2 or not r.I.same_dims(o, Arr((i, j), (N, M), ZERO)):
        check.arr_equal("matrix is pointwise", tag + ".cov(X, Y)", wc, o, r.st, [N, M], lambda a, c: subst_iv(kp, {i: a, j: c}))
        return
    E = padd(norm(o.at(i, j)), pneg(kp))
    gates = [a for a in inds(E) if same_set_gate(a, form)]
    E0 = psubst(E, {a: PZERO for a in gates})
    if is_zero(E0):
        check.ob("matrix is pointwise", tag + ".cov(X, Y)", wc, "proved",
                 "%d gate(s) 'the sets are equal'" % len(gates))
    else:
        check.equal("matrix is pointwise", tag + ".cov(X, Y)", wc, o.at(i, j), kp)
        # families of set pairs that agree in part
        check_families(check, k, run, kp, i, j, form, tag, wc)
    if gates or not is_zero(E0):
        check_families(check, k, run, kp, i, j, form, tag, wc, ("close",))
    if not warm:
        check_families(check, k, run, kp, i, j, form, tag, wc, ("origin",))
        r, q = run.fork(), run.fork()
        a, b = IV(), IV()
        twin = (lambda: r.st.new(Arr((a, b), (N, D), AT("X", a, b)))) if form == "vector" else (lambda: r.st.new(Arr((a,), (N,), AT("X", a))))
        one, two = r.get(r.call(k, "cov", twin(), twin())), q.get(q.call(k, "cov", X, X))
        if isinstance(one, Arr) and isinstance(two, Arr) and one.rank == two.rank == 2:
            check.equal("noise whenever the sets hold the same points", tag + ".cov", wc, one.at(i, j), norm(two.at(i, j)))
    # the same set
    r = run.fork()
    cv = r.get(r.call(k, "cov", X, X))
    if not isinstance(cv, Arr):
        check.ob("noise only on the diagonal", tag + ".cov(X, X)", wc, "unknown", "%r" % (cv,))
        return
    E = padd(norm(cv.at(i, j)), pneg(kxp))
    off = assume_ne(E, i, j)
    check.equal("noise only on the diagonal", tag + ".cov(X, X) off the diagonal", wc, off, PZERO)
    if kind in ("leaf", "probe"):
        dg = subst_iv(E, {j: i})
        bad = [a for a in all_atoms(dg) if ATOM[a][0] == "at"]
        if is_zero(dg):
            check.ob("diagonal noise is one constant", tag, wc, "proved", "none")
        else:
            dd = subst_iv(dg, {i: S("i2", False, "int")})
            s, info = decide(dg, dd)
            check.ob("diagonal noise is one constant", tag, wc, "proved" if not bad else s if s != "proved" else "proved", pshow(dg)[:200])
            # it never lowers the variance
            sg = possign(dg)
            if sg is not None and sg < 0:
                check.ob("diagonal noise is not negative", tag, wc, "refuted", pshow(dg)[:200])
    # orientation
    r = run.fork()
    c2 = r.get(r.call(k, "cov", Y, X))
    if isinstance(c2, Arr) and c2.rank == 2:
        g2 = padd(norm(c2.at(j, i)), pneg(kp))
        gates = [a for a in inds(g2) if same_set_gate(a, form)]
        g2 = psubst(g2, {a: PZERO for a in gates})
        check.equal("exchanging the sets transposes the matrix", tag, wc, g2, PZERO)


def check_families(check, k, run, kp, i, j, form, tag, wc, fams=("first", "last")):
    """two different sets with the same first row / last row, or points that differ by very little, or one of which is
    the origin: no noise may appear"""
    says = {"first": "sets that share only their first row", "last": "sets that share only their last row", "close": "different sets of points close to each other",
            "origin": "the origin, and other points"}
    for fam in fams:
        r = run.fork()

        def part(nm):
            a, c = IV(), IV()
            if fam == "close":
                tiny = (lambda *q: mul(C(Fraction(1, 10 ** 9)), AT("Y", *q)) if nm == "Y" else ZERO)
                if form == "vector":
                    return r.st.new(Arr((a, c), (N, D), add(AT("X", a, c), tiny(a, c))))
                return r.st.new(Arr((a,), (N,), add(AT("X", a), tiny(a))))
            if fam == "origin":
                d0 = ONE if nm == "X" else M
                if form == "vector":
                    return r.st.new(Arr((a, c), (d0, D), ZERO if nm == "X" else AT(nm, a, c)))
                return r.st.new(Arr((a,), (d0,), ZERO if nm == "X" else AT(nm, a)))
            cond = eq(a, ZERO) if fam == "first" else eq(a, sub(N, ONE))
            if form == "vector":
                return r.st.new(Arr((a, c), (N, D), ite(cond, AT("p", c), AT(nm, a, c))))
            return r.st.new(Arr((a,), (N,), ite(cond, S("p"), AT(nm, a))))
        A, B = part("X"), part("Y")
        o = r.get(r.call(k, "cov", A, B))
        if not isinstance(o, Arr) or o.rank != 2:
            continue
        rr = r.fork()

        def row(R, q):
            x = rr.get(R)
            if form == "vector":
                c = IV()
                return rr.st.new(Arr((c,), (D,), x.at(q, c)))
            return x.at(q)
        kk = scalar_of(rr.I.call(k, [row(A, i), row(B, j)], {}, rr.st, None), rr.st)
        if isinstance(kk, T):
            # separated only on unequal sets: valuations give X and Y unrelated entries; N >= 2
            ii = ZERO if fam == "origin" else i
            got, want = norm(o.at(ii, j)), norm(kk)
            if fam in ("close", "origin"):
                # two different sets: entries that differ decide 'the sets are equal'
                want = subst_iv(want, {i: ii})
                cl = {a: PZERO for a in inds(got) if ATOM[a][0] == "ind" and never_same(ATOM[a][1])}
                got = psubst(got, cl)
            s, info = decide(got, want, {"N": 3})
            if s == "refuted":
                check.ob("noise only when the sets are the same", "%s.cov (%s)" % (tag, says[fam]), wc,
                         "refuted", "entry differs from the pointwise covariance although the sets differ: %s" % (pshow(padd(got, pneg(want)))[:400]))
            else:
                check.ob("noise only when the sets are the same", "%s.cov (%s)" % (tag, says[fam]), wc, s, "")


def never_same(c):
    """a condition that is false in every one of a number of valuations (of sets that differ)"""
    vals = set()
    for sd in range(8):
        try:
            v = Valuation(sd, {"N": 3})
            for b in all_atoms_c(c):
                if ATOM[b][0] in ("iv", "B"):
                    v.bound[(ATOM[b][0], ATOM[b][1])] = sd % 2
            vals.add(bool(v.cond(c)))
        except (NoValue, KeyError, ZeroDivisionError, OverflowError, RecursionError):
            continue
    return vals == {False}


def inds(p):
    return [a for a in all_atoms(p) if ATOM[a][0] == "ind"]


def all_atoms(p, acc=None, seen=None):
    """every atom id in a canonical form, recursively"""
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen

    def go(x):
        if isinstance(x, Poly):
            if id(x) in seen:
                return
            seen.add(id(x))
            for m, _ in x.terms:
                for a, _e in m:
                    at(a)
        elif isinstance(x, tuple):
            for y in x:
                go(y)

    def at(a):
        if a in acc:
            return
        acc.add(a)
        for y in ATOM[a][1:]:
            go(y)
    go(p)
    return acc


def same_set_gate(a, form):
    """the gate implies that X and Y are equal as whole arrays"""
    txt = ashow(a, 0) if False else None
    c = ATOM[a][1]
    return implies_equal(c, form)


def implies_equal(c, form):
    if isinstance(c, tuple) and c and c[0] == "and":
        return any(implies_equal(x, form) for x in c[1])
    if isinstance(c, tuple) and c and c[0] == "not":
        x = c[1]
        return isinstance(x, tuple) and x and x[0] == "or" and any(implies_equal(cnot(y), form) for y in x[1])
    # all over every index of X == Y, in any form: mentions X[b..], Y[b..] at bound indices only
    ats = [ATOM[x] for x in all_atoms_c(c) if ATOM[x][0] == "at" and ATOM[x][1] in ("X", "Y")]
    names = {x[1] for x in ats}
    if names != {"X", "Y"}:
        return False
    for x in ats:
        for ix in x[2]:
            if not (len(ix.terms) == 1 and len(ix.terms[0][0]) == 1 and ATOM[ix.terms[0][0][0][0]][0] in ("B", "iv")):
                return False
    reds = [ATOM[x] for x in all_atoms_c(c) if ATOM[x][0] in ("red", "sum")]
    return bool(reds)


def all_atoms_c(c):
    acc = set()

    def go(x):
        if isinstance(x, Poly):
            acc.update(all_atoms(x))
        elif isinstance(x, tuple):
            for y in x:
                go(y)
    go(c)
    return acc


def assume_ne(p, i, j):
    """canonical form under i != j"""
    d = norm(fn("delta_probe", i, j)) if False else None
    e = norm(ite(eq(i, j), ONE, ZERO))
    (m, c), = e.terms
    return psubst(p, {m[0][0]: PZERO})


def ops(check):
    """a + b and a * b build the sum and the product"""
    repo = check.repo
    for op, sg in (("Add", "+"), ("Mult", "*")):
        for x, y in (("RBF_kern", "PeriodicKern"), ("LinearKern", "RBF_kern")):
            tag = "%s %s %s" % (x, sg, y)

            def go():
                run = Run(check)
                a = build(run, repo.cls(x), "a")
                b = build(run, repo.cls(y), "b")
                k = run.I.binop(op, a, b, run.st, None)
                f = add if op == "Add" else mul
                for form in ("vector", "scalar"):
                    u, v, X, Y = points(run, form)
                    w = mref(repo, run.st, k, "__call__")
                    r = run.fork()
                    vals = [scalar_of(r.I.call(q, [u, v], {}, r.st, None), r.st) for q in (k, a, b)]
                    if all(isinstance(z, T) for z in vals):
                        check.equal("sum and product are those of the parts", tag + " pointwise [%s]" % form, w, vals[0], f(vals[1], vals[2]))
                    else:
                        check.ob("sum and product are those of the parts", tag + " pointwise [%s]" % form, w, "unknown", repr(vals[0]))
                    for nm, YY, dd in (("cov(X, Y)", Y, (N, M)), ("cov(X, X)", X, (N, N))):
                        r = run.fork()
                        ms = [r.get(r.call(q, "cov", X, YY)) for q in (k, a, b)]
                        w = mref(repo, run.st, k, "cov")
                        if all(isinstance(z, Arr) for z in ms):
                            check.arr_equal("sum and product are those of the parts", "%s %s [%s]" % (tag, nm, form), w, ms[0], r.st, list(dd),
                                            lambda p, q: f(ms[1].at(p, q), ms[2].at(p, q)))
                        else:
                            check.ob("sum and product are those of the parts", "%s %s [%s]" % (tag, nm, form), w, "unknown", repr(ms[0]))
            check.guard("sum and product are those of the parts", tag, None, go)


# ---------------------------------------------------------------- C04
def c04(check):
    repo = check.repo
    x, k, th = S("x", True), S("k", True), S("theta", True)
    xo = add(OFF, x)

    def dens():
        run = Run(check)
        f1, f2, f3 = (repo.func(n) for n in ("pdf_gamma", "log_pdf_gamma", "d_log_pdf_gamma"))
        p, lp, dp = (scalar_of(run.fn(f, xo, k, th), run.st) for f in (f1, f2, f3))
        for f, v in ((f1, p), (f2, lp), (f3, dp)):
            if not isinstance(v, T):
                check.ob("gamma density resolved", f.qual, f.where(), "refuted" if v is NONE else "unknown", repr(v))
                return
        # the gamma density itself: x^(k-1) e^(-x/theta) / (Gamma(k) theta^k)
        ref = sub(sub(mul(sub(k, ONE), fn("log", xo)), div(xo, th)), add(fn("gammaln", k), mul(k, fn("log", th))))
        check.equal("density is the gamma density", "pdf_gamma", f1.where(), fn("log", p), ref)
        check.equal("log-density is the logarithm of the density", "log_pdf_gamma", f2.where(), lp, fn("log", p))
        check.equal("log-density is the gamma log-density", "log_pdf_gamma", f2.where(), lp, ref)
        check.equal("reported derivative is the derivative", "d_log_pdf_gamma", f3.where(), dp, pdiff(norm(lp), ("s", "x")))
        # arrays
        A = run.st.new(Arr((IV("i"),), (N,), add(OFF, AT("xs", IV("i")))))
        iv = IV()
        run.st.put(A, Arr((iv,), (N,), add(OFF, AT("xs", iv))))
        ARRAYS["xs"] = dict(ARRAYS.get("xs", {}), sort="pos")
        for f, v in ((f1, p), (f2, lp), (f3, dp)):
            r = run.fork()
            o = r.fn(f, A, k, th)
            check.arr_equal("elementwise on arrays", f.qual, f.where(), o, r.st, [N], lambda a: tsubst(v, {x: AT("xs", a)}))
    check.guard("gamma density resolved", "gamma_dist", None, dens)

    for name, b, kind in combos(check):
        if kind == "probe" or "_Probe" in name:
            continue
        check.guard("prior gradient is the derivative", name, None, c04_kernel, check, name, b, kind)
    from .rules_probit import mk_pref, mk_abs
    for tag, f, n in (("PreferenceProbit", mk_pref, 1), ("AbsBoundProbit", mk_abs(False), 2), ("AbsBoundProbit (v only)", mk_abs(True), 1)):
        check.guard("prior gradient is the derivative", tag, None, c04_likelihood, check, tag, f, n)


def c04_likelihood(check, tag, build_, n):
    """the log-prior of a likelihood's own parameters and its gradient"""
    run = Run(check)
    p = build_(run)
    run.call(p, "set_hyper", run.vec(*[add(OFF, S("t%d" % j, True)) for j in range(n)]))
    abstract_priors(run, p)
    w = mref(check.repo, run.st, p, "grad_param_likli")
    r = run.fork()
    v = scalar_of(r.call(p, "param_likli"), r.st)
    g = r.call(p, "grad_param_likli")
    if not check.no_errors(r.I, "prior runs", tag):
        return
    if not isinstance(v, T) or v is NONE:
        check.ob("prior gradient is the derivative", tag, w, "refuted" if v is NONE else "unknown", repr(v))
        return
    pp = norm(v)
    comps_check(check, "prior gradient is the derivative", tag, w, g, r.st, n, lambda j: ((), lambda: pdiff(pp, ("s", "t%d" % j))))


def abstract_priors(run, v):
    o = run.get(v)
    at = dict(o.attrs)
    for kk, x in at.items():
        if isinstance(x, T) and isnum(x) and kk.endswith(("_k", "_theta")):
            at[kk] = S("p_" + kk, True)
    run.st.put(v, VObj(o.cls, at, o.hooks, o.name))


def abstract_consts(run, v, seen=None, path="k"):
    """replace numeric constants stored on the object (prior shape, scale, ...) by symbols"""
    seen = set() if seen is None else seen
    o = run.get(v)
    if not isinstance(o, VObj) or v.id in seen:
        return
    seen.add(v.id)
    at = dict(o.attrs)
    for kk, x in at.items():
        if isinstance(x, T) and isnum(x):
            at[kk] = S("%s_%s" % (path, kk), True)
        elif isinstance(x, Ref):
            abstract_consts(run, x, seen, path + "_" + kk)
    run.st.put(v, VObj(o.cls, at, o.hooks, o.name))


def c04_kernel(check, name, b, kind):
    repo = check.repo
    run, k, n, ts = setup(check, b, "vector", off=True)
    if n is None:
        check.ob("prior gradient is the derivative", name, None, "unknown", "vector length")
        return
    abstract_consts(run, k)
    w = mref(repo, run.st, k, "param_likli")
    wg = mref(repo, run.st, k, "grad_param_likli")
    r = run.fork()
    pl = scalar_of(r.call(k, "param_likli"), r.st)
    if not check.no_errors(r.I, "prior runs", name + ".param_likli"):
        return
    if not isinstance(pl, T) or pl is NONE:
        check.ob("prior gradient is the derivative", name, w, "refuted" if pl is NONE else "unknown", repr(pl))
        return
    pp = norm(pl)
    r = run.fork()
    g = r.call(k, "grad_param_likli")
    if check.no_errors(r.I, "prior runs", name + ".grad_param_likli"):
        comps_check(check, "prior gradient is the derivative", name, wg, g, r.st, n,
                    lambda j: ((), lambda: pdiff(pp, ("s", "t%d" % j))))
    prior_draw(check, name, run, k, n, pp, ["t%d" % j for j in range(n)], mref(repo, run.st, k, "randomize_hyper"))


def prior_draw(check, name, run, k, n, pp, syms, w, call="randomize_hyper"):
    """the random draw uses the shape and scale of the prior of that very hyper-parameter"""
    r = run.fork()
    d = r.get(r.call(k, call))
    if not check.no_errors(r.I, "prior draw runs", name):
        return
    if isinstance(d, (VTuple, VList)):
        d = as_array(d, r.st)
    if d is NONE:
        check.ob("draw matches the prior", name, w, "refuted", "returns nothing")
        return
    if not isinstance(d, Arr) or d.rank != 1:
        check.ob("draw matches the prior", name, w, "unknown", repr(d))
        return
    c = pc_const(norm(d.dims[0]))
    if c is None or c != n:
        check.ob("draw matches the prior", name, w, "unknown" if c is None else "refuted",
                 "draw has %s entries, there are %d hyper-parameters" % (show(d.dims[0]), n))
        return
    evs = {e.data["sym"]: e for e in r.I.events if e.kind == "rng"}
    for j in range(n):
        p = norm(d.at(C(j)))
        src = [ATOM[a] for a in all_atoms(p) if ATOM[a][0] in ("s", "at") and str(ATOM[a][1]).startswith("rng")]
        cons = "%s entry %d" % (name, j)
        if len(src) != 1 or len(p.terms) != 1 or len(p.terms[0][0]) != 1 or p.terms[0][1] != 1:
            check.ob("draw matches the prior", cons, w, "unknown", pshow(p)[:200])
            continue
        e = evs.get(src[0][1])
        if e is None or e.data["name"] != "gamma":
            # the log-prior is a gamma density: any other distribution is wrong
            check.ob("draw matches the prior", cons, w, "refuted" if e is not None and e.data["name"] in (
                "normal", "uniform", "exponential", "beta", "random", "rand", "randn") else "unknown",
                "drawn with %s" % (e.data["name"] if e else "?"))
            continue
        a, kw = e.data["args"], e.data["kwargs"]
        sh = a[0] if a else kw.get("shape")
        sc = a[1] if len(a) > 1 else kw.get("scale", ONE)
        sh, sc = (scalar_of(z, r.st) for z in (sh, sc))
        if not (isinstance(sh, T) and isinstance(sc, T)):
            check.ob("draw matches the prior", cons, w, "unknown", "parameters not resolved")
            continue
        t = add(OFF, S(syms[j], True))
        want = sub(div(sub(sh, ONE), t), div(ONE, sc))
        check.equal("draw matches the prior", cons, e.where(), want, pdiff(pp, ("s", syms[j])))
