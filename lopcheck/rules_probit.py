"""C05 C06 C07 C08 C23 (likelihoods) and the likelihood part of C03."""
import itertools
from .rule import *
from .rules_kernel import (subst_iv, scalar_of, comps_check, pc_const, inds, all_atoms, mref, OFF, all_atoms_c)

n = S("n", True, "dim")           # number of observations
NL = S("NL", True, "dim")         # number of latent values
NO = S("n_ord", True, "dim")      # number of ordinal categories


def decl():
    ARRAYS.update({
        "F": {"sort": "real", "wide": 6},
        "d": {"sort": "sign"},
        "iu": {"sort": "int", "range": norm(NL)}, "jv": {"sort": "int", "range": norm(NL)},
        "ia": {"sort": "int", "range": norm(NL)}, "io": {"sort": "int", "range": norm(NL)},
        "ya": {"sort": "unit"},
        "yo": {"sort": "int", "range": norm(NO)},
        "ob": {"sort": "real"},
    })
    for x in ("F", "d", "iu", "jv", "ia", "io", "ya", "yo"):
        ARRAYS["w" + x] = dict(ARRAYS[x])


class Kind:
    """one kind of feedback: how to build the probit and symbolic labels"""

    def __init__(self, name, cls, build, labels, single, hypers, clip=None):
        self.name, self.cls, self.build, self.labels, self.single, self.hypers, self.clip = \
            name, cls, build, labels, single, hypers, clip


def pref_y(run, cnt=n, sub_=None, pre=""):
    a, b = IV(), IV()
    row = (lambda nm: AT(pre + nm, a)) if sub_ is None else (lambda nm: sub_[nm])
    return run.st.new(Arr((a, b), (cnt, C(3)), ite(eq(b, ZERO), row("d"), ite(eq(b, ONE), row("iu"), row("jv"))), "int"))


def abs_y(run, cnt=n, sub_=None, pre=""):
    a, b = IV(), IV()
    g = (lambda nm, i: AT(pre + nm, i)) if sub_ is None else (lambda nm, i: sub_[nm])
    return VTuple([run.st.new(Arr((a,), (cnt,), g("ya", a), "float")), run.st.new(Arr((b,), (cnt,), g("ia", b), "int"))])


def ord_y(run, cnt=n, sub_=None, pre=""):
    a, b = IV(), IV()
    g = (lambda nm, i: AT(pre + nm, i)) if sub_ is None else (lambda nm, i: sub_[nm])
    # ratings are 1 .. n_ord
    return VTuple([run.st.new(Arr((a,), (cnt,), add(ONE, g("yo", a)), "int")), run.st.new(Arr((b,), (cnt,), g("io", b), "int"))])


def mk_pref(run, opt=True):
    return run.new("PreferenceProbit", S("sg", True), TRUE if opt else FALSE)


def mk_abs(v_only, opt=True):
    def f(run):
        return run.new("AbsBoundProbit", S("sg", True), S("vv", True), TRUE if opt else FALSE, TRUE if v_only else FALSE)
    return f


def mk_ord(run):
    p = run.new("OrdinalProbit")
    a = IV()
    f = run.check.repo.method(run.check.repo.cls("OrdinalProbit"), "set_sigma")
    if f is not None:
        run.call(p, "set_sigma", S("sg", True))
    run.set(p, n_ordinals=NO, eps=S("eps", True), b=run.st.new(Arr((a,), (add(NO, ONE),), AT("ob", a))))
    return p


SINGLE = {"pref": ("d", "iu", "jv"), "abs": ("ya", "ia"), "ord": ("yo", "io")}
SORT = {"d": "sign", "iu": "int", "jv": "int", "ia": "int", "io": "int", "ya": "unit", "yo": "int"}


def kinds(v_only=False):
    return [
        Kind("pref", "PreferenceProbit", mk_pref, pref_y, SINGLE["pref"], ["sg"]),
        Kind("abs", "AbsBoundProbit", mk_abs(v_only), abs_y, SINGLE["abs"], ["vv"] if v_only else ["sg", "vv"]),
        Kind("ord", "OrdinalProbit", mk_ord, ord_y, SINGLE["ord"], []),
    ]


def Fvec(run, name="F"):
    a = IV()
    return run.st.new(Arr((a,), (NL,), AT(name, a)))


ASK = ("log_likelihood", "derivatives", "grad_hyper", "calc_W_dHyper", "calc_W_dF", "likelihood", "calc_W", "derv_log_likelyhood", "get_alpha_beta", "mean_link",
       "likelihood_all_pairs")


def used(k):
    """the same kind of feedback, its likelihood having been used before: with other parameters, other labels, other latent values"""
    def build(run):
        p = k.build(run)
        for q, (sg, vv) in enumerate(((S("wsg", True), S("wvv", True)), (S("sg", True), S("vv", True)))):
            for meth, v in (("set_sigma", sg), ("set_v", vv)):
                if run.check.repo.method(run.check.repo.cls(k.cls), meth) is not None:
                    run.call(p, meth, v)
            F, y = Fvec(run, "wF"), k.labels(run, pre="w")
            F0, y0 = Fvec(run), k.labels(run)
            for a, b in ((y, F), (y0, F), (y, F0)):
                for meth in ASK:
                    f = run.check.repo.method(run.check.repo.cls(k.cls), meth)
                    if f is not None and f.cls.name == k.cls:
                        args = [a, b] if len(f.node.args.args) == 3 else [b]
                        run.call(p, meth, *args)
        run.I.errors.clear()
        run.I.events.clear()
        return p
    q = Kind(k.name, k.cls, build, k.labels, k.single, k.hypers)
    q.tag = getattr(k, "tag", "") + " [used before]"
    if hasattr(k, "case"):
        q.case = k.case
    return q


def pmap(p, f, memo=None):
    """replace atoms: f(atom id) -> Poly or None (recurse)"""
    memo = {} if memo is None else memo

    def at(a):
        if a in memo:
            return memo[a]
        r = f(a)
        if r is None:
            r = arebuild(ATOM[a], poly) if ATOM[a][0] not in ("s", "iv", "B", "n") else patom(ATOM[a])
        memo[a] = r
        return r

    def poly(q):
        out = PZERO
        for m, c in q.terms:
            t = pc(c)
            for a, e in m:
                t = pmul(t, ppow(at(a), norm_e(e)) if e != 1 else at(a))
            out = padd(out, t)
        return out
    return poly(p)


def norm_e(e):
    return e


def interior_ord(p, case=None, eps=Fraction(1, 10 ** 12)):
    """numerical guards of the ordinal likelihood inactive (or, with a large eps, all of them active), and ratings in their range (optionally of one class:
    'first', 'last' or 'middle' category)"""
    def yo_pos(q):
        """q == c * (yo[.] - v): v as (constant, multiple of the number of categories)"""
        yo, no, k0 = None, F0, F0
        for m, c in q.terms:
            if m == ():
                k0 += c
            elif len(m) == 1 and m[0][1] == 1 and ATOM[m[0][0]][0] == "s" and ATOM[m[0][0]][1] == NO.args[0]:
                no += c
            elif len(m) == 1 and m[0][1] == 1 and ATOM[m[0][0]][0] == "at" and ATOM[m[0][0]][1] == "yo" and yo is None:
                yo = c
            else:
                return None
        if yo is None:
            return None
        return -k0 / yo, -no / yo

    def test_eq(q):
        v = yo_pos(q)
        if v is None:
            return None
        k, m = v
        if (m == 0 and k < 0) or (m == 1 and k >= 0):
            return False
        if case is not None:
            if m == 0 and k == 0:
                return case == "first"
            if m == 1 and k == -1:
                return case == "last"
            if (m, k) in ((0, -1), (1, 0)):
                return False
        return None

    def gate(c):
        """a test against eps, decided as eps goes to zero from above"""
        ids = all_atoms_c(c)
        es = [x for x in ids if ATOM[x][0] == "s" and ATOM[x][1] == "eps"]
        if not es:
            return None
        c = cmap(c, poly)                      # the guards inside it first: only a test against eps itself is decided by samples
        if c is True or c is False:
            return c
        if es[0] not in all_atoms_c(c):
            return None
        z = cmap(c, lambda q: psubst(q, {es[0]: pc(eps)}))
        z = cmap(z, lambda q: poly(q))
        if z is True or z is False:
            return z
        vals = set()
        for sd in range(12):
            try:
                v = OrdVal(sd, {"n_ord": 4})
                for b in all_atoms_c(z):
                    if ATOM[b][0] == "B":
                        v.bound[(ATOM[b][0], ATOM[b][1])] = sd % 2
                    if ATOM[b][0] == "iv":
                        v.bound[(ATOM[b][0], ATOM[b][1])] = sd % 2
                v.case = case
                vals.add(bool(v.cond(z)))
            except (NoValue, KeyError, ZeroDivisionError, OverflowError):
                continue
        return vals.pop() if len(vals) == 1 else None

    def f(a):
        at = ATOM[a]
        if at[0] == "delta":
            v = test_eq(at[1])
            if v is not None:
                return PONE if v else PZERO
        if at[0] == "ind":
            c = at[1]
            g = gate(c)
            if g is not None:
                return PONE if g else PZERO
            return pif(cfix(c), PONE, PZERO)
        return None

    def cfix(c):
        if c is True or c is False:
            return c
        if c[0] == "eq0":
            v = test_eq(c[1])
            if v is not None:
                return v
            return ceq0(poly(c[1]))
        if c[0] == "not":
            return cnot(cfix(c[1]))
        if c[0] == "and":
            return cand([cfix(x) for x in c[1]])
        g = gate(c)
        return g if g is not None else cmap(c, poly)

    memo = {}

    def poly(q):
        return pmap(q, f, memo)
    return poly(p)


class OrdVal(Valuation):
    """valuation with increasing break points"""
    case = None

    def elem(self, at):
        if at[1] == "ob":
            k = self.idx(at[2][0])
            return -1.0 + 0.9 * k + 0.3 * self.h("ob", k)
        if at[1] == "yo" and self.case:
            n_ = 4
            return {"first": 0, "last": n_ - 1, "middle": 1 + int(2 * self.h("yo", tuple(self.idx(x) for x in at[2])))}[self.case]
        return super().elem(at)


def interior(kind, p):
    return interior_ord(p, getattr(kind, "case", None)) if kind.name == "ord" else p


def dF(p, m):
    return pdiff(p, ("at", "F", (norm(m),)))


def where_of(check, cls, name):
    f = check.repo.method(check.repo.cls(cls), name)
    return f.where() if f else None


def loglik(check, run, pr, kind, y, F):
    r = run.fork()
    v = scalar_of(r.call(pr, "log_likelihood", y, F), r.st)
    return v, r


SATURATED = Fraction(5)
TINY = Fraction(1, 1000)


def limits(check, I, con, w):
    """values are limited only where the likelihood is saturated: a standard score outside [-5, 5], a probability near 0 or 1"""
    for e in I.events:
        if e.kind != "clip":
            continue
        x = e.data["x"]
        t = x.at(*[IV() for _ in x.dims]) if isinstance(x, Arr) else x
        lo, hi = (norm(b).const() if isinstance(b, T) and b.op != "k" else None for b in (e.data["lo"], e.data["hi"]))
        if not isinstance(t, T) or lo is None or hi is None:
            check.ob("values are limited only where the likelihood is saturated", con, w, "unknown", "limits not resolved")
            continue
        prob = is_ndtr(norm(t))
        if prob or (lo >= 0 and hi <= 1):
            good = lo <= TINY and hi >= 1 - TINY and prob
        else:
            good = lo <= -SATURATED and hi >= SATURATED
        check.ok("values are limited only where the likelihood is saturated", con, w, good, "limited to [%s, %s]" % (lo, hi))


def is_ndtr(p):
    if len(p.terms) != 1:
        return False
    (m, c), = p.terms
    return c == 1 and len(m) == 1 and m[0][1] == 1 and ATOM[m[0][0]][:2] == ("fn", "ndtr")


def c05(check):
    decl()
    ks = kinds()
    for k in ks[2:]:
        for case in ("first", "middle", "last"):
            q = Kind(k.name, k.cls, k.build, k.labels, k.single, k.hypers)
            q.case, q.tag = case, " [%s category]" % case
            ks.append(q)
    ks = ks[:2] + ks[3:]
    ks += [used(k) for k in ks]
    r = Run(check)
    e = r.attr(r.new("OrdinalProbit"), "eps") if check.repo.cls("OrdinalProbit") else None
    if isinstance(e, T) and norm(e).const() is not None:
        check.ok("values are limited only where the likelihood is saturated", "OrdinalProbit.__init__ eps",
                 where_of(check, "OrdinalProbit", "__init__"), norm(e).const() <= TINY, "eps = %s" % norm(e).const())
    for k in ks:
        first = len(check.obs)
        check.guard("gradient is the derivative", k.cls + getattr(k, "tag", ""), where_of(check, k.cls, "derivatives"), c05_one, check, k)
        check.guard("derivatives for a given list of observations", k.cls + getattr(k, "tag", ""), None, small, check, k,
                    ("derivatives", "derv_log_likelyhood", "calc_W"), first)
        if getattr(k, "case", None) and "used" not in k.tag:
            check.guard("tail of the ordinal likelihood", k.cls + k.tag, where_of(check, k.cls, "derivatives"), c05_tail, check, k)


def c05_tail(check, k):
    """where the likelihood of a rating vanishes, the gradient and curvature take their limits: with the breakpoint b
    nearest to the point, d/dF log P -> (b - F) / sigma^2 and d2/dF2 log P -> -1 / sigma^2 (phi(z) / Phi(z) ~ -z)"""
    run = Run(check)
    pr = k.build(run)
    F = Fvec(run)
    y = k.labels(run)
    w = where_of(check, k.cls, "derivatives")
    r = run.fork()
    t = r.get(r.call(pr, "derivatives", y, F))
    if not isinstance(t, VTuple) or len(t.items) != 3:
        return
    Wo, go = r.get(t.items[0]), r.get(t.items[1])
    if not (isinstance(go, Arr) and go.rank == 1 and isinstance(Wo, Arr) and Wo.rank == 2):
        check.ob("limits in the tails", k.cls + k.tag, w, "unknown", "%r %r" % (go, Wo))
        return
    m, q, l = IV(), IV(), IV("l")
    eps = Fraction(10 ** 12)
    g = interior_ord(norm(go.at(m)), k.case, eps)
    W = interior_ord(norm(Wo.at(m, q)), k.case, eps)
    hit = lambda z: ite(eq(AT("io", l), z), ONE, ZERO)
    iv2 = div(ONE, mul(S("sg", True), S("sg", True)))
    upper, lower = AT("ob", add(ONE, AT("yo", l))), AT("ob", AT("yo", l))
    near = lambda b: norm(SUM(l, n, mul(hit(m), mul(iv2, sub(b, AT("F", AT("io", l)))))))
    wantW = norm(SUM(l, n, mul(mul(hit(m), hit(q)), iv2)))
    con = k.cls + k.tag
    if k.case != "middle":
        check.equal("gradient takes its limit where the likelihood vanishes", con, w, g, near(upper if k.case == "first" else lower))
        check.equal("curvature takes its limit where the likelihood vanishes", con, w, W, wantW)
        return
    exps = [a for a in set(all_atoms_p(g)) | set(all_atoms_p(W)) if ATOM[a][0] == "exp"]
    if not exps or not all(upper_square(ATOM[a][1]) for a in exps):
        check.ob("limits in the tails", con, w, "unknown", "weights of the two breakpoints not recognised")
        return
    for tag, big in (("far above its breakpoints", lambda c: c < 0), ("far below its breakpoints", lambda c: c > 0)):
        # far above: the upper breakpoint is the nearest; phi(upper)/phi(lower) is large
        def weight(a, big=big):
            if ATOM[a][0] == "exp":
                c = upper_square(ATOM[a][1])
                return pc(Fraction(10) ** int(80 * abs(c) * (1 if big(c) else -1))) if c else None
            return None
        lim = lambda p_: pround(pmap(p_, weight))
        check.equal("gradient takes its limit where the likelihood vanishes", con + " " + tag, w, lim(g),
                    near(upper if tag.startswith("far above") else lower))
        check.equal("curvature takes its limit where the likelihood vanishes", con + " " + tag, w, lim(W), wantW)


def upper_square(p):
    """the coefficient of the square of the upper breakpoint of a rating in an exponent"""
    best = None
    for mo, c in p.terms:
        for a, e in mo:
            at = ATOM[a]
            if at[0] == "at" and at[1] == "ob" and e == 2:
                k0 = sum((cc for mm, cc in at[2][0].terms if mm == ()), F0)
                if best is None or k0 > best[0]:
                    best = (k0, c)
    return best[1] if best and best[0] == 1 else None


def pround(p):
    def r(q):
        out = PZERO
        for mo, c in q.terms:
            c = Fraction(round(c * 10 ** 20), 10 ** 20)
            if c:
                out = padd(out, Poly.make({mo: c}))
        return out

    def at(a):
        if ATOM[a][0] in ("s", "iv", "B", "n"):
            return patom(ATOM[a])
        return arebuild(ATOM[a], lambda x: r(pmap(x, at)))
    return r(pmap(p, at))


def all_atoms_p(p):
    seen = set()

    def f(a):
        seen.add(a)
        return None
    pmap(p, f)
    return seen


def c05_one(check, k):
    run = Run(check)
    con = k.cls + getattr(k, "tag", "")
    pr = k.build(run)
    F = Fvec(run)
    y = k.labels(run)
    w = where_of(check, k.cls, "derivatives")
    wl = where_of(check, k.cls, "log_likelihood")
    r = run.fork()
    t = r.get(r.call(pr, "derivatives", y, F))
    if not check.no_errors(r.I, "derivatives run", con):
        return
    if t is NONE or not isinstance(t, VTuple) or len(t.items) != 3:
        check.ob("derivatives give curvature, gradient, log-likelihood", con, w, "refuted" if t is NONE or isinstance(t, VTuple) else "unknown", repr(t))
        return
    W, g, py = t.items
    py = scalar_of(py, r.st)
    ll, rl = loglik(check, run, pr, k, y, F)
    check.no_errors(rl.I, "log-likelihood runs", con)
    limits(check, r.I, con + ".derivatives", w)
    limits(check, rl.I, con + ".log_likelihood", wl)
    if not isinstance(py, T) or not isinstance(ll, T):
        check.ob("log-likelihood resolved", con, w, "unknown", "%r / %r" % (py, ll))
        return
    pp, lp = interior(k, norm(py)), interior(k, norm(ll))
    check.equal("log-likelihood with the derivatives is the one reported on its own", con, w, pp, lp)
    m, q = IV(), IV()
    base = lp
    d1 = dF(base, m)
    d2 = pneg(pdiff(d1, ("at", "F", (norm(q),))))
    go, Wo = r.get(g), r.get(W)
    arr_int(check, "gradient is the first derivative of the log-likelihood", k, w, go, r.st, [NL], {m: 0}, d1)
    arr_int(check, "curvature is the negative second derivative of the log-likelihood", k, w, Wo, r.st, [NL, NL], {m: 0, q: 1}, d2)
    # the separate functions of the pairwise likelihood agree
    for nm, ref, dims, iv in (("derv_log_likelyhood", d1, [NL], {m: 0}), ("calc_W", d2, [NL, NL], {m: 0, q: 1})):
        if check.repo.method(check.repo.cls(k.cls), nm) is not None:
            r2 = run.fork()
            o = r2.get(r2.call(pr, nm, y, F))
            arr_int(check, nm + " is the derivative of the log-likelihood", k, where_of(check, k.cls, nm), o, r2.st, dims, iv, ref)
    # likelihood is the exponential of the log-likelihood
    f = check.repo.method(check.repo.cls(k.cls), "likelihood")
    if f is not None:
        r3 = run.fork()
        lk = r3.get(r3.call(pr, "likelihood", y, F))
        if isinstance(lk, Arr) and lk.rank == 1:
            iv = IV()
            t = SUM(iv, lk.dims[0], fn("log", lk.at(iv)))
            check.equal("log-likelihood is the logarithm of the likelihood", con, f.where(), interior(k, norm(t)), lp)
        elif isinstance(scalar_of(lk, r3.st), T) and lk is not NONE:
            check.equal("log-likelihood is the logarithm of the likelihood", con, f.where(), interior(k, norm(fn("log", scalar_of(lk, r3.st)))), lp)


ROWS = {"pref": [[-1, 2, 0], [1, 0, 2], [1, 1, 2], [1, 0, 2], [-1, 0, 1]], "abs": [2, 0, 2, 1, 0]}


def small(check, k, methods, first):
    """what could not be decided for any number of observations is tried for a given short list of them over three latent
    values that stay symbolic: only a difference counts"""
    con = k.cls + getattr(k, "tag", "")
    if k.name not in ROWS or not any(o[3] == "unknown" and str(o[1]).startswith(k.cls) for o in check.obs[first:]):
        return
    w = where_of(check, k.cls, "derivatives")
    run = Run(check)
    pr = k.build(run)
    hs = [S("t%d" % i, True) for i in range(len(k.hypers))]
    run.call(pr, "set_hyper", run.vec(*hs))
    N_ = C(3)
    a, b = IV(), IV()
    F = run.st.new(Arr((a,), (N_,), AT("F", a)))
    rows = ROWS[k.name]
    if k.name == "pref":
        y = run.st.new(Arr((a, b), (C(len(rows)), C(3)), ZERO, "i"))
        y = run.I.from_rows(rows, run.get(y), run.st)
    else:
        y = VTuple([run.st.new(vec([S("u%d" % i, True, "unit") for i in range(len(rows))])), run.I.from_consts(rows, run.st)])
    ll, _ = loglik(check, run, pr, k, y, F)
    if not isinstance(ll, T):
        return
    lp = norm(ll)
    rule = "derivatives for a given list of observations"
    at = lambda i: ("at", "F", (norm(C(i)),))
    g1 = [pdiff(lp, at(i)) for i in range(3)]

    def ent(nm, o, idx, want):
        p = norm(o.at(*[C(i) for i in idx]))
        s, info = decide(p, want)
        if s == "refuted":
            check.equal(rule, "%s %s%s" % (con, nm, list(idx)), w, p, want)

    def cmp(nm, o, rank, want):
        if isinstance(o, Arr) and o.rank == rank:
            for idx in itertools.product(range(3), repeat=rank):
                ent(nm, o, idx, want(*idx))

    for meth in methods:
        f = check.repo.method(check.repo.cls(k.cls), meth)
        if f is None:
            continue
        r = run.fork()
        o = r.get(r.call(pr, meth, y, F))
        if meth == "derivatives" and isinstance(o, VTuple) and len(o.items) == 3:
            py = scalar_of(o.items[2], r.st)
            if isinstance(py, T) and decide(norm(py), lp)[0] == "refuted":
                check.equal(rule, con + " log-likelihood", w, norm(py), lp)
            cmp("gradient", r.get(o.items[1]), 1, lambda i: g1[i])
            cmp("curvature", r.get(o.items[0]), 2, lambda i, j: pneg(pdiff(g1[i], at(j))))
        elif meth == "derv_log_likelyhood":
            cmp(meth, o, 1, lambda i: g1[i])
        elif meth == "calc_W":
            cmp(meth, o, 2, lambda i, j: pneg(pdiff(g1[i], at(j))))
        elif meth == "calc_W_dF":
            cmp(meth, o, 3, lambda i, j, l: pneg(pdiff(pdiff(g1[i], at(j)), at(l))))
        elif meth in ("grad_hyper", "calc_W_dHyper") and isinstance(o, Arr) and o.rank in (1, 3) and pc_const(norm(o.dims[0])) == len(hs):
            for h in range(len(hs)):
                d = ("s", "t%d" % h)
                if o.rank == 1:
                    ent(meth, o, (h,), pdiff(lp, d))
                else:
                    for i, j in itertools.product(range(3), repeat=2):
                        ent(meth, o, (h, i, j), pneg(pdiff(pdiff(pdiff(lp, d), at(i)), at(j))))


def arr_int(check, rule, k, w, o, st, dims, ivpos, ref, tag=""):
    ks = list(ivpos)
    tag = getattr(k, "tag", "") + tag
    if isinstance(o, Arr) and o.rank == len(dims):
        ivs = [IV() for _ in dims]
        o = Arr(o.ivs, o.dims, o.body, o.dt)
        got = interior(k, norm(o.at(*ks)))
        bad = [i for i in range(len(dims)) if norm(o.dims[i]) is not norm(dims[i])]
        if bad:
            check.arr_equal(rule, k.cls + tag, w, o, st, dims, lambda *a: ref)
            return
        check.equal(rule, k.cls + tag, w, got, ref)
        return
    check.arr_equal(rule, k.cls + tag, w, o, st, dims, lambda *a: ref)


# ---------------------------------------------------------------- C06
def c06(check):
    decl()
    for k in kinds():
        for meth in ("log_likelihood", "derivatives"):
            check.guard("sum over observations", "%s.%s" % (k.cls, meth), where_of(check, k.cls, meth), c06_one, check, k, meth)
        for meth in ("grad_hyper", "calc_W_dF", "calc_W_dHyper"):
            f = check.repo.method(check.repo.cls(k.cls), meth)
            if f is not None and f.cls.name == k.cls:
                check.guard("sum over observations", "%s.%s" % (k.cls, meth), f.where(), c06_one, check, k, meth)
    for k in (kinds(True)[1],):
        for meth in ("grad_hyper", "calc_W_dHyper"):
            check.guard("sum over observations", "%s.%s (v only)" % (k.cls, meth), where_of(check, k.cls, meth), c06_one, check, k, meth, " (v only)")
    check.guard("fallback helpers agree", "PreferenceProbit", None, c06_fallback, check)
    check.guard("kinds of feedback add up", "PreferenceGP", None, c06_models, check)


def c06_one(check, k, meth, tag=""):
    run = Run(check)
    pr = k.build(run)
    F = Fvec(run)
    y = k.labels(run)
    w = where_of(check, k.cls, meth)
    r = run.fork()
    full = r.get(r.call(pr, meth, y, F))
    check.no_errors(r.I, "runs", "%s.%s%s" % (k.cls, meth, tag))
    # one observation
    one = {nm: S("one_" + nm, SORT[nm] == "unit", "int" if SORT[nm] in ("int", "sign") else "real") for nm in k.single}
    r1 = run.fork()
    y1 = k.labels(r1, ONE, one)
    single = r1.get(r1.call(pr, meth, y1, F))
    fs = full.items if isinstance(full, VTuple) else [full]
    ss = single.items if isinstance(single, VTuple) else [single]
    names = ["curvature", "gradient", "log-likelihood"] if len(fs) == 3 else [meth]
    if len(fs) != len(ss):
        check.ob("sum over observations", "%s.%s%s" % (k.cls, meth, tag), w, "unknown", "shapes")
        return
    for nm, a, b in zip(names, fs, ss):
        a, b = scalar_of(a, r.st), scalar_of(b, r1.st)
        cons = "%s.%s %s%s" % (k.cls, meth, nm, tag)
        if a is NONE:
            check.ob("sum over observations", cons, w, "refuted", "returns nothing")
            continue
        if isinstance(a, Arr) and isinstance(b, Arr) and a.rank == b.rank:
            ivs = [IV() for _ in a.dims]
            pa, pb = a.at(*ivs), b.at(*ivs)
        elif isinstance(a, T) and isinstance(b, T):
            pa, pb = a, b
        else:
            check.ob("sum over observations", cons, w, "unknown", "%r / %r" % (a, b))
            continue
        kk = IV()
        # the one-observation value, summed over all observations
        want = SUM(kk, n, tsubst(pb, {one[x]: AT(x, kk) for x in k.single}))
        check.equal("sum over observations", cons, w, interior(k, norm(pa)), interior(k, norm(want)))


def c06_fallback(check):
    """the helpers used when numba is missing do the same as those used with numba"""
    m = None
    for mod in check.repo.modules.values():
        if "add_up_vec" in mod.sym and mod.name.endswith("PreferenceProbit"):
            m = mod
    if m is None:
        return
    for nm in ("add_up_mat", "add_up_vec", "add_up_W_partial"):
        defs = m.alts.get(nm, [])
        if len(defs) < 2:
            continue
        outs = []
        for f in defs:
            run = Run(check)
            v = run.arr("vals", n)
            if nm == "add_up_mat":
                a, b = IV(), IV()
                idx = run.st.new(Arr((a, b), (n, C(2)), ite(eq(b, ZERO), AT("iu", a), AT("jv", a)), "int"))
                args = [idx, v, run.arr("M2", NL, NL)]
            elif nm == "add_up_vec":
                a = IV()
                idx = run.st.new(Arr((a,), (n,), AT("iu", a), "int"))
                args = [idx, v, run.arr("M1", NL)]
            else:
                args = [pref_y(run), v, run.arr("M3", NL, NL, NL)]
            o = run.get(run.I.call(f, args, {}, run.st, None))
            outs.append((f, o))
        a = outs[0][1]
        for f, b in outs[1:]:
            if isinstance(a, Arr) and isinstance(b, Arr) and a.rank == b.rank:
                ivs = [IV() for _ in a.dims]
                check.equal("fallback helpers agree", nm, f.where(), b.at(*ivs), norm(a.at(*ivs)))
            else:
                check.ob("fallback helpers agree", nm, f.where(), "refuted" if b is NONE and a is not NONE else "unknown", "%r" % (b,))


def gp_model(run, probits=None, data=(True, True, True), cls="PreferenceGP", **kw):
    """a preference model with symbolic labels of the given kinds"""
    repo = run.check.repo
    if cls == "PreferenceGP":
        kern = run.new("RBF_kern", S("ks", True), S("kl", True))
        g = run.new(cls, kern, **kw)
    else:
        g = run.new(cls, **kw)
    F = Fvec(run)
    ks = kinds(True)
    ys = [k.labels(run) if dd else NONE for k, dd in zip(order_kinds(run, g, ks), data)]
    return g, F, ys


def order_kinds(run, g, ks):
    """kinds in the order of the model's probit list"""
    o = run.get(run.attr(g, "probits"))
    items = o.items() if isinstance(o, VList) else o.items
    by = {k.cls: k for k in ks}
    out = []
    for x in items:
        c = run.get(x).cls.name
        if c not in by:
            raise AnalysisBroken("likelihood class %s is not known to the analysis" % c)
        out.append(by[c])
    return out


def set_probits(run, g):
    """give the likelihoods of the model symbolic parameters"""
    o = run.get(run.attr(g, "probits"))
    for x in (o.items() if isinstance(o, VList) else o.items):
        c = run.get(x).cls.name
        if c == "PreferenceProbit":
            run.call(x, "set_sigma", S("sgp", True))
        elif c == "AbsBoundProbit":
            run.call(x, "set_sigma", S("sga", True))
            run.call(x, "set_v", S("vv", True))
        elif c == "OrdinalProbit":
            run.call(x, "set_sigma", S("sgo", True))
            a = IV()
            run.set(x, n_ordinals=NO, eps=S("eps", True), b=run.st.new(Arr((a,), (add(NO, ONE),), AT("ob", a))))


def probit_list(run, g):
    o = run.get(run.attr(g, "probits"))
    return list(o.items() if isinstance(o, VList) else o.items)


def c06_models(check):
    repo = check.repo
    import itertools
    for cls in ("PreferenceGP",):
        w = where_of(check, cls, "derivatives")
        w2 = where_of(check, cls, "log_likelyhood_training")
        for data in itertools.product((True, False), repeat=3):
            if not any(data):
                continue
            run = Run(check)
            g, F, ys = gp_model(run, data=data, cls=cls)
            set_probits(run, g)
            tag = "%s [%s]" % (cls, "+".join(n_ for n_, d in zip(("pref", "ord", "abs"), data) if d))
            r = run.fork()
            y = r.st.new(VList.of(list(ys)))
            t = r.get(r.call(g, "derivatives", y, F))
            check.no_errors(r.I, "runs", tag)
            r2 = run.fork()
            y2 = r2.st.new(VList.of(list(ys)))
            f2 = repo.method(repo.cls(cls), "log_likelyhood_training")
            ll = scalar_of(r2.call(g, "log_likelyhood_training", F, y2), r2.st) if f2 else None
            if f2:
                check.no_errors(r2.I, "runs", tag + ".log_likelyhood_training")
            parts = []
            for p, yy in zip(probit_list(run, g), ys):
                if yy is NONE:
                    continue
                r3 = run.fork()
                parts.append((r3.get(r3.call(p, "derivatives", yy, F)), r3, scalar_of(r3.call(p, "log_likelihood", yy, F), r3.st)))
            if not isinstance(t, VTuple) or len(t.items) != 3 or any(not isinstance(x[0], VTuple) for x in parts):
                check.ob("kinds of feedback add up", tag, w, "refuted" if t is NONE else "unknown", repr(t))
                continue
            for q, nm in enumerate(("curvature", "gradient", "log-likelihood")):
                a = scalar_of(t.items[q], r.st)
                bs = [scalar_of(x[0].items[q], x[1].st) for x in parts]
                if isinstance(a, T) and all(isinstance(b, T) for b in bs):
                    check.equal("kinds of feedback add up", "%s.derivatives %s" % (tag, nm), w, a, norm(add(*bs)))
                elif isinstance(a, Arr) and all(isinstance(b, Arr) and b.rank == a.rank for b in bs):
                    ivs = [IV() for _ in a.dims]
                    check.equal("kinds of feedback add up", "%s.derivatives %s" % (tag, nm), w, a.at(*ivs), norm(add(*[b.at(*ivs) for b in bs])))
                else:
                    check.ob("kinds of feedback add up", "%s.derivatives %s" % (tag, nm), w, "unknown", "%r" % (a,))
            if f2:
                if ll is NONE or isinstance(ll, T) and all(isinstance(x[2], T) for x in parts):
                    check.equal("kinds of feedback add up", tag + ".log_likelyhood_training", w2, ll, norm(add(*[x[2] for x in parts])))
                else:
                    check.ob("kinds of feedback add up", tag + ".log_likelyhood_training", w2, "unknown", repr(ll))


# ---------------------------------------------------------------- C07
def c07(check):
    decl()
    for k, tag in [(kinds()[0], ""), (kinds()[1], ""), (kinds(True)[1], " (v only)"), (used(kinds()[0]), " [used before]"), (used(kinds()[1]), " [used before]")]:
        first = len(check.obs)
        check.guard("hyper derivative", k.cls + tag, None, c07_one, check, k, tag)
        check.guard("derivatives for a given list of observations", k.cls + tag, None, small, check, k,
                    ("grad_hyper", "calc_W_dHyper", "calc_W_dF"), first)


def c07_one(check, k, tag):
    run = Run(check)
    pr = k.build(run)
    hs = [S("t%d" % i, True) for i in range(len(k.hypers))]
    run.call(pr, "set_hyper", run.vec(*hs))
    F = Fvec(run)
    y = k.labels(run)
    r = run.fork()
    t = r.get(r.call(pr, "derivatives", y, F))
    ll, rl = loglik(check, run, pr, k, y, F)
    if not isinstance(t, VTuple) or not isinstance(ll, T):
        check.ob("hyper derivative", k.cls + tag, where_of(check, k.cls, "derivatives"), "unknown", repr(t))
        return
    Wo = r.get(t.items[0])
    lp = norm(ll)
    m, q, c = IV(), IV(), IV()
    # curvature: the reported one, and the one implied by the reported log-likelihood
    Ws = [norm(Wo.at(m, q)) if isinstance(Wo, Arr) and Wo.rank == 2 else None,
          pneg(pdiff(dF(lp, m), ("at", "F", (norm(q),))))]
    Ws = [x for x in Ws if x is not None]
    # hyper gradient
    r1 = run.fork()
    g = r1.call(pr, "grad_hyper", y, F)
    if check.no_errors(r1.I, "runs", k.cls + tag + ".grad_hyper"):
        comps_check(check, "hyper-gradient of the log-likelihood", k.cls + ".grad_hyper" + tag, where_of(check, k.cls, "grad_hyper"), g, r1.st,
                    len(hs), lambda j: ((), lambda: pdiff(lp, ("s", "t%d" % j))))
    r2 = run.fork()
    g = r2.call(pr, "calc_W_dHyper", y, F)
    if check.no_errors(r2.I, "runs", k.cls + tag + ".calc_W_dHyper"):
        comps_check(check, "derivative of the curvature in the noise parameters", k.cls + ".calc_W_dHyper" + tag,
                    where_of(check, k.cls, "calc_W_dHyper"), g, r2.st, len(hs),
                    lambda j: ((NL, NL), lambda a, b: [subst_iv(pdiff(W, ("s", "t%d" % j)), {m: a, q: b}) for W in Ws]))
    r3 = run.fork()
    g = r3.call(pr, "calc_W_dF", y, F)
    if check.no_errors(r3.I, "runs", k.cls + tag + ".calc_W_dF"):
        check.arr_equal("derivative of the curvature in the latent values", k.cls + ".calc_W_dF" + tag, where_of(check, k.cls, "calc_W_dF"),
                        g, r3.st, [NL, NL, NL],
                        lambda a, b, e: [subst_iv(pdiff(W, ("at", "F", (norm(c),))), {m: a, q: b, c: e}) for W in Ws])


# ---------------------------------------------------------------- C23
def c23(check):
    decl()
    for q in (False, True):
        check.guard("pairwise probability matrix", "PreferenceProbit.likelihood_all_pairs", None, c23_pref, check, q)
        check.guard("beta parameters", "AbsBoundProbit", None, c23_abs, check, q)


def c23_pref(check, before):
    run = Run(check)
    pr = used(kinds()[0]).build(run) if before else mk_pref(run)
    F = Fvec(run)
    w = where_of(check, "PreferenceProbit", "likelihood_all_pairs")
    i, j = IV(), IV()
    r = run.fork()
    P = r.get(r.call(pr, "likelihood_all_pairs", F))
    if not check.no_errors(r.I, "runs", "likelihood_all_pairs"):
        return
    limits(check, r.I, "PreferenceProbit.likelihood_all_pairs", w)
    # the record of 'i is preferred to j'
    r2 = run.fork()
    rec = r2.get(r2.fn("preference", i, j))
    if not isinstance(rec, VTuple) or len(rec.items) != 3:
        check.ob("entry is the training likelihood", "preference()", check.repo.func("preference").where(), "unknown", repr(rec))
        return
    a, b = IV(), IV()
    y = r2.st.new(Arr((a, b), (ONE, C(3)), ite(eq(b, ZERO), rec.items[0], ite(eq(b, ONE), rec.items[1], rec.items[2])), "int"))
    L = r2.get(r2.call(pr, "likelihood", y, F))
    ll = scalar_of(r2.call(pr, "log_likelihood", y, F), r2.st)
    lv = L.at(ZERO) if isinstance(L, Arr) and L.rank == 1 else L
    want = []
    if isinstance(ll, T):
        want.append(norm(fn("exp", ll)))
    if not isinstance(P, Arr) or not want:
        check.ob("entry is the training likelihood", "likelihood_all_pairs", w, "refuted" if P is NONE else "unknown", repr(P))
        return
    check.arr_equal("entry is the training likelihood", "likelihood_all_pairs", w, P, r.st, [NL, NL],
                    lambda x, z: subst_iv(want[0], {i: x, j: z}))
    if isinstance(lv, T):
        check.equal("likelihood of a record is the training likelihood", "PreferenceProbit.likelihood", where_of(check, "PreferenceProbit", "likelihood"), lv, want[0])
    if P.rank == 2:
        check.equal("opposite outcomes sum to one", "likelihood_all_pairs", w, add(P.at(i, j), P.at(j, i)), PONE)
    # planning uses the matrix of the model's own pairwise likelihood
    for cls in ("PreferenceGP", "PreferenceLinear", "PreferenceModel"):
        f = check.repo.method(check.repo.cls(cls), "likelihood_all_pairs")
        if f is not None and f.cls.name == cls:
            rr = Run(check)
            g, F2, ys = gp_model(rr, cls="PreferenceGP") if cls == "PreferenceGP" else (rr.new(cls), Fvec(rr), None)
            set_probits(rr, g)
            P2 = rr.get(rr.call(g, "likelihood_all_pairs", F2))
            P1 = rr.get(rr.call(probit_list(rr, g)[0], "likelihood_all_pairs", F2))
            if isinstance(P1, Arr) and isinstance(P2, Arr):
                check.arr_equal("model forwards to its pairwise likelihood", cls + ".likelihood_all_pairs", f.where(), P2, rr.st, [NL, NL], lambda x, z: P1.at(x, z))


def c23_abs(check, before):
    run = Run(check)
    pr = used(kinds()[1]).build(run) if before else mk_abs(False)(run)
    F = Fvec(run)
    w = where_of(check, "AbsBoundProbit", "get_alpha_beta")
    r = run.fork()
    ml = r.get(r.call(pr, "mean_link", F))
    ab = r.get(r.call(pr, "get_alpha_beta", F))
    check.no_errors(r.I, "runs", "AbsBoundProbit.get_alpha_beta")
    limits(check, r.I, "AbsBoundProbit.get_alpha_beta", w)
    if not isinstance(ml, Arr) or not isinstance(ab, VTuple) or len(ab.items) != 2:
        check.ob("beta parameters", "AbsBoundProbit", w, "refuted" if ml is NONE or ab is NONE else "unknown", "%r %r" % (ml, ab))
        return
    a, b = (r.get(x) for x in ab.items)
    i = IV()
    check.arr_equal("mean is the probit of the latent value", "AbsBoundProbit.mean_link", where_of(check, "AbsBoundProbit", "mean_link"), ml, r.st, [NL],
                    lambda x: fn("ndtr", div(AT("F", x), mul(pw(C(2), C(1) if False else div(ONE, C(2))), S("sg", True)))))
    if isinstance(a, Arr) and isinstance(b, Arr):
        check.equal("precision is the sum of the two parameters", "AbsBoundProbit.get_alpha_beta", w, add(a.at(i), b.at(i)), S("vv", True))
        check.equal("mean of the distribution is the mean link", "AbsBoundProbit.get_alpha_beta", w, a.at(i), mul(S("vv", True), ml.at(i)))
    if check.repo.method(check.repo.cls("AbsBoundProbit"), "get_alpha_beta_ml") is not None:
        r2 = run.fork()
        mu = r2.arr("mu", NL)
        ab = r2.get(r2.call(pr, "get_alpha_beta_ml", F, mu))
        if isinstance(ab, VTuple) and len(ab.items) == 2:
            a2, b2 = (r2.get(x) for x in ab.items)
            check.arr_equal("parameters from a given mean", "AbsBoundProbit.get_alpha_beta_ml first", w, a2, r2.st, [NL], lambda x: mul(S("vv", True), AT("mu", x)))
            check.arr_equal("parameters from a given mean", "AbsBoundProbit.get_alpha_beta_ml second", w, b2, r2.st, [NL], lambda x: mul(S("vv", True), sub(ONE, AT("mu", x))))
    # the training likelihood is the beta density with these parameters
    r3 = run.fork()
    y = abs_y(r3)
    ll = scalar_of(r3.call(pr, "log_likelihood", y, F), r3.st)
    if isinstance(ll, T) and isinstance(a, Arr) and isinstance(b, Arr):
        k = IV()
        A, B, yy = a.at(AT("ia", k)), b.at(AT("ia", k)), AT("ya", k)
        dens = sub(add(mul(sub(A, ONE), fn("log", yy)), mul(sub(B, ONE), fn("log", sub(ONE, yy))), fn("gammaln", add(A, B))),
                   add(fn("gammaln", A), fn("gammaln", B)))
        check.equal("training likelihood is the beta density with these parameters", "AbsBoundProbit.log_likelihood",
                    where_of(check, "AbsBoundProbit", "log_likelihood"), ll, SUM(k, n, dens))
    f = check.repo.method(check.repo.cls("AbsBoundProbit"), "cdf")
    if f is not None:
        cdf_same(check, run, pr, F, f)


def cdf_same(check, run, pr, F, f):
    r = run.fork()
    ysym = r.arr("yc", NL)
    seen = []
    from .npsem import NpSem

    def hook(I, st, args, kwargs, node):
        seen.append([st.get(a) for a in args[1:3]])
        return I.unk("betacdf")
    r.I.exthooks["scipy.stats.beta.cdf"] = hook
    r.call(pr, "cdf", ysym, F)
    r2 = run.fork()
    ab = r2.get(r2.call(pr, "get_alpha_beta", F))
    if not seen or not isinstance(ab, VTuple):
        check.ob("distribution function uses the same parameters", "AbsBoundProbit.cdf", f.where(), "unknown", "beta.cdf not called")
        return
    i = IV()
    for x, z, nm in zip(seen[0], ab.items, ("first", "second")):
        z = r2.get(z)
        if isinstance(x, Arr) and isinstance(z, Arr):
            check.equal("distribution function uses the same parameters", "AbsBoundProbit.cdf " + nm, f.where(), x.at(i), norm(z.at(i)))
