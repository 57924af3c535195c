"""C25: how alike two posterior samples are, and the decisions built on it."""
from .rule import *
from .rules_choice import method

MS, NR, NQ = S("Ms", True, "dim"), S("Nr", True, "dim"), S("nQ", True, "dim")
SG = S("sg", True, "real")
HALF = C(Fraction(1, 2))


def rep(m, k, name="rp"):
    return AT(name, m, k)


def tot(dim, f):
    k = IV()
    return SUM(k, dim, f(k))


def root(t):
    return pw(t, HALF)


def soft(m, k):
    return div(fn("exp", rep(m, k)), tot(NR, lambda q: fn("exp", rep(m, q))))


def rho(a, b):
    return neg(root(tot(NR, lambda k: mul(sub(soft(a, k), soft(b, k)), sub(soft(a, k), soft(b, k))))))


def corr(x, y):
    """correlation of two rows given as functions of the position"""
    mx, my = (div(tot(NR, f), NR) for f in (x, y))
    c = lambda f, g, p, q: tot(NR, lambda k: mul(sub(f(k), p), sub(g(k), q)))
    return div(c(x, y, mx, my), mul(root(c(x, x, mx, mx)), root(c(y, y, my, my))))


def ranks(row):
    """ranks of a row given as a function of the position: ties share their mean rank"""
    one = lambda c: ite(c, ONE, ZERO)
    return lambda k: add(tot(NR, lambda q: one(lt(row(q), row(k)))), mul(HALF, tot(NR, lambda q: one(eq(row(q), row(k))))), HALF)


def epic(x, y):
    return neg(div(root(sub(ONE, corr(x, y))), root(TWO)))


def spearman(x, y):
    return corr(ranks(x), ranks(y))


def likely(n):
    """sum over the queries of the log-probability, under one sample, of the other's answer, both ways"""
    def win(m, q, i, j):
        return fn("ndtr", div(sub(rep(m, AT("Qr", q, C(i))), rep(m, AT("Qr", q, C(j)))), mul(root(TWO), SG)))

    def g(a, b):
        """the log-probability under sample a of what is best under sample b"""
        def one(q):
            w = [mul(*[win(a, q, x, y) for y in range(n) if y != x]) for x in range(n)]
            k = IV()
            best = mk("red", "argmax", k, C(n), rep(b, AT("Qr", q, k)))
            p = ZERO
            for x in range(n):
                p = ite(eq(C(x), best), w[x], p)
            return fn("log", div(p, add(*w)))
        return tot(NQ, one)
    return lambda a, b: add(g(a, b), g(b, a))


def c25(check):
    check.tries = 12
    f = method(check, "AcquisitionBase", "alignment")
    for kind in ("rho", "epic", "spearman", "one", "loglikelihood"):
        for n in (2, 3) if kind == "loglikelihood" else (2,):
            check.guard("alignment follows its definition", "%s, %s" % (f.qual, kind), f.where(), one_measure, check, f, kind, n)
    f = method(check, "AcquisitionBase", "alignment_between")
    for kind in ("epic", "spearman", "one"):
        check.guard("alignment across two sets follows its definition", "%s, %s" % (f.qual, kind), f.where(), between, check, f, kind)
    f = method(check, "AlignmentDecision", "determine_query_type")
    check.guard("the type of query is that of the better alignment", f.qual, f.where(), decision, check, f)


def decision(check, f):
    """pairs are asked for when what preferences alone teach is the more like what all the data teach"""
    from .rules_data import trial
    from .rules_mixed import MS as ms, NR as nr
    seen = {}

    def more(p, m, contents, fitted):
        def samples(I, st, me, a, kw, nd):
            on = I.truthy(st.get(m).attrs["optimized"], st)
            d = fitted["data"] if on is TRUE else contents(st)
            k = "?" if d is None or len(d) != 3 else "".join("0" if x is NONE else "1" for x in d)
            seen.setdefault(k, 0)
            return VTuple([st.new(sym_arr("Rs" + k, [ms, nr])), st.new(sym_arr("Qs" + k, [ms, N]))])

        def between(I, st, me, a, kw, nd):
            x = [I.arr(y, st) for y in a[:2]]
            if len(x) < 2 or not all(isinstance(y, Arr) and y.rank == 2 for y in x):
                return I.unk("alignment")
            i, j = IV(), IV()
            nm = [y.at(i, j) for y in x]
            if not all(t.op == "at" and t.args[1] is i and t.args[2] is j and isinstance(t.args[0], str) for t in nm):
                return I.unk("alignment")
            al = "AB:%s:%s" % tuple(sorted(t.args[0] for t in nm))
            ARRAYS[al] = {"sort": "real"}
            return st.new(sym_arr(al, [ms, ms]))
        return {"get_samples_from_model": samples, "alignment_between": between, "alignment": between}
    w, m, calls, fitted, before, contents = trial(check, None, more)
    wh = f.where()
    rule = "the type of query is that of the better alignment"
    check.ok("samples are compared for all the data, preferences alone and ratings alone", f.qual, wh, None if "?" in seen else {"101", "100", "001"} <= set(seen), "samples for %s" % sorted(seen))

    def mean(k):
        i, j = IV(), IV()
        return div(SUM(i, ms, SUM(j, ms, AT("AB:%s:%s" % tuple(sorted(("Rs" + k, "Rs101"))), i, j))), mul(ms, ms))
    pref, rate = mean("100"), mean("001")
    res = w.run.get(w.result)
    if isinstance(res, VTuple) and len(res.items) == 3:
        for what, x, want in (("ratings", res.items[1], rate), ("preferences", res.items[2], pref)):
            x = w.run.get(x)
            if isinstance(x, Arr) and not x.dims:
                x = x.body
            if isinstance(x, T):
                check.equal("the reported score is the alignment of that kind of query", "%s, %s" % (f.qual, what), wh, x, want)
            else:
                check.ob("the reported score is the alignment of that kind of query", "%s, %s" % (f.qual, what), wh, "unknown", "%r" % (x,))
    picks = [(p, facts, d) for what, p, t, facts, d in w.log if what == "select"]
    if {p.name for p, _, _ in picks} != {"pairwise_l", "abs_l"}:
        und = any(isinstance(c, Unk) or w.run.I is None for _, fc, _ in picks for c in fc)
        check.ob(rule, f.qual, wh, "unknown" if und else "refuted", "only %s is ever asked" % sorted({p.name for p, _, _ in picks}))
        return
    for p, facts, d in picks:
        cond = AND(*[c if v else NOT(c) for c, v in facts.items()])
        got = ite(cond, ONE, ZERO)
        want = [ite(lt(rate, pref), ONE, ZERO), ite(le(rate, pref), ONE, ZERO)] if p.name == "pairwise_l" else [ite(le(pref, rate), ONE, ZERO), ite(lt(pref, rate), ONE, ZERO)]
        check.equal(rule, "%s asks %s" % (f.qual, p.name), wh, got, want)


def learner(run, kind):
    ARRAYS.update({"Qr": {"sort": "int", "perm": True}, "rp": {"sort": "real"}, "r2": {"sort": "real"}})
    add_fact(run.st.facts, lt(NR, TWO), False)         # two representative points or more
    L = run.new("AcquisitionSelection")
    m = run.new("PreferenceGP", run.new("RBF_kern", ONE, ONE))
    ps = run.get(run.get(m).attrs["probits"])
    run.call(list(ps.items() if isinstance(ps, VList) else ps.items)[0], "set_sigma", SG)
    run.set(L, alignment_f=K(kind), model=m, M=MS)
    return L


def one_measure(check, f, kind, n):
    run = Run(check)
    L = learner(run, kind)
    v = run.call(L, "alignment", run.arr("rp", MS, NR), run.arr("Qr", NQ, C(n), dt="int"))
    row = lambda m: lambda k: rep(m, k)
    want = {"rho": rho, "epic": lambda a, b: epic(row(a), row(b)), "spearman": lambda a, b: spearman(row(a), row(b)), "one": lambda a, b: ONE}.get(kind) or likely(n)
    tag = "%s, %s%s" % (f.qual, kind, ", %d alternatives" % n if kind == "loglikelihood" else "")
    compare(check, "alignment follows its definition", tag, f.where(), run, v, want)


def between(check, f, kind):
    run = Run(check)
    L = learner(run, kind)
    v = run.call(L, "alignment_between", run.arr("rp", MS, NR), run.arr("r2", MS, NR))
    a_, b_ = lambda m: lambda k: rep(m, k), lambda m: lambda k: rep(m, k, "r2")
    want = {"epic": lambda a, b: epic(a_(a), b_(b)), "spearman": lambda a, b: spearman(a_(a), b_(b)), "one": lambda a, b: ONE}[kind]
    compare(check, "alignment across two sets follows its definition", "%s, %s" % (f.qual, kind), f.where(), run, v, want)


def compare(check, rule, tag, w, run, v, want):
    if not check.no_errors(run.I, "alignment run", tag):
        return
    o = run.I.arr(v, run.st)
    if not isinstance(o, Arr):
        check.ob(rule, tag, w, "unknown", "%r" % (run.get(v) if not isinstance(v, Unk) else v,))
        return
    check.arr_equal(rule, tag, w, o, run.st, [MS, MS], want)
