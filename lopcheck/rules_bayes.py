"""C28: the probability of being the best candidate, and the information a query gives about it."""
import itertools
from .rule import *
from fractions import Fraction
from .rules_select import Choice, declare, leaves, position, raised, MODELS, under
from .rules_choice import method
from .rules_data import carr
from .rules_kernel import pc_const

SPEC = '''
import numpy as np


def xlogx(p):
    return np.where(p < 1e-17, 0, p * np.log(p))


def entropy_of(p):
    return -np.sum(xlogx(p))


def answer_given(pm, q, o, b, Q, how):
    """probability factor of answering q rather than o when b is the best candidate"""
    if b == q:
        if how == 'probit':
            return np.maximum(pm[q, o], 1 - pm[q, o])
        return 0.999 if how == '999' else 0.99
    return pm[q, o]


def expected_entropy(Q, p_B, pm, how, n):
    a = []
    for q in Q:
        x = 1.0
        for o in Q:
            if o != q:
                x = x * pm[q, o]
        a.append(x)
    tot = 0.0
    for x in a:
        tot = tot + x
    given = []
    for k, q in enumerate(Q):
        row = []
        for b in range(n):
            x = 1.0
            for o in Q:
                if o != q:
                    x = x * (answer_given(pm, q, o, b, Q, how) if b in Q else pm[q, o])
            row.append(x)
        given.append(row)
    H = 0.0
    for k in range(len(Q)):
        post = []
        for b in range(n):
            s = 0.0
            for k2 in range(len(Q)):
                s = s + given[k2][b]
            post.append(given[k][b] / s * p_B[b] / (a[k] / tot))
        z = 0.0
        for x in post:
            z = z + x
        h = 0.0
        for x in post:
            h = h - xlogx(x / z)
        H = H + a[k] / tot * h
    return H


def pair_gain(i, j, p_B, pm, how, n):
    H = 0.0
    for x, y in ((i, j), (j, i)):
        post = []
        for b in range(n):
            if b == x:
                g = np.maximum(pm[x, y], pm[y, x]) if how == 'probit' else (0.999 if how == '999' else 0.99)
            elif b == y:
                g = np.minimum(pm[x, y], pm[y, x]) if how == 'probit' else (0.001 if how == '999' else 0.01)
            else:
                g = pm[x, y]
            post.append(g * p_B[b] / pm[x, y])
        z = 0.0
        for v in post:
            z = z + v
        h = 0.0
        for v in post:
            h = h - xlogx(v / z)
        H = H + pm[x, y] * h
    return H
'''

WAYS = ("probit", "999", "99")


def c28(check):
    check.tries = 16
    check.repo.add_source("lopcheck_bayes", SPEC)
    f = method(check, "ActiveLearner", "p_B_pref_gp")
    for nn in (2, 3, 4):
        check.guard("chance of being the best under the Gaussian process", "ActiveLearner.p_B_pref_gp, %d candidates" % nn, f.where(), best_gp, check, f, nn)
    f = method(check, "ActiveLearner", "p_B_pref_linear")
    for k in range(3):
        check.guard("chance of being the best under the linear model", "ActiveLearner.p_B_pref_linear, case %d" % k, f.where(), best_linear, check, f, k)
    f = method(check, "BayesInfoGain", "calc_H_B_Q")
    for how in WAYS:
        for k in range(len(TABLES)):
            n_ = len(TABLES[k][0])
            for Q in itertools.chain(*(itertools.permutations(range(n_), m) for m in (2, 3))):
                if check.tier == "quick" and len(Q) == n_ - 1 and Q[0] > Q[-1]:
                    continue
                tag = "BayesInfoGain.calc_H_B_Q, %s, table %d, query %s" % (how, k, list(Q))
                check.guard("entropy after the answer follows Bayes' rule", tag, f.where(), after_answer, check, f, how, Q, tag, k)
    f = method(check, "BayesInfoGain", "select_pair")
    for how in WAYS:
        for model in MODELS[:2]:
            for k in range(len(TABLES)):
                tag = "BayesInfoGain.select_pair, %s, %s, table %d" % (model, how, k)
                check.guard("information gain of a pair", tag, f.where(), pair_info, check, f, how, model, tag, k)
    f = method(check, "BayesInfoGain", "select_greedy")
    for model in MODELS[:2]:
        for prev in ((0,), (1, 0)):
            tag = "BayesInfoGain.select_greedy, %s, %d selected before" % (model, len(prev))
            check.guard("the choice has the highest information gain", tag, f.where(), greedy_info, check, f, model, prev, tag)


def best_gp(check, f, nn):
    """p[i] is the probability that every difference to candidate i is negative, normalised"""
    declare()
    rule = "chance of being the best under the Gaussian process"
    tag = "ActiveLearner.p_B_pref_gp, %d candidates" % nn
    w = f.where()
    r = Run(check)
    n_ = C(nn)
    ARRAYS["cdfv"] = {"sort": "unit"}
    ARRAYS["Kc"] = {"sym": True, "spd": True}
    m = r.new("PreferenceGP", r.new("RBF_kern", ONE, ONE))
    r.set(m, cov=r.arr("Kc", n_, n_))
    L = r.new("BestLearner")
    r.set(L, model=m)
    calls = []
    g = check.repo.func("calc_cdf")

    def cdf(I, st, a, kw, nd):
        b = I.bind(g, g.node, a, kw, st, nd)
        names = [x.arg for x in g.node.args.args]
        calls.append((I.arr(b[names[0]], st), I.arr(b[names[1]], st)))
        return AT("cdfv", C(len(calls) - 1))
    r.I.hooks[g] = cdf
    v = r.get(r.call(L, "p_B_pref_gp", r.arr("cand", n_, D), r.arr("mu", n_)))
    if not check.no_errors(r.I, rule, tag):
        return
    if len(calls) != nn or not isinstance(v, Arr) or v.rank != 1:
        return check.ob(rule, tag, w, "unknown", "%d probabilities computed: %r" % (len(calls), v))
    who = []
    for mu, K in calls:
        if not (isinstance(mu, Arr) and isinstance(K, Arr) and mu.rank == 1 and K.rank == 2) or pc_const(norm(mu.dims[0])) != nn - 1:
            return check.ob(rule, tag, w, "unknown", "means %r, covariance %r" % (mu, K))
        # which candidate: the one all differences are to (in whatever order the others come)
        es = [norm(mu.at(C(k))) for k in range(nn - 1)]
        hit = None
        for i in range(nn):
            others = [k for k in range(nn) if k != i]
            for perm in itertools.permutations(others):
                if all(e is norm(sub(AT("mu", C(o)), AT("mu", C(i)))) for e, o in zip(es, perm)):
                    hit = (i, perm)
        if hit is None:
            i = len(who)
            others = [k for k in range(nn) if k != i]
            for k, o in enumerate(others):
                check.equal("differences of the means to the candidate", "%s: %d" % (tag, i), w, mu.at(C(k)), sub(AT("mu", C(o)), AT("mu", C(i))))
            hit = (i, tuple(others))
        else:
            check.ob("differences of the means to the candidate", "%s: %d" % (tag, hit[0]), w, "proved", "")
        who.append(hit[0])
        i, perm = hit
        kc = lambda a, b: AT("Kc", C(a), C(b))
        for a, b in itertools.product(range(nn - 1), repeat=2):
            check.equal("covariance of the differences to the candidate", "%s: %d [%d,%d]" % (tag, i, a, b), w, K.at(C(a), C(b)),
                        add(kc(i, i), kc(perm[a], perm[b]), neg(kc(i, perm[a])), neg(kc(i, perm[b]))))
    if sorted(who) != list(range(nn)):
        return check.ob(rule, tag, w, "unknown", "candidates %s" % who)
    tot = add(*[AT("cdfv", C(k)) for k in range(nn)])
    for c, i in enumerate(who):
        check.equal(rule, "%s: %d" % (tag, i), w, v.at(C(i)), div(AT("cdfv", C(c)), tot))


WEIGHTS = [
    ([(3, 0), (0, 3), (-2, 1), (1, 1)], [(1, 0), (0, 1), (-1, 0), (2, 1), (1, -5), (-1, -1)]),
    ([(1, 5), (4, 1), (2, 2)], [(1, 1), (1, 0), (-1, 0), (0, -1), (5, 1), (3, 1), (1, 2)]),
    ([(-1, 0), (-5, 0), (0, -1), (0, -7)], [(3, 1), (-1, 0), (1, 2), (2, 1), (0, -1)]),
]


def best_linear(check, f, k):
    """p[i] is proportional to the number of weight samples under which candidate i has the highest value"""
    rule = "chance of being the best under the linear model"
    tag = "ActiveLearner.p_B_pref_linear, case %d" % k
    w = f.where()
    r = Run(check, interior=False)
    pts, ws = WEIGHTS[k]
    m = r.new("PreferenceLinear")
    L = r.new("BestLearner")
    r.set(L, model=m)
    mh = check.repo.func("metropolis_hastings")
    bad = []
    mat = lambda rows: carr(r, rows, "float")
    chain_ = mat(ws)

    def chain(I, st, a, kw, nd):
        b = I.bind(mh, mh.node, a, kw, st, nd)
        g = b.get("loss_func", a[0] if a else None)
        if not (isinstance(g, Bound) and g.func.name == "loss_func" and g.self_ == m):
            bad.append("samples of another density")
        return chain_
    r.I.hooks[mh] = chain
    v = r.get(r.call(L, "p_B_pref_linear", mat(pts), r.arr("mu", C(len(pts)))))
    if not check.no_errors(r.I, rule, tag):
        return
    if bad:
        return check.ob(rule, tag, w, "unknown", bad[0])
    try:
        got = [pc_const(norm(v.at(C(i)))) for i in range(len(pts))]
    except Exception:
        got = [None]
    if any(x is None for x in got):
        return check.ob(rule, tag, w, "unknown", "%r" % (v,))
    cnt = [0] * len(pts)
    for q in ws:
        vals = [p[0] * q[0] + p[1] * q[1] for p in pts]
        assert vals.count(max(vals)) == 1
        cnt[vals.index(max(vals))] += 1
    ok = sum(got) > 0 and all(got[a] * cnt[b] == got[b] * cnt[a] for a in range(len(pts)) for b in range(len(pts)))
    check.ok(rule, tag, w, ok, "%s where the candidates win %s times" % ([str(x) for x in got], cnt))


def bayes(check, r, how, **kw):
    L = r.new("BayesInfoGain", p_q_B_method=K(how), **kw)
    return L


def ask(r, name, *args):
    v = r.get(r.fn(r.check.repo.func(name), *args))
    if isinstance(v, Arr) and not v.dims:
        v = v.body
    return v


def qlist(r, Q):
    return r.st.new(VList([("item", C(q)) for q in Q]))


# (probability of being the best, probability that row is chosen over column) of three and four candidates, in hundredths
TABLES = [
    ([60, 30, 10], [(0, 1, 30), (0, 2, 80), (1, 2, 40)]),
    ([20, 35, 45], [(0, 1, 55), (0, 2, 15), (1, 2, 70)]),
    ([5, 25, 40, 30], [(0, 1, 90), (0, 2, 35), (0, 3, 60), (1, 2, 20), (1, 3, 75), (2, 3, 45)]),
]


def table(r, k):
    pb, pr = TABLES[k]
    n_ = len(pb)
    h = lambda x: Fraction(x, 100)
    M_ = [[h(50)] * n_ for _ in range(n_)]
    for i, j, x in pr:
        M_[i][j], M_[j][i] = h(x), h(100 - x)
    return n_, carr(r, [h(x) for x in pb], "float"), carr(r, [tuple(q) for q in M_], "float")


def after_answer(check, f, how, Q, tag, k):
    rule = "entropy after the answer follows Bayes' rule"
    w = f.where()
    r = Run(check)
    L = bayes(check, r, how)
    n_, pB, pm = table(r, k)
    v = r.call(L, "calc_H_B_Q", carr(r, Q), pB, pm)
    if not check.no_errors(r.I, rule, tag):
        return
    v = r.get(v)
    if isinstance(v, Arr) and not v.dims:
        v = v.body
    want = ask(r, "expected_entropy", qlist(r, Q), pB, pm, K(how), C(n_))
    if not isinstance(v, T) or not isinstance(want, T):
        return check.ob(rule, tag, w, "unknown", "%r / %r" % (v, want))
    check.equal(rule, tag, w, v, want)


def pair_info(check, f, how, model, tag, k):
    rule = "information gain of a pair"
    w = f.where()
    r = Run(check)
    L = bayes(check, r, how)
    nn, pB, pm = table(r, k)
    m = r.new("PreferenceGP", r.new("RBF_kern", ONE, ONE)) if model == "PreferenceGP" else r.new("PreferenceLinear")
    r.set(m, X_train=r.arr("X", N, D), optimized=TRUE, cov=r.arr("Kc", C(nn), C(nn)))
    r.set(L, model=m)
    rp = check.repo
    al = rp.cls("ActiveLearner").methods
    for nm in ("p_B_pref_gp", "p_B_pref_linear"):
        r.I.hooks[al[nm]] = lambda I, st, a, kw, nd: pB
    mu = r.arr("mu", C(nn))
    lik = rp.method(rp.cls("PreferenceProbit"), "likelihood_all_pairs")
    wrong = []

    def pairs_(I, st, a, kw, nd):
        x = I.arr(a[1], st)
        i = IV()
        if not (isinstance(x, Arr) and x.rank == 1 and norm(x.at(i)) is norm(AT("mu", i))):
            wrong.append(1)
        return pm
    r.I.hooks[lik] = pairs_
    pk = al["pick_pair_from_metric"]
    seen = []

    def pick(I, st, a, kw, nd):
        b = I.bind(pk, pk.node, a, kw, st, nd)
        seen.append(I.arr(b["info_gain"], st))
        return VTuple([C(0), C(2)])
    r.I.hooks[pk] = pick
    r.call(L, "select_pair", r.arr("cand", C(nn), D), mu, r.arr("var", C(nn)), qlist(r, range(nn)), qlist(r, ()))
    if not check.no_errors(r.I, rule, tag):
        return
    if wrong:
        return check.ob(rule, tag, w, "refuted", "the choice probabilities are not those at the predicted means")
    if len(seen) != 1 or not isinstance(seen[0], Arr) or seen[0].rank != 2:
        return check.ob(rule, tag, w, "unknown", "no metric of pairs found")
    H = ask(r, "entropy_of", pB)
    for i, j in itertools.permutations(range(nn), 2):
        e = ask(r, "pair_gain", C(i), C(j), pB, pm, K(how), C(nn))
        if not isinstance(e, T) or not isinstance(H, T):
            check.ob(rule, tag, w, "unknown", "%r" % (e,))
            continue
        check.equal(rule, "%s: %d, %d" % (tag, i, j), w, seen[0].at(C(i), C(j)), sub(H, e))


class Gain(Choice):
    """select_greedy with the entropy after an answer as a symbol of the query asked about"""

    def __init__(self, check, model, prev):
        self.queries = []
        f = check.repo.method(check.repo.cls("BayesInfoGain"), "calc_H_B_Q")

        def after(I, st, a, kw, nd):
            b = I.bind(f, f.node, a, kw, st, nd)
            names = [x.arg for x in f.node.args.args]
            Q, p, M_ = (I.arr(b[x], st) for x in names[1:4])
            i, j = IV(), IV()
            if not isinstance(Q, Arr) or Q.rank != 1 or pc_const(norm(Q.dims[0])) is None:
                return I.unk("query")
            if not isinstance(p, Arr) or p.rank != 1 or norm(p.at(i)) is not norm(AT("pB", i)):
                self.problems.append("the entropy is that of other probabilities")
                return I.unk("query")
            mu = lambda t: AT("mu", t)
            d = div(sub(mu(i), mu(j)), mul(pw(TWO, C(Fraction(1, 2))), S("sg", True, "real")))
            if not isinstance(M_, Arr) or M_.rank != 2 or norm(M_.at(i, j)) is not norm(fn("ndtr", d)):
                self.problems.append("other choice probabilities")
                return I.unk("query")
            es = [Q.at(C(k)) for k in range(int(pc_const(norm(Q.dims[0]))))]
            olds = [e for e in es if pc_const(norm(e)) is not None]
            new_ = [e for e in es if pc_const(norm(e)) is None]
            olds = sorted(olds, key=lambda e: pc_const(norm(e)))
            return AT("HQ%d" % len(es), *(olds + new_))
        self.after = (f, after)
        # (hooked before the call is made)
        self._prev = prev
        super().__init__(check, "BayesInfoGain", model, "select_greedy", prev)


def greedy_info(check, f, model, prev, tag):
    rule = "the choice has the highest information gain"
    w = f.where()
    ch = Gain(check, model, prev)
    if raised(ch):
        return
    r = ch.run
    q = S("it", False, "int")
    H = ask(r, "entropy_of", r.st.new(sym_arr("pB", [N])))
    n_ = len(prev) + 1
    want = sub(H, AT("HQ%d" % n_, *([C(x) for x in sorted(prev)] + [q])))
    v = r.get(ch.v)
    pos = None
    for t, facts in leaves(v if not isinstance(v, Unk) else ch.v):
        pos = position(ch, t)
        if not pos or ch.problems:
            bad = [p for p in ch.problems if p.startswith("the entropy is") or p.startswith("other choice")]
            check.ob(rule, tag, w, "unknown", "choice %s; %s" % (show(t)[:200] if isinstance(t, T) else t, ch.problems[:2]))
            continue
        if pos[0] == "random":
            check.ob(rule, tag, w, "refuted", "the choice is random")
            continue
        kind, iv, dim, body = pos[1].args
        k = S("pos", False, "int")
        got, wk = tsubst(body, {iv: k}), tsubst(want, {q: AT("ind", k)})
        if kind != "argmax":
            got = neg(got)
        # adding the same constant to every gain changes no choice
        a, b = norm(got), norm(wk)
        c = norm(add(got, neg(H)))
        if a is b or norm(neg(tsubst(AT("HQ%d" % n_, *([C(x) for x in sorted(prev)] + [q])), {q: AT("ind", k)}))) is a:
            check.ob(rule, tag, w, "proved", "")
        else:
            check.equal(rule, tag, w, got, wk)
    m = r.get(under(ch.metric, ()))
    if isinstance(m, Arr) and not m.dims:
        m = m.body
    if isinstance(m, T) and pos and pos[0] == "best":
        k = S("pos", False, "int")
        kind, iv, dim, body = pos[1].args
        check.equal("the score is the information gain", tag, w, tsubst(m, {pos[1]: k}),
                    [tsubst(want, {q: AT("ind", k)}), mk("red", "max", iv, dim, tsubst(want, {q: AT("ind", iv)}))])
