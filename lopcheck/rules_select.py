"""C14 C15 C22: what the active learners choose, the score they record for it, and the criteria they compare."""
import itertools
import time
from fractions import Fraction
from .rule import *
from .rules_choice import method, fold, mat, catch_choice

FIXTURE = '''
from lop.active_learning.ActiveLearner import ActiveLearner


class OneByOne(ActiveLearner):
    def select_greedy(self, candidate_pts, mu, data, indicies, prev_selection):
        return None


class PairFirst(ActiveLearner):
    def select_greedy(self, candidate_pts, mu, data, indicies, prev_selection):
        return None

    def select_pair(self, candidate_pts, mu, data, indicies, prev_selection):
        return None


class Bounded(ActiveLearner):
    def __init__(self):
        super(Bounded, self).__init__()
        self.max_num_alts = 1

    def select_greedy(self, candidate_pts, mu, data, indicies, prev_selection):
        return None
'''


# ---------------------------------------------------------------- C14: the selection loop over small index sets
ONE_WAY = {"first": lambda ks: ks[0], "last": lambda ks: ks[-1], "middle": lambda ks: ks[len(ks) // 2]}
PAIR_WAY = {"first": lambda ks: (ks[0], ks[-1]), "last": lambda ks: (ks[-1], ks[0]), "middle": lambda ks: (ks[len(ks) // 2], ks[0])}


def value_of(run, spec):
    """a Python-like constant as an abstract value: None, int, str, list, set"""
    if spec is None:
        return NONE
    if isinstance(spec, bool):
        return TRUE if spec else FALSE
    if isinstance(spec, str):
        return K(spec)
    if isinstance(spec, int):
        return C(spec)
    if isinstance(spec, (set, frozenset)):
        return run.st.new(VSet([C(x) for x in sorted(spec)]))
    return run.st.new(VList([("item", C(x)) for x in spec]))


def scopes(check):
    """the scenarios of one selection: number of candidates, number wanted, preferred points, earlier selections, options"""
    full = check.tier == "thorough"
    out = []
    for n in (2, 3, 4) if not full else (1, 2, 3, 4, 5):
        prefs = [None, [n - 1], {0, n - 1}, 0, 2, n + 2, "pareto"]
        prevs = [[], [0], {n - 1}] + ([[0, n - 2]] if n > 3 else [])
        for alts in range(1, n + 1 if not full else n + 2):
            for prefer, prev, lrn, one, best, rns in itertools.product(prefs, prevs, ("OneByOne", "PairFirst", "Bounded"), sorted(ONE_WAY), (False, True), (False, True)):
                for pair in (True, False) if lrn == "PairFirst" else (True,):
                    out.append((n, alts, prefer, prev, lrn, one, best, rns, pair))
    if not full:
        out = [s for k, s in enumerate(out) if (k * 7919 + 31 * (k // 5)) % 4 == 0]
    return out


def c14_loop(check):
    f = method(check, "ActiveLearner", "select")
    check.repo.add_source("lopcheck_select", FIXTURE)
    tot = {}
    for sc in scopes(check):
        check.tally = tot
        c14_one(check, f, sc, tot)
    for (rule, status), (cnt, detail) in sorted(tot.items()):
        check.ob(rule, "%s, %d scenarios" % (f.qual, cnt), f.where(), status, detail)


def c14_one(check, f, sc, tot):
    n, alts, prefer, prev, lrn, one, best, rns, pair = sc
    tag = "%d candidates, %d wanted, prefer=%s, already selected=%s, %s learner choosing the %s%s%s%s" % (
        n, alts, prefer, prev, lrn, one, ", best first" if best else "", ", returning what was not selected" if rns else "", "" if pair else ", no pair first")

    def note(rule, status, detail=""):
        c, d = tot.get((rule, status), (0, ""))
        tot[(rule, status)] = (c + 1, d or (tag + ": " + detail if status != "proved" else ""))
    run = Run(check)
    try:
        cls = check.repo.sym["lopcheck_select"]["lopcheck_select." + lrn] if False else check.repo.cls(lrn)
        L = run.new(cls)
        mus = [(k * 5 + 2) % 7 for k in range(n)]
        mu, var = run.vec(*[C(m) for m in mus]), run.vec(*[C(1) for _ in range(n)])
        calls = []
        par = [k for k in range(n) if k % 2] or [0]
        run.I.hooks[check.repo.func("get_pareto")] = lambda I, st, a, kw, nd: st.new(VList([("item", C(k)) for k in par]))

        def sel(kind):
            def h(I, st, a, kw, nd):
                b = I.bind(g[kind], g[kind].node, a, kw, st, nd)
                ks, pv = (I.setkeys(b[x], st) if x in b else None for x in ("indicies", "prev_selection"))
                if ks is None or pv is None:
                    raise NotImplementedError("index sets not resolved")
                ks, pv = sorted(int(k) for k in ks), sorted(int(k) for k in pv)
                calls.append((kind, ks, pv))
                if len(ks) < (1 if kind == "select_greedy" else 2):
                    raise Empty(kind)
                if len(calls) > 12:
                    raise NotImplementedError("selection does not end")
                if kind == "select_greedy":
                    r = ONE_WAY[one](ks)
                    chosen.append(r)
                    return C(r)
                r = PAIR_WAY[one](ks)
                chosen.extend(r)
                return VTuple([C(r[0]), C(r[1])])
            return h
        chosen = []
        g = {}
        for nm in ("select_greedy", "select_pair"):
            m = cls.methods.get(nm)
            if m is not None:
                g[nm] = m
                run.I.hooks[m] = sel(nm)
        model = run.st.new(VObj(None, {}, {"predict": lambda I, st, me, a, kw, nd: VTuple([mu, var])}, "model"))
        run.set(L, model=model)
        run.set(L, always_select_best=TRUE if best else FALSE)
        kw = {"prev_selection": value_of(run, prev), "prefer_pts": value_of(run, prefer),
              "return_not_selected": TRUE if rns else FALSE, "select_pair_first": TRUE if pair else FALSE}
        v = run.call(L, "select", run.arr("cand", C(n), D), C(alts), **kw)
        if lrn == "Bounded":
            alts = min(alts, 1)
    except Empty as e:
        note("a selector is asked only when it has enough to choose from", "refuted", "%s was given %s" % (e, calls[-1][1]))
        return
    except (NotImplementedError, AssertionError, KeyError, TypeError, ValueError) as e:
        note("the selection loop is resolved", "unknown", "%s: %s" % (type(e).__name__, e))
        return
    note("a selector is asked only when it has enough to choose from", "proved")
    prevs = set(prev)
    if prefer is None or prefer == 0:
        pset = set(range(n))
    elif prefer == "pareto":
        pset = set(par)
    elif isinstance(prefer, int):
        pset = set(range(min(prefer, n)))
    else:
        pset = set(prefer)
    free = set(range(n)) - prevs
    sat = len(free) >= alts
    raised = bool(run.I.excs)
    if raised:
        note("as many are selected as were asked for, or the call fails", "proved" if not sat else "refuted", "the call fails although %d candidates are free" % len(free))
        return
    sels = run.get(v)
    if rns:
        if not isinstance(v, VTuple) or len(v.items) != 2:
            note("the selection loop is resolved", "unknown", "result %r" % (sels,))
            return
        sels = run.get(v.items[0])
    try:
        items = list(sels.items()) if isinstance(sels, VList) and sels.static else list(sels.items)
        got = [int(run.I.constof(x)) for x in items]
    except Exception:
        note("the selection loop is resolved", "unknown", "result %r" % (sels,))
        return

    def must(rule, cond, detail):
        note(rule, "proved" if cond else "refuted", detail)
    must("as many are selected as were asked for, or the call fails", len(got) == alts, "%s selected" % (got,))
    must("no index is selected twice", len(set(got)) == len(got), "%s selected" % (got,))
    must("indices are candidates that were not selected before", set(got) <= free, "%s selected" % (got,))
    must("preferred points come first", len(set(got) - pset) == 0 or (pset & free) <= set(got), "%s selected, preferred and free: %s" % (got, sorted(pset & free)))
    if best and not prevs and got:
        w = max(sorted(pset & free) or sorted(free), key=lambda k: mus[k])
        must("the best candidate is put first when asked for", got[0] == w, "%s selected, the best is %d" % (got, w))
    done = set(prevs)
    for kind, ks, pv in calls:
        must("choices are made among candidates that are still free", set(ks) <= set(range(n)) and not (set(ks) & prevs), "%s was told to choose among %s" % (kind, ks))
        must("a selector is told what was selected before", prevs <= set(pv) and not (set(pv) & set(ks)), "%s was told to choose among %s with %s selected" % (kind, ks, pv))
    if not rns:
        # what a selector returned is what is selected, in order
        lead = 1 if best and not prevs else 0
        must("what the selectors choose is what is selected", got[lead:] == chosen, "%s chosen, %s selected" % (chosen, got))


class Empty(Exception):
    pass


# ---------------------------------------------------------------- one choice with symbolic candidates
KD, MS, NR = S("Kd", True, "dim"), S("Ms", True, "dim"), S("Nr", True, "dim")
MODELS = ("PreferenceGP", "PreferenceLinear", "GP")


def declare():
    ARRAYS.update({"ind": {"sort": "int", "perm": True}, "var": {"sort": "pos"}, "cv": {"spd": True, "sym": True}, "al": {"sort": "real", "sym": True},
                   "W": {"sort": "real"}, "ws": {"sort": "real"}, "aQ": {"sort": "real"}, "arep": {"sort": "real"}, "qn": {"sort": "unit"}, "qw": {"sort": "pos"}, "bpdf": {"fun": True},
                   "pB": {"sort": "unit"}, "chosen": {"sort": "int"}})


def learners(check):
    """the learners with their own choice of one candidate, from the class hierarchy"""
    out = []
    for c in check.repo.subclasses(check.repo.cls("ActiveLearner")):
        if c.module.name.startswith("lopcheck"):
            continue
        m = check.repo.method(c, "select_greedy")
        if m is not None and m.cls is not None and m.cls.name not in ("ActiveLearner", "AcquisitionBase"):
            out.append(c)
    return sorted(out, key=lambda c: c.name)


def density(I, st, a, kw, nd, g):
    return I.mapn(lambda x, p, q: g(AT("bpdf", x, p, q)), [I.arg(a, kw, 0, "x"), I.arg(a, kw, 1, "a"), I.arg(a, kw, 2, "b")], st, nd, "beta.pdf")


class Choice:
    """one call of select_greedy/select_pair: candidates cand[N,D], predictions mu, var, candidates to choose among ind[Kd]"""
    after = None                # one more method replaced by a stand-in

    def __init__(self, check, cls, model, meth, prev, data=True, rep=True, pB=True, args=(), **attrs):
        declare()
        self.check, self.cls, self.meth, self.kind = check, cls, meth, model
        self.problems = []
        r = self.run = Run(check)
        rp = check.repo
        self.L = L = r.new(rp.cls(cls), *args)
        if model == "PreferenceGP":
            m = r.new(model, r.new("RBF_kern", ONE, ONE))
        elif model == "GP":
            m = r.new(model, r.new("RBF_kern", ONE, ONE))
        else:
            m = r.new(model)
        self.model = m
        self.mu, self.var, self.cand = r.arr("mu", N), r.arr("var", N), r.arr("cand", N, D)
        cv = self.cv = r.arr("cv", N, N)
        self.probit = None
        ps = r.get(m).attrs.get("probits")
        ps = r.get(ps) if ps is not None else None
        if isinstance(ps, (VList, VTuple)):
            items = list(ps.items()) if isinstance(ps, VList) else list(ps.items)
            r.call(items[0], "set_sigma", S("sg", True, "real"))
        r.set(m, cov=cv, X_train=r.arr("X", N, D) if data else NONE, optimized=TRUE)
        self.ind = r.arr("ind", KD, dt="int")
        self.prev = prev
        o = r.get(L)
        if "M" in o.attrs:
            r.set(L, M=MS)
        r.set(L, model=m, sel_metric=S("stale"), first_call_greedy=TRUE, **attrs)
        ex, hk = r.I.exthooks, r.I.hooks
        self.rnd = {}
        self.draws = []
        ex["numpy.random.multivariate_normal"] = self.normal
        ex["numpy.random.choice"] = self.choice
        ex["numpy.random.randint"] = self.randint
        ex["scipy.integrate.quad_vec"] = self.integral
        if cls == "AbsAcquisition":         # the beta density stays a symbol
            ARRAYS["bpdf"] = {"fun": True}
            ex["scipy.stats.beta.pdf"] = lambda I, st, a, kw, nd: density(I, st, a, kw, nd, lambda t: t)
            ex["scipy.stats.beta.logpdf"] = lambda I, st, a, kw, nd: density(I, st, a, kw, nd, lambda t: fn("log", t))
        hk[rp.func("metropolis_hastings")] = self.chain
        base = rp.cls("AcquisitionBase").methods
        if rp.cls("AcquisitionBase") in rp.mro(rp.cls(cls)):
            hk[base["get_representative_Q"]] = lambda I, st, a, kw, nd: VTuple(
                [st.new(sym_arr("xrep", [NR, D])), st.new(sym_arr("Qrep", [S("nQ", True, "dim"), C(2)], "int"))] if rep else [NONE, NONE])
            hk[base["get_samples_from_model"]] = self.samples
            hk[base["alignment"]] = lambda I, st, a, kw, nd: st.new(sym_arr("al", [MS, MS]))
        if pB:
            al = rp.cls("ActiveLearner").methods
            for nm in ("p_B_pref_gp", "p_B_pref_linear"):
                if nm in al:
                    hk[al[nm]] = lambda I, st, a, kw, nd: st.new(sym_arr("pB", [N]))
        self.pairs = []
        hk[rp.cls("ActiveLearner").methods["pick_pair_from_metric"]] = self.pick
        if self.after:
            hk[self.after[0]] = self.after[1]
        prevv = r.st.new(VList([("item", C(x)) for x in prev]))
        self.v = r.call(L, meth, self.cand, self.mu, self.var, self.ind, prevv)
        self.metric = r.attr(L, "sel_metric")

    def normal(self, I, st, a, kw, nd):
        mean, cov = kw.get("mean", a[0] if a else None), kw.get("cov", a[1] if len(a) > 1 else None)
        size = kw.get("size", a[2] if len(a) > 2 else None)
        dims = I.shape_of(size, st) if size is not None and size is not NONE else []
        self.draws.append((mean, cov))
        x, c = I.arr(mean, st), I.arr(cov, st)
        ok = isinstance(x, Arr) and isinstance(c, Arr) and x.rank == 1 and c.rank == 2 and x.dims[0] is N
        if ok:
            i, j = IV(), IV()
            ok = norm(x.at(i)) is norm(AT("mu", i)) and norm(c.at(i, j)) is norm(AT("cv", i, j))
        if not ok or dims is None or len(dims) != 1:
            self.problems.append("samples are drawn with another mean or covariance")
            return I.fresh_unk("rng")
        return st.new(sym_arr("W", [dims[0], N]))

    def chain(self, I, st, a, kw, nd):
        f = self.check.repo.func("metropolis_hastings")
        b = I.bind(f, f.node, a, kw, st, nd)
        d, n = b.get("dim"), b.get("num_samples")
        g = b.get("loss_func", a[0] if a else None)
        if not (isinstance(g, Bound) and g.func.name == "loss_func" and g.self_ is self.model) or not isinstance(d, T) or not isinstance(n, T):
            self.problems.append("samples of another density")
            return I.fresh_unk("rng")
        return st.new(sym_arr("ws", [MS, d]))

    def choice(self, I, st, a, kw, nd):
        d = {nm: kw.get(nm, a[k] if len(a) > k else None) for k, nm in enumerate(("a", "size", "replace", "p"))}
        pop = I.arr(d["a"], st)
        dims = I.shape_of(d["size"], st) if d["size"] is not None and d["size"] is not NONE else []
        if dims is None or pop is None:
            return I.fresh_unk("rng")
        nm = "chosen%d" % len(self.rnd)
        hi = pop.dims[0] if isinstance(pop, Arr) else pop
        rep = d["replace"] is None or d["replace"] is TRUE
        self.rnd[nm] = (ZERO, hi, rep)
        get = (lambda t: pop.at(t)) if isinstance(pop, Arr) and pop.rank == 1 else (lambda t: t)
        if not dims:
            return get(S(nm, False, "int"))
        ARRAYS[nm] = {"sort": "int", "perm": not rep}
        ivs = tuple(IV() for _ in dims)
        return st.new(Arr(ivs, tuple(dims), get(AT(nm, *ivs)), "i"))

    def randint(self, I, st, a, kw, nd):
        lo, hi, size = [kw.get(nm, a[k] if len(a) > k else None) for k, nm in enumerate(("low", "high", "size"))]
        if hi is None or hi is NONE:
            lo, hi = ZERO, lo
        lo, hi = I.scalar(lo, st), I.scalar(hi, st)
        if size is not None and size is not NONE or lo is None or hi is None:
            return I.fresh_unk("rng")
        nm = "chosen%d" % len(self.rnd)
        self.rnd[nm] = (lo, hi, True)
        return S(nm, False, "int")

    def integral(self, I, st, a, kw, nd):
        """any quadrature rule: a weighted sum over nodes"""
        lo, hi = a[1] if len(a) > 1 else kw.get("a"), a[2] if len(a) > 2 else kw.get("b")
        args = kw.get("args", VTuple([]))
        args = st.get(args)
        items = args.items if isinstance(args, VTuple) else None
        if items is None:
            return I.fresh_unk("integral")
        try:
            good = float(lo.args[0]) <= 0.01 and float(hi.args[0]) >= 0.99
        except Exception:
            good = False
        if not good:
            self.problems.append("integral over part of the ratings")
            return I.fresh_unk("integral")
        k = IV()
        body = I.call(a[0], [AT("qn", k)] + list(items), {}, st, nd)
        o = I.arr(body, st)
        nq = S("Nq", True, "dim")
        if isinstance(o, T):
            return VTuple([SUM(k, nq, mul(AT("qw", k), o)), S("qerr")])
        if not isinstance(o, Arr):
            return VTuple([I.fresh_unk("integral"), S("qerr")])
        ivs = tuple(IV() for _ in o.dims)
        k2 = IV()
        return VTuple([st.new(Arr(ivs, o.dims, SUM(k2, nq, mul(AT("qw", k2), tsubst(o.at(*ivs), {k: k2}))), "f")), S("qerr")])

    def samples(self, I, st, a, kw, nd):
        f = self.check.repo.cls("AcquisitionBase").methods["get_samples_from_model"]
        b = I.bind(f, f.node, a, kw, st, nd)
        c = I.arr(b["candidate_pts"], st)
        i, j = IV(), IV()
        if not isinstance(c, Arr) or c.rank != 2:
            return I.fresh_unk("samples")
        t = c.at(i, j)
        if not (t.op == "at" and t.args[0] == "cand" and t.args[-1] is j):
            self.problems.append("samples for other points")
            return I.fresh_unk("samples")
        m = IV()
        return VTuple([st.new(sym_arr("arep", [MS, NR])), st.new(Arr((m, i), (MS, c.dims[0]), AT("aQ", m, t.args[1]), "f"))])

    def pick(self, I, st, a, kw, nd):
        f = self.check.repo.cls("ActiveLearner").methods["pick_pair_from_metric"]
        b = I.bind(f, f.node, a, kw, st, nd)
        g = I.arr(b["info_gain"], st)
        self.pairs.append((g, b.get("prev_selection"), b.get("indicies")))
        self.rnd["pa"] = self.rnd["pb"] = (ZERO, KD, False)
        return VTuple([AT("ind", S("pa", False, "int")), AT("ind", S("pb", False, "int"))])


def leaves(t, facts=()):
    if isinstance(t, T) and t.op == "if":
        return leaves(t.args[1], facts + ((t.args[0], True),)) + leaves(t.args[2], facts + ((t.args[0], False),))
    if isinstance(t, Phi):
        return leaves(t.a, facts + ((t.c, True),)) + leaves(t.b, facts + ((t.c, False),))
    return [(t, facts)]


def under(t, facts):
    """the term with conditions already decided on this path taken out"""
    d = dict(facts)
    while True:
        if isinstance(t, T) and t.op == "if" and t.args[0] in d:
            t = t.args[1] if d[t.args[0]] else t.args[2]
        elif isinstance(t, Phi) and t.c in d:
            t = t.a if d[t.c] else t.b
        else:
            return t


def position(ch, t):
    """('in', kind, position term) when t is ind[p] with p certainly within the list; ('?', ...) otherwise"""
    if not (isinstance(t, T) and t.op == "at" and t.args[0] == "ind"):
        return None
    p = t.args[1]
    if p.op == "red" and p.args[0] in ("argmax", "argmin"):
        return ("best", p) if norm(p.args[2]) is norm(KD) else None
    if p.op == "s" and p.args[0] in ch.rnd:
        lo, hi, _ = ch.rnd[p.args[0]]
        return ("random", p) if norm(lo) is norm(ZERO) and norm(hi) is norm(KD) else None
    if p.op == "at" and p.args[0] in ch.rnd:
        lo, hi, _ = ch.rnd[p.args[0]]
        return ("random", p) if norm(hi) is norm(KD) else None
    return None


def outside(ch, t):
    """a valuation in which t is not one of ind[0..Kd)"""
    ARRAYS["anyscore"] = {"sort": "real"}
    for x in list(walk(t)):
        if x.op == "red" and x.args[0] in ("argmax", "argmin"):
            kind, iv, dim, body = x.args
            inner = list(walk(body))
            if len(inner) > 50 and iv in inner and not any(y is NINF or y is INF or y.op in ("eq", "lt", "le", "delta", "ind") and iv in y.args for y in inner):
                # no candidate is masked: the largest score can be anywhere
                t = tsubst(t, {x: mk("red", kind, iv, dim, AT("anyscore", iv))})
    p = norm(t)
    if opaque_atoms(p):
        return None
    hits, end = 0, time.monotonic() + 10
    for s in range(24):
        for n, k in ((3, 2), (5, 3), (4, 2), (6, 5)):
            if time.monotonic() > end:
                return None
            v = Valuation(s, {"N": n, "Kd": k, "Ms": 2, "Nr": 2, "Nq": 2, "D": 2})
            v.end = end
            rnd = {}
            try:
                for nm, (lo, hi, _) in ch.rnd.items():
                    a, b = v.idx(norm(lo)), v.idx(norm(hi))
                    rnd[nm] = a + int(v.h("rnd", nm) * (b - a))
                v.pin = rnd
                x = v.ev(p)
                V = [v.ev(norm(AT("ind", C(q)))) for q in range(k)]
            except (NoValue, RecursionError, OverflowError, ZeroDivisionError):
                continue
            if not any(abs(x - y) < 1e-6 for y in V):
                hits += 1
                if hits > 1:
                    return "with %d candidates to choose among at %s the choice is %s" % (k, [int(y) for y in V], x)
    return None


def choices(check, meth="select_greedy"):
    """(tag, thunk) of the choices to examine"""
    out = []
    for cls in learners(check):
        f = check.repo.method(cls, meth)
        if f is None or f.cls.name == "ActiveLearner":
            continue
        init = check.repo.method(cls, "__init__")
        b = check.repo.cls("AcquisitionBase") in check.repo.mro(cls)
        for model in MODELS:
            for prev in ((), (0,), (1, 0)) if meth == "select_greedy" else ((),):
                for data in (True, False):
                    for rep in ((True, False) if b and data else (True,)):
                        tag = "%s.%s, %s, %d selected before%s%s" % (cls.name, meth, model, len(prev), "" if data else ", no data yet", "" if rep else ", no representative queries")
                        out.append((tag, f, cls, model, prev, data, rep))
    return out


def make(check, it, meth):
    tag, f, cls, model, prev, data, rep = it
    return Choice(check, cls.name, model, meth, prev, data, rep)


def c14(check):
    check.guard("the selection loop is resolved", "ActiveLearner.select", "", c14_loop, check)
    for it in choices(check):
        check.guard("the choice is one of the candidates to choose among", it[0], it[1].where(), c14_choice, check, it)
    for it in choices(check, "select_pair"):
        check.guard("the pair is made of two of the candidates to choose among", it[0], it[1].where(), c14_pair, check, it)
    f = method(check, "ActiveLearner", "select_greedy_k")
    check.guard("no index is selected twice", f.qual, f.where(), c15_k, check, f, False)
    f = method(check, "ActiveLearner", "pick_pair_from_metric")
    check.guard("the pair is picked among the free candidates", f.qual, f.where(), pick_pair, check, f, False)
    f = method(check, "ActiveLearner", "select_best")
    check.guard("the best candidate is one of the candidates to choose among", f.qual, f.where(), c14_best, check, f)


def raised(ch):
    """the choice fails, or the learner does not know the kind of model"""
    return ch.run.I.excs or ch.run.I.errors and ch.kind == "GP"


def member(check, ch, rule, tag, w, t):
    if not isinstance(t, T):
        check.ob(rule, tag, w, "unknown", "result not resolved: %r" % (t,))
        return None
    if position(ch, t):
        check.ob(rule, tag, w, "proved", "")
        return True
    if t is NONE:
        check.ob(rule, tag, w, "refuted", "nothing is chosen (None)")
        return False
    d = outside(ch, t)
    if d:
        check.ob(rule, tag, w, "refuted", "%s\n      computed choice %s" % (d, show(t)[:300]))
        return False
    check.ob(rule, tag, w, "unknown", "choice %s" % show(t)[:300])
    return None


def c14_choice(check, it):
    tag, f, w = it[0], it[1], it[1].where()
    rule = "the choice is one of the candidates to choose among"
    ch = make(check, it, "select_greedy")
    if raised(ch):
        return
    v = ch.run.get(ch.v)
    for t, facts in leaves(v if not isinstance(v, Unk) else ch.v):
        member(check, ch, rule, tag, w, t)


def c14_pair(check, it):
    tag, f, w = it[0], it[1], it[1].where()
    rule = "the pair is made of two of the candidates to choose among"
    ch = make(check, it, "select_pair")
    if raised(ch):
        return
    for v, facts in leaves(ch.run.get(ch.v)):
        v = ch.run.get(v)
        if isinstance(v, (VList, VTuple)) or isinstance(v, Arr):
            items = list(v.items) if isinstance(v, VTuple) else list(v.items()) if isinstance(v, VList) and v.static else None
            if isinstance(v, Arr) and v.rank == 1 and norm(v.dims[0]) is norm(C(2)):
                items = [v.at(ZERO), v.at(ONE)]
        else:
            items = None
        if items is None or len(items) != 2:
            check.ob(rule, tag, w, "unknown", "result %r" % (v,))
            continue
        a, b = (under(x, facts) for x in items)
        member(check, ch, rule, tag, w, a)
        member(check, ch, rule, tag, w, b)
        distinct(check, ch, tag, w, a, b)
    for g, pv, ids in ch.pairs:
        given(check, ch, tag, w, pv, ids)


def distinct(check, ch, tag, w, a, b):
    rule = "the two candidates of a pair differ"
    if not isinstance(a, T) or not isinstance(b, T):
        check.ob(rule, tag, w, "unknown", "%r %r" % (a, b))
        return
    if norm(a) is norm(b):
        check.ob(rule, tag, w, "refuted", "both are %s" % show(a)[:200])
        return
    pa, pb = position(ch, a), position(ch, b)
    if pa and pb and {pa[1].args[0], pb[1].args[0]} == {"pa", "pb"} and ch.pairs:
        check.ob(rule, tag, w, "proved", "")
    elif pa and pb and pa[1].op == "at" and pb[1].op == "at" and pa[1].args[0] == pb[1].args[0]:
        rep = ch.rnd[pa[1].args[0]][2]
        check.ob(rule, tag, w, "refuted" if rep else "proved", "both are drawn with replacement" if rep else "")
    elif pa and pb and pa[0] == pb[0] == "random" and pa[1] is not pb[1]:
        check.ob(rule, tag, w, "refuted", "the two are drawn independently of each other")
    else:
        check.ob(rule, tag, w, "unknown", "%s and %s" % (show(a)[:150], show(b)[:150]))


def given(check, ch, tag, w, pv, ids):
    rule = "the pair is picked among the candidates to choose among"
    I, st = ch.run.I, ch.run.st
    if ids is None or ids is NONE:
        check.ob(rule, tag, w, "refuted", "the pair is picked from all candidates")
        return
    o = I.arr(ids, st)
    if isinstance(o, Arr) and o.rank == 1:
        check.arr_equal(rule, tag, w, o, st, [KD], lambda i: AT("ind", i))
    else:
        check.ob(rule, tag, w, "unknown", "picked among %r" % (ids,))
    ks = I.setkeys(pv, st) if pv is not None else None
    if ks is None:
        check.ob("the pair is picked with what was selected before", tag, w, "unknown", "%r" % (pv,))
    else:
        check.ok("the pair is picked with what was selected before", tag, w, set(int(k) for k in ks) >= set(ch.prev), "told %s" % sorted(ks))


# ---------------------------------------------------------------- C15
def stale(t):
    return isinstance(t, T) and any(x.op == "s" and x.args[0] == "stale" for x in walk(t))


def c15(check):
    check.tries = 16
    for it in choices(check):
        check.guard("the score is that of the choice", it[0], it[1].where(), c15_choice, check, it, "select_greedy")
    for it in choices(check, "select_pair"):
        check.guard("the score is that of the choice", it[0], it[1].where(), c15_choice, check, it, "select_pair")
    f = method(check, "ActiveLearner", "select_greedy_k")
    check.guard("scores are listed with their choices", f.qual, f.where(), c15_k, check, f)
    f = method(check, "ActiveLearner", "pick_pair_from_metric")
    check.guard("the pair picked has the best score", f.qual, f.where(), pick_pair, check, f, True)


def c15_choice(check, it, meth):
    tag, f, w = it[0], it[1], it[1].where()
    ch = make(check, it, meth)
    if raised(ch):
        return
    v = ch.run.get(ch.v)
    m0 = ch.metric
    for t, facts in leaves(v if not isinstance(v, Unk) else ch.v):
        mm = under(m0, facts)
        for m, f2 in leaves(mm):
            one_score(check, ch, tag, w, under(t, facts + f2), m)


def one_score(check, ch, tag, w, t, m):
    rule = "a score is recorded with every choice"
    if isinstance(m, T) and m.op == "s" and m.args[0] == "stale":
        check.ob(rule, tag, w, "refuted", "the score of an earlier choice is left in place")
        return
    mt = ch.run.get(m)
    if isinstance(mt, Arr) and not mt.dims:
        mt = mt.body
    if not isinstance(mt, T) or mt is NONE:
        st = "unknown" if mt is not NONE else "refuted"
        check.ob(rule, tag, w, st, "score %r" % (mt,))
        return
    if stale(mt):
        check.equal(rule, tag, w, mt, tsubst(mt, {S("stale"): add(S("stale"), ONE)}))
        return
    check.ob(rule, tag, w, "proved", "")
    rule = "the score is that of the choice"
    t = ch.run.get(t)
    if isinstance(t, T) and t is not NONE:
        pos = position(ch, t)
        if pos and pos[0] == "best":
            p = pos[1]
            kind, iv, dim, body = p.args
            q = S("best", False, "int")
            at_p, mx = tsubst(body, {iv: q}), mk("red", kind[3:], iv, dim, body)
            got = tsubst(mt, {p: q})
            if got is at_p or mt is mx:
                check.ob(rule, tag, w, "proved", "")
            elif any(x.op == "red" and x.args[0] == kind[3:] for x in walk(mt)):
                check.equal(rule, tag, w, mt, [tsubst(body, {iv: p}), mx])
            else:
                check.equal(rule, tag, w, got, at_p)
            return
        if pos:
            if mt.op == "c":
                check.ob(rule, tag, w, "proved", "")
            else:
                check.ob(rule, tag, w, "unknown", "score %s of a random choice" % show(mt)[:200])
            return
        check.ob(rule, tag, w, "unknown", "choice %s" % show(t)[:200])
        return
    if isinstance(t, (VTuple, VList)) and ch.meth == "select_pair":
        items = list(t.items) if isinstance(t, VTuple) else list(t.items())
        ps = [position(ch, x) if isinstance(x, T) else None for x in items]
        if ch.pairs and all(ps) and {p[1].args[0] for p in ps} == {"pa", "pb"}:
            g = ch.pairs[-1][0]
            if isinstance(g, Arr) and g.rank == 2:
                want = g.at(*items)
                check.equal(rule, tag, w, mt, [want, g.at(*items[::-1])] if symmetric(g) else want)
                for d in g.dims:
                    check.equal("the pair's criterion is indexed by candidate", tag, w, d, N)
                return
        elif len(items) == 2 and all(ps) and mt.op == "c":
            check.ob(rule, tag, w, "proved", "")
            return
    check.ob(rule, tag, w, "unknown", "choice %r" % (t,))


def symmetric(g):
    i, j = IV(), IV()
    return norm(g.at(i, j)) is norm(g.at(j, i))


def c15_k(check, f, score=True):
    """choices made one after the other: each with the score recorded for it"""
    check.repo.add_source("lopcheck_select", FIXTURE)
    own = [c.name for c in learners(check) if len(check.repo.method(c, "__init__").node.args.args) <= 1 + len(check.repo.method(c, "__init__").node.args.defaults)]
    for cname, (cur, ids, k) in itertools.product(["OneByOne"] + own, (([], [0, 1, 2, 3], 3), ([2], [0, 1, 2, 3], 3), ([2, 0], [0, 2, 3], 3), ([], {1, 3}, 1), ([1], [0, 1], 1))):
        tag = "%s of %s, choosing among %s with %s selected, %d wanted" % (f.qual, cname, ids, cur, k)
        run = Run(check)
        cls = check.repo.cls(cname)
        if check.repo.method(cls, "select_greedy_k") is not f or "select_greedy" not in cls.methods:
            continue
        L = run.new(cls)
        log = []

        def sel(I, st, a, kw, nd):
            b = I.bind(cls.methods["select_greedy"], cls.methods["select_greedy"].node, a, kw, st, nd)
            ks, pv = I.setkeys(b["indicies"], st), I.setkeys(b["prev_selection"], st)
            if not ks or pv is None:
                raise NotImplementedError("index sets not resolved: %r %r" % (st.get(b["indicies"]), st.get(b["prev_selection"])))
            ks, pv = sorted(map(int, ks)), sorted(map(int, pv))
            r = ks[len(ks) // 2]
            I.set_attr(st, b["self"], "sel_metric", S("score%d" % r), nd) if hasattr(I, "set_attr") else st.get(b["self"]).attrs.update(sel_metric=S("score%d" % r))
            log.append((ks, pv, r))
            return C(r)
        run.I.hooks[cls.methods["select_greedy"]] = sel
        v = run.call(L, "select_greedy_k", run.arr("cand", C(4), D), run.arr("mu", C(4)), run.arr("var", C(4)), value_of(run, ids), value_of(run, cur), C(k))
        if not isinstance(v, VTuple) or len(v.items) != 2:
            check.ob("scores are listed with their choices", tag, f.where(), "unknown", "%r" % (v,))
            continue
        a, b = (run.get(x) for x in v.items)
        want = cur + [r for _, _, r in log]
        try:
            got = [int(run.I.constof(x)) for x in a.items()]
            scores = list(b.items())
        except Exception:
            check.ob("scores are listed with their choices", tag, f.where(), "unknown", "%r %r" % (a, b))
            continue
        if not score:
            check.ok("no index is selected twice", tag, f.where(), len(set(got)) == len(got), "%s returned" % got)
            check.ok("choices are made among candidates that are still free", tag, f.where(), all(set(ks) == set(ids) - set(pv) for ks, pv, _ in log), "%s" % log)
            check.ok("as many are selected as were asked for, or the call fails", tag, f.where(), len(got) == max(k, len(cur)), "%s returned" % got)
            continue
        check.ok("as many are chosen as are wanted, the given ones first", tag, f.where(), got == want and len(got) == max(k, len(cur)), "%s returned" % got)
        check.ok("choices are made among candidates that are still free", tag, f.where(), all(set(ks) == set(ids) - set(pv) for ks, pv, _ in log), "%s" % log)
        check.ok("a selector is told what was selected before", tag, f.where(), all(set(pv) == set(want[:len(cur) + q]) for q, (_, pv, _) in enumerate(log)), "%s" % log)
        check.ok("scores are listed with their choices", tag, f.where(), len(scores) == len(got) and all(
            (s.op == "s" and s.args[0] == "score%d" % x) if q >= len(cur) else s is NINF for q, (x, s) in enumerate(zip(got, scores))), "scores %s" % [show(s)[:60] for s in scores])


METRICS = [[[0, 3, 1], [3, 0, 2], [1, 2, 0]], [[9, 1, 2], [3, 9, 3], [2, 0, 9]], [[5, 5, 5], [5, 5, 5], [5, 5, 5]], [[0, -4, -2], [-3, 0, -5], [-9, -2, 0]],
           [[0, 1, 2, 3], [7, 0, 3, 3], [2, 2, 0, 7], [1, 1, 7, 0]], [[-1, 0], [-2, -1]], [[4, 0, 0, 1], [0, 4, 0, 0], [0, 8, 4, 0], [0, 0, 0, 4]],
           [[0, 1000, 999], [998, 0, 1000], [1001, 1, 0]]]


def pick_pair(check, f, score):
    """every pair of a metric that may be picked, over small metrics"""
    for M_ in METRICS:
        n = len(M_)
        for ids in (None, list(range(n)), set(range(n)) - {0}, list(range(n))[::-1], [n - 1, 0]):
            for prev in ([], [0], {n - 1}, [1, n - 1]):
                k, more = 0, 1
                while k < more:
                    more = pick_one(check, f, score, M_, ids, prev, k)
                    k += 1


def pick_one(check, f, score, M_, ids, prev, k):
    n = len(M_)
    tag = "%s, metric %s, among %s with %s selected" % (f.qual, M_, "all" if ids is None else ids, prev)
    run = Run(check)
    L = run.new("ActiveLearner")
    opts = []

    def choose(I, st, a, kw, nd):
        size = kw.get("size", a[1] if len(a) > 1 else None)
        pop = I.arr(a[0], st)
        if size is not None and size is not NONE:
            return I.fresh_unk("rng")
        if isinstance(pop, T) and I.constof(pop) is not None:
            opts.append(int(I.constof(pop)))
            return C(min(k, opts[0] - 1))
        cv = I.consts(pop) if isinstance(pop, Arr) else None
        if cv is not None and not len(cv) and pop.rank == 1:
            raise Empty("draw")
        if not cv or pop.rank != 1:
            return I.fresh_unk("rng")
        opts.append(len(cv))
        return C(cv[min(k, len(cv) - 1)])
    run.I.exthooks["numpy.random.choice"] = choose

    def rint(I, st, a, kw, nd):
        lo, hi = (a + [None, None])[:2]
        lo, hi = (ZERO, lo) if hi is None else (lo, hi)
        if I.constof(lo) is None or I.constof(hi) is None:
            return I.fresh_unk("rng")
        opts.append(int(I.constof(hi)) - int(I.constof(lo)))
        return C(int(I.constof(lo)) + min(k, opts[-1] - 1))
    run.I.exthooks["numpy.random.randint"] = rint
    args = [mat(run, M_), value_of(run, prev)] + ([value_of(run, ids)] if ids is not None else [])
    free = [x for x in (range(n) if ids is None else ids) if x not in prev]
    try:
        v = run.call(L, "pick_pair_from_metric", *args)
    except Empty:
        check.ok("a pair is picked whenever there is one", tag, f.where(), len(free) < 2, "a pair is drawn from none although %s are free" % free)
        return 1
    if run.I.excs:
        check.ok("a pair is picked whenever there is one", tag, f.where(), len(free) < 2, "the call fails although %s are free" % free)
        return 1
    vv = run.get(v)
    try:
        items = list(vv.items) if isinstance(vv, VTuple) else [vv.at(C(q)) for q in range(2)] if isinstance(vv, Arr) else list(vv.items())
        i, j = [int(run.I.constof(x)) for x in items]
    except Exception:
        check.ob("a pair is picked whenever there is one", tag, f.where(), "unknown", "%r" % (vv,))
        return 1
    if len(free) < 2:
        check.ob("a pair is picked whenever there is one", tag, f.where(), "refuted", "(%d, %d) is picked although only %s are free" % (i, j, free))
        return 1
    if not score:
        check.ok("the two candidates of a pair differ", tag, f.where(), i != j, "(%d, %d) is picked" % (i, j))
        check.ok("the pair is picked among the free candidates", tag, f.where(), i in free and j in free, "(%d, %d) is picked" % (i, j))
    else:
        best = max(M_[a][b] for a in free for b in free if a != b)
        if i != j and i in free and j in free:
            check.ok("the pair picked has the best score", tag, f.where(), M_[i][j] == best or (M_[j][i] == best and all(M_[a][b] == M_[b][a] for a in free for b in free)),
                     "(%d, %d) with %s is picked, the best is %s" % (i, j, M_[i][j], best))
    return max(opts) if opts else 1


def c14_best(check, f):
    """the candidate with the highest mean among the preferred ones that are free, else among the free ones"""
    rule = "the best candidate is one of the candidates to choose among"
    for mus in ([2, 5, 1, 4], [7, 3, 6, 1], [0, -1, -2, -3], [-5, -4, -9, -1]):
        for pref in (set(range(4)), {0, 2}, {3}, set()):
            for prev in ([], [0], {3}, [1, 3], [0, 1, 2, 3]):
                tag = "%s, means %s, prefer %s, selected %s" % (f.qual, mus, sorted(pref), prev)
                run = Run(check)
                L = run.new("ActiveLearner")
                v = run.call(L, "select_best", run.vec(*[C(m) for m in mus]), value_of(run, pref), value_of(run, prev))
                free = pref - set(prev) or set(range(4)) - set(prev)
                if run.I.excs:
                    check.ok("a best candidate is found whenever one is free", tag, f.where(), not free, "the call fails although %s are free" % sorted(free))
                    continue
                try:
                    g = int(run.I.constof(run.get(v)))
                except Exception:
                    check.ob(rule, tag, f.where(), "unknown", "%r" % (run.get(v),))
                    continue
                check.ok(rule, tag, f.where(), g in free, "%d is chosen, free: %s" % (g, sorted(free)))
                if g in free:
                    check.ok("the best candidate has the highest mean", tag, f.where(), mus[g] == max(mus[k] for k in free), "%d is chosen" % g)


# ---------------------------------------------------------------- C22
SPEC = '''
import numpy as np
from lop.utilities import p_human_choice


def mean_of(mu, i):
    return mu[i]


def ucb(mu, var, alpha, i):
    return mu[i] + alpha * np.sqrt(var[i])


def gv_ucb(mu, cov, alpha, prev, i):
    Q = prev + [i]
    return mu[i] + alpha * np.linalg.det(cov[np.ix_(Q, Q)]) ** (1.0 / len(Q))


def info(w, M, peak, prev, i):
    Q = prev + [i]
    p = p_human_choice(w[:, Q], peak)
    tot = 0
    for q in range(len(Q)):
        tot += np.sum(p[:, q] * np.log2(p[:, q] / (np.sum(p[:, q]) / M)))
    return tot / M


def linear_values(cand, ws):
    return (cand @ ws.T).T


def linear_variance(cand, ws, M):
    w = (cand @ ws.T).T
    d = w - np.sum(w, axis=0) / M
    return np.sum(d * d, axis=0) / M


def linear_cov(cand, ws, M):
    w = (cand @ ws.T).T
    d = w - np.sum(w, axis=0) / M
    return d.T @ d / (M - 1)


def chance(probs, prev, i):
    """p[m, q]: the probability that the q-th of the query prev + [i] is chosen, for every sample m"""
    Q = prev + [i]
    raw = []
    for a in range(len(Q)):
        x = 1
        for b in range(len(Q)):
            if a != b:
                x = x * probs[:, Q[a], Q[b]]
        raw.append(x)
    tot = 0
    for x in raw:
        tot = tot + x
    return [x / tot for x in raw]


def aligned(probs, al, M, prev, i):
    ps = chance(probs, prev, i)
    out = 0
    for p in ps:
        out = out + (p @ al @ p) / (M * M) / (np.sum(p) / M)
    return out


def aligned_pair(probs, al, M, i, j):
    out = 0
    for p in (probs[:, i, j], probs[:, j, i]):
        out = out + (p @ al @ p) / (M * M) / (np.sum(p) / M)
    return out


def aligned_rating(dens, al, M):
    return (dens @ al @ dens) / (M * M) / (np.sum(dens) / M)


def entropy(p):
    return -np.sum(np.where(p < 1e-17, 0, p * np.log(p)))
'''


def c22(check):
    check.tries = 16
    check.repo.add_source("lopcheck_criteria", SPEC)
    crit = {"BestLearner": best, "WorstLearner": best, "UCBLearner": ucb, "GV_UCBLearner": gv, "MutualInfoLearner": info, "AcquisitionSelection": aligned}
    for name, spec in crit.items():
        f = method(check, name, "select_greedy")
        for model in MODELS if name != "AcquisitionSelection" else MODELS[:2]:
            for prev in ((), (0,), (1, 0)) if name != "AcquisitionSelection" else ((0,), (1, 0)):
                tag = "%s.select_greedy, %s, %d selected before" % (name, model, len(prev))
                check.guard("the choice optimises the criterion", tag, f.where(), c22_one, check, f, name, model, prev, spec, tag)
    f = method(check, "AcquisitionSelection", "select_pair")
    for model in MODELS[:2]:
        tag = "AcquisitionSelection.select_pair, %s" % model
        check.guard("the pair criterion follows its definition", tag, f.where(), c22_pair, check, f, model, tag)
    f = method(check, "AbsAcquisition", "select_greedy")
    for model in MODELS[:2]:
        tag = "AbsAcquisition.select_greedy, %s" % model
        check.guard("the choice optimises the criterion", tag, f.where(), c22_one, check, f, "AbsAcquisition", model, (), rating, tag)


    f = method(check, "ActiveLearner", "select")
    for c in learners(check):
        for model in MODELS[:2]:
            for prev, alts in (((0,), 1), ((), 2 if check.repo.method(c, "select_pair") else 1)):
                tag = "%s.select, %s, %d selected before, %d wanted" % (c.name, model, len(prev), alts)
                check.guard("a selection uses the predictions made for it", tag, f.where(), c22_fresh, check, c.name, model, prev, alts, tag, f.where())


def spec(ch, name, *args):
    r = ch.run
    v = r.get(r.fn(ch.check.repo.func(name), *args))
    if isinstance(v, Arr) and not v.dims:
        v = v.body
    return v


def as_list(ch, prev):
    return ch.run.st.new(VList([("item", C(x)) for x in prev]))


def best(ch, t):
    return spec(ch, "mean_of", ch.mu, t)


def chain_of(ch):
    return ch.run.st.new(sym_arr("ws", [MS, D]))


def ucb(ch, t):
    var = ch.var if ch.kind != "PreferenceLinear" else ch.run.fn(ch.check.repo.func("linear_variance"), ch.cand, chain_of(ch), MS)
    return spec(ch, "ucb", ch.mu, var, S("alpha"), t)


def gv(ch, t):
    cov = ch.cv if ch.kind != "PreferenceLinear" else ch.run.fn(ch.check.repo.func("linear_cov"), ch.cand, chain_of(ch), MS)
    return spec(ch, "gv_ucb", ch.mu, cov, S("alpha"), as_list(ch, ch.prev), t)


def info(ch, t):
    if ch.kind != "PreferenceLinear":
        w = ch.run.st.new(sym_arr("W", [MS, N]))
    else:
        w = ch.run.fn(ch.check.repo.func("linear_values"), ch.cand, chain_of(ch))
    return spec(ch, "info", w, MS, S("peak", True, "real"), as_list(ch, ch.prev), t)


def probs(ch):
    """the choice probabilities of all pairs, for every sample: prob[m, i, j]"""
    r = ch.run
    m, i, j = IV(), IV(), IV()
    sg = S("sg", True, "real")
    d = div(sub(AT("aQ", m, i), AT("aQ", m, j)), mul(pw(TWO, C(Fraction(1, 2))), sg))
    return r.st.new(Arr((m, i, j), (MS, N, N), fn("ndtr", d), "f"))


def aligned(ch, t):
    al = ch.run.st.new(sym_arr("al", [MS, MS]))
    return spec(ch, "aligned", probs(ch), al, MS, as_list(ch, ch.prev), t)


def rating(ch, t):
    al = ch.run.st.new(sym_arr("al", [MS, MS]))
    r = ch.run
    m, k = IV(), IV()
    p = r.attr(ch.model, "probits")
    items = r.get(p).items() if isinstance(r.get(p), VList) else r.get(p).items
    F = r.st.new(Arr((m,), (MS,), AT("aQ", m, t), "f"))
    ab = r.call(list(items)[2], "get_alpha_beta", F)
    aa, bb = ab.items
    dens = density(r.I, r.st, [AT("qn", k), aa, bb], {}, None, lambda t: t)
    x = spec(ch, "aligned_rating", dens, al, MS)
    return SUM(k, S("Nq", True, "dim"), mul(AT("qw", k), x))


def c22_one(check, f, name, model, prev, crit, tag):
    rule = "the choice optimises the criterion"
    at = {"UCBLearner": {"alpha": S("alpha")}, "GV_UCBLearner": {"alpha": S("alpha")}, "MutualInfoLearner": {"peakiness": S("peak", True, "real")}}.get(name, {})
    ch = Choice(check, name, model, "select_greedy", prev, **at)
    if raised(ch):
        return
    w = f.where()
    q = S("it", False, "int")
    want = crit(ch, q)
    if not isinstance(want, T):
        check.ob(rule, tag, w, "unknown", "criterion not evaluated: %r" % (want,))
        return
    v = ch.run.get(ch.v)
    for t, facts in leaves(v if not isinstance(v, Unk) else ch.v):
        pos = position(ch, t)
        if not pos:
            check.ob(rule, tag, w, "unknown", "choice %s; %s" % (show(t)[:200] if isinstance(t, T) else t, ch.problems[:2]))
            continue
        if pos[0] == "random":
            check.ob(rule, tag, w, "refuted", "the choice is random")
            continue
        kind, iv, dim, body = pos[1].args
        sgn = "argmin" if name == "WorstLearner" else "argmax"
        k = S("pos", False, "int")
        got = tsubst(body, {iv: k})
        wk = tsubst(want, {q: AT("ind", k)})
        if name == "AbsAcquisition" and not any(x.op == "at" and x.args[0] == "bpdf" for x in walk(got)):
            check.ob(rule, tag, w, "unknown", "the density of a rating is not taken from scipy.stats.beta")
            continue
        if kind == sgn:
            opt = [wk]
        else:
            opt = [neg(wk)]
        if monotone_same(check, rule, tag, w, got, opt[0], kind, iv, dim, body, want, q):
            continue
    m = under(ch.metric, ())
    m = ch.run.get(m)
    if isinstance(m, Arr) and not m.dims:
        m = m.body
    if isinstance(m, T) and pos and pos[0] == "best":
        got = tsubst(m, {pos[1]: k})
        red = mk("red", "min" if name == "WorstLearner" else "max", iv, dim, tsubst(want, {q: AT("ind", iv)}))
        check.equal("the score is the criterion's value", tag, w, got, [wk, red])


def monotone_same(check, rule, tag, w, got, want, kind, iv, dim, body, crit, q):
    """the compared value is the criterion, or orders the candidates as the criterion does"""
    g, wn = norm(got), norm(want)
    s, info = decide(g, wn, None, check.tries)
    if s == "proved":
        check.ob(rule, tag, w, "proved", "")
        return True
    # another value: the choices themselves are compared
    a = AT("ind", mk("red", kind, iv, dim, body))
    sgn = "argmin" if tag.startswith("WorstLearner") else "argmax"
    b = AT("ind", mk("red", sgn, iv, dim, tsubst(crit, {q: AT("ind", iv)})))
    check.equal(rule, tag, w, a, b)
    return True



def c22_pair(check, f, model, tag):
    rule = "the pair criterion follows its definition"
    ch = Choice(check, "AcquisitionSelection", model, "select_pair", ())
    w = f.where()
    if len(ch.pairs) != 1 or not isinstance(ch.pairs[0][0], Arr):
        check.ob(rule, tag, w, "unknown", "no metric of pairs found")
        return
    al = ch.run.st.new(sym_arr("al", [MS, MS]))
    i, j = S("i1", False, "int"), S("i2", False, "int")
    want = spec(ch, "aligned_pair", probs(ch), al, MS, i, j)
    got = ch.pairs[0][0].at(i, j)
    for g, facts in leaves(got):
        check.equal(rule, tag, w, g, want)


# ---------------------------------------------------------------- a selection uses the predictions made for it
class Twice(Choice):
    """two selections by one learner, with other candidates and another model state in between"""

    def __init__(self, check, cls, model, prev, alts):
        declare()
        n = C(3)
        self.check, self.cls, self.kind, self.problems, self.rnd, self.ph = check, cls, model, [], {}, ""
        rp = check.repo
        r = self.run = Run(check)
        self.L = L = r.new(rp.cls(cls))
        m = self.model = r.new(model, r.new("RBF_kern", ONE, ONE)) if model != "PreferenceLinear" else r.new(model)
        ps = r.get(r.get(m).attrs.get("probits"))
        r.call(list(ps.items() if isinstance(ps, VList) else ps.items)[0], "set_sigma", S("sg", True, "real"))
        if "M" in r.get(L).attrs:
            r.set(L, M=MS)
        r.set(L, model=m)
        ex, hk = r.I.exthooks, r.I.hooks
        for p in ("now", "old"):
            ARRAYS.update({"var" + p: {"sort": "pos"}, "cv" + p: {"spd": True, "sym": True}, "pB" + p: {"sort": "unit"}, "al" + p: {"sym": True}, "qw" + p: {"sort": "pos"}, "qn" + p: {"sort": "unit"}})

        def arr(nm, *dims):
            return lambda I, st, a, kw, nd: st.new(sym_arr(nm + self.ph, list(dims)))
        ex["numpy.random.multivariate_normal"] = arr("W", MS, n)
        ex["numpy.random.choice"] = self.choice
        ex["numpy.random.randint"] = self.randint
        ex["scipy.integrate.quad_vec"] = self.integral
        if cls in ("AbsAcquisition", "AbsBayesInfo"):
            ARRAYS["bpdf"] = {"fun": True}
            ex["scipy.stats.beta.pdf"] = lambda I, st, a, kw, nd: density(I, st, a, kw, nd, lambda t: t)
        hk[rp.func("metropolis_hastings")] = arr("ws", MS, D)
        hk[rp.method(rp.cls(model), "predict")] = lambda I, st, a, kw, nd: VTuple([st.new(sym_arr("mu" + self.ph, [n])), st.new(sym_arr("var" + self.ph, [n]))])
        hk[rp.cls("ActiveLearner").methods["pick_pair_from_metric"]] = self.pick
        if rp.cls("AcquisitionBase") in rp.mro(rp.cls(cls)):
            base = rp.cls("AcquisitionBase").methods
            hk[base["get_representative_Q"]] = lambda I, st, a, kw, nd: VTuple(
                [st.new(sym_arr("xrep" + self.ph, [NR, D])), st.new(sym_arr("Qrep" + self.ph, [S("nQ", True, "dim"), C(2)], "int"))])
            hk[base["get_samples_from_model"]] = self.samples
            hk[base["alignment"]] = arr("al", MS, MS)
        al = rp.cls("ActiveLearner").methods
        for nm in ("p_B_pref_gp", "p_B_pref_linear"):
            if nm in al:
                hk[al[nm]] = arr("pB", n)
        self.pairs = []
        for p in ("old", "now"):
            self.ph = p
            r.set(m, cov=r.arr("cv" + p, n, n), X_train=r.arr("X" + p, N, D), optimized=TRUE, w=r.vec(*[S("w%d%s" % (q, p)) for q in range(2)]))
            self.v = r.call(L, "select", r.arr("cand" + p, n, D), C(alts), value_of(r, list(prev)))
            if r.I.excs or r.I.errors:
                break
        self.metric = r.attr(L, "sel_metric")

    def samples(self, I, st, a, kw, nd):
        f = self.check.repo.cls("AcquisitionBase").methods["get_samples_from_model"]
        c = I.arr(I.bind(f, f.node, a, kw, st, nd)["candidate_pts"], st)
        if not isinstance(c, Arr) or c.rank != 2:
            return I.fresh_unk("samples")
        return VTuple([st.new(sym_arr("arep" + self.ph, [MS, NR])), st.new(sym_arr("aQ" + self.ph, [MS, c.dims[0]]))])

    def pick(self, I, st, a, kw, nd):
        f = self.check.repo.cls("ActiveLearner").methods["pick_pair_from_metric"]
        b = I.bind(f, f.node, a, kw, st, nd)
        self.pairs.append((self.ph, I.arr(b["info_gain"], st)))
        return VTuple([C(1), C(2)])


def c22_fresh(check, cls, model, prev, alts, tag, w):
    rule = "a selection uses the predictions made for it"
    t = Twice(check, cls, model, prev, alts)
    if t.run.I.errors and t.kind == "GP":
        return
    if t.run.I.excs or t.run.I.errors:
        check.ob(rule, tag, w, "unknown", "%s" % (t.run.I.excs or t.run.I.errors)[:1])
        return
    found = set()

    def look(v, depth=0):
        v = t.run.get(v)
        if isinstance(v, Phi):
            return look(v.a, depth) and look(v.b, depth)
        if isinstance(v, (VTuple, VList)) and depth < 4:
            if isinstance(v, VList) and not v.static:
                return False
            return all([look(x, depth + 1) for x in (v.items() if isinstance(v, VList) else v.items)])
        if isinstance(v, Arr):
            v = v.body
        if not isinstance(v, T):
            return False
        for x in walk(v):
            nm = x.args[0] if x.op in ("s", "at") else ""
            if isinstance(nm, str) and nm.endswith("old"):
                found.add(nm[:-3])
        return True
    full = look(t.metric) & look(t.v) & all([look(g) for p, g in t.pairs if p == "now" and g is not None])
    if found:
        check.ob(rule, tag, w, "refuted", "what was computed for an earlier selection (%s) is used again for other candidates" % ", ".join(sorted(found)))
    else:
        check.ob(rule, tag, w, "proved" if full else "unknown", "" if full else "score %r, selection %r" % (t.run.get(t.metric), t.run.get(t.v)))
