"""C16: learners that combine a pairwise and a rating learner; samples shared between learners."""
from .rule import *
from .rules_choice import Draws, fold, method
from .rules_select import leaves, under

ON, OFF = S("on"), S("off")
MS, NR = S("Ms", True, "dim"), S("Nr", True, "dim")


class Part:
    """a learner seen only through its interface; remembers whose samples it holds"""

    def __init__(self, w, name):
        self.w, self.name = w, name
        hk = {m: getattr(self, m) for m in ("set_model", "set_samples", "unset_samples", "select", "select_greedy", "select_pair",
                                            "get_samples_from_model", "get_representative_Q", "alignment", "alignment_between")}
        r = w.run
        self.ref = r.st.new(VObj(None, {"on": OFF, "held": S("none"), "heldQ": S("none"), "sel_metric": S("score:%s:none" % name),
                                        "model": NONE, "M": MS}, hk, name))

    def put(self, st, **kw):
        o = st.get(self.ref)
        st.put(self.ref, VObj(None, dict(o.attrs, **kw), o.hooks, o.name))

    def bind(self, I, st, name, a, kw, nd):
        f = self.w.sig(name)
        return I.bind(f, f.node, [self.ref] + list(a), kw, st, nd) if f else None

    def log(self, st, what, **d):
        self.w.log.append((what, self, self.w.turn, dict(st.facts), d))

    def set_model(self, I, st, me, a, kw, nd):
        b = self.bind(I, st, "set_model", a, kw, nd)
        v = b.get("model") if b else (a[0] if a else NONE)
        self.put(st, model=v)
        return NONE

    def set_samples(self, I, st, me, a, kw, nd):
        b = self.bind(I, st, "set_samples", a, kw, nd)
        vals = [x for x in (b or {}).values() if x is not self.ref] if b else list(a)
        if len(vals) != 2:
            self.log(st, "odd")
            return NONE
        self.put(st, on=ON, held=vals[0], heldQ=vals[1])
        self.log(st, "share", rep=vals[0], Q=vals[1])
        return NONE

    def unset_samples(self, I, st, me, a, kw, nd):
        self.put(st, on=OFF)
        return NONE

    def get_representative_Q(self, I, st, me, a, kw, nd):
        return VTuple([st.new(sym_arr("xrep", [NR, D])), st.new(sym_arr("Qrep", [S("nQ", True, "dim"), C(2)], "int"))])

    def get_samples_from_model(self, I, st, me, a, kw, nd):
        b = self.bind(I, st, "get_samples_from_model", a, kw, nd)
        n = self.w.fresh("draw")
        self.log(st, "draw", cand=b.get("candidate_pts") if b else None, has=st.get(self.ref).attrs["on"], n=n, idx=b.get("indicies") if b else None)
        return VTuple([st.new(sym_arr("Rs%d" % n, [MS, NR])), st.new(sym_arr("Qs%d" % n, [MS, N]))])

    def alignment(self, I, st, me, a, kw, nd):
        return st.new(sym_arr("al%d" % self.w.fresh("al"), [MS, MS]))

    alignment_between = alignment

    def run_select(self, I, st, kind, a, kw, nd):
        b = self.bind(I, st, kind, a, kw, nd)
        o = st.get(self.ref)
        n = self.w.fresh("sel")
        h = o.attrs["on"]
        self.log(st, "select", kind=kind, args=b, has=h, Q=o.attrs["heldQ"], rep=o.attrs["held"], n=n)
        sc = S("score%d" % n)
        self.w.scores["score%d" % n] = (self, self.w.turn, h, dict(st.facts), b, kind)
        self.put(st, sel_metric=sc)
        k = 2 if self.name == "pairwise_l" else 1
        self.w.choices["pick%d" % n] = (self, self.w.turn, b, kind)
        if kind == "select_greedy":
            return AT("pick%d" % n, ZERO)
        return st.new(sym_arr("pick%d" % n, [C(k)], "int"))

    def select(self, I, st, me, a, kw, nd):
        return self.run_select(I, st, "select", a, kw, nd)

    def select_greedy(self, I, st, me, a, kw, nd):
        return self.run_select(I, st, "select_greedy", a, kw, nd)

    def select_pair(self, I, st, me, a, kw, nd):
        return self.run_select(I, st, "select_pair", a, kw, nd)


class World:
    def __init__(self, check, cls):
        self.check = check
        self.run = r = Run(check)
        self.draws = Draws(r)
        self.n = {}
        self.turn = 0
        self.log, self.scores, self.choices = [], {}, {}
        self.parts = {}
        self.odd = []
        rp = check.repo
        self.cls = rp.cls(cls)
        init = None
        for k in rp.mro(self.cls):
            if "__init__" in k.methods:
                init = k.methods["__init__"]
                break
        self.plain = {}
        a = init.node.args
        names = [p.arg for p in a.args][1:]
        req = names[:len(names) - len(a.defaults)]
        vals = []
        for p in req:
            if p.endswith("_l") or p.endswith("comp"):
                q = self.parts[p] = Part(self, p)
                vals.append(q.ref)
            elif p.startswith("num"):
                vals.append(C(2))
            else:
                vals.append(S(p, True, "real"))
        self.L = r.new(self.cls, *vals)

    def fresh(self, k):
        self.n[k] = self.n.get(k, 0) + 1
        return self.n[k]

    def sig(self, name):
        rp = self.check.repo
        for c in ("AcquisitionBase", "ActiveLearner"):
            try:
                for k in rp.mro(rp.cls(c)):
                    if name in k.methods:
                        return k.methods[name]
            except KeyError:
                pass
        return None

    def model(self, tag):
        r = self.run

        def predict(I, st, me, a, kw, nd):
            return VTuple([st.new(sym_arr("mu", [N])), st.new(sym_arr("var", [N]))])

        labels = r.st.new(VList([("item", S("%s:pref" % tag)), ("item", NONE), ("item", S("%s:rate" % tag))]))
        return r.st.new(VObj(None, {"y_train": labels, "cov": r.st.new(sym_arr("cv", [N, N])), "optimized": TRUE,
                                    "probit_idxs": r.st.new(VDict([(K("relative_discrete"), ZERO), (K("ordinal"), ONE), (K("abs"), C(2))]))},
                             {"predict": predict, "optimize": lambda *x: NONE}, "model " + tag))

    def select(self):
        r = self.run
        self.turn += 1
        self.cand = r.st.new(sym_arr("cand%d" % self.turn, [N, D]))
        self.prev = r.st.new(VList([("item", S("p%d" % self.turn, False, "int"))]))
        self.args = {"candidate_pts": self.cand, "num_alts": C(2), "prev_selection": self.prev, "prefer_pts": S("prefer%d" % self.turn),
                     "return_not_selected": FALSE, "select_pair_first": S("first%d" % self.turn)}
        return r.call(self.L, "select", self.cand, C(2), self.prev, self.args["prefer_pts"], FALSE, self.args["select_pair_first"])


def flat(v, st, facts=()):
    """[(leaf, facts)] of a value that may be an array whose elements are chosen by conditions"""
    out = []
    for t, f in leaves(v, facts):
        x = st.get(t) if isinstance(t, Ref) else t
        if isinstance(x, Phi):
            out += flat(x, st, f)
        elif isinstance(x, Arr):
            b = x.at(*[IV() for _ in x.dims]) if x.rank else x.body
            out += [(y, g) for y, g in leaves(b, f)]
        else:
            out.append((x if x is not None else t, f))
    return out


def name_of(t):
    if isinstance(t, T) and t.op == "at":
        return t.args[0]
    if isinstance(t, T) and t.op == "s":
        return t.args[0]
    return None


def possible(facts, extra):
    d = dict(facts)
    for c, v in extra:
        if c in d and d[c] != v:
            return False
    return True


def all_facts(facts, *vals, st):
    """leaves of several values together, only the combinations possible on this path"""
    acc = [((), tuple(facts.items()))]
    for v in vals:
        nxt = []
        for got, f in acc:
            for t, g in flat(v, st, ()):
                if possible(f, g):
                    nxt.append((got + (t,), f + g))
        acc = nxt
    return acc


def like(I, st, v, w):
    """same value? True / False / None"""
    if v is w:
        return True
    a, b = st.get(v), st.get(w)
    if a is b:
        return True
    if isinstance(a, T) and isinstance(b, T):
        if a is not b and any(x in (NONE, TRUE, FALSE) and y.op in ("s", "c") for x, y in ((a, b), (b, a))):
            return False        # a fixed value instead of the one given
        s, _ = decide(norm(a), norm(b), None, 8)
        return {"proved": True, "refuted": False}.get(s)
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a.rank != b.rank:
            return False
        for p, q in zip(a.dims, b.dims):
            s, _ = decide(norm(p), norm(q), None, 8)
            if s != "proved":
                return False if s == "refuted" else None
        ivs = [IV() for _ in a.dims]
        s, _ = decide(norm(a.at(*ivs)), norm(b.at(*ivs)), None, 8)
        return {"proved": True, "refuted": False}.get(s)
    if isinstance(a, (VList, VTuple)) and isinstance(b, (VList, VTuple)):
        x = a.items if isinstance(a, VTuple) else (a.items() if a.static else None)
        y = b.items if isinstance(b, VTuple) else (b.items() if b.static else None)
        if x is None or y is None:
            return None
        if len(x) != len(y):
            return False
        r = [like(I, st, p, q) for p, q in zip(x, y)]
        return False if False in r else None if None in r else True
    return None


def c16(check):
    rp = check.repo
    base = rp.cls("RateChooseLearner")
    for cls in [base] + sorted(rp.subclasses(base), key=lambda c: c.name):
        f = method(check, cls.name, "select")
        g = method(check, cls.name, "set_model")
        check.guard("a new model reaches every part and restarts the learner", cls.name, g.where(), c16_model, check, cls, g)
        for stale in (False, True):
            check.guard("one selection after another", "%s%s" % (cls.name, ", parts left with older samples" if stale else ""), f.where(),
                        c16_turns, check, cls, f, stale)
    for nm in ("RateChooseLearner", "MixedComparision"):
        f = method(check, nm, "select")
        check.guard("the part with the higher score is followed", nm, f.where(), c16_compare, check, nm, f)
    for nm in ("MixedStrategy", "MixedStrategyPeak", "MixedStrategyPeak2", "MixedStrategyPeak3", "MixedStrategyRevPeak"):
        f = method(check, nm, "select")
        check.guard("a rating query is chosen with the stated probability", nm, f.where(), c16_chance, check, nm, f)
    f = method(check, "MixedAlternating", "select")
    check.guard("query types alternate", "MixedAlternating", f.where(), c16_alternate, check, "MixedAlternating", f)
    for kind in ("PreferenceGP", "GP", "PreferenceLinear"):
        f = method(check, "AcquisitionBase", "get_samples_from_model")
        check.guard("samples belong to the candidates given", kind, f.where(), c16_samples, check, f, kind)


def verdict(check, rule, cons, where, ok, bad):
    check.ob(rule, cons, where, "proved" if ok else "refuted" if ok is False else "unknown", "" if ok else bad)


def c16_model(check, cls, f):
    rule = "a new model reaches every part and restarts the learner"
    w = World(check, cls.name)
    m1, m2 = w.model("first"), w.model("second")
    r = w.run
    n0 = r.attr(w.L, "num_calls")
    if n0 is not None:
        verdict(check, "selections are counted", "%s, when made" % cls.name, f.where(), like(r.I, r.st, n0, ZERO), "the count starts at %r" % (n0,))
    r.call(w.L, "set_model", m1)
    start = dict(r.get(w.L).attrs)
    turns = 17 if check.tier == "thorough" else 6
    for _ in range(turns):
        w.select()
    r.call(w.L, "set_model", m2)
    for p in w.parts.values():
        v = r.get(p.ref).attrs["model"]
        got = flat(v, r.st)
        ok = all(t is m2 or t is r.get(m2) for t, _ in got)
        verdict(check, rule, "%s, %s" % (cls.name, p.name), f.where(), ok, "%s keeps the model it had" % p.name)
    end = r.get(w.L).attrs
    for nm, v in sorted(start.items()):
        if v is m1:
            v = m2
        if nm not in end:
            continue
        ok = like(r.I, r.st, end[nm], v)
        if ok is False or ok is None and isinstance(r.get(end[nm]), Phi):
            verdict(check, rule, "%s.%s" % (cls.name, nm), f.where(), False, "self.%s is %s after the new model, %s for the first one" % (
                nm, show(end[nm])[:160] if isinstance(end[nm], T) else end[nm], show(v) if isinstance(v, T) else v))
        else:
            verdict(check, rule, "%s.%s" % (cls.name, nm), f.where(), ok, "value not followed")


def c16_turns(check, cls, f, stale):
    w = World(check, cls.name)
    r = w.run
    r.call(w.L, "set_model", w.model("m"))
    turns = 17 if check.tier == "thorough" else 6
    for t in range(1, turns + 1):
        for p in w.parts.values():
            kw = {"sel_metric": S("stale score")}
            if stale:
                kw.update(on=ON, held=S("older"), heldQ=S("older"))
            o = r.get(p.ref)
            r.st.put(p.ref, VObj(None, dict(o.attrs, **kw), o.hooks, o.name))
        n0 = len(w.log)
        v = w.select()
        one_turn(check, cls, f, w, t, v, w.log[n0:], stale)
        if r.I.excs:
            return check.ob("one selection after another", "%s, selection %d" % (cls.name, t), f.where(), "unknown", "the call always raises here")
        if not check.no_errors(r.I, "one selection after another", "%s, selection %d" % (cls.name, t)):
            return


def one_turn(check, cls, f, w, t, v, log, stale):
    r, st = w.run, w.run.st
    tag = "%s, selection %d" % (cls.name, t)
    wh = f.where()
    fresh = set()
    shared = set()
    for kind, p, turn, facts, d in log:
        if kind == "draw":
            rule = "shared samples are drawn for the current candidates"
            bad = None
            for (h,), g in all_facts(facts, d["has"], st=st):
                if h is ON:
                    bad = "%s still holds older samples when new ones are drawn from it" % p.name
            if d["cand"] is None:
                check.ob(rule, tag, wh, "unknown", "call not followed")
                continue
            ok = like(r.I, st, d["cand"], w.cand)
            if ok is False:
                bad = bad or "samples are drawn for other points than the candidates"
            verdict(check, rule, tag, wh, False if bad else ok, bad or "points not followed")
            fresh.add("Qs%d" % d["n"])
        if kind == "share":
            shared.add(p.name)
    if stale:
        fresh_only = shared
    else:
        fresh_only = set(w.parts)
    for kind, p, turn, facts, d in log:
        if kind != "select":
            continue
        rule = "no selection works with samples of an earlier candidate set"
        if p.name in fresh_only:
            bad = None
            for (h, q, rep), g in all_facts(facts, d["has"], d["Q"], d["rep"], st=st):
                if h is ON:
                    nq, nr = name_of(q), name_of(rep)
                    if nq not in fresh:
                        bad = "%s.%s works with samples drawn earlier" % (p.name, d["kind"])
                    elif nr != "R" + nq[1:]:
                        bad = "%s.%s works with sample sets that were not drawn together" % (p.name, d["kind"])
            verdict(check, rule, "%s, %s" % (tag, p.name), wh, not bad, bad)
        if stale:
            continue
        rule = "the request is handed on as it was made"
        b = d["args"]
        if b is None:
            check.ob(rule, tag, wh, "unknown", "call not followed")
            continue
        want = dict(w.args)
        if d["kind"] == "select":
            want["num_alts"] = C(2) if p.name == "pairwise_l" else ONE
            for nm, x in want.items():
                if nm in b:
                    verdict(check, rule, "%s, %s.%s(%s)" % (tag, p.name, d["kind"], nm), wh, like(r.I, st, b[nm], x), "%s is %s" % (
                        nm, show(b[nm])[:100] if isinstance(b[nm], T) else st.get(b[nm])))
        else:
            verdict(check, rule, "%s, %s.%s(candidate_pts)" % (tag, p.name, d["kind"]), wh, like(r.I, st, b.get("candidate_pts"), w.cand), "other points")
            idx = flat(b.get("indicies"), st)
            ok = all(name_of(x) in w.choices and w.choices[name_of(x)][1] == t and w.choices[name_of(x)][0].name not in ("pairwise_l", p.name) for x, _ in idx)
            verdict(check, "the score compared is that of the other part's selection", "%s, %s.%s" % (tag, p.name, d["kind"]), wh,
                    True if ok else None if any(isinstance(x, Unk) for x, _ in idx) else False, "the candidates scored are %s" % (show(idx[0][0]) if isinstance(idx[0][0], T) else idx[0][0],))
    if stale:
        return
    # what is returned
    rule = "the selection of one of the parts is returned"
    x = st.get(v)
    if isinstance(x, VTuple) and x.items:
        v = x.items[0]
    res = flat(v, st)
    for x, g in res:
        nm = name_of(x)
        if nm in w.choices:
            p, turn, b, kind = w.choices[nm]
            bad = None
            if turn != t:
                bad = "a selection made in an earlier call is returned"
            elif kind != "select" or p.name.endswith("comp"):
                bad = "the selection of %s.%s is returned" % (p.name, kind)
            verdict(check, rule, tag, wh, not bad, bad)
        else:
            check.ob(rule, tag, wh, "unknown", "returned value %s" % (show(x)[:100] if isinstance(x, T) else x))
    # scores the decision rests on
    rule = "scores compared come from this selection and the same samples"
    conds = [c for x, g in res for c, _ in g]
    for nm, a in r.get(w.L).attrs.items():
        conds += [c for x, g in flat(a, st) for c, _ in g] + [x for x, g in flat(a, st) if isinstance(x, T)]
    seen = {x.args[0] for c in conds if isinstance(c, T) for x in walk(c) if x.op == "s"}
    bad = "a score left from an earlier selection is compared" if "stale score" in seen else None
    for nm in seen:
        if nm in w.scores and w.scores[nm][1] == t and shared:
            p, turn, h, facts, b, kind = w.scores[nm]
            if not any(h is ON for (h,), g in all_facts(facts, h, st=st)):
                bad = bad or "the score of %s is found without the shared samples" % p.name
    verdict(check, rule, tag, wh, not bad, bad)
    # afterwards
    for p in w.parts.values():
        left = [h for h, g in flat(r.get(p.ref).attrs["on"], st) if h is not OFF]
        verdict(check, "shared samples are withdrawn", "%s, %s" % (tag, p.name), wh, not left, "%s still holds the samples afterwards" % p.name)
    n = r.attr(w.L, "num_calls")
    if n is not None:
        verdict(check, "selections are counted", tag, wh, like(r.I, st, n, C(t)), "the count is %s after %d selections" % (
            show(n)[:160] if isinstance(n, T) else n, t))


def outcome(w, v):
    """1: pairwise selection, 2: rating selection, as a term over the conditions"""
    def go(t):
        if isinstance(t, Phi):
            return lift(t.c, go(t.a), go(t.b))
        x = w.run.st.get(t) if isinstance(t, Ref) else t
        if isinstance(x, Phi):
            return go(x)
        if isinstance(x, Arr):
            x = x.at(*[IV() for _ in x.dims])
        if isinstance(x, T) and x.op == "if":
            return lift(x.args[0], go(x.args[1]), go(x.args[2]))
        nm = name_of(x)
        if nm in w.choices:
            return ONE if w.choices[nm][0].name == "pairwise_l" else C(2)
        return None

    def lift(c, a, b):
        return None if a is None or b is None else ite(c, a, b)
    return go(v)


def c16_compare(check, nm, f):
    rule = "the part with the higher score is followed"
    w = World(check, nm)
    r = w.run
    r.call(w.L, "set_model", w.model("m"))
    if r.attr(w.L, "alpha") is not None:
        r.set(w.L, alpha=sub(ONE, S("beta", True, "unit")))
    v = w.select()
    R = outcome(w, v)
    sc = {w.scores[k][0].name: S(k) for k in sorted(w.scores)}
    if R is None or "pairwise_l" not in sc:
        return check.ob(rule, nm, f.where(), "unknown", "result not followed")
    p, a = sc["pairwise_l"], sc.get("abs_comp", sc.get("abs_l"))
    dl, t = S("delta", True, "real"), S("t")
    if r.attr(w.L, "alpha") is None:
        at = {a: t}, add(t, dl), sub(t, dl)
    else:                   # weights beta and 1 - beta: equal weighted scores at t, then a difference
        bt = S("beta", True, "unit")
        u = mul(sub(ONE, bt), t)
        at = {a: mul(bt, t)}, add(u, dl), sub(u, dl)
    check.equal(rule, nm + ", pair higher", f.where(), tsubst(R, at[0] | {p: at[1]}), ONE)
    check.equal(rule, nm + ", rating higher", f.where(), tsubst(R, at[0] | {p: at[2]}), C(2))


def c16_chance(check, nm, f):
    rule = "a rating query is chosen with the stated probability"
    for n in range(5):
        w = World(check, nm)
        r = w.run
        r.call(w.L, "set_model", w.model("m"))
        for _ in range(n):
            w.select()
        p = r.I.scalar(r.call(w.L, "mixed_probability"), r.st)
        k = w.draws.nu
        v = w.select()
        R = outcome(w, v)
        tag = "%s, selection %d" % (nm, n + 1)
        if R is None or not isinstance(p, T) or w.draws.nu != k + 1:
            check.ob(rule, tag, f.where(), "unknown", "result not followed")
            continue
        U = S("U%d" % (k + 1), True, "unit")
        q = sub(ONE, p)
        check.equal(rule, tag, f.where(), R, [ite(lt(p, U), ONE, C(2)), ite(le(p, U), ONE, C(2)), ite(lt(q, U), C(2), ONE), ite(le(q, U), C(2), ONE)])


def c16_alternate(check, nm, f):
    rule = "query types alternate"
    w = World(check, nm)
    r = w.run
    r.call(w.L, "set_model", w.model("m"))
    last = None
    for t in range(1, 7):
        R = outcome(w, w.select())
        R = fold(R) if R is not None else None
        if R is None or R.op != "c":
            return check.ob(rule, nm, f.where(), "unknown", "result not followed")
        if last is not None:
            verdict(check, rule, "%s, selection %d" % (nm, t), f.where(), R is not last, "the same type of query twice in a row")
        last = R


def c16_samples(check, f, kind):
    rule = "samples belong to the candidates given"
    ARRAYS["ind"] = {"sort": "int", "perm": True}
    wh = f.where()
    r = Run(check)
    L = r.new("AcquisitionSelection")
    m = r.new(kind, r.new("RBF_kern", ONE, ONE)) if kind != "PreferenceLinear" else r.new(kind)
    r.set(m, cov=r.arr("oldcov", S("No", True, "dim"), S("No", True, "dim")), optimized=TRUE)
    r.set(L, model=m, M=MS)
    cand, xr = r.arr("cand", N, D), r.arr("xrep", NR, D)
    seen, odd = [], []

    def predict(I, st, a, kw, nd):
        me = a[0] if a and not isinstance(I.arr(a[0], st), Arr) else m
        x = I.arr(a[-1], st)
        if not isinstance(x, Arr):
            return I.fresh_unk("predict")
        k = len(seen)
        seen.append(x)
        st.put(m, VObj(st.get(m).cls, dict(st.get(m).attrs, cov=st.new(sym_arr("cov%d" % k, [x.dims[0], x.dims[0]]))), st.get(m).hooks))
        return VTuple([st.new(sym_arr("mu%d" % k, [x.dims[0]])), st.new(sym_arr("var%d" % k, [x.dims[0]]))])

    def normal(I, st, a, kw, nd):
        mean, cov = kw.get("mean", a[0] if a else None), kw.get("cov", a[1] if len(a) > 1 else None)
        size = kw.get("size", a[2] if len(a) > 2 else None)
        dims = I.shape_of(size, st) if size is not None and size is not NONE else []
        x, c = I.arr(mean, st), I.arr(cov, st)
        if not isinstance(x, Arr) or not isinstance(c, Arr) or dims is None or len(dims) != 1:
            return I.fresh_unk("rng")
        i, j = IV(), IV()
        a1, a2 = x.at(i), c.at(i, j)
        if not (a1.op == "at" and a2.op == "at" and a1.args[0][:2] == "mu" and a2.args[0][:3] == "cov"):
            odd.append("samples are drawn with another mean or covariance")
        elif a1.args[0][2:] != a2.args[0][3:]:
            odd.append("mean and covariance of different predictions")
        return st.new(sym_arr("W", [dims[0], x.dims[0]]))

    def chain(I, st, a, kw, nd):
        g = check.repo.func("metropolis_hastings")
        b = I.bind(g, g.node, a, kw, st, nd)
        h = next(iter(b.values()), None)
        if not (isinstance(h, Bound) and h.func.name == "loss_func" and h.self_ is m) or not isinstance(b.get("dim"), T):
            odd.append("samples of another density")
        return st.new(sym_arr("ws", [I.scalar(b.get("num_samples"), st), I.scalar(b.get("dim"), st)]))

    r.I.exthooks["numpy.random.multivariate_normal"] = normal
    r.I.hooks[check.repo.func("metropolis_hastings")] = chain
    pf = method(check, kind, "predict")
    r.I.hooks[pf] = predict

    def fresh(tag):
        out = r.get(r.call(L, "get_samples_from_model", cand, xr))
        if not isinstance(out, VTuple) or len(out.items) != 2:
            return check.ob(rule, tag, wh, "unknown", "result not followed")
        rep, Q = out.items
        if odd:
            return check.ob(rule, tag, wh, "refuted", odd[0])
        if kind == "PreferenceLinear":
            d = IV()
            check.arr_equal(rule, tag + ", samples at the candidates", wh, Q, r.st, [MS, N], lambda i, j: SUM(d, D, mul(AT("cand", j, d), AT("ws", i, d))))
            check.arr_equal(rule, tag + ", samples at the representative points", wh, rep, r.st, [MS, NR], lambda i, j: SUM(d, D, mul(AT("xrep", j, d), AT("ws", i, d))))
            return
        if len(seen) < 1:
            return check.ob(rule, tag, wh, "unknown", "no prediction seen")
        x = seen[-1]
        # which row of the points predicted together does a sample belong to?
        i, j = S("m", False, "int"), S("j", False, "int")

        def stacked(a, na, b_, nb):
            return lambda p, q: ite(lt(p, na), AT(a, p, q), AT(b_, sub(p, na), q))
        first = ("cand", N, "xrep", NR)
        p, q = IV(), IV()
        s1, _ = decide(norm(x.at(p, q)), norm(stacked(*first)(p, q)), None, 8)
        if s1 != "proved":
            other = ("xrep", NR, "cand", N)
            s2, _ = decide(norm(x.at(p, q)), norm(stacked(*other)(p, q)), None, 8)
            if s2 == "proved":
                first = other
        check.arr_equal(rule, tag + ", points predicted together", wh, r.st.new(x), r.st, [add(N, NR), D], stacked(*first))
        for nm, v, src, n in (("samples at the candidates", Q, "cand", N), ("samples at the representative points", rep, "xrep", NR)):
            off = ZERO if src == first[0] else first[1]
            check.arr_equal(rule, "%s, %s" % (tag, nm), wh, v, r.st, [MS, n], lambda i, j: AT("W", i, add(off, j)))
    fresh("%s, nothing shared" % kind)
    A, B = r.arr("sharedR", MS, NR), r.arr("sharedQ", MS, N)
    r.call(L, "set_samples", A, B)
    out = r.get(r.call(L, "get_samples_from_model", cand, xr))
    if isinstance(out, VTuple) and len(out.items) == 2:
        check.arr_equal(rule, "%s, shared" % kind, wh, out.items[1], r.st, [MS, N], lambda i, j: AT("sharedQ", i, j))
        check.arr_equal(rule, "%s, shared, representative points" % kind, wh, out.items[0], r.st, [MS, NR], lambda i, j: AT("sharedR", i, j))
    K_ = S("Kd", True, "dim")
    ind = r.arr("ind", K_, dt="int")
    sub_ = r.st.new(Arr((IV(), IV()), (K_, D), ZERO, "f"))
    i, j = IV(), IV()
    sub_ = r.st.new(Arr((i, j), (K_, D), AT("cand", AT("ind", i), j), "f"))
    b = check.repo.cls("AcquisitionBase").methods["get_samples_from_model"]
    out = r.get(r.call(L, "get_samples_from_model", sub_, xr, indicies=ind))
    if isinstance(out, VTuple) and len(out.items) == 2:
        check.arr_equal(rule, "%s, shared, some candidates" % kind, wh, out.items[1], r.st, [MS, K_], lambda i, j: AT("sharedQ", i, AT("ind", j)))
    r.call(L, "unset_samples")
    fresh("%s, withdrawn" % kind)
