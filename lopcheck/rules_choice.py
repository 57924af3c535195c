"""C08 C19 C21: direction of preferences, simulated choices, posterior sampler."""
import ast
import itertools
from fractions import Fraction
from .rule import *

RNG_UNIT = ("numpy.random.random", "numpy.random.rand", "numpy.random.random_sample", "numpy.random.ranf", "numpy.random.sample")


def fpath(check, name, mod=None):
    """a public function anchored by name (module path suffix optional)"""
    return check.repo.func(name)


class Draws:
    """random draws of one run, numbered per kind: U_k (uniform) and Z_k (standard normal)"""

    def __init__(self, run):
        self.run, self.nu, self.nz = run, 0, 0
        self.log = []
        ex = run.I.exthooks
        for x in RNG_UNIT:
            ex[x] = self.unit
        ex["numpy.random.uniform"] = self.uniform
        ex["numpy.random.normal"] = self.normal
        ex["numpy.random.standard_normal"] = lambda I, st, a, kw, nd: self.normal(I, st, [ZERO, ONE] + list(a[:1]), {}, nd)
        ex["numpy.random.randn"] = lambda I, st, a, kw, nd: self.normal(I, st, [ZERO, ONE, VTuple(a)] if a else [ZERO, ONE], {}, nd)

    def shaped(self, I, st, name, sort, dims):
        if not dims:
            return S(name, sort == "unit", "real") if sort != "unit" else S(name, True, "unit")
        ARRAYS[name] = {"sort": sort}
        return st.new(sym_arr(name, dims))

    split = False

    def unit(self, I, st, a, kw, nd, shape=None):
        size = shape if shape is not None else kw.get("size", VTuple(a) if len(a) > 1 else (a[0] if a else None))
        dims = I.shape_of(size, st) if size is not None and size is not NONE else []
        if dims is None:
            return I.fresh_unk("rng")
        if self.split and len(dims) == 1 and dims[0].op == "c" and dims[0].args[0] <= 64:
            # independent draws, one symbol each
            self.nu += int(dims[0].args[0])
            return st.new(vec([S("U%d" % (self.nu - k), True, "unit") for k in reversed(range(int(dims[0].args[0])))]))
        self.nu += 1
        return self.shaped(I, st, "U%d" % self.nu, "unit", dims)

    def uniform(self, I, st, a, kw, nd):
        low = kw.get("low", a[0] if a else ZERO)
        high = kw.get("high", a[1] if len(a) > 1 else ONE)
        size = kw.get("size", a[2] if len(a) > 2 else None)
        if I.scalar(low, st) is ZERO and I.scalar(high, st) is ONE:
            return self.unit(I, st, [], {"size": size} if size is not None else {}, nd)
        return I.rng("uniform", a, kw, st, nd)

    def normal(self, I, st, a, kw, nd):
        loc = kw.get("loc", a[0] if a else ZERO)
        sc = kw.get("scale", a[1] if len(a) > 1 else ONE)
        size = kw.get("size", a[2] if len(a) > 2 else None)
        l, s = I.arr(loc, st), I.arr(sc, st)
        dims = I.shape_of(size, st) if size is not None and size is not NONE else None
        if dims is None:
            ds = [x.dims for x in (l, s) if isinstance(x, Arr)]
            dims = I.bdims(ds) if ds else []
        if l is None or s is None or dims is None:
            return I.fresh_unk("rng")
        self.nz += 1
        nm = "Z%d" % self.nz
        self.log.append((nm, l, s))
        ARRAYS[nm] = {"sort": "real"}
        if not dims:
            return add(l, mul(s, S(nm, False, "real")))

        def part(x, ivs):
            if not isinstance(x, Arr):
                return x
            iv = ivs[len(ivs) - x.rank:]
            return x.at(*[ZERO if d is ONE else i for i, d in zip(iv, x.dims)])
        ivs = tuple(IV() for _ in dims)
        return st.new(Arr(ivs, tuple(dims), add(part(l, ivs), mul(part(s, ivs), AT(nm, *ivs))), "f"))


# ---------------------------------------------------------------- C21
def c21(check):
    f = check.repo.func("metropolis_hastings")
    check.tries = 12
    cfg = [(1, 0, 1), (2, 0, 1), (1, 1, 1), (2, 1, 2), (1, 2, 1)]
    if check.tier == "thorough":
        cfg += [(3, 0, 1), (3, 1, 1), (1, 3, 1), (2, 2, 2)]
    for ns, nb, d in cfg:
        for own in (False, True):
            tag = "%d samples after %d burned, %d dimensions, %s proposal" % (ns, nb, d, "given" if own else "default")
            check.guard("samples follow the Metropolis rule", tag, f.where(), c21_run, check, f, ns, nb, d, own)
    check.guard("the default proposal is centred at the state", f.name, f.where(), c21_proposal, check, f)
    for ns, nb in ((40, 25), (700, None)) + (((3000, 1500),) if check.tier == "thorough" else ()):
        tag = "history of %d samples after %s burned" % (ns, nb if nb is not None else "the default number")
        check.guard("samples follow the Metropolis rule", tag, f.where(), c21_history, check, f, ns, nb, tag)


def c21_proposal(check, f):
    rule = "the default proposal is centred at the state"
    dv = dict(zip([a.arg for a in f.node.args.args[-len(f.node.args.defaults):]], f.node.args.defaults)) if f.node.args.defaults else {}
    g = None
    if isinstance(dv.get("prop_distribution"), ast.Name):
        g = check.repo.lookup(f.module, dv["prop_distribution"].id)
    if not isinstance(g, Func):
        check.ob(rule, f.name, f.where(), "unknown", "default proposal not resolved")
        return
    run = Run(check)
    dr = Draws(run)
    x = run.arr("x", D)
    v = run.get(run.fn(g, x))
    if not isinstance(v, Arr) or len(dr.log) != 1:
        check.ob(rule, g.name, g.where(), "unknown", "not one normal draw: %r" % (v,))
        return
    sd = dr.log[0][2]
    if isinstance(sd, Arr):
        sd = sd.at(*[IV() for _ in sd.dims])
    if any(t.op == "at" and t.args[0] == "x" for t in walk(sd)):
        check.ob(rule, g.name, g.where(), "refuted", "the spread depends on the state, so the proposal is not symmetric: %s" % show(sd)[:100])
        return
    check.arr_equal(rule, g.name, g.where(), v, run.st, [D], lambda d: add(AT("x", d), mul(sd, AT("Z1", d))))
    p = norm(sd)
    check.equal("the default proposal moves", g.name, g.where(), ite(lt(ZERO, sd), ONE, ZERO), ONE)


def c21_history(check, f, ns, nb, tag):
    """a long chain whose decisions are fixed: the proposals are symbols, accepted ones have a log-density above that
    of the state or less than log 2 below it, rejected ones one unit below it; thresholds are 1/2"""
    rule = "long chains keep, accept and record one state per step"
    run = Run(check, budget=8000000)
    run.I.unroll = 10000

    def keep(I, st, a, kw, nd):
        o = st.get(a[0]) if a else None
        return a[0] if isinstance(o, VList) and o.static else I.call_ext("numpy.array", a, kw, st, nd)
    for x in ("array", "asarray", "stack", "vstack"):
        run.I.exthooks["numpy." + x] = keep
    bad, seen, cnt = [], [], [0]
    rej = lambda k: (k * 7919 + 13) % 11 in (0, 3, 4, 8)
    state, lls, top = [None], {}, [Fraction(0)]

    def entry(I, st, v):
        o = st.get(v)
        if isinstance(o, (VTuple, VList)):
            o = as_array(o, st)
        return o.at(ZERO) if isinstance(o, Arr) and o.rank == 1 else o

    def ll(I, st, me, a, kw, nd):
        e = entry(I, st, a[0])
        if isinstance(e, T) and e.op == "at" and e.args[0] == "prop":
            k = int(e.args[1].args[0])
            if k not in lls:
                lls[k] = top[0] + (-1 if rej(k) else 1 if k % 3 else Fraction(-1, 2))
                if not rej(k):
                    top[0] = lls[k]
            return C(lls[k])
        if state[0] is None:
            state[0] = e
        return ZERO

    def prop(I, st, me, a, kw, nd):
        cnt[0] += 1
        if entry(I, st, a[0]) is not state[0]:
            bad.append((cnt[0], show(entry(I, st, a[0]))[:60], show(state[0])[:60]))
        x = AT("prop", C(cnt[0]))
        if not rej(cnt[0]):
            state[0] = x
        seen.append(state[0])
        return st.new(vec([x]))
    half = C(Fraction(1, 2))

    def halves(I, st, size, nm, a, kw, nd):
        dims = I.shape_of(size, st) if size is not None and size is not NONE else []
        if dims is None or len(dims) == 1 and dims[0] is ONE:
            return I.rng(nm, a, kw, st, nd)          # the start
        if not dims:
            return half
        return st.new(Arr(tuple(IV() for _ in dims), tuple(dims), half, "f"))
    for x in RNG_UNIT:
        run.I.exthooks[x] = lambda I, st, a, kw, nd: halves(I, st, kw.get("size", a[0] if len(a) == 1 else VTuple(a) if a else None), "random", a, kw, nd)
    run.I.exthooks["numpy.random.uniform"] = lambda I, st, a, kw, nd: halves(I, st, kw.get("size", a[2] if len(a) > 2 else None), "uniform", a, kw, nd) \
        if all(I.scalar(x, st) is y for x, y in zip(list(a[:2]) + [kw.get("low", ZERO), kw.get("high", ONE)][len(a[:2]):], (ZERO, ONE))) else I.rng("uniform", a, kw, st, nd)
    L = run.st.new(VObj(None, {}, {"__call__": ll}, "loglik"))
    Pf = run.st.new(VObj(None, {}, {"__call__": prop}, "proposal"))
    args = {"prop_distribution": Pf}
    if nb is not None:
        args["num_to_burn"] = C(nb)
    else:
        d = [a for a in zip(f.node.args.args[-len(f.node.args.defaults):], f.node.args.defaults) if a[0].arg == "num_to_burn"]
        nb = d[0][1].value if d and isinstance(d[0][1], ast.Constant) and isinstance(d[0][1].value, int) else None
        if nb is None or nb > 5000:
            check.ob(rule, tag, f.where(), "unknown", "default burn-in not resolved")
            return
    v = run.get(run.fn(f, L, C(ns), **args))
    if not check.no_errors(run.I, "the sampler runs", tag):
        return
    if isinstance(v, VList) and v.static:
        items = list(v.items())
        check.ok("exactly the requested number of samples", tag, f.where(), len(items) == ns, "%d samples are returned, %d requested" % (len(items), ns))
        if len(items) != ns:
            return
        at = lambda r: entry(run.I, run.st, items[r])
        every = True
    elif isinstance(v, Arr) and v.rank == 2:
        s, info = decide(norm(v.dims[0]), norm(C(ns)))
        check.ob("exactly the requested number of samples", tag, f.where(), s, "%s samples are returned, %d requested" % (show(v.dims[0]), ns))
        if s != "proved":
            return
        at = lambda r: simp(v.at(C(r), ZERO), {})
        every = ns <= 60
    else:
        check.ob(rule, tag, f.where(), "unknown", "samples not resolved: %r" % (v,))
        return
    if bad:
        check.ob(rule, tag, f.where(), "refuted", "proposal %d is made from %s, the current state is %s" % bad[0])
        return
    wrong = [(r, at(r), seen[nb + r]) for r in (range(ns) if every else [0, 1, 2, ns // 2, ns - 2, ns - 1])]
    wrong = [(r, g, w) for r, g, w in wrong if g is not w]
    if not wrong:
        check.ob(rule, tag, f.where(), "proved", "")
    else:
        r, g, w = wrong[0]
        check.equal(rule, tag + ", sample %d" % r, f.where(), g, w)


def LL(e):
    return mul(C(6), fn("usr:L", *e))


def c21_run(check, f, ns, nb, d, own):
    run = Run(check)
    dr = Draws(run)
    dr.split = True
    calls = []
    tag = "%d samples after %d burned, %d dimensions, %s proposal" % (ns, nb, d, "given" if own else "default")
    rule = "samples follow the Metropolis rule"

    def ents(I, st, v):
        o = st.get(v)
        if isinstance(o, (VTuple, VList)):
            o = as_array(o, st)
        if isinstance(o, T):
            return [o]
        if isinstance(o, Arr) and o.rank == 1:
            return [o.at(C(k)) for k in range(d)]
        return None

    def ll(I, st, me, a, kw, nd):
        e = ents(I, st, a[0])
        if e is None:
            return I.fresh_unk("loglik")
        calls.append(list(e))
        return LL(e)

    nprop = [0]

    def P(k, e):
        return [fn("usr:P%d.%d" % (k, j), *e) for j in range(d)]

    def prop(I, st, me, a, kw, nd):
        e = ents(I, st, a[0])
        if e is None:
            return I.fresh_unk("proposal")
        nprop[0] += 1
        return st.new(vec(P(nprop[0], e)))

    L = run.st.new(VObj(None, {}, {"__call__": ll}, "loglik"))
    args = {"num_to_burn": C(nb), "dim": C(d)}
    if own:
        args["prop_distribution"] = run.st.new(VObj(None, {}, {"__call__": prop}, "proposal"))
    v = run.get(run.fn(f, L, C(ns), **args))
    if not check.no_errors(run.I, "the sampler runs", tag):
        return
    if not calls:
        check.ob(rule, tag, f.where(), "unknown", "the log-density is never evaluated")
        return
    if isinstance(v, (VList, VTuple)):
        v = as_array(v, run.st)
    # reference: from the first state whose log-density is taken
    if own is False and not dr.log:
        check.ob(rule, tag, f.where(), "unknown", "no normal proposal is drawn")
        return
    # the thresholds are independent and alike: they may be drawn in any order, at any time
    start = {y.args[0] for x in calls[0] for y in walk(x) if y.op == "s"}
    used = sorted({y.args[0] for r in range(ns) for c in range(d) for x in walk(v.at(C(r), C(c))) if x.op == "lt"
                   for y in walk(x) if y.op == "s" and y.args[2] == "unit"} - start,
                  key=lambda n: int(n[1:])) if isinstance(v, Arr) and v.rank == 2 else []
    used += ["V%d" % k for k in range(ns + nb)]

    def reference(carry, form=0):
        x, out = calls[0], []
        lx = LL(x)
        for k in range(1, ns + nb + 1):
            if own:
                p = P(k, x)
            else:
                sd = dr.log[0][2]
                if isinstance(sd, Arr):
                    sd = sd.at(*[ZERO] * sd.rank)
                p = [add(x[j], mul(sd, AT("Z%d" % k, C(j)))) for j in range(d)]
            lp = LL(p)
            acc = lt(S(used[k - 1], True, "unit"), fn("exp", sub(lp, lx)))
            if form:
                acc = OR(lt(lx, lp) if form == 1 else le(lx, lp), acc)
            x = [ite(acc, a, b) for a, b in zip(p, x)]
            lx = ite(acc, lp, lx) if carry else LL(x)
            if k > nb:
                out.append(x)
        return out
    if not isinstance(v, Arr):
        check.ob(rule, tag, f.where(), "unknown", "samples not resolved: %r" % (v,))
        return
    if v.rank != 2:
        check.ob("one row per sample", tag, f.where(), "refuted", "the result has %d axes" % v.rank)
        return
    s, info = decide(norm(v.dims[0]), norm(C(ns)))
    check.ob("exactly the requested number of samples", tag, f.where(), s, "%s samples are returned, %d requested" % (show(v.dims[0]), ns))
    if s != "proved":
        return
    ws = [reference(carry, form) for form in (0, 1, 2) for carry in (True, False)]
    check.tries = 1200 if ns + nb == 1 and own else 12
    for r in range(ns):
        for c in range(d):
            check.equal(rule, tag + ", sample %d component %d" % (r, c), f.where(), v.at(C(r), C(c)), [w[r][c] for w in ws])


# ---------------------------------------------------------------- C19
SPEC = '''
import numpy as np

def softmax(r, p):
    e = np.exp(p * r)
    return e / np.sum(e, axis=-1, keepdims=True)

def best(f):
    return np.argmax(f)

def logistic(x, k, b):
    return 1 / (1 + np.exp(-(k * x + b)))
'''


def spec(check, name):
    return check.repo.add_source("lopcheck_spec_choice", SPEC).sym[name]


def method(check, cls, name):
    f = check.repo.method(check.repo.cls(cls), name)
    if f is None:
        raise AnalysisBroken("method %s.%s not found" % (cls, name))
    return f


def c19(check):
    check.tries = 40
    f = check.repo.func("p_human_choice")
    for rank in (1, 2):
        check.guard("choice probabilities are the softmax of the scaled rewards", "p_human_choice, %d axes" % rank, f.where(), c19_softmax, check, f, rank)
    s = check.repo.func("sample_human_choice")
    for samples in (False, True):
        check.guard("choices are drawn with the choice probabilities", "sample_human_choice" + (" (several)" if samples else ""), s.where(), c19_sample, check, s, samples)
    check.guard("logistic function", "sigmoid", check.repo.func("sigmoid").where(), c19_sigmoid, check)
    for cls in users(check):
        for meth in ("choose", "rate", "choose_pairs"):
            f = method(check, cls, meth)
            check.guard("%s follows the stated model" % meth, cls, f.where(), {"choose": c19_choose, "rate": c19_rate, "choose_pairs": c19_pairs}[meth], check, cls, f)


def users(check):
    """concrete simulated users"""
    out = []
    for c in check.repo.subclasses(check.repo.cls("SyntheticUser")):
        if all(check.repo.method(c, m) is not None and check.repo.method(c, m).cls.name != "SyntheticUser" for m in ("choose", "rate")):
            out.append(c.name)
    for c in ("PerfectUser", "HumanChoiceUser", "HumanChoiceUser2"):
        check.repo.cls(c)
    return sorted(out)


def exp_args(run):
    """arguments of every numpy.exp call"""
    from .npsem import NP1
    seen = []

    def hook(I, st, a, kw, nd):
        seen.append((I.arr(a[0], st), nd, I.cur()))
        return I.map1(NP1["exp"], a[0], st)
    run.I.exthooks["numpy.exp"] = hook
    return seen


def c19_softmax(check, f, rank):
    tag = "p_human_choice, %d axes" % rank
    run = Run(check)
    dims = [N] if rank == 1 else [M, N]
    r = run.arr("r", *dims)
    p = S("peak", True)
    seen = exp_args(run)
    v = run.get(run.fn(f, r, p))
    if not check.no_errors(run.I, "choice probabilities can be computed", tag):
        return
    q = run.fork()
    q.I.exthooks.pop("numpy.exp", None)
    w = q.get(q.fn(spec(check, "softmax"), r, p))
    check.arr_equal("choice probabilities are the softmax of the scaled rewards", tag, f.where(), v, run.st, dims, lambda *i: w.at(*i))
    rule = "no reward overflows and no row of weights vanishes"
    for a, nd, fn_ in seen:
        if not isinstance(a, Arr) or a.rank != rank:
            check.ob(rule, tag, f.where(nd), "unknown", "exponent not resolved")
            continue
        # the exponent of the largest reward of each row is zero: rewards and scale do not reach the exponential
        bad = None
        done = 0
        for seed in range(8):
            vals = []
            try:
                for row in range(2):
                    ent = []
                    for j in range(3):
                        idx = (C(j),) if rank == 1 else (C(row), C(j))
                        val = Valuation(seed, {"N": 3, "M": 2})
                        big = tmap_at(a.at(*idx), "r", lambda t: add(mul(C(2000), t), mul(C(5000), t.args[1] if rank == 2 else ZERO)))
                        flat = tsubst(big, {p: mul(C(Fraction(1, 2000)), p)})
                        ent.append((val.ev(norm(big)), val.ev(norm(flat))))
                    vals.append(ent)
            except (NoValue, Limit):
                continue
            done += 1
            if any(max(x for x, _ in e) > 600 or max(x for x, _ in e) < -600 for e in vals):
                bad = [[x for x, _ in e] for e in vals]
            # scaled rewards of a moderate size: no weight of the row is lost
            elif any(abs(x) > 600 for e in vals for _, x in e):
                bad = [[x for _, x in e] for e in vals]
        if bad:
            check.ob(rule, tag, fn_.where(nd) if fn_ else f.where(nd), "refuted", "with rewards of some thousands the exponents of a row are %s" % bad)
        else:
            check.ok(rule, tag, f.where(nd), True if done else None)
    if not seen:
        check.ob(rule, tag, f.where(), "unknown", "no exponential is taken")


def tmap_at(t, name, g):
    """replace every entry of the array `name`"""
    m = {}
    for x in walk(t):
        if x.op == "at" and x.args[0] == name:
            m[x] = g(x)
    return tsubst(t, m) if m else t


def catch_choice(run):
    seen = []

    def hook(I, st, a, kw, nd):
        d = {}
        for k, nm in enumerate(("a", "size", "replace", "p")):
            d[nm] = kw.get(nm, a[k] if len(a) > k else None)
        d["node"] = nd
        seen.append(d)
        size = d["size"]
        dims = I.shape_of(size, st) if size is not None and size is not NONE else []
        pop = I.arr(d["a"], st)
        get = (lambda t: pop.at(t)) if isinstance(pop, Arr) and pop.rank == 1 else (lambda t: t)
        if not dims:
            return get(S("chosen", False, "int"))
        ARRAYS["chosen"] = {"sort": "int"}
        ivs = tuple(IV() for _ in dims)
        return st.new(Arr(ivs, tuple(dims), get(AT("chosen", *ivs)), "i"))
    run.I.exthooks["numpy.random.choice"] = hook
    return seen


def drawn(check, run, seen, rule, tag, w, want, size):
    """one draw over the positions with probabilities want(i)"""
    if not seen and not any(str(e.data.get("name", "")).startswith(("numpy.random", "random.", "scipy")) for e in run.I.events if e.kind in ("call", "rng")) \
            and not any(e.kind == "callunk" for e in run.I.events):
        check.ob(rule, tag, w, "refuted", "nothing is drawn")
        return False
    if len(seen) != 1:
        check.ob(rule, tag, w, "unknown", "%d weighted draws are made" % len(seen))
        return False
    d = seen[0]
    pop = run.I.arr(d["a"], run.st)
    if isinstance(pop, T):
        check.equal("the draw is over all choices", tag, w, pop, N)
    else:
        check.arr_equal("the draw is over all choices", tag, w, pop if pop is not None else Unk(opq("population")), run.st, [N], lambda i: i)
    if d["p"] is None or d["p"] is NONE:
        check.ob(rule, tag, w, "refuted", "the draw is made without probabilities")
        return False
    check.arr_equal(rule, tag, w, d["p"], run.st, [N], want)
    if size is None:
        check.ok("a single choice is drawn", tag, w, d["size"] in (None, NONE))
    else:
        if d["size"] in (None, NONE):
            check.ob("as many choices are drawn as asked for", tag, w, "refuted", "one choice is drawn")
        else:
            sz = run.I.shape_of(d["size"], run.st)
            check.equal("as many choices are drawn as asked for", tag, w, sz[0] if sz and len(sz) == 1 else Unk(opq("size")), size)
        rep = d["replace"]
        check.ok("choices are drawn independently", tag, w, False if rep is not None and run.get(rep) in (FALSE, ZERO) else True)
    return True


def c19_sample(check, s, samples):
    tag = "sample_human_choice" + (" (several)" if samples else "")
    run = Run(check)
    r = run.arr("r", N)
    p = S("peak", True)
    seen = catch_choice(run)
    k = S("ks", True, "dim") if samples else None
    v = run.get(run.fn(s, r, p, k) if samples else run.fn(s, r, p))
    if not check.no_errors(run.I, "choices can be drawn", tag):
        return
    q = run.fork()
    w = q.get(q.fn(spec(check, "softmax"), r, p))
    rule = "choices are drawn with the choice probabilities"
    if not drawn(check, run, seen, rule, tag, s.where(), lambda i: w.at(i), k):
        return
    if samples:
        check.arr_equal("the draw is what is returned", tag, s.where(), v, run.st, [k], lambda i: AT("chosen", i))
    else:
        check.equal("the draw is what is returned", tag, s.where(), v, S("chosen", False, "int"))


def c19_sigmoid(check):
    f = check.repo.func("sigmoid")
    run = Run(check)
    x = run.arr("x", N)
    a, b = S("slope"), S("offset")
    v = run.fn(f, x, a, b)
    check.arr_equal("logistic function", "sigmoid", f.where(), v, run.st, [N], lambda i: div(ONE, add(ONE, fn("exp", neg(add(mul(a, AT("x", i)), b))))))


def user(check, cls):
    """a simulated user whose reward function is a symbol; returns run, user, query, problems"""
    run = Run(check)
    q = run.arr("query", N, D)
    bad = []

    def fake(I, st, me, a, kw, nd):
        if not a or not (a[0] is q or st.get(a[0]) is st.get(q)):
            bad.append(nd)
            return I.fresh_unk("reward")
        return st.new(sym_arr("f", [N]))
    ff = run.st.new(VObj(None, {}, {"__call__": fake}, "reward function"))
    u = run.new(cls, ff)
    human = check.repo.cls("HumanChoiceUser") in check.repo.mro(check.repo.cls(cls))
    if human:
        run.set(u, beta=S("beta", True), sigma=S("sigma", True), k=S("kk", True), b=S("bb"))
    scaled = (lambda i: add(mul(AT("f", i), S("kk", True)), S("bb"))) if human else (lambda i: AT("f", i))
    return run, u, q, bad, human, scaled


def c19_choose(check, cls, f):
    run, u, q, bad, human, scaled = user(check, cls)
    seen = catch_choice(run)
    v = run.get(run.call(u, "choose", q))
    if not check.no_errors(run.I, "a simulated user can choose", cls):
        return
    rule = "choose follows the stated model"
    r = run.fork()
    if human:
        i = IV()
        sc = r.st.new(Arr((i,), (N,), scaled(i)))
        w = r.get(r.fn(spec(check, "softmax"), sc, S("beta", True)))
        if drawn(check, run, seen, rule, cls, f.where(), lambda i: w.at(i), None):
            check.equal("the draw is what is returned", cls, f.where(), v, S("chosen", False, "int"))
    else:
        best = r.get(r.fn(spec(check, "best"), r.st.new(sym_arr("f", [N]))))
        check.equal(rule, cls, f.where(), v, best)


def c19_rate(check, cls, f):
    run, u, q, bad, human, scaled = user(check, cls)
    dr = Draws(run)
    v = run.call(u, "rate", q)
    if not check.no_errors(run.I, "a simulated user can rate", cls):
        return
    rule = "rate follows the stated model"
    if human:
        x = lambda i: add(scaled(i), mul(S("sigma", True), AT("Z1", i)))
        if dr.nz != 1:
            check.ob(rule, cls, f.where(), "unknown" if dr.nz else "refuted", "%d normal draws are made" % dr.nz)
            return
        w = lambda i: div(ONE, add(ONE, fn("exp", neg(x(i)))))
    else:
        w = lambda i: div(ONE, add(ONE, fn("exp", neg(mul(C(4), AT("f", i))))))
    check.arr_equal(rule, cls, f.where(), v, run.st, [N], w)


def c19_pairs(check, cls, f):
    """the chosen item is preferred to every other item exactly once"""
    rule = "choose_pairs follows the stated model"
    for cnt in (1, 2, 3, 4):
        for c in range(cnt):
            run = Run(check)
            q = run.arr("query", C(cnt), C(5))
            ff = run.st.new(VObj(None, {}, {}, "reward function"))
            u = run.new(cls, ff)
            run.I.hooks[check.repo.method(check.repo.cls(cls), "choose")] = lambda I, st, a, kw, nd: C(c)
            v = run.call(u, "choose_pairs", q)
            tag = "%s, choosing %d of %d" % (cls, c, cnt)
            if not check.no_errors(run.I, "a simulated user can answer with pairs", tag):
                continue
            ps = pairs_of(run, v)
            if ps is None:
                check.ob(rule, tag, f.where(), "unknown", "pairs not resolved: %r" % (run.get(v),))
                continue
            orient(check, rule, tag, f.where(), ps, [(c, j) for j in range(cnt) if j != c])


def fold(t):
    """the term as a constant term when it has one"""
    if isinstance(t, T) and t.op != "c":
        p = norm(t)
        if not p.terms:
            return ZERO
        if len(p.terms) == 1 and p.terms[0][0] == ():
            return C(p.terms[0][1])
    return t


def pairs_of(run, v):
    """[(d, i, j)] terms of a static list of triples"""
    o = run.get(v)
    if isinstance(o, VTuple):
        items = o.items
    elif isinstance(o, VList) and o.static:
        items = list(o.items())
    elif isinstance(o, Arr) and o.rank == 2 and isnum(o.dims[0]) and norm(o.dims[1]) is norm(C(3)):
        return [tuple(fold(o.at(C(r), C(c))) for c in range(3)) for r in range(int(o.dims[0].args[0]))]
    elif isinstance(o, Arr) and isnum(o.dims[0]) and o.dims[0].args[0] == 0:
        return []
    else:
        return None
    out = []
    for x in items:
        t = run.get(x)
        if isinstance(t, VList) and t.static:
            t = VTuple(list(t.items()))
        if isinstance(t, Arr) and t.rank == 1:
            out.append(tuple(fold(t.at(C(c))) for c in range(3)))
        elif isinstance(t, VTuple) and len(t.items) == 3:
            out.append(tuple(run.I.scalar(run.get(y), run.st) if not isinstance(y, T) else fold(y) for y in t.items))
        else:
            return None
    return out


def winner(d, i, j):
    """(preferred, other) of a constant triple under the training convention d = -1: i preferred"""
    try:
        d, i, j = [int(x.args[0]) if isinstance(x, T) and x.op == "c" else None for x in (d, i, j)]
    except Exception:
        return None
    if None in (d, i, j) or d not in (-1, 1):
        return "bad" if d is not None and d not in (-1, 1) else None
    return (i, j) if d == -1 else (j, i)


def orient(check, rule, tag, w, ps, want):
    """constant triples against the set of (preferred, other) that must occur once each"""
    got = [winner(*p) for p in ps]
    if any(g is None for g in got):
        check.ob(rule, tag, w, "unknown", "pairs not resolved: %s" % [[show(y)[:40] for y in p] for p in ps][:4])
        return
    if sorted(map(str, got)) == sorted(map(str, want)):
        check.ob(rule, tag, w, "proved", "")
    else:
        check.ob(rule, tag, w, "refuted", "the pairs say (preferred, other) = %s, required %s" % (got, want))


# ---------------------------------------------------------------- C08
def c08(check):
    from .rules_probit import decl
    decl()
    check.guard("training likelihood prefers the first item for -1", "PreferenceProbit", method(check, "PreferenceProbit", "log_likelihood").where(), c08_train, check)
    check.guard("pair label of two values", "get_dk", check.repo.func("get_dk").where(), c08_dk, check)
    check.guard("recorded preference", "preference", check.repo.func("preference").where(), c08_pref, check)
    top = 4 if check.tier == "quick" else 5
    for cnt in range(1, top + 1):
        for perm in itertools.permutations(range(cnt)):
            check.guard("generated pairs favour the larger score", "scores %s" % (perm,), check.repo.func("generate_ranking_pairs").where(), c08_scores, check, perm)
        for c in range(cnt):
            check.guard("pairs of a choice favour the choice", "%d of %d" % (c, cnt), check.repo.func("gen_pairs_from_idx").where(), c08_choice, check, c, cnt)
    w = method(check, "PreferenceModel", "add").where()
    for old, new, dim in ((0, 3, 1), (2, 2, 1), (2, 2, 2), (0, 3, 2)):
        pts = itertools.permutations(range(old + new)) if dim == 1 else [((0, 1, 2, 3), (0, 1, 2, 3)), ((3, 1, 0, 2), (2, 3, 1, 0)), ((2, 0, 1, 3), (3, 0, 2, 1)), ((1, 0, 3, 2), (0, 1, 3, 2))]
        for p in pts:
            cols = [p] if dim == 1 else [c[:old + new] for c in p]
            check.guard("dominance pairs favour the dominating point", "%d old points, new %s" % (old, cols), w, c08_pareto, check, old, new, cols)
    for d in (-1, 1):
        check.guard("the arrow of a preference points to the preferred point", "label %d" % d, method(check, "PreferenceModel", "plot_preference").where(), c08_plot, check, d)


def c08_train(check):
    """log P(d, i, j | F) = log Phi(d (F_j - F_i) / (sqrt(2) sigma)): decreasing in F_j - F_i for d = -1"""
    from .rules_probit import mk_pref, Fvec, pref_y, n
    run = Run(check)
    pr = mk_pref(run)
    F = Fvec(run)
    v = run.call(pr, "log_likelihood", pref_y(run), F)
    if not check.no_errors(run.I, "the likelihood runs", "PreferenceProbit.log_likelihood"):
        return
    k = IV()
    diff = sub(AT("F", AT("jv", k)), AT("F", AT("iu", k)))
    z = lambda s: div(mul(s, diff), mul(pw(TWO, C(Fraction(1, 2))), S("sg", True)))
    o = run.get(v)
    if isinstance(o, Arr):
        o = o.at(*[ZERO] * o.rank)
    check.equal("training likelihood prefers the first item for -1", "PreferenceProbit.log_likelihood",
                method(check, "PreferenceProbit", "log_likelihood").where(), o, SUM(k, n, fn("log", fn("ndtr", z(AT("d", k))))))


def c08_dk(check):
    f = check.repo.func("get_dk")
    e = Fraction(1, 10 ** 9)
    for u, v, want in ((1, 0, -1), (0, 1, 1), (-2, -3, -1), (Fraction(1, 2), Fraction(3, 4), 1), (e, 0, -1), (0, e, 1), (1000 + e, 1000, -1), (10 ** 6, 10 ** 6 + 1, 1)):
        run = Run(check)
        r = run.get(run.fn(f, C(u), C(v)))
        check.equal("pair label of two values", "get_dk(%s, %s)" % (u, v), f.where(), r, C(want))
    run = Run(check)
    r = run.get(run.fn(f, C(1), C(1)))
    t = r if isinstance(r, T) else None
    check.ok("equal values still get a label", "get_dk(1, 1)", f.where(), None if t is None or t.op != "c" else t.args[0] in (1, -1), "label %r" % (r,))
    gap = fn("exp", S("sv"))
    for tag, d, a in (("get_dk(u + gap, u)", -1, 1), ("get_dk(u, u + gap)", 1, 0)):
        run = Run(check)
        u = S("su")
        r = run.get(run.fn(f, *((add(u, gap), u) if a else (u, add(u, gap)))))
        if isinstance(r, T):
            check.equal("pair label of two values", tag, f.where(), r, C(d))
        else:
            check.ob("pair label of two values", tag, f.where(), "unknown", "label %r" % (r,))


def c08_pref(check):
    f = check.repo.func("preference")
    run = Run(check)
    v = run.fn(f, C(4), C(7))
    ps = pairs_of(run, VTuple([v]))
    if ps is None:
        check.ob("recorded preference", "preference", f.where(), "unknown", repr(run.get(v)))
        return
    orient(check, "recorded preference", "preference", f.where(), ps, [(4, 7)])


def scores(run, perm):
    s = run.st.new(vec([C(p) for p in perm]))
    f = run.st.new(VObj(None, {}, {"__call__": lambda I, st, me, a, kw, nd: s}, "score"))
    return run.arr("X", C(len(perm)), C(3)), f


def c08_scores(check, perm):
    rule = "generated pairs favour the larger score"
    cnt = len(perm)
    for name, extra in (("generate_ranking_pairs", ()), ("ranked_pairs_from_fake", ())) + tuple(("generate_fake_pairs", (C(i),)) for i in range(cnt)):
        f = check.repo.func(name)
        run = Run(check)
        X, sc = scores(run, perm)
        v = run.fn(f, X, sc, *extra)
        tag = "%s%s, scores %s" % (name, "" if not extra else "(pair_i=%s)" % show(extra[0]), list(perm))
        if not check.no_errors(run.I, "pairs can be generated", tag):
            continue
        ps = pairs_of(run, v)
        if ps is None:
            check.ob(rule, tag, f.where(), "refuted" if v is NONE else "unknown", "pairs not resolved: %r" % (run.get(v),))
            continue
        if extra:
            i = int(extra[0].args[0])
            want = [(i, j) if perm[i] > perm[j] else (j, i) for j in range(cnt) if j != i]
        else:
            want = [(i, j) for i in range(cnt) for j in range(cnt) if perm[i] > perm[j]]
        orient(check, rule, tag, f.where(), ps, want)


def c08_choice(check, c, cnt):
    f = check.repo.func("gen_pairs_from_idx")
    run = Run(check)
    ids = [3 + 2 * k for k in range(cnt)]
    v = run.fn(f, C(ids[c]), run.st.new(VList([("item", C(x)) for x in ids])))
    tag = "gen_pairs_from_idx, %d of %d" % (c, cnt)
    ps = pairs_of(run, v)
    if ps is None:
        check.ob("pairs of a choice favour the choice", tag, f.where(), "unknown", repr(run.get(v)))
        return
    orient(check, "pairs of a choice favour the choice", tag, f.where(), ps, [(ids[c], x) for x in ids if x != ids[c]])


def mat(run, rows):
    """constant matrix"""
    i, j = IV(), IV()
    b = ZERO
    for r in reversed(range(len(rows))):
        row = C(rows[r][-1])
        for c in reversed(range(len(rows[r]) - 1)):
            row = ite(eq(j, C(c)), C(rows[r][c]), row)
        b = row if r == len(rows) - 1 else ite(eq(i, C(r)), row, b)
    return run.st.new(Arr((i, j), (C(len(rows)), C(len(rows[0]))), b, "f"))


def c08_pareto(check, old, new, cols):
    f = method(check, "PreferenceModel", "add")
    tag = "%d old points, coordinates %s" % (old, [list(c) for c in cols])
    rule = "dominance pairs favour the dominating point"
    run = Run(check)
    m = run.new("PreferenceLinear")
    run.set(m, pareto_pairs=TRUE)
    rows = [tuple(c[i] for c in cols) for i in range(old + new)]
    if old:
        run.call(m, "add", mat(run, rows[:old]), run.st.new(VList([("item", VTuple([C(-1), C(0), C(1)]))])))
    run.call(m, "add", mat(run, rows[old:]), run.st.new(VList([])))
    if not check.no_errors(run.I, "points can be added", tag):
        return
    y = run.get(run.attr(m, "y_train"))
    idx = run.get(run.attr(m, "probit_idxs"))
    d = {kk.args[0]: v for kk, v in idx.items} if isinstance(idx, VDict) else {}
    k = d.get("relative_discrete")
    if not isinstance(y, (VList, VTuple)) or k is None:
        check.ob(rule, tag, f.where(), "unknown", "labels not resolved")
        return
    v = (list(y.items()) if isinstance(y, VList) else y.items)[int(k.args[0])]
    dom = [(i, j) for i in range(old + new) for j in range(old + new) if all(a > b for a, b in zip(rows[i], rows[j]))]
    if v is NONE:
        check.ok(rule, tag, f.where(), True if not dom else None, "no pair is made")
        return
    ps = pairs_of(run, v)
    if ps is None:
        check.ob(rule, tag, f.where(), "unknown", "pairs not resolved: %r" % (run.get(v),))
        return
    got = [winner(*p) for p in ps]
    if any(g is None for g in got):
        check.ob(rule, tag, f.where(), "unknown", "pairs not resolved: %r" % (ps,))
        return
    wrong = [g for g in got if g not in dom and not (old and g == (0, 1))]
    check.ok(rule, tag, f.where(), not wrong, "pairs (preferred, other) %s of points %s" % (wrong, rows))


def c08_plot(check, d):
    f = method(check, "PreferenceModel", "plot_preference")
    run = Run(check)
    tag = "label %d" % d
    rule = "the arrow of a preference points to the preferred point"
    arrows = []
    ax = run.st.new(VObj(None, {}, {}, "axes"))

    def annotate(I, st, me, a, kw, nd):
        arrows.append((kw.get("xy", a[1] if len(a) > 1 else None), kw.get("xytext"), kw.get("arrowprops")))
        return NONE
    run.st.put(ax, VObj(None, {}, {"annotate": annotate, "scatter": lambda *a: NONE,
                                  "plot": lambda I, st, me, a, kw, nd: st.new(VList([("item", st.new(VObj(None, {"axes": ax}, {}, "line")))]))}, "axes"))
    m = run.new("PreferenceLinear")
    pts = ((2, 7), (5, 3))
    X = mat(run, pts)
    run.set(m, X_train=X)
    y = run.st.new(VList([("item", mat(run, [(d, 0, 1)])), ("item", NONE), ("item", NONE)]))
    run.call(m, "plot_preference", ax=ax, y_train=y, X_train=X, F=run.arr("F", N))
    if not check.no_errors(run.I, "preferences can be plotted", tag):
        return
    if len(arrows) != 1:
        check.ob(rule, tag, f.where(), "unknown", "%d arrows drawn" % len(arrows))
        return
    head, tail = run.get(arrows[0][0]), run.get(arrows[0][1])
    if not isinstance(head, VTuple) or not isinstance(tail, VTuple):
        check.ob(rule, tag, f.where(), "unknown", "arrow not resolved")
        return
    lg, sm = (0, 1) if d == -1 else (1, 0)
    for c in range(2):
        dirn = C(pts[lg][c] - pts[sm][c])
        step = sub(head.items[c], tail.items[c]) if isinstance(head.items[c], T) and isinstance(tail.items[c], T) else None
        if step is None:
            check.ob(rule, tag, f.where(), "unknown", "arrow not resolved")
        else:
            check.equal(rule, tag + ", coordinate %d" % c, f.where(), ite(lt(ZERO, mul(step, dirn)), ONE, ZERO), ONE)
