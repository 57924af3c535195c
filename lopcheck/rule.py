"""Obligations, verdicts, known findings, evidence and reports."""
import json, os, signal, sys, time, traceback
from .terms import *
from .values import *
from .repo import Repo, AnalysisBroken, Func, Class, Module, REPO
from .interp import Interp

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known_findings.txt")
sys.setrecursionlimit(20000)


class TimeUp(BaseException):
    """an analysis step has used up its time"""


def time_up(*_):
    raise TimeUp()


class Check:
    STEP, TOTAL = 240, 720       # seconds for one step and for the whole check: a backstop, far above what a step needs

    def __init__(self, pid, repo, tier="quick"):
        self.pid, self.repo, self.tier = pid, repo, tier
        self.obs = []            # (rule, construct, where, status, detail)
        self.analysed = set()    # functions interpreted
        self.notes = []
        self.tries = 6
        self.t0 = time.time()

    # ------------------------------------------------------------ recording
    def ob(self, rule, construct, where, status, detail=""):
        if isinstance(where, Func):
            where = where.where()
        self.obs.append((rule, str(construct), where or "?", status, detail))
        return status

    def ok(self, rule, construct, where, cond, detail=""):
        """cond True proved, False refuted, None unknown"""
        return self.ob(rule, construct, where,
                       "unknown" if cond is None else "proved" if cond else "refuted", detail)

    def guard(self, rule, construct, where, f, *a):
        """run an analysis step; an analysis that gives up is an unknown obligation, never an alarm"""
        left = self.TOTAL - (time.time() - self.t0)
        if left <= 0:
            self.ob(rule, construct, where, "unknown", "the time of the check is used up")
            return None
        outer = signal.getitimer(signal.ITIMER_REAL)[0]
        lim, t1 = min([left, self.STEP] + ([outer] if outer else [])), time.time()
        try:
            signal.signal(signal.SIGALRM, time_up)
            signal.setitimer(signal.ITIMER_REAL, lim)
            return f(*a)
        except TimeUp:
            self.ob(rule, construct, where, "unknown", "the time of this step is used up")
        except AnalysisBroken:
            raise
        except (Limit, Undiff, RecursionError) as e:
            self.ob(rule, construct, where, "unknown", "%s: %s" % (type(e).__name__, e))
        except Exception as e:
            if os.environ.get("LOPCHECK_DEBUG"):
                traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.ob(rule, construct, where, "unknown", "analysis gave up: %s: %s (%s:%d)" %
                    (type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno))
        finally:
            signal.setitimer(signal.ITIMER_REAL, max(0.1, outer - (time.time() - t1)) if outer else 0)
        return None

    # ------------------------------------------------------------ deciding equality
    def equal(self, rule, construct, where, got, want, dims=None):
        """got, want: scalar terms or canonical forms; a list of wants: any of them"""
        if isinstance(want, list):
            n0 = len(self.obs)
            for w in want:
                if self.equal(rule, construct, where, got, w, dims) == "proved":
                    break
            obs = self.obs[n0:]
            del self.obs[n0:]
            for pref in ("proved", "unknown", "refuted"):
                for o in obs:
                    if o[3] == pref:
                        self.obs.append(o)
                        return pref
        if not isinstance(want, Poly):
            want = norm(want)
        if isinstance(got, Unk) or isinstance(got, Phi):
            return self.ob(rule, construct, where, "unknown", "value not resolved: %r" % (got,))
        if isinstance(got, T):
            if got is NONE:
                return self.ob(rule, construct, where, "refuted", "no value is produced (None)")
            got = norm(got)
        if not isinstance(got, Poly):
            return self.ob(rule, construct, where, "unknown", "not a number: %r" % (got,))
        s, info = decide(got, want, dims, self.tries)
        if s == "unknown" and uninit(got):
            return self.ob(rule, construct, where, "refuted", "entries of an uninitialised array are never written: %s" % pshow(got)[:300])
        if s == "refuted":
            d = "computed value\n      %s\n    differs from the required value\n      %s\n    (separated by valuation %s)" % (
                pshow(got)[:700], pshow(want)[:700], str(info)[:120])
        else:
            d = str(info) if info else ""
        return self.ob(rule, construct, where, s, d)

    def arr_equal(self, rule, construct, where, v, st, dims, f, vdims=None):
        """value v must be an array of the given dims with entries f(*ivs) (terms or canonical forms)"""
        o = st.get(v) if not isinstance(v, Arr) else v
        if v is NONE:
            return self.ob(rule, construct, where, "refuted", "no value is produced (None)")
        if isinstance(o, VTuple) or isinstance(o, VList):
            o = as_array(o, st)
        if isinstance(o, T) and not dims:
            return self.equal(rule, construct, where, o, f(), vdims)
        if not isinstance(o, Arr):
            return self.ob(rule, construct, where, "unknown", "value not resolved: %r" % (o,))
        if o.rank != len(dims):
            return self.ob(rule, construct, where, "refuted", "result has %d axes (%s), %d required (%s)" % (
                o.rank, ",".join(show(d) for d in o.dims), len(dims), ",".join(show(d) for d in dims)))
        for k, (d, w) in enumerate(zip(o.dims, dims)):
            nd, nw = norm(d), norm(w)
            if nd is nw:
                continue
            s, info = decide(nd, nw, vdims)
            if s == "refuted":
                return self.ob(rule, construct, where, "refuted", "axis %d has length %s, %s required" % (
                    k, show(d), show(w)))
            if s != "proved":
                return self.ob(rule, construct, where, "unknown", "axis %d has length %s, %s required" % (
                    k, show(d), show(w)))
        ivs = [ZERO if d is ONE else IV() for d in dims]
        got, want = o.at(*ivs), f(*ivs)
        if isinstance(got, T) and isinstance(want, T):
            rg = {norm(i).terms[0][0][0][0]: norm(d) for i, d in zip(ivs, dims) if i is not ZERO}
            got, want = in_range(norm(got), rg), in_range(norm(want), rg)
        return self.equal(rule, construct, where, got, want, vdims)

    def no_errors(self, I, rule, construct):
        """certain run-time errors met while interpreting"""
        bad = False
        for fn, node, msg, facts in I.errors:
            if not facts:
                bad = True
                self.ob(rule, construct, fn.where(node) if fn else "?", "refuted",
                        "certain run-time error in %s: %s" % (fn.qual if fn else "?", msg))
        return not bad

    # ------------------------------------------------------------ outcome
    def counts(self):
        c = {"proved": 0, "refuted": 0, "unknown": 0}
        for o in self.obs:
            c[o[3]] += 1
        return c


def uninit(p):
    """the value is memory that was never written"""
    if len(p.terms) == 1 and len(p.terms[0][0]) == 1 and p.terms[0][0][0][1] == 1:
        a = ATOM[p.terms[0][0][0][0]]
        return a[0] == "o" and "uninitialised" in str(a[1]) or a[0] == "opq" and "uninitialised" in str(a[1])
    return False


def as_array(o, st):
    """a static tuple/list of scalars or equal-shaped arrays as one array (first axis = position)"""
    items = o.items if isinstance(o, VTuple) else (o.items() if o.static else None)
    if not items:
        return None
    vals = [st.get(x) for x in items]
    if all(isinstance(x, T) for x in vals):
        iv = IV()
        b = vals[-1]
        for k in range(len(vals) - 2, -1, -1):
            b = ite(eq(iv, C(k)), vals[k], b)
        return Arr((iv,), (C(len(vals)),), b)
    if all(isinstance(x, Arr) for x in vals):
        r = vals[0].rank
        if any(x.rank != r for x in vals):
            return None
        iv = IV()
        ivs = tuple(IV() for _ in range(r))
        b = vals[-1].at(*ivs)
        for k in range(len(vals) - 2, -1, -1):
            b = ite(eq(iv, C(k)), vals[k].at(*ivs), b)
        return Arr((iv,) + ivs, (C(len(vals)),) + tuple(vals[0].dims), b)
    return None


def known():
    """[(property, key)] of listed findings (not the fixed ones)"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("finding: "):
                p, _, rest = l[9:].partition(" ")
                key, _, text = rest.partition(" :: ")
                out.append((p.split("=")[1], key.strip(), text.strip()))
    return out


def key_of(ob):
    return (ob[0] + " @ " + ob[1]).replace("\n", " ")


# ---------------------------------------------------------------- symbolic inputs
N, M, D = S("N", True, "dim"), S("M", True, "dim"), S("D", True, "dim")


def sym_arr(name, dims, dt="float"):
    ivs = tuple(IV() for _ in dims)
    return Arr(ivs, tuple(dims), AT(name, *ivs), dt)


def vec(terms, dt="float"):
    iv = IV()
    b = terms[-1]
    for k in range(len(terms) - 2, -1, -1):
        b = ite(eq(iv, C(k)), terms[k], b)
    return Arr((iv,), (C(len(terms)),), b, dt)


def new(st, obj):
    return st.new(obj)


class Run:
    """one interpreter with a state"""

    def __init__(self, check, interior=True, st=None, budget=400000, exc=False, force_exc=()):
        self.check = check
        self.I = Interp(check.repo, interior=interior, budget=budget)
        self.I.no_exc = not exc
        self.I.force_exc = force_exc
        self.st = st or State()

    def fork(self):
        r = Run.__new__(Run)
        r.check = self.check
        r.I = Interp(self.check.repo, interior=self.I.interior)
        r.I.no_exc, r.I.force_exc = self.I.no_exc, self.I.force_exc
        r.I.hooks.update(self.I.hooks)
        r.I.exthooks.update(self.I.exthooks)
        r.st = self.st.fork()
        r.I.modheap = self.I.modheap
        r.I.modcache = self.I.modcache
        return r

    def arr(self, name, *dims, dt="float"):
        return self.st.new(sym_arr(name, dims, dt))

    def vec(self, *terms):
        return self.st.new(vec(terms))

    def get(self, v):
        return self.st.get(v)

    def new(self, cls, *args, **kw):
        c = self.check.repo.cls(cls) if isinstance(cls, str) else cls
        return self.I.call(c, list(args), kw, self.st, None)

    def call(self, obj, meth, *args, **kw):
        f = self.I.getattr(obj, meth, self.st, None)
        return self.I.call(f, list(args), kw, self.st, None)

    def fn(self, func, *args, **kw):
        f = self.check.repo.func(func) if isinstance(func, str) else func
        return self.I.call(f, list(args), kw, self.st, None)

    def attr(self, obj, name):
        return self.st.get(obj).attrs.get(name)

    def set(self, obj, **kw):
        o = self.st.get(obj)
        at = dict(o.attrs)
        at.update(kw)
        self.st.put(obj, VObj(o.cls, at, o.hooks, o.name))
