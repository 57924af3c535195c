"""C03 C09 C10 C24: model layout, posterior, fitting objective, evidence."""
import itertools
import time
from .rule import *
from .rules_kernel import combos, plen, theta_of, build, comps_check, scalar_of, subst_iv, pc_const, mref
from .rules_probit import (kinds, decl, gp_model, set_probits, probit_list, Fvec, where_of, order_kinds, NL, n, mk_abs, mk_pref)

SPEC = '''
import numpy as np

def probe_mean(X):
    return np.sum(X, axis=1)

def gp_mean(kern, X, Y, y, noise):
    Ki = np.linalg.inv(kern.cov(Y, Y) + np.diag(noise))
    return probe_mean(X) + kern.cov(X, Y) @ (Ki @ (y - probe_mean(Y)))

def gp_cov(kern, X, Y, noise):
    Ki = np.linalg.inv(kern.cov(Y, Y) + np.diag(noise))
    k = kern.cov(X, Y)
    return kern.cov(X, X) - k @ Ki @ k.T

def lap_mean(kern, K, X, Y, F):
    return kern.cov(X, Y) @ (np.linalg.inv(K) @ F)

def lap_cov(kern, K, W, X, Y):
    k = kern.cov(X, Y)
    return kern.cov(X, X) - k @ np.linalg.inv(np.eye(len(K)) + W @ K) @ W @ k.T

def log_post(F, K, ll):
    return ll - 0.5 * (F @ (np.linalg.inv(K) @ F)) - 0.5 * np.log(np.linalg.det(K)) - 0.5 * len(F) * np.log(2 * np.pi)

def log_post_chol(F, K, ll):
    L = np.linalg.cholesky(K)
    return ll - 0.5 * (F @ (np.linalg.inv(K) @ F)) - np.sum(np.log(np.diagonal(L))) - 0.5 * len(F) * np.log(2 * np.pi)

def evidence(F, K, W, ll):
    return ll - 0.5 * (F @ (np.linalg.inv(K) @ F)) - 0.5 * np.log(np.linalg.det(np.eye(len(K)) + K @ W))

def evid_kern(F, K, W, g, dK, dW):
    Bi = np.linalg.inv(np.eye(len(K)) + K @ W)
    a = np.linalg.inv(K) @ F
    s = 0.5 * np.trace(Bi @ K @ dW, axis1=1, axis2=2)
    return 0.5 * (a @ dK @ a) - 0.5 * np.trace(Bi @ dK @ W) - s @ (Bi @ dK @ g)

def evid_probit(K, W, gt, dWt):
    Bi = np.linalg.inv(np.eye(len(K)) + K @ W)
    return gt - 0.5 * np.trace(Bi @ K @ dWt)
'''


def spec(check, name):
    m = check.repo.add_source("lopcheck_spec", SPEC)
    return m.sym[name]


def kern(run):
    return run.new("RBF_kern", S("ks", True), S("kl", True))


def any_kernel(run, k):
    """the kernel as an arbitrary symmetric function of two points"""
    def cov(I, st, a, kw, nd):
        X, Y = st.get(a[1]), st.get(a[2])
        if not (isinstance(X, Arr) and isinstance(Y, Arr) and X.rank == Y.rank == 2):
            return I.unk("covariance")
        i, j = IV(), IV()

        def at(Z, q):
            k = IV()
            return SUM(k, D, mul(AT("hk", k), Z.at(q, k)))
        return st.new(Arr((i, j), (X.dims[0], Y.dims[0]), fn("kfun", at(X, i), at(Y, j))))
    run.I.hooks[run.check.repo.method(run.get(k).cls, "cov")] = cov
    ARRAYS["hk"] = {"sort": "pos"}


def variance(check, con, w, v, st, cv):
    """v[i] is the diagonal of cv with negative entries (rounding) replaced by zero"""
    rule = "variance is the posterior variance, never negative"
    check.arr_equal(rule, con, w, v, st, [N], lambda a: fn("maximum", ZERO, cv.at(a, a)))
    if check.obs[-1][3] == "unknown":
        o = st.get(v) if isinstance(v, Ref) else v
        if not isinstance(o, Arr) or o.rank != 1:
            return
        p = norm(o.at(IV()))
        if opaque_atoms(p):
            return
        t0 = time.monotonic()
        for seed in range(80):
            if time.monotonic() - t0 > 10:
                return
            val = Valuation(seed)
            val.rough, val.end = True, t0 + 10
            try:
                x = val.ev(p)
            except (NoValue, RecursionError, OverflowError, ZeroDivisionError):
                continue
            if x < -1e-3:
                check.obs.pop()
                check.ob(rule, con, w, "refuted", "negative (%.3g) when rounding takes the difference below zero" % x)
                return


# ---------------------------------------------------------------- C09
def c09(check):
    decl()
    for two in (False, True):
        check.guard("posterior of the regression model", "GP" + (" (data added twice)" if two else ""), where_of(check, "GP", "predict"), c09_gp, check, two)
    check.guard("posterior of the regression model", "GP, any covariance function", where_of(check, "GP", "predict"), c09_gp, check, False, True)
    check.guard("prior without data", "GP", where_of(check, "GP", "predict"), c09_gp_prior, check)
    check.guard("Laplace posterior", "PreferenceGP", where_of(check, "PreferenceGP", "predict"), c09_pgp, check)
    check.guard("linear prediction", "PreferenceLinear", where_of(check, "PreferenceLinear", "predict"), c09_linear, check)
    check.guard("blocks agree with one prediction", "PreferenceGP.predict_large", where_of(check, "PreferenceGP", "predict_large"), c09_large, check)
    check.guard("call is the mean", "Model.__call__", where_of(check, "Model", "__call__"), c09_call, check)


def pair(check, run, v, rule, con, w):
    t = run.get(v)
    if not isinstance(t, VTuple) or len(t.items) != 2:
        check.ob(rule, con, w, "refuted" if t is NONE or isinstance(t, VTuple) else "unknown", "not a pair: %r" % (t,))
        return None
    return t.items


def c09_gp(check, two, any_=False):
    run = Run(check)
    k = kern(run)
    if any_:
        any_kernel(run, k)
    tag = "GP" + (" (data added twice)" if two else "") + (", any covariance function" if any_ else "")
    w = where_of(check, "GP", "predict")
    g = run.new("GP", k, mean_func=spec(check, "probe_mean"))
    X = run.arr("X", N, D)
    sn = S("sn", True)
    if two:
        M1, M2 = S("M1", True, "dim"), S("M2", True, "dim")
        run.call(g, "add", run.arr("Ya", M1, D), run.arr("ya1", M1), sn)
        run.call(g, "add", run.arr("Yb", M2, D), run.arr("yb1", M2), S("sn2", True))
        MM = add(M1, M2)
        i, j = IV(), IV()
        cat = lambda c, a, b: ite(lt(c, M1), a(c), b(sub(c, M1)))
        Y = run.st.new(Arr((i, j), (MM, D), ite(lt(i, M1), AT("Ya", i, j), AT("Yb", sub(i, M1), j))))
        i1, i2 = IV(), IV()
        y = run.st.new(Arr((i1,), (MM,), cat(i1, lambda c: AT("ya1", c), lambda c: AT("yb1", c))))
        noise = run.st.new(Arr((i2,), (MM,), cat(i2, lambda c: sn, lambda c: S("sn2", True))))
    else:
        MM = M
        Y, y = run.arr("Y", M, D), run.arr("y", M)
        run.call(g, "add", Y, y, sn)
        i = IV()
        noise = run.st.new(Arr((i,), (M,), sn))
    t = pair(check, run, run.call(g, "predict", X), "posterior of the regression model", tag, w)
    if not check.no_errors(run.I, "prediction runs", tag) or t is None:
        return
    r = run.fork()
    mu = r.get(r.fn(spec(check, "gp_mean"), k, X, Y, y, noise))
    cv = r.get(r.fn(spec(check, "gp_cov"), k, X, Y, noise))
    check.arr_equal("mean is the posterior mean", tag, w, t[0], run.st, [N], lambda a: mu.at(a))
    cov = run.get(run.attr(g, "cov"))
    if two:
        variance(check, tag, w, t[1], run.st, cv)
        return
    check.arr_equal("stored covariance is the posterior covariance", tag, w, cov if cov is not None else NONE, run.st, [N, N], lambda a, b: cv.at(a, b))
    variance(check, tag, w, t[1], run.st, cv)


def c09_gp_prior(check):
    for reset in (False, True):
        run = Run(check)
        k = kern(run)
        tag = "GP, no data" + (" (after reset)" if reset else "")
        w = where_of(check, "GP", "predict")
        g = run.new("GP", k, mean_func=spec(check, "probe_mean"))
        X = run.arr("X", N, D)
        if reset:
            run.call(g, "add", run.arr("Y", M, D), run.arr("y", M), S("sn", True))
            run.call(g, "reset")
        prior(check, run, g, k, X, tag, w, True)


def prior(check, run, g, k, X, tag, w, mean):
    t = pair(check, run, run.call(g, "predict", X), "prior without data", tag, w)
    if not check.no_errors(run.I, "prediction runs", tag) or t is None:
        return
    r = run.fork()
    P = r.get(r.call(k, "cov", X, X))
    mu = r.get(r.fn(spec(check, "probe_mean"), X))
    check.arr_equal("prior mean without data", tag, w, t[0], run.st, [N], lambda a: mu.at(a) if mean else ZERO)
    check.arr_equal("prior variance without data", tag, w, t[1], run.st, [N], lambda a: fn("maximum", ZERO, P.at(a, a)))
    cov = run.attr(g, "cov")
    check.arr_equal("prior covariance without data", tag, w, cov if cov is not None else NONE, run.st, [N, N], lambda a, b: P.at(a, b))


def fitted(run, g, k, m=NL):
    """make g a fitted model: K, F and W as a fit leaves them"""
    Y = run.arr("Y", m, D)
    i, j = IV(), IV()
    K_ = run.call(k, "cov", Y, Y)
    F = run.st.new(Arr((i,), (m,), AT("F", i)))
    i, j = IV(), IV()
    W = run.st.new(Arr((i, j), (m, m), add(AT("Wm", i, j), AT("Wm", j, i))))
    run.set(g, optimized=TRUE, X_train=Y, K=K_, F=F, W=W)
    return Y, K_, F, W


def c09_pgp(check):
    w = where_of(check, "PreferenceGP", "predict")
    run = Run(check)
    k = kern(run)
    g = run.new("PreferenceGP", k)
    X = run.arr("X", N, D)
    r = run.fork()
    prior(check, r, g, k, X, "PreferenceGP, no data", w, False)
    Y, K_, F, W = fitted(run, g, k)
    for given in (False, True):
        tag = "PreferenceGP" + (" (given training points, latent values and curvature)" if given else "")
        r = run.fork()
        if given:
            # a fit to a subset: K belongs to it, the model's own F and W do not
            Y2 = r.arr("Y2", NL, D)
            i = IV()
            F2 = r.st.new(Arr((i,), (NL,), AT("F2", i)))
            i, j = IV(), IV()
            W2 = r.st.new(Arr((i, j), (NL, NL), add(AT("W2m", i, j), AT("W2m", j, i))))
            K2 = r.call(k, "cov", Y2, Y2)
            r.set(g, K=K2)
            v = r.call(g, "predict", X, Y2, F2, W2)
            sp = (K2, W2, Y2, F2)
        else:
            v = r.call(g, "predict", X)
            sp = (K_, W, Y, F)
        t = pair(check, r, v, "Laplace posterior", tag, w)
        if not check.no_errors(r.I, "prediction runs", tag) or t is None:
            continue
        q = r.fork()
        mu = q.get(q.fn(spec(check, "lap_mean"), k, sp[0], X, sp[2], sp[3]))
        cv = q.get(q.fn(spec(check, "lap_cov"), k, sp[0], sp[1], X, sp[2]))
        check.arr_equal("mean is the posterior mean", tag, w, t[0], r.st, [N], lambda a: mu.at(a))
        cov = r.attr(g, "cov")
        check.arr_equal("stored covariance is the posterior covariance", tag, w, cov if cov is not None else NONE, r.st, [N, N], lambda a, b: cv.at(a, b))
        variance(check, tag, w, t[1], r.st, cv)


def c09_linear(check):
    w = where_of(check, "PreferenceLinear", "predict")
    run = Run(check)
    g = run.new("PreferenceLinear")
    X = run.arr("X", N, D)
    r = run.fork()
    r.set(g, optimized=TRUE, X_train=r.arr("Y", M, D), w=r.arr("w", D))
    t = pair(check, r, r.call(g, "predict", X), "linear prediction", "PreferenceLinear", w)
    if check.no_errors(r.I, "prediction runs", "PreferenceLinear") and t is not None:
        check.arr_equal("prediction is the inner product with the weights", "PreferenceLinear", w, t[0], r.st, [N],
                        lambda a: (lambda iv: SUM(iv, D, mul(AT("X", a, iv), AT("w", iv))))(IV()))
    # without data: the weights it stores are the ones it used
    r = run.fork()
    t = pair(check, r, r.call(g, "predict", X), "linear prediction", "PreferenceLinear, no data", w)
    if check.no_errors(r.I, "prediction runs", "PreferenceLinear, no data") and t is not None:
        ww = r.get(r.attr(g, "w")) if r.attr(g, "w") is not None else None
        if isinstance(ww, Arr) and ww.rank == 1:
            check.arr_equal("prediction is the inner product with the weights", "PreferenceLinear, no data", w, t[0], r.st, [N],
                            lambda a: (lambda iv: SUM(iv, D, mul(AT("X", a, iv), ww.at(iv))))(IV()))


def c09_large(check):
    for cls in ("PreferenceGP", "Model"):
        f = check.repo.method(check.repo.cls(cls), "predict_large")
        if f is None:
            continue
        for nn in [0, 1, 14, 15, 16, 29, 30, 31, 46] if check.tier != "quick" else [0, 1, 14, 15, 16, 31]:
            run = Run(check)
            c = "PreferenceGP" if cls == "PreferenceGP" else "PreferenceLinear"
            if cls == "PreferenceGP":
                g = run.new(c, kern(run))
                run.set(g, optimized=TRUE, X_train=run.arr("Y", M, D))
            else:
                g = run.new(c)
                run.set(g, optimized=TRUE, X_train=run.arr("Y", M, D))

            def hook(I, st, args, kwargs, node):
                x = st.get(args[1])
                if not isinstance(x, Arr) or x.rank != 2:
                    return I.unk("predict")
                iv, k1, k2 = IV(), IV(), IV()
                row = lambda nm, i, kk: SUM(kk, D, mul(AT(nm, kk), x.at(i, kk)))
                i2 = IV()
                return VTuple([st.new(Arr((iv,), x.dims[:1], row("qa", iv, k1))), st.new(Arr((i2,), x.dims[:1], row("qb", i2, k2)))])
            run.I.hooks[c + ".predict"] = hook
            X = run.arr("X", C(nn), D)
            tag = "%s.predict_large of %d points" % (cls, nn)
            t = pair(check, run, run.call(g, "predict_large", X), "blocks agree with one prediction", tag, f.where())
            if not check.no_errors(run.I, "prediction runs", tag) or t is None:
                continue
            if nn == 0:
                for q, nm in enumerate(("mean", "variance")):
                    v = run.get(t[q])
                    check.ob("blocks agree with one prediction", tag + " " + nm, f.where(), "proved" if isinstance(v, Arr) and norm(v.dims[0]) is norm(ZERO) else "unknown", "")
                continue
            for q, nm in ((0, "qa"), (1, "qb")):
                v = run.get(t[q])
                if isinstance(v, Arr) and v.rank == 1 and pc_const(norm(v.dims[0])) == nn:
                    for i in sorted({0, nn - 1, nn // 2, min(14, nn - 1), min(15, nn - 1)}) if check.tier == "quick" else range(nn):
                        kk = IV()
                        check.equal("blocks agree with one prediction", "%s %s [%d]" % (tag, ("mean", "variance")[q], i), f.where(),
                                    v.at(C(i)), SUM(kk, D, mul(AT(nm, kk), AT("X", C(i), kk))))
                else:
                    check.ob("blocks agree with one prediction", "%s %s" % (tag, ("mean", "variance")[q]), f.where(),
                             "refuted" if v is NONE else "unknown", repr(v))


def c09_call(check):
    run = Run(check)
    g = run.new("PreferenceGP", kern(run))
    X = run.arr("X", N, D)

    def hook(I, st, args, kwargs, node):
        i, j = IV(), IV()
        return VTuple([st.new(Arr((i,), (N,), AT("pm", i))), st.new(Arr((j,), (N,), AT("pv", j)))])
    for c in ("PreferenceGP", "PreferenceModel", "Model"):
        run.I.hooks[c + ".predict"] = hook
    w = where_of(check, "Model", "__call__")
    v = run.I.call(g, [X], {}, run.st, None)
    check.arr_equal("calling a model gives the predictive mean", "Model.__call__", w, v, run.st, [N], lambda a: AT("pm", a))


# ---------------------------------------------------------------- C10
def bound(I, f, args, kwargs, st, node):
    """arguments by parameter name (defaults included)"""
    return I.bind(f, f.node, args, kwargs, st, node)


def c10(check):
    decl()
    ARRAYS["w"] = {"sort": "real"}
    check.guard("stated log-posterior", "PreferenceGP.likli_f", where_of(check, "PreferenceGP", "likli_f"), c10_likli, check)
    for data in itertools.product((True, False), repeat=3):
        if any(data):
            tag = "[%s]" % "+".join(a for a, d in zip(("pref", "ord", "abs"), data) if d)
            if data in ((True, True, True), (True, False, True), (True, False, False), (False, False, True)):
                check.guard("gradient and Hessian of the fit", "PreferenceGP.find_mode " + tag, where_of(check, "PreferenceGP", "find_mode"), c10_gp, check, data, tag)
            if not data[1] and data[0]:
                check.guard("gradient and Hessian of the fit", "PreferenceLinear.optimize " + tag, where_of(check, "PreferenceLinear", "optimize"), c10_lin, check, data, tag)
    for cls, meth in (("PreferenceGP", "find_mode"), ("PreferenceLinear", "optimize")):
        check.guard("each iterate is the result of the update before it", "%s.%s" % (cls, meth), where_of(check, cls, meth), c10_iterates, check, cls)
    check.guard("loss is the stated objective", "PreferenceModel.loss_func", where_of(check, "PreferenceModel", "loss_func"), c10_loss, check)
    check.guard("Newton step", "PreferenceModel.newton_update", where_of(check, "PreferenceModel", "newton_update"), c10_newton, check)
    check.guard("line search", "PreferenceModel.binary_line_search", where_of(check, "PreferenceModel", "binary_line_search"), c10_search, check)


def c10_likli(check):
    """likli_f = log p(y|F) + log N(F; 0, K), however K and its factor are given"""
    w = where_of(check, "PreferenceGP", "likli_f")
    run = Run(check)
    k = kern(run)
    g = run.new("PreferenceGP", k)
    X = run.arr("Y", NL, D)
    F = Fvec(run)
    y = run.st.new(VList.of([NONE, NONE, NONE]))
    run.set(g, X_train=run.arr("Yother", NL, D))
    ll = S("ll")
    for c in ("PreferenceGP", "PreferenceModel"):
        run.I.hooks[c + ".log_likelyhood_training"] = lambda I, st, a, kw, nd: ll
    r0 = run.fork()
    K_ = r0.call(k, "cov", X, X)
    L = r0.I.call(Ext("numpy.linalg.cholesky"), [K_], {}, r0.st, None)
    want = [norm(scalar_of(r0.fn(spec(check, nm), F, K_, ll), r0.st)) for nm in ("log_post_chol", "log_post")]
    for tag, args in (("", []), (" (K given)", [K_]), (" (K and its factor given)", [K_, L])):
        r = r0.fork()
        v = scalar_of(r.call(g, "likli_f", F, X, y, *args), r.st)
        if check.no_errors(r.I, "objective runs", "PreferenceGP.likli_f" + tag):
            check.equal("objective is log-likelihood plus log-prior of the latent values", "PreferenceGP.likli_f" + tag, w, v, want)


RANDOM = ("numpy.random.random", "numpy.random.rand", "numpy.random.randn", "numpy.random.random_sample", "numpy.random.normal", "numpy.random.uniform")


def ord_probe(run):
    """the ordinal likelihood as an arbitrary separable likelihood sum_i c_i F_i^3 (its own derivatives are decided under C05)"""
    def ll(I, st, a, kw, nd):
        o = st.get(a[2] if len(a) > 2 else kw.get("F"))
        if not isinstance(o, Arr):
            return I.unk("ordinal")
        i = IV()
        return SUM(i, o.dims[0], mul(AT("oc", i), pw(o.at(i), C(3))))

    def dv(I, st, a, kw, nd):
        o = st.get(a[2] if len(a) > 2 else kw.get("F"))
        if not isinstance(o, Arr):
            return I.unk("ordinal")
        i, j, k = IV(), IV(), IV()
        W = st.new(Arr((j, k), (o.dims[0], o.dims[0]), ite(eq(j, k), mul(C(-6), AT("oc", j), o.at(j)), ZERO)))
        g = st.new(Arr((i,), o.dims, mul(C(3), AT("oc", i), pw(o.at(i), C(2)))))
        return VTuple([W, g, ll(I, st, a, kw, nd)])
    repo = run.check.repo
    c = repo.cls("OrdinalProbit")
    for nm, h in (("log_likelihood", ll), ("derivatives", dv)):
        m = repo.method(c, nm)
        if m is not None and m.cls is c:
            run.I.hooks[m] = h
        elif m is not None:
            run.I.hooks[m] = lambda I, st, a, kw, nd, m=m, h=h: h(I, st, a, kw, nd) if getattr(st.get(a[0]), "cls", None) is c else \
                I.run(m, m.node.body, I.bind(m, m.node, a, kw, st, nd), st, nd)


def c10_gp(check, data, tag):
    w = where_of(check, "PreferenceGP", "find_mode")
    run = Run(check)
    g, F, ys = gp_model(run, data=data)
    set_probits(run, g)
    con = "PreferenceGP.find_mode " + tag
    X = run.arr("Y", NL, D)
    y = run.st.new(VList.of(list(ys)))
    seen = []
    nu = check.repo.method(check.repo.cls("PreferenceGP"), "newton_update")

    def start(I, st, a, kw, nd):
        return F

    def step(I, st, a, kw, nd):
        seen.append((bound(I, nu, a, kw, st, nd), st.fork(), list(I.stack)))
        return seen[-1][0][nu.node.args.args[1].arg]          # the iterate stays where it is
    run.I.hooks[nu] = step
    ord_probe(run)
    for x in RANDOM:
        run.I.exthooks[x] = start
    r = run.fork()
    r.call(g, "find_mode", X, y)
    if not check.no_errors(r.I, "fit runs", con):
        return
    if not seen:
        check.ob("gradient and Hessian of the fit", con, w, "unknown", "no Newton step found")
        return
    step_check(check, con, w, r, seen, g, F, "F", NL)
    # the state kept by the fit belongs to the latent values it kept, also when the last step moved them
    r = run.fork()
    Fn = r.arr("F", NL)
    r.I.hooks[nu] = lambda I, st, a, kw, nd: Fn
    for x in RANDOM:
        r.I.exthooks[x] = lambda I, st, a, kw, nd: st.new(sym_arr("Fstart", [NL]))
    r.set(g, maxloops=ZERO)
    r.call(g, "find_mode", X, y)
    q = r.fork()
    y2 = q.st.new(VList.of(list(ys)))
    d = q.get(q.call(g, "derivatives", y2, r.attr(g, "F")))
    Wk, Wd = r.get(r.attr(g, "W")), (q.get(d.items[0]) if isinstance(d, VTuple) else None)
    if isinstance(Wk, Arr) and isinstance(Wd, Arr):
        check.arr_equal("kept curvature belongs to the kept latent values", con, w, Wk, r.st, [NL, NL], lambda a, b: Wd.at(a, b))
    Kk = r.get(r.attr(g, "K"))
    Kd = q.get(q.call(r.attr(g, "cov_func"), "cov", X, X))
    if isinstance(Kk, Arr) and isinstance(Kd, Arr):
        check.arr_equal("kept covariance is that of the fitted points", con, w, Kk, r.st, [NL, NL], lambda a, b: Kd.at(a, b))


def step_check(check, con, w, r, seen, g, F, nm, dim):
    env, st, stack = seen[0]
    grad, hess, f, args = (env.get(x) for x in ("gradient", "hess", "loss_func", "loss_args"))
    if grad is None or hess is None or f is None:
        check.ob("gradient and Hessian of the fit", con, w, "unknown", "parameters of the Newton step not found")
        return
    a0 = st.get(env[list(env)[1]]) if len(env) > 1 else None
    q = r.fork()
    q.st = st
    args = st.get(args)
    extra = list(args.items) if isinstance(args, VTuple) else []
    q.I.hooks.clear()
    q.I.exthooks.clear()
    ord_probe(q)
    val = scalar_of(q.I.call(f, [F] + extra, {}, st, None), st)
    check.no_errors(q.I, "objective runs", con)
    if not isinstance(val, T) or val is NONE:
        check.ob("gradient and Hessian of the fit", con, w, "refuted" if val is NONE else "unknown", "objective: %r" % (val,))
        return
    p = norm(val)
    m, c = IV(), IV()
    d1 = pdiff(p, ("at", nm, (norm(m),)))
    d2 = pdiff(d1, ("at", nm, (norm(c),)))
    check.arr_equal("gradient is the derivative of the line-search objective", con, w, grad, st, [dim], lambda a: subst_iv(d1, {m: a}))
    check.arr_equal("Hessian is the second derivative of the line-search objective", con, w, hess, st, [dim, dim], lambda a, b: subst_iv(d2, {m: a, c: b}))
    return val


def c10_iterates(check, cls):
    """each iterate is what the update before it returned, the fit keeps the last one"""
    meth = "find_mode" if cls == "PreferenceGP" else "optimize"
    repo = check.repo
    w = where_of(check, cls, meth)
    con = "%s.%s" % (cls, meth)
    c = repo.cls(cls)
    nu = repo.method(c, "newton_update")
    for most in (None, 2):
        run = Run(check)
        dim = NL if cls == "PreferenceGP" else D
        X = run.arr("Y", NL, D)
        if cls == "PreferenceGP":
            g, F, ys = gp_model(run, data=(True, False, False))
            set_probits(run, g)
            y = run.st.new(VList.of(list(ys)))
        else:
            g = run.new(cls)
            set_probits(run, g)
            ks = kinds(True)
            y = run.st.new(VList.of([k.labels(run) if n == 0 else NONE for n, k in enumerate(order_kinds(run, g, ks))]))
            run.set(g, X_train=X, y_train=y)
        if most is not None:
            run.set(g, maxloops=C(most))
        seen = []

        def step(I, st, a, kw, nd):
            seen.append((bound(I, nu, a, kw, st, nd)[nu.node.args.args[1].arg], st.fork()))
            return st.new(sym_arr("new%d" % len(seen), [dim]))
        run.I.hooks[nu] = step
        for x in RANDOM:
            run.I.exthooks[x] = lambda I, st, a, kw, nd: st.new(sym_arr("start", [dim]))
        run.I.exthooks["numpy.linalg.norm"] = lambda I, st, a, kw, nd: ZERO if len(seen) >= 6 else C(5)
        dv = repo.method(c, "derivatives")
        if dv is not None:
            run.I.hooks[dv] = lambda I, st, a, kw, nd: VTuple([st.new(sym_arr("Wd", [dim, dim])), st.new(sym_arr("gd", [dim])), S("ld")])
        r = run.fork()
        r.call(g, meth, *((X, y) if cls == "PreferenceGP" else ()))
        if not check.no_errors(r.I, "iterates run", con):
            return
        if len(seen) < 2 or len(seen) > 6 or (most is None and len(seen) != 6):
            check.ob("each iterate is the result of the update before it", con, w, "unknown", "%d updates seen" % len(seen))
            continue
        tag = con + ("" if most is None else ", loop bound reached")
        for k in range(1, len(seen)):
            a, st = seen[k]
            check.arr_equal("each iterate is the result of the update before it", tag, w, r.get(a), st, [dim], lambda q, k=k: AT("new%d" % k, q))
        last = r.attr(g, "F" if cls == "PreferenceGP" else "w")
        check.arr_equal("the fit keeps the last iterate", tag, w, r.get(last), r.st, [dim], lambda q: AT("new%d" % len(seen), q))


def c10_lin(check, data, tag):
    w = where_of(check, "PreferenceLinear", "optimize")
    run = Run(check)
    g = run.new("PreferenceLinear")
    set_probits(run, g)
    con = "PreferenceLinear.optimize " + tag
    ks = kinds(True)
    ys = [k.labels(run) if dd else NONE for k, dd in zip(order_kinds(run, g, ks), data)]
    y = run.st.new(VList.of(list(ys)))
    i = IV()
    run.set(g, X_train=run.arr("Y", NL, D), y_train=y)
    wv = run.st.new(Arr((i,), (D,), AT("w", i)))
    seen = []
    nu = check.repo.method(check.repo.cls("PreferenceLinear"), "newton_update")

    def step(I, st, a, kw, nd):
        seen.append((bound(I, nu, a, kw, st, nd), st.fork(), list(I.stack)))
        return seen[-1][0][nu.node.args.args[1].arg]
    run.I.hooks[nu] = step
    for x in RANDOM:
        run.I.exthooks[x] = lambda I, st, a, kw, nd: wv
    # (the starting weights may be scaled: the iterate is replaced by w itself)
    run.I.exthooks["numpy.linalg.norm"] = lambda I, st, a, kw, nd: ONE if len(I.loopstack) == 0 else S("werr", True)
    r = run.fork()
    r.call(g, "optimize")
    if not check.no_errors(r.I, "fit runs", con):
        return
    if not seen:
        check.ob("gradient and Hessian of the fit", con, w, "unknown", "no Newton step found")
        return
    val = step_check(check, con, w, r, seen, g, wv, "w", D)
    if val is not None:
        # the objective is the log-likelihood of the labels at X w
        q = r.fork()
        a, b = IV(), IV()
        Fw = q.st.new(Arr((a,), (NL,), SUM(b, D, mul(AT("Y", a, b), AT("w", b)))))
        y2 = q.st.new(VList.of(list(ys)))
        q.I.hooks.clear()
        ll = scalar_of(q.call(g, "log_likelyhood_training", Fw, y2), q.st)
        if isinstance(ll, T) and ll is not NONE:
            check.equal("objective is the log-likelihood of the linear utility", con, w, val, ll)


def c10_loss(check):
    """the default objective is the stated log-posterior on the model's own data"""
    w = where_of(check, "PreferenceModel", "loss_func")
    run = Run(check)
    g = run.new("PreferenceGP", kern(run))
    X, F = run.arr("Y", NL, D), Fvec(run)
    y = run.st.new(VList.of([NONE, NONE, NONE]))
    run.set(g, X_train=X, y_train=y)
    got = []
    f = check.repo.method(check.repo.cls("PreferenceGP"), "likli_f")

    def hook(I, st, a, kw, nd):
        got.append(bound(I, f, a, kw, st, nd))
        return S("post")
    run.I.hooks[f] = hook
    v = scalar_of(run.call(g, "loss_func", F), run.st)
    check.equal("loss is the stated objective", "PreferenceModel.loss_func", w, v, S("post"))
    if got:
        e = list(got[0].values())
        check.ob("loss is the stated objective", "PreferenceModel.loss_func arguments", w,
                 "proved" if e[1] is F and e[2] is X and (e[3] is y) else "unknown", "")


def c10_newton(check):
    w = where_of(check, "PreferenceModel", "newton_update")
    repo = check.repo
    f = repo.method(repo.cls("PreferenceGP"), "newton_update")
    up = lambda lam: (lambda a: None)
    for fail in (False, True):
        for lt_ in ("static", "binary", "iter", None):
            run = Run(check, force_exc=("newton_update",) if fail else ())
            g = run.new("PreferenceGP", kern(run))
            run.set(g, lambda_gp=S("lam0", True))
            F, gr = run.arr("F", NL), run.arr("gr", NL)
            i, j = IV(), IV()
            # a negative definite Hessian (the objective is concave near its maximum); symmetric
            H = run.st.new(Arr((i, j), (NL, NL), add(AT("Hm", i, j), AT("Hm", j, i))))
            la = VTuple([S("extra1"), S("extra2")])
            fobj = S("lossfn")
            calls = []
            for nm in ("binary_line_search", "iterative_line_search"):
                m = repo.method(repo.cls("PreferenceGP"), nm)
                if m is None:
                    continue

                def hook(I, st, a, kw, nd, m=m, nm=nm):
                    calls.append((nm, bound(I, m, a, kw, st, nd), st.fork()))
                    return S("lam0", True)
                run.I.hooks[m] = hook
            kw = {} if lt_ is None else {"lambda_type": K(lt_)}
            v = run.get(run.call(g, "newton_update", F, gr, H, fobj, la, **kw))
            tag = "PreferenceModel.newton_update, %s%s" % (lt_ or "default", ", inversion fails" if fail else "")
            if not check.no_errors(run.I, "Newton step runs", tag):
                continue
            if not fail:
                inv = run.get(run.I.call(Ext("numpy.linalg.inv"), [H], {}, run.st, None))
                kk = IV()
                want = lambda a: sub(AT("F", a), mul(S("lam0", True), SUM(kk, NL, mul(inv.at(kk, a), AT("gr", kk)))))
                check.arr_equal("step is the Newton step for a maximum", tag, w, v, run.st, [NL], want)
                d_want = lambda a: SUM(kk, NL, mul(inv.at(kk, a), AT("gr", kk)))
            else:
                step = lambda a: mul(S("lam0", True), AT("gr", a))
                want = lambda a: add(AT("F", a), step(a))
                check.arr_equal("step follows the gradient when the Hessian cannot be inverted", tag, w, v, run.st, [NL],
                                lambda a: [norm(want(a)), norm(sub(AT("F", a), step(a)))])
                check.arr_equal("step follows the gradient upwards when the Hessian cannot be inverted", "PreferenceModel.newton_update",
                                w, v, run.st, [NL], want)
                # the search looks along the very step that is taken
                d_want = None
                if isinstance(v, Arr) and v.rank == 1:
                    d_want = lambda a: div(sub(AT("F", a), v.at(a)), S("lam0", True))
            for nm, env, st in calls:
                vals = list(env.values())
                if d_want is not None:
                    check.arr_equal("line search along the step taken", tag + " " + nm, w, env.get("descent", vals[2]), st, [NL], d_want)
                ok = vals[1] is F and env.get("loss_func", vals[3]) is fobj and env.get("loss_args", vals[4]) is la
                check.ob("line search on the objective given", tag + " " + nm, w, "proved" if ok else "unknown", "")


PROBE_LOSS = '''
def probe_up(v, s):
    return s * v[0]
def probe_down(v, s):
    return -s * v[0]
def probe_peak(v, c):
    return -(v[0] - c) ** 2
'''


def c10_search(check):
    repo = check.repo
    m = repo.add_source("lopcheck_loss", PROBE_LOSS)
    # the loss is read at F - lambda * descent; with F = 0 and descent = -1 it is read at lambda
    for nm in ("binary_line_search", "iterative_line_search"):
        f = repo.method(repo.cls("PreferenceGP"), nm)
        if f is None:
            continue
        for probe in ("probe_up", "probe_down"):
            for its in (1, 2, 3, 5):
                run = Run(check)
                g = run.new("PreferenceGP", kern(run))
                F, d = run.vec(ZERO), run.vec(C(-1))
                tag = "PreferenceModel.%s, objective %s, %d iterations" % (nm, "rising" if probe == "probe_up" else "falling", its)
                if nm == "binary_line_search":
                    a, ww = S("lo", True), S("width", True)
                    v = scalar_of(run.call(g, nm, F, d, m.sym[probe], VTuple([S("sc", True)]), min_lambda=a, max_lambda=add(a, ww), max_itr=C(its)), run.st)
                    if not check.no_errors(run.I, "line search runs", tag):
                        continue
                    if not isinstance(v, T) or v is NONE:
                        check.ob("line search keeps the larger side", tag, f.where(), "refuted" if v is NONE or run.I.excs else "unknown", repr(v))
                        continue
                    # the middle of the half (quarter, ...) at the side where the objective is larger
                    fr = Fraction(1, 2 ** (its + 1))
                    fr = 1 - fr if probe == "probe_up" else fr
                    check.equal("line search keeps the larger side", tag, f.where(), v, add(a, mul(C(fr), ww)))
                else:
                    n_ = its + 1
                    v = scalar_of(run.call(g, nm, F, d, m.sym[probe], VTuple([C(2)]), min_lambda=C(1), max_lambda=C(1 + n_), max_itr=C(n_)), run.st)
                    if not check.no_errors(run.I, "line search runs", tag):
                        continue
                    if not isinstance(v, T) or v is NONE:
                        check.ob("line search keeps the largest value", tag, f.where(), "refuted" if v is NONE or run.I.excs else "unknown", repr(v))
                        continue
                    check.equal("line search keeps the largest value", tag, f.where(), v, C(n_) if probe == "probe_up" else ONE)
    nm = "iterative_line_search"
    f = repo.method(repo.cls("PreferenceGP"), nm)
    if f is not None:
        for peak in (1, 2, 3, 4, 5):
            run = Run(check)
            g = run.new("PreferenceGP", kern(run))
            v = scalar_of(run.call(g, nm, run.vec(ZERO), run.vec(C(-1)), m.sym["probe_peak"], VTuple([C(Fraction(10 * peak + 1, 10))]),
                                   min_lambda=C(1), max_lambda=C(6), max_itr=C(5)), run.st)
            tag = "PreferenceModel.%s, objective with a peak near grid point %d" % (nm, peak)
            if check.no_errors(run.I, "line search runs", tag):
                if isinstance(v, T):
                    check.equal("line search keeps the largest value", tag, f.where(), v, C(peak))
                else:
                    check.ob("line search keeps the largest value", tag, f.where(), "refuted" if run.I.excs else "unknown", repr(v))


# ---------------------------------------------------------------- C24
def c24(check):
    decl()
    check.guard("evidence is the Laplace evidence", "PreferenceGP.likli_f_hyper", where_of(check, "PreferenceGP", "likli_f_hyper"), c24_evid, check)
    for data in itertools.product((True, False), repeat=2):
        for only in (True, False):
            if not any(data) and only:
                continue
            tag = "[%s]%s" % ("+".join(a for a, d in zip(("pref", "abs"), data) if d) or "no optimised likelihood", " (likelihood parameters only)" if only else "")
            check.guard("evidence gradient", "PreferenceGP.grad_likli_f_hyper " + tag, where_of(check, "PreferenceGP", "grad_likli_f_hyper"), c24_grad, check, data, only, tag)
    for only in (True, False):
        check.guard("search climbs evidence plus prior", "PreferenceGP.hyperparameter_search" + (" (likelihood parameters only)" if only else ""),
                    where_of(check, "PreferenceGP", "hyperparameter_search"), c24_search, check, only)


def sym_sys(run, k, X):
    """F, covariance, curvature (symmetric), gradient and log-likelihood as arbitrary symbols"""
    F = Fvec(run)
    i, j = IV(), IV()
    W = run.st.new(Arr((i, j), (NL, NL), add(AT("Wm", i, j), AT("Wm", j, i))))
    K_ = run.call(k, "cov", X, X)
    return F, K_, W, run.arr("gll", NL), S("ll")


def abstract_kernel(run, k, npar=2):
    """covariance and covariance gradient of the kernel as arbitrary symmetric matrices"""
    c = run.get(k).cls

    def cov(I, st, a, kw, nd):
        i, j = IV(), IV()
        return st.new(Arr((i, j), (NL, NL), add(AT("Km", i, j), AT("Km", j, i), ite(eq(i, j), C(12), ZERO))))

    def grad(I, st, a, kw, nd):
        p, i, j = IV(), IV(), IV()
        return st.new(Arr((p, i, j), (C(npar), NL, NL), add(AT("dKm", p, i, j), AT("dKm", p, j, i))))
    for nm, h in (("cov", cov), ("cov_gradient", grad)):
        m = run.check.repo.method(c, nm)
        if m is not None:
            run.I.hooks[m] = h


def c24_evid(check):
    w = where_of(check, "PreferenceGP", "likli_f_hyper")
    run = Run(check)
    k = kern(run)
    abstract_kernel(run, k)
    g = run.new("PreferenceGP", k)
    X = run.arr("Y", NL, D)
    F, K_, W, gl, ll = sym_sys(run, k, X)
    y = run.st.new(VList.of([NONE, NONE, NONE]))
    f = check.repo.method(check.repo.cls("PreferenceGP"), "derivatives")
    run.I.hooks[f] = lambda I, st, a, kw, nd: VTuple([W, gl, ll])
    f = check.repo.method(check.repo.cls("PreferenceGP"), "log_likelyhood_training")
    run.I.hooks[f] = lambda I, st, a, kw, nd: ll
    v = scalar_of(run.call(g, "likli_f_hyper", F, X, y), run.st)
    if check.no_errors(run.I, "evidence runs", "PreferenceGP.likli_f_hyper"):
        r = run.fork()
        want = r.fn(spec(check, "evidence"), F, K_, W, ll)
        check.equal("evidence is the Laplace evidence", "PreferenceGP.likli_f_hyper", w, v, want)


def T3(nm):
    """symmetric third-order array"""
    a, b, c = IV(), IV(), IV()
    t = ZERO
    for p in itertools.permutations((a, b, c)):
        t = add(t, AT(nm, *p))
    return Arr((a, b, c), (NL, NL, NL), t)


def grad_setup(check, data, only):
    """a preference model whose likelihoods and kernel are symbolic, for the evidence gradient"""
    repo = check.repo
    run = Run(check)
    k = kern(run)
    npar = plen(run, k)
    abstract_kernel(run, k, npar)
    g = run.new("PreferenceGP", k)
    run.set(g, hyperparam_only_probit=TRUE if only else FALSE)
    X = run.arr("Y", NL, D)
    F, K_, W, gl, ll = sym_sys(run, k, X)
    kk = kinds(True)
    by = {"PreferenceProbit": data[0], "AbsBoundProbit": data[1], "OrdinalProbit": False}
    plist = probit_list(run, g)
    labels = [K("labels%d" % q) if by.get(run.get(p).cls.name) else NONE for q, p in enumerate(plist)]
    y = run.st.new(VList.of(labels))
    run.set(g, y_train=y)
    order = []
    run.I.hooks[repo.method(repo.cls("PreferenceGP"), "derivatives")] = lambda I, st, a, kw, nd: VTuple([W, gl, ll])
    nh = {"PreferenceProbit": 1, "AbsBoundProbit": 2}
    for p, lab in zip(plist, labels):
        c = run.get(p).cls
        if lab is NONE:
            continue
        q = "p%s" % c.name[:4]
        cnt = nh.get(c.name, 1)
        order.append((c.name, q, cnt))
        for nm in ("calc_W_dF", "grad_hyper", "calc_W_dHyper"):
            m = repo.method(c, nm)
            if m is None:
                continue
            if nm == "calc_W_dF":
                h = lambda I, st, a, kw, nd, q=q: st.new(T3(q + "T"))
            elif nm == "grad_hyper":
                def h(I, st, a, kw, nd, q=q, cnt=cnt):
                    i = IV()
                    return st.new(Arr((i,), (C(cnt),), AT(q + "g", i)))
            else:
                def h(I, st, a, kw, nd, q=q, cnt=cnt):
                    a1, b1, c1 = IV(), IV(), IV()
                    return st.new(Arr((a1, b1, c1), (C(cnt), NL, NL), add(AT(q + "W", a1, b1, c1), AT(q + "W", a1, c1, b1))))
            run.I.hooks[m] = h
    return run, g, k, npar, X, F, K_, W, gl, y, order


def c24_grad(check, data, only, tag):
    w = where_of(check, "PreferenceGP", "grad_likli_f_hyper")
    con = "PreferenceGP.grad_likli_f_hyper " + tag
    run, g, k, npar, X, F, K_, W, gl, y, order = grad_setup(check, data, only)
    r = run.fork()
    v = r.call(g, "grad_likli_f_hyper", F, X, y)
    if not data[0] and not data[1]:
        # no likelihood gives third derivatives: only reached with optimised kinds
        return
    if not check.no_errors(r.I, "evidence gradient runs", con):
        return
    q = run.fork()
    dK = q.get(q.call(k, "cov_gradient", X, X))
    entries = []
    for name, s_, cnt in order:
        for j in range(cnt):
            a1, b1 = IV(), IV()
            dWt = q.st.new(Arr((a1, b1), (NL, NL), add(AT(s_ + "W", C(j), a1, b1), AT(s_ + "W", C(j), b1, a1))))
            entries.append(scalar_of(q.fn(spec(check, "evid_probit"), K_, W, AT(s_ + "g", C(j)), dWt), q.st))
    if not only:
        T = None
        for name, s_, cnt in order:
            t = T3(s_ + "T")
            if T is None:
                T = t
            else:
                a, b, c = IV(), IV(), IV()
                T = Arr((a, b, c), (NL, NL, NL), add(T.at(a, b, c), t.at(a, b, c)))
        T = q.st.new(T)
        for j in range(npar):
            a1, b1 = IV(), IV()
            if isinstance(dK, Arr):
                d = q.st.new(Arr((a1, b1), (NL, NL), dK.at(C(j), a1, b1)))
            else:
                it = dK.items if isinstance(dK, VTuple) else dK.items()
                d = it[j]
            entries.append(scalar_of(q.fn(spec(check, "evid_kern"), F, K_, W, gl, d, T), q.st))
    comps_check(check, "evidence gradient", con, w, v, r.st, len(entries), lambda j: ((), lambda: entries[j]))


def against(p, q):
    """values at which p does not have the sign of q, if some are found"""
    if opaque_atoms(p):
        return None
    for seed in range(24):
        v = Valuation(seed, {})
        try:
            a, b = v.ev(p), v.ev(q)
        except Exception:
            return None
        if abs(b) > 0.05 and (a == 0 or a * b < 0):
            return "%.4g" % a, "%.4g" % b
    return None


def c24_search(check, only):
    """the new hyper-parameters are the old ones moved along + (gradient of evidence + gradient of prior)"""
    repo = check.repo
    w = where_of(check, "PreferenceGP", "hyperparameter_search")
    con = "PreferenceGP.hyperparameter_search" + (" (likelihood parameters only)" if only else "")
    run = Run(check)
    c = repo.cls("PreferenceGP")
    g = run.new("PreferenceGP", kern(run))
    cnt = 3
    hv = lambda nm: (lambda I, st, a, kw, nd: (lambda i: st.new(Arr((i,), (C(cnt),), AT(nm, i))))(IV()))
    sets, gargs = [], []

    def sh(I, st, a, kw, nd):
        sets.append((st.get(a[1]) if len(a) > 1 else None, st.fork()))
        return NONE
    hooks = {"get_hyper": hv("h0"), "set_hyper": sh, "grad_hyper_liklihood": hv("gp"),
             "hyper_liklihood": lambda I, st, a, kw, nd: S("hl", True), "find_mode": lambda I, st, a, kw, nd: NONE,
             "derivatives": lambda I, st, a, kw, nd: VTuple([S("dW"), S("dg"), S("ll")]),
             "predict": lambda I, st, a, kw, nd: VTuple([S("Fp"), S("sp")]),
             "likli_f_hyper": lambda I, st, a, kw, nd: S("ev")}

    def gh(I, st, a, kw, nd):
        gargs.append(a)
        return hv("ge")(I, st, a, kw, nd)
    hooks["grad_likli_f_hyper"] = gh
    for nm, h in hooks.items():
        m = repo.method(c, nm)
        if m is not None:
            run.I.hooks[m] = h
    run.set(g, F=S("Fm"), W=S("Wm"), hyperparam_only_probit=TRUE if only else FALSE)
    pg = run.st.new(VList.of([]))
    run.call(g, "hyperparameter_search", S("Xt"), S("yt"), S("Xv"), S("yv"), pg)
    check.no_errors(run.I, "search runs", con)
    if not sets:
        check.ob("search climbs evidence plus prior", con, w, "unknown", "set_hyper is not called")
        return
    o, st = sets[-1]
    if not isinstance(o, Arr) or o.rank != 1:
        check.ob("search climbs evidence plus prior", con, w, "unknown", repr(o))
        return
    # the step has the sign of the gradient (evidence plus prior) in every entry
    ok = None
    p = norm(sub(o.at(C(1)), AT("h0", C(1))))
    a, b = norm(AT("ge", C(1))), norm(AT("gp", C(1)))
    ca = {t: q for t, q in p.terms}
    ka, kb = a.terms[0][0], b.terms[0][0]
    if set(ca) == {ka, kb}:
        ok = ca[ka] == ca[kb] and ca[ka] > 0
    elif not any(len(t) != 1 for t in ca) and set(ca) <= {ka, kb}:
        ok = False
    why = "step is %s" % pshow(p)[:300]
    if ok is None:
        bad = against(p, norm(add(AT("ge", C(1)), AT("gp", C(1)))))
        if bad:
            ok, why = False, "step %s where the gradient is %s" % bad
    check.ok("search climbs evidence plus prior", con, w, ok, why)
    # objective to be minimised: minus evidence minus log-prior
    r = run.fork()
    r.I.hooks.update(run.I.hooks)
    ob = repo.method(c, "hyperparameter_obj")
    if ob is not None:
        v = scalar_of(r.call(g, "hyperparameter_obj", S("x0"), S("Xt"), S("yt"), S("Xv"), S("yv")), r.st)
        if check.no_errors(r.I, "search runs", "PreferenceGP.hyperparameter_obj"):
            check.equal("objective is minus evidence minus log-prior", "PreferenceGP.hyperparameter_obj", ob.where(), v, neg(add(S("ev"), S("hl", True))))


# ---------------------------------------------------------------- C03
def c03(check):
    decl()
    for name, b, kind in combos(check):
        if kind == "probe" or "_Probe" in name:
            continue
        check.guard("kernel layout", name, None, c03_kernel, check, name, b)
    for tag, build_, cls in (("PreferenceProbit", lambda r: mk_pref(r), "PreferenceProbit"),
                             ("PreferenceProbit (parameters fixed)", lambda r: mk_pref(r, False), "PreferenceProbit"),
                             ("AbsBoundProbit", lambda r: mk_abs(False)(r), "AbsBoundProbit"),
                             ("AbsBoundProbit (v only)", lambda r: mk_abs(True)(r), "AbsBoundProbit"),
                             ("AbsBoundProbit (parameters fixed)", lambda r: mk_abs(True, False)(r), "AbsBoundProbit"),
                             ("OrdinalProbit", lambda r: r.new("OrdinalProbit", S("sg", True), S("bb", True)), "OrdinalProbit")):
        check.guard("likelihood layout", tag, None, c03_probit, check, tag, build_, cls)
    for data in itertools.product((True, False), repeat=3):
        if not any(data):
            continue
        for only in (True, False):
            for opt in ((True, True), (True, False), (False, True), (False, False)):
                tag = "PreferenceGP [%s]%s%s" % ("+".join(a for a, d in zip(("pref", "ord", "abs"), data) if d),
                                                 ", likelihood parameters only" if only else "",
                                                 "" if opt == (True, True) else ", fixed: " + " ".join(a for a, d in zip(("pref", "abs"), opt) if not d))
                check.guard("model layout", tag, None, c03_model, check, data, only, opt, tag)
    for cls in ("PreferenceGP", "PreferenceLinear"):
        for k in (3, 4, 5, 8):
            check.guard("number of categories", "%s.set_num_ordinals(%d)" % (cls, k), where_of(check, cls, "set_num_ordinals"), c03_categories, check, cls, k)
    for only in (True, False):
        check.guard("model layout", "PreferenceGP with tuned break points", None, c03_tuned_ord, check, only)
    for data in ((True, True), (True, False), (False, True)):
        check.guard("likelihoods first, then the kernel", "PreferenceGP.grad_likli_f_hyper", None, c03_evidence, check, data)


def c03_categories(check, cls, k):
    """another number of ordinal categories: same hyper-parameters, that many categories"""
    w = where_of(check, cls, "set_num_ordinals")
    con = "%s.set_num_ordinals(%d)" % (cls, k)
    run = Run(check)
    m = run.new(cls, kern(run)) if cls == "PreferenceGP" else run.new(cls)
    p = next((q for q in probit_list(run, m) if run.get(q).cls.name == "OrdinalProbit"), None)
    if p is None:
        return check.ob("number of categories", con, w, "unknown", "no ordinal likelihood in the model")
    run.call(p, "set_hyper", run.vec(S("sg", True), S("bb", True)))
    run.call(m, "set_num_ordinals", C(k))
    fresh = run.new("OrdinalProbit", S("sg", True), S("bb", True), C(k))
    if not check.no_errors(run.I, "number of categories", con):
        return
    rule = "another number of categories keeps the hyper-parameters"
    for nm, a, b in (("hyper-parameters", run.call(p, "get_hyper"), run.call(fresh, "get_hyper")), ("break points", run.attr(p, "b"), run.attr(fresh, "b"))):
        A, B = (as_array(o, run.st) if not isinstance(o, Arr) else o for o in (run.get(a), run.get(b)))
        if not isinstance(A, Arr) or not isinstance(B, Arr) or A.rank != 1 or B.rank != 1:
            check.ob(rule, "%s: %s" % (con, nm), w, "unknown", "not resolved")
            continue
        check.arr_equal(rule, "%s: %s" % (con, nm), w, A, run.st, [B.dims[0]], lambda i, B=B: B.at(i))
    check.equal("number of categories", con, w, run.attr(p, "n_ordinals"), C(k))


def c03_evidence(check, data):
    """the evidence gradient: one entry per hyper-parameter, those of the likelihoods first"""
    w = where_of(check, "PreferenceGP", "grad_likli_f_hyper")
    con = "PreferenceGP.grad_likli_f_hyper [%s]" % "+".join(a for a, d in zip(("pref", "abs"), data) if d)
    run, g, k, npar, X, F, K_, W, gl, y, order = grad_setup(check, data, True)
    r = run.fork()
    v1 = value_vec(check, r, r.call(g, "grad_likli_f_hyper", F, X, y))
    r2 = run.fork()
    r2.set(g, hyperparam_only_probit=FALSE)
    v2 = value_vec(check, r2, r2.call(g, "grad_likli_f_hyper", F, X, y))
    if not check.no_errors(r.I, "layout runs", con) or not check.no_errors(r2.I, "layout runs", con):
        return
    n_ = sum(c for _, _, c in order)
    for rr, v, m_ in ((r, v1, n_), (r2, v2, n_ + npar)):
        if v is None:
            check.ob("one entry per hyper-parameter", con, w, "unknown", "")
            return
        length(check, "one entry per hyper-parameter", con, w, rr, rr.st.new(v), m_)
    # each entry of a likelihood holds that likelihood's own derivative
    j = 0
    for name, q, cnt in order:
        for e in range(cnt):
            for tag, v in (("", v2), (" likelihood parameters only", v1)):
                d = pdiff(norm(v.at(C(j))), ("at", q + "g", (norm(C(e)),)))
                check.equal("likelihoods first, then the kernel", "%s%s entry %d (%s)" % (con, tag, j, name), w, d, PONE)
            j += 1


def c03_tuned_ord(check, only):
    """break points tuned like the other parameters"""
    run = Run(check)
    g, F, ys = gp_model(run)
    set_probits(run, g)
    run.set(g, hyperparam_only_probit=TRUE if only else FALSE, y_train=run.st.new(VList.of(list(ys))), X_train=run.arr("Y", NL, D))
    kk = order_kinds(run, g, kinds(True))
    for p, k in zip(probit_list(run, g), kk):
        run.set(p, optimize_parameters=TRUE)
        if k.cls == "AbsBoundProbit":
            run.set(p, optimize_v_only=FALSE)
        if k.cls == "OrdinalProbit":
            run.set(p, n_ordinals=C(5))
            run.call(p, "set_b", S("bb", True))
    want = 5 + (0 if only else plen(run, run.attr(g, "cov_func")))
    tag = "PreferenceGP with tuned break points%s" % (", likelihood parameters only" if only else "")
    w = where_of(check, "PreferenceGP", "get_hyper")
    roundtrips(check, tag, w, run, g, "get_hyper", "set_hyper", want)
    r = run.fork()
    r.call(g, "set_hyper", r.vec(*[S("t%d" % j, True) for j in range(want)]))
    parts = c03_order(check, r, g, only, ys, kk)
    gl = value_vec(check, r, r.call(g, "get_hyper"))
    if parts is not None and gl is not None and pc_const(norm(gl.dims[0])) == len(parts):
        for j, pt in enumerate(parts):
            check.equal("likelihoods first, then the kernel", "%s entry %d" % (tag, j), w, gl.at(C(j)), pt)


def value_vec(check, run, v):
    v = run.get(v)
    if isinstance(v, (VList, VTuple)):
        if isinstance(v, VTuple) and not v.items or isinstance(v, VList) and v.static and not v.items():
            return Arr((IV(),), (ZERO,), ZERO)
        v = as_array(v, run.st)
    return v if isinstance(v, Arr) and v.rank == 1 else None


def same_state(check, rule, con, w, run0, run1, obj, names=None):
    """every attribute of the object (and of its parts) has the same value in both states"""
    bad, unk, seen = [], [], set()

    def cmp_(a, b, path):
        a0, b0 = run0.get(a), run1.get(b)
        if a is b and a0 is b0:
            return
        if isinstance(a0, VObj) and isinstance(b0, VObj) and a0.cls is b0.cls:
            if isinstance(a, Ref):
                if a.id in seen:
                    return
                seen.add(a.id)
            for k in sorted(set(a0.attrs) | set(b0.attrs)):
                if k not in a0.attrs or k not in b0.attrs:
                    unk.append(path + "." + k)
                    continue
                cmp_(a0.attrs[k], b0.attrs[k], path + "." + k)
            return
        if isinstance(a0, Arr) and isinstance(b0, Arr) and a0.rank == b0.rank:
            ivs = [IV() for _ in a0.dims]
            for x, y in list(zip(a0.dims, b0.dims)) + [(a0.at(*ivs), b0.at(*ivs))]:
                s, info = decide(norm(x), norm(y))
                if s == "refuted":
                    bad.append("%s: %s, was %s" % (path, pshow(norm(y))[:120], pshow(norm(x))[:120]))
                    return
                if s == "unknown":
                    unk.append(path)
            return
        if isinstance(a0, T) and isinstance(b0, T):
            if a0 is b0:
                return
            if a0 is NONE or b0 is NONE:
                bad.append("%s: %s, was %s" % (path, show(b0), show(a0)))
                return
            try:
                s, info = decide(norm(a0), norm(b0))
            except Exception:
                s = "unknown"
            if s == "refuted":
                bad.append("%s: %s, was %s" % (path, show(b0)[:120], show(a0)[:120]))
            elif s == "unknown":
                unk.append(path)
            return
        if isinstance(a0, VTuple) and isinstance(b0, VTuple) and len(a0.items) == len(b0.items):
            for q, (x, y) in enumerate(zip(a0.items, b0.items)):
                cmp_(x, y, "%s[%d]" % (path, q))
            return
        if isinstance(a0, VList) and isinstance(b0, VList) and a0.static and b0.static and len(a0.items()) == len(b0.items()):
            for q, (x, y) in enumerate(zip(a0.items(), b0.items())):
                cmp_(x, y, "%s[%d]" % (path, q))
            return
        if type(a0) is type(b0) and not isinstance(a0, (Unk, Phi)) and repr(a0) == repr(b0):
            return
        if isinstance(a0, VDict) and isinstance(b0, VDict):
            return
        unk.append(path)
    cmp_(obj, obj, "")
    check.ob(rule, con, w, "refuted" if bad else "unknown" if unk else "proved", "; ".join((bad or unk)[:4]))


def roundtrips(check, con, w, run, obj, getn, setn, n_, whatever=False):
    """get -> set changes nothing; set(v) -> get gives v"""
    r = run.fork()
    v = r.call(obj, getn)
    if not check.no_errors(r.I, "layout runs", "%s.%s" % (con, getn)):
        return None
    r0 = r.fork()
    r.call(obj, setn, v)
    if not check.no_errors(r.I, "layout runs", "%s.%s" % (con, setn)):
        return None
    same_state(check, "reading and writing back changes nothing", con, w, r0, r, obj)
    r = run.fork()
    i = IV()
    t = r.vec(*[S("t%d" % j, True) for j in range(n_)]) if n_ else r.st.new(Arr((i,), (ZERO,), ZERO))
    r.call(obj, setn, t)
    if not check.no_errors(r.I, "layout runs", "%s.%s" % (con, setn)):
        return None
    g = value_vec(check, r, r.call(obj, getn))
    if g is None:
        check.ob("writing and reading back gives the vector", con, w, "unknown", "vector not resolved")
        return r
    c = pc_const(norm(g.dims[0]))
    if c is None or c != n_:
        check.ob("writing and reading back gives the vector", con, w, "unknown" if c is None else "refuted", "length %s, %d written" % (show(g.dims[0]), n_))
        return r
    for j in range(n_):
        check.equal("writing and reading back gives the vector", "%s entry %d" % (con, j), w, g.at(C(j)), S("t%d" % j, True))
    if not n_:
        check.ob("writing and reading back gives the vector", con, w, "proved", "")
    if whatever:
        # numbers of either sign, as a search may write them
        q = run.fork()
        q.call(obj, setn, q.vec(*[S("t%d" % j, False, "real") for j in range(n_)]))
        g = value_vec(check, q, q.call(obj, getn))
        if g is not None and pc_const(norm(g.dims[0])) == n_:
            for j in range(n_):
                check.equal("writing and reading back gives the vector", "%s entry %d, of either sign" % (con, j), w, g.at(C(j)), S("t%d" % j, False, "real"))
    return r


def behaves(check, con, w, run, obj, getn, setn, n_, ask):
    """after the vector t has been written the part behaves as one whose parameters have been t from the start
    ask: [(name, f(run) -> value)]"""
    from .rules_kernel import pc_const
    if not n_:
        return
    r = run.fork()
    v = value_vec(check, r, r.call(obj, getn))
    if v is None or pc_const(norm(v.dims[0])) != n_:
        return
    old = []
    for j in range(n_):
        p_ = norm(v.at(C(j)))
        if len(p_.terms) != 1 or len(p_.terms[0][0]) != 1 or p_.terms[0][1] != 1 or ATOM[p_.terms[0][0][0][0]][0] != "s":
            return
        old.append(p_.terms[0][0][0][0])
    m = {a: norm(S("t%d" % j, True)) for j, a in enumerate(old)}
    r0, r1 = run.fork(), run.fork()
    r1.call(obj, setn, r1.vec(*[S("t%d" % j, True) for j in range(n_)]))
    for nm, f in ask:
        a, b = f(r0.fork()), f(r1.fork())
        for tag, x, y in flat_pair(nm, a, b):
            if isinstance(x, Arr) and isinstance(y, Arr) and x.rank == y.rank:
                ivs = [IV() for _ in x.dims]
                x, y = x.at(*ivs), y.at(*ivs)
            if isinstance(x, T) and isinstance(y, T) and x is not NONE and y is not NONE:
                check.equal("a written vector takes effect everywhere", "%s %s" % (con, tag), w, y, psubst(norm(x), m))
            elif not (x is NONE and y is NONE):
                check.ob("a written vector takes effect everywhere", "%s %s" % (con, tag), w, "unknown", "%r / %r" % (x, y))


def flat_pair(nm, a, b):
    if isinstance(a, VTuple) and isinstance(b, VTuple) and len(a.items) == len(b.items):
        return [z for q, (x, y) in enumerate(zip(a.items, b.items)) for z in flat_pair("%s[%d]" % (nm, q), x, y)]
    return [(nm, a, b)]


def deep(run, v):
    """a value with its references resolved"""
    v = run.get(v)
    if isinstance(v, VTuple):
        return VTuple([deep(run, x) for x in v.items])
    return v


def length(check, rule, con, w, run, v, n_):
    o = run.get(v)
    if o is NONE:
        check.ob(rule, con, w, "refuted" if n_ else "unknown", "no value (None), %d entries required" % n_)
        return
    if isinstance(o, Arr) and o.rank >= 1:
        c = pc_const(norm(o.dims[0]))
    elif isinstance(o, VTuple):
        c = len(o.items)
    elif isinstance(o, VList) and o.static:
        c = len(o.items())
    else:
        c = None
    if c is None and isinstance(o, Arr) and o.rank >= 1:
        s, _ = decide(norm(o.dims[0]), norm(C(n_)))
        check.ob(rule, con, w, s if s == "refuted" else "unknown", "length %s, %d required" % (show(o.dims[0]), n_))
        return
    check.ob(rule, con, w, "unknown" if c is None else "proved" if c == n_ else "refuted", "length %s, %d required" % (c, n_))


def c03_kernel(check, name, b):
    run = Run(check)
    k = b(run)
    w = mref(check.repo, run.st, k, "get_param")
    n_ = plen(run, k)
    if n_ is None:
        check.ob("kernel layout", name, w, "unknown", "vector length")
        return
    roundtrips(check, name, w, run, k, "get_param", "set_param", n_, True)
    f = lambda meth, *args: (meth, lambda r: deep(r, r.call(k, meth, *args)))
    X, Y, u_, v_ = run.arr("X", N, D), run.arr("Y", M, D), run.arr("u", D), run.arr("v", D)
    behaves(check, name, w, run, k, "get_param", "set_param", n_, [
        ("value", lambda r: deep(r, r.I.call(k, [u_, v_], {}, r.st, None))), f("cov", X, Y), f("gradient", u_, v_), f("cov_gradient", X, Y), f("param_likli"), f("grad_param_likli")])
    r = run.fork()
    ln = scalar_of(r.I.call(Ext("builtins.len"), [k], {}, r.st, None), r.st)
    check.equal("stated length is that of the vector", name, w, ln, C(n_))
    for meth in ("grad_param_likli", "randomize_hyper"):
        r = run.fork()
        v = r.call(k, meth)
        if check.no_errors(r.I, "layout runs", name + "." + meth):
            length(check, "one entry per hyper-parameter", "%s.%s" % (name, meth), mref(check.repo, run.st, k, meth), r, v, n_)


def c03_probit(check, tag, build_, cls):
    run = Run(check)
    p = build_(run)
    w = where_of(check, cls, "get_hyper")
    v = value_vec(check, run, run.call(p, "get_hyper"))
    n_ = pc_const(norm(v.dims[0])) if v is not None else None
    if n_ is None:
        check.ob("likelihood layout", tag, w, "unknown", "vector length")
        return
    n_ = int(n_)
    roundtrips(check, tag, w, run, p, "get_hyper", "set_hyper", n_, cls != "OrdinalProbit" and n_ > 0)
    o = run.attr(p, "optimize_parameters")
    if o is None:
        ca = check.repo.classattr(check.repo.cls(cls), "optimize_parameters")
        o = FALSE if ca is not None and getattr(ca[0], "value", None) is False else None
    if cls == "OrdinalProbit" and o is FALSE:
        n_ = 0                 # never tuned: contributes to no gradient and no draw
    kd = {"PreferenceProbit": kinds()[0], "AbsBoundProbit": kinds()[1], "OrdinalProbit": kinds()[2]}[cls]
    F_, y_ = Fvec(run), kd.labels(run)
    f = lambda meth, *args: (meth, lambda r: deep(r, r.call(p, meth, *args)))
    behaves(check, tag, w, run, p, "get_hyper", "set_hyper", int(n_), [f("derivatives", y_, F_), f("log_likelihood", y_, F_), f("param_likli"), f("grad_param_likli")] +
            ([f("likelihood_all_pairs", F_)] if cls == "PreferenceProbit" else [f("get_alpha_beta", F_)] if cls == "AbsBoundProbit" else []) +
            ([f("grad_hyper", y_, F_), f("calc_W_dHyper", y_, F_)] if cls != "OrdinalProbit" else []))
    for meth in ("grad_param_likli", "randomize_hyper"):
        r = run.fork()
        v = r.call(p, meth)
        if check.no_errors(r.I, "layout runs", tag + "." + meth):
            length(check, "one entry per hyper-parameter", "%s.%s" % (tag, meth), where_of(check, cls, meth), r, v, n_)
    for meth in ("grad_hyper", "calc_W_dHyper"):
        if cls == "OrdinalProbit":
            continue
        r = run.fork()
        v = r.call(p, meth, kd.labels(r), Fvec(r))
        if check.no_errors(r.I, "layout runs", tag + "." + meth):
            length(check, "one entry per hyper-parameter", "%s.%s" % (tag, meth), where_of(check, cls, meth), r, v, n_)
    # the draw is in the order of the vector: each entry drawn with the prior of that parameter
    if n_:
        c03_draw(check, tag, run, p, cls, n_)


def c03_draw(check, tag, run, p, cls, n_):
    """entry j of the random draw uses the stored prior of the parameter that set_hyper writes from entry j"""
    r = run.fork()
    o = r.get(p)
    at = dict(o.attrs)
    for k_, x in at.items():
        if isinstance(x, T) and isnum(x) and (k_.endswith("_k") or k_.endswith("_theta")):
            at[k_] = S("prior:" + k_, True)
    r.st.put(p, VObj(o.cls, at, o.hooks, o.name))
    d = value_vec(check, r, r.call(p, "randomize_hyper"))
    evs = {e.data["sym"]: e for e in r.I.events if e.kind == "rng"}
    # which attribute does entry j set?
    s = run.fork()
    s.call(p, "set_hyper", s.vec(*[S("t%d" % j, True) for j in range(n_)]))
    after = s.get(p).attrs
    w = where_of(check, cls, "randomize_hyper")
    for j in range(n_):
        con = "%s entry %d" % (tag, j)
        nm = [k_ for k_, x in after.items() if x is S("t%d" % j, True)]
        if d is None or len(nm) != 1:
            check.ob("draw in the order of the vector", con, w, "unknown", "")
            continue
        q = norm(d.at(C(j)))
        names = set()
        from .rules_kernel import all_atoms
        for a in all_atoms(q):
            if ATOM[a][0] in ("s", "at") and ATOM[a][1] in evs:
                e = evs[ATOM[a][1]]
                for z in list(e.data["args"]) + list(e.data["kwargs"].values()):
                    z = scalar_of(z, r.st)
                    if isinstance(z, T):
                        for a2 in all_atoms(norm(z)):
                            if ATOM[a2][0] == "s" and str(ATOM[a2][1]).startswith("prior:"):
                                names.add(ATOM[a2][1][6:])
        if not names:
            check.ob("draw in the order of the vector", con, w, "unknown", "no prior parameter found")
            continue
        check.ok("draw in the order of the vector", con, w, all(x.startswith(nm[0] + "_") for x in names),
                 "entry %d is %s, drawn with %s" % (j, nm[0], ", ".join(sorted(names))))


def c03_model(check, data, only, opt, tag):
    repo = check.repo
    run = Run(check)
    g, F, ys = gp_model(run, data=data)
    set_probits(run, g)
    run.set(g, hyperparam_only_probit=TRUE if only else FALSE, y_train=run.st.new(VList.of(list(ys))), X_train=run.arr("Y", NL, D))
    want = 0
    kk = order_kinds(run, g, kinds(True))
    for p, k, yy in zip(probit_list(run, g), kk, ys):
        if k.cls == "PreferenceProbit":
            run.set(p, optimize_parameters=TRUE if opt[0] else FALSE)
            want += 1 if opt[0] and yy is not NONE else 0
        elif k.cls == "AbsBoundProbit":
            run.set(p, optimize_parameters=TRUE if opt[1] else FALSE, optimize_v_only=FALSE)
            want += 2 if opt[1] and yy is not NONE else 0
        elif k.cls == "OrdinalProbit":
            # the vector of a scalar set of break points
            run.call(p, "set_b", S("bb", True))
            run.set(p, n_ordinals=C(5))
            run.call(p, "set_b", S("bb", True))
    kern_ = run.attr(g, "cov_func")
    if not only:
        want += plen(run, kern_)
    w = where_of(check, "PreferenceGP", "get_hyper")
    r = run.fork()
    v = value_vec(check, r, r.call(g, "get_hyper"))
    if not check.no_errors(r.I, "layout runs", tag + ".get_hyper"):
        return
    if v is None:
        check.ob("exactly the kinds with data contribute", tag, w, "unknown", "")
        return
    length(check, "exactly the kinds with data contribute", tag, w, r, r.st.new(v), want)
    roundtrips(check, tag, w, run, g, "get_hyper", "set_hyper", want)
    r = run.fork()
    gl = r.call(g, "grad_hyper_liklihood")
    if check.no_errors(r.I, "layout runs", tag + ".grad_hyper_liklihood"):
        length(check, "one entry per hyper-parameter", tag + ".grad_hyper_liklihood", where_of(check, "PreferenceGP", "grad_hyper_liklihood"), r, gl, want)
    # the random draw writes one entry per hyper-parameter, part by part in the order of the vector
    r = run.fork()
    got = []
    m = repo.method(repo.cls("PreferenceGP"), "set_hyper")
    r.I.hooks[m] = lambda I, st, a, kw, nd: (got.append((bound(I, m, a, kw, st, nd), st.fork())), NONE)[1]
    r.call(g, "randomize_hyper")
    if check.no_errors(r.I, "layout runs", tag + ".randomize_hyper") and got:
        q = r.fork()
        q.st = got[-1][1]
        length(check, "one entry per hyper-parameter", tag + ".randomize_hyper", where_of(check, "PreferenceGP", "randomize_hyper"), q, list(got[-1][0].values())[1], want)
    # every part ends up with its own draw
    c03_own_draw(check, run, g, only, ys, kk, tag)
    # the log-prior of the model is that of its parts, its gradient is theirs in the order of the vector
    c03_prior(check, run, g, only, ys, tag)
    # order of the gradient of the log-prior: the derivative of the log-prior in that entry
    r = run.fork()
    t = r.vec(*[S("t%d" % j, True) for j in range(want)]) if want else None
    if t is not None:
        r.call(g, "set_hyper", t)
        parts = c03_order(check, r, g, only, ys, kk)
        gl = value_vec(check, r, r.call(g, "get_hyper"))
        if parts is not None and gl is not None and pc_const(norm(gl.dims[0])) == len(parts):
            for j, pt in enumerate(parts):
                check.equal("likelihoods first, then the kernel", "%s entry %d" % (tag, j), w, gl.at(C(j)), pt)


def tuned(run, p, yy):
    return yy is not NONE and run.attr(p, "optimize_parameters") is TRUE


def c03_own_draw(check, run, g, only, ys, kk, tag):
    r = run.fork()
    w = where_of(check, "PreferenceGP", "randomize_hyper")
    drawn = {}
    ps = probit_list(r, g)
    kern_ = r.attr(g, "cov_func")

    def part(key, obj, meth, getn, cls):
        f = check.repo.method(cls, meth)
        if f is None:
            return

        def hook(I, st, a, kw, nd):
            me = a[0]
            who = next((k_ for k_, o in objs.items() if isinstance(me, Ref) and isinstance(o, Ref) and o.id == me.id), None)
            q = r.fork()
            q.st = st
            v = value_vec(check, q, q.call(me, "get_param" if who == "kernel" else "get_hyper"))
            m_ = pc_const(norm(v.dims[0])) if v is not None else None
            if who is None or m_ is None or not m_:
                return st.new(Arr((IV(),), (ZERO,), ZERO))
            x = [S("draw_%s_%d_%d" % (who, drawn.get(who, (0,))[0], j), True) for j in range(int(m_))]
            drawn[who] = (drawn.get(who, (0,))[0] + 1, x)
            b = x[-1]
            iv = IV()
            for j in range(len(x) - 2, -1, -1):
                b = ite(eq(iv, C(j)), x[j], b)
            return st.new(Arr((iv,), (C(len(x)),), b))
        r.I.hooks[f] = hook
    objs = {"likelihood %d" % q: p for q, p in enumerate(ps)}
    objs["kernel"] = kern_
    for key, o in objs.items():
        part(key, o, "randomize_hyper", None, r.get(o).cls)
    r.call(g, "randomize_hyper")
    if not check.no_errors(r.I, "layout runs", tag + ".randomize_hyper"):
        return
    want = [("likelihood %d" % q, p, "get_hyper") for q, (p, yy) in enumerate(zip(ps, ys)) if tuned(run, p, yy)]
    if not only:
        want.append(("kernel", kern_, "get_param"))
    for key, o, getn in want:
        v = value_vec(check, r, r.call(o, getn))
        if v is None:
            check.ob("every part gets its own draw", "%s %s" % (tag, key), w, "unknown", "")
            continue
        if key not in drawn:
            check.ob("every part gets its own draw", "%s %s" % (tag, key), w, "refuted" if not r.I.excs else "unknown", "its parameters are not drawn")
            continue
        for j, x in enumerate(drawn[key][1]):
            check.equal("every part gets its own draw", "%s %s entry %d" % (tag, key, j), w, v.at(C(j)), x)


def c03_prior(check, run, g, only, ys, tag):
    ps = probit_list(run, g)
    kern_ = run.attr(g, "cov_func")
    parts = [p for p, yy in zip(ps, ys) if yy is not NONE] + ([] if only else [kern_])
    for meth, sub_, rule in (("hyper_liklihood", "param_likli", "the log-prior of a model is the sum over its parts"),
                             ("grad_hyper_liklihood", "grad_param_likli", "the log-prior gradient of a model is that of its parts in order")):
        f = check.repo.method(check.repo.cls("PreferenceGP"), meth)
        if f is None:
            continue
        r = run.fork()
        vals, funcs = [], {}
        for q, p in enumerate(parts):
            pf = check.repo.method(r.get(p).cls, sub_)
            if pf is None:
                return
            if p is not kern_ and run.attr(p, "optimize_parameters") is not TRUE:
                r9 = r.fork()                            # a part that is not tuned: whatever it reports (nothing)
                z = r9.call(p, sub_)
                vals.append(value_vec(check, r9, z) if sub_.startswith("grad") else scalar_of(z, r9.st))
                continue
            if sub_.startswith("grad"):
                r9 = r.fork()
                own = value_vec(check, r9, r9.call(p, sub_))
                m_ = pc_const(norm(own.dims[0])) if own is not None else None
                if m_ is None:
                    return
                x = [S("part_%d_%d" % (q, j), True) for j in range(int(m_))]
                bd, iv = x[-1] if x else ZERO, IV()
                for j in range(len(x) - 2, -1, -1):
                    bd = ite(eq(iv, C(j)), x[j], bd)
                val = Arr((iv,), (C(len(x)),), bd)
            else:
                val = S("part_%d" % q)
            vals.append(val)
            funcs.setdefault(pf, []).append((p, val))
        for pf, who in funcs.items():
            def hook(I, st, a, kw, nd, who=who, pf=pf):
                for p, val in who:
                    if isinstance(a[0], Ref) and isinstance(p, Ref) and a[0].id == p.id:
                        return st.new(val) if isinstance(val, Arr) else val
                return I.unk("part of the prior")
            r.I.hooks[pf] = hook
        v = r.call(g, meth)
        if not check.no_errors(r.I, "layout runs", tag + "." + meth):
            continue
        if meth == "hyper_liklihood":
            v = scalar_of(v, r.st)
            if isinstance(v, T) and v is not NONE and all(isinstance(x, T) for x in vals):
                check.equal(rule, tag, f.where(), v, norm(add(*vals) if vals else ZERO))
            else:
                check.ob(rule, tag, f.where(), "refuted" if v is NONE else "unknown", repr(v))
            continue
        v = value_vec(check, r, v)
        if v is None or any(x is None or pc_const(norm(x.dims[0])) is None for x in vals):
            check.ob(rule, tag, f.where(), "unknown", repr(v))
            continue
        flat = [x.at(C(j)) for x in vals for j in range(int(pc_const(norm(x.dims[0]))))]
        if pc_const(norm(v.dims[0])) == len(flat):
            for j, x in enumerate(flat):
                check.equal(rule, "%s entry %d" % (tag, j), f.where(), v.at(C(j)), norm(x))


def c03_order(check, run, g, only, ys, kk):
    """the values of the parameters, kind by kind, then the kernel"""
    out = []
    for p, yy in zip(probit_list(run, g), ys):
        if yy is NONE:
            continue
        o = run.attr(p, "optimize_parameters")
        if o is not TRUE:
            continue
        v = value_vec(check, run, run.call(p, "get_hyper"))
        if v is None:
            return None
        out += [v.at(C(j)) for j in range(int(pc_const(norm(v.dims[0])) or 0))]
    if not only:
        v = value_vec(check, run, run.call(run.attr(g, "cov_func"), "get_param"))
        if v is None:
            return None
        out += [v.at(C(j)) for j in range(int(pc_const(norm(v.dims[0])) or 0))]
    return out
