"""C17: one seed fixes every random decision. C18: callers' data is not modified."""
import ast, json, os
from .repo import *
from .rule import *
from .effects import Effects
from .rules_names import resolve_call, own_nodes, all_nodes, all_params

# ---------------------------------------------------------------- C17
BAN_MODULES = {"random", "secrets", "uuid", "threading", "multiprocessing", "concurrent", "concurrent.futures", "asyncio"}
BAN_NAMES = {"os.urandom", "os.getpid", "os.times", "os.getrandom", "os.listdir", "os.scandir", "glob.glob", "glob.iglob",
             "numpy.random.seed", "numpy.random.set_state", "numpy.random.RandomState", "numpy.random.default_rng",
             "numpy.random.Generator", "numpy.random.SeedSequence", "numpy.random.PCG64", "numpy.random.PCG64DXSM",
             "numpy.random.Philox", "numpy.random.MT19937", "numpy.random.SFC64", "numpy.random.mtrand.RandomState",
             "scipy.stats.qmc.Sobol", "scipy.stats.qmc.Halton", "scipy.stats.qmc.LatinHypercube"}
CLOCK = {"time", "datetime"}
JIT = {"numba.jit", "numba.njit", "numba.vectorize", "numba.guvectorize", "numba.cuda.jit", "numba.stencil"}
RNG = "numpy.random."


def ext_name(repo, f, e):
    """dotted external name of an expression, seen from function f"""
    p = f
    root = e
    while isinstance(root, ast.Attribute):
        root = root.value
    if not isinstance(root, ast.Name):
        return None
    while p is not None:
        if root.id in all_params(p.node):
            return None
        for n in own_nodes(p.node):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if (a.asname or a.name.split(".")[0]) == root.id:
                        base = a.name if a.asname else a.name.split(".")[0]
                        return ".".join([base] + tail(e))
            elif isinstance(n, ast.ImportFrom) and not n.level:
                for a in n.names:
                    if (a.asname or a.name) == root.id and (n.module or "").split(".")[0] != repo.pkg:
                        return ".".join([n.module, a.name] + tail(e))
        p = p.parent
    for n in all_nodes(f.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == root.id:
            return None
    r = repo.resolve_expr(f.module, e)
    if isinstance(r, Ext):
        return r.name
    r = repo.lookup(f.module, root.id)
    if isinstance(r, tuple) and r[0] == "assign" and r[1] is not None:     # alias of a module or function
        b = repo.resolve_expr(r[2], r[1].func if isinstance(r[1], ast.Call) else r[1])
        if isinstance(b, Ext):
            return ".".join([b.name] + tail(e))
    return None


def tail(e):
    out = []
    while isinstance(e, ast.Attribute):
        out.append(e.attr)
        e = e.value
    return out[::-1]


def banned(name):
    if name is None:
        return None
    if name in BAN_NAMES or any(name.startswith(b + ".") for b in BAN_NAMES):
        return "%s is not the numpy global generator" % name
    for b in BAN_MODULES:
        if name.startswith(b + ".") or name == b:
            return "%s is a source of its own, not fixed by the numpy seed" % name
    return None


def only_printed(fnode, node):
    """the value of this clock call reaches nothing but printing"""
    parents = {}
    for n in ast.walk(fnode):
        for c in ast.iter_child_nodes(n):
            parents[c] = n

    def sink(n, depth=0):
        p = parents.get(n)
        while p is not None:
            if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id == "print":
                return True
            if isinstance(p, ast.Expr):
                return True
            if isinstance(p, ast.Assign):
                if depth > 4 or not all(isinstance(t, ast.Name) for t in p.targets):
                    return False
                return all(sink(x, depth + 1) for t in p.targets for x in ast.walk(fnode)
                           if isinstance(x, ast.Name) and x.id == t.id and isinstance(x.ctx, ast.Load))
            if isinstance(p, ast.stmt):
                return False
            p = parents.get(p)
        return False
    return sink(node)


def string_set(repo, f, e):
    """expression is certainly a set with string elements"""
    if isinstance(e, ast.Set):
        return any(isinstance(x, ast.Constant) and isinstance(x.value, (str, bytes)) for x in e.elts)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("set", "frozenset") and e.args:
        a = e.args[0]
        if isinstance(a, (ast.List, ast.Tuple, ast.Set)):
            return any(isinstance(x, ast.Constant) and isinstance(x.value, (str, bytes)) for x in a.elts)
        if isinstance(a, ast.Dict):
            return any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in a.keys)
        if isinstance(a, ast.Call) and isinstance(a.func, ast.Attribute) and a.func.attr == "keys":
            a = a.func.value
        if isinstance(a, ast.Attribute) and f.cls is not None:
            for k in repo.mro(f.cls):
                for n in ast.walk(k.node):
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Dict) and any(
                            isinstance(t, ast.Attribute) and t.attr == a.attr for t in n.targets):
                        return any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in n.value.keys)
    if isinstance(e, ast.Name):
        defs = [n.value for n in ast.walk(f.node) if isinstance(n, ast.Assign) and
                any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
        return bool(defs) and all(string_set(repo, f, d) for d in defs)
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.Sub, ast.BitAnd)):
        return string_set(repo, f, e.left)
    return False


def jitted(repo, f):
    for d in getattr(f.node, "decorator_list", []):
        t = d.func if isinstance(d, ast.Call) else d
        n = ext_name(repo, f, t) if not isinstance(t, ast.Name) or True else None
        if n is None:
            r = repo.resolve_expr(f.module, t)
            n = r.name if isinstance(r, Ext) else None
        if n in JIT:
            return n
    return None


def uninitialised(repo, f):
    """arrays from np.empty that are added to before anything was stored in them"""
    out = []
    for n in own_nodes(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call):
            nm = ext_name(repo, f, n.value.func)
            if nm in ("numpy.empty", "numpy.empty_like"):
                v = n.targets[0].id
                if isinstance(n.value.args[0] if n.value.args else None, ast.Tuple) and any(
                        isinstance(x, ast.Constant) and x.value == 0 for x in n.value.args[0].elts):
                    continue
                first = None
                for m in sorted((x for x in own_nodes(f.node) if hasattr(x, "lineno") and x.lineno >= n.lineno),
                                key=lambda x: (x.lineno, x.col_offset)):
                    if m is n or first is not None:
                        continue
                    if isinstance(m, ast.AugAssign):
                        b = m.target.value if isinstance(m.target, ast.Subscript) else m.target
                        if isinstance(b, ast.Name) and b.id == v:
                            first = ("aug", m)
                    elif isinstance(m, ast.Assign):
                        for t in m.targets:
                            b = t.value if isinstance(t, ast.Subscript) else t
                            if isinstance(b, ast.Name) and b.id == v:
                                first = ("set", m)
                    elif isinstance(m, ast.Call):
                        nm = ext_name(repo, f, m.func)
                        if nm and nm.endswith(".at") and m.args and isinstance(m.args[0], ast.Name) and m.args[0].id == v:
                            first = ("aug", m)
                        elif any(isinstance(x, ast.Name) and x.id == v for x in list(m.args) + [k.value for k in m.keywords]):
                            first = ("use", m)
                    elif isinstance(m, ast.Return) and isinstance(m.value, ast.Name) and m.value.id == v:
                        first = ("ret", m)
                if first and first[0] in ("aug", "ret"):
                    out.append((v, first[1]))
    return out


def c17(c):
    repo = c.repo
    eff = Effects(repo, resolve_call)
    draws = 0
    jit = [f for f in repo.all_funcs() if jitted(repo, f)]
    jitcalled = set()
    todo = list(jit)
    while todo:
        f = todo.pop()
        if f.node in jitcalled:
            continue
        jitcalled.add(f.node)
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call):
                for t in resolve_call(repo, f, n):
                    if t[0] != "family":
                        todo.append(t[0])
    for f in repo.all_funcs():
        bad, n_draw = [], 0
        imported = set()
        for n in own_nodes(f.node):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                nm = ext_name(repo, f, n)
                if nm is None:
                    continue
                why = banned(nm)
                if why:
                    bad.append((n, nm, why))
                elif nm.startswith(RNG):
                    n_draw += 1
                    if f.node in jitcalled:
                        bad.append((n, nm, "numba-compiled code has a generator of its own"))
                elif nm.split(".")[0] in CLOCK and nm.count(".") >= 1 and not nm.endswith(("sleep", "timedelta", "datetime.datetime", "strftime")):
                    if not only_printed(f.node, n):
                        bad.append((n, nm, "a result depends on the clock"))
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("id", "hash") and n.func.id not in f.module.sym:
                bad.append((n, n.func.id, "object identities and string hashes change from run to run"))
            it = None
            if isinstance(n, (ast.For, ast.comprehension)):
                it = n.iter
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("list", "tuple", "enumerate", "iter", "next") and n.args:
                it = n.args[0]
            if it is not None and string_set(repo, f, it):
                bad.append((it, "set iteration", "iteration order of a set of strings changes from run to run"))
        for o, (nd, tx) in eff.sum[f.node].mut.items():
            if o[0] == "global":
                bad.append((nd, "module state " + o[2], "state kept in a module makes results depend on earlier calls (%s)" % tx))
        for n in own_nodes(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                r = None
                if isinstance(n.value, ast.Name) and n.value.id not in all_params(f.node):
                    r = repo.lookup(f.module, n.value.id)
                if isinstance(r, Class) or isinstance(n.value, ast.Attribute) and n.value.attr == "__class__" or \
                        isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "type":
                    bad.append((n, "class state " + n.attr, "state kept in a class makes results depend on earlier calls"))
        for d in getattr(f.node, "decorator_list", []):
            t = d.func if isinstance(d, ast.Call) else d
            r = repo.resolve_expr(f.module, t)
            if isinstance(r, Ext) and r.name in ("functools.lru_cache", "functools.cache"):
                bad.append((d, r.name, "cached results depend on earlier calls"))
        for v, nd in uninitialised(repo, f):
            bad.append((nd, "uninitialised " + v, "np.empty memory is read before it is written"))
        draws += n_draw
        seen = set()
        for n, nm, why in bad:
            if nm in seen:
                continue
            seen.add(nm)
            c.ob("seed.source", "%s uses %s" % (f.qual, nm), f.where(n if hasattr(n, "lineno") else None), "refuted", why)
        if not bad:
            c.ob("seed.source", f.qual, f.where(), "proved", "%d draws from the numpy global generator" % n_draw)
    # module level code
    for m in repo.modules.values():
        if getattr(m, "fixture", False):
            continue
        bad = []
        for s in m.tree.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
                continue
            for n in ast.walk(s):
                if isinstance(n, ast.Call):
                    r = repo.resolve_expr(m, n.func)
                    if isinstance(r, Ext) and (banned(r.name) or r.name.startswith(RNG)):
                        bad.append((n, r.name))
        c.ok("seed.module", m.name, os.path.relpath(m.path, REPO), not bad,
             "; ".join("%s at line %d" % (nm, n.lineno) for n, nm in bad))
    c.notes.append("%d references to numpy.random" % draws)
    c.analysed |= {f.qual for f in repo.all_funcs()}


# ---------------------------------------------------------------- C18
API = set(json.load(open(os.path.join(os.path.dirname(__file__), "api.json"))))
# explicit output arguments of internal helpers
OUTPUT = {("PreferenceGP.hyperparameter_search", "prev_grad"), ("add_up_mat", "M"), ("add_up_vec", "M"), ("add_up_W_partial", "dW"),
          ("PreferenceProbit.add_up_mat", "M"), ("PreferenceProbit.add_up_vec", "M"), ("PreferenceProbit.add_up_W_partial", "dW")}
TRIAL = {"model.y_train"}     # replaced entries of the label list are put back: decided by C11


def call_sites(repo, eff):
    out = {}
    for g in repo.all_funcs():
        for n in own_nodes(g.node):
            if isinstance(n, ast.Call):
                for t in resolve_call(repo, g, n):
                    for tt in (t[1] if t[0] == "family" else [t]):
                        out.setdefault(tt[0].node, []).append((g, n))
    return out


def c18(c):
    repo = c.repo
    eff = Effects(repo, resolve_call)
    sites = call_sites(repo, eff)
    for f in repo.all_funcs():
        sm = eff.sum[f.node]
        me = f.node.args.args[0].arg if f.cls is not None and not f.static and f.node.args.args else None
        params = [p for p in all_params(f.node) if p != me]
        hit = set()
        for o, (nd, tx) in sorted(sm.mut.items(), key=str):
            if o[0] == "param":
                p = o[1].split(".")[0]
                if "." in o[1]:
                    if o[1].split(".")[-1] in ("y_train", "X_train"):
                        c.ob("caller.unmodified", "%s %s" % (f.qual, o[1]), f.where(nd), "refuted", "data of an object passed in is changed in place: " + tx)
                        hit.add(p)
                    continue
                if p not in params:
                    continue
                hit.add(p)
                if f.parent is not None:
                    c.ob("caller.unmodified", "%s %s" % (f.qual, p), f.where(nd), "unknown", "nested helper: " + tx)
                    continue
                if (f.qual, p) in OUTPUT:
                    c.ob("caller.unmodified", "%s %s" % (f.qual, p), f.where(), "proved", "explicit output argument of an internal helper")
                elif f.qual not in API:
                    # an internal helper may fill what its callers hand it; what that means for callers is judged there
                    c.ob("caller.unmodified", "%s %s" % (f.qual, p), f.where(), "proved", "internal helper; effect propagated to %d call sites" % len(sites.get(f.node, [])))
                else:
                    c.ob("caller.unmodified", "%s %s" % (f.qual, p), f.where(nd), "refuted", "argument %s is modified in place: %s" % (p, tx))
            elif o[0] == "?" and o[1] == "param" and "." not in o[2]:
                hit.add(o[2])
                c.ob("caller.unmodified", "%s %s" % (f.qual, o[2]), f.where(nd), "unknown", "may be modified in place: " + tx)
            elif o[0] == "attr" and "." in o[1].rstrip("[]"):
                root, leaf = o[1].replace("[]", "").split(".", 1)
                if leaf in ("X_train", "y_train") and root in ("model",):
                    if o[1] in TRIAL:
                        c.ob("model.unmodified", "%s %s" % (f.qual, o[1]), f.where(nd), "proved", "trial labels, put back (C11)")
                    else:
                        c.ob("model.unmodified", "%s %s" % (f.qual, o[1]), f.where(nd), "refuted", "training data of the model is changed in place: " + tx)
        for p in params:
            if p not in hit:
                c.ob("caller.unmodified", "%s %s" % (f.qual, p), f.where(), "proved")
    # data taken over from a caller and later changed in place
    for cl in sorted(repo.classes.values(), key=lambda k: k.name):
        if getattr(cl.module, "fixture", False):
            continue
        stored, muts, handed = {}, {}, {}
        for k in repo.mro(cl):
            for m in k.methods.values():
                sm = eff.sum.get(m.node)
                if sm is None or repo.method(cl, m.name) is not m and m.name != "__init__":
                    continue
                for a, d in sm.stores.items():
                    for o, nd in d.items():
                        lvl = 1 if o[0] == "in" else 0
                        oo = o[1:] if lvl else o
                        may = oo[0] == "?"
                        oo = oo[1:] if may else oo
                        if oo[0] == "param" and "." not in oo[1]:
                            stored.setdefault(a, []).append((lvl, may, m, nd, oo[1]))
                for o, (nd, tx) in sm.mut.items():
                    may = o[0] == "?"
                    oo = o[1:] if may else o
                    if oo[0] == "attr" and "." not in oo[1]:
                        muts.setdefault(oo[1].replace("[]", ""), []).append((oo[1].endswith("[]"), may, m, nd, tx))
                if m.name in {q.split(".")[-1] for q in API if q.startswith(tuple(b.name + "." for b in repo.mro(cl)))}:
                    for o in sm.ret[0]:
                        if o[0] == "attr" and "." not in o[1]:
                            handed.setdefault(o[1].replace("[]", ""), []).append(m)
        for a in sorted(set(stored) | set(muts)):
            bad = None
            unk = None
            for lvl, may, m, nd, p in stored.get(a, []):
                for dp, may2, m2, nd2, tx in muts.get(a, []):
                    if m2.name == "__init__" and m is m2 and False:
                        continue
                    if lvl == 1 and not dp:
                        continue          # only the container of its own is changed
                    if may or may2:
                        unk = (m, p, m2, nd2, tx)
                    else:
                        bad = bad or (m, p, m2, nd2, tx)
            if bad:
                m, p, m2, nd2, tx = bad
                c.ob("kept.unmodified", "%s.%s" % (cl.name, a), m2.where(nd2), "refuted",
                     "%s keeps its caller's %s and %s changes it in place: %s" % (m.qual, p, m2.qual, tx))
            else:
                c.ob("kept.unmodified", "%s.%s" % (cl.name, a), cl.module.path.replace(REPO + "/", ""), "unknown" if unk else "proved",
                     "stores %d, in-place changes %d" % (len(stored.get(a, [])), len(muts.get(a, []))))
            if a in handed and a in muts:
                mm = [x for x in muts[a] if x[2].name != "__init__" and not x[1]]
                c.ob("handed.unmodified", "%s.%s" % (cl.name, a), handed[a][0].where(), "refuted" if mm else "unknown",
                     "%s hands out self.%s and %s changes it in place" % (handed[a][0].qual, a, muts[a][0][2].qual))
    c.analysed |= {f.qual for f in repo.all_funcs()}
