"""C20: every public path runs on names, locals, attributes, arguments and values that exist; no debugger calls."""
import ast, builtins, os, glob
from .repo import *
from .assign import check_function, completes, mark_chains
from .rule import *

BUILTIN = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__package__", "__spec__", "__class__",
                                "__module__", "__qualname__"}

# what an attribute of that name holds, for the objects the library hands around
FAMILY = {"model": ("Model",), "cov_func": ("KernelFunc",), "active_learner": ("ActiveLearner",),
          "pairwise_l": ("ActiveLearner",), "abs_l": ("ActiveLearner",), "abs_comp": ("ActiveLearner",),
          "kernel1": ("KernelFunc",), "kernel2": ("KernelFunc",)}


def own_nodes(fnode):
    """nodes of a function body without nested function/class bodies (comprehensions and lambdas included)"""
    todo = live(fnode.body) if isinstance(fnode.body, list) else [fnode.body]
    while todo:
        n = todo.pop(0)
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        kids = []
        for fld, v in ast.iter_fields(n):
            if isinstance(v, list):
                kids += live([x for x in v if isinstance(x, ast.AST)])
            elif isinstance(v, ast.AST):
                kids.append(v)
        todo = kids + todo


def live(stmts):
    """a block up to the statement control never gets past"""
    out = []
    for s in stmts:
        out.append(s)
        if isinstance(s, ast.stmt) and (isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)) or
                                        isinstance(s, ast.If) and s.orelse and not completes([s])):
            break
    return out


def all_params(fnode):
    a = fnode.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


# ---------------------------------------------------------------- (a) names
def all_nodes(fnode):
    """like own_nodes, unreachable statements included"""
    todo = list(fnode.body) if isinstance(fnode.body, list) else [fnode.body]
    while todo:
        n = todo.pop(0)
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            todo = list(ast.iter_child_nodes(n)) + todo


def bound_names(fnode):
    out = set(all_params(fnode))
    for n in all_nodes(fnode):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.Lambda):
            out |= set(all_params(n))
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.NamedExpr):
            out.add(n.target.id)
    return out


def module_has(repo, m, name):
    if name in m.sym or name in BUILTIN:
        return True
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Global) and name in n.names:
            return True
    r = repo.lookup(m, name)
    if r is not None:
        return True
    if isinstance(m.sym.get("*"), list):
        for mod in m.sym["*"]:
            if mod not in repo.modules:
                return None        # star import from outside
    # module level names bound in loops, comprehensions, with ...
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == name:
            for f in ast.walk(m.tree):
                if isinstance(f, (ast.FunctionDef, ast.Lambda)) and any(x is n for x in ast.walk(f)):
                    break
            else:
                return True
    return False


def rule_names(c, repo):
    for f in repo.all_funcs():
        scope = set()
        p = f
        while p is not None:
            scope |= bound_names(p.node)
            p = p.parent
        bad = []
        unknown = False
        for n in own_nodes(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in scope:
                r = module_has(repo, f.module, n.id)
                if r is False:
                    bad.append(n)
                elif r is None:
                    unknown = True
        for n in bad:
            c.ob("names.defined", "%s uses %s" % (f.qual, n.id), f.where(n), "refuted",
                 "name %s is not defined in the function, its module or the builtins" % n.id)
        if not bad:
            c.ob("names.defined", f.qual, f.where(), "unknown" if unknown else "proved")
    for m in repo.modules.values():
        if getattr(m, "fixture", False):
            continue
        for nm, v in sorted(m.sym.items()):
            if isinstance(v, tuple) and v[0] == "from" and v[1].split(".")[0] == repo.pkg:
                ok = repo.lookup(m, nm) is not None or (v[1] + "." + v[2]) in repo.modules
                c.ok("names.import", "%s imports %s" % (m.name, nm), m.path.replace(REPO + "/", ""), ok,
                     "%s has no %s" % (v[1], v[2]))


# ---------------------------------------------------------------- (b) locals
def rule_locals(c, repo):
    for f in repo.all_funcs():
        d = check_function(f.node)
        for name, node, text, definite in d.reports:
            c.ob("names.assigned", "%s reads %s" % (f.qual, name), f.where(node), "refuted",
                 "local %s may be read before it is assigned: %s" % (name, text))
        if not d.reports:
            c.ob("names.assigned", f.qual, f.where(), "proved" if not d.uncertain else "unknown")


# ---------------------------------------------------------------- (c) attributes
def class_attr_sets(repo):
    """class -> names assigned on self in its own methods or body; and names set on other objects anywhere"""
    own, outside = {}, set()
    for cl in repo.classes.values():
        s = set(cl.attrs) | set(cl.methods)
        for m in cl.methods.values():
            me = m.node.args.args[0].arg if m.node.args.args and not m.static else None
            for n in ast.walk(m.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    if isinstance(n.value, ast.Name) and n.value.id == me:
                        s.add(n.attr)
                    else:
                        outside.add(n.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr":
                    outside.add("*")
        own[cl] = s
    for f in repo.all_funcs():
        if f.cls is None:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    outside.add(n.attr)
    return own, outside


def has_ext_base(repo, cl):
    return any(not isinstance(b, Class) and not (isinstance(b, Ext) and b.name == "object") and b is not None
               for k in repo.mro(cl) for b in k.bases) or any(b is None for k in repo.mro(cl) for b in k.bases
                                                               if not (isinstance(b, Ext)))


def guarded_attrs(fnode, me):
    """attributes whose reads are protected by hasattr or a try"""
    out = set()
    for n in ast.walk(fnode):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("hasattr", "getattr") and \
                len(n.args) >= 2 and isinstance(n.args[1], ast.Constant):
            out.add(n.args[1].value)
        if isinstance(n, ast.Try) and n.handlers:
            for b in n.body:
                for x in ast.walk(b):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                        out.add(x.attr)
    return out


OBJ = set(dir(object)) | {"__dict__"}


def rule_attrs(c, repo):
    own, outside = class_attr_sets(repo)
    if "*" in outside:
        c.ob("names.attribute", "setattr with computed names", "?", "unknown", "dynamic attributes")
        return
    fam = {}

    def family_attrs(names):
        if names not in fam:
            s = set()
            for n in names:
                cl = repo.classes.get(n)
                if cl is None:
                    fam[names] = None
                    return None
                for k in repo.subclasses(cl):
                    if has_ext_base(repo, k):
                        fam[names] = None
                        return None
                    for b in repo.mro(k):
                        s |= own[b]
            fam[names] = s | outside | OBJ
        return fam[names]

    for cl in sorted(repo.classes.values(), key=lambda k: k.name):
        if getattr(cl.module, "fixture", False) or has_ext_base(repo, cl):
            continue
        mro = repo.mro(cl)
        have = set(outside) | OBJ
        for k in mro:
            have |= own[k]
        subs = repo.subclasses(cl)
        if len(subs) > 1 and not instantiated(repo, cl):
            # only its subclasses are ever built: what they have counts
            sub_have = [have | set().union(*[own[b] for b in repo.mro(k)]) for k in subs[1:]]
            have = set.union(*sub_have) if sub_have else have
        for k in mro:
            for m in k.methods.values():
                if repo.method(cl, m.name) is not m or m.static or not m.node.args.args:
                    continue
                me = m.node.args.args[0].arg
                g = guarded_attrs(m.node, me)
                bad = {}
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) \
                            and n.value.id == me and n.attr not in have and n.attr not in g:
                        bad.setdefault(n.attr, n)
                for a, n in bad.items():
                    c.ob("names.attribute", "%s.%s reads self.%s" % (cl.name, m.name, a), m.where(n), "refuted",
                         "no method of %s or its bases ever sets %s" % (cl.name, a))
                if not bad:
                    c.ob("names.attribute", "%s.%s" % (cl.name, m.name), m.where(), "proved")
    # attributes of the objects handed around
    for f in repo.all_funcs():
        g = guarded_attrs(f.node, None)
        tests = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)
                 and n.func.id in ("isinstance", "hasattr")]
        for n in own_nodes(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Attribute) and \
                    n.value.attr in FAMILY and n.attr not in g:
                s = family_attrs(FAMILY[n.value.attr])
                if s is None:
                    continue
                c.ok("names.attribute", "%s reads .%s.%s" % (f.qual, n.value.attr, n.attr), f.where(n), n.attr in s,
                     "no class of the %s family has an attribute %s" % (FAMILY[n.value.attr][0], n.attr))


def instantiated(repo, cl):
    """constructed somewhere in the package, or concrete by having no NotImplementedError method"""
    for k in repo.mro(cl):
        for m in k.methods.values():
            if repo.method(cl, m.name) is m and is_stub(m.node):
                return False
    return True


def is_stub(fnode):
    body = [s for s in fnode.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return bool(body) and any(isinstance(s, ast.Raise) for s in body[:2]) and all(
        isinstance(s, (ast.Raise, ast.Return, ast.Pass, ast.Assign)) for s in body) and isinstance(body[0], (ast.Raise, ast.Return)) \
        and any(isinstance(s, ast.Raise) and "NotImplemented" in ast.dump(s) for s in body)


# ---------------------------------------------------------------- first call after construction
class CtorState:
    """attributes set by constructing an object (all paths), and by running a method (all paths that return)"""

    def __init__(self, repo, cl):
        self.repo, self.cl = repo, cl
        self.memo = {}

    def must(self, m, depth=0):
        key = m
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = frozenset()
        me = m.node.args.args[0].arg if m.node.args.args else None
        r = self.block(m.node.body, frozenset(), m, me, depth)
        res = [x for x in r if x is not None]
        out = frozenset.intersection(*res) if res else None      # None: never returns
        self.memo[key] = out if out is not None else frozenset()
        return self.memo[key]

    # returns list of end states: first element = fallthrough state or None, others = return states
    def block(self, stmts, st, m, me, depth):
        rets = []
        cur = st
        for s in stmts:
            if cur is None:
                break
            cur, rr = self.stmt(s, cur, m, me, depth)
            rets += rr
        return [cur] + rets

    def calls(self, node, st, m, me, depth):
        for n in ast.walk(node):
            if isinstance(n, ast.Call) and depth < 12:
                t = None
                fn = n.func
                if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == me:
                    t = self.repo.method(self.cl, fn.attr)
                elif isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) \
                        and fn.value.func.id == "super" and m.cls is not None:
                    t = self.repo.method(self.cl, fn.attr, after=m.cls)
                elif isinstance(fn, ast.Attribute) and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == me:
                    b = self.repo.resolve_expr(m.module, fn.value)
                    if isinstance(b, Class):
                        t = self.repo.method(b, fn.attr)
                if t is not None:
                    st = st | self.must(t, depth + 1)
        return st

    def stores(self, node, st, me):
        for n in ast.walk(node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                st = st | {n.attr}
        return st

    def stmt(self, s, st, m, me, depth):
        if isinstance(s, ast.Return):
            if s.value is not None:
                st = self.calls(s.value, st, m, me, depth)
            return None, [st]
        if isinstance(s, (ast.Raise, ast.Break, ast.Continue)):
            return None, []
        if isinstance(s, ast.If):
            st = self.calls(s.test, st, m, me, depth)
            a = self.block(s.body, st, m, me, depth)
            b = self.block(s.orelse, st, m, me, depth)
            if not s.orelse and getattr(s, "_chain_end", False):
                b[0] = None
            cur = [x for x in (a[0], b[0]) if x is not None]
            cur = frozenset.intersection(*cur) if cur else None
            return cur, a[1:] + b[1:]
        if isinstance(s, (ast.For, ast.While)):
            st = self.calls(s.iter if isinstance(s, ast.For) else s.test, st, m, me, depth)
            if isinstance(s, ast.For):
                st = self.stores(s.target, st, me)
            a = self.block(s.body, st, m, me, depth)
            cur = a[0] if a[0] is not None else st
            return cur, a[1:]
        if isinstance(s, ast.Try):
            a = self.block(s.body + s.orelse, st, m, me, depth)
            outs = [a[0]]
            rets = a[1:]
            for h in s.handlers:
                x = self.block(h.body, st, m, me, depth)
                outs.append(x[0])
                rets += x[1:]
            outs = [x for x in outs if x is not None]
            cur = frozenset.intersection(*outs) if outs else None
            if s.finalbody:
                if cur is not None:
                    f = self.block(s.finalbody, cur, m, me, depth)
                    cur, rets = f[0], rets + f[1:]
            return cur, rets
        if isinstance(s, ast.With):
            a = self.block(s.body, st, m, me, depth)
            return a[0], a[1:]
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return st, []
        st = self.calls(s, st, m, me, depth)
        st = self.stores(s, st, me)
        return st, []


def rule_ctor(c, repo):
    """an attribute a method needs on its first statements exists once the object is constructed, unless a fit sets it"""
    own, outside = class_attr_sets(repo)
    for m in repo.all_funcs():
        mark_chains(m.node)
    for cl in sorted(repo.classes.values(), key=lambda k: k.name):
        if getattr(cl.module, "fixture", False) or has_ext_base(repo, cl):
            continue
        if len(repo.subclasses(cl)) > 1 and not instantiated(repo, cl):
            continue
        cs = CtorState(repo, cl)
        init = repo.method(cl, "__init__")
        have = cs.must(init) if init else frozenset()
        classattrs = set()
        for k in repo.mro(cl):
            classattrs |= set(k.attrs) | set(k.methods)
        later = {}
        for k in repo.mro(cl):
            for m in k.methods.values():
                if repo.method(cl, m.name) is not m or m.name == "__init__" or m.static or not m.node.args.args:
                    continue
                me = m.node.args.args[0].arg
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
                        later.setdefault(n.attr, []).append((m, n))
        for a, uses in sorted(later.items()):
            if a in have or a in classattrs or a in OBJ:
                c.ob("names.constructed", "%s.%s" % (cl.name, a), uses[0][0].where(uses[0][1]), "proved")
                continue
            # set later: only by a setter that always runs first; kept as the list the typestate rules care about
            setters = {m.name for m, n in uses if isinstance(n.ctx, ast.Store)}
            plain = [(m, n) for m, n in uses if isinstance(n.ctx, ast.Load) and a not in guarded_attrs(m.node, None)]
            aug = [(m, n) for m, n in uses if isinstance(n.ctx, ast.Store) and isaug(m.node, n)]
            if aug and all(isaug(m.node, n) for m, n in uses if isinstance(n.ctx, ast.Store)) and a not in outside:
                m, n = aug[0]
                c.ob("names.constructed", "%s.%s" % (cl.name, a), m.where(n), "refuted",
                     "updated in place but never set by constructing a %s" % cl.name)
                continue
            fit = repo.method(cl, "optimize")
            if fit is not None and setters & fit_closure(repo, cl, fit):
                c.ob("names.constructed", "%s.%s" % (cl.name, a), uses[0][0].where(uses[0][1]), "proved",
                     "part of the fit: set by optimize (C11 decides when it may be read)")
                continue
            need = Requires(repo, cs, a)
            bad = None
            for k in repo.mro(cl):
                for m in k.methods.values():
                    if repo.method(cl, m.name) is m and m.name != "__init__" and not m.static and m.node.args.args and \
                            not called_inside(repo, cl, m) and not m.name.startswith("_") and not is_stub(m.node):
                        bad = bad or need.of(m)
            if bad and a not in outside:
                m, n = bad
                c.ob("names.constructed", "%s.%s" % (cl.name, a), m.where(n), "refuted",
                     "read by %s before anything sets it: constructing a %s does not, nor does the path to here" % (m.qual, cl.name))
            elif plain:
                c.ob("names.constructed", "%s.%s" % (cl.name, a), plain[0][0].where(plain[0][1]), "unknown" if bad else "proved",
                     "set by %s, read under a condition on the object's state" % ", ".join(sorted(setters)))


def fit_closure(repo, cl, m, seen=None):
    seen = {m.name} if seen is None else seen
    for n in ast.walk(m.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self":
            t = repo.method(cl, n.attr)
            if t is not None and t.name not in seen:
                seen.add(t.name)
                fit_closure(repo, cl, t, seen)
    return seen


class Requires:
    """which methods of a class read attribute a, unconditionally as far as the object's state goes, before it is set"""

    def __init__(self, repo, cs, a):
        self.repo, self.cs, self.a, self.memo = repo, cs, a, {}

    def of(self, m):
        if m in self.memo:
            return self.memo[m]
        self.memo[m] = None
        me = m.node.args.args[0].arg if m.node.args.args and not m.static else None
        g = guarded_attrs(m.node, me)
        if me is None or self.a in g:
            return None
        for n in own_nodes(m.node):
            hit = None
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr == self.a and isinstance(n.value, ast.Name) and n.value.id == me:
                hit = (m, n)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == me:
                t = self.repo.method(self.cs.cl, n.func.attr)
                if t is not None and t is not m:
                    hit = self.of(t)
            if hit and not self.guarded(m, n, me) and not set_before(self.repo, self.cs, m, n, self.a):
                self.memo[m] = hit
                return hit
        return None

    def guarded(self, m, node, me):
        """inside, or after, a test of the object's state, or inside a try"""
        def state(t):
            return any(isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me and x.attr != self.a
                       for x in ast.walk(t)) or any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and
                                                    x.func.id in ("hasattr", "getattr", "isinstance") for x in ast.walk(t))

        def has(x):
            return any(y is node for y in ast.walk(x))
        for s in ast.walk(m.node):
            if isinstance(s, (ast.If, ast.While, ast.IfExp)):
                if has(s.test):
                    if isinstance(s.test, ast.BoolOp) and s.test.values and not has(s.test.values[0]) and state(s.test):
                        return True
                    continue
                if state(s.test) and (has(s) or s.lineno < node.lineno):
                    return True
            elif isinstance(s, ast.Try) and has(s):
                return True
            elif isinstance(s, ast.BoolOp) and has(s) and s.values and not has(s.values[0]) and state(s.values[0]):
                return True
        return False


def isaug(fnode, attr):
    for n in ast.walk(fnode):
        if isinstance(n, ast.AugAssign) and n.target is attr:
            return True
    return False


def set_before(repo, cs, m, node, a):
    """is attribute a assigned on every path of m before node"""
    me = m.node.args.args[0].arg
    found = []

    def go(stmts, st):
        for s in stmts:
            if any(x is node for x in ast.walk(s)):
                for fld in ("test", "iter", "value", "targets", "items"):
                    v = getattr(s, fld, None)
                    for e in (v if isinstance(v, list) else [v]):
                        if isinstance(e, ast.AST) and any(x is node for x in ast.walk(e)):
                            st2 = cs.calls(e, st, m, me, 0) if fld in ("value", "test") and not contains_first(e, node) else st
                            found.append(a in st2)
                            return
                for fld in ("body", "orelse", "finalbody"):
                    b = getattr(s, fld, None) or []
                    if any(x is node for y in b for x in ast.walk(y)):
                        if isinstance(s, ast.Try) and fld == "finalbody":
                            pass
                        if isinstance(s, (ast.If, ast.While)):
                            st = cs.calls(s.test, st, m, me, 0)
                        return go(b, st)
                for h in getattr(s, "handlers", []) or []:
                    if any(x is node for y in h.body for x in ast.walk(y)):
                        return go(h.body, st)
                found.append(a in st)
                return
            st2, _ = cs.stmt(s, st, m, me, 0)
            if st2 is None:
                return
            st = st2
    go(m.node.body, frozenset())
    return bool(found and found[0])


def contains_first(e, node):
    return True


def called_inside(repo, cl, m):
    for k in repo.mro(cl):
        for o in k.methods.values():
            if o is m or o.name == m.name:
                continue
            for n in ast.walk(o.node):
                if isinstance(n, ast.Attribute) and n.attr == m.name and isinstance(n.value, ast.Name) and \
                        o.node.args.args and n.value.id == o.node.args.args[0].arg:
                    return True
    return False


# ---------------------------------------------------------------- (d) calls
def bind_error(fnode, call, bound, skip_self):
    """why this call cannot bind to the signature, or None; unknown when starred"""
    a = fnode.args
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        star = True
    else:
        star = False
    pos = [x.arg for x in a.posonlyargs + a.args]
    if skip_self:
        if not pos and not a.vararg:
            return "takes no self"
        pos = pos[1:]
    kwonly = [x.arg for x in a.kwonlyargs]
    ndef = len(a.defaults)
    required = pos[:len(pos) - ndef] if ndef else pos
    if ndef > len(pos):
        required = []
    npos = len([x for x in call.args if not isinstance(x, ast.Starred)])
    if npos > len(pos) and not a.vararg:
        return "takes %d positional arguments but %d are given" % (len(pos), npos)
    given = set(pos[:npos])
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in given:
            return "argument %s is given twice" % k.arg
        if k.arg not in pos + kwonly and not a.kwarg:
            return "has no parameter %s" % k.arg
        given.add(k.arg)
    if not star:
        miss = [p for p in required if p not in given] + \
               [p for p, d in zip(kwonly, a.kw_defaults) if d is None and p not in given]
        if miss:
            return "misses argument %s" % ", ".join(miss)
    return None


def local_alias(fnode, name):
    return any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) for n in ast.walk(fnode)) or \
        name in all_params(fnode)


def resolve_call(repo, f, call):
    """[(target Func, skip_self, label)] the call may reach; [] unknown"""
    fn = call.func
    encl = f
    while encl.parent is not None:
        encl = encl.parent
    me = encl.node.args.args[0].arg if encl.cls is not None and not encl.static and encl.node.args.args else None
    if isinstance(fn, ast.Name):
        p = f
        while p is not None:
            if fn.id in bound_names(p.node):
                for n in own_nodes(p.node):
                    if isinstance(n, ast.FunctionDef) and n.name == fn.id:
                        return [(Func(n, f.module, None, p), False, fn.id)]
                return []
            p = p.parent
        t = repo.lookup(f.module, fn.id)
        if isinstance(t, Func):
            alts = t.module.alts.get(t.name, [t])
            return [(x, False, fn.id) for x in alts] if len(alts) == 1 else [(t, False, fn.id)]
        if isinstance(t, Class):
            i = repo.method(t, "__init__")
            if i is not None and not has_ext_base(repo, t):
                return [(i, True, t.name)]
        return []
    if isinstance(fn, ast.Attribute):
        v = fn.value
        if isinstance(v, ast.Name) and v.id == me and encl.cls is not None:
            out = []
            for k in repo.subclasses(encl.cls):
                if repo.method(k, encl.name) is not encl or has_ext_base(repo, k):
                    continue
                if fn.attr in stored_attrs(repo, k):
                    return []
                t = repo.method(k, fn.attr)
                if t is not None and (t, not t.static) not in [(x[0], x[1]) for x in out]:
                    out.append((t, not t.static, "%s.%s" % (k.name, fn.attr)))
            return out
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and encl.cls is not None:
            t = repo.method(encl.cls, fn.attr, after=encl.cls)
            return [(t, True, "super().%s" % fn.attr)] if t is not None else []
        r = repo.resolve_expr(f.module, v) if not (isinstance(v, ast.Name) and local_alias(f.node, v.id)) else None
        if isinstance(r, Module):
            t = repo.lookup(r, fn.attr)
            if isinstance(t, Func):
                return [(t, False, fn.attr)]
            if isinstance(t, Class):
                i = repo.method(t, "__init__")
                return [(i, True, t.name)] if i is not None and not has_ext_base(repo, t) else []
        if isinstance(r, Class):
            t = repo.method(r, fn.attr)
            return [(t, False, "%s.%s" % (r.name, fn.attr))] if t is not None else []
        # objects handed around: every class of the family that has the method
        fam = None
        if isinstance(v, ast.Attribute) and v.attr in FAMILY:
            fam = FAMILY[v.attr]
        elif isinstance(v, ast.Subscript) and isinstance(v.value, ast.Attribute) and v.value.attr == "probits":
            fam = ("ProbitBase",)
        elif isinstance(v, ast.Name) and v.id == "probit":
            fam = ("ProbitBase",)
        if fam:
            out = []
            for nme in fam:
                if nme in repo.classes:
                    for k in repo.subclasses(repo.classes[nme]):
                        t = repo.method(k, fn.attr)
                        if t is not None and t not in [x[0] for x in out]:
                            out.append((t, not t.static, "%s.%s" % (k.name, fn.attr)))
            return [("family", out)] if out else []
    return []


_stored = {}


def stored_attrs(repo, k):
    if (id(repo), k) not in _stored:
        s = set()
        for b in repo.mro(k):
            for m in b.methods.values():
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        s.add(n.attr)
        _stored[(id(repo), k)] = s
    return _stored[(id(repo), k)]


def rule_calls(c, repo):
    for f in repo.all_funcs():
        for n in own_nodes(f.node):
            if not isinstance(n, ast.Call):
                continue
            ts = resolve_call(repo, f, n)
            if ts and ts[0][0] == "family":
                errs = [bind_error(t.node, n, None, sk) for t, sk, lb in ts[0][1] if not is_stub(t.node)]
                if errs:
                    bad = all(errs)
                    c.ob("calls.arity", "%s calls .%s" % (f.qual, n.func.attr), f.where(n),
                         "refuted" if bad else "proved", errs[0] if bad else "")
                continue
            for t, sk, lb in ts:
                e = bind_error(t.node, n, None, sk)
                c.ob("calls.arity", "%s calls %s" % (f.qual, lb), f.where(n), "refuted" if e else "proved",
                     "%s %s" % (lb, e) if e else "")


# ---------------------------------------------------------------- (e) values
def value_returns(fnode):
    return [n for n in own_nodes(fnode) if isinstance(n, ast.Return) and n.value is not None and
            not (isinstance(n.value, ast.Constant) and n.value.value is None)]


def is_gen(fnode):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(fnode))


def only_raises(fnode):
    return not completes(fnode.body) and not [n for n in own_nodes(fnode) if isinstance(n, ast.Return)]


def documented_return(f):
    """a '@return' line in the comment block in front of the function"""
    lines = f.module.src.split("\n")
    i = f.node.lineno - 2
    while i >= 0 and lines[i].strip().startswith("@"):
        i -= 1
    while i >= 0 and lines[i].strip().startswith("#"):
        if "@return" in lines[i]:
            return True
        i -= 1
    return False


def rule_values(c, repo):
    used = {}
    for f in repo.all_funcs():
        parents = {}
        for n in own_nodes(f.node):
            for ch in ast.iter_child_nodes(n):
                parents[ch] = n
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call):
                p = parents.get(n)
                if p is None or isinstance(p, ast.Expr):
                    continue
                for t in resolve_call(repo, f, n):
                    for tt in (t[1] if t[0] == "family" else [t]):
                        if "__init__" != tt[0].name:
                            used.setdefault(tt[0].node, []).append((f, n))
    for f in repo.all_funcs():
        mark_chains(f.node)
        if is_gen(f.node) or only_raises(f.node) or f.name == "__init__":
            continue
        vals = value_returns(f.node)
        doc = documented_return(f)
        if not vals:
            body = [s for s in f.node.body if not isinstance(s, (ast.Pass,)) and
                    not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
            nones = [n for n in own_nodes(f.node) if isinstance(n, ast.Return) and n.value is not None]
            if f.node in used and not nones:
                g, n = used[f.node][0]
                c.ob("values.returned", f.qual, f.where(), "refuted",
                     "never returns a value, but %s (%s) uses its result" % (g.qual, g.where(n)))
            elif body and not has_effect(f.node):
                c.ob("values.returned", f.qual, f.where(), "refuted", "computes a value and neither returns nor stores it")
            elif doc and not nones:
                c.ob("values.returned", f.qual, f.where(), "refuted", "documented @return, but never returns a value")
            else:
                c.ob("values.returned", f.qual, f.where(), "proved")
        else:
            bare = [n for n in own_nodes(f.node) if isinstance(n, ast.Return) and n.value is None]
            if completes(f.node.body) and not ends_in_loop(f.node.body):
                c.ob("values.returned", f.qual, f.where(), "refuted" if not loose(f.node.body) else "unknown",
                     "returns a value on some paths and runs off its end on others")
            elif bare and all_params(f.node):
                c.ob("values.returned", f.qual, f.where(bare[0]), "refuted",
                     "returns a value on some paths and nothing on others")
            else:
                c.ob("values.returned", f.qual, f.where(), "proved")
        # tuples
        lens = set()
        for n in vals:
            lens.add(len(n.value.elts) if isinstance(n.value, ast.Tuple) else None)
        if lens and None not in lens and f.node in used:
            for g, n in used[f.node]:
                k = unpack_len(g.node, n)
                if k is not None:
                    fits = k in lens
                    c.ob("values.unpack", "%s unpacks %s" % (g.qual, f.qual), g.where(n),
                         "proved" if fits else "refuted", "%s values unpacked from a tuple of %s" % (k, sorted(lens)))


def unpack_len(fnode, call):
    for n in ast.walk(fnode):
        if isinstance(n, ast.Assign) and n.value is call and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Tuple, ast.List)) \
                and not any(isinstance(x, ast.Starred) for x in n.targets[0].elts):
            return len(n.targets[0].elts)
    return None


def loose(stmts):
    """a fall-through through a dispatch whose tests may well be complete"""
    return False


def ends_in_loop(stmts):
    """search loops that return from inside: whether they always find something is a value question"""
    s = stmts[-1] if stmts else None
    if isinstance(s, (ast.For, ast.While)):
        return any(isinstance(n, ast.Return) for n in ast.walk(s))
    if isinstance(s, ast.If):
        return ends_in_loop(s.body) or ends_in_loop(s.orelse)
    if isinstance(s, ast.With):
        return ends_in_loop(s.body)
    return False


def has_effect(fnode):
    params = set(all_params(fnode))
    for n in own_nodes(fnode):
        if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
            base = n
            while isinstance(base, (ast.Attribute, ast.Subscript)):
                base = base.value
            if isinstance(base, ast.Name) and base.id in params:
                return True
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            return True
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            return True
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id in params:
            return True
    return False


# ---------------------------------------------------------------- (f) debugger
DEBUG = {"pdb.set_trace", "pdb.post_mortem", "ipdb.set_trace", "pudb.set_trace", "code.interact", "pdb.run", "pdb.runcall",
         "IPython.embed", "os._exit", "sys.exit", "breakpoint", "exit", "quit", "input"}


def rule_debug(c, repo):
    for m in repo.modules.values():
        if getattr(m, "fixture", False):
            continue
        bad = []
        calls = 0
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                calls += 1
                nm = dotted(repo, m, n.func)
                if nm in DEBUG:
                    bad.append((n, nm))
        for n, nm in bad:
            fn = [f for f in repo.all_funcs() if f.module is m and any(x is n for x in ast.walk(f.node))]
            c.ob("debugger", "%s in %s" % (nm, fn[-1].qual if fn else m.name), "%s:%d" % (os.path.relpath(m.path, REPO), n.lineno),
                 "refuted", "%s stops the program for an interactive session" % nm)
        if not bad:
            c.ob("debugger", m.name, os.path.relpath(m.path, REPO), "proved", "%d calls" % calls)


def dotted(repo, m, e):
    if isinstance(e, ast.Name):
        if e.id in ("breakpoint", "exit", "quit", "input") and e.id not in m.sym:
            return e.id
        r = repo.lookup(m, e.id)
        if isinstance(r, Ext):
            return r.name
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if (a.asname or a.name) == e.id:
                        return a.name
        return None
    if isinstance(e, ast.Attribute):
        b = dotted(repo, m, e.value)
        return b + "." + e.attr if b else None
    return None


# ---------------------------------------------------------------- (h) dispatch on strings
def chain_arms(test_chain):
    """subject node, set of literal strings, ends in raise"""
    arms, node, subj = set(), test_chain, None
    while True:
        lits, sb = set(), None
        for t in (node.test.values if isinstance(node.test, ast.BoolOp) and isinstance(node.test.op, ast.Or) else [node.test]):
            if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.Is)) and \
                    isinstance(t.comparators[0], ast.Constant) and isinstance(t.comparators[0].value, str):
                lits.add(t.comparators[0].value)
                sb = ast.dump(t.left) if sb in (None, ast.dump(t.left)) else False
            elif isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.In) and \
                    isinstance(t.comparators[0], (ast.Tuple, ast.List, ast.Set)) and \
                    all(isinstance(x, ast.Constant) for x in t.comparators[0].elts):
                lits |= {x.value for x in t.comparators[0].elts}
                sb = ast.dump(t.left) if sb in (None, ast.dump(t.left)) else False
            else:
                return None
        if not sb or (subj is not None and sb != subj):
            return None
        subj = sb
        subj_node = node.test.left if isinstance(node.test, ast.Compare) else node.test.values[0].left
        arms |= lits
        if len(node.orelse) == 1 and isinstance(node.orelse[0], ast.If):
            node = node.orelse[0]
            continue
        ends = bool(node.orelse) and any(isinstance(x, ast.Raise) for x in node.orelse)
        return subj_node, arms, ends


def rule_dispatch(c, repo):
    by_param, by_attr = {}, {}
    for f in repo.all_funcs():
        heads = set()
        for n in own_nodes(f.node):
            if isinstance(n, ast.If) and n not in heads:
                x = n
                while len(x.orelse) == 1 and isinstance(x.orelse[0], ast.If):
                    x = x.orelse[0]
                    heads.add(x)
                r = chain_arms(n)
                if r is None or not r[2]:
                    continue
                subj, arms, _ = r
                if isinstance(subj, ast.Name) and subj.id in all_params(f.node) and not any(
                        isinstance(z, ast.Name) and z.id == subj.id and isinstance(z.ctx, ast.Store) for z in ast.walk(f.node)):
                    by_param.setdefault(f.node, {})[subj.id] = (arms, f, n)
                elif isinstance(subj, ast.Attribute) and isinstance(subj.value, ast.Name) and f.cls is not None and \
                        f.node.args.args and subj.value.id == f.node.args.args[0].arg:
                    by_attr.setdefault((f.cls, subj.attr), []).append((arms, f, n))
    # attributes copied from a constructor parameter
    for (cl, attr), chains in by_attr.items():
        for k in repo.subclasses(cl):
            init = repo.method(k, "__init__")
            if init is None:
                continue
            for n in ast.walk(init.node):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == attr for t in n.targets):
                    if isinstance(n.value, ast.Name) and n.value.id in all_params(init.node):
                        for arms, f, ch in chains:
                            old = by_param.setdefault(init.node, {}).get(n.value.id)
                            by_param[init.node][n.value.id] = ((old[0] & arms) if old else arms, init, ch)
                    elif isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
                        for arms, f, ch in chains:
                            c.ok("dispatch.constant", "%s.%s" % (k.name, attr), init.where(n), n.value.value in arms,
                                 "%r is none of %s, so %s raises" % (n.value.value, sorted(arms), f.qual))
    for node, ps in by_param.items():
        for p, (arms, f, ch) in ps.items():
            a = node.args
            pos = a.posonlyargs + a.args
            for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
                if x.arg == p and isinstance(d, ast.Constant) and isinstance(d.value, str):
                    c.ok("dispatch.default", "%s %s" % (f.qual, p), f.where(d), d.value in arms,
                         "default %r is none of the values handled: %s" % (d.value, sorted(arms)))
    for g in repo.all_funcs():
        for n in own_nodes(g.node):
            if not isinstance(n, ast.Call):
                continue
            for t in resolve_call(repo, g, n):
                for tt in (t[1] if t[0] == "family" else [t]):
                    ps = by_param.get(tt[0].node)
                    if not ps:
                        continue
                    names = [x.arg for x in tt[0].node.args.posonlyargs + tt[0].node.args.args][1 if tt[1] else 0:]
                    args = dict(zip(names, n.args))
                    args.update({k.arg: k.value for k in n.keywords if k.arg})
                    for p, (arms, f, ch) in ps.items():
                        v = args.get(p)
                        if isinstance(v, ast.Constant) and isinstance(v.value, str):
                            c.ok("dispatch.argument", "%s calls %s(%s=%r)" % (g.qual, tt[2], p, v.value), g.where(n),
                                 v.value in arms, "%r is none of the values handled: %s" % (v.value, sorted(arms)))


def rule_keys(c, repo):
    """literal keys of dictionaries held in attributes exist in the literal the attribute is built from"""
    for cl in sorted(repo.classes.values(), key=lambda k: k.name):
        if getattr(cl.module, "fixture", False):
            continue
        lits, other = {}, set()
        for k in repo.mro(cl):
            for m in k.methods.values():
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                                if isinstance(n.value, ast.Dict) and all(isinstance(x, ast.Constant) for x in n.value.keys):
                                    lits.setdefault(t.attr, set()).update(x.value for x in n.value.keys)
                                else:
                                    other.add(t.attr)
                            if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and isinstance(t.slice, ast.Constant):
                                lits.setdefault("+" + t.value.attr, set()).add(t.slice.value)
        for a, keys in sorted(lits.items()):
            if a.startswith("+") or a in other:
                continue
            keys = keys | lits.get("+" + a, set())
            for k in [cl]:
                for m in k.methods.values():
                    for n in ast.walk(m.node):
                        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Constant) and \
                                isinstance(n.value, ast.Attribute) and n.value.attr == a and isinstance(n.value.value, ast.Name) and n.value.value.id == "self":
                            c.ok("dispatch.key", "%s self.%s[%r]" % (m.qual, a, n.slice.value), m.where(n), n.slice.value in keys,
                                 "keys are %s" % sorted(map(str, keys)))


# ---------------------------------------------------------------- numpy names
def stub_names(mod):
    """names a numpy/math module has according to its installed type stub"""
    for base in sorted(glob.glob("/opt/venv/lib/python3*/site-packages")):
        p = os.path.join(base, *mod.split("."), "__init__.pyi")
        if os.path.exists(p):
            try:
                t = ast.parse(open(p, encoding="utf-8").read())
            except SyntaxError:
                return None
            out = set()
            for n in ast.walk(t):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    out.add(n.name)
                elif isinstance(n, ast.ImportFrom):
                    if any(a.name == "*" for a in n.names):
                        return None
                    out |= {a.asname or a.name for a in n.names}
                elif isinstance(n, ast.Import):
                    out |= {(a.asname or a.name).split(".")[0] for a in n.names}
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
            d = os.path.dirname(p)
            for x in os.listdir(d):
                out.add(x.split(".")[0])
            return out
    return None


def rule_external(c, repo):
    cache = {}
    import math
    for m in repo.modules.values():
        if getattr(m, "fixture", False):
            continue
        seen = set()
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Attribute):
                continue
            b = repo.resolve_expr(m, n.value)
            if not isinstance(b, Ext):
                continue
            if isinstance(n.value, ast.Name):
                pass
            mod = b.name
            if mod not in cache:
                cache[mod] = set(dir(math)) if mod == "math" else stub_names(mod) if mod.split(".")[0] == "numpy" else None
            names = cache[mod]
            if names is None or (mod, n.attr) in seen:
                continue
            seen.add((mod, n.attr))
            c.ok("names.external", "%s uses %s.%s" % (m.name, mod, n.attr), "%s:%d" % (os.path.relpath(m.path, REPO), n.lineno),
                 n.attr in names, "%s has no %s" % (mod, n.attr))


def c20(c):
    repo = c.repo
    rule_names(c, repo)
    rule_locals(c, repo)
    rule_attrs(c, repo)
    rule_ctor(c, repo)
    rule_calls(c, repo)
    rule_values(c, repo)
    rule_debug(c, repo)
    rule_dispatch(c, repo)
    rule_keys(c, repo)
    rule_external(c, repo)
    c.analysed |= {f.qual for f in repo.all_funcs()}
