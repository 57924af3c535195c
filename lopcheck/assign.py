"""Definite assignment of local variables over structured control flow.

For every local variable the analysis keeps the set of condition cubes under which it is still unassigned. A cube is a
tuple of literals (condition, polarity). Loops are assumed to run at least once, a dispatch chain (two or more tests of
the same subject, no else) is assumed exhaustive, and exception handlers are assumed to start after the whole try body.
A read is reported only when a cube survives that no condition guarding the read contradicts or may be correlated with."""
import ast, builtins

NOWHERE = None


def subject(test):
    """the thing a dispatch test is about, or None"""
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Eq, ast.Is, ast.In)):
        return ast.dump(test.left)
    if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance" and test.args:
        return ast.dump(test.args[0])
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return None
    if isinstance(test, ast.BoolOp):
        s = {subject(v) for v in test.values}
        return s.pop() if len(s) == 1 else None
    return None


def exhaustive_chain(node):
    """if/elif chain of two or more arms about one subject without an else"""
    subs, n = [], node
    while True:
        subs.append(subject(n.test))
        if len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If):
            n = n.orelse[0]
            continue
        break
    return not n.orelse and len(subs) >= 2 and None not in subs and len(set(subs)) == 1


class Lit:
    __slots__ = ("key", "pol", "vars", "anc", "loop")

    def __init__(self, key, pol, vars_, anc, loop):
        self.key, self.pol, self.vars, self.anc, self.loop = key, pol, vars_, anc, loop

    def __eq__(self, o):
        return self.key == o.key and self.pol == o.pol

    def __hash__(self):
        return hash((self.key, self.pol))

    def neg(self):
        return Lit(self.key, not self.pol, self.vars, self.anc, self.loop)


def merge(ua, ub, lit):
    """cubes after an if: ua under lit, ub under its negation"""
    out = set()
    for k in ua:
        if k in ub:
            out.add(k)
        else:
            out.add(k + (lit,))
    for k in ub:
        if k not in ua:
            out.add(k + (lit.neg(),))
    if len(out) > 40:
        return set()        # give up on this variable: no claim
    return out


class DefiniteAssignment:
    def __init__(self, fnode):
        self.f = fnode
        self.reports = []       # (name, node, text, definite)
        self.uncertain = 0
        self.reads = 0
        a = fnode.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        for x in (a.vararg, a.kwarg):
            if x:
                params.add(x.arg)
        self.locals = set()
        outer = set()
        for n in self.walk_own(fnode):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.locals.add(n.id)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                outer.update(n.names)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    self.locals.add((al.asname or al.name).split(".")[0])
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)) and n is not fnode:
                self.locals.add(n.name)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.locals.add(n.name)
        self.locals -= outer
        self.locals -= params
        self.version = {}
        self.dep = {}
        self.loopdepth = 0
        self.loops = 0
        self.breaks = []
        self.opaque = 0

    def walk_own(self, fnode):
        """nodes of this function's own scope (comprehension targets and nested functions excluded)"""
        todo = list(fnode.body)
        while todo:
            n = todo.pop()
            yield n
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                for w in ast.walk(n):
                    if isinstance(w, ast.NamedExpr):
                        yield w.target
                continue
            todo.extend(ast.iter_child_nodes(n))

    # ------------------------------------------------------------------
    def run(self):
        st = {v: {()} for v in self.locals}
        self.block(self.f.body, st, ())
        return self.reports

    def lit(self, test, guards):
        neg = False
        t = test
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t, neg = t.operand, not neg
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.IsNot, ast.NotEq, ast.NotIn)):
            m = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.NotIn: ast.In}[type(t.ops[0])]
            t = ast.Compare(t.left, [m()], t.comparators)
            neg = not neg
        vs = set()
        for n in ast.walk(t):
            if isinstance(n, ast.Name):
                vs.add(n.id)
                vs |= self.dep.get(n.id, set())
            elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
                vs.add(n.value.id + "." + n.attr)
                vs |= self.dep.get(n.value.id + "." + n.attr, set())
        vs.discard("self")
        vs.discard("np")
        vs -= set(dir(builtins))
        key = ast.dump(t) + "|" + ",".join("%s:%d" % (v, self.version.get(v, 0)) for v in sorted(vs))
        return Lit(key, not neg, frozenset(vs), tuple(guards), self.loops if self.loopdepth else 0)

    def assigned(self, st, name):
        self.version[name] = self.version.get(name, 0) + 1
        if name in st:
            st[name] = set()

    def store(self, st, target):
        for n in ast.walk(target):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.assigned(st, n.id)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                k = n.value.id + "." + n.attr
                self.version[k] = self.version.get(k, 0) + 1

    def read(self, st, name, node, guards, soft):
        cubes = st.get(name)
        if cubes is None:
            return
        self.reads += 1
        if not cubes:
            return
        bad = None
        for k in cubes:
            if not k:
                bad = k
                break
            if soft:
                self.uncertain += 1
                continue
            r = self.feasible(k, guards)
            if r is True:
                bad = k
                break
            if r is None:
                self.uncertain += 1
        if bad is None:
            return
        if any(x[0] == name for x in self.reports):
            return
        self.reports.append((name, node, " and ".join("%s is %s" % (self.show(l), l.pol) for l in bad) or "always", not bad))
        st[name] = set()

    def show(self, l):
        return getattr(l, "text", None) or l.key.split("|")[0][:80]

    def feasible(self, cube, guards):
        """True: the read is reachable under the cube; False: contradiction; None: cannot tell"""
        res = True
        lits = list(cube)
        for i, l in enumerate(lits):
            for g in list(guards) + lits[i + 1:]:
                if g is l:
                    continue
                if g.key == l.key:
                    if g.pol != l.pol:
                        return False
                    continue
                nested = (l in g.anc) or (g in l.anc)
                if nested:
                    continue
                if g.vars & l.vars:
                    res = None
        return res

    # ------------------------------------------------------------------
    def expr(self, e, st, guards, soft=False, bound=frozenset()):
        if e is None:
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id not in bound:
                self.read(st, e.id, e, guards, soft)
            return
        if isinstance(e, (ast.Lambda, ast.FunctionDef)):
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            b = set(bound)
            for i, g in enumerate(e.generators):
                self.expr(g.iter, st, guards, soft or i > 0, frozenset(b))
                b |= {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
                for c in g.ifs:
                    self.expr(c, st, guards, True, frozenset(b))
            for fld in ("elt", "key", "value"):
                if hasattr(e, fld):
                    self.expr(getattr(e, fld), st, guards, soft, frozenset(b))
            return
        if isinstance(e, ast.BoolOp):
            for i, v in enumerate(e.values):
                self.expr(v, st, guards, soft or i > 0, bound)
            return
        if isinstance(e, ast.IfExp):
            self.expr(e.test, st, guards, soft, bound)
            self.expr(e.body, st, guards, True, bound)
            self.expr(e.orelse, st, guards, True, bound)
            return
        if isinstance(e, ast.NamedExpr):
            self.expr(e.value, st, guards, soft, bound)
            self.assigned(st, e.target.id)
            return
        for c in ast.iter_child_nodes(e):
            self.expr(c, st, guards, soft, bound)

    def block(self, stmts, st, guards):
        """returns (completes normally, guards in force after the block)"""
        g = guards
        for s in stmts:
            ok, g = self.stmt(s, st, g)
            if not ok:
                return False, g
        return True, g

    def copy(self, st):
        return {k: set(v) for k, v in st.items()}

    def stmt(self, s, st, guards):
        if isinstance(s, ast.Assign):
            self.expr(s.value, st, guards)
            for t in s.targets:
                self.targets(t, st, guards)
            return True, guards
        if isinstance(s, ast.AugAssign):
            self.expr(s.value, st, guards)
            if isinstance(s.target, ast.Name):
                self.read(st, s.target.id, s, guards, False)
            else:
                self.expr(s.target, st, guards)
            self.store(st, s.target)
            return True, guards
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.expr(s.value, st, guards)
                self.targets(s.target, st, guards)
            return True, guards
        if isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                self.expr(c, st, guards)
            return False, guards
        if isinstance(s, (ast.Break, ast.Continue)):
            if self.breaks:
                self.breaks[-1].append((isinstance(s, ast.Break), self.copy(st)))
            return False, guards
        if isinstance(s, ast.If):
            return self.if_(s, st, guards)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.expr(s.iter, st, guards)
            self.loop(s, st, guards, s.target)
            return True, guards
        if isinstance(s, ast.While):
            self.expr(s.test, st, guards)
            forever = isinstance(s.test, ast.Constant) and bool(s.test.value)
            self.loop(s, st, guards, None, forever)
            return True, guards
        if isinstance(s, ast.Try) or type(s).__name__ == "TryStar":
            return self.try_(s, st, guards)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                self.expr(it.context_expr, st, guards)
                if it.optional_vars is not None:
                    self.targets(it.optional_vars, st, guards)
            return self.block(s.body, st, guards)
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in s.decorator_list:
                self.expr(d, st, guards)
            self.assigned(st, s.name)
            return True, guards
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for al in s.names:
                self.assigned(st, (al.asname or al.name).split(".")[0])
            return True, guards
        if isinstance(s, ast.Match):
            self.expr(s.subject, st, guards)
            for n in ast.walk(s):
                nm = n.id if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) else getattr(n, "name", None)
                if isinstance(nm, str):
                    self.assigned(st, nm)
            return True, guards
        if isinstance(s, (ast.Expr, ast.Assert, ast.Delete)):
            for c in ast.iter_child_nodes(s):
                if not isinstance(s, ast.Delete):
                    self.expr(c, st, guards)
            return True, guards
        return True, guards

    def targets(self, t, st, guards):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                self.read(st, n.id, n, guards, False)
        self.store(st, t)

    def if_(self, s, st, guards):
        self.expr(s.test, st, guards)
        lit = self.lit(s.test, guards)
        v0 = dict(self.version)
        a, b = self.copy(st), self.copy(st)
        oka, _ = self.block(s.body, a, guards + (lit,))
        okb, _ = self.block(s.orelse, b, guards + (lit.neg(),))
        if not s.orelse and self.chain_end(s):
            okb = False
        # variables assigned in either branch depend on the condition
        for v, n in self.version.items():
            if v0.get(v, 0) != n:
                self.dep[v] = self.dep.get(v, set()) | set(lit.vars) | {"#" + lit.key}
        if not oka and not okb:
            return False, guards
        if not oka:
            st.update(b)
            return True, guards + (lit.neg(),)
        if not okb:
            st.update(a)
            return True, guards + (lit,) if s.orelse else guards
        lit2 = Lit(lit.key, lit.pol, lit.vars | {"#" + lit.key}, lit.anc, lit.loop)
        for v in st:
            st[v] = merge(a[v], b[v], lit2)
        return True, guards

    def chain_end(self, s):
        return getattr(s, "_chain_end", False)

    def loop(self, s, st, guards, target, forever=False):
        self.loopdepth += 1
        self.loops += 1
        if target is not None:
            self.targets(target, st, guards)
        self.breaks.append([])
        before = self.copy(st)
        ok, _ = self.block(s.body, st, guards)
        ex = self.breaks.pop()
        self.loopdepth -= 1
        outs = [x for brk, x in ex]
        if ok and not forever:
            outs.append(st)
        if forever:
            outs = [x for brk, x in ex if brk]
        # after the loop: only what is unassigned on every way out, whatever the conditions inside were
        for v in st:
            if v in before and outs and all(() in o[v] for o in outs):
                st[v] = {()}
            elif v in before and before[v] and outs and all(before[v] <= o[v] for o in outs):
                st[v] = set(before[v])
            else:
                st[v] = set()
        if s.orelse:
            self.block(s.orelse, st, guards)

    def try_(self, s, st, guards):
        start = self.copy(st)
        ok, _ = self.block(s.body, st, guards)
        if ok and s.orelse:
            ok, _ = self.block(s.orelse, st, guards)
        names = set()
        for b in s.body + s.orelse:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    names.add(n.id)
        res = [st] if ok else []
        for h in s.handlers:
            x = {k: (set() if k in names else set(v)) for k, v in start.items()}
            if h.name:
                self.assigned(x, h.name)
            okh, _ = self.block(h.body, x, guards)
            if okh:
                res.append(x)
        if not res:
            self.block(s.finalbody, self.copy(start), guards)
            return False, guards
        for v in list(st):
            st[v] = set.intersection(*[r[v] for r in res]) if res else set()
        okf, _ = self.block(s.finalbody, st, guards)
        return okf, guards


def mark_chains(fnode):
    for n in ast.walk(fnode):
        if isinstance(n, ast.If) and exhaustive_chain(n):
            x = n
            while x.orelse:
                x = x.orelse[0]
            x._chain_end = True


def check_function(fnode):
    mark_chains(fnode)
    d = DefiniteAssignment(fnode)
    d.run()
    return d


def completes(stmts):
    """can control reach the end of this block (exhaustive chains assumed)"""
    for s in stmts:
        if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            return False
        if isinstance(s, ast.If):
            a = completes(s.body)
            b = completes(s.orelse) if s.orelse else not getattr(s, "_chain_end", False)
            if not a and not b:
                return False
        elif isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value:
            if not any(isinstance(n, ast.Break) for n in ast.walk(s)):
                return False
        elif isinstance(s, ast.Try):
            if (not completes(s.body + s.orelse) and all(not completes(h.body) for h in s.handlers)) or \
                    (s.finalbody and not completes(s.finalbody)):
                return False
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            if not completes(s.body):
                return False
        elif isinstance(s, ast.Match):
            if all(not completes(c.body) for c in s.cases):
                return False
    return True
