"""Parsed view of the repository: modules, classes, functions, resolved names. Never imports the code."""
import ast, os, hashlib

REPO = os.environ.get("LOPCHECK_REPO", "/repo")


class AnalysisBroken(Exception):
    """an anchor the analysis cannot do without is gone"""


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.sym = {}
        self.alts = {}
        self.is_pkg = os.path.basename(path) == "__init__.py"

    def __repr__(self):
        return "<Module %s>" % self.name


class Func:
    def __init__(self, node, module, cls=None, parent=None):
        self.node, self.module, self.cls, self.parent = node, module, cls, parent
        self.name = node.name if hasattr(node, "name") else "<lambda>"
        self.qual = ((cls.name + ".") if cls else "") + self.name
        self.static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in getattr(node, "decorator_list", []))
        self.clsmeth = any(isinstance(d, ast.Name) and d.id == "classmethod" for d in getattr(node, "decorator_list", []))
        self.prop = any(isinstance(d, ast.Name) and d.id == "property" for d in getattr(node, "decorator_list", []))

    def where(self, node=None):
        n = node or self.node
        return "%s:%s" % (os.path.relpath(self.module.path, REPO), getattr(n, "lineno", "?"))

    def __repr__(self):
        return "<Func %s>" % self.qual


class Class:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.methods, self.attrs, self.bases = {}, {}, []
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[s.name] = Func(s, module, self)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.attrs[s.target.id] = s.value

    def __repr__(self):
        return "<Class %s>" % self.name


class Ext:
    """a name outside the repository, e.g. numpy.sum"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<Ext %s>" % self.name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Fold(ast.NodeTransformer):
    """branches on a literal condition are decided when the source is loaded"""

    def visit_If(self, n):
        self.generic_visit(n)
        if not isinstance(n.test, ast.Constant):
            return n
        live, dead = (n.body, n.orelse) if n.test.value else (n.orelse, n.body)
        if any(isinstance(x, (ast.Name, ast.Yield, ast.YieldFrom)) and not isinstance(getattr(x, "ctx", None), ast.Load)
               for d in dead for x in ast.walk(d)):
            return n
        return live or ast.copy_location(ast.Pass(), n)

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return (n.body if n.test.value else n.orelse) if isinstance(n.test, ast.Constant) else n


class Repo:
    def __init__(self, root=None, pkg="lop"):
        self.root = root or os.path.join(REPO, "src")
        self.pkg = pkg
        self.modules = {}
        self.broken = []
        base = os.path.join(self.root, pkg)
        for d, dirs, files in sorted(os.walk(base)):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[:-9]
                    src = open(p, encoding="utf-8").read()
                    self.modules[rel] = Module(rel, p, Fold().visit(ast.parse(src, p)), src)
        if not self.modules:
            raise AnalysisBroken("no sources under " + base)
        for m in self.modules.values():
            self._symbols(m, m.tree.body)
        self.classes = {}
        for m in self.modules.values():
            for n, v in m.sym.items():
                if isinstance(v, Class) and v.module is m:
                    self.classes[n] = v
                    v.bases = [self.resolve_expr(m, b) for b in v.node.bases]
        self.subs = {}
        for c in self.classes.values():
            for b in c.bases:
                if isinstance(b, Class):
                    self.subs.setdefault(b, []).append(c)

    def add_source(self, name, text):
        """analysis fixture: a module that exists only for the analysis (e.g. a probe subclass)"""
        if name in self.modules:
            return self.modules[name]
        m = Module(name, os.path.join(self.root, name + ".py"), ast.parse(text), text)
        self.modules[name] = m
        self._symbols(m, m.tree.body)
        for n, v in m.sym.items():
            if isinstance(v, Class) and v.module is m:
                self.classes[n] = v
                v.bases = [self.resolve_expr(m, b) for b in v.node.bases]
        m.fixture = True
        return m

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(n.encode() + b"\0" + self.modules[n].src.encode())
        return h.hexdigest()[:16]

    def _symbols(self, m, body, weak=False):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(s, m)
                m.alts.setdefault(s.name, []).append(f)
                if not (weak and s.name in m.sym):
                    m.sym[s.name] = f
            elif isinstance(s, ast.ClassDef):
                if not (weak and s.name in m.sym):
                    m.sym[s.name] = Class(s, m)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    nm = a.asname or a.name.split(".")[0]
                    m.sym[nm] = ("import", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                mod = s.module or ""
                if s.level:
                    parts = m.name.split(".")
                    if not m.is_pkg:
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (s.level - 1)]
                    mod = ".".join(parts + ([s.module] if s.module else []))
                for a in s.names:
                    if a.name == "*":
                        m.sym.setdefault("*", []).append(mod)
                    else:
                        m.sym[a.asname or a.name] = ("from", mod, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            m.sym[n.id] = ("assign", s.value) if isinstance(t, ast.Name) else ("assign", None)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                m.sym[s.target.id] = ("assign", s.value)
            elif isinstance(s, ast.Try):
                self._symbols(m, s.body)
                for h in s.handlers:
                    self._symbols(m, h.body, weak=True)
                self._symbols(m, s.orelse)
                self._symbols(m, s.finalbody)
            elif isinstance(s, ast.If):
                self._symbols(m, s.body)
                self._symbols(m, s.orelse, weak=True)
            elif isinstance(s, (ast.With, ast.For, ast.While)):
                self._symbols(m, s.body)

    def lookup(self, m, name, depth=0):
        """module level name -> Class | Func | Ext | ('assign', node, module) | Module | None"""
        if depth > 12:
            return None
        v = m.sym.get(name)
        if v is None:
            for mod in m.sym.get("*", []) if isinstance(m.sym.get("*"), list) else []:
                mm = self.modules.get(mod)
                if mm:
                    r = self.lookup(mm, name, depth + 1)
                    if r is not None:
                        return r
            sub = self.modules.get(m.name + "." + name)
            return sub
        if isinstance(v, (Class, Func)):
            return v
        if v[0] == "import":
            return self.modules.get(v[1]) or Ext(v[1])
        if v[0] == "from":
            mm = self.modules.get(v[1])
            if mm is not None:
                r = self.lookup(mm, v[2], depth + 1)
                return r
            if v[1].split(".")[0] == self.pkg:
                return None
            return Ext(v[1] + "." + v[2])
        if v[0] == "assign":
            return ("assign", v[1], m)
        return None

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            return self.lookup(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value)
            if isinstance(b, Ext):
                return Ext(b.name + "." + e.attr)
            if isinstance(b, Module):
                return self.lookup(b, e.attr)
            if isinstance(b, Class):
                return self.method(b, e.attr)
        return None

    def mro(self, c):
        out, seen = [], set()

        def go(x):
            if isinstance(x, Class) and x not in seen:
                seen.add(x)
                out.append(x)
                for b in x.bases:
                    go(b)
        go(c)
        return out

    def method(self, c, name, after=None):
        ms = self.mro(c)
        if after is not None:
            ms = ms[ms.index(after) + 1:] if after in ms else ms
        for k in ms:
            if name in k.methods:
                return k.methods[name]
        return None

    def classattr(self, c, name):
        for k in self.mro(c):
            if name in k.attrs:
                return k.attrs[name], k
        return None

    def subclasses(self, c):
        out = [c]
        for s in self.subs.get(c, []):
            out += [x for x in self.subclasses(s) if x not in out]
        return out

    def cls(self, name):
        c = self.classes.get(name)
        if c is None:
            raise AnalysisBroken("class %s not found" % name)
        return c

    def func(self, name):
        """public utility function, wherever it is defined"""
        for m in self.modules.values():
            v = m.sym.get(name)
            if isinstance(v, Func):
                return v
        raise AnalysisBroken("function %s not found" % name)

    def all_funcs(self):
        """every function and method, including nested ones"""
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                pass
        out = []

        def go(body, m, cls, parent):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = None
                    if cls is not None and parent is None:
                        f = cls.methods.get(s.name)
                        if f is None or f.node is not s:
                            f = Func(s, m, cls)
                            f.shadowed = True
                    elif parent is None:
                        v = m.sym.get(s.name)
                        f = v if isinstance(v, Func) and v.node is s else Func(s, m)
                    else:
                        f = Func(s, m, None, parent)
                    out.append(f)
                    go(s.body, m, None, f)
                elif isinstance(s, ast.ClassDef):
                    v = m.sym.get(s.name)
                    c = v if isinstance(v, Class) and v.node is s else Class(s, m)
                    go(s.body, m, c, None)
                else:
                    for fld in ("body", "orelse", "finalbody"):
                        go(getattr(s, fld, []) or [], m, cls, parent)
                    for h in getattr(s, "handlers", []) or []:
                        go(h.body, m, cls, parent)
        for m in self.modules.values():
            if not getattr(m, "fixture", False):
                go(m.tree.body, m, None, None)
        return out
