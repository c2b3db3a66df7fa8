"""Program model: parses the repository's current sources and resolves modules, classes, MROs and names.

Nothing from /repo is imported or executed: every fact comes from `ast` trees of the files on disk.
"""
import ast
import os


class AnalysisBroken(Exception):
    """An anchor of an analysis vanished or the analysed code is outside what the engine understands."""


REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = os.path.join(REPO, "content", "lib")


class FuncInfo:
    __slots__ = ("name", "node", "module", "cls", "decorators", "qual", "is_prop", "is_setter", "is_static",
                 "is_class", "parent")

    def __init__(self, node, module, cls, qual, parent=None):
        self.node = node
        self.name = getattr(node, "name", "<lambda>")
        self.module = module
        self.cls = cls
        self.qual = qual
        self.parent = parent
        self.is_prop = self.is_setter = self.is_static = self.is_class = False
        for d in getattr(node, "decorator_list", []):
            if isinstance(d, ast.Name):
                if d.id == "property":
                    self.is_prop = True
                elif d.id == "staticmethod":
                    self.is_static = True
                elif d.id == "classmethod":
                    self.is_class = True
            elif isinstance(d, ast.Attribute) and d.attr == "setter":
                self.is_setter = True

    def __repr__(self):
        return "<F %s>" % self.qual

    @property
    def where(self):
        return "%s:%d" % (self.module.rel, self.node.lineno)

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


class ClassInfo:
    def __init__(self, node, module, outer, qual):
        self.node = node
        self.name = node.name
        self.module = module
        self.outer = outer
        self.qual = qual
        self.methods = {}
        self.setters = {}
        self.attrs = {}
        self.classes = {}
        self._mro = None
        self._collect(node.body)

    def _collect(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(st, self.module, self, self.qual + "." + st.name)
                if fi.is_setter:
                    self.setters[mangle(st.name, self)] = fi
                else:
                    self.methods[mangle(st.name, self)] = fi
            elif isinstance(st, ast.ClassDef):
                ci = ClassInfo(st, self.module, self, self.qual + "." + st.name)
                self.classes[st.name] = ci
                self.module.all_classes.append(ci)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[mangle(t.id, self)] = st.value
            elif isinstance(st, ast.AnnAssign):
                if isinstance(st.target, ast.Name) and st.value is not None:
                    self.attrs[mangle(st.target.id, self)] = st.value
            elif isinstance(st, (ast.If, ast.Try)):
                self._collect(st.body)

    def __repr__(self):
        return "<C %s>" % self.qual

    @property
    def mro(self):
        if self._mro is None:
            self._mro = self._linear()
        return self._mro

    def base_infos(self):
        out = []
        for b in self.node.bases:
            r = self.module.program.resolve_expr(self.module, b, self)
            out.append(r if isinstance(r, ClassInfo) else ast.unparse(b))
        return out

    def _linear(self):
        seqs = []
        bases = [b for b in self.base_infos() if isinstance(b, ClassInfo)]
        for b in bases:
            seqs.append(list(b.mro))
        seqs.append(list(bases))
        res = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return res
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                c = seqs[0][0]
            res.append(c)
            for s in seqs:
                if s and s[0] is c:
                    del s[0]

    @property
    def external_bases(self):
        out = []
        for c in self.mro:
            for b in c.base_infos():
                if not isinstance(b, ClassInfo):
                    out.append(b)
        return out

    def find(self, name):
        for c in self.mro:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_setter(self, name):
        for c in self.mro:
            if name in c.setters:
                return c.setters[name]
        return None

    def find_after(self, after, name):
        mro = self.mro
        i = mro.index(after) if after in mro else -1
        for c in mro[i + 1:]:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name):
        for c in self.mro:
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def find_class(self, name):
        for c in self.mro:
            if name in c.classes:
                return c.classes[name]
        return None

    def is_sub(self, other):
        return other in self.mro

    def mangle(self, name):
        return mangle(name, self)


def mangle(name, cls):
    if cls is not None and name.startswith("__") and not name.endswith("__"):
        return "_" + cls.name.lstrip("_") + name
    return name


class Module:
    def __init__(self, program, name, path, is_pkg):
        self.program = program
        self.name = name
        self.path = path
        self.rel = os.path.relpath(path, REPO)
        self.is_pkg = is_pkg
        with open(path, encoding="utf-8") as f:
            self.src = f.read()
        try:
            self.tree = ast.parse(self.src, path)
        except SyntaxError as e:
            raise AnalysisBroken("cannot parse %s: %s" % (self.rel, e))
        self.bind = {}
        self.all_classes = []
        self.star = []
        self._collect(self.tree.body)

    def _abs(self, node):
        if not node.level:
            return node.module or ""
        parts = self.name.split(".")
        drop = node.level - (1 if self.is_pkg else 0)
        if drop:
            parts = parts[:-drop]
        if node.module:
            parts = parts + node.module.split(".")
        return ".".join(parts)

    def bind_import(self, st, bind):
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    bind[a.asname] = ("module", a.name)
                else:
                    bind[a.name.split(".")[0]] = ("module", a.name.split(".")[0])
        else:
            mod = self._abs(st)
            for a in st.names:
                if a.name == "*":
                    self.star.append(mod)
                else:
                    bind[a.asname or a.name] = ("import", mod, a.name)

    def _collect(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.bind[st.name] = ("func", FuncInfo(st, self, None, self.name + "." + st.name))
            elif isinstance(st, ast.ClassDef):
                ci = ClassInfo(st, self, None, self.name + "." + st.name)
                self.bind[st.name] = ("class", ci)
                self.all_classes.append(ci)
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                self.bind_import(st, self.bind)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.bind[t.id] = ("assign", st.value)
                    elif isinstance(t, ast.Tuple):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                self.bind[e.id] = ("assign", ast.copy_location(
                                    ast.Subscript(st.value, ast.Constant(i), ast.Load()), st))
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.bind[st.target.id] = ("assign", st.value)
            elif isinstance(st, ast.If):
                self._collect(st.body)
                self._collect(st.orelse)
            elif isinstance(st, ast.Try):
                self._collect(st.body)
                for h in st.handlers:
                    self._collect(h.body)
                self._collect(st.orelse)
                self._collect(st.finalbody)
            elif isinstance(st, (ast.While, ast.For, ast.With)):
                self._collect(st.body)

    @property
    def functions(self):
        return [b[1] for b in self.bind.values() if b[0] == "func"]

    @property
    def classes(self):
        return [b[1] for b in self.bind.values() if b[0] == "class"]


class Program:
    def __init__(self, roots):
        """roots: list of (directory, package prefix or '')"""
        self.modules = {}
        for d, prefix in roots:
            self._load(d, prefix)

    def _load(self, d, prefix):
        if not os.path.isdir(d):
            raise AnalysisBroken("source directory %s is missing" % d)
        for dp, dn, fn in os.walk(d):
            dn[:] = sorted(x for x in dn if x != "__pycache__")
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, d)[:-3].split(os.sep)
                is_pkg = rel[-1] == "__init__"
                if is_pkg:
                    rel = rel[:-1]
                name = ".".join(([prefix] if prefix else []) + rel)
                self.modules[name] = Module(self, name, p, is_pkg)

    # -- lookups -----------------------------------------------------------------------------------
    def module(self, name):
        if name not in self.modules:
            raise AnalysisBroken("module %s not found" % name)
        return self.modules[name]

    def lookup(self, mod, name, depth=0):
        """Resolves a module level name to ('func',F) ('class',C) ('assign',expr,mod) ('module',name) ('ext',dotted) or None"""
        if depth > 12:
            return None
        b = mod.bind.get(name)
        if b is None:
            for s in mod.star:
                if s in self.modules:
                    r = self.lookup(self.modules[s], name, depth + 1)
                    if r:
                        return r
            sub = mod.name + "." + name
            if mod.is_pkg and sub in self.modules:
                return ("module", sub)
            return None
        if b[0] == "import":
            return self.lookup_from(b[1], b[2], depth + 1)
        if b[0] == "assign":
            return ("assign", b[1], mod, name)
        return b

    def lookup_from(self, modname, name, depth=0):
        if modname in self.modules:
            r = self.lookup(self.modules[modname], name, depth)
            if r:
                return r
            if modname + "." + name in self.modules:
                return ("module", modname + "." + name)
            return ("missing", modname, name)
        return ("ext", modname + "." + name)

    def resolve_expr(self, mod, expr, cls=None):
        if isinstance(expr, ast.Name):
            if cls is not None and cls.outer is not None:
                pass
            r = self.lookup(mod, expr.id)
            if r and r[0] in ("func", "class"):
                return r[1]
            return r
        if isinstance(expr, ast.Attribute):
            b = self.resolve_expr(mod, expr.value, cls)
            if isinstance(b, ClassInfo):
                return b.find_class(expr.attr)
            if isinstance(b, tuple) and b and b[0] == "module" and b[1] in self.modules:
                r = self.lookup(self.modules[b[1]], expr.attr)
                if r and r[0] in ("func", "class"):
                    return r[1]
                return r
        return None

    def cls(self, modname, name):
        m = self.module(modname)
        cur = None
        for part in name.split("."):
            if cur is None:
                r = self.lookup(m, part)
                cur = r[1] if r and r[0] == "class" else None
            else:
                cur = cur.classes.get(part)
            if cur is None:
                raise AnalysisBroken("class %s.%s not found" % (modname, name))
        return cur

    def func(self, modname, name):
        r = self.lookup(self.module(modname), name)
        if not r or r[0] != "func":
            raise AnalysisBroken("function %s.%s not found" % (modname, name))
        return r[1]

    def all_classes(self, prefix=""):
        out = []
        for n in sorted(self.modules):
            if n.startswith(prefix):
                out += self.modules[n].all_classes
        return out

    def all_functions(self, prefix=""):
        out = []
        for n in sorted(self.modules):
            if n.startswith(prefix):
                out += self.modules[n].functions
        return out

    def subclasses(self, base):
        return [c for c in self.all_classes() if c is not base and c.is_sub(base)]


_cache = {}


def firmware():
    if "fw" not in _cache:
        _cache["fw"] = Program([(os.path.join(LIB, "pyswitch"), "pyswitch")])
    return _cache["fw"]
