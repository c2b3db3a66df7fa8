"""Native part of the libcst model: trees are made from source text, printed, and their scopes determined."""
import ast
import io
import json
import os
import tokenize

from .engine import HObj, NONE
from .model import AnalysisBroken, Program

MODEL = os.path.join(os.path.dirname(os.path.abspath(__file__)), "libcst_model")
LC = "libcst"


def c(v):
    return ("c", type(v).__name__, v) if v is not None else NONE


class Cst:
    def __init__(self, lab, files):
        """files(name) -> text of a file opened by the program, or None"""
        self.lab = lab
        self.e = lab.e
        self.files = files
        self.invalid = []
        h = self.e.hooks
        h[LC + "._native_parse"] = self.parse
        h[LC + "._native_init"] = self.init
        h[LC + "._native_copy"] = self.copy
        h[LC + "._native_code"] = lambda eng, st, a, k, ctx, node: [(st, c(self.code(st, a[0])))]
        h[LC + ".metadata._native_scopes"] = lambda eng, st, a, k, ctx, node: [(st, self.scopes(st, a[0]))]
        h["json._native_dumps"] = lambda eng, st, a, k, ctx, node: [(st, c(json.dumps(self.data(st, a[0]))))]
        h["json._native_loads"] = lambda eng, st, a, k, ctx, node: [(st, self.value(st, json.loads(self.text(a[0]))))]
        self.e.call_hooks.insert(0, self.opened)
        self.e.attr_hooks.insert(0, self.absent)

    # -- values
    def text(self, v):
        if v[0] != "c" or v[1] != "str":
            raise AnalysisBroken("text is not known: %r" % (v,))
        return v[2]

    def value(self, st, d):
        if isinstance(d, list):
            return self.e.mklist(st, [self.value(st, x) for x in d])
        if isinstance(d, dict):
            return self.e.mkdict(st, {k: self.value(st, x) for k, x in d.items()})
        return c(d)

    def data(self, st, v):
        if v[0] == "c":
            return v[2]
        if v[0] == "tup":
            return [self.data(st, x) for x in v[1]]
        if v[0] == "o":
            o = self.e.h(st, v)
            if o.kind == "list" and o.items is not None:
                return [self.data(st, x) for x in o.items]
            if o.kind == "dict" and not o.open:
                return {k if not isinstance(k, tuple) else k[2]: self.data(st, x) for k, x in o.items.items()}
            if o.kind == "inst":
                raise TypeError("%s is not serializable" % o.cls.name)
        raise AnalysisBroken("value is not known: %r" % (v,))

    # -- nodes
    def node(self, st, kind, **attrs):
        return self.e.alloc(st, HObj("inst", cls=self.lab.p.cls(LC, kind), attrs=attrs))

    def seq(self, xs):
        return ("tup", tuple(xs))

    def kind(self, st, v):
        if v[0] == "o":
            o = self.e.h(st, v)
            if o.kind == "inst" and hasattr(o.cls, "module") and o.cls.module.name == LC:
                return o.cls.name
        return None

    def items(self, st, v):
        if v[0] == "tup":
            return list(v[1])
        if v[0] == "o" and self.e.h(st, v).kind == "list":
            return list(self.e.h(st, v).items)
        if v == NONE:
            return []
        raise AnalysisBroken("not a sequence of nodes: %r" % (v,))

    def get(self, st, v, n, default=NONE):
        return self.e.h(st, v).attrs.get(n, default)

    def absent(self, eng, st, b, n, ctx, node):
        """whitespace attributes of nodes"""
        if self.kind(st, b) and n in ("whitespace_after_arg", "whitespace_before_args", "comma", "newline", "whitespace"):
            if n not in eng.h(st, b).attrs:
                return [(st, NONE)]
        return None

    def init(self, eng, st, a, k, ctx, node):
        o = eng.hw(st, a[0])
        kw = a[2]
        d = eng.h(st, kw)
        if d.kind != "dict" or d.open:
            raise AnalysisBroken("arguments of a node are not known")
        for n, v in d.items.items():
            o.attrs[n if not isinstance(n, tuple) else n[2]] = v
        return [(st, NONE)]

    def copy(self, eng, st, a, k, ctx, node):
        o = eng.h(st, a[0])
        attrs = dict(o.attrs)
        for n, v in eng.h(st, a[1]).items.items():
            attrs[n if not isinstance(n, tuple) else n[2]] = v
        return [(st, eng.alloc(st, HObj("inst", cls=o.cls, attrs=attrs)))]

    # -- text -> nodes
    def parse(self, eng, st, a, k, ctx, node):
        kind, src = self.text(a[0]), a[1]
        if src[0] != "c" or src[1] != "str":
            self.invalid.append("a value of type %s" % (src[1] if src[0] == "c" else eng.describe(src, st)))
            return [(st, self.node(st, "BaseExpression", text=c("INVALID")))]
        src = src[2]
        try:
            if kind == "expression":
                t = ast.parse(src, mode="eval")
                return [(st, Build(self, st, src).expr(t.body))]
            t = ast.parse(src)
        except (SyntaxError, ValueError):
            self.invalid.append(src)
            return [(st, self.node(st, "BaseExpression", text=c("INVALID")))]
        b = Build(self, st, src)
        body = b.stmts(t.body)
        if kind == "statement":
            return [(st, body[0])]
        return [(st, self.node(st, "Module", body=self.seq(body), header=self.seq([])))]

    # -- nodes -> text
    def code(self, st, v):
        return Print(self, st).expr(v)

    # -- scopes
    def scopes(self, st, module):
        out = []
        by_node = {}

        def binds(n, scope):
            k = self.kind(st, n)
            if k in ("Import", "ImportFrom"):
                names = self.get(st, n, "names")
                if self.kind(st, names) == "ImportStar":
                    return
                for al in self.items(st, names):
                    asn = self.get(st, al, "asname")
                    full = self.code(st, self.get(st, al, "name"))
                    bound = self.code(st, self.get(st, asn, "name")) if asn != NONE else full
                    scope["imports"].append((bound, n))
                    scope["bound"].add(bound.split(".")[0])

        def walk(n, scope):
            k = self.kind(st, n)
            binds(n, scope)
            if k in ("FunctionDef", "ClassDef"):
                nm = self.get(st, self.get(st, n, "name"), "value")[2]
                scope["bound"].add(nm)
                head = self.get(st, n, "heads")[2][0]
                inner = {"imports": [], "bound": set(), "loads": set(), "outer": scope, "class": k == "ClassDef"}
                t = ast.parse(head + "\n  pass").body[0]
                args = t.args if isinstance(t, ast.FunctionDef) else None
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                        scope["loads"].add(x.id)
                if args:
                    inner["bound"] |= {x.arg for x in args.posonlyargs + args.args + args.kwonlyargs + [y for y in (args.vararg, args.kwarg) if y]}
                out.append(inner)
                for x in self.items(st, self.get(st, n, "blocks")):
                    walk(x, inner)
                return
            if k in BLOCKS:
                for h in self.get(st, n, "heads")[2]:
                    use(names_of(h), scope)
                for x in self.items(st, self.get(st, n, "blocks")):
                    walk(x, scope)
                return
            if k in ("Module", "IndentedBlock", "SimpleStatementLine"):
                for x in self.items(st, self.get(st, n, "body")):
                    walk(x, scope)
                return
            if k not in ("Import", "ImportFrom"):
                use(self.code(st, n), scope)

        def names_of(h):
            h = h.strip()
            try:
                t = ast.parse(h + " pass" if not h.startswith(("else", "elif", "except", "finally")) else "pass")
            except SyntaxError:
                t = ast.parse("pass")
            if h.startswith("elif"):
                t = ast.parse(h[2:] + " pass")
            if h.startswith("except") and h[6:].strip(" :"):
                t = ast.parse(h[6:].strip(" :").split(" as ")[0])
            return t

        def use(t, scope):
            if isinstance(t, str):
                t = ast.parse(t)
            for x in ast.walk(t):
                if isinstance(x, ast.Name):
                    scope["loads" if isinstance(x.ctx, ast.Load) else "bound"].add(x.id)
                    if isinstance(x.ctx, ast.Load):
                        scope["loads"].add(x.id)
                elif isinstance(x, ast.Attribute):
                    try:
                        scope["loads"].add(ast.unparse(x))
                    except Exception:
                        pass
        top = {"imports": [], "bound": set(), "loads": set(), "outer": None, "class": False}
        out.append(top)
        walk(module, top)
        refs = {id(s): set() for s in out}
        for s in out:
            for n in s["loads"]:
                t = s
                first = True
                while t is not None:
                    if n.split(".")[0] in t["bound"] and (first or not t["class"]):
                        refs[id(t)].add(n)
                        break
                    first = False
                    t = t["outer"]
        cls = lambda n: self.lab.p.cls(LC + ".metadata", n)
        d = []
        for i, s in enumerate(out):
            asg = []
            for bound, n in s["imports"]:
                r = [NONE] if any(x == bound or x.startswith(bound + ".") for x in refs[id(s)]) else []
                asg.append(self.e.alloc(st, HObj("inst", cls=cls("Assignment"), attrs={"name": c(bound), "node": n, "references": self.e.mklist(st, r)})))
            kind = "GlobalScope" if s["outer"] is None else "ClassScope" if s["class"] else "FunctionScope"
            d.append(self.e.alloc(st, HObj("inst", cls=cls(kind), attrs={"assignments": self.e.mklist(st, asg)})))
        return self.e.mkdict(st, {i: x for i, x in enumerate(d)})

    # -- files
    def opened(self, eng, f, args, kwargs, st, ctx, node):
        if f == ("b", "open"):
            name = self.text(args[0])
            t = self.files(name)
            if t is None:
                raise AnalysisBroken("the parser opens %s" % name)
            return [(st, eng.alloc(st, HObj("inst", cls=self.lab.p.cls("jsproxy", "File"), attrs={"content": c(t)})))]
        return None


BLOCKS = ("If", "Try", "For", "While", "With")


class Build:
    def __init__(self, cst, st, src):
        self.c, self.st, self.src = cst, st, src
        self.lines = src.splitlines(True)
        self.start = [0]
        for l in self.lines:
            self.start.append(self.start[-1] + len(l))

    def pos(self, line, col):
        l = self.lines[line - 1] if line <= len(self.lines) else ""
        return self.start[line - 1] + len(l.encode()[:col].decode())

    def span(self, n):
        return self.pos(n.lineno, n.col_offset), self.pos(n.end_lineno, n.end_col_offset)

    def n(self, kind, **attrs):
        return self.c.node(self.st, kind, **attrs)

    def name(self, s):
        return self.n("Name", value=c(s), text=c(s))

    def dotted(self, s):
        parts = s.split(".")
        v = self.name(parts[0])
        for p in parts[1:]:
            v = self.n("Attribute", value=v, attr=self.name(p), text=c(self.c.code(self.st, v) + "." + p))
        return v

    def expr(self, e, sole=False):
        a, b = self.span(e)
        seg = self.src[a:b]
        x, y, par = a, b, 0
        while True:
            i, j = x - 1, y
            while i >= 0 and self.src[i].isspace():
                i -= 1
            while j < len(self.src) and self.src[j].isspace():
                j += 1
            if i >= 0 and j < len(self.src) and self.src[i] == "(" and self.src[j] == ")":
                par += 1
                x, y = i, j + 1
            else:
                break
        if sole:
            par -= 1
        own = par > 0 or (isinstance(e, (ast.Tuple, ast.GeneratorExp)) and seg.startswith("(") and seg.endswith(")"))
        if isinstance(e, ast.GeneratorExp) and sole and par < 0:
            own, seg = False, seg[1:-1]
        text = "(" + seg + ")" if par > 0 else seg
        common = {"lpar": self.c.seq([NONE] if own else []), "rpar": self.c.seq([NONE] if own else []), "text": c(text)}
        if isinstance(e, ast.Name):
            return self.n("Name", value=c(e.id), **common)
        if isinstance(e, ast.Attribute):
            return self.n("Attribute", value=self.expr(e.value), attr=self.name(e.attr), **common)
        if isinstance(e, ast.Constant) and isinstance(e.value, (str, bytes)):
            toks = [t for t in tokenize.generate_tokens(io.StringIO("(" + seg + ")").readline) if t.type == tokenize.STRING]
            if len(toks) > 1:
                return self.n("ConcatenatedString", **common)
            p = len(seg) - len(seg.lstrip("rRbBuUfF"))
            q = seg[p:p + 3] if seg[p:p + 3] in ('"""', "'''") else seg[p]
            return self.n("SimpleString", value=c(seg), prefix=c(seg[:p].lower()), quote=c(q), raw_value=c(seg[p + len(q):len(seg) - len(q)]), **common)
        if isinstance(e, ast.Call):
            args = []
            rest = [(self.span(x), x) for x in e.args] + [(self.span(x), x) for x in e.keywords]
            only = len(rest) == 1
            for _, x in sorted(rest, key=lambda t: t[0]):
                if isinstance(x, ast.keyword):
                    args.append(self.n("Arg", value=self.expr(x.value), keyword=self.name(x.arg) if x.arg else NONE, star=c("" if x.arg else "**")))
                elif isinstance(x, ast.Starred):
                    args.append(self.n("Arg", value=self.expr(x.value), keyword=NONE, star=c("*")))
                else:
                    args.append(self.n("Arg", value=self.expr(x, only), keyword=NONE, star=c("")))
            return self.n("Call", func=self.expr(e.func), args=self.c.seq(args), **common)
        if isinstance(e, ast.Dict):
            els = [self.n("DictElement", key=self.expr(k), value=self.expr(v)) if k is not None else self.n("StarredDictElement", value=self.expr(v)) for k, v in zip(e.keys, e.values)]
            return self.n("Dict", elements=self.c.seq(els), **common)
        if isinstance(e, ast.List):
            els = [self.n("StarredElement", value=self.expr(x.value)) if isinstance(x, ast.Starred) else self.n("Element", value=self.expr(x)) for x in e.elts]
            return self.n("List", elements=self.c.seq(els), **common)
        if isinstance(e, ast.Constant) and not isinstance(e.value, bool) and isinstance(e.value, (int, float)):
            return self.n("Integer" if isinstance(e.value, int) else "Float", value=c(seg), **common)
        if isinstance(e, ast.Constant):
            return self.n("Ellipsis", **common) if e.value is ... else self.n("Name", value=c(seg), **common)
        kinds = {"BinOp": "BinaryOperation", "BoolOp": "BooleanOperation", "UnaryOp": "UnaryOperation", "Compare": "Comparison", "JoinedStr": "FormattedString"}
        k = type(e).__name__
        k = kinds.get(k, k)
        if k not in [x.name for x in self.c.lab.p.module(LC).classes]:
            k = "BaseExpression"
        if k == "Subscript":
            common["value"] = self.expr(e.value)
        return self.n(k, **common)

    def stmts(self, body):
        out, i = [], 0
        while i < len(body):
            s = body[i]
            if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.If, ast.Try, ast.For, ast.While, ast.With)):
                out.append(self.compound(s))
                i += 1
                continue
            line = [self.small(s)]
            while i + 1 < len(body) and body[i + 1].lineno == body[i].end_lineno and not hasattr(body[i + 1], "body"):
                i += 1
                line.append(self.small(body[i]))
            out.append(self.n("SimpleStatementLine", body=self.c.seq(line), leading_lines=self.c.seq([])))
            i += 1
        return out

    def small(self, s):
        a, b = self.span(s)
        t = c(self.src[a:b])
        if isinstance(s, ast.Assign):
            return self.n("Assign", targets=self.c.seq([self.n("AssignTarget", target=self.expr(x)) for x in s.targets]), value=self.expr(s.value))
        if isinstance(s, ast.AnnAssign):
            return self.n("AnnAssign", target=self.expr(s.target), value=self.expr(s.value) if s.value else NONE, text=t)
        if isinstance(s, ast.AugAssign):
            return self.n("AugAssign", target=self.expr(s.target), value=self.expr(s.value), text=t)
        if isinstance(s, ast.Expr):
            return self.n("Expr", value=self.expr(s.value))
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            names = self.n("ImportStar") if s.names[0].name == "*" else self.c.seq([
                self.n("ImportAlias", name=self.dotted(x.name), asname=self.n("AsName", name=self.name(x.asname)) if x.asname else NONE) for x in s.names])
            if isinstance(s, ast.Import):
                return self.n("Import", names=names)
            return self.n("ImportFrom", module=self.dotted(s.module) if s.module else NONE, relative=c(s.level), names=names)
        k = type(s).__name__
        return self.n(k if k in ("Return", "Pass") else "SmallStatement", text=t)

    def block(self, body):
        return self.n("IndentedBlock", body=self.c.seq(self.stmts(body)))

    def compound(self, s):
        kw = {}
        u = ast.unparse
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            import copy
            t = copy.copy(s)
            t.body = [ast.Pass()]
            heads, blocks = [u(t).rsplit("\n", 1)[0]], [s.body]
            kw["name"] = self.name(s.name)
            if isinstance(s, ast.ClassDef):
                kw["bases"] = self.c.seq([self.n("Arg", value=self.expr(b), keyword=NONE, star=c("")) for b in s.bases])
        elif isinstance(s, ast.If):
            heads, blocks = ["if %s:" % u(s.test)], [s.body]
            if s.orelse:
                heads, blocks = heads + ["else:"], blocks + [s.orelse]
        elif isinstance(s, ast.Try):
            heads, blocks = ["try:"], [s.body]
            for h in s.handlers:
                heads.append("except%s%s:" % (" " + u(h.type) if h.type else "", " as " + h.name if h.name else ""))
                blocks.append(h.body)
            for w, b in (("else:", s.orelse), ("finally:", s.finalbody)):
                if b:
                    heads, blocks = heads + [w], blocks + [b]
        elif isinstance(s, ast.For):
            heads, blocks = ["for %s in %s:" % (u(s.target), u(s.iter))], [s.body]
        elif isinstance(s, ast.While):
            heads, blocks = ["while %s:" % u(s.test)], [s.body]
        else:
            heads, blocks = ["with %s:" % ", ".join(u(i) for i in s.items)], [s.body]
        k = {ast.FunctionDef: "FunctionDef", ast.ClassDef: "ClassDef"}.get(type(s), type(s).__name__)
        return self.n(k, heads=("c", "tuple", tuple(heads)), blocks=self.c.seq([self.block(b) for b in blocks]), **kw)


class Print:
    def __init__(self, cst, st):
        self.c, self.st = cst, st

    def a(self, v, n, default=NONE):
        return self.c.get(self.st, v, n, default)

    def expr(self, v, ind=""):
        k = self.c.kind(self.st, v)
        if k is None:
            self.c.invalid.append("a %s in the tree" % (v[1] if v[0] == "c" else v[0]))
            return "INVALID"
        a = self.a
        seq = lambda n: self.c.items(self.st, a(v, n))
        if k == "Module":
            return "".join(self.stmt(x, "") for x in seq("body"))
        if k in ("SimpleStatementLine", "FunctionDef", "ClassDef", "IndentedBlock") + BLOCKS:
            return self.stmt(v, ind)
        if k == "Assign":
            return "".join(self.expr(a(t, "target")) + " = " for t in seq("targets")) + self.expr(a(v, "value"))
        if k == "Expr":
            return self.expr(a(v, "value"))
        if k in ("Import", "ImportFrom"):
            n = a(v, "names")
            names = "*" if self.c.kind(self.st, n) == "ImportStar" else ", ".join(self.expr(x) for x in self.c.items(self.st, n))
            if k == "Import":
                return "import " + names
            m = a(v, "module")
            return "from %s%s import %s" % ("." * a(v, "relative", c(0))[2], self.expr(m) if m != NONE else "", names)
        if k == "ImportAlias":
            s = a(v, "asname")
            return self.expr(a(v, "name")) + (" as " + self.expr(a(s, "name")) if s != NONE else "")
        if k == "Arg":
            kw = a(v, "keyword")
            star = a(v, "star", c(""))
            return (star[2] if star[0] == "c" else "") + (self.expr(kw) + "=" if kw != NONE else "") + self.expr(a(v, "value"))
        t = a(v, "text", None)
        if t is not None:
            return t[2]
        if k == "Name":
            return self.c.text(a(v, "value"))
        if k == "Call":
            return self.expr(a(v, "func")) + "(" + ", ".join(self.expr(x) for x in seq("args")) + ")"
        if k == "Dict":
            return "{" + ", ".join(self.expr(x) for x in seq("elements")) + "}"
        if k == "DictElement":
            return self.expr(a(v, "key")) + ": " + self.expr(a(v, "value"))
        if k == "StarredDictElement":
            return "**" + self.expr(a(v, "value"))
        if k == "List":
            return "[" + ", ".join(self.expr(x) for x in seq("elements")) + "]"
        if k == "Element":
            return self.expr(a(v, "value"))
        if k == "StarredElement":
            return "*" + self.expr(a(v, "value"))
        if k == "Attribute":
            return self.expr(a(v, "value")) + "." + self.expr(a(v, "attr"))
        if k == "Tuple":
            return "(" + "".join(self.expr(x) + ", " for x in seq("elements")) + ")"
        if k in ("SimpleString", "Integer", "Float"):
            return self.c.text(a(v, "value"))
        raise AnalysisBroken("node of kind %s can not be printed" % k)

    def stmt(self, v, ind):
        k = self.c.kind(self.st, v)
        seq = lambda n: self.c.items(self.st, self.a(v, n))
        if k == "SimpleStatementLine":
            xs = [self.expr(x) for x in seq("body")]
            return ind + "; ".join(xs) + "\n" if xs else ""
        if k == "IndentedBlock":
            return "".join(self.stmt(x, ind) for x in seq("body")) or ind + "pass\n"
        if k in ("FunctionDef", "ClassDef") + BLOCKS:
            out = ""
            for h, b in zip(self.a(v, "heads")[2], seq("blocks")):
                out += "".join(ind + l + "\n" for l in h.split("\n")) + self.stmt(b, ind + "    ")
            return out
        return ind + self.expr(v) + "\n"
