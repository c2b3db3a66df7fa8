"""Applies behaviour preserving rewrites to every Python file of a copy of the tree (a development tool: the checks
have to stay quiet on the result).   refactor.py DIR kind[,kind...]

Kinds: ret (value of a return through a local), nest (`if a and b` -> nested ifs), aug (`x += 1` -> `x = x + 1`),
none (`== None` -> `is None`), els (`if c: return` followed by code -> else branch), tern (conditional assignment ->
if statement), impl (method bodies moved into a helper method), local (locals renamed), priv (private attributes
renamed), order (methods of a class reordered), guard (`if c: rest` at the end of a function -> `if not c: return`),
loop (for over a name -> while with an index... only `for x in range`), temp (call arguments through locals)."""
import ast
import os
import sys


def funcs(tree):
    return [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]


def is_gen(f):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f))


def blocks(tree):
    for n in ast.walk(tree):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                yield n, b


def ret(tree):
    for f in funcs(tree):
        if any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(f)):
            continue
        for n, b in list(blocks(f)):
            for i in range(len(b) - 1, -1, -1):
                s = b[i]
                if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                    b[i:i + 1] = [ast.Assign([ast.Name("result_", ast.Store())], s.value), ast.Return(ast.Name("result_", ast.Load()))]


def nest(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            vals = n.test.values
            n.test = vals[0]
            inner = n.body
            for v in reversed(vals[1:]):
                inner = [ast.If(v, inner, [])]
            n.body = inner


def aug(tree):
    for n, b in list(blocks(tree)):
        for i, s in enumerate(b):
            if isinstance(s, ast.AugAssign) and isinstance(s.target, (ast.Name, ast.Attribute)) and isinstance(s.op, (ast.Add, ast.Sub)):
                if isinstance(s.target, ast.Attribute) and not isinstance(s.target.value, ast.Name):
                    continue
                if isinstance(s.value, (ast.List, ast.ListComp)):
                    continue
                t = s.target
                load = ast.Name(t.id, ast.Load()) if isinstance(t, ast.Name) else ast.Attribute(t.value, t.attr, ast.Load())
                b[i] = ast.Assign([t], ast.BinOp(load, s.op, s.value))


def none(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None:
            if isinstance(n.ops[0], ast.Eq):
                n.ops[0] = ast.Is()
            elif isinstance(n.ops[0], ast.NotEq):
                n.ops[0] = ast.IsNot()


def ends(b):
    return isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def els(tree):
    def run(b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and i + 1 < len(b):
                s.orelse = b[i + 1:]
                del b[i + 1:]
                run(s.orelse)
                return
    for f in funcs(tree):
        run(f.body)


def guard(tree):
    for f in funcs(tree):
        if is_gen(f):
            continue
        s = f.body[-1]
        if isinstance(s, ast.If) and not s.orelse and f.name != "__init__":
            f.body[-1:] = [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Return(None)], [])] + s.body


def tern(tree):
    for n, b in list(blocks(tree)):
        if isinstance(n, (ast.Module, ast.ClassDef)):
            continue
        for i in range(len(b) - 1, -1, -1):
            s = b[i]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.value, ast.IfExp) and isinstance(s.targets[0], (ast.Name, ast.Attribute)):
                v = s.value
                b[i] = ast.If(v.test, [ast.Assign(s.targets, v.body)], [ast.Assign(s.targets, v.orelse)])


def impl(tree):
    for c in [n for n in ast.walk(tree) if isinstance(n, ast.ClassDef)]:
        new = []
        for m in c.body:
            if not isinstance(m, ast.FunctionDef) or m.decorator_list or m.name == "__init__" or is_gen(m) or len(m.body) < 3:
                continue
            if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("super", "locals") for n in ast.walk(m)):
                continue
            if m.name.startswith("__"):
                continue
            a = m.args
            if a.posonlyargs or not a.args or a.args[0].arg != "self":
                continue
            name = "_%s_%s_impl" % (c.name.strip("_").lower(), m.name)
            args = ast.arguments(posonlyargs=[], args=[ast.arg(x.arg) for x in a.args], vararg=a.vararg, kwonlyargs=[],
                                 kw_defaults=[], kwarg=a.kwarg, defaults=[])
            if a.kwonlyargs:
                continue
            new.append(ast.FunctionDef(name, args, m.body, [], lineno=m.lineno))
            call = ast.Call(ast.Attribute(ast.Name("self", ast.Load()), name, ast.Load()),
                            [ast.Name(x.arg, ast.Load()) for x in a.args[1:]] + ([ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load())] if a.vararg else []),
                            [ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load()))] if a.kwarg else [])
            m.body = [ast.Return(call)]
        c.body += new


def local(tree):
    for f in funcs(tree):
        if any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal, ast.ClassDef, ast.ExceptHandler, ast.Import, ast.ImportFrom)) for n in ast.walk(f) if n is not f):
            continue
        params = {a.arg for a in f.args.args + f.args.kwonlyargs} | ({f.args.vararg.arg} if f.args.vararg else set()) | ({f.args.kwarg.arg} if f.args.kwarg else set())
        names = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - params
        for n in (x for b in f.body for x in ast.walk(b)):
            if isinstance(n, ast.Name) and n.id in names:
                n.id = "my_" + n.id.strip("_")


def priv(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.Attribute) and n.attr.startswith("__") and not n.attr.endswith("__"):
            n.attr = n.attr + "_x"
        elif isinstance(n, ast.FunctionDef) and n.name.startswith("__") and not n.name.endswith("__"):
            n.name = n.name + "_x"


def order(tree):
    for c in [n for n in ast.walk(tree) if isinstance(n, ast.ClassDef)]:
        ms = [m for m in c.body if isinstance(m, ast.FunctionDef)]
        if any(m.decorator_list for m in ms):
            continue
        idx = [i for i, m in enumerate(c.body) if isinstance(m, ast.FunctionDef)]
        for i, m in zip(idx, reversed(ms)):
            c.body[i] = m


def temp(tree):
    k = [0]
    for f in funcs(tree):
        for n, b in list(blocks(f)):
            for i in range(len(b) - 1, -1, -1):
                s = b[i]
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.args and not s.value.keywords \
                        and all(not isinstance(a, ast.Starred) for a in s.value.args):
                    pre = []
                    new = []
                    for a in s.value.args:
                        if isinstance(a, (ast.Constant, ast.Name, ast.Lambda)):
                            new.append(a)
                            continue
                        k[0] += 1
                        nm = "tmp_%d" % k[0]
                        pre.append(ast.Assign([ast.Name(nm, ast.Store())], a))
                        new.append(ast.Name(nm, ast.Load()))
                    if pre and isinstance(s.value.func.value, ast.Name):
                        s.value.args = new
                        b[i:i + 1] = pre + [s]


def swap(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
            if type(n.ops[0]) in flip:
                n.left, n.comparators[0] = n.comparators[0], n.left
                n.ops[0] = flip[type(n.ops[0])]()


def flip(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test = n.test.operand if isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not) else ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body
        elif isinstance(n, ast.IfExp):
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body


def comp(tree):
    k = [0]
    for f in funcs(tree):
        for n, b in list(blocks(f)):
            for i in range(len(b) - 1, -1, -1):
                s = b[i]
                v = getattr(s, "value", None)
                if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, ast.ListComp) and len(v.generators) == 1:
                    k[0] += 1
                    nm = "list_%d" % k[0]
                    g = v.generators[0]
                    body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(nm, ast.Load()), "append", ast.Load()), [v.elt], []))]
                    for c in reversed(g.ifs):
                        body = [ast.If(c, body, [])]
                    s.value = ast.Name(nm, ast.Load())
                    b[i:i + 1] = [ast.Assign([ast.Name(nm, ast.Store())], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, []), s]


def loop(tree):
    """for i in range(...) -> while"""
    for f in funcs(tree):
        for n, b in list(blocks(f)):
            for i in range(len(b) - 1, -1, -1):
                s = b[i]
                if not (isinstance(s, ast.For) and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name)
                        and s.iter.func.id == "range" and len(s.iter.args) <= 2 and not s.orelse):
                    continue
                if any(isinstance(x, (ast.Continue, ast.Lambda, ast.FunctionDef)) for x in ast.walk(s)) or any(isinstance(x, ast.Name) and x.id == s.target.id and isinstance(x.ctx, ast.Store) for y in s.body for x in ast.walk(y)):
                    continue
                lo, hi = (ast.Constant(0), s.iter.args[0]) if len(s.iter.args) == 1 else s.iter.args
                v = s.target.id
                b[i:i + 1] = [ast.Assign([ast.Name(v, ast.Store())], lo), ast.Assign([ast.Name(v + "_end", ast.Store())], hi),
                              ast.While(ast.Compare(ast.Name(v, ast.Load()), [ast.Lt()], [ast.Name(v + "_end", ast.Load())]),
                                        s.body + [ast.AugAssign(ast.Name(v, ast.Store()), ast.Add(), ast.Constant(1))], [])]


def noop(tree):
    for f in funcs(tree):
        at = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        f.body.insert(at, ast.Assign([ast.Name("unused_", ast.Store())], ast.Constant(0)))


def const(tree):
    """numbers in function bodies through named module constants"""
    vals = {}
    for f in funcs(tree):
        for n in [x for b in f.body for x in ast.walk(b)]:
            for fld, v in ast.iter_fields(n):
                if isinstance(v, ast.Constant) and type(v.value) is int and v.value > 1 and not isinstance(n, (ast.Subscript, ast.JoinedStr)):
                    vals[v.value] = 1
                    setattr(n, fld, ast.Name("_CONST_%d" % v.value, ast.Load()))
    at = 0
    while at < len(tree.body) and isinstance(tree.body[at], (ast.Import, ast.ImportFrom)):
        at += 1
    tree.body[at:at] = [ast.Assign([ast.Name("_CONST_%d" % v, ast.Store())], ast.Constant(v)) for v in vals]


KINDS = dict(swap=swap, flip=flip, comp=comp, loop=loop, noop=noop, const=const, ret=ret, nest=nest, aug=aug, none=none, els=els, guard=guard, tern=tern, impl=impl, local=local, priv=priv, order=order, temp=temp)


def main():
    root, kinds = sys.argv[1], sys.argv[2].split(",")
    only = sys.argv[3:] or ["content", "web/htdocs/python"]
    for sub in only:
        top = os.path.join(root, sub)
        files = [top] if os.path.isfile(top) else [os.path.join(d, f) for d, _, fs in os.walk(top) for f in fs if f.endswith(".py")]
        for p in files:
            if "/adafruit" in p or "/test" in p:
                continue
            src = open(p).read()
            tree = ast.parse(src)
            for k in kinds:
                KINDS[k](tree)
                ast.fix_missing_locations(tree)
            out = ast.unparse(tree) + "\n"
            compile(out, p, "exec")
            open(p, "w").write(out)


main()
