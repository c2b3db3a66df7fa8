"""Definedness: attributes, members, signatures, interfaces, local names and shared data of the firmware (syntax tree), plus abstract runs of every shipped factory in a real controller."""
import ast
import builtins
import os
import re
import shutil
import tempfile

import sa.model as M
from sa.model import FuncInfo, ClassInfo, mangle, REPO
from checks.common import *
from checks import c29, factories
from checks.c29 import order

BUILTIN_TYPES = [str, bytes, bytearray, list, tuple, dict, set, int, float, type(lambda: 0), Exception, OSError, type]
# members of external objects (CircuitPython and Adafruit libraries): names only, the browser wrappers and C30 look at them in detail
EXTERNAL = {"configure", "try_lock", "unlock", "value", "direction", "pull", "position", "deinit", "readinto", "read", "write", "in_waiting", "baudrate", "timeout", "ports", "PortIn", "PortOut"}

# methods of library objects that firmware classes also have with other parameters
EXTERNAL_METHODS = {"show"}


def members(p):
    """names that some firmware class, its instances, or a builtin type has; and external names"""
    own = set()
    for ci in p.all_classes():
        for n in list(ci.methods) + list(ci.setters) + list(ci.attrs) + list(ci.classes):
            own.add(n)
    for mod in p.modules.values():
        for cls, x in within(mod):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                own.add(mangle(x.attr, cls) if cls else x.attr)
    bi = set()
    for t in BUILTIN_TYPES:
        bi |= set(dir(t))
    return own, bi


def within(mod):
    """[(class or None, node)] all nodes of a module with the innermost class around them"""
    out = []
    by = {ci.node: ci for ci in mod.all_classes}

    def walk(n, cls):
        for k in ast.iter_child_nodes(n):
            c2 = by.get(k, cls) if isinstance(k, ast.ClassDef) else cls
            out.append((c2, k))
            walk(k, c2)
    walk(mod.tree, None)
    return out


def selfname(f):
    if any(isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod") for d in f.decorator_list):
        return None
    a = f.args.posonlyargs + f.args.args
    return a[0].arg if a else None


def stores(ci):
    """mangled names of the attributes the methods of this class assign on self"""
    out = set()
    for fi in list(ci.methods.values()) + list(ci.setters.values()):
        me = selfname(fi.node)
        for x in ast.walk(fi.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == me:
                out.add(mangle(x.attr, ci))
    return out


def outside(p):
    """attributes assigned on other objects than self: {name}"""
    out = set()
    for mod in p.modules.values():
        for fi in mod.functions + [f for ci in mod.all_classes for f in list(ci.methods.values()) + list(ci.setters.values())]:
            me = selfname(fi.node) if fi.cls else None
            for x in ast.walk(fi.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and not (isinstance(x.value, ast.Name) and x.value.id == me):
                    out.add(mangle(x.attr, fi.cls) if fi.cls else x.attr)
    return out


def has(ci, n):
    return ci.find(n) is not None or ci.find_setter(n) is not None or ci.find_attr(n) is not None or ci.find_class(n) is not None


def run(chk):
    chk.rule("attributes", "every attribute read from self is a method or class attribute, or is assigned by some method of the class or by users of its objects")
    chk.rule("members", "every member used of any object is defined by some class of the firmware or by a library type")
    chk.rule("signatures", "calls of resolved functions, constructors and own methods fit the signature")
    chk.rule("methods", "calls of methods of objects fit the signature of a class that defines the method")
    chk.rule("overrides", "overriding methods accept calls with all arguments of the overridden method")
    chk.rule("listeners", "objects registered as listeners have the methods that are called on listeners")
    chk.rule("names", "every name used is defined, and local names are assigned on every path before use")
    chk.rule("shared", "shared data is only read under keys that some component writes")
    chk.rule("run", "no abstract run of a shipped factory in a real controller raises an error")
    p = M.firmware()
    attributes(chk, p)
    others(chk, p)
    signatures(chk, p)
    overrides(chk, p)
    names(chk, p)
    shared(chk, p)
    runs(chk)
    for r, n in (("attributes", 1500), ("members", 1500), ("signatures", 500), ("methods", 100), ("overrides", 40), ("listeners", 8), ("names", 350), ("shared", 15), ("run", 3000)):
        chk.floor(r, n)


# ---- attributes
def attributes(chk, p):
    ext = outside(p)
    for ci in p.all_classes():
        if not ci.name[0].isalpha() and False:
            continue
        have = set()
        for k in ci.mro:
            have |= stores(k)
        for k in ci.mro:
            for fi in list(k.methods.values()) + list(k.setters.values()):
                me = selfname(fi.node)
                for x in ast.walk(fi.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == me:
                        n = mangle(x.attr, k)
                        good = n in have or has(ci, n) or n in ext or bool(ci.external_bases) or n in dir(object)
                        if not good and any(s is not ci and (n in stores(s) or has(s, n)) for s in p.subclasses(ci)):
                            good = abstract(p, ci)
                        chk.ob("attributes", "%s.%s in %s" % (ci.qual, x.attr, fi.name), good, "%s is never set on objects of %s" % (x.attr, ci.name), "%s:%d" % (k.module.rel, x.lineno))


def abstract(p, ci):
    """nobody creates objects of this class itself"""
    for mod in p.modules.values():
        for x in ast.walk(mod.tree):
            if isinstance(x, ast.Call) and isinstance(x.func, (ast.Name, ast.Attribute)):
                r = p.resolve_expr(mod, x.func, None)
                if r is ci:
                    return False
    return True


def others(chk, p):
    own, bi = members(p)
    for mod in p.modules.values():
        ext = externals(p, mod)
        for cls, x in within(mod):
            if not isinstance(x, ast.Attribute) or not isinstance(x.ctx, ast.Load):
                continue
            r = root(x)
            if isinstance(x.value, ast.Name) and x.value.id in ext or r in ext:
                continue
            if isinstance(x.value, ast.Name) and mod.bind.get(x.value.id, ("",))[0] == "module":
                continue
            n = mangle(x.attr, cls) if cls else x.attr
            chk.ob("members", "%s .%s" % (mod.rel, x.attr), n in own or n in bi or x.attr in EXTERNAL or known_external(x.attr), "nothing defines a member named %s" % x.attr, "%s:%d" % (mod.rel, x.lineno))


def root(x):
    while isinstance(x, (ast.Attribute, ast.Call, ast.Subscript)):
        x = x.func if isinstance(x, ast.Call) else x.value
    return x.id if isinstance(x, ast.Name) else None


def externals(p, mod):
    """names bound to external modules or what they contain"""
    out = set()
    for s in ast.walk(mod.tree):
        if isinstance(s, ast.Import):
            for a in s.names:
                if a.name not in p.modules:
                    out.add(a.asname or a.name.split(".")[0])
        elif isinstance(s, ast.ImportFrom) and mod._abs(s) not in p.modules:
            out |= {a.asname or a.name for a in s.names}
    return out


_ext = {}


def known_external(n):
    """the name occurs in a library that is shipped with the firmware"""
    if not _ext:
        _ext["blob"] = b""
        lib = os.path.join(c29.CONTENT, "lib")
        for dp, dn, fn in os.walk(lib):
            dn[:] = [d for d in dn if d != "pyswitch"]
            for f in fn:
                if f.endswith(".mpy"):
                    with open(os.path.join(dp, f), "rb") as h:
                        _ext["blob"] += h.read() + b"\0"
    return n.encode() in _ext["blob"]


# ---- signatures
def fits(node, npos, kws, skip, star):
    a = node.args
    ps = [x.arg for x in a.posonlyargs + a.args][skip:]
    need = len(ps) - len(a.defaults)
    if star:
        return None if all(k in ps or k in [x.arg for x in a.kwonlyargs] or a.kwarg for k in kws) else "no parameter %s" % [k for k in kws if k not in ps]
    if npos > len(ps) and not a.vararg:
        return "takes %d positional arguments, %d are given" % (len(ps), npos)
    for k in kws:
        if k in ps[:npos]:
            return "got two values for %s" % k
        if k not in ps and k not in [x.arg for x in a.kwonlyargs] and not a.kwarg:
            return "has no parameter %s" % k
    miss = [q for i, q in enumerate(ps) if i >= npos and i < need and q not in kws]
    miss += [q.arg for q, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and q.arg not in kws]
    return "misses %s" % ", ".join(miss) if miss else None


def shape(x):
    star = any(isinstance(q, ast.Starred) for q in x.args) or any(k.arg is None for k in x.keywords)
    return len([q for q in x.args if not isinstance(q, ast.Starred)]), [k.arg for k in x.keywords if k.arg], star


def signatures(chk, p):
    providers = {}
    for ci in p.all_classes():
        for n, fi in ci.methods.items():
            providers.setdefault(n, []).append(fi)
    bi = set()
    for t in BUILTIN_TYPES:
        bi |= set(dir(t))
    fields = members(p)[0] - set(providers)
    assigned = assigned_names(p)
    for mod in p.modules.values():
        ext = externals(p, mod)
        funcs = {}
        for cls, x in within(mod):
            if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                for y in ast.walk(x):
                    if isinstance(y, ast.Call):
                        funcs[y] = x
        for cls, x in within(mod):
            if not isinstance(x, ast.Call):
                continue
            f = funcs.get(x)
            n, kws, star = shape(x)
            where = "%s:%d" % (mod.rel, x.lineno)
            what = ast.unparse(x.func)
            local = bound_in(mod, f, x)
            if isinstance(x.func, ast.Name) and x.func.id in local:
                continue
            target = None
            if isinstance(x.func, ast.Name) or (isinstance(x.func, ast.Attribute) and root(x.func) not in local and root(x.func) is not None and not isinstance(x.func.value, ast.Call)):
                target = p.resolve_expr(mod, x.func, cls)
            skip, node = 0, None
            if isinstance(target, FuncInfo):
                node = target.node
                if target.cls and not target.is_static:
                    skip = 0
            elif isinstance(target, ClassInfo):
                fi = target.find("__init__")
                if fi is None:
                    if not target.external_bases:
                        chk.ob("signatures", "%s %s" % (mod.rel, what), n == 0 and not kws, "the constructor of %s takes no arguments" % target.name, where)
                    continue
                node, skip = fi.node, 1
            elif isinstance(x.func, ast.Attribute) and cls is not None and isinstance(x.func.value, ast.Call) and isinstance(x.func.value.func, ast.Name) and x.func.value.func.id == "super" and not x.func.value.args:
                fi = None
                for k in cls.mro[1:]:
                    if x.func.attr in k.methods:
                        fi = k.methods[x.func.attr]
                        break
                if fi is None:
                    chk.ob("signatures", "%s %s" % (mod.rel, what), bool(cls.external_bases) or x.func.attr in dir(object) and n == 0 or False, "no base class of %s defines %s" % (cls.name, x.func.attr), where)
                    continue
                node, skip = fi.node, 1
            elif isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and cls is not None and x.func.value.id == self_of(mod, cls, x):
                m = mangle(x.func.attr, cls)
                fi = cls.find(m)
                if fi is None:
                    continue            # value of an attribute
                node, skip = fi.node, 0 if fi.is_static else 1
            elif isinstance(x.func, ast.Attribute):
                m = mangle(x.func.attr, cls) if cls else x.func.attr
                ci = p.resolve_expr(mod, x.func.value, cls) if isinstance(x.func.value, (ast.Name, ast.Attribute)) and root(x.func) not in local else None
                if isinstance(ci, ClassInfo):
                    fi = ci.find(m)
                    if chk.ob("signatures", "%s %s defined" % (mod.rel, what), fi is not None or bool(ci.external_bases), "%s has no method %s" % (ci.name, x.func.attr), where) and fi is not None:
                        err = fits(fi.node, n, kws, 0, star)
                        chk.ob("signatures", "%s %s" % (mod.rel, what), err is None, "%s %s" % (what, err), where)
                    continue
                if x.func.attr in EXTERNAL_METHODS:
                    continue
                if root(x.func) in ext or x.func.attr in bi and m not in providers:
                    continue
                ps = providers.get(m)
                if not ps or m in assigned or known_external(x.func.attr) and False:
                    continue
                errs = [fits(q.node, n, kws, 0 if q.is_static else 1, star) for q in ps]
                good = any(q is None for q in errs) or x.func.attr in bi
                chk.ob("methods", "%s %s" % (mod.rel, what), good, "%s %s" % (x.func.attr, errs[0]), where)
                continue
            if node is None:
                continue
            err = fits(node, n, kws, skip, star)
            chk.ob("signatures", "%s %s" % (mod.rel, what), err is None, "%s %s" % (what, err), where)


def assigned_names(p):
    """member names that are (also) assigned as data, e.g. callbacks stored in attributes"""
    out = set()
    for mod in p.modules.values():
        for cls, x in within(mod):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                out.add(mangle(x.attr, cls) if cls else x.attr)
    return out


def chain(mod, node):
    """functions around a node, outermost first"""
    par = parents(mod)
    out = []
    x = node
    while x in par:
        x = par[x]
        if isinstance(x, (ast.FunctionDef, ast.Lambda)):
            out.append(x)
    return out[::-1]


_par = {}


def parents(mod):
    if mod not in _par:
        _par[mod] = {k: n for n in ast.walk(mod.tree) for k in ast.iter_child_nodes(n)}
    return _par[mod]


def self_of(mod, cls, node):
    for f in chain(mod, node):
        if isinstance(f, ast.FunctionDef) and parents(mod).get(f) is cls.node:
            return selfname(f)
    return None


def bound_in(mod, f, node):
    out = set()
    for g in chain(mod, node):
        a = g.args
        out |= {q.arg for q in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
        if isinstance(g, ast.FunctionDef):
            for q in ast.walk(g):
                if isinstance(q, ast.Name) and isinstance(q.ctx, ast.Store):
                    out.add(q.id)
                elif isinstance(q, (ast.FunctionDef, ast.ClassDef)) and q is not g:
                    out.add(q.name)
    return out


# ---- interfaces
def accepts(node, skip):
    a = node.args
    ps = [x.arg for x in a.posonlyargs + a.args][skip:]
    return len(ps) - len(a.defaults), (10 ** 6 if a.vararg else len(ps)), ps


def overrides(chk, p):
    for ci in p.all_classes():
        for n, fi in ci.methods.items():
            if n in ("__init__",) or n.startswith("_" + ci.name.lstrip("_") + "__"):
                continue
            base = next((k.methods[n] for k in ci.mro[1:] if n in k.methods), None)
            if base is None:
                continue
            lo, hi, ps = accepts(fi.node, 0 if fi.is_static else 1)
            blo, bhi, bps = accepts(base.node, 0 if base.is_static else 1)
            chk.ob("overrides", "%s.%s" % (ci.qual, n), lo <= bhi and hi >= bhi and fi.is_prop == base.is_prop, "%s accepts %d..%d arguments, the method it overrides %d..%d" % (n, lo, hi, blo, bhi), fi.where)
    need = listener_methods(p)
    for mod in p.modules.values():
        for cls, x in within(mod):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("register", "request") and cls is not None:
                me = self_of(mod, cls, x)
                for a in list(x.args)[1:] + [k.value for k in x.keywords]:
                    if isinstance(a, ast.Name) and a.id == me:
                        for sub in [cls] + [s for s in p.subclasses(cls)]:
                            for n, k in need.items():
                                fi = sub.find(n)
                                good = fi is not None and fits(fi.node, k, [], 1, False) is None
                                chk.ob("listeners", "%s %s" % (sub.qual, n), good, "%s is registered as a listener but has no method %s taking %d arguments" % (sub.name, n, k), "%s:%d" % (mod.rel, x.lineno))


def listener_methods(p):
    """methods the client calls on its listeners: declared by the listener base class"""
    ci = next((c2 for c2 in p.all_classes() if c2.name == "ClientRequestListener"), None)
    if ci is None:
        return {"parameter_changed": 1, "request_terminated": 1}
    return {n: accepts(f.node, 1)[1] for n, f in ci.methods.items()}


# ---- names
def names(chk, p):
    for mod in p.modules.values():
        bad = order(mod)
        chk.ob("names", mod.rel, not bad, "%s is used before it is defined, or never defined" % (bad[0][0] if bad else ""), "%s:%d" % (mod.rel, bad[0][1] if bad else 0))
        for f in ast.walk(mod.tree):
            if isinstance(f, ast.FunctionDef):
                bad = unassigned(f)
                chk.ob("names", "%s %s:%d" % (mod.rel, f.name, len([0])), not bad, "%s may be read before it is assigned in %s" % (bad[0][0] if bad else "", f.name), "%s:%d" % (mod.rel, bad[0][1] if bad else 0))


def unassigned(f):
    """[(name, line)] reads of local names that are not assigned on every path (same-condition guards are understood)"""
    loc = set()
    skip = set()

    def collect(n):
        for k in ast.iter_child_nodes(n):
            if isinstance(k, (ast.FunctionDef, ast.ClassDef)):
                loc.add(k.name)
                continue
            if isinstance(k, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for q in ast.walk(k):
                    if isinstance(q, ast.NamedExpr):
                        loc.add(q.target.id)
                continue
            if isinstance(k, (ast.Global, ast.Nonlocal)):
                skip.update(k.names)
            if isinstance(k, ast.Name) and isinstance(k.ctx, (ast.Store, ast.Del)):
                loc.add(k.id)
            if isinstance(k, (ast.Import, ast.ImportFrom)):
                loc.update(a.asname or a.name.split(".")[0] for a in k.names)
            if isinstance(k, ast.ExceptHandler) and k.name:
                loc.add(k.name)
            collect(k)
    collect(f)
    args = {q.arg for q in f.args.posonlyargs + f.args.args + f.args.kwonlyargs} | {q.arg for q in (f.args.vararg, f.args.kwarg) if q}
    loc -= skip
    loc -= args
    bad = []
    guards = {}          # name -> set of condition texts under which it is assigned

    def reads(e, have, conds):
        if e is None:
            return
        if isinstance(e, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            if not isinstance(e, ast.Lambda):
                reads(e.generators[0].iter, have, conds)
            return
        if isinstance(e, ast.Name) and isinstance(e.ctx, ast.Load) and e.id in loc and e.id not in have:
            if not (guards.get(e.id, set()) & conds):
                bad.append((e.id, e.lineno))
            return
        if isinstance(e, ast.BoolOp):
            c2 = set(conds)
            for v in e.values:
                reads(v, have, c2)
                if isinstance(e.op, ast.And):
                    c2 = c2 | atoms(v)
            return
        if isinstance(e, ast.IfExp):
            reads(e.test, have, conds)
            reads(e.body, have, conds | atoms(e.test))
            reads(e.orelse, have, conds | natoms(e.test))
            return
        for k in ast.iter_child_nodes(e):
            reads(k, have, conds)

    def targets(t, have):
        for q in ast.walk(t):
            if isinstance(q, ast.Name) and isinstance(q.ctx, ast.Store):
                have.add(q.id)

    def total(s):
        """the last branch of a chain of comparisons of one value with different constants is taken as an else"""
        chain = [s]
        while len(chain) < 50 and chain[0] in elifs:
            chain.insert(0, elifs[chain[0]])
        return len(chain) > 2 and bool(set.intersection(*[subjects(x.test) for x in chain]))
    elifs = {x.orelse[0]: x for x in ast.walk(f) if isinstance(x, ast.If) and len(x.orelse) == 1 and isinstance(x.orelse[0], ast.If)}

    def block(stmts, have, conds):
        """returns the names assigned at the end, or None if the end is not reached"""
        have = set(have)
        row = []
        for s in stmts:
            start = have
            r = stmt(s, have, conds)
            if r is None:
                return None
            have = r
            # consecutive decisions about one value, written as separate statements
            if isinstance(s, ast.If) and not s.orelse and subjects(s.test) and (not row or row[0][0] & subjects(s.test)):
                h = block(s.body, start, conds | atoms(s.test))
                row.append(((row[-1][0] if row else subjects(s.test)) & subjects(s.test), h))
                if len(row) > 2:
                    have = have | (join(*[h for _, h in row]) or set())
            else:
                row = []
        return have

    def join(*xs):
        xs = [x for x in xs if x is not None]
        return set.intersection(*xs) if xs else None

    def note(before, after, conds):
        for n in after - before:
            guards.setdefault(n, set()).update(conds)

    def stmt(s, have, conds):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return have | {s.name}
        if isinstance(s, ast.Assign):
            reads(s.value, have, conds)
            h = set(have)
            for t in s.targets:
                reads(t, have, conds)
                targets(t, h)
            return h
        if isinstance(s, (ast.AugAssign, ast.AnnAssign)):
            reads(s.value, have, conds)
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id in loc and s.target.id not in have:
                bad.append((s.target.id, s.lineno))
            elif not isinstance(s.target, ast.Name):
                reads(s.target, have, conds)
            h = set(have)
            targets(s.target, h)
            return h
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return have | {a.asname or a.name.split(".")[0] for a in s.names}
        if isinstance(s, ast.If):
            reads(s.test, have, conds)
            a, b = atoms(s.test), natoms(s.test)
            h1 = block(s.body, have, conds | a)
            h2 = block(s.orelse, have, conds | b) if s.orelse or not total(s) else None
            if h1 is not None:
                note(have, h1, {t for t in a} if len(a) == 1 or not isinstance(s.test, ast.BoolOp) else {ast.unparse(s.test)})
            if h2 is not None:
                note(have, h2, b)
            return join(h1, h2)
        if isinstance(s, (ast.For, ast.While)):
            reads(s.iter if isinstance(s, ast.For) else s.test, have, conds)
            h = set(have)
            if isinstance(s, ast.For):
                targets(s.target, h)
            block(s.body, h, conds | (atoms(s.test) if isinstance(s, ast.While) else set()))
            if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value:
                # leaves by break only
                return have
            return block(s.orelse, have, conds) if s.orelse else have
        if isinstance(s, ast.Try):
            h1 = block(s.body, have, conds)
            if h1 is not None and s.orelse:
                h1 = block(s.orelse, h1, conds)
            hs = [block(x.body, have | ({x.name} if x.name else set()), conds) for x in s.handlers]
            out = join(h1, *hs)
            if s.finalbody:
                fin = block(s.finalbody, have, conds)
                if fin is None:
                    return None
                if out is not None:
                    out = out | fin
            return out
        if isinstance(s, ast.With):
            h = set(have)
            for i in s.items:
                reads(i.context_expr, h, conds)
                if i.optional_vars is not None:
                    targets(i.optional_vars, h)
            return block(s.body, h, conds)
        if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            for k in ast.iter_child_nodes(s):
                reads(k, have, conds)
            return None
        for k in ast.iter_child_nodes(s):
            reads(k, have, conds)
        return have
    block(f.body, args, set())
    return bad


def subjects(t):
    """texts of the values which the condition compares for equality"""
    if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.Or):
        return set.intersection(*[subjects(v) for v in t.values])
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.Is)):
        return {ast.unparse(x) for x in (t.left, t.comparators[0]) if not isinstance(x, ast.Constant)}
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.In):
        return {ast.unparse(t.left)}
    return set()


def atoms(t):
    """texts of conditions known to hold if t holds"""
    if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
        return {ast.unparse(t)}.union(*[atoms(v) for v in t.values])
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return {"not " + ast.unparse(t.operand)}
    return {ast.unparse(t)}


def natoms(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return atoms(t.operand)
    if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.Or):
        return set().union(*[natoms(v) for v in t.values])
    return {"not " + ast.unparse(t)}


# ---- shared data
def shared(chk, p):
    written, read = set(), []
    for mod in p.modules.values():
        for cls, x in within(mod):
            if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Attribute) and x.value.attr == "shared":
                k = const(p, mod, x.slice)
                if k is None:
                    continue
                if isinstance(x.ctx, ast.Store):
                    written.add(k)
                else:
                    read.append((k, mod, x))
            elif isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.In, ast.NotIn)) and isinstance(x.comparators[0], ast.Attribute) and x.comparators[0].attr == "shared":
                k = const(p, mod, x.left)
                if k is not None:
                    read.append((k, mod, x))
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Attribute) and x.func.value.attr == "shared" and x.args:
                k = const(p, mod, x.args[0])
                if k is not None:
                    if x.func.attr == "setdefault":
                        written.add(k)
                    else:
                        read.append((k, mod, x))
    for k, mod, x in read:
        chk.ob("shared", "%s %s" % (mod.rel, k), k in written, "no component writes the shared value %s" % k, "%s:%d" % (mod.rel, x.lineno))


def const(p, mod, e):
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.Name):
        r = p.lookup(mod, e.id)
        if r and r[0] == "assign" and isinstance(r[1] if not isinstance(r[1], tuple) else r[1][0], ast.Constant):
            return (r[1] if not isinstance(r[1], tuple) else r[1][0]).value
    return None


# ---- abstract runs: every factory in a controller of its own, with real labels, client and protocol
SWITCHES = ["1", "2", "3", "4", "UP", "A", "B", "C", "D", "DOWN"]


class As:
    """reports the obligations of a borrowed check under one rule"""

    def __init__(self, chk, rule):
        self._chk, self._rule = chk, rule

    def __getattr__(self, n):
        return getattr(self._chk, n)

    def ob(self, rule, construct, ok, msg="", where=""):
        return self._chk.ob(self._rule, "%s %s" % (rule, construct), ok, msg, where)


def kinds():
    """[(label, name, module, arguments, "switch"|"pedal"|"wheel")]"""
    out = []
    for cons, name, mod, kw in factories.instances():
        r = factories.Rig(name, mod, kw, enable=False, labels=False)
        if r.raised is not None:
            raise AnalysisBroken("%s cannot be created" % cons)
        cl = r.lab.e.class_of(r.actions[0], r.st)
        out.append((cons, name, mod, kw, "switch" if not r.continuous else "pedal" if any(k.name == "AnalogAction" for k in cl.mro) else "wheel"))
    return out


LABEL = "DisplayLabel(bounds = DisplayBounds(0, 0, 120, 40), layout = %s)"
LAYOUTS = ('{"font": "/fonts/H20.pcf", "backColor": (9, 9, 9), "stroke": 1}', '{"font": "/fonts/PTSans-NarrowBold-40.pcf", "lineSpacing": 0.8, "maxTextWidth": 220, "text": "T", "textColor": (1, 2, 3), "backColor": (5, 5, 5)}',
           '{"font": "/fonts/H20.pcf", "backColor": (220, 230, 210)}')


def literal(v):
    return "(" + ", ".join(literal(x) for x in v) + ("," if len(v) == 1 else "") + ")" if isinstance(v, tuple) else repr(v)


def expression(lab, name, mod, kw, i, kind, displays):
    x = lab.p.lookup(lab.p.module(mod), name)[1]
    args = []
    for p, opt in factories.params(x):
        if p in kw:
            args.append("%s = %s" % (p, literal(kw[p])))
        elif p in ("display", "change_display", "preview_display") and displays:
            args.append("%s = L%d" % (p, i))
        elif p == "morph_display" and displays == 2:
            args.append("%s = L%d" % (p, i))
        elif opt:
            continue
        elif p == "mapping":
            args.append("mapping = MAPPING_AMP_GAIN()")
        elif p in factories.SAMPLE:
            args.append("%s = %s" % (p, literal(factories.SAMPLE[p])))
    return "%s(%s)" % (name, ", ".join(args))


def write(d, lab, items, layout, protocol, displays, config):
    src = ["from pyswitch.hardware.devices.pa_midicaptain_10 import *", "from pyswitch.clients.kemper.mappings.amp import MAPPING_AMP_GAIN", "from display import *"]
    for m, n in sorted({(m, n) for _, n, m, _, _ in items}):
        src.append("from %s import %s" % (m, n))
    src.append("Inputs = [")
    left = list(SWITCHES)
    for i, (cons, name, mod, kw, kind) in enumerate(items):
        port = {"pedal": "EXP_PEDAL_1", "wheel": "WHEEL_ENCODER"}.get(kind) or "SWITCH_" + left.pop(0)
        ex = expression(lab, name, mod, kw, i, kind, displays)
        src.append('    {"assignment": PA_MIDICAPTAIN_10_%s, "actions": [%s]%s},' % (port, ex, ', "actionsHold": [%s]' % ex if kind == "switch" and displays == 2 else ""))
    src.append("]")
    open(os.path.join(d, "inputs.py"), "w").write("\n".join(src) + "\n")
    disp = ["from pyswitch.clients.kemper import KemperRigNameCallback, TunerDisplayCallback", "from pyswitch.ui.ui import DisplayElement, DisplayBounds", "from pyswitch.ui.elements import DisplayLabel, BidirectionalProtocolState"]
    for i in range(len(items)):
        disp.append("L%d = %s" % (i, LABEL % layout))
    disp.append("Splashes = TunerDisplayCallback(strobe = True, splash_default = DisplayElement(bounds = DisplayBounds(0, 0, 240, 240), children = [%s]))" % ", ".join(
        ["L%d" % i for i in range(len(items))] + ['DisplayLabel(bounds = DisplayBounds(0, 40, 240, 160), layout = {"font": "/fonts/PTSans-NarrowBold-40.pcf"}, callback = KemperRigNameCallback(show_rig_id = True))'] + (["BidirectionalProtocolState(DisplayBounds(0, 0, 240, 10))"] if protocol else [])))
    open(os.path.join(d, "display.py"), "w").write("\n".join(disp) + "\n")
    with open(os.path.join(c29.CONTENT, "communication.py"), encoding="utf-8") as f:
        com = f.read()
    if not protocol:
        com = re.sub(r'"protocol".*?\),\n', "", com, count=1, flags=re.S)
    open(os.path.join(d, "communication.py"), "w").write(com)
    open(os.path.join(d, "config.py"), "w").write("Config = %r\n" % (config,))


def runs(chk):
    lab = Lab()
    todo = []
    groups = []
    for k in kinds():
        for g in groups:
            if len(g) < 5 and (k[4] == "switch" or all(x[4] != k[4] for x in g)) and all(x[1] != k[1] for x in g):
                g.append(k)
                break
        else:
            groups.append([k])
    n = 0
    for g in groups:
        for v in range(6 if chk.thorough else 2):
            todo.append((g, n, v))
            n += 1
    parallel(chk, program, todo)


def program(chk, items, n, v):
    lab = Lab()
    d = tempfile.mkdtemp(prefix="c26_")
    try:
        write(d, lab, items, LAYOUTS[(n + v) % 3], v % 2 == 0, (2, 1, 0)[(n // 2 + v) % 3], {"maxConsecutiveMidiMessages": 3, "enableMidiBridge": False} if v % 2 else {})
        p = c29.program(d)
        lab = Lab(p)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    rel = ", ".join(k[0] for k in items)[:160] + " (%s)" % ("protocol" if v % 2 == 0 else "requests")
    a = As(chk, "run")
    c29.hardware(lab)
    lab.e.opaque_raises = False
    val = {}
    for f in c29.FILES:
        bad = c29.execute(lab, f)
        w = [x for b in bad for x in b[2] if isinstance(x, Raise)]
        if not a.ob("load", "%s %s" % (rel, f), not bad, "raises %s %s" % (w[0].exc, w[0].msg) if w else "cannot be evaluated: %s" % (bad and bad[0][:2],), w[0].where if w else f):
            return
    for f, x in (("config", "Config"), ("communication", "Communication"), ("display", "Splashes"), ("inputs", "Inputs")):
        val[x] = lab.e.module_value(p.modules[f], x)
    lab.e.opaque_raises = True
    c29.start(a, lab, rel, val)
    chk.analysed(lab.e)
