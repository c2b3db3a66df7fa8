"""Aliasing: independently created objects own disjoint mutable state (write sets against reachable regions), containers passed in are not modified, and mutable defaults or class-level containers are never written."""
import ast

import sa.model as M
from sa.model import FuncInfo, ClassInfo, mangle
from checks.common import *
from checks.factories import Rig, instances
from checks import c26

# documented registries: containers shared on purpose (name of the class or module attribute's holder)
REGISTRIES = {"pyswitch.controller.client.ClientParameterMapping": "the parameters are singletons by name", "pyswitch.hardware.adafruit.AdafruitFontLoader": "the fonts are loaded once per file",
              "pyswitch.stats.Memory": "memory statistics of the device"}
MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update", "setdefault", "popitem", "add", "discard", "__setitem__"}


def run(chk):
    chk.rule("defaults", "no mutable default argument is modified, directly or by what it is stored in or passed to")
    chk.rule("class level", "no class-level or module-level container is modified by code, except the documented registries")
    chk.rule("twins", "creating and using one object changes nothing that is reachable from an independently created one (device parameters excepted)")
    chk.rule("arguments", "containers passed in are not modified by creating, initialising and using the object")
    p = M.firmware()
    static(chk, p)
    parallel(chk, twin, instances())
    elements(chk)
    clients(chk)
    for r, n in (("defaults", 12), ("class level", 90), ("twins", 900), ("arguments", 250)):
        chk.floor(r, n)


# ---- syntax: mutable defaults and class-level containers
def mutable(p, mod, e):
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        r = p.resolve_expr(mod, e.func, None) if isinstance(e.func, (ast.Name, ast.Attribute)) else None
        return isinstance(r, ClassInfo) or isinstance(e.func, ast.Name) and e.func.id in ("list", "dict", "set", "bytearray")
    return False


def writes(tree, match):
    """nodes that modify an object for which match(expression) holds"""
    out = []
    for x in ast.walk(tree):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS and match(x.func.value):
            out.append(x)
        elif isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, (ast.Store, ast.Del)) and match(x.value):
            out.append(x)
        elif isinstance(x, ast.AugAssign) and match(x.target) and isinstance(x.op, ast.Add):
            out.append(x)
    return out


class Flow:
    """follows one default object through names, attributes and calls"""

    def __init__(self, p):
        self.p = p
        self.seen = set()
        self.bad = []

    def param(self, fi, name):
        if (fi.qual, name) in self.seen:
            return
        self.seen.add((fi.qual, name))
        names = {name}
        me = c26.selfname(fi.node) if fi.cls else None
        # rebinding `x = x or []`, copies: x = list(x) make it another object; only plain aliases are followed
        for _ in range(3):
            for x in ast.walk(fi.node):
                if isinstance(x, ast.Assign) and self.alias(x.value, names):
                    for t in x.targets:
                        if isinstance(t, ast.Name):
                            names.add(t.id)
        fresh = {t.id for x in ast.walk(fi.node) if isinstance(x, ast.Assign) and not self.alias(x.value, names) for t in x.targets if isinstance(t, ast.Name)}
        if name in fresh:
            return
        self.bad += [(fi, w) for w in writes(fi.node, lambda e: isinstance(e, ast.Name) and e.id in names)]
        for x in ast.walk(fi.node):
            if isinstance(x, ast.Assign) and self.alias(x.value, names):
                for t in x.targets:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                        self.attribute(fi.cls, mangle(t.attr, fi.cls))
            elif isinstance(x, ast.Call):
                self.call(fi, x, names, me)

    def alias(self, e, names):
        if isinstance(e, ast.Name):
            return e.id in names
        if isinstance(e, ast.IfExp):
            return self.alias(e.body, names) or self.alias(e.orelse, names)
        if isinstance(e, ast.BoolOp):
            return any(self.alias(v, names) for v in e.values)
        return False

    def call(self, fi, x, names, me):
        f = x.func
        t = None
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in names:
            return
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super" and fi.cls:
            t, skip = next((k.methods[f.attr] for k in fi.cls.mro[1:] if f.attr in k.methods), None), 1
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == me and fi.cls:
            t, skip = fi.cls.find(mangle(f.attr, fi.cls)), 1
        elif isinstance(f, (ast.Name, ast.Attribute)):
            t, skip = self.p.resolve_expr(fi.module, f, fi.cls), 0
            if isinstance(t, ClassInfo):
                t, skip = t.find("__init__"), 1
        if not isinstance(t, FuncInfo):
            return
        ps = [a.arg for a in t.node.args.args][0 if t.is_static else skip:]
        for i, a in enumerate(x.args):
            if self.alias(a, names) and i < len(ps):
                self.param(t, ps[i])
        for k in x.keywords:
            if k.arg in ps and self.alias(k.value, names):
                self.param(t, k.arg)

    def attribute(self, cls, attr):
        if (cls.qual, attr) in self.seen:
            return
        self.seen.add((cls.qual, attr))
        for ci in [cls] + [s for s in self.p.subclasses(cls)]:
            for k in ci.mro:
                for fi in list(k.methods.values()) + list(k.setters.values()):
                    me = c26.selfname(fi.node)

                    def is_attr(e, k=k, me=me):
                        return isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == me and mangle(e.attr, k) == attr
                    self.bad += [(fi, w) for w in writes(fi.node, is_attr)]
                    al = {t.id for x in ast.walk(fi.node) if isinstance(x, ast.Assign) and is_attr(x.value) for t in x.targets if isinstance(t, ast.Name)}
                    self.bad += [(fi, w) for w in writes(fi.node, lambda e: isinstance(e, ast.Name) and e.id in al)]


def static(chk, p):
    fis = []
    for mod in p.modules.values():
        fis += mod.functions
        for ci in mod.all_classes:
            fis += list(ci.methods.values()) + list(ci.setters.values())
    for fi in fis:
        a = fi.node.args
        ps = a.posonlyargs + a.args
        for arg, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(k, d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if mutable(p, fi.module, d):
                f = Flow(p)
                f.param(fi, arg.arg)
                bad = f.bad[0] if f.bad else None
                chk.ob("defaults", "%s(%s)" % (fi.qual, arg.arg), not bad, "the default object of %s is modified in %s: %s" % (arg.arg, bad and bad[0].qual, bad and ast.unparse(bad[1])[:60]), "%s:%d" % (bad[0].module.rel, bad[1].lineno) if bad else fi.where)
    # class level
    shared = {}
    for ci in p.all_classes():
        for n, v in ci.attrs.items():
            if mutable(p, ci.module, v):
                shared[(ci, n)] = v
    for mod in p.modules.values():
        names = {n for n, b in mod.bind.items() if b[0] == "assign" and mutable(p, mod, b[1])}
        for cls, x in c26.within(mod):
            chk.by_rule["class level"] = chk.by_rule.get("class level", 0)
        for fi in mod.functions + [f for ci in mod.all_classes for f in list(ci.methods.values()) + list(ci.setters.values())]:
            loc = {q.arg for q in ast.walk(fi.node) if isinstance(q, ast.arg)} | {q.id for q in ast.walk(fi.node) if isinstance(q, ast.Name) and isinstance(q.ctx, ast.Store)}
            glob = {g for q in ast.walk(fi.node) if isinstance(q, ast.Global) for g in q.names}
            bad = writes(fi.node, lambda e: isinstance(e, ast.Name) and e.id in names and e.id not in loc)
            bad += [q for q in ast.walk(fi.node) if isinstance(q, ast.Name) and isinstance(q.ctx, ast.Store) and q.id in glob]

            def hits(e):
                if not isinstance(e, ast.Attribute):
                    return False
                owner = None
                if isinstance(e.value, ast.Name) and fi.cls is not None and e.value.id == c26.selfname(fi.node):
                    owner = fi.cls
                elif isinstance(e.value, (ast.Name, ast.Attribute)):
                    r = p.resolve_expr(fi.module, e.value, fi.cls)
                    owner = r if isinstance(r, ClassInfo) else None
                if owner is None:
                    return False
                n = mangle(e.attr, fi.cls) if fi.cls else e.attr
                for k in owner.mro:
                    if (k, n) in shared:
                        # an instance attribute of the same name hides the class attribute
                        if any(n in c26.stores(q) for q in owner.mro):
                            return False
                        return k.qual not in REGISTRIES
                return False
            bad += writes(fi.node, hits)
            # rebinding of class attributes through the class
            for q in ast.walk(fi.node):
                if isinstance(q, ast.Attribute) and isinstance(q.ctx, ast.Store) and isinstance(q.value, (ast.Name, ast.Attribute)):
                    r = p.resolve_expr(fi.module, q.value, fi.cls) if not (isinstance(q.value, ast.Name) and q.value.id in loc) else None
                    if isinstance(r, ClassInfo) and r.qual not in REGISTRIES:
                        bad.append(q)
            chk.ob("class level", fi.qual, not bad, "state shared by all objects is modified: %s" % (bad and ast.unparse(bad[0])[:60]), "%s:%d" % (mod.rel, bad[0].lineno) if bad else "")


# ---- heap regions
def region(lab, st, roots, stop=()):
    """ids of the objects reachable from roots, not through the stop objects"""
    e = lab.e
    seen = set()
    todo = list(roots)
    stop = {v[1] for v in stop}
    while todo:
        v = todo.pop()
        if v[0] == "o":
            if v[1] in seen or v[1] in stop:
                continue
            seen.add(v[1])
            o = e.h(st, v)
            if o.items is not None:
                todo += list(o.items.keys()) + list(o.items.values()) if isinstance(o.items, dict) else list(o.items)
            todo += list(o.attrs.values()) if o.attrs else []
        else:
            for x in v[1:]:
                parts(x, todo)
    return seen


def parts(x, todo):
    if isinstance(x, tuple):
        if x and isinstance(x[0], str):
            if len(x) > 1 and x[0] == "o" or x[0] in ("tup", "f", "k", "bm", "mcall", "b"):
                todo.append(x)
        else:
            for y in x:
                parts(y, todo)


def content(lab, st, ids):
    out = {}
    for i in ids:
        o = lab.e.h(st, ("o", i))
        it = o.items
        out[i] = (tuple(it.items()) if isinstance(it, dict) else tuple(it) if it is not None else None, tuple(sorted(o.attrs.items(), key=lambda q: q[0])) if o.attrs else ())
    return out


def describe(lab, st, i, a, b):
    o = lab.e.h(st, ("o", i))
    n = o.label or getattr(o.cls, "name", o.cls if isinstance(o.cls, str) else o.kind)
    ch = [k for k, v in b[1] if dict(a[1]).get(k) != v]
    return "%s%s" % (n, "." + ch[0] if ch else "")


def params(lab, st):
    """device parameters (shared on purpose)"""
    ci = lab.cls(CLI, "ClientParameterMapping")
    return [("o", i) for i in set(st.heap) | set(lab.e.static_heap) if lab.e.h(st, ("o", i)).kind == "inst" and isinstance(lab.e.h(st, ("o", i)).cls, ClassInfo) and lab.e.h(st, ("o", i)).cls.is_sub(ci)]


def registry(lab, ev):
    """the write belongs to a documented registry"""
    for q in REGISTRIES:
        m, _, n = q.rpartition(".")
        ci = lab.cls(m, n)
        if ev.recv == ("k", ci) or any(lab.e.class_attr(ci, a) == ev.recv for a in ci.attrs):
            return True
    return False


def twin(chk, cons, name, mod, kw):
    a = Rig(name, mod, kw)
    if a.raised is not None:
        chk.ob("twins", cons, False, "raises %s" % a.raised.exc, a.where)
        return
    lab, e = a.lab, a.lab.e
    ra = a.actions + a.updateables
    lab.st = a.st
    stop = params(lab, a.st)
    before = content(lab, a.st, region(lab, a.st, ra + [a.appl, a.switch, a.label, a.preview], stop))
    argc = {p: region(lab, a.st, [v], stop + [a.label, a.preview, a.enable]) for p, v in a.args.items()}
    b = Rig(name, mod, kw, lab=lab)
    st = b.st
    stop = params(lab, st)
    compare(chk, lab, "twins", cons + ": creation of another", before, st, a.where)
    # use b, look at a; and use a, look at b
    for who, use, other in (("first", a, b), ("second", b, a)):
        roots = [x for x in other.actions + other.updateables + [other.appl, other.switch, other.label, other.preview] if x]
        own = region(lab, st, [x for x in use.actions + [use.appl, use.switch, use.label, use.preview] if x], stop)
        theirs = region(lab, st, roots, stop)
        cur = [("", st)]
        for depth in range(2):
            nxt = []
            for h, s in cur:
                ref = content(lab, s, theirs)
                for nm, r in events(use, s):
                    for s2, v in r:
                        if isinstance(v, Raise):
                            continue
                        compare(chk, lab, "twins", "%s: use of the %s (%s %s)" % (cons, who, h, nm), ref, s2, a.where)
                        for ev in s2.trace():
                            if ev.kind == "static_write":
                                chk.ob("twins", "%s: %s" % (cons, ev.name), registry(lab, ev), "an object shared by all instances is modified", ev.where or a.where)
                        nxt.append((nm, rebase(s2)))
            cur = nxt[:: max(1, len(nxt) // (30 if chk.thorough else 8))]
        # arguments: containers among the options
        for p, v in use.args.items():
            if v[0] == "o" and e.h(st, v).kind in ("list", "dict", "set"):
                ids = [i for i in region(lab, st, [v], stop) if e.h(st, ("o", i)).kind in ("list", "dict", "set")]
                ref = content(lab, st, ids)
                fresh = content_of_source(lab, kw, p)
                chk.ob("arguments", "%s %s" % (cons, p), fresh is None or fresh == lab.canon(st, v), "%s was modified while the action was created" % p, a.where)
                for h, s in cur:
                    compare(chk, lab, "arguments", "%s %s after use" % (cons, p), ref, s, a.where)
    if not a.args:
        chk.ob("arguments", cons + " none", True)
    chk.analysed(e)


def content_of_source(lab, kw, p):
    """the argument as it was built, from the sample values"""
    from checks.factories import SAMPLE
    if p in kw or p in SAMPLE:
        st = lab.st.fork()
        return lab.canon(st, build(lab, kw[p] if p in kw else SAMPLE[p], st))
    return None


def events(rig, s):
    lab = rig.lab
    if rig.continuous:
        ev = [("process", lambda: rig.each(s, rig.actions, "process"))] if False else []
    else:
        ev = [("push", lambda: rig.each(s, rig.actions, "push")), ("release", lambda: rig.each(s, rig.actions, "release")), ("reset", lambda: rig.reset(s)), ("redraw", lambda: rig.redraw(s))]
    ev.append(("update", lambda: rig.each(s, rig.actions + rig.updateables, "update")))
    for m in rig.mappings[:3]:
        ev.append(("report", lambda m=m: rig.report(s, m, c(33) if rig.mtype(m, s) == "int" else c("abc"))))
        ev.append(("terminate", lambda m=m: rig.terminate(s, m)))
    for n, f in ev:
        yield n, f()


def compare(chk, lab, rule, cons, ref, s, where):
    now = content(lab, s, ref)
    bad = next((i for i in ref if ref[i] != now[i]), None)
    chk.ob(rule, cons, bad is None, "%s of an independent object was modified" % (describe(lab, s, bad, ref[bad], now[bad]) if bad is not None else ""), where)


# ---- display elements
def elements(chk):
    UI, EL = "pyswitch.ui.ui", "pyswitch.ui.elements"
    lab = Lab()
    e, st = lab.e, lab.st
    layout = build(lab, {"font": "/fonts/H20.pcf", "backColor": (9, 9, 9), "text": "abc", "stroke": 2}, st)
    (st, bounds), = must(lab, lab.new(lab.cls(UI, "DisplayBounds"), [c(0), c(0), c(240), c(100)], st=st), "bounds")
    mk = {
        "DisplayElement": lambda s: lab.new(lab.cls(UI, "DisplayElement"), [], st=s),
        "DisplayElement(bounds)": lambda s: lab.new(lab.cls(UI, "DisplayElement"), [bounds], st=s),
        "DisplayLabel": lambda s: lab.new(lab.cls(EL, "DisplayLabel"), [layout], st=s),
        "DisplayLabel(bounds)": lambda s: lab.new(lab.cls(EL, "DisplayLabel"), [layout, bounds], st=s),
        "DisplaySplitContainer": lambda s: lab.new(lab.cls("pyswitch.ui.DisplaySplitContainer", "DisplaySplitContainer"), [], st=s),
        "DisplaySplitContainer(bounds)": lambda s: lab.new(lab.cls("pyswitch.ui.DisplaySplitContainer", "DisplaySplitContainer"), [c(1), bounds], st=s),
        "BidirectionalProtocolState": lambda s: lab.new(lab.cls(EL, "BidirectionalProtocolState"), [bounds], st=s),
        "TunerDisplay": lambda s: lab.new(lab.cls(EL, "TunerDisplay"), [mapping(lab, s, "note"), mapping(lab, s, "dev"), bounds, layout], st=s),
    }
    for n, f in mk.items():
        s = st.fork()
        ref0 = content(lab, s, region(lab, s, [layout, bounds]))
        (s, a), = must(lab, f(s), n)
        (s, b), = must(lab, f(s), n)
        compare(chk, lab, "arguments", n, ref0, s, n)
        shared = region(lab, s, [layout, bounds]) | {i for i in lab.e.static_heap}
        child = must(lab, lab.new(lab.cls(UI, "DisplayElement"), [], st=s), n)[0]
        s, ch = child
        acts = [("add", lambda x, s: lab.method(x, "add", [ch], st=s)), ("make_splash", lambda x, s: lab.method(x, "make_splash", [e.sym("fonts")], st=s)), ("bounds", lambda x, s: lab.set(("attr", x), "x", c(3), st=s) if False else setx(lab, x, s))]
        if "Label" in n:
            appl, cl = application(lab, s, low_memory_warning=FALSE)
            ui = lab.bound("ui", {"splash": e.sym("splash"), "font_loader": e.sym("fonts")}, st=s)
            acts += [("init", lambda x, s: lab.method(x, "init", [ui, appl], st=s))]
            acts += [("text", lambda x, s: lab.set(x, "text", c("new"), st=s)), ("back_color", lambda x, s: lab.set(x, "back_color", c((1, 1, 1)), st=s)), ("text_color", lambda x, s: lab.set(x, "text_color", c((1, 1, 2)), st=s))]
        for x, y in ((a, b), (b, a)):
            ids = region(lab, s, [y])
            ref = content(lab, s, ids)
            ra = content(lab, s, region(lab, s, [layout, bounds]))
            q = s
            for nm, do in acts:
                for s2, v in do(x, rebase(q)):
                    if isinstance(v, Raise):
                        continue
                    compare(chk, lab, "twins", "%s %s" % (n, nm), ref, s2, n)
                    compare(chk, lab, "arguments", "%s %s" % (n, nm), ra, s2, n)
                    q = s2
    chk.analysed(e)


def setx(lab, x, s):
    """moving an element by its own bounds"""
    out = []
    for s1, b in lab.get(x, "bounds", st=s):
        if isinstance(b, Raise) or b[0] != "o":
            continue
        out += lab.set(b, "x", c(77), st=s1)
    return out


# ---- clients, protocol, callbacks, updaters
def clients(chk):
    specs = [
        ("Client", lambda lab, s: lab.new(lab.cls(CLI, "Client"), [lab.bound("midi", {}, st=s), build(lab, CONFIG, s)], st=s),
         [("register", lambda lab, x, s, m, l: lab.method(x, "register", [m, l], st=s)), ("request", lambda lab, x, s, m, l: lab.method(x, "request", [m, l], st=s)),
          ("set", lambda lab, x, s, m, l: lab.method(x, "set", [m, c(3)], st=s)), ("update", lambda lab, x, s, m, l: lab.method(x, "update", [], st=s))]),
        ("Callback", lambda lab, s: lab.new(lab.cls(CB, "Callback"), [], st=s), [("register_mapping", lambda lab, x, s, m, l: lab.method(x, "register_mapping", [m], st=s))]),
        ("Updater", lambda lab, s: lab.new(lab.cls("pyswitch.misc", "Updater"), [], st=s), [("add_updateable", lambda lab, x, s, m, l: lab.method(x, "add_updateable", [updateable(lab, s)], st=s)), ("update", lambda lab, x, s, m, l: lab.method(x, "update", [], st=s))]),
        ("KemperBidirectionalProtocol", lambda lab, s: lab.new(lab.cls(KEM, "KemperBidirectionalProtocol"), [c(30)], st=s),
         [("init", lambda lab, x, s, m, l: lab.method(x, "init", [lab.bound("midi", {}, st=s), client(lab, s)], st=s)), ("update", lambda lab, x, s, m, l: lab.method(x, "update", [], st=s))]),
        ("Action", lambda lab, s: lab.new(lab.cls(ACT, "Action"), [], st=s), []),
        ("PushButtonAction", lambda lab, s: lab.new(lab.cls(ACT, "PushButtonAction"), [], st=s), []),
        ("PeriodCounter", lambda lab, s: lab.new(lab.cls("pyswitch.misc", "PeriodCounter"), [c(100)], st=s), [("reset", lambda lab, x, s, m, l: lab.method(x, "reset", [], st=s))]),
        ("AdafruitFontLoader", lambda lab, s: lab.new(lab.cls("pyswitch.hardware.adafruit", "AdafruitFontLoader"), [], st=s), []),
        ("AdafruitNeoPixelDriver", lambda lab, s: lab.new(lab.cls("pyswitch.hardware.adafruit", "AdafruitNeoPixelDriver"), [], st=s), [("init", lambda lab, x, s, m, l: lab.method(x, "init", [c(5)], st=s))]),
    ]
    for n, make, uses in specs:
        lab = Lab()
        e, st = lab.e, lab.st
        st, m = c06_mapping(lab, st)
        l = lab.bound("listener", {}, st=st)
        (st, a), = must(lab, make(lab, st), n)
        ref = content(lab, st, region(lab, st, [a], [m]))
        (st, b), = must(lab, make(lab, st), n)
        compare(chk, lab, "twins", n + ": creation of another", ref, st, n)
        for x, y in ((a, b), (b, a)):
            ids = region(lab, st, [y], [m, l])
            cur = [st]
            for nm, do in uses:
                nxt = []
                for s in cur:
                    ref = content(lab, s, ids)
                    for s2, v in do(lab, x, rebase(s), m, l):
                        if not isinstance(v, Raise):
                            compare(chk, lab, "twins", "%s %s" % (n, nm), ref, s2, n)
                            nxt.append(s2)
                cur = nxt[:8]
        if not uses:
            chk.ob("twins", n, not (region(lab, st, [a]) & region(lab, st, [b]) - set(e.static_heap)), "two objects share a mutable part", n)
        chk.analysed(e)


def c06_mapping(lab, st):
    from checks.c06 import real_mapping
    return real_mapping(lab, st, "P")


def updateable(lab, s):
    return lab.bound("u", {}, st=s)
