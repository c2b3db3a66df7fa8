"""Shipped configurations: every configuration directory is evaluated abstractly, file by file, and the controller is built and started with it; a lint checks imports, option keys, order of definitions and fonts."""
import ast
import os
import re

import sa.model as M
from sa.model import Module, Program, REPO
from checks.common import *
from checks.c24 import library
from checks.c28 import exists

FILES = ("config", "communication", "display", "inputs")
CONTENT = os.path.join(REPO, "content")


def directories():
    """every directory with a configuration file of the firmware"""
    out = [CONTENT]
    for root in (os.path.join(REPO, "examples"), os.path.join(REPO, "web/htdocs/templates")):
        for dp, dn, fn in os.walk(root):
            dn.sort()
            if {f + ".py" for f in FILES} & set(fn):
                out.append(dp)
    return out


def program(d):
    """the firmware with the configuration of the directory, missing files as in the default configuration"""
    fw = M.firmware()
    p = Program([])
    p.modules = dict(fw.modules)
    for n in FILES:
        f = os.path.join(d, n + ".py")
        if not os.path.exists(f):
            f = os.path.join(CONTENT, n + ".py")
        p.modules[n] = Module(p, n, f, False)
    return p


def hardware(lab):
    """typed readings of the input hardware, drivers as opaque objects"""
    library(lab, "DigitalInOut", "AnalogIn", "IncrementalEncoder", "UART", "MIDI", "NeoPixel", "Rect", "RoundRect", "Label", "Group", "Keyboard")

    def h(eng, st, b, name, ctx, node):
        if b[0] == "o" and name in ("value", "position"):
            o = eng.h(st, b)
            l = str(o.label or "")
            if l.startswith("lib.") and name not in o.attrs:
                n = st.count(("hw", b, name))
                v = ("r", "%s.%s" % (l, name), b[1], n)
                eng.types[v] = "bool" if l == "lib.DigitalInOut" else "int"
                if l == "lib.AnalogIn":
                    eng.bounds[v] = (0, 65535)
                return [(st, v)]
        return None
    lab.e.attr_hooks.insert(0, h)


def understood(p):
    """option keys read by the firmware, per package: string literals used as keys"""
    out = {}
    trees = {n: m.tree for n, m in p.modules.items() if n.startswith("pyswitch")}
    for n, t in trees.items():
        keys = set()
        for x in ast.walk(t):
            if isinstance(x, ast.Constant) and isinstance(x.value, str):
                keys.add(x.value)
        out[n] = keys
    return out


def union(keys, *prefixes):
    r = set()
    for n, k in keys.items():
        if any(n.startswith(x) for x in prefixes):
            r |= k
    return r


def run(chk):
    chk.rule("imports", "every name a configuration imports exists in the module it is imported from, and the module exists on the device")
    chk.rule("order", "no configuration uses a name before it is defined, or one that is never defined")
    chk.rule("load", "evaluating the configuration raises no error: every factory is called with arguments it accepts")
    chk.rule("init", "the controller is created and started with the configuration without an error")
    chk.rule("inputs", "every entry of the inputs yields a controller of its own, no hardware input is assigned twice, and the LEDs exist")
    chk.rule("keys", "every option key used is one the firmware reads")
    chk.rule("fonts", "every font used is shipped")
    chk.rule("use", "after the start, with nothing known about the device, pressing and releasing each switch, moving each pedal and wheel, and one update raise no error")
    chk.rule("receive", "answers of the device for all parameters of the configuration with the values 0, 1, 1027 and 16383 raise no error, and neither does any input afterwards")
    chk.rule("template", "the configuration template of the editor only offers options the firmware reads")
    dirs = directories()
    if len(dirs) < 45:
        raise AnalysisBroken("only %d configurations found" % len(dirs))
    chk.notes["configurations"] = len(dirs)
    parallel(chk, one, [(d,) for d in dirs])
    template(chk)
    for r, n in (("imports", 900), ("order", 90), ("load", 180), ("init", 45), ("inputs", 400), ("keys", 2000), ("fonts", 300), ("use", 400), ("receive", 1000), ("template", 8)):
        chk.floor(r, n)


def bound_names(t, out):
    for x in ast.walk(t):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.add(x.id)


def loads(x):
    """names the evaluation of a node reads at once (bodies of functions and lambdas are evaluated later, comprehension targets are local)"""
    if isinstance(x, (ast.FunctionDef, ast.Lambda)):
        out = []
        for d in getattr(x, "decorator_list", []) + x.args.defaults + [k for k in x.args.kw_defaults if k]:
            out += loads(d)
        return out
    if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
        loc = set()
        for g in x.generators:
            bound_names(g.target, loc)
        out = []
        for ch in ast.iter_child_nodes(x):
            out += loads(ch)
        return [n for n in out if n.id not in loc]
    if isinstance(x, ast.ClassDef):
        loc, out = set(), []
        for d in x.decorator_list + x.bases + [k.value for k in x.keywords]:
            out += loads(d)
        for s in x.body:
            out += [n for n in loads(s) if n.id not in loc]
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                loc.add(s.name)
            else:
                bound_names(s, loc)
        return out
    if isinstance(x, ast.Name):
        return [x] if isinstance(x.ctx, ast.Load) else []
    out = []
    for ch in ast.iter_child_nodes(x):
        out += loads(ch)
    return out


def order(mod):
    """[(name, line)] of module level uses before (or without) a definition, and of uses in functions that are never defined"""
    import builtins
    have = set(dir(builtins)) | {"__name__", "__file__"}
    for m in mod.star:
        if m in mod.program.modules:
            have |= set(mod.program.modules[m].bind)
    bad = []

    def stmts(body):
        for s in body:
            if isinstance(s, (ast.If, ast.For, ast.While, ast.Try, ast.With)):
                for f in ("test", "iter"):
                    if getattr(s, f, None) is not None:
                        check(getattr(s, f))
                if isinstance(s, ast.For):
                    bound_names(s.target, have)
                for f in ("body", "handlers", "orelse", "finalbody"):
                    for q in getattr(s, f, []) or []:
                        if isinstance(q, ast.ExceptHandler) and q.name:
                            have.add(q.name)
                        stmts(q.body if isinstance(q, ast.ExceptHandler) else [q])
                continue
            check(s)
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                for a in s.names:
                    have.add(a.asname or a.name.split(".")[0])
            elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                have.add(s.name)
            else:
                bound_names(s, have)

    def check(s):
        for n in loads(s):
            if n.id not in have:
                bad.append((n.id, n.lineno))
    stmts(mod.tree.body)
    for f in ast.walk(mod.tree):
        if isinstance(f, (ast.FunctionDef, ast.Lambda)):
            loc = set()
            for q in ast.walk(f):
                if isinstance(q, ast.arg):
                    loc.add(q.arg)
                elif isinstance(q, ast.Name) and isinstance(q.ctx, ast.Store):
                    loc.add(q.id)
                elif isinstance(q, (ast.FunctionDef, ast.ClassDef)):
                    loc.add(q.name)
                elif isinstance(q, (ast.Import, ast.ImportFrom)):
                    loc |= {a.asname or a.name.split(".")[0] for a in q.names}
                elif isinstance(q, ast.ExceptHandler) and q.name:
                    loc.add(q.name)
            outer = enclosing(mod.tree, f)
            for q in ast.walk(f):
                if isinstance(q, ast.Name) and isinstance(q.ctx, ast.Load) and q.id not in loc and q.id not in have and q.id not in outer:
                    bad.append((q.id, q.lineno))
    return sorted(set(bad), key=lambda x: (x[1], x[0]))


def enclosing(tree, f):
    """names bound in the functions around f"""
    out = set()
    for g in ast.walk(tree):
        if isinstance(g, (ast.FunctionDef, ast.Lambda)) and g is not f and any(q is f for q in ast.walk(g)):
            for q in ast.walk(g):
                if isinstance(q, ast.arg):
                    out.add(q.arg)
                elif isinstance(q, ast.Name) and isinstance(q.ctx, ast.Store):
                    out.add(q.id)
                elif isinstance(q, (ast.FunctionDef, ast.ClassDef)):
                    out.add(q.name)
    return out


def imports(chk, p, mod):
    for s in ast.walk(mod.tree):
        if isinstance(s, ast.ImportFrom):
            m = mod._abs(s)
            if m in p.modules:
                for a in s.names:
                    if a.name != "*":
                        r = p.lookup_from(m, a.name)
                        chk.ob("imports", "%s %s" % (mod.rel, a.name), r is not None and r[0] != "missing", "%s does not exist in %s" % (a.name, m), "%s:%d" % (mod.rel, s.lineno))
            else:
                chk.ob("imports", "%s %s" % (mod.rel, m), exists(m), "module %s does not exist" % m, "%s:%d" % (mod.rel, s.lineno))
        elif isinstance(s, ast.Import):
            for a in s.names:
                chk.ob("imports", "%s %s" % (mod.rel, a.name), a.name in p.modules or exists(a.name), "module %s does not exist" % a.name, "%s:%d" % (mod.rel, s.lineno))


def entries(lab, st, v):
    o = lab.e.h(st, v) if v is not None and v[0] == "o" else None
    return o.items if o is not None and o.items is not None else None


def execute(lab, name):
    """evaluates the module in order; returns the errors"""
    e = lab.e
    mod = lab.p.module(name)
    n = len(e.static_bad)
    from sa.engine import _All, State
    for s in mod.tree.body:
        if isinstance(s, (ast.Assign, ast.AnnAssign)) and all(isinstance(t, (ast.Name, ast.Tuple)) for t in (s.targets if isinstance(s, ast.Assign) else [s.target])):
            for t in ast.walk(s):
                if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                    e.module_value(mod, t.id)
        elif isinstance(s, (ast.Assign, ast.AugAssign, ast.Delete)) or isinstance(s, ast.Expr) and not isinstance(s.value, ast.Constant):
            st = State()
            st.heap = e.static_heap
            st.own = _All()
            for s1, ctl in e.stmt(s, st, e.static_ctx(mod)):
                if ctl and ctl[0] == "raise":
                    e.static_bad.append(((name, s.lineno), name, [ctl[1]]))
    return e.static_bad[n:]


def one(chk, d):
    rel = os.path.relpath(d, REPO)
    p = program(d)
    keys = understood(p)
    own = [n for n in FILES if p.modules[n].path.startswith(d + os.sep)]
    for n in own:
        mod = p.modules[n]
        imports(chk, p, mod)
        bad = order(mod)
        chk.ob("order", mod.rel, not bad, "%s is used before it is defined" % (bad[0][0] if bad else ""), "%s:%d" % (mod.rel, bad[0][1] if bad else 0))
    lab = Lab(p)
    e, st = lab.e, lab.st
    hardware(lab)
    e.opaque_raises = False
    val = {}
    fine = True
    for n in FILES:
        bad = execute(lab, n)
        w = [x for b in bad for x in b[2] if isinstance(x, Raise)]
        fine &= chk.ob("load", "%s %s" % (rel, n), not bad, ("raises %s %s" % (w[0].exc, w[0].msg) if w else "cannot be evaluated: %s" % (bad and bad[0][:2],)), w[0].where if w else p.modules[n].rel)
    if not fine:
        return
    for n, a in (("config", "Config"), ("communication", "Communication"), ("display", "Splashes"), ("inputs", "Inputs")):
        if a in p.modules[n].bind:
            val[a] = e.module_value(p.modules[n], a)
        if not chk.ob("load", "%s %s" % (rel, a), val.get(a) is not None and val[a][0] == "o", "%s is not defined in %s.py" % (a, n), p.modules[n].rel):
            return
    e.opaque_raises = True
    options(chk, lab, rel, val, keys, p)
    start(chk, lab, rel, val)
    chk.analysed(e)


def options(chk, lab, rel, val, keys, p):
    e, st = lab.e, lab.st
    conf = union(keys, "pyswitch")
    for k in entries(lab, st, val["Config"]) or {}:
        chk.ob("keys", "%s Config %s" % (rel, k[2]), k[2] in conf, "the firmware does not know the option %s" % k[2], p.modules["config"].rel)
    ctl = union(keys, "pyswitch.controller.controller", "pyswitch.controller.inputs", "pyswitch.controller.midi", "pyswitch.process")
    for i, x in enumerate(entries(lab, st, val["Inputs"]) or []):
        for k in entries(lab, st, x) or {}:
            chk.ob("keys", "%s Inputs %d %s" % (rel, i, k[2]), k[2] in ctl, "the firmware does not know the option %s" % k[2], p.modules["inputs"].rel)
    com = entries(lab, st, val["Communication"]) or {}
    for k in com:
        chk.ob("keys", "%s Communication %s" % (rel, k[2]), k[2] in ctl, "the firmware does not know the option %s" % k[2], p.modules["communication"].rel)
    # layouts of labels: dictionaries passed as `layout`, directly or by a module level name
    ui = union(keys, "pyswitch.ui")
    names = {}
    acts = {n: union(keys, n) | union(keys, "pyswitch.controller.actions") for n in keys}
    for n in FILES:
        mod = p.modules[n]
        for x in ast.walk(mod.tree):
            if not isinstance(x, ast.Call):
                continue
            for kw in x.keywords:
                dct = kw.value
                if isinstance(dct, ast.Name) and mod.bind.get(dct.id, ("",))[0] == "assign":
                    dct = mod.bind[dct.id][1]
                if not isinstance(dct, ast.Dict):
                    continue
                target = None
                if kw.arg == "layout":
                    target = ui
                if target is None:
                    continue
                for k, v in zip(dct.keys, dct.values):
                    if isinstance(k, ast.Constant):
                        chk.ob("keys", "%s %s" % (mod.rel, k.value), k.value in target, "the firmware does not know the option %s" % k.value, "%s:%d" % (mod.rel, k.lineno))
                        if k.value == "font" and isinstance(v, ast.Constant):
                            f = os.path.join(CONTENT, str(v.value).lstrip("/"))
                            chk.ob("fonts", "%s %s" % (mod.rel, v.value), any(os.path.exists(f + q) for q in ("", ".pcf", ".bdf")), "font %s is not shipped" % v.value, "%s:%d" % (mod.rel, v.lineno))


def start(chk, lab, rel, val):
    e, st = lab.e, lab.st
    NP = {}

    def linit(eng, s, a, k):
        n = plain(lab, a[0], s)
        NP["n"] = n
        hset(lab, s, led, "leds", e.mklist(s, [tup(c(0), c(0), c(0))] * n))
        return NONE
    led = lab.bound("led", {}, st=st, methods={"init": linit})
    dd = lab.bound("driver", {"width": c(240), "height": c(240)}, st=st)
    fl = lab.bound("fonts", {}, st=st)
    inputs = entries(lab, st, val["Inputs"])
    com = entries(lab, st, val["Communication"])
    mid = entries(lab, st, com.get(c("midi"))) if com else None
    if not chk.ob("init", rel + " structure", inputs is not None and mid is not None and c("routings") in mid, "inputs or MIDI routings are missing", rel):
        return
    models = {}
    for i, x in enumerate(inputs):
        d = entries(lab, st, x) or {}
        a = entries(lab, st, d.get(c("assignment"))) if c("assignment") in d else None
        if not chk.ob("inputs", "%s %d" % (rel, i), bool(a) and c("model") in a, "input %d has no hardware assignment" % i, rel):
            return
        m = a[c("model")]
        # two entries may use one hardware input only as the same object
        k = lab.canon(st, m)
        nm = plain(lab, a.get(c("name"), NONE), st)
        chk.ob("inputs", "%s %s once" % (rel, nm or i), k not in models, "%s is assigned by two entries of the inputs" % nm, rel)
        models[k] = i
    r = ok(chk, "init", rel, lab.new(lab.cls("pyswitch.controller.midi", "MidiController"), [mid[c("routings")]], st=st))
    r = [(s2, m, u) for s, m in r for s2, u in ok(chk, "init", rel, lab.new(lab.cls("pyswitch.ui.UiController", "UiController"), [dd, fl, val["Splashes"]], st=s))]
    states = {}
    for s, m, u in r:
        kw = {"led_driver": led, "midi": m, "protocol": com.get(c("protocol"), NONE), "config": val["Config"], "inputs": val["Inputs"], "ui": u}
        for s1, o in ok(chk, "init", rel, lab.new(lab.cls("pyswitch.controller.controller", "Controller"), [], kw, st=s)):
            got = lab.e.h(s1, lab.get(o, "inputs", st=s1)[0][1]).items
            chk.ob("inputs", rel + " controllers", got is not None and len(got) == len(inputs), "%d inputs lead to %s controllers" % (len(inputs), got and len(got)), rel)
            for s2, v in ok(chk, "init", rel, lab.method(o, "init", [], st=s1)):
                chk.ob("init", rel, True)
                states.setdefault(lab.canon(s2, o), (s2, o))
    timer = [False]

    def period(eng, st, b, name, ctx, node):
        if name in ("exceeded", "passed") and b[0] == "o" and getattr(eng.class_of(b, st), "qual", "") == PERIOD:
            return [(st, c(bool(timer[0])) if name == "exceeded" else c(5000 if timer[0] is True else 1))]
        return None
    e.attr_hooks.insert(0, period)
    todo = [(s, o, t) for s, o in list(states.values())[:1 if not chk.thorough else 4] for t in (False, True)]
    for s, o, t in todo:
        timer[0] = t
        s = rebase(s)
        press(chk, lab, rel, s, o)
        if not t:
            answers(chk, lab, rel, s, o, timer)


def press(chk, lab, rel, s, o):
    e = lab.e
    for i, inp in enumerate(e.h(s, lab.get(o, "inputs", st=s)[0][1]).items):
        cur = [s]
        for step in range(2):
            nxt = {}
            for q in cur:
                for a, b in ok(chk, "use", "%s input %d" % (rel, i), lab.method(inp, "process", [], st=rebase(q))):
                    nxt.setdefault(lab.canon(a, o), a)
            chk.ob("use", "%s input %d" % (rel, i), True)
            cur = list(nxt.values())
    ups = e.h(s, lab.get(o, "updateables", st=s)[0][1]).items
    if not ups:
        raise AnalysisBroken("the updateables of the controller were not found")
    for i, u in enumerate(ups):
        for m in ("update", "reset"):
            for a, b in ok(chk, "use", "%s %s %d %s" % (rel, m, i, getattr(e.class_of(u, s), "name", "")), lab.method(u, m, [], st=rebase(s))):
                chk.ob("use", rel + " update", True)


def template(chk):
    path = os.path.join(REPO, "web/htdocs/templates/config-template.py")
    rel = os.path.relpath(path, REPO)
    with open(path, encoding="utf-8") as f:
        src = f.read()
    keys = union(understood(M.firmware()), "pyswitch")
    for i, line in enumerate(src.splitlines(), 1):
        code = line.split("#")[0]
        for k in re.findall(r"%(\w+)%", code) + re.findall(r"\"(\w+)\"\s*:", code):
            chk.ob("template", k, k in keys, "the firmware does not know the option %s" % k, "%s:%d" % (rel, i))


def mappings(lab, s):
    """all parameters the configuration defines"""
    ci = lab.cls(CLI, "ClientParameterMapping")
    ids = set(s.heap) | set(lab.e.static_heap)
    out = [("o", i) for i in sorted(ids) if getattr(lab.e.h(s, ("o", i)), "kind", "") == "inst" and hasattr(lab.e.h(s, ("o", i)).cls, "is_sub") and (lab.e.h(s, ("o", i)).cls is ci or lab.e.h(s, ("o", i)).cls.is_sub(ci))]
    return [m for m in out if hget(lab, s, m, "response") not in (None, NONE)]


def answer(lab, s, m, hi, lo):
    """messages with which the device answers the parameter"""
    e = lab.e
    r = hget(lab, s, m, "response")
    parts = e.h(s, r).items if r[0] == "o" and e.h(s, r).kind == "list" else [r]
    out = []
    for p in parts or []:
        o = e.h(s, p)
        a = o.attrs
        if "control" in a:
            (s, v), = must(lab, lab.call(("x", CC), [a["control"], lo], st=s), "answer")
        elif "patch" in a:
            (s, v), = must(lab, lab.call(("x", PC), [lo], st=s), "answer")
        elif "data" in a:
            man, dat = (seqof(lab, s, a[k]) for k in ("manufacturer_id", "data"))
            if man is None or dat is None:
                raise AnalysisBroken("response of a parameter is not constant")
            (s, v), = must(lab, lab.call(("x", SX), [e.mklist(s, man), e.mklist(s, dat[:6] + [hi, lo])], st=s), "answer")
        else:
            return s, None
        out.append(v)
    return s, out


def seqof(lab, s, v):
    if v[0] == "tup":
        return list(v[1])
    if v[0] == "o":
        return list(lab.e.h(s, v).items)
    if v[0] == "c" and isinstance(v[2], bytes):
        return [c(x) for x in v[2]]
    return None


VALUES = ((0, 0), (0, 1), (8, 3), (127, 127))


def answers(chk, lab, rel, s, o, timer):
    """rounds in which every parameter has been answered and every input is used"""
    e = lab.e
    cl = lab.get(o, "client", st=s)[0][1]
    ms = mappings(lab, s)
    q = s
    for hi, lo in VALUES:
        timer[0] = "poll"           # intervals are over, but no request is too old
        for u in e.h(q, lab.get(o, "updateables", st=q)[0][1]).items:
            r = ok(chk, "use", rel + " poll", lab.method(u, "update", [], st=rebase(q)))
            if not r:
                return
            q = r[0][0]
        timer[0] = False
        q = rebase(q)
        for m in ms:
            q, msg = answer(lab, q, m, c(hi), c(lo))
            for x in msg or []:
                r = ok(chk, "receive", "%s all %d %d" % (rel, hi, lo), lab.method(cl, "receive", [x], st=q))
                if not r:
                    return
                q = rebase(r[0][0])
                chk.ob("receive", "%s all %d %d" % (rel, hi, lo), True)
        press(chk, lab, "%s after values %d %d" % (rel, hi, lo), q, o)
