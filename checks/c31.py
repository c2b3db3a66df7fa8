"""The browser emulator: its runner is interpreted over the shipped configurations with its own replacements for the hardware modules; imports are resolved against these replacements; the MIDI wrappers are run on symbolic bytes."""
import ast
import glob
import os
import re

import sa.model as M
from sa.model import Program, REPO
from sa.engine import State, _All
from checks.common import *
from checks.c29 import CONTENT, directories

WEB = os.path.join(REPO, "web/htdocs/python")
RUN = "PySwitchRunner"
WRAP = "wrappers."


BASE = []


def build(d):
    """the Python side of the emulator together with the firmware and the display and inputs of a configuration"""
    if not BASE:
        BASE.append(Program([(os.path.join(CONTENT, "lib/pyswitch"), "pyswitch"), (WEB, "")]))
    p = Program([])
    p.modules = dict(BASE[0].modules)
    for n in ("display", "inputs"):
        f = os.path.join(d, n + ".py")
        p.modules[n] = M.Module(p, n, f if os.path.exists(f) else os.path.join(CONTENT, n + ".py"), False)
    return p


def clients():
    """[(client, code)] the protocol code of the clients"""
    out = []
    for f in sorted(glob.glob(os.path.join(REPO, "web/htdocs/clients/*/*Client.js"))):
        with open(f, encoding="utf-8") as h:
            src = h.read()
        m = re.search(r"getProtocolCode\s*\(\s*\)\s*\{.*?(?:`([^`]*)`|\"((?:[^\"\\]|\\.)*)\"|'((?:[^'\\]|\\.)*)')", src, re.S)
        if m and not re.match(r"getProtocolCode\s*\(\s*\)\s*\{[^`\"']*\}", src[m.start():], re.S):
            out.append((os.path.relpath(f, REPO), next(x for x in m.groups() if x is not None)))
    return out


def closed(lab, label, attrs, methods, st):
    """an object with exactly these attributes and methods"""
    o = lab.bound(label, attrs, st=st, methods=methods, open=False)
    for m in methods:
        lab.e.h(st, o).attrs[m] = ("t", "attr", o, m)
    return o


class Browser:
    """the JavaScript side: DOM elements, external references and timers"""

    def __init__(self, lab, refs, elements=True):
        self.lab = lab
        self.values = {"pushed": c("false"), "value": c("0"), "position": c("0")} if elements else {}

        def read(eng, s, b, name, ctx, node):
            if b[0] == "o" and name in ("pushed", "value", "position") and eng.h(s, b).label == "dataset" and name in ("pushed", "value", "position"):
                return [(s, self.values.get(name, c("undefined")))]
            return None
        lab.e.attr_hooks.insert(0, read)
        e = lab.e
        st = State()
        st.heap = e.static_heap
        st.own = _All()
        self.st = st
        self.dom = {}

        def by_id(eng, s, a, k):
            n = a[0]
            if not elements and not str(plain(lab, n, s)).endswith("-display"):
                return NONE
            if n not in self.dom:
                data = lab.bound("dataset", {}, st=st, methods={"hasOwnProperty": lambda eng, s, a, k: c(plain(lab, a[0], s) in self.values)})
                raw = lab.bound("datasetproxy", {}, st=st, methods={"to_py": lambda eng, s, a, k, data=data: data}, open=True)
                ctx = lab.bound("context", {}, st=st, methods={"measureText": lambda eng, s, a, k: lab.bound("measure", {"width": c(75)}, st=s)})
                style = lab.bound("style", {}, st=st)
                self.dom[n] = lab.bound("element", {"dataset": raw, "style": style}, st=st, methods={"getContext": lambda eng, s, a, k, ctx=ctx: ctx})
                for o in (data, raw, ctx, style, self.dom[n]):
                    s.heap[o[1]] = e.static_heap[o[1]]
            return self.dom[n]
        self.document = closed(lab, "document", {}, {"getElementById": by_id}, st)
        attrs = dict(refs(st))
        self.refs = closed(lab, "externalRefs", dict(attrs), {
            "to_py": lambda eng, s, a, k: self.mapping(s, attrs),
            "hasOwnProperty": lambda eng, s, a, k: c(a[0][2] in attrs)}, st)
        js = lab.bound("js", {"document": self.document, "externalRefs": self.refs}, st=st, open=False)
        e.provide["js"] = js

    def mapping(self, s, names):
        return self.lab.e.alloc(s, HObj("dict", items={c(k): self.lab.e.h(s, self.refs).attrs[k] for k in names}))


def share(e, st, v, seen=None):
    """makes objects of the state visible to module level code"""
    seen = set() if seen is None else seen
    if v[0] == "tup":
        for x in v[1]:
            share(e, st, x, seen)
    if v[0] != "o" or v in seen:
        return
    seen.add(v)
    o = e.h(st, v)
    e.static_heap[v[1]] = o
    for x in list(o.attrs.values()) + [y for y in (o.items.values() if isinstance(o.items, dict) else o.items or [])]:
        if isinstance(x, tuple):
            share(e, st, x, seen)


def replacing(lab, seen):
    """patch.dict(sys.modules, {...}) takes effect"""
    def h(eng, f, args, kwargs, st, ctx, node):
        if f[0] == "x" and f[1].endswith("patch.dict"):
            d = args[1] if len(args) > 1 else kwargs.get("values", NONE)
            o = eng.h(st, d) if d[0] == "o" else None
            if o is None or o.kind != "dict" or args[0] != ("x", "sys.modules"):
                raise AnalysisBroken("the replaced modules were not found")
            for k, v in o.items.items():
                share(eng, st, v)
                eng.provide[k[2]] = v
                seen[k[2]] = v
            return [(st, NONE)]
        return None
    lab.e.call_hooks.insert(0, h)


def executing(lab):
    """exec of a constant string in the scope of the caller"""
    def h(eng, f, args, kwargs, st, ctx, node):
        if f == ("b", "exec"):
            if args[0][0] != "c":
                raise AnalysisBroken("executed code is not known")
            out = []
            for s, ctl in eng.block(ast.parse(args[0][2].strip("\n ") + "\n").body, st, ctx):
                out.append((s, ctl[1] if ctl and ctl[0] == "raise" else NONE))
            return out
        return None
    lab.e.call_hooks.insert(0, h)


def reading(lab, got):
    """the MIDI library reads the port and finds no message; messages are sent as they are"""
    e = lab.e
    ci = lab.cls("adafruit_midi", "MIDI")

    def receive(eng, st, args, kwargs, ctx, node):
        out = []
        for s, p in lab.get(args[0], "_midi_in", st=st):
            for s1, v in lab.method(p, "read", [c(100)], st=s):
                out.append((s1, v if isinstance(v, Raise) else NONE))
        return out
    e.hooks[ci.find("receive").qual] = receive
    e.hooks["adafruit_midi.MIDI.receive"] = receive


def runner(lab, chk, rel, code, config, comm, size=(240, 240)):
    """[(state, runner)] after run(); errors are violations"""
    e, st = lab.e, lab.st
    cl = closed(lab, "client", {}, {"getProtocolCode": lambda eng, s, a, k: code}, st)
    cp = closed(lab, "configproxy", {}, {"to_py": lambda eng, s, a, k: eng.alloc(s, HObj("dict", items=dict(config)))}, st)
    cs = lab.bound("comm", comm, st=st, open=False)
    out = []
    for s, o in ok(chk, "start", rel, lab.new(lab.cls(RUN, "PySwitchRunner"), [c("container"), c("dom"), FALSE], st=st)):
        for s1, v in ok(chk, "start", rel, lab.method(o, "run", [c(size[0]), c(size[1]), cl, cp, cs], st=s)):
            out.append((s1, o))
    return out


class Unloadable(Exception):
    """module level code which cannot be executed"""


class Strict(list):
    def append(self, x):
        raise Unloadable("%s: %s" % (x[1], "; ".join("%s %s" % (r.exc, r.msg) for r in x[2] if isinstance(r, Raise)) or "several outcomes"))


def loading(chk, cons, fn, *args):
    """runs fn, module level code which raises is a violation"""
    try:
        return fn(*args)
    except Unloadable as x:
        chk.ob("start", cons, False, "module level code fails: %s" % x, "web/htdocs/python")
    return None


def world(d, elements):
    lab = Lab(build(d))
    lab.e.opaque_raises = False
    lab.e.static_bad = Strict()
    lab.e.max_states = 5000
    seen = {}
    replacing(lab, seen)
    executing(lab)
    reading(lab, seen)
    b = Browser(lab, lambda st: {}, elements)
    lab.timer = False

    def period(eng, st, b, name, ctx, node):
        if name in ("exceeded", "passed") and b[0] == "o" and getattr(eng.class_of(b, st), "qual", "") == PERIOD:
            return [(st, c(lab.timer) if name == "exceeded" else c(5000 if lab.timer else 1))]
        return None
    lab.e.attr_hooks.insert(0, period)
    return lab, b, seen


def recording(lab):
    """firmware modules imported while code is interpreted"""
    got = set()
    e = lab.e
    orig = e.s_ImportFrom

    def h(x, st, ctx):
        m = ctx.module._abs(x)
        got.add(m)
        for a in x.names:
            if m + "." + a.name in lab.p.modules:
                got.add(m + "." + a.name)
        return orig(x, st, ctx)
    e.s_ImportFrom = h
    return got


def importing(mod):
    """[(module, name or None, line)] of everything a module imports, also inside of functions"""
    out = []
    for x in ast.walk(mod.tree):
        if isinstance(x, ast.ImportFrom):
            for a in x.names:
                out.append((mod._abs(x), a.name, x.lineno))
        elif isinstance(x, ast.Import):
            for a in x.names:
                out.append((a.name, None, x.lineno))
    return out


def closure(p, start):
    """all modules of the program reachable by imports, packages included"""
    todo, seen = list(start), set()
    while todo:
        m = todo.pop()
        if m in seen or m not in p.modules:
            continue
        seen.add(m)
        parts = m.split(".")
        todo += [".".join(parts[:n]) for n in range(1, len(parts))]
        for q, n, _ in importing(p.modules[m]):
            todo.append(q)
            if n:
                todo.append(q + "." + n)
    return seen


def aliases(mod):
    """{local name: dotted name} of external modules and names bound by imports anywhere in the module"""
    out = {}
    for x in ast.walk(mod.tree):
        if isinstance(x, ast.ImportFrom):
            for a in x.names:
                out[a.asname or a.name] = mod._abs(x) + "." + a.name
        elif isinstance(x, ast.Import):
            for a in x.names:
                out[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
    return out


def alternative(mod):
    """{line of an import: lines of the imports of the same try statement, one of which suffices}"""
    out = {}
    for x in ast.walk(mod.tree):
        if isinstance(x, ast.Try):
            ls = [q.lineno for body in [x.body] + [h.body for h in x.handlers] for q in body if isinstance(q, (ast.Import, ast.ImportFrom))]
            if len(ls) > 1:
                for l in ls:
                    out[l] = ls
    return out


def standard(dotted):
    """names of the Python standard library, which the browser's Python has"""
    import importlib
    import sys
    parts = dotted.split(".")
    if parts[0] not in ("math", "array", "functools", "re", "sys", "time", "random", "os", "json", "collections"):
        return False
    try:
        v = importlib.import_module(parts[0])
        for a in parts[1:]:
            v = getattr(v, a)
    except (ImportError, AttributeError):
        return False
    return True


def reachable(p, mods, mod):
    """nodes of a module without top level classes and functions which nothing else in the emulator refers to"""
    out = []
    for s in mod.tree.body:
        if isinstance(s, (ast.ClassDef, ast.FunctionDef)) and not mod.name.startswith("pyswitch.clients"):
            used = any(isinstance(x, ast.Name) and x.id == s.name for q in mod.tree.body if q is not s for x in ast.walk(q))
            used |= any(q == mod.name and n in (s.name, "*") or q + "." + str(n) == mod.name for m in mods for q, n, _ in importing(p.modules[m]))
            used |= any(q == mod.name and n in (s.name, "*") for q, n, _ in importing(p.modules[RUN]))
            if not used:
                continue
        out += list(ast.walk(s))
    return out


def modules(chk, lab, mode, start):
    """everything the modules use from outside exists among the replaced modules"""
    e, p = lab.e, lab.p
    mods = closure(p, start)
    mods = {m for m in mods if m.startswith("pyswitch") or m in ("display", "inputs")}
    if len(mods) < 8:
        raise AnalysisBroken("only %d modules run in the emulator (%s)" % (len(mods), mode))
    chk.notes["modules " + mode] = len(mods)

    def provided(dotted):
        if any(dotted == k or dotted.startswith(k + ".") or k.startswith(dotted + ".") for k in e.provide):
            v = e.external(dotted)
            return v is not None and (v[0] != "x" or any(k.startswith(dotted + ".") for k in e.provide))
        root = dotted.split(".")[0]
        if root in p.modules or any(m.startswith(root + ".") for m in p.modules):
            mod = dotted
            while mod not in p.modules:
                if "." not in mod:
                    return False
                mod = mod.rsplit(".", 1)[0]
            if mod == dotted:
                return True
            v = e.module_value(p.modules[mod], dotted[len(mod) + 1:].split(".")[0])
            return v is not None
        return standard(dotted)
    for m in sorted(mods):
        mod = p.modules[m]
        al = {k: v for k, v in aliases(mod).items() if not v.startswith("pyswitch") and v.split(".")[0] not in ("display", "inputs")}
        seen = set()
        for q, n, line in importing(mod):
            if q.startswith("pyswitch") or q in ("display", "inputs"):
                continue
            d = q + "." + n if n else q
            if n == "*" or d in seen:
                continue
            seen.add(d)
            good = provided(d) or any(provided(q2 + "." + n2 if n2 else q2) for q2, n2, l2 in importing(mod) if l2 in alternative(mod).get(line, ()))
            chk.ob("modules", "%s: %s in %s" % (mode, d, mod.rel), good, "%s is not provided in the emulator" % d, "%s:%d" % (mod.rel, line))
        for x in reachable(p, mods, mod):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in al:
                d = al[x.value.id] + "." + x.attr
                if d not in seen:
                    seen.add(d)
                    chk.ob("modules", "%s: %s in %s" % (mode, d, mod.rel), provided(d), "%s is not provided in the emulator" % d, "%s:%d" % (mod.rel, x.lineno))


def devices():
    """device modules the editor reads the hardware from"""
    out = set()
    for f in glob.glob(os.path.join(REPO, "web/htdocs/js/**/*.js"), recursive=True):
        with open(f, encoding="utf-8") as h:
            out |= set(re.findall(r"pyswitch\.hardware\.devices\.\w+", h.read()))
    return out


def literals():
    """paths of Python files among the string literals of the page's scripts"""
    out = {}
    for f in sorted(glob.glob(os.path.join(REPO, "web/htdocs/js/**/*.js"), recursive=True)):
        with open(f, encoding="utf-8") as h:
            for i, line in enumerate(h, 1):
                if line.strip().startswith(("//", "*", "/*")):
                    continue
                for a in re.findall(r"[\"'`]([\w/]+\.py)[\"'`]", line):
                    out.setdefault(a, "%s:%d" % (os.path.relpath(f, REPO), i))
    return out


def files(chk, p, start, mode):
    """every module the emulator imports is loaded into its file system"""
    have = literals()
    if mode == "default":
        for a, w in sorted(have.items()):
            if a.split("/")[0] in ("pyswitch", "adafruit_midi", "adafruit_hid", "parser", "wrappers"):
                chk.ob("files", a, a[:-3].replace("/", ".").replace(".__init__", "") in p.modules, "the file %s which the page loads does not exist" % a, w)
    for m in sorted(closure(p, start)):
        if m in ("display", "inputs", "config", "communication"):
            continue
        mod = p.modules[m]
        a = m.replace(".", "/") + ("/__init__" if mod.is_pkg else "") + ".py"
        if mod.is_pkg and not mod.tree.body:
            continue
        chk.ob("files", "%s: %s" % (mode, a), a in have, "%s is imported but not loaded by the page" % a, mod.rel)


def run(chk):
    chk.rule("files", "the page loads every Python module which code running in the emulator imports, and only files that exist")
    chk.rule("modules", "every module, name and attribute outside of the firmware used by code which runs in the emulator is provided by its replacements")
    chk.rule("start", "the emulator starts with each shipped configuration, with each client and in explore mode, and each tick runs without an error, whether the page has elements for the inputs and LEDs or not")
    chk.rule("controls", "switches, pedals and wheels report the state of their element on the page, and a colour set for an LED reaches its element and can be read back")
    chk.rule("elements", "the elements the wrappers look for are those the page creates")
    chk.rule("input", "the bytes of all queued MIDI messages are delivered completely and in order, whatever the sizes of messages and reads and whenever they arrive")
    chk.rule("output", "each block written by the firmware is handed to the browser exactly once and unchanged")
    dirs = directories()
    codes = clients()
    if len(dirs) < 45 or not codes:
        raise AnalysisBroken("%d configurations and %d clients with protocol found" % (len(dirs), len(codes)))
    parallel(chk, one, [(d, codes) for d in dirs])
    loading(chk, "explore mode", explore_mode, chk)
    loading(chk, "hardware", hardware, chk)
    loading(chk, "controls", controls, chk)
    loading(chk, "MIDI input", midi_in, chk)
    loading(chk, "MIDI output", midi_out, chk)
    for r, n in (("start", 90), ("files", 200), ("modules", 80), ("controls", 6), ("input", 200), ("output", 4)):
        chk.floor(r, n)


def one(chk, d, codes):
    loading(chk, os.path.relpath(d, REPO), configuration, chk, d, codes)


def configuration(chk, d, codes):
    rel = os.path.relpath(d, REPO)
    for name, code in [(n, c(x)) for n, x in codes] + ([("no protocol", NONE)] if d == CONTENT else []):
        for elements in (True, False) if d == CONTENT else (True,):
            lab, b, seen = world(d, elements)
            got = recording(lab)
            ch = {} if d != CONTENT or elements else {"inChannel": NONE, "outChannel": c(0)}
            for s, o in runner(lab, chk, "%s %s" % (rel, name), code, {}, ch):
                chk.ob("start", rel, True)
                cur = [s]
                for step, (pushed, timer) in enumerate((("false", True), ("true", False), ("true", True), ("false", False), ("false", True))):
                    lab.timer = timer
                    if elements:
                        b.values = {"pushed": c(pushed), "value": c(str(11111 * step)), "position": c(str(3 * step - 5))}
                    nxt = {}
                    for q in cur:
                        for s1, v in ok(chk, "start", "%s tick %d" % (rel, step), lab.method(o, "tick", [], st=rebase(q))):
                            chk.ob("start", "%s tick %d" % (rel, step), True)
                            nxt.setdefault(lab.canon(s1, o), s1)
                    cur = list(nxt.values())[:4]
            if d == CONTENT and elements:
                if not seen:
                    raise AnalysisBroken("the replaced modules were not found")
                files(chk, lab.p, [RUN, "parser.PySwitchParser", "parser.PySwitchHardware", "inputs", "display"] + sorted(got), "default")
                modules(chk, lab, "default", sorted(got | {m for m in lab.p.modules if m.startswith("pyswitch.clients")} | {"display", "inputs"}))
            elif elements:
                files(chk, lab.p, ["inputs", "display"], rel)
                modules(chk, lab, "default", sorted(got | {"display", "inputs"}))
            chk.analysed(lab.e)


def explore_mode(chk):
    for elements in (True, False):
        lab, b, seen = world(CONTENT, elements)
        got = recording(lab)
        for s, o in runner(lab, chk, "explore mode", NONE, {c("exploreMode"): TRUE}, {}):
            chk.ob("start", "explore mode", True)
            for s1, v in ok(chk, "start", "explore mode", lab.method(o, "tick", [], st=s)):
                chk.ob("start", "explore mode", True)
        if elements:
            modules(chk, lab, "explore", sorted(got))
        chk.analysed(lab.e)


def hardware(chk):
    """the hardware descriptors are read by importing the device modules with replacements of their own"""
    lab, b, seen = world(CONTENT, True)
    e = lab.e
    p = lab.p
    ci = lab.cls("parser.PySwitchHardware", "PySwitchHardware")
    dev = devices()
    if len(dev) < 3:
        raise AnalysisBroken("devices of the editor not found")
    got = set()

    def load(eng, f, args, kwargs, st, ctx, node):
        if f == ("x", "importlib.import_module"):
            got.add(args[0][2])
            raise Stop()
        return None
    e.call_hooks.insert(0, load)
    for m in sorted(dev):
        try:
            lab.method(lab.new(ci)[0][1], "get", [c(m)])
        except Stop:
            pass
    for m in sorted(got):
        chk.ob("modules", "hardware: " + m, m in p.modules, "the device module %s does not exist" % m, "web/htdocs/js")
    files(chk, p, sorted(got), "hardware")
    modules(chk, lab, "hardware", sorted(got))


class Stop(Exception):
    pass


def page():
    """{kind of control: prefix of its element id} as created by the page"""
    out = {}
    for f in sorted(glob.glob(os.path.join(REPO, "web/htdocs/js/**/*.js"), recursive=True)):
        with open(f, encoding="utf-8") as h:
            src = h.read()
        for k, r in (("switch", r"(-switch-gp)\b"), ("pedal", r"(-potentiometer-gp)\b"), ("wheel", r"(-encoder-gp)\b"), ("led", r"(-led-)['\"`$]"), ("display", r"(-display)['\"`]")):
            m = re.search(r, src)
            if m and "id=" in src:
                out[k] = m.group(1)
    return out


HWC = {"switch": ("AdafruitSwitch", 1, "pushed", "pushed"), "pedal": ("AdafruitPotentiometer", 1, "value", "value"), "wheel": ("AdafruitEncoder", 2, "position", "position")}


def started(chk, elements):
    lab, b, seen = world(CONTENT, elements)
    r = runner(lab, chk, "controls", NONE, {}, {})
    if not r:
        return None
    return lab, b, rebase(r[0][0]), r[0][1]


def controls(chk):
    ids = page()
    if set(ids) != {"switch", "pedal", "wheel", "led", "display"}:
        raise AnalysisBroken("elements of the page not found: %s" % sorted(ids))
    cases = [("switch", "true", TRUE), ("switch", "false", FALSE), ("pedal", "0", c(0)), ("pedal", "65535", c(65535)), ("pedal", "12345", c(12345)),
             ("wheel", "0", c(0)), ("wheel", "-17", c(-17)), ("wheel", "230", c(230))]
    for elements in ("full", "absent"):
        for kind, text, want in cases:
            w = started(chk, "full" if elements == "full" else False)
            if w is None:
                return
            lab, b, s, _ = w
            cls, n, key, prop = HWC[kind]
            b.values = {key: c(text)}
            b.dom.clear()
            asked = []
            inner = lab.handlers[(b.document, "getElementById")]

            def by_id(eng, s, a, k, inner=inner, asked=asked):
                asked.append(plain(lab, a[0], s))
                return inner(eng, s, a, k)
            lab.handlers[(b.document, "getElementById")] = by_id
            cons = "%s %s %s" % (kind, text, elements)
            for s1, o in ok(chk, "controls", cons, lab.new(lab.cls("pyswitch.hardware.adafruit." + cls, cls), [c(27), c(28)][:n], st=s)):
                for s2, _ in ok(chk, "controls", cons, lab.method(o, "init", [], st=s1)):
                    for s3, v in ok(chk, "controls", cons, lab.get(o, prop, st=s2)):
                        if elements == "full":
                            chk.ob("controls", cons, v == want or kind == "switch" and lab.e.truth(v, s3)[0][1] == (want == TRUE), "the %s reports %s while its element has %r" % (kind, lab.e.describe(v, s3), text), "web/htdocs/python/wrappers/wrap_io.py")
                        else:
                            chk.ob("controls", cons, kind != "switch" or lab.e.truth(v, s3)[0][1] is False, "a switch without an element is pushed", "web/htdocs/python/wrappers/wrap_io.py")
            if elements == "full":
                chk.ob("elements", kind, asked == ["dom" + ids[kind] + "27"], "the wrapper looks for %s, the page creates dom%s27" % (asked, ids[kind]), "web/htdocs/python/wrappers/wrap_io.py")
    leds(chk, ids)


def leds(chk, ids):
    w = started(chk, "full")
    if w is None:
        return
    lab, b, s, o = w
    e = lab.e
    asked = []
    inner = lab.handlers[(b.document, "getElementById")]

    def by_id(eng, s, a, k):
        n = plain(lab, a[0], s)
        asked.append(n)
        return inner(eng, s, a, k)
    lab.handlers[(b.document, "getElementById")] = by_id
    b.dom.clear()
    where = "web/htdocs/python/wrappers/wrap_adafruit_led.py"
    for s1, d in ok(chk, "controls", "LEDs", lab.new(lab.cls("wrappers.wrap_adafruit_led", "WrapNeoPixelDriver"), [c("dom")], st=s)):
        for s2, _ in ok(chk, "controls", "LEDs", lab.method(d, "init", [c(5)], st=s1)):
            l = lab.get(d, "leds", st=s2)[0][1]
            chk.ob("controls", "LED number", len(e.seq_items(l, s2) or []) == 5, "5 LEDs requested, %s there" % len(e.seq_items(l, s2) or []), where)
            for i in (0, 3):
                shown = []
                for col in ((255, 128, 0), (0, 0, 0), (1, 2, 3)):
                    q = s2.fork()
                    v = tup(*[c(x) for x in col])
                    for s3, r in ok(chk, "controls", "LED %d" % i, e.set_item(l, c(i), v, q, e.static_ctx(lab.p.module(RUN)), None)):
                        got = e.get_item(l, c(i), s3, e.static_ctx(lab.p.module(RUN)), None)[0][1]
                        chk.ob("controls", "LED %d %s" % (i, col), plain(lab, got, s3) == col, "the colour read back is %s" % e.describe(got, s3), where)
                        el = b.dom.get(c("dom" + ids["led"] + str(i)))
                        ok1 = el is not None
                        chk.ob("elements", "LED %d" % i, ok1, "the wrapper looks for %s, the page creates dom%s%d" % (sorted(set(asked)), ids["led"], i), where)
                        if ok1:
                            shown.append(e.describe(e.h(s3, e.h(s3, el).attrs["style"]).attrs.get("backgroundColor", NONE), s3))
                chk.ob("controls", "LED %d colours" % i, len(set(shown)) == 3, "different colours of an LED look the same: %s" % shown, where)


def sequences(chk):
    """message lengths in the queue, sizes of the reads, and the reads before which a message arrives late"""
    import itertools
    lens = [(), (1,), (3,), (7,), (1, 1), (3, 2), (2, 5, 1), (6, 6), (0, 3), (3, 0, 2), (1, 2, 3, 4)]
    sizes = [(1,), (2,), (3,), (4, 1), (5,), (100,), (3, 7)]
    for l in lens:
        for z in sizes:
            for late in (None, 1, 2):
                yield l, z, late


def midi_in(chk):
    for l, z, late in sequences(chk):
        lab = Lab(build(CONTENT))
        lab.e.opaque_raises = False
        e = lab.e
        cons = "messages %s, reads %s%s" % (l, z, ", a message arrives before read %d" % (late + 1) if late is not None else "")
        st0 = State()
        st0.heap, st0.own = e.static_heap, _All()
        byte = iter(range(10000))

        def message(n):
            return [e.sym("byte%d" % next(byte), typ="int", lo=0, hi=255) for _ in range(n)]
        msgs = [message(n) for n in l]
        queue = e.mklist(st0, [e.mklist(st0, m) for m in msgs])
        for i in list(e.static_heap):
            e.static_heap[i].static = False
        mw = closed(lab, "midiWrapper", {"messageQueue": queue}, {}, st0)
        b = Browser(lab, lambda st: {"midiWrapper": mw})
        want = [x for m in msgs for x in m]
        s = lab.st
        cur = [(s, o, []) for s, o in ok(chk, "input", cons, lab.new(lab.cls("wrappers.wrap_adafruit_midi", "WrapMidiInput"), [], st=s))]
        extra = message(3) if late is not None else []
        total = len(want) + len(extra)
        for step in range(total + len(l) + 4):
            nxt = []
            for s, o, got in cur:
                if late is not None and step == late:
                    m = e.mklist(s, extra)
                    e.hw(s, queue).items.append(m)
                for s1, v in ok(chk, "input", cons, lab.method(o, "read", [c(z[step % len(z)])], st=s)):
                    it = [] if v == NONE else e.seq_items(v, s1)
                    if it is None:
                        raise AnalysisBroken("the bytes read are not known")
                    nxt.append((s1, o, got + it))
            cur = nxt
        for s, o, got in cur:
            chk.ob("input", cons, got == want + extra, "%d bytes queued, %d delivered%s" % (total, len(got), "" if len(got) != total else " in another order"), "web/htdocs/python/wrappers/wrap_adafruit_midi.py")
    # nothing connected: no error, and nothing is lost when a device is connected later
    lab = Lab(build(CONTENT))
    e = lab.e
    for refs in ({}, {"midiWrapper": NONE}):
        b = Browser(lab, lambda st: refs)
        for s, o in ok(chk, "input", "not connected", lab.new(lab.cls("wrappers.wrap_adafruit_midi", "WrapMidiInput"), [])):
            for s1, v in ok(chk, "input", "not connected", lab.method(o, "read", [c(10)], st=s)):
                chk.ob("input", "not connected %s" % sorted(refs), v == NONE or not e.seq_items(v, s1), "bytes are read without a device", "web/htdocs/python/wrappers/wrap_adafruit_midi.py")
    chk.analysed(e)


def midi_out(chk):
    where = "web/htdocs/python/wrappers/wrap_adafruit_midi.py"
    for n in (1, 2, 3, 12, 200):
        for monitor in (False, True):
            lab = Lab(build(CONTENT))
            lab.e.opaque_raises = False
            e = lab.e
            refs = {}

            def make(st):
                refs["midiWrapper"] = closed(lab, "midiWrapper", {}, {"send": lambda eng, s, a, k: NONE}, st)
                if monitor:
                    refs["midiMonitor"] = closed(lab, "midiMonitor", {}, {"monitorOutput": lambda eng, s, a, k: NONE}, st)
                return refs
            Browser(lab, make)
            data = [e.sym("byte%d" % i, typ="int", lo=0, hi=255) for i in range(n)]
            cons = "%d bytes%s" % (n, " with monitor" if monitor else "")
            for s, o in ok(chk, "output", cons, lab.new(lab.cls("wrappers.wrap_adafruit_midi", "WrapMidiOutput"), [])):
                packet = e.mklist(s, data)
                for s1, v in ok(chk, "output", cons, lab.method(o, "write", [packet, c(n)], st=s)):
                    ev = calls(s1.trace(), refs["midiWrapper"], "send")
                    good = len(ev) == 1 and len(ev[0].args) == 1 and e.seq_items(ev[0].args[0], s1) == data
                    chk.ob("output", cons, good, "the browser receives %d blocks" % len(ev) if len(ev) != 1 else "other bytes are sent", where)
            for refs2 in ({}, {"midiWrapper": NONE}):
                Browser(lab, lambda st: refs2)
                for s, o in ok(chk, "output", "not connected", lab.new(lab.cls("wrappers.wrap_adafruit_midi", "WrapMidiOutput"), [])):
                    ok(chk, "output", "not connected", lab.method(o, "write", [e.mklist(s, data), c(n)], st=s))
            chk.analysed(e)
