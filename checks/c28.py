"""The web editor's catalogue (JSON) against the signatures and values of the firmware: a relational lint over both artefacts; values are compared by abstract evaluation of the source expressions in the module they are used in."""
import ast
import json
import os
import re

from sa.engine import Ctx
from sa.model import REPO
from checks.common import *

DEF = os.path.join(REPO, "web/htdocs/definitions")
HT = os.path.join(REPO, "web/htdocs")
ORIENT = {"actions": "actions", "callbacks": "callbacks", "mappings": "mappings"}


def load(name):
    with open(os.path.join(DEF, name + ".json"), encoding="utf-8") as f:
        try:
            return json.load(f)
        except ValueError as e:
            raise AnalysisBroken("definitions/%s.json: %s" % (name, e))


def target(p, entry):
    """(kind, info) of the firmware object an entry names: the last part of a dotted name is searched in the class"""
    mod = p.modules.get(entry["importPath"])
    if mod is None:
        return None
    cur = None
    for i, part in enumerate(entry["name"].split(".")):
        if i == 0:
            cur = p.lookup(mod, part)
        elif cur and cur[0] == "class":
            ci = cur[1]
            m = ci.find(part)
            k = ci.find_class(part)
            cur = ("func", m) if m else ("class", k) if k else None
        else:
            return None
    return cur if cur and cur[0] in ("func", "class") else None


def signature(cur):
    """[(name, default expression or None)] of the parameters a caller can pass, accepts **kwargs"""
    kind, info = cur
    fi = info
    if kind == "class":
        fi = info.find("__init__")
        if fi is None:
            return [], False, info
    a = fi.node.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    d = [None] * (len(ps) - len(a.defaults)) + list(a.defaults)
    out = list(zip(ps, d))
    if kind == "class" or fi.cls and not fi.is_static:
        out = out[1:]
    out += [(x.arg, y) for x, y in zip(a.kwonlyargs, a.kw_defaults)]
    return out, a.kwarg is not None, fi


class Values:
    """abstract evaluation of source expressions"""
    def __init__(self, p):
        self.p = p
        self.lab = Lab()
        self.keys = {}

    def value(self, src, bind, where):
        """canonical value of the expression where names are bound to `bind`(name) -> engine value or None"""
        try:
            x = ast.parse(src, mode="eval").body
        except SyntaxError:
            return None, "is not an expression"
        e = self.lab.e
        names = sorted({n.id for n in ast.walk(x) if isinstance(n, ast.Name)})
        for n in names:
            if bind(n) is None and n not in ("None", "True", "False"):
                return None, "uses the unknown name %s" % n
        mod = self.p.modules["pyswitch.clients.kemper"]
        ctx = Ctx(mod, None, {n: bind(n) for n in names if bind(n) is not None} or {}, None)
        st = self.lab.st.fork()
        fid = e.new_id()
        res = self.run(x, bind, names)
        return res

    def run(self, x, bind, names):
        """the expression as body of a function of the names"""
        lab, e = self.lab, self.lab.e
        fn = ast.FunctionDef(name="value", args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=n) for n in names], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]), body=[ast.Return(value=x)], decorator_list=[], returns=None, type_params=[])
        ast.copy_location(fn, x)
        ast.fix_missing_locations(fn)
        from sa.model import FuncInfo
        fi = FuncInfo(fn, self.p.modules["pyswitch.clients.kemper"], None, "definitions.value")
        outs = lab.call(e.fv(fi), [bind(n) for n in names], st=rebase(lab.st))
        if len(outs) != 1:
            return None, "has %d possible values" % len(outs)
        s, v = outs[0]
        if isinstance(v, Raise):
            return None, "raises %s %s" % (v.exc, v.msg)
        return lab.canon(s, v), ""

    def named(self, r):
        """engine value of a lookup result"""
        if r is None or r[0] == "missing":
            return None
        return self.lab.e.from_lookup(r)

    def in_module(self, mod):
        return lambda n: self.named(self.p.lookup(mod, n)) if mod.bind.get(n) or mod.star else BUILTIN.get(n)

    def imported(self, table):
        return lambda n: self.named(self.p.lookup(self.p.modules[table[n]], n)) if table.get(n) in self.p.modules else (("x", table[n] + "." + n) if n in table else BUILTIN.get(n))


BUILTIN = {n: ("b", n) for n in ("int", "float", "str", "bool", "len", "round", "min", "max", "abs", "list", "dict", "tuple", "range")}


def imports(chk, p):
    """{name: module} the generator imports into generated files, read from the generator's source and the catalogue"""
    path = os.path.join(HT, "python/parser/PySwitchParser.py")
    with open(path, encoding="utf-8") as f:
        tree = ast.parse(f.read())
    rel = os.path.relpath(path, REPO)
    acts, disp = {}, {}
    found = 0
    cls = [x for x in tree.body if isinstance(x, ast.ClassDef) and x.name == "PySwitchParser"]
    for m in (cls[0].body if cls else []):
        if not isinstance(m, ast.FunctionDef):
            continue
        for d in ast.walk(m):
            if isinstance(d, ast.Dict) and {k.value for k in d.keys if isinstance(k, ast.Constant)} >= {"name", "importPath"}:
                kv = {k.value: v for k, v in zip(d.keys, d.values) if isinstance(k, ast.Constant)}
                if all(isinstance(kv[k], ast.Constant) for k in ("name", "importPath")):
                    found += 1
                    n, mod = kv["name"].value, kv["importPath"].value
                    acts[n] = mod
                    where = "%s:%d" % (rel, d.lineno)
                    if mod in p.modules:
                        r = p.lookup(p.modules[mod], n)
                        chk.ob("imports", n, r is not None and r[0] != "missing", "%s is imported into generated files but not defined in %s" % (n, mod), where)
                    else:
                        chk.ob("imports", n, exists(mod), "%s is imported into generated files from %s, which does not exist" % (n, mod), where)
    if found < 10:
        raise AnalysisBroken("the imports of generated files were not found in PySwitchParser")
    for f in ORIENT:
        for cl in load(f):
            for a in cl[f]:
                acts[a.get("importName") or a["name"].split(".")[0]] = a["importPath"]
    return acts


BUILTIN_MODULES = ("micropython", "board", "gc", "os", "time", "supervisor", "usb_midi", "usb_hid", "busio", "digitalio", "analogio", "rotaryio", "storage", "math", "json", "random", "microcontroller", "displayio", "terminalio", "fontio", "display")


def exists(mod):
    """built-in module of the device or library shipped with the firmware"""
    if mod in BUILTIN_MODULES:
        return True
    b = os.path.join(REPO, "content/lib", *mod.split("."))
    return any(os.path.exists(b + x) for x in (".py", ".mpy")) or os.path.isdir(b)


def run(chk):
    chk.rule("exists", "every catalogue entry names an existing function or class of an existing firmware module, under a client that exists")
    chk.rule("parameters", "an entry offers exactly the parameters of the firmware function, in the same order")
    chk.rule("required", "a parameter is required in the catalogue exactly if the firmware has no default for it")
    chk.rule("default", "the offered default has the value of the firmware's default")
    chk.rule("complete", "every public action factory, display callback and mapping factory of the firmware is offered exactly once")
    chk.rule("imports", "every name used by offered values is imported into generated files from a module that defines it")
    chk.rule("meta", "every description of a parameter belongs to an offered entry and parameter and has a type the editor knows")
    chk.rule("values", "offered values can be evaluated, are pairwise different, and ranges contain the defaults")
    chk.rule("keycodes", "every offered key code exists in the keyboard library with the same value")
    chk.rule("fonts", "every offered font exists")
    lab = Lab()
    p = lab.p
    V = Values(p)
    lab = V.lab
    p = lab.p
    table = imports(chk, p)
    catalogue = {}
    entries(chk, p, V, catalogue)
    complete(chk, p, catalogue)
    meta(chk, p, V, catalogue, table)
    keycodes(chk, V)
    fonts(chk)
    chk.analysed(lab.e)
    for r, n in (("exists", 100), ("parameters", 100), ("required", 300), ("default", 250), ("complete", 110), ("imports", 20), ("meta", 150), ("values", 60), ("keycodes", 80), ("fonts", 10)):
        chk.floor(r, n)


def entries(chk, p, V, catalogue):
    clients = sorted({n.split(".")[2] for n in p.modules if n.startswith("pyswitch.clients.") and n.count(".") == 2})
    for f in ORIENT:
        where = "web/htdocs/definitions/%s.json" % f
        for cl in load(f):
            chk.ob("exists", "%s client %s" % (f, cl["client"]), cl["client"] in clients, "client %s does not exist" % cl["client"], where)
            for a in cl[f]:
                cons = "%s %s.%s" % (f, cl["client"], a["name"])
                cur = target(p, a)
                if not chk.ob("exists", cons, cur is not None, "%s is not defined in %s" % (a["name"], a["importPath"]), where):
                    continue
                imp = a.get("importName") or a["name"].split(".")[0]
                r = p.lookup(p.modules[a["importPath"]], imp)
                chk.ob("exists", cons + " import", r is not None and r[0] != "missing", "cannot import %s from %s" % (imp, a["importPath"]), where)
                catalogue.setdefault((f, cl["client"]), []).append((a, cur))
                sig, kwargs, fi = signature(cur)
                names = [x for x, _ in sig]
                offered = [x["name"] for x in a["parameters"]]
                chk.ob("parameters", cons, offered == names, "offers %s, the firmware accepts %s" % ([x for x in offered if x not in names] or offered, [x for x in names if x not in offered] or names), fi.where if hasattr(fi, "where") else where)
                dflt = dict(sig)
                for x in a["parameters"]:
                    if x["name"] not in dflt:
                        continue
                    d = dflt[x["name"]]
                    c2 = "%s %s" % (cons, x["name"])
                    if not chk.ob("required", c2, (d is None) == (x["default"] is None), "the catalogue says default %s, the firmware %s" % (x["default"], ast.unparse(d) if d is not None else "none"), fi.where):
                        continue
                    if d is None:
                        continue
                    bind = V.in_module(fi.module)
                    src = ast.unparse(d)
                    try:
                        same = ast.dump(ast.parse(x["default"], mode="eval").body) == ast.dump(d) or ast.unparse(ast.parse(x["default"], mode="eval").body) == src
                    except SyntaxError:
                        same = False
                    why = ""
                    if not same:
                        want, e1 = V.value(src, bind, where)
                        got, e2 = V.value(x["default"], bind, where)
                        same = want is not None and want == got
                        why = e1 or e2
                    chk.ob("default", c2, same, "the catalogue says %s, the firmware %s%s" % (x["default"], src, why and ": " + why), fi.where)


def complete(chk, p, catalogue):
    for (f, client), items in sorted(catalogue.items()):
        seen = {}
        for a, cur in items:
            seen[a["name"]] = seen.get(a["name"], 0) + 1
        for n, k in sorted(seen.items()):
            chk.ob("complete", "%s %s.%s once" % (f, client, n), k == 1, "offered %d times" % k, "web/htdocs/definitions/%s.json" % f)
    for mn, mod in sorted(p.modules.items()):
        parts = mn.split(".")
        if not mn.startswith("pyswitch.clients.") or len(parts) < 4:
            continue
        client, kind = parts[2], parts[3]
        if kind not in ORIENT:
            continue
        have = {a["name"]: cur for a, cur in catalogue.get((kind, client), [])}
        for fi in mod.functions:
            if fi.name.startswith("_") or not fi.name.isupper():
                continue
            cur = have.get(fi.name)
            chk.ob("complete", "%s %s" % (client, fi.name), cur is not None and cur[1] is fi, "%s is not offered" % fi.name, fi.where)
        if kind == "callbacks":
            for ci in mod.classes:
                if ci.name.startswith("_"):
                    continue
                cur = have.get(ci.name)
                chk.ob("complete", "%s %s" % (client, ci.name), cur is not None and cur[1] is ci, "%s is not offered" % ci.name, "%s:%d" % (mod.rel, ci.node.lineno))


def editor_types():
    """parameter types the editor knows: string literals of its sources"""
    out = set()
    for dp, dn, fn in os.walk(os.path.join(HT, "js")):
        for f in fn:
            if f.endswith(".js"):
                with open(os.path.join(dp, f), encoding="utf-8") as h:
                    out |= set(re.findall(r"""["'`]([a-z-]+)["'`]""", h.read()))
    return out


def client_constants(client):
    """named limits the editor's client class resolves"""
    d = os.path.join(HT, "clients", client)
    out = {}
    for dp, dn, fn in os.walk(d):
        for f in fn:
            if f.endswith(".js"):
                with open(os.path.join(dp, f), encoding="utf-8") as h:
                    for n, v in re.findall(r"""case\s+["'](\w+)["']\s*:\s*return\s+(\d+)""", h.read()):
                        out[n] = int(v)
    return out


def meta(chk, p, V, catalogue, table):
    where = "web/htdocs/definitions/meta.json"
    types = editor_types() | {"any"}
    data = load("meta")
    seen = set()
    bind = V.imported(table)
    described = {}
    for cl in data:
        client = cl["client"]
        consts = client_constants(client)
        for n, v in sorted(consts.items()):
            r = [x for x in (p.lookup(m, n) for mn, m in sorted(p.modules.items()) if mn.startswith("pyswitch.clients." + client)) if x]
            vals = {plain(V.lab, V.named(x), V.lab.st) for x in r}
            chk.ob("values", "%s %s" % (client, n), vals == {v}, "the editor uses %d, the firmware %s" % (v, sorted(map(str, vals))), "web/htdocs/clients/%s" % client)
        mine = {}
        for f in ORIENT:
            for a, cur in catalogue.get((f, client), []):
                mine[a["name"]] = a
        for en in cl["entities"]:
            n = en["entityName"]
            key = (client, n)
            chk.ob("meta", "%s %s" % key, (n == "default" or n in mine) and key not in seen, "described %s" % ("twice" if key in seen else "but not offered"), where)
            seen.add(key)
            ps = set()
            for x in en.get("parameters", []):
                cons = "%s %s %s" % (client, n, x["name"])
                chk.ob("meta", cons, x["name"] not in ps, "parameter described twice", where)
                ps.add(x["name"])
                described[(client, n, x["name"])] = x
                chk.ob("meta", cons + " type", x.get("hidden") or x.get("type") in types, "the editor does not know the type %s" % x.get("type"), where)
                checks = [("default", x["default"])] if x.get("default") is not None else []
                checks += [(y["name"], y["value"]) for y in x.get("values", [])]
                rg = x.get("range") or {}
                checks += [(y["name"], y["value"]) for y in rg.get("additionalValues", [])]
                checks += [("unconverted", y) for y in x.get("unconvertedValues", [])]
                got = {}
                for label, src in checks:
                    v, why = V.value(str(src), bind, where)
                    chk.ob("values", "%s %s" % (cons, label), v is not None, "%s %s" % (src, why), where)
                    if label != "default" and label != "unconverted":
                        twin = [k for k, w in got.items() if w == v]
                        chk.ob("values", "%s %s unique" % (cons, label), not twin, "%s and %s are the same value" % (label, twin), where)
                        got[label] = v
                if rg:
                    lo, hi = (consts.get(rg.get(k), rg.get(k)) for k in ("min", "max"))
                    chk.ob("values", cons + " range", isinstance(lo, (int, float)) and isinstance(hi, (int, float)) and lo < hi, "range %s..%s" % (rg.get("min"), rg.get("max")), where)
    # every offered parameter is described, and its default is one of the offered values
    for (f, client), items in sorted(catalogue.items()):
        consts = client_constants(client)
        for a, cur in items:
            sig, _, fi = signature(cur)
            mb = V.in_module(fi.module)
            for x in a["parameters"]:
                m = described.get((client, a["name"], x["name"])) or described.get((client, "default", x["name"]))
                cons = "%s %s.%s %s" % (f, client, a["name"], x["name"])
                if not m or x["default"] is None:
                    continue
                d, why = V.value(x["default"], mb, where)
                if f == "actions":
                    chk.ob("imports", cons + " default", V.value(x["default"], bind, where)[0] is not None, "generated files cannot use the default %s" % x["default"], where)
                plainv = number(x["default"])
                if m.get("values") and d is not None:
                    opts = [V.value(str(y["value"]), bind, where)[0] for y in m["values"]]
                    chk.ob("values", cons + " default", d in opts, "the default %s is not among the offered values" % x["default"], where)
                rg = m.get("range")
                if rg and plainv is not None:
                    lo, hi = (consts.get(rg.get(k), rg.get(k)) for k in ("min", "max"))
                    if isinstance(lo, (int, float)) and isinstance(hi, (int, float)):
                        chk.ob("values", cons + " default", lo <= plainv <= hi, "the default %s is outside of %s..%s" % (x["default"], lo, hi), where)


def number(src):
    try:
        v = ast.literal_eval(src)
    except (ValueError, SyntaxError):
        return None
    return v if isinstance(v, (int, float)) and not isinstance(v, bool) else None


def keycodes(chk, V):
    path = os.path.join(HT, "python/adafruit_hid/keycode.py")
    rel = os.path.relpath(path, REPO)
    with open(path, encoding="utf-8") as f:
        tree = ast.parse(f.read())
    have = {}
    for x in ast.walk(tree):
        if isinstance(x, ast.ClassDef) and x.name == "Keycode":
            for y in x.body:
                if isinstance(y, ast.Assign) and isinstance(y.targets[0], ast.Name):
                    v = y.value
                    have[y.targets[0].id] = v.value if isinstance(v, ast.Constant) else have.get(getattr(v, "id", None))
    seen = {}
    for k in load("keycodes"):
        n = k["name"].split(".", 1)[-1]
        chk.ob("keycodes", k["name"], k["name"].startswith("Keycode.") and n in have, "%s does not exist" % k["name"], "web/htdocs/definitions/keycodes.json")
        if n in have and re.match(r"^(0x[0-9a-fA-F]+|\d+)$", str(k.get("value") or "")):
            chk.ob("keycodes", k["name"] + " value", int(str(k["value"]), 0) == have[n], "%s is %s, the library says %s" % (k["name"], k["value"], have[n]), rel)
        chk.ob("keycodes", k["name"] + " once", k["name"] not in seen, "offered twice", "web/htdocs/definitions/keycodes.json")
        seen[k["name"]] = 1


def fonts(chk):
    fs = load("fonts")
    for f in fs:
        chk.ob("fonts", f, os.path.exists(os.path.join(REPO, "content", f.lstrip("/"))), "font %s does not exist" % f, "web/htdocs/definitions/fonts.json")
