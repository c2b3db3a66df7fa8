"""The editor's code parser: reading and writing configurations, interpreted over a model of libcst."""
import ast
import glob
import json
import os

from sa.cst import Cst, MODEL
from sa.model import Program, REPO, LIB
from checks.common import *

HT = os.path.join(REPO, "web/htdocs")
PARSER = "parser.PySwitchParser"
BASE = []


def program():
    if not BASE:
        BASE.append(Program([(os.path.join(HT, "python/parser"), "parser"), (MODEL, "")]))
    return BASE[0]


POSITIONAL = {"DisplayBounds": ["x", "y", "w", "h"]}


class Broken(Exception):
    pass


def reduced(name):
    """definitions and library sources the parser opens; definitions are cut to a few entries per client"""
    if name.startswith("definitions/"):
        d = json.load(open(os.path.join(HT, name), encoding="utf-8"))
        for cl in d:
            for k, v in cl.items():
                if isinstance(v, list):
                    cl[k] = [{"name": x["name"], "importPath": x["importPath"], **({"importName": x["importName"]} if "importName" in x else {})} for x in v if keep(x, v)]
        return json.dumps(d)
    if name.startswith("pyswitch/"):
        p = os.path.join(LIB, name)
        if os.path.isfile(p):
            return open(p, encoding="utf-8").read()
    return None


WANT = ("RIG_UP", "RIG_DOWN", "BANK_UP", "TUNER_MODE", "PagerAction", "PagerAction.proxy")


def keep(x, all_):
    return x["name"] in WANT or all_.index(x) < 2


class Editor:
    def __init__(self):
        self.lab = lab = Lab(program(), volatile_period=False)
        lab.e.no_merge = True
        lab.e.opaque_raises = False
        lab.e.rec_limit = 60
        lab.e.depth_limit = 400
        self.cst = Cst(lab, reduced)
        self.st = lab.st
        self.parser = self.do(lab.new(lab.p.cls(PARSER, "PySwitchParser"), [c("hw"), c('["kemper", "local"]')], st=self.st), "PySwitchParser")

    def do(self, results, what):
        try:
            rs = list(results)
        except TypeError as ex:
            raise Broken("%s: %s" % (what, ex))
        if len(rs) != 1:
            raise AnalysisBroken("%s: %d paths" % (what, len(rs)))
        self.st, v = rs[0]
        if isinstance(v, Raise):
            raise Broken("%s raises %s %s (%s)" % (what, v.exc, v.msg, v.where))
        return v

    def call(self, name, *args):
        v = self.do(self.lab.method(self.parser, name, list(args), st=self.st), name)
        if self.cst.invalid:
            raise Broken("%s makes code of %r" % (name, self.cst.invalid.pop()))
        return v

    def load(self, inputs, display):
        self.call("from_source", c(inputs), c(display))

    def tree(self, name):
        v = self.call(name)
        return json.loads(self.cst.text(v))

    def proxy(self, tree):
        """as JavaScript hands it over: strings and nothing are converted, everything else is a proxy"""
        v = self.cst.value(self.st, tree)
        if tree is None or isinstance(tree, (str, int, float, bool)):
            return v
        return self.do(self.lab.new(self.lab.p.cls("jsproxy", "Proxy"), [v], st=self.st), "proxy")

    def save(self, inputs, splashes):
        self.call("set_inputs", self.proxy(inputs))
        self.call("set_splashes", self.proxy(splashes))
        d = self.cst.data(self.st, self.call("to_source"))
        return d["inputs_py"], d["display_py"]

    def roundtrip(self, inputs, display):
        self.load(inputs, display)
        ti, ts = self.tree("inputs"), self.tree("splashes")
        return ti, ts, self.save(ti, ts)


# -- what the saved sources have to be ------------------------------------------------------------------

def loads(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}


def is_import(s):
    return isinstance(s, (ast.Import, ast.ImportFrom))


class Strip(ast.NodeTransformer):
    """drops imports and pass statements"""

    def visit_Import(self, n):
        return None

    def visit_ImportFrom(self, n):
        return None

    def visit_Pass(self, n):
        return None

    def visit_Call(self, n):
        return named(self.generic_visit(n))


def named(n):
    """the analysis names the positional arguments of these calls"""
    names = POSITIONAL.get(ast.unparse(n.func), [])
    if n.args and len(n.args) <= len(names) and not stars(n):
        n.keywords = [ast.keyword(arg=names[i], value=x) for i, x in enumerate(n.args)] + n.keywords
        n.args = []
    return n


class Named(ast.NodeTransformer):
    def visit_Call(self, n):
        return named(self.generic_visit(n))


def statements(src):
    return [ast.dump(s) for s in Strip().visit(ast.parse(src)).body]


def imports(tree):
    """[(place, bound name, what, used in its scope)] in order; the place is the chain of enclosing statements"""
    out = []

    def walk(body, place, scope):
        for s in body:
            if is_import(s):
                for a in s.names:
                    bound = a.asname or a.name
                    what = (getattr(s, "module", None), getattr(s, "level", 0), a.name)
                    out.append((place, bound, what, a.name == "*" or bound.split(".")[0] in scope))
                continue
            for n, b in ast.iter_fields(s):
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    inner = isinstance(s, (ast.FunctionDef, ast.ClassDef))
                    walk(b, place + ((type(s).__name__, n, getattr(s, "name", "")),), loads(s) if inner else scope)
                elif isinstance(b, list) and b and isinstance(b[0], ast.ExceptHandler):
                    for i, h in enumerate(b):
                        walk(h.body, place + (("except", str(i), ""),), scope)
    walk(tree.body, (), loads(tree))
    return out


def bound_on_module(tree):
    """names bound on module level, also in conditional code"""
    out = set()

    def walk(body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                out.add(s.name)
            elif is_import(s):
                out.update((a.asname or a.name.split(".")[0]) for a in s.names)
            else:
                out.update(x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))
                for f, b in ast.iter_fields(s):
                    if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                        walk(b)
                for h in getattr(s, "handlers", []):
                    walk(h.body)
    walk(tree.body)
    return out


OFFERED = ("Colors", "PushButtonAction", "KemperEffectSlot", "BinaryParameterCallback")


def check_imports(chk, cons, before, after, display, where):
    b, a = ast.parse(before), ast.parse(after)
    bi, ai = imports(b), imports(a)
    used = loads(a)
    # used imports are still there, at their place, in the same order
    need = [x[:3] for x in bi if x[3] and (x[2][2] == "*" or x[1].split(".")[0] in used)]
    have = [x[:3] for x in ai]
    it = list(have)
    for x in need:
        ok_ = x in it
        chk.ob("imports", "%s import %s" % (cons, x[1]), ok_, "the import of %s from %s is removed or moved although the name is used" % (x[1], x[2][0]), where)
        if ok_:
            it = it[it.index(x) + 1:]
    own = {x[1] for x in bi if not any(k == "FunctionDef" or k == "ClassDef" for k, _, _ in x[0])}
    for x in have:
        if x in [y[:3] for y in bi]:
            continue
        chk.ob("imports", "%s new import %s" % (cons, x[1]), x[0] == () and x[1] in used and x[1] not in own,
               "%s is imported from %s%s" % (x[1], x[2][0], " although the configuration imports it itself" if x[1] in own else " but not used" if x[1] not in used else " inside of %s" % (x[0],)), where)
    # names in use which the editor offers are imported before their use
    offered = set(OFFERED) if display is not None else set()
    if display is not None:
        offered |= {x["name"] for x in names_offered()}
        offered |= {n for n, _ in assigned(display) if not n.startswith("_")}
    have_ = bound_on_module(a)
    for n in sorted(used & offered):
        chk.ob("imports", "%s uses %s" % (cons, n), n in have_, "%s is used but not imported" % n, where)
    seen = set()
    for s in a.body:
        if not is_import(s):
            late = {x[1] for x in ai if x[0] == () and x[:3] not in [y[:3] for y in bi]} - seen
            now = set() if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else loads(s)
            chk.ob("imports", "%s order" % cons, not (late & now), "%s is used before its new import" % sorted(late & now)[:1], where)
        else:
            seen |= {x.asname or x.name for x in s.names}


def names_offered():
    out = []
    for f in ("actions", "mappings"):
        for cl in json.loads(reduced("definitions/%s.json" % f)):
            out += [{"name": x.get("importName", x["name"])} for x in cl[f]]
    return out


def assigned(src):
    """[(name, value)] of the assignments on module level, in order"""
    out = []
    for s in Named().visit(ast.parse(src)).body:
        if isinstance(s, ast.Assign):
            out += [(t.id, s.value) for t in s.targets if isinstance(t, ast.Name)]
    return out


def unique(env, n):
    v = [x for m, x in env if m == n]
    return v[0] if len(v) == 1 else None


def target(env, name):
    """the variable holding the value of that name, and the value"""
    while True:
        v = [x for n, x in env if n == name][-1]
        if not isinstance(v, ast.Name) or unique(env, v.id) is None:
            return name, v
        name = v.id


def plain_key(k):
    return isinstance(k, ast.Constant) and isinstance(k.value, str)


def differs(tree, n, env, names, depth=0):
    """first difference of the tree the editor gets to the source expression, or None"""
    if isinstance(tree, dict) and tree.get("assign") and depth and isinstance(n, ast.Name):
        v = unique(env, n.id)
        if v is None or tree["assign"] != n.id:
            return "variable %s for %s" % (tree["assign"], ast.unparse(n))
        inner = {k: x for k, x in tree.items() if k not in ("assign", "aliases")}
        for a in reversed(tree.get("aliases", [])):
            if not isinstance(v, ast.Name) or v.id != a:
                return "%s for %s" % (a, ast.unparse(v)[:60])
            v = unique(env, a)
        if isinstance(v, ast.Name) and unique(env, v.id) is not None:
            return "%s for %s" % (str(inner)[:60], ast.unparse(v)[:60])
        if not isinstance(v, (ast.Call, ast.Dict)) or "value" in inner and "arguments" not in inner:
            inner = inner.get("value")
        return differs(inner, v, env, names, depth + 1)
    if isinstance(tree, str):
        if isinstance(n, ast.Call) and not stars(n) or isinstance(n, ast.List) and not any(isinstance(x, ast.Starred) for x in n.elts) or isinstance(n, ast.Dict) and all(k is not None and simple_key(k) for k in n.keys):
            return "%s is not analysed" % ast.unparse(n)[:60]
        if isinstance(n, ast.Name) and unique(env, n.id) is not None:
            return "the variable %s is not resolved" % n.id
        try:
            same = ast.dump(ast.parse(tree.strip(), mode="eval").body) == ast.dump(n)
        except SyntaxError:
            same = False
        return None if same else "%r for %s" % (tree[:60], ast.unparse(n)[:60])
    if isinstance(tree, list):
        if not isinstance(n, ast.List) or len(n.elts) != len(tree):
            return "a list of %d for %s" % (len(tree), ast.unparse(n)[:60])
        return next((d for t, x in zip(tree, n.elts) for d in [differs(t, x, env, names, depth + 1)] if d), None)
    if not isinstance(tree, dict):
        return "%r for %s" % (tree, ast.unparse(n)[:60])
    args = tree.get("arguments")
    if isinstance(n, ast.Call):
        if stars(n) or tree.get("name") != ast.unparse(n.func) or args is None or len(args) != len(n.args) + len(n.keywords):
            return "%s for %s" % (str(tree)[:80], ast.unparse(n)[:60])
        pos = names.get(ast.unparse(n.func), [])
        want = [(pos[i] if i < len(pos) else None, x) for i, x in enumerate(n.args)] + [(k.arg, k.value) for k in n.keywords]
    elif isinstance(n, ast.Dict):
        if "name" in tree or args is None or len(args) != len(n.keys) or not all(k is not None and plain_key(k) for k in n.keys):
            return "%s for %s" % (str(tree)[:80], ast.unparse(n)[:60])
        want = [(k.value, x) for k, x in zip(n.keys, n.values)]
        args = [{**x, "name": ast.literal_eval('"%s"' % x["name"])} for x in args]
    elif "value" in tree and set(tree) <= {"value", "assign"}:
        return differs(tree["value"], n, env, names, depth + 1)
    else:
        return "%s for %s" % (str(tree)[:80], ast.unparse(n)[:60])
    for x, (nm, v) in zip(args, want):
        if x.get("name") != nm:
            return "the argument %s is named %s" % (nm, x.get("name"))
        d = differs(x.get("value"), v, env, names, depth + 1)
        if d:
            return d
    return None


def stars(n):
    return any(isinstance(x, ast.Starred) for x in n.args) or any(k.arg is None for k in n.keywords)


def simple_key(k):
    return plain_key(k) and '"' not in k.value and "\\" not in k.value and len(k.value) > 0 and k.end_col_offset - k.col_offset == len(k.value.encode()) + 2


def code_of(tree):
    """source of a tree, by its documented form"""
    if isinstance(tree, list):
        return "[" + ", ".join(code_of(x) for x in tree) + "]"
    if isinstance(tree, dict):
        if tree.get("assign"):
            return tree["assign"]
        if "name" in tree:
            return tree["name"] + "(" + ", ".join((a["name"] + " = " if a.get("name") else "") + code_of(a["value"]) for a in tree.get("arguments", [])) + ")"
        if "arguments" in tree:
            return "{" + ", ".join('"%s": %s' % (a["name"], code_of(a["value"])) for a in tree["arguments"]) + "}"
        return code_of(tree["value"])
    return tree


def variables(tree, out):
    """[(name, source of the value)] of the variables in the tree, what they need first"""
    if isinstance(tree, list):
        for x in tree:
            variables(x, out)
    elif isinstance(tree, dict):
        for a in tree.get("arguments", []):
            variables(a.get("value"), out)
        if "arguments" not in tree and "value" in tree:
            variables(tree["value"], out)
        if tree.get("assign") and not any(n == tree["assign"] for n, _ in out):
            if "name" in tree or "arguments" in tree or "value" in tree:
                code = code_of({k: v for k, v in tree.items() if k not in ("assign", "aliases")})
                for n in tree.get("aliases", []) + [tree["assign"]]:
                    if not any(m == n for m, _ in out):
                        out.append((n, code))
                    code = n
    return out


def norm(text):
    return ast.dump(Named().visit(ast.parse(text.strip(), mode="eval")).body)


# -- rules ------------------------------------------------------------------------------------------------

def where():
    return "web/htdocs/python/parser/PySwitchParser.py"


def unchanged(chk, cons, inputs, display):
    e = Editor()
    try:
        ti, ts, (oi, od) = e.roundtrip(inputs, display)
    except Broken as ex:
        chk.ob("total", cons, False, str(ex), where())
        return
    chk.ob("total", cons, True)
    for f, src, out, tree, name in (("inputs.py", inputs, oi, ti, "Inputs"), ("display.py", display, od, ts, "Splashes")):
        k = "%s %s" % (cons, f)
        env = assigned(src)
        v = [x for n, x in env if n == name]
        if v:
            d = differs(tree, target(env, name)[1], env, POSITIONAL)
            chk.ob("tree", k, d is None, "the editor gets %s" % d, where())
        try:
            a, b = statements(src), statements(out)
        except SyntaxError as ex:
            chk.ob("same", k, False, "the saved file has a syntax error: %s" % ex, where())
            continue
        diff = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), None)
        chk.ob("same", k, a == b, "statement %s of the saved file differs: %s" % (diff, snippet(out, diff) if diff is not None else "%d instead of %d" % (len(b), len(a))), where())
        check_imports(chk, k, src, out, display if f == "inputs.py" else None, where())
    if not chk.thorough and (cons.startswith("leaf") or cons.startswith("variable of ")):
        return
    e2 = Editor()
    try:
        ti2, ts2, (oi2, od2) = e2.roundtrip(oi, od)
    except (Broken, SyntaxError) as ex:
        chk.ob("total", cons + " again", False, str(ex), where())
        return
    same = ast.dump(ast.parse(oi)) == ast.dump(ast.parse(oi2)) and ast.dump(ast.parse(od)) == ast.dump(ast.parse(od2))
    chk.ob("same", cons + " again", same, "saving again changes the files", where())


def snippet(src, i):
    s = Strip().visit(ast.parse(src)).body
    return ast.unparse(s[i])[:120] if i < len(s) else ""


def edited(chk, cons, inputs, display, change):
    e = Editor()
    try:
        e.load(inputs, display)
        ti, ts = e.tree("inputs"), e.tree("splashes")
        ti, ts = change(ti, ts)
        oi, od = e.save(ti, ts)
    except Broken as ex:
        chk.ob("total", cons, False, str(ex), where())
        return
    for f, src, out, tree, name in (("inputs.py", inputs, oi, ti, "Inputs"), ("display.py", display, od, ts, "Splashes")):
        k = "%s %s" % (cons, f)
        if tree is None:
            chk.ob("edit", k, statements(src) == statements(out), "the file is changed although there is nothing to save", where())
            continue
        if isinstance(tree, dict):
            tree = {a: b for a, b in tree.items() if a != "assign"}
        if any(n == name for n, _ in assigned(src)):
            name = target(assigned(src), name)[0]
        env = [(n, ast.dump(v)) for n, v in assigned(out)]
        last = dict(env)
        want = norm(code_of(tree))
        chk.ob("edit", k, last.get(name) == want, "%s is saved as %s instead of %s" % (name, (ast.unparse(dict(assigned(out))[name]) if name in last else None), code_of(tree)[:200]), where())
        for n, code in variables(tree, []):
            vals = [v for m, v in env if m == n]
            chk.ob("edit", "%s variable %s" % (k, n), vals == [norm(code)], "the variable %s is %s" % (n, "not defined" if not vals else "defined %d times" % len(vals) if len(vals) > 1 else "not %s" % code[:80]), where())
        # definitions precede their uses
        known = set()
        late = set()
        for s in ast.parse(out).body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            late |= {n for n in loads(s) if n in last and n not in known}
            if isinstance(s, ast.Assign):
                known |= {t.id for t in s.targets if isinstance(t, ast.Name)}
        chk.ob("edit", k + " order", not late, "%s is used before it is defined" % sorted(late)[:1], where())
        # nothing else is changed
        keep_ = {name} | {n for n, _ in variables(tree, [])}
        rest = lambda t: [ast.dump(s) for s in Strip().visit(ast.parse(t)).body if not (isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and x.id in keep_ for x in s.targets))]
        chk.ob("edit", k + " rest", rest(src) == rest(out), "other statements are changed", where())
        check_imports(chk, k, src, out, display if f == "inputs.py" else None, where())


# -- programs ---------------------------------------------------------------------------------------------

D0 = '''from micropython import const
from pyswitch.colors import DEFAULT_LABEL_COLOR
from pyswitch.ui.ui import DisplayElement, DisplayBounds
from pyswitch.ui.elements import DisplayLabel

_W = const(240)
_LAYOUT = {"font": "/fonts/H20.pcf", 'backColor': DEFAULT_LABEL_COLOR, "stroke": 1}
DISPLAY_HEADER_1 = DisplayLabel(layout = _LAYOUT, bounds = DisplayBounds(0, 0, _W / 2, 40))
DISPLAY_HEADER_2 = DisplayLabel(layout = _LAYOUT, bounds = DisplayBounds(x = 120, y = 0, w = 120, h = 40))

Splashes = DisplayElement(
    bounds = DisplayBounds(0, 0, _W, 240),
    children = [DISPLAY_HEADER_1, DISPLAY_HEADER_2, DisplayLabel(layout = {"font": '/fonts/A.pcf'}, bounds = DisplayBounds(0, 40, 240, 100))]
)
'''
I0 = '''from pyswitch.clients.kemper.actions.rig_up_down import RIG_UP
from pyswitch.hardware.devices.pa_midicaptain_nano_4 import PA_MIDICAPTAIN_NANO_SWITCH_1, PA_MIDICAPTAIN_NANO_SWITCH_2
from display import DISPLAY_HEADER_1

_up = RIG_UP(display = DISPLAY_HEADER_1, text = "Up")

Inputs = [
    {
        "assignment": PA_MIDICAPTAIN_NANO_SWITCH_1,
        "holdTimeMillis": 500,
        "actions": [_up]
    },
    {
        "assignment": PA_MIDICAPTAIN_NANO_SWITCH_2,
        "actions": [RIG_UP(id = 3, use_leds = False)],
        "actionsHold": []
    }
]
'''
LEAVES = ["A", "A.b", "A.b.c", "1", "-1", "0x1F", "1.5", "True", "None", '"x"', "'x'", '""', "r'\\d'", "b'ab'", "f'{A}'", '"a" "b"', '"""t"""', '"a\\"b"', "'a\"b'",
          "(1, 2)", "()", "lambda: A", "lambda x, y = 1: x + y", "A != None", "A + 1 * 2", "not A", "A and 1 or 2", "A[0]", "A[1:2]", "{1, 2}", "[x for x in A]", "{x: 1 for x in A}",
          "(x for x in A)", "1 if A else 2", "(A)", "...", '"\u00e9\u20ac"', "{}", "[]", "A()", "A.b()", "A()()", "A[0](1)", "A(1)(2)", "{1: 2}", "{A: 1}", "{'k': 1}", "{'k\"q': 1}", "{'a' 'b': 1}", '{"a\\"b": 1}',
          "{**A}", "{'a': 1, **A}", "[*A]", "[1, *A, 2]", "A(*A)", "A(**A)", "A(1, *A, k = 2, **A)", "A(k = 1)", "A(1, k = A(2, [3, {'z': 4}]))", "A(x for x in A)", "[[], [[]], {}]", "{'a': {'b': [1]}}"]
MULTI = ["1 +\n  2", "A and\n  A", '"a"\n  "b"', "1 if A\n  else 2", "A(\n  1,\n  k = 2\n)", "[\n 1, # one\n 2\n]", "(1 +\n  2)", "not\\\n A"]
PLACES = "Inputs = [%s, f(%s), f(k = %s), {\"a\": %s}, [%s], f(g(%s, z = [%s]))]\n"
HEAD = "from a import A, f, g\n"
STATEMENTS = {
    "tuple target": "a, b = 1, 2\nInputs = [a]\n",
    "nested tuple target": "(a, [b, c]) = f(1)\nInputs = [a]\n",
    "starred target": "a, *b = f(1)\nInputs = [a]\n",
    "attribute target": "A.Foo = 3\nInputs = [f(A)]\n",
    "subscript target": "d = {}\nd[\"x\"] = 3\nInputs = [d]\n",
    "chain": "a = b = [1]\nInputs = [a, b]\n",
    "chain with attribute": "A.x = a = [1]\nInputs = [a]\n",
    "semicolon": "a = 1; b = f(a)\nInputs = [a, b]\n",
    "semicolon inputs": "a = 1; Inputs = [a]\n",
    "twice": "z = 1\ny = f(z)\nz = 2\nInputs = [z, y]\n",
    "of itself": "z = 1\nz = f(z)\nInputs = [z]\n",
    "inputs twice": "Inputs = [1]\ny = Inputs\nInputs = [2, f(y)]\n",
    "inputs of itself": "Inputs = [1]\nInputs = Inputs + [f(2)]\n",
    "augmented": "Inputs = [f(1)]\nInputs += [f(2)]\n",
    "annotated": "z: int = 1\nInputs = [z]\n",
    "deleted": "z = 1\ndel z\nInputs = [1]\n",
    "empty": "Inputs = []\n",
    "function": "def h(x = A):\n    z = x\n    return f(z)\nInputs = [h(), h]\n",
    "function first": "def h():\n    return RIG_DOWN(1)\nInputs = [h(), BANK_UP()]\n",
    "class": "class C(A):\n    z = 1\n    def m(self):\n        return g(self.z)\nInputs = [C(), C.z]\n",
    "conditional": "if A:\n    z = 1\nelse:\n    z = 2\nInputs = [z]\n",
    "conditional override": "z = 1\nif A:\n    z = 2\nInputs = [z]\n",
    "loop": "z = []\nfor i in range(3):\n    z.append(f(i))\nInputs = z\n",
    "try": "try:\n    z = f(1)\nexcept ValueError as ex:\n    z = 2\nfinally:\n    pass\nInputs = [z]\n",
    "variable": "Inputs_ = [f(1)]\nInputs = Inputs_\n",
    "nested variables": "x = f(1)\ny = f(x, k = x)\nz = [x, y, {\"a\": y}]\nInputs = [z, y, f(z)]\n",
    "empty variables": "x = []\ny = {}\nz = \"\"\nw = None\nv = 0\nInputs = [x, y, z, w, v, f(x, y)]\n",
    "inputs in the middle": "x = f(1)\nInputs = [x]\ny = f(2)\nA.init(y)\n",
    "global call": "A.init(\"x\")\nInputs = [f(1)]\ng(Inputs)\n",
    "docstring": '"""doc"""\nInputs = [f(1)]\n',
    "assert": "assert A\nInputs = [f(1)]\n",
    "variable of a variable": "x = A(1)\ny = x\nInputs = y\nz = f(y)\n",
    "alias": "x = A(1)\ny = x\nz = y\nInputs = [x, y, z, f(y, k = z)]\n",
    "alias only": "x = A(1)\ny = x\nInputs = [y]\n",
    "alias of a list": "x = [1]\ny = x\nz = y\nInputs = [f(z), y]\n",
    "alias of text": "x = A\ny = x\nz = y\nInputs = [f(z), y]\n",
    "alias of a dict": "x = {\"a\": 1}\ny = x\nInputs = [f(y, k = {\"b\": y})]\n",
    "variable assigned twice": "x = [1]\nx = [2]\nInputs = x\n",
    "private name": "_x = f(1)\n__y = f(2)\nInputs = [_x, __y]\n",
}
IMPORTS = {
    "own name": "from mine import RIG_UP\nInputs = [RIG_UP(1)]\n",
    "own alias": "from mine import boost as RIG_UP\nInputs = [RIG_UP(1)]\n",
    "own module": "import RIG_UP\nInputs = [RIG_UP.x(1)]\n",
    "own display name": "from mine import DISPLAY_HEADER_1\nInputs = [f(DISPLAY_HEADER_1)]\nfrom a import f\n",
    "local and module": "from k import m\ndef h():\n    from k import m\n    return m\nInputs = [m(), h()]\n",
    "two functions": "def h():\n    from k import m\n    return m\ndef j():\n    from k import m\n    return m\nInputs = [h(), j()]\n",
    "fallback": "try:\n    from a import x\nexcept ImportError:\n    from b import x\nInputs = [x()]\n",
    "conditional": "import sys\nif sys.platform:\n    from a import x\nelse:\n    from b import x\nInputs = [x()]\n",
    "star": "from a import *\nInputs = [1]\n",
    "dotted": "import a.b\nInputs = [a.b.c()]\n",
    "dotted alias": "import a.b as ab\nInputs = [ab.c()]\n",
    "several": "from a import x, y, z\nInputs = [x(), z()]\n",
    "in a lambda": "from a import x\nInputs = [f(lambda: x)]\nfrom b import f\n",
    "default": "from a import x\ndef h(p = x):\n    return p\nInputs = [h()]\n",
    "decorator": "from a import x\n@x\ndef h():\n    return 1\nInputs = [h()]\n",
    "base": "from a import X\nclass C(X):\n    pass\nInputs = [C()]\n",
    "in a string": "from a import x\nInputs = [f'{x}']\n",
    "in a comprehension": "from a import x, y\nInputs = [y(i) for i in x]\n",
    "needed": "Inputs = [RIG_UP(display = DISPLAY_HEADER_1, color = Colors.RED), PagerAction(pages = [])]\n",
    "needed in functions": "def h():\n    return RIG_UP(1)\nInputs = [h()]\n",
    "needed after a function": "def h():\n    return 1\nInputs = [RIG_UP(h())]\n",
    "needed after a condition": "if True:\n    x = 1\nInputs = [RIG_UP(x)]\n",
    "imported in a function only": "def h():\n    from mine import RIG_UP\n    return RIG_UP\nInputs = [RIG_UP(h())]\n",
    "defined itself": "def RIG_UP():\n    return 1\nInputs = [RIG_UP()]\n",
    "order of two": "from a import x\ny = x()\nfrom b import x\nInputs = [x(y)]\n",
    "unused": "from a import x, y\nimport z\nInputs = [1]\n",
}
SPLASHES = {
    "none": "Splashes = None\n", "missing": "x = 1\n", "empty": "",
    "call": "from pyswitch.clients.kemper import TunerDisplayCallback\nfrom pyswitch.ui.ui import DisplayElement\nSplashes = TunerDisplayCallback(splash_default = DisplayElement(children = []))\n",
    "list": "Splashes = [\"a\", {\"b\": [1]}]\n",
    "function first": "def g():\n    return DisplayElement()\nSplashes = DisplayElement(children = [DisplayLabel(bounds = DisplayBounds(1, 2, 3, 4))])\n",
    "bounds": "from pyswitch.ui.ui import DisplayBounds, DisplayElement\n_b = DisplayBounds(1, 2, w = 3, h = 4)\nSplashes = DisplayElement(bounds = _b, children = [DisplayElement(bounds = DisplayBounds(_b, 1)), DisplayElement(bounds = DisplayBounds(h = 1, x = 2))])\n",
    "attribute target": "from x import Y\nY.a = 1\nSplashes = Y()\n",
    "own element": "from mine import DisplayLabel\nSplashes = DisplayLabel()\n",
}


def call(name, *args, **kw):
    assign = kw.pop("assign", None)
    d = {"name": name, "arguments": [{"value": a} for a in args] + [{"name": k, "value": v} for k, v in kw.items()]}
    if assign:
        d["assign"] = assign
    return d


def arg(node, name):
    return next(a for a in node["arguments"] if a.get("name") == name)


def E(f):
    """edit of the inputs tree in place"""
    def change(ti, ts):
        r = f(ti)
        return (ti if r is None else r), ts
    return change


def S(f):
    def change(ti, ts):
        r = f(ts)
        return ti, (ts if r is None else r)
    return change


EDITS = {
    "append action": (I0, E(lambda t: arg(t[0], "actions")["value"].append(call("RIG_DOWN", text='"x"')))),
    "insert action": (I0, E(lambda t: arg(t[0], "actions")["value"].insert(0, call("BANK_UP", display="DISPLAY_HEADER_2")))),
    "remove action": (I0, E(lambda t: arg(t[0], "actions")["value"].pop())),
    "remove input": (I0, E(lambda t: t.pop(0) and None)),
    "swap inputs": (I0, E(lambda t: t.reverse())),
    "clear": (I0, E(lambda t: [])),
    "hold": (I0, E(lambda t: t[0]["arguments"].append({"name": "actionsHold", "value": [call("TUNER_MODE")]}))),
    "change of a variable": (I0, E(lambda t: arg(arg(t[0], "actions")["value"][0], "text").update(value='"Other"'))),
    "new argument of a variable": (I0, E(lambda t: arg(t[0], "actions")["value"][0]["arguments"].append({"name": "color", "value": "Colors.RED"}))),
    "new variable": (I0, E(lambda t: arg(t[1], "actions")["value"].append(call("PagerAction", assign="_pager", pages=[{"arguments": [{"name": "id", "value": "1"}, {"name": "text", "value": '"a"'}]}])))),
    "new variable used twice": (I0, E(lambda t: [arg(x, "actions")["value"].append(call("RIG_DOWN", assign="_d")) for x in t] and None)),
    "new variable in a new variable": (I0, E(lambda t: arg(t[1], "actions")["value"].append(call("RIG_DOWN", call("RIG_UP", assign="_n1"), assign="_n2")))),
    "new variable in a variable": (I0, E(lambda t: arg(t[0], "actions")["value"][0]["arguments"].append({"name": "mapping", "value": call("RIG_DOWN", assign="_n")}))),
    "new list variable": (I0, E(lambda t: t.append({"arguments": [{"name": "actions", "value": {"value": [call("RIG_UP")], "assign": "_list"}}]}))),
    "new empty list variable": (I0, E(lambda t: t.append({"arguments": [{"name": "actions", "value": {"value": [], "assign": "_list"}}]}))),
    "variable of text": (I0, E(lambda t: t.append({"value": "1 + 2", "assign": "_v"}))),
    "item with a value": (I0, E(lambda t: t.append({"value": '"x"'}))),
    "dict": (I0, E(lambda t: arg(t[1], "actions")["value"].append(call("RIG_UP", x={"arguments": []}, y={"arguments": [{"name": "a b", "value": []}]})))),
    "dotted": (I0, E(lambda t: arg(t[1], "actions")["value"].append(call("PagerAction.proxy", "A.b")))),
    "no arguments": (I0, E(lambda t: arg(t[1], "actions")["value"].append({"name": "RIG_DOWN", "arguments": []}))),
    "file without inputs": ("x = 1\n", E(lambda t: [call("RIG_UP", assign="_a"), call("RIG_DOWN")])),
    "empty file": ("", E(lambda t: [call("RIG_UP", assign="_a"), call("RIG_DOWN", "_a")])),
    "file with a function only": ("def f():\n    return 1\n", E(lambda t: [call("RIG_UP", "f()", assign="_a")])),
    "file ending with a function": (I0 + "def f():\n    return 1\n", E(lambda t: t.append(call("RIG_UP", assign="_a")))),
    "semicolons": ("from a import f\nx = f(1); Inputs = [x]\n", E(lambda t: t.append(call("RIG_UP", assign="_a")))),
    "inputs twice": ("from a import f\nInputs = [f(1)]\nx = Inputs\nInputs = [f(2)]\n", E(lambda t: t.append(call("RIG_UP", assign="_a")))),
    "attribute targets": ("from a import A\nA.Inputs = 1\nA.x, y = 1, 2\nInputs = []\n", E(lambda t: [call("RIG_UP", assign="_a")])),
    "argument of an alias": ("from a import A\nx = A(1)\ny = x\nInputs = [y]\n", E(lambda t: t[0]["arguments"].append({"name": "k", "value": call("RIG_UP", assign="_a")}))),
    "held by a variable": ("from a import A\nx = [A]\nInputs = x\nA.y(x)\n", E(lambda t: t.append(call("RIG_UP", assign="_a")))),
    "held by a variable filled later": ("from a import A\nx = []\ny = x\nfor i in range(3):\n    x.append(A(i))\nInputs = y\n", E(lambda t: t.append(call("RIG_UP", assign="_a")))),
    "own import": ("from mine import RIG_DOWN\nInputs = [RIG_DOWN()]\n", E(lambda t: t.append(call("RIG_UP", "RIG_DOWN")))),
    "no tree": (I0, lambda ti, ts: (ti, None)),
    "splashes text": (I0, lambda ti, ts: (ti, "None")),
    "splash child": (I0, S(lambda t: arg(t, "children")["value"].append(call("DisplayLabel", layout={"arguments": [{"name": "font", "value": '"x"'}]}, bounds=call("DisplayBounds", x="1", y="2", w="3", h="4"))))),
    "splash layout": (I0, S(lambda t: [arg(arg(x, "layout")["value"], "stroke").update(value="5") for x in arg(t, "children")["value"][:2]] and None)),
    "splash bounds": (I0, S(lambda t: arg(arg(arg(t, "children")["value"][1], "bounds")["value"], "y").update(value="7"))),
    "splash variable": (I0, S(lambda t: arg(t, "children")["value"].append(call("DisplayLabel", layout={"assign": "_LAYOUT2", "arguments": [{"name": "a", "value": "1"}]}, assign="DISPLAY_NEW")))),
    "splash replaced": (I0, S(lambda t: call("TunerDisplayCallback", splash_default=call("DisplayElement", children=[])))),
}


def configurations():
    out = [(os.path.join(REPO, "content"), "content")]
    for root in ("web/htdocs/templates", "examples"):
        for dp, dn, fn in os.walk(os.path.join(REPO, root)):
            dn.sort()
            if {"inputs.py", "display.py"} <= set(fn):
                out.append((dp, os.path.relpath(dp, REPO)))
    return out


def run(chk):
    chk.rule("total", "no configuration makes reading, writing or reading again fail")
    chk.rule("tree", "the tree the editor gets has the names, arguments, order and literal text of the source, with variables resolved")
    chk.rule("same", "saving the unchanged tree leaves every statement of both files as it is, imports aside, also when saved again")
    chk.rule("imports", "used imports stay at their place, new ones are on module level, before their use, needed, and never hide a name the configuration imports itself; every offered name in use is imported")
    chk.rule("edit", "after a change of the tree the saved files hold the changed tree, every variable once and before its use, and all other statements as they were")
    tasks = []
    for l in LEAVES:
        tasks.append(("unchanged", "leaf %s" % l, HEAD + "v = %s\n" % l + PLACES % ((l,) * 7) + "w = v\n", "Splashes = f(%s, k = %s)\nfrom a import A, f, g\n" % (l, l)))
        tasks.append(("unchanged", "variable of %s" % l, HEAD + "v = %s\nInputs = [v, f(v, k = v), {'x': v}, [v]]\n" % l, "Splashes = None\n"))
    for l in MULTI:
        tasks.append(("unchanged", "leaf %r" % l, HEAD + PLACES % ((l,) * 7), "Splashes = None\n"))
    for k, s in STATEMENTS.items():
        tasks.append(("unchanged", k, HEAD + s, "from a import A, f, g\n" + s.replace("Inputs", "Splashes")))
    for k, s in IMPORTS.items():
        tasks.append(("unchanged", "import, " + k, s, D0))
    for k, s in SPLASHES.items():
        tasks.append(("unchanged", "splashes, " + k, I0, s))
    tasks.append(("unchanged", "standard", I0, D0))
    for k, (s, f) in EDITS.items():
        tasks.append(("edited", "edit, " + k, s, D0, f))
    cs = configurations()
    chk.ob("total", "configurations", len(cs) > 20, "only %d shipped configurations found" % len(cs))
    for i, (d, rel) in enumerate(cs):
        if chk.thorough or i < 4 or i % 6 == 0:
            tasks.append(("unchanged", rel, open(os.path.join(d, "inputs.py"), encoding="utf-8").read(), open(os.path.join(d, "display.py"), encoding="utf-8").read()))
    tasks.reverse()
    if os.environ.get("VERIF_ONLY"):
        # development aid: only some of the programs (cannot pass, as the floors are not reached)
        import re
        tasks = [t for t in tasks if re.search(os.environ["VERIF_ONLY"], t[1])]
    parallel(chk, lambda sub, kind, *a: globals()[kind](sub, *a), tasks)
    chk.floor("tree", 150)
    chk.floor("same", 300)
    chk.floor("imports", 300)
    chk.floor("edit", 200)
