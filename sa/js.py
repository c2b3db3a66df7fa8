"""Lowers JavaScript sources to the program model of the analysis.

TypeScript's parser (installed tool, used as a parser only) yields the syntax trees; they are translated to `ast` trees
the engine interprets like the Python side. Nothing of the JavaScript is executed. Constructs outside the subset become
calls of `js_unsupported`, which break the analysis only when a path reaches them. null and undefined are one value.
"""
import ast
import json
import os
import subprocess

from .model import AnalysisBroken, Module, REPO

TS = "/opt/veriftools/node/node_modules/typescript/lib/typescript.js"

PRELUDE = '''
class Obj:
    pass

class Error(Exception):
    def __init__(self, *a):
        self.message = a[0] if a else ""

class TypeError_(Exception):
    pass

class Map:
    def __init__(self, entries = None):
        self.entries_ = {}
        if entries is not None:
            for k, v in list(entries.entries_.items()) if isinstance(entries, Map) else entries:
                self.entries_[k] = v
    def has(self, k, *r):
        return k in self.entries_
    def get(self, k, *r):
        return self.entries_[k] if k in self.entries_ else None
    def set(self, k, v, *r):
        self.entries_[k] = v
        return self
    def delete(self, k, *r):
        if k in self.entries_:
            del self.entries_[k]
            return True
        return False
    def clear(self, *r):
        self.entries_ = {}
    def keys(self, *r):
        return list(self.entries_.keys())
    def values(self, *r):
        return list(self.entries_.values())
    def entries(self, *r):
        return list(self.entries_.items())

class Set:
    def __init__(self, items = None):
        self.items_ = []
        if items is not None:
            for x in items:
                self.add(x)
    def has(self, k, *r):
        return k in self.items_
    def add(self, k, *r):
        if k not in self.items_:
            self.items_.append(k)
        return self

def js_iter(x):
    if isinstance(x, Map):
        return list(x.entries_.items())
    if isinstance(x, Set):
        return list(x.items_)
    if isinstance(x, str):
        return js_chars(x)
    return x

def js_chars(x):
    return x

def js_len(x):
    if isinstance(x, (list, str, bytes, tuple)):
        return len(x)
    return x.length

def js_size(x):
    if isinstance(x, Map):
        return len(x.entries_)
    if isinstance(x, Set):
        return len(x.items_)
    return x.size

def js_truth(x):
    if isinstance(x, (list, dict, bytes, tuple)):
        return True
    return x

def js_or(x, y):
    return x

def js_idx(x, i):
    if isinstance(x, (list, str, bytes, tuple)):
        if i is None or i < 0 or i >= len(x):
            return None
        return x[i]
    return js_attr(x, i)

def js_has(x, n):
    if isinstance(x, (list, str, bytes)):
        return n == "length"
    return js_attr(x, n) is not None

def js_str(x):
    if isinstance(x, str):
        return x
    if x is None:
        return "null"
    if x is True:
        return "true"
    if x is False:
        return "false"
    if isinstance(x, (list, tuple, bytes)):
        return js_m_join(x, ",")
    if isinstance(x, int):
        return str(x)
    if isinstance(x, float):
        return str(int(x)) if x == int(x) else str(x)
    return "[object Object]"

def js_add(a, b):
    if isinstance(a, str) or isinstance(b, str) or isinstance(a, list) or isinstance(b, list):
        return js_str(a) + js_str(b)
    return a + b

def js_floor(x):
    return int(x // 1)

def js_ceil(x):
    return -int(-x // 1)

def js_random():
    return 0.25

class TextEncoder:
    def encode(self, s):
        return js_utf8(s)

class TextDecoder:
    def __init__(self, label = "utf-8", options = None, *r):
        self.keep = options is not None and js_has(options, "ignoreBOM") and options.ignoreBOM
    def decode(self, b):
        return js_text(b, self.keep)

def js_utf8(s):
    pass

def js_text(b, keep):
    pass

def js_round(x):
    return int((x + 0.5) // 1)

def js_isarray(x):
    return isinstance(x, (list, tuple))

def js_bytes(x):
    return isinstance(x, bytes)

def js_from(x, f = None, *r):
    ret = []
    for e in js_iter(x):
        ret.append(e if f is None else f(e))
    return ret

def js_args(l, *r):
    return l

def js_rest(x, n):
    return list(x)[n:]

def js_spread(*parts):
    ret = []
    for p in parts:
        for e in js_iter(p):
            ret.append(e)
    return ret

def js_m_slice(x, a = None, b = None, *r):
    if isinstance(x, (list, str, bytes, tuple)):
        if a is None:
            a = 0
        return x[a:] if b is None else x[a:b]
    return x.slice(a, b)

def js_m_concat(x, *others):
    if isinstance(x, str):
        ret = x
        for o in others:
            ret = ret + js_str(o)
        return ret
    ret = list(x)
    for o in others:
        if isinstance(o, (list, tuple)):
            for e in o:
                ret.append(e)
        else:
            ret.append(o)
    return ret

def js_m_push(x, *items):
    for i in items:
        x.append(i)
    return js_len(x)

def js_m_pop(x, *r):
    return x.pop() if len(x) else None

def js_m_shift(x, *r):
    return x.pop(0) if len(x) else None

def js_m_unshift(x, *items):
    n = 0
    for i in items:
        x.insert(n, i)
        n = n + 1
    return len(x)

def js_m_splice(x, at, n = None, *items):
    if n is None:
        n = len(x) - at
    ret = []
    while n > 0 and at < len(x):
        ret.append(x.pop(at))
        n = n - 1
    for i in items:
        x.insert(at, i)
        at = at + 1
    return ret

def js_m_includes(x, v, *r):
    return v in x

def js_m_indexOf(x, v, *r):
    if isinstance(x, str):
        return x.find(v)
    i = 0
    for e in x:
        if e == v:
            return i
        i = i + 1
    return -1

def js_m_join(x, sep = ",", *r):
    ret = ""
    first = True
    for e in x:
        if not first:
            ret = ret + sep
        first = False
        ret = ret + ("" if e is None else js_str(e))
    return ret

def js_m_charCodeAt(x, i = 0, *r):
    return ord(x[i])

def js_m_map(x, f, *r):
    ret = []
    i = 0
    for e in js_iter(x):
        ret.append(f(e, i, x))
        i = i + 1
    return ret

def js_m_filter(x, f, *r):
    ret = []
    i = 0
    for e in js_iter(x):
        if js_truth(f(e, i, x)):
            ret.append(e)
        i = i + 1
    return ret

def js_m_find(x, f, *r):
    for e in js_iter(x):
        if js_truth(f(e, 0, x)):
            return e
    return None

def js_m_some(x, f, *r):
    for e in js_iter(x):
        if js_truth(f(e, 0, x)):
            return True
    return False

def js_m_every(x, f, *r):
    i = 0
    for e in js_iter(x):
        if not js_truth(f(e, i, x)):
            return False
        i = i + 1
    return True

def js_m_forEach(x, f, *r):
    if isinstance(x, Map):
        for k, v in list(x.entries_.items()):
            f(v, k, x)
        return None
    i = 0
    for e in js_iter(x):
        f(e, i, x)
        i = i + 1
    return None

def js_m_reverse(x, *r):
    x.reverse()
    return x

def js_m_startsWith(x, y, *r):
    return x.startswith(y)

def js_m_endsWith(x, y, *r):
    return x.endswith(y)

def js_m_replaceAll(x, y, z, *r):
    return x.replace(y, z)

def js_m_trim(x, *r):
    return x.strip()

def js_m_split(x, y, *r):
    return x.split(y)

def js_m_toString(x, *r):
    return js_str(x)

def js_m_hasOwnProperty(x, n, *r):
    return js_has(x, n)

def js_chr(*codes):
    ret = ""
    for c in codes:
        ret = ret + chr(c)
    return ret

def js_fill(n):
    return [None] * n

def js_obj(*a):
    pass

def js_attr(x, n):
    pass

def js_setidx(x, i, v):
    pass

def js_typeof(x):
    pass

def js_json(x, *r):
    pass

def js_now():
    pass

def js_date(*a):
    pass

def js_console(*a):
    pass

def js_unsupported(what):
    pass

def js_number(x, *r):
    return int(x)

def js_u8(x = None, *r):
    return x

def js_setTimeout(f, *r):
    return 1

def js_setInterval(f, *r):
    return 1

def js_clearTimeout(*r):
    pass

def js_clearInterval(*r):
    pass
'''
METHODS = {l[9:l.index("(")] for l in PRELUDE.split("\n") if l.startswith("def js_m_")}

BIN = {"PlusToken": None, "MinusToken": ast.Sub, "AsteriskToken": ast.Mult, "SlashToken": ast.Div, "PercentToken": ast.Mod,
       "AmpersandToken": ast.BitAnd, "BarToken": ast.BitOr, "CaretToken": ast.BitXor, "LessThanLessThanToken": ast.LShift,
       "GreaterThanGreaterThanToken": ast.RShift, "GreaterThanGreaterThanGreaterThanToken": ast.RShift, "AsteriskAsteriskToken": ast.Pow}
CMP = {"EqualsEqualsToken": ast.Eq, "EqualsEqualsEqualsToken": ast.Eq, "ExclamationEqualsToken": ast.NotEq, "ExclamationEqualsEqualsToken": ast.NotEq,
       "FirstBinaryOperator": ast.Lt, "LessThanToken": ast.Lt, "LessThanEqualsToken": ast.LtE, "GreaterThanToken": ast.Gt, "GreaterThanEqualsToken": ast.GtE}
AUG = {"FirstCompoundAssignment": "PlusToken", "PlusEqualsToken": "PlusToken", "MinusEqualsToken": "MinusToken", "AsteriskEqualsToken": "AsteriskToken",
       "SlashEqualsToken": "SlashToken", "PercentEqualsToken": "PercentToken", "AmpersandEqualsToken": "AmpersandToken", "BarEqualsToken": "BarToken",
       "CaretEqualsToken": "CaretToken", "LessThanLessThanEqualsToken": "LessThanLessThanToken", "GreaterThanGreaterThanEqualsToken": "GreaterThanGreaterThanToken"}


def dump(paths):
    r = subprocess.run(["node", os.path.join(os.path.dirname(os.path.abspath(__file__)), "jsdump.js"), TS] + list(paths), capture_output=True, timeout=120)
    if r.returncode:
        raise AnalysisBroken("cannot parse the JavaScript sources: %s" % r.stderr.decode()[-400:])
    return json.loads(r.stdout)


def name(n):
    return ast.Name(n, ast.Load())


def call(f, *args):
    return ast.Call(name(f), list(args), [])


def const(v):
    return ast.Constant(v)


class Fn:
    """one function being lowered: its own names and the statements hoisted in front of the current one"""

    def __init__(self, outer=None):
        self.outer = outer
        self.names = set()
        self.assigned = set()
        self.pre = []
        self.conts = []


class Lower:
    def __init__(self, rel, classes):
        self.rel = rel
        self.classes = classes
        self.cls = None
        self.fn = None
        self.n = 0
        self.line = 1

    # -- helpers
    def at(self, node, src):
        for x in ast.walk(node):
            if not getattr(x, "lineno", None):
                x.lineno = src["l"]
                x.col_offset = 0
                x.end_lineno = src["l"]
                x.end_col_offset = 0
        return node

    def tmp(self, what="t"):
        self.n += 1
        return "js_%s_%d" % (what, self.n)

    def own(self, n):
        if self.fn is not None:
            self.fn.names.add(n)

    def target(self, n):
        """a plain name is written"""
        f = self.fn
        if f is None or n in f.names:
            return
        o = f.outer
        while o is not None:
            if n in o.names:
                f.assigned.add(n)
                g = f.outer
                while g is not o:
                    g.assigned.add(n)
                    g = g.outer
                return
            o = o.outer

    def priv(self, text):
        return "_p_%s_%s" % (self.cls or "", text[1:])

    def member(self, n):
        return self.priv(n["text"]) if n["k"] == "PrivateIdentifier" else n["text"]

    def bad(self, n, what=None):
        return call("js_unsupported", const("%s:%d %s" % (self.rel, n["l"], what or n["k"])))

    # -- expressions
    def x(self, n):
        k = n["k"]
        m = getattr(self, "x_" + k, None)
        r = m(n) if m is not None else self.bad(n)
        return self.at(r, n)

    def x_Identifier(self, n):
        t = n["text"]
        return const(None) if t == "undefined" else name(t)

    def x_ThisKeyword(self, n):
        return name("self")

    def x_NullKeyword(self, n):
        return const(None)

    def x_TrueKeyword(self, n):
        return const(True)

    def x_FalseKeyword(self, n):
        return const(False)

    def x_FirstLiteralToken(self, n):
        t = n["text"].replace("_", "")
        return const(int(t, 0) if not any(c in t for c in ".eE") or t[:2].lower() == "0x" else float(t))
    x_NumericLiteral = x_FirstLiteralToken

    def x_StringLiteral(self, n):
        return const(n["text"])
    x_NoSubstitutionTemplateLiteral = x_StringLiteral
    x_FirstTemplateToken = x_StringLiteral

    def x_TemplateExpression(self, n):
        r = const(n["head"].get("text", ""))
        for s in n["templateSpans"]:
            r = ast.BinOp(ast.BinOp(r, ast.Add(), call("js_str", self.x(s["expression"]))), ast.Add(), const(s["literal"].get("text", "")))
        return r

    def x_ParenthesizedExpression(self, n):
        return self.x(n["expression"])

    def x_AwaitExpression(self, n):
        return self.x(n["expression"])

    def x_VoidExpression(self, n):
        return const(None)

    def x_PropertyAccessExpression(self, n):
        e = n["expression"]
        a = self.member(n["name"])
        if e["k"] == "SuperKeyword":
            return ast.Attribute(call("super"), a, ast.Load())
        if a == "length":
            r = lambda b: call("js_len", b)
        elif a == "size":
            r = lambda b: call("js_size", b)
        else:
            r = lambda b: ast.Attribute(b, a, ast.Load())
        if "questionDotToken" in n:
            t = self.hold(self.x(e))
            return ast.IfExp(ast.Compare(t, [ast.Is()], [const(None)]), const(None), r(t))
        return r(self.x(e))

    def hold(self, e):
        """the value of an expression in a local name"""
        if isinstance(e, (ast.Name, ast.Constant)):
            return e
        t = self.tmp()
        self.own(t)
        self.fn.pre.append(ast.Assign([ast.Name(t, ast.Store())], e))
        return name(t)

    def x_ElementAccessExpression(self, n):
        return call("js_idx", self.x(n["expression"]), self.x(n["argumentExpression"]))

    def x_ConditionalExpression(self, n):
        return ast.IfExp(self.cond(n["condition"]), self.pure(n["whenTrue"]), self.pure(n["whenFalse"]))

    def pure(self, n):
        """an operand which is evaluated conditionally: nothing may be hoisted in front of it except functions"""
        if self.fn is None:
            return self.x(n)
        before = self.fn.pre
        self.fn.pre = []
        r = self.x(n)
        new = self.fn.pre
        self.fn.pre = before + [s for s in new if isinstance(s, ast.FunctionDef)]
        if any(not isinstance(s, ast.FunctionDef) for s in new):
            return self.bad(n, "side effect in a conditional operand")
        return r

    def x_ArrayLiteralExpression(self, n):
        els = n["elements"]
        if not any(e["k"] == "SpreadElement" for e in els):
            return ast.List([self.x(e) for e in els], ast.Load())
        return call("js_spread", *[self.x(e["expression"]) if e["k"] == "SpreadElement" else ast.List([self.x(e)], ast.Load()) for e in els])

    def x_ObjectLiteralExpression(self, n):
        args = []
        for p in n["properties"]:
            if p["k"] == "SpreadAssignment":
                args.append(self.x(p["expression"]))
                continue
            if p["k"] not in ("PropertyAssignment", "ShorthandPropertyAssignment") or p["name"]["k"] == "ComputedPropertyName":
                return self.bad(p)
            v = self.x(p["initializer"]) if "initializer" in p else name(p["name"]["text"])
            args.append(ast.Tuple([const(p["name"]["text"]), v], ast.Load()))
        return call("js_obj", *args)

    def x_FunctionExpression(self, n):
        return name(self.nested(n, None))
    x_ArrowFunction = x_FunctionExpression

    def nested(self, n, nm):
        nm = nm or self.tmp("f")
        self.own(nm)
        d = self.function(n, nm, [])
        self.fn.pre.append(d)
        return nm

    def x_NewExpression(self, n):
        e = n["expression"]
        args = self.args(n.get("arguments") or [])
        if e["k"] == "Identifier":
            t = e["text"]
            if t in ("Date",):
                return call("js_date", *args)
            if t in ("Uint8Array", "Array"):
                if t == "Array" and len(args) == 1:
                    return call("js_fill", *args)
                return call("js_u8", *args)
            if t in ("TypeError", "RangeError", "SyntaxError"):
                return call("Error", *args)
        return ast.Call(self.x(e), args, [])

    def args(self, l):
        return [ast.Starred(self.x(a["expression"]), ast.Load()) if a["k"] == "SpreadElement" else self.x(a) for a in l]

    def x_CallExpression(self, n):
        f = n["expression"]
        raw = n.get("arguments") or []
        if f["k"] == "SuperKeyword":
            return ast.Call(ast.Attribute(call("super"), "__init__", ast.Load()), self.args(raw), [])
        if f["k"] == "Identifier":
            t = f["text"]
            if t in ("setTimeout", "setInterval", "clearInterval", "clearTimeout"):
                return call("js_" + t, *self.args(raw))
            if t in ("parseInt", "Number", "parseFloat"):
                return call("js_number", *self.args(raw))
            if t == "String":
                return call("js_str", *self.args(raw))
            if t == "Boolean":
                return call("bool", self.cond(raw[0]))
        if f["k"] == "PropertyAccessExpression":
            o, m = f["expression"], f["name"]["text"]
            if o["k"] == "Identifier":
                t = o["text"]
                if t == "Math":
                    if m == "floor":
                        a = raw[0]
                        while a["k"] == "ParenthesizedExpression":
                            a = a["expression"]
                        if a["k"] == "BinaryExpression" and a["operatorToken"]["k"] == "SlashToken":
                            return ast.BinOp(self.x(a["left"]), ast.FloorDiv(), self.x(a["right"]))
                        return call("js_floor", self.x(raw[0]))
                    if m == "ceil":
                        return call("js_ceil", self.x(raw[0]))
                    if m == "random":
                        return call("js_random")
                    if m == "round":
                        return call("js_round", self.x(raw[0]))
                    if m in ("abs", "min", "max"):
                        return call(m, *self.args(raw))
                    if m == "trunc":
                        return call("int", *self.args(raw))
                    return self.bad(n, "Math." + m)
                if t == "Array":
                    if m == "isArray":
                        return call("js_isarray", *self.args(raw))
                    if m == "from":
                        return call("js_from", *self.args(raw))
                if t == "Date" and m == "now":
                    return call("js_now")
                if t == "JSON" and m == "stringify":
                    return call("js_json", *self.args(raw))
                if t == "String" and m == "fromCharCode":
                    return call("js_chr", *self.args(raw))
                if t == "Number" and m == "isInteger":
                    return call("isinstance", self.x(raw[0]), name("int"))
                if t == "Uint8Array" and m == "from":
                    return call("js_from", *self.args(raw))
                if t == "console":
                    return call("js_console", const(m), *self.args(raw))
                if t == "Object" and m in ("keys", "values", "entries", "assign"):
                    return call("js_object_" + m, *self.args(raw))
            if m in METHODS and o["k"] not in ("SuperKeyword", "ThisKeyword") and f["name"]["k"] == "Identifier" and not any(m in c for c in self.classes.values()):
                return call("js_m_" + m, self.x(o), *self.args(raw))
            if o["k"] == "FunctionExpression":
                return self.bad(n)
        return ast.Call(self.x(f), self.args(raw), [])

    def x_TypeOfExpression(self, n):
        return call("js_typeof", self.x(n["expression"]))

    def x_PrefixUnaryExpression(self, n):
        op = n.get("op")
        if op == "ExclamationToken":
            return ast.UnaryOp(ast.Not(), self.cond(n["operand"]))
        if op == "MinusToken":
            return ast.UnaryOp(ast.USub(), self.x(n["operand"]))
        if op == "PlusToken":
            return self.x(n["operand"])
        if op == "TildeToken":
            return ast.UnaryOp(ast.Invert(), self.x(n["operand"]))
        if op in ("PlusPlusToken", "MinusMinusToken"):
            self.step(n["operand"], op)
            return self.x(n["operand"])
        return self.bad(n)

    def x_PostfixUnaryExpression(self, n):
        t = self.tmp()
        self.own(t)
        self.fn.pre.append(ast.Assign([ast.Name(t, ast.Store())], self.x(n["operand"])))
        self.step(n["operand"], n.get("op"))
        return name(t)

    def step(self, operand, op):
        self.fn.pre.append(self.store(operand, ast.BinOp(self.x(operand), ast.Add() if op == "PlusPlusToken" else ast.Sub(), const(1))))

    def x_DeleteExpression(self, n):
        e = n["expression"]
        if e["k"] == "PropertyAccessExpression":
            self.fn.pre.append(self.store(e, const(None)))
            return const(True)
        return self.bad(n)

    def x_BinaryExpression(self, n):
        op = n["operatorToken"]["k"]
        if op in ("FirstAssignment", "EqualsToken"):
            v = self.hold(self.x(n["right"]))
            self.fn.pre.append(self.store(n["left"], v))
            return v
        if op in AUG:
            v = self.hold(self.binary(AUG[op], self.x(n["left"]), self.x(n["right"])))
            self.fn.pre.append(self.store(n["left"], v))
            return v
        if op == "AmpersandAmpersandToken":
            return ast.BoolOp(ast.And(), [self.cond(n["left"], True), self.pure(n["right"])])
        if op == "BarBarToken":
            return ast.BoolOp(ast.Or(), [self.cond(n["left"], True), self.pure(n["right"])])
        if op == "QuestionQuestionToken":
            t = self.hold(self.x(n["left"]))
            return ast.IfExp(ast.Compare(t, [ast.IsNot()], [const(None)]), t, self.pure(n["right"]))
        if op == "InstanceOfKeyword":
            r = n["right"]
            if r["k"] == "Identifier" and r["text"] == "Uint8Array":
                return call("js_bytes", self.x(n["left"]))
            if r["k"] == "Identifier" and r["text"] == "Array":
                return call("js_isarray", self.x(n["left"]))
            return call("isinstance", self.x(n["left"]), self.x(r))
        if op == "InKeyword":
            return call("js_has", self.x(n["right"]), self.x(n["left"]))
        if op in CMP:
            l, r = self.x(n["left"]), self.x(n["right"])
            o = CMP[op]()
            if isinstance(o, (ast.Eq, ast.NotEq)) and (isinstance(r, ast.Constant) and r.value is None or isinstance(l, ast.Constant) and l.value is None):
                o = ast.Is() if isinstance(o, ast.Eq) else ast.IsNot()
            return ast.Compare(l, [o], [r])
        if op in BIN:
            return self.binary(op, self.x(n["left"]), self.x(n["right"]))
        return self.bad(n, op)

    def binary(self, op, l, r):
        if op == "PlusToken":
            for a in (l, r):
                if isinstance(a, ast.Constant) and isinstance(a.value, (int, float)) and not isinstance(a.value, bool):
                    o = r if a is l else l
                    if not (isinstance(o, ast.Constant) and isinstance(o.value, str)):
                        return call("js_add", l, r)
            return call("js_add", l, r)
        return ast.BinOp(l, BIN[op](), r)

    def cond(self, n, value=False):
        while n["k"] == "ParenthesizedExpression":
            n = n["expression"]
        e = self.x(n)
        if isinstance(e, (ast.Compare, ast.UnaryOp, ast.BoolOp)) or isinstance(e, ast.Constant):
            return e
        return call("js_truth", e) if not value else e

    # -- stores
    def store(self, t, v):
        while t["k"] == "ParenthesizedExpression":
            t = t["expression"]
        if t["k"] == "Identifier":
            self.target(t["text"])
            return self.at(ast.Assign([ast.Name(t["text"], ast.Store())], v), t)
        if t["k"] == "PropertyAccessExpression":
            return self.at(ast.Assign([ast.Attribute(self.x(t["expression"]), self.member(t["name"]), ast.Store())], v), t)
        if t["k"] == "ElementAccessExpression":
            return self.at(ast.Expr(call("js_setidx", self.x(t["expression"]), self.x(t["argumentExpression"]), v)), t)
        return self.at(ast.Expr(self.bad(t)), t)

    def pattern(self, t, v):
        """declares the names of a binding and yields the statements assigning them"""
        if t["k"] == "Identifier":
            self.own(t["text"])
            return [self.at(ast.Assign([ast.Name(t["text"], ast.Store())], v), t)]
        out = []
        h = self.tmp()
        self.own(h)
        out.append(self.at(ast.Assign([ast.Name(h, ast.Store())], v), t))
        for i, b in enumerate(t["elements"]):
            if b["k"] == "OmittedExpression":
                continue
            if t["k"] == "ArrayBindingPattern":
                val = ast.Subscript(name(h), const(i), ast.Load())
            else:
                val = ast.Attribute(name(h), (b.get("propertyName") or b["name"])["text"], ast.Load())
            if "dotDotDotToken" in b:
                val = self.bad(b)
            out += self.pattern(b["name"], self.at(val, b))
        return out

    # -- statements
    def body(self, stmts):
        out = []
        fns = [s for s in stmts if s["k"] == "FunctionDeclaration"]
        for s in fns:
            self.own(s["name"]["text"])
        for s in stmts:
            out += self.s(s)
        return out or [ast.Pass()]

    def block(self, n):
        return self.body(n["statements"] if n["k"] == "Block" else [n])

    def s(self, n):
        saved = self.fn.pre
        self.fn.pre = []
        m = getattr(self, "s_" + n["k"], None)
        r = m(n) if m is not None else [ast.Expr(self.bad(n))]
        out = self.fn.pre + r
        self.fn.pre = saved
        return [self.at(x, n) for x in out]

    def s_EmptyStatement(self, n):
        return []

    def s_Block(self, n):
        return self.body(n["statements"])

    def s_ExpressionStatement(self, n):
        e = n["expression"]
        while e["k"] == "ParenthesizedExpression":
            e = e["expression"]
        if e["k"] == "BinaryExpression" and e["operatorToken"]["k"] in ("FirstAssignment", "EqualsToken"):
            v = self.x(e["right"])
            return [self.store(e["left"], v)]
        if e["k"] == "BinaryExpression" and e["operatorToken"]["k"] in AUG:
            v = self.binary(AUG[e["operatorToken"]["k"]], self.x(e["left"]), self.x(e["right"]))
            return [self.store(e["left"], v)]
        if e["k"] in ("PostfixUnaryExpression", "PrefixUnaryExpression") and e.get("op") in ("PlusPlusToken", "MinusMinusToken"):
            self.step(e["operand"], e["op"])
            return []
        if e["k"] == "BinaryExpression" and e["operatorToken"]["k"] in ("AmpersandAmpersandToken", "BarBarToken"):
            c = self.cond(e["left"])
            if e["operatorToken"]["k"] == "BarBarToken":
                c = ast.UnaryOp(ast.Not(), c)
            return [ast.If(c, self.s(dict(n, expression=e["right"])), [])]
        return [ast.Expr(self.x(e))]

    def s_FirstStatement(self, n):
        out = []
        for d in n["declarationList"]["declarations"]:
            v = self.x(d["initializer"]) if "initializer" in d else const(None)
            out += self.fn.pre + self.pattern(d["name"], v)
            self.fn.pre = []
        return out
    s_VariableStatement = s_FirstStatement

    def s_FunctionDeclaration(self, n):
        self.nested(n, n["name"]["text"])
        return []

    def s_IfStatement(self, n):
        c = self.cond(n["expression"])
        return [ast.If(c, self.block(n["thenStatement"]), self.block(n["elseStatement"]) if "elseStatement" in n else [])]

    def s_ReturnStatement(self, n):
        return [ast.Return(self.x(n["expression"]) if "expression" in n else None)]

    def s_ThrowStatement(self, n):
        return [ast.Raise(self.x(n["expression"]), None)]

    def s_BreakStatement(self, n):
        if "label" in n or self.fn.conts and self.fn.conts[-1] == "switch":
            return [ast.Expr(self.bad(n))]
        return [ast.Break()]

    def s_ContinueStatement(self, n):
        c = [x for x in self.fn.conts if x != "switch"]
        if "label" in n or not c:
            return [ast.Expr(self.bad(n))]
        return c[-1]() + [ast.Continue()]

    def loop(self, n, cont):
        self.fn.conts.append(cont)
        b = self.block(n)
        self.fn.conts.pop()
        return b

    def s_ForOfStatement(self, n):
        d = n["initializer"]
        it = call("js_iter", self.x(n["expression"]))
        if d["k"] != "VariableDeclarationList":
            return [ast.Expr(self.bad(n))]
        t = d["declarations"][0]["name"]
        if t["k"] == "Identifier":
            self.own(t["text"])
            return [ast.For(ast.Name(t["text"], ast.Store()), it, self.loop(n["statement"], lambda: []), [])]
        h = self.tmp()
        self.own(h)
        head = self.pattern(t, name(h))
        return [ast.For(ast.Name(h, ast.Store()), it, head + self.loop(n["statement"], lambda: []), [])]

    def s_ForStatement(self, n):
        out = []
        if "initializer" in n:
            i = n["initializer"]
            if i["k"] == "VariableDeclarationList":
                out += self.s({"k": "FirstStatement", "l": n["l"], "declarationList": i})
            else:
                out += self.s({"k": "ExpressionStatement", "l": n["l"], "expression": i})
        inc = lambda: self.s({"k": "ExpressionStatement", "l": n["l"], "expression": n["incrementor"]}) if "incrementor" in n else []
        c = self.cond(n["condition"]) if "condition" in n else const(True)
        b = self.loop(n["statement"], inc)
        return out + [ast.While(c, b + inc(), [])]

    def s_WhileStatement(self, n):
        c = self.cond(n["expression"])
        if self.fn.pre and any(not isinstance(x, ast.FunctionDef) for x in self.fn.pre):
            return [ast.Expr(self.bad(n))]
        return [ast.While(c, self.loop(n["statement"], lambda: []), [])]

    def s_DoStatement(self, n):
        b = self.loop(n["statement"], lambda: [ast.Expr(self.bad(n, "continue in do"))])
        c = self.cond(n["expression"])
        return [ast.While(const(True), b + [ast.If(ast.UnaryOp(ast.Not(), c), [ast.Break()], [])], [])]

    def s_SwitchStatement(self, n):
        v = self.hold(self.x(n["expression"]))
        clauses = n["caseBlock"]["clauses"]
        groups = []
        tests = []
        for i, c in enumerate(clauses):
            tests.append(c)
            if not c.get("statements") and i + 1 < len(clauses):
                continue
            # statements up to the break; without one the next clauses follow
            st = []
            j = i
            done = False
            while j < len(clauses) and not done:
                for s in flatten(clauses[j].get("statements") or []):
                    if s["k"] == "BreakStatement":
                        done = True
                        break
                    st.append(s)
                    if s["k"] in ("ReturnStatement", "ThrowStatement", "ContinueStatement"):
                        done = True
                        break
                j += 1
            groups.append((tests, st))
            tests = []
        self.fn.conts.append("switch")
        orelse = []
        for ts, st in groups:
            if any(t["k"] == "DefaultClause" for t in ts):
                orelse = self.body(st)
        for ts, st in reversed(groups):
            if any(t["k"] == "DefaultClause" for t in ts):
                continue
            c = [ast.Compare(v, [ast.Eq()], [self.x(t["expression"])]) for t in ts]
            orelse = [ast.If(c[0] if len(c) == 1 else ast.BoolOp(ast.Or(), c), self.body(st), orelse)]
        self.fn.conts.pop()
        return orelse

    def s_TryStatement(self, n):
        b = self.block(n["tryBlock"])
        hs = []
        if "catchClause" in n:
            cc = n["catchClause"]
            v = cc.get("variableDeclaration", {}).get("name", {}).get("text") or self.tmp("e")
            self.own(v)
            hs = [ast.ExceptHandler(name("Exception"), v, self.block(cc["block"]))]
        f = self.block(n["finallyBlock"]) if "finallyBlock" in n else []
        return [ast.Try(b, hs, [], f)]

    # -- functions
    def function(self, n, nm, pre, method=False):
        outer = self.fn
        self.fn = Fn(outer)
        args, head = [], []
        vararg = None
        for p in n.get("parameters") or []:
            if p["name"]["k"] != "Identifier":
                t = self.tmp("a")
                self.own(t)
                args.append(t)
                head += self.pattern(p["name"], name(t))
                continue
            t = p["name"]["text"]
            self.own(t)
            if "dotDotDotToken" in p:
                vararg = t
                head.append(ast.Assign([ast.Name(t, ast.Store())], call("list", name(t))))
                continue
            args.append(t)
            if "initializer" in p:
                d = self.x(p["initializer"])
                if not (isinstance(d, ast.Constant) and d.value is None):
                    head += [ast.If(ast.Compare(name(t), [ast.Is()], [const(None)]), self.fn.pre + [ast.Assign([ast.Name(t, ast.Store())], d)], [])]
                    self.fn.pre = []
        if vararg is None and not (method and nm == "__init__x"):
            vararg = "js_more"
        b = n.get("body")
        if b is None:
            stmts = [ast.Pass()]
        elif b["k"] == "Block":
            stmts = self.body(b["statements"])
        else:
            v = self.x(b)
            stmts = self.fn.pre + [ast.Return(v)]
        nl = sorted(self.fn.assigned)
        self.fn = outer
        stmts = ([ast.Nonlocal(nl)] if nl else []) + head + pre + stmts
        a = ast.arguments(posonlyargs=[], args=([ast.arg("self")] if method else []) + [ast.arg(x) for x in args],
                          vararg=ast.arg(vararg), kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[const(None) for _ in args])
        return self.at(ast.FunctionDef(nm, a, stmts, [], None, type_params=[]), n)

    def klass(self, n):
        self.cls = n["name"]["text"]
        bases = []
        for h in n.get("heritageClauses") or []:
            for t in h["types"]:
                bases.append(self.x(t["expression"]))
        body = []
        fields = []
        ctor = None
        for m in n["members"]:
            k = m["k"]
            static = any(x["k"] == "StaticKeyword" for x in m.get("modifiers") or [])
            if k == "PropertyDeclaration":
                nm = self.member(m["name"])
                if static:
                    self.fn = Fn()
                    v = self.x(m["initializer"]) if "initializer" in m else const(None)
                    if self.fn.pre:
                        v = self.bad(m)
                    self.fn = None
                    body.append(self.at(ast.Assign([ast.Name(nm, ast.Store())], v), m))
                else:
                    fields.append((nm, m))
            elif k == "Constructor":
                ctor = m
            elif k == "MethodDeclaration":
                d = self.function(m, self.member(m["name"]), [], method=not static)
                if static:
                    d.decorator_list = [self.at(name("staticmethod"), m)]
                body.append(d)
            elif k == "GetAccessor":
                d = self.function(m, self.member(m["name"]), [], method=True)
                d.decorator_list = [self.at(name("property"), m)]
                body.append(d)
            elif k == "SetAccessor":
                d = self.function(m, self.member(m["name"]), [], method=True)
                d.decorator_list = [self.at(ast.Attribute(name(d.name), "setter", ast.Load()), m)]
                body.append(d)
            else:
                raise AnalysisBroken("%s:%d class member %s" % (self.rel, m["l"], k))
        # fields are initialised before the constructor body, in derived classes after the super call
        init = []
        for nm, m in fields:
            self.fn = Fn()
            v = self.x(m["initializer"]) if "initializer" in m else const(None)
            init += self.fn.pre + [self.at(ast.Assign([ast.Attribute(name("self"), nm, ast.Store())], v), m)]
            self.fn = None
        if ctor is None:
            st = []
            if bases:
                st.append(ast.Expr(ast.Call(ast.Attribute(call("super"), "__init__", ast.Load()), [ast.Starred(name("js_more"), ast.Load())], [])))
            a = ast.arguments(posonlyargs=[], args=[ast.arg("self")], vararg=ast.arg("js_more"), kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[])
            d = ast.FunctionDef("__init__", a, (st + init) or [ast.Pass()], [], None, type_params=[])
        elif not bases:
            d = self.function(ctor, "__init__", init, method=True)
        else:
            d = self.function(ctor, "__init__", [], method=True)
            for i, s in enumerate(d.body):
                if any(isinstance(x, ast.Attribute) and x.attr == "__init__" for x in ast.walk(s)):
                    d.body[i + 1:i + 1] = init
                    break
            else:
                raise AnalysisBroken("%s:%d no super call" % (self.rel, n["l"]))
        body.append(d)
        r = ast.ClassDef(self.cls, bases, [], body, [], type_params=[])
        self.cls = None
        return self.at(r, n)


def flatten(stmts):
    out = []
    for s in stmts:
        if s["k"] == "Block":
            out += flatten(s["statements"])
        else:
            out.append(s)
    return out


def module(p, nm, rel, tree, src=""):
    m = Module.__new__(Module)
    m.program, m.name, m.path, m.rel, m.is_pkg, m.src = p, nm, os.path.join(REPO, rel), rel, False, src
    m.tree = ast.fix_missing_locations(tree)
    m.bind, m.all_classes, m.star = {}, [], []
    m._collect(m.tree.body)
    return m


def load(p, paths):
    """adds the classes of JavaScript files to a program: {class name: module name}"""
    trees = dump(paths)
    where = {}
    classes = {}
    for path in paths:
        t = trees[path]
        rel = os.path.relpath(path, REPO)
        if t["errors"]:
            raise AnalysisBroken("%s has syntax errors" % rel)
        for s in t["body"]:
            if s["k"] == "ClassDeclaration":
                c = s["name"]["text"]
                where[c] = "js_" + os.path.basename(path)[:-3]
                classes[c] = {m["name"]["text"] for m in s["members"] if "name" in m and m["k"] == "MethodDeclaration"}
    p.modules["js_prelude"] = module(p, "js_prelude", "sa/js.py", ast.parse(PRELUDE))
    for path in paths:
        rel = os.path.relpath(path, REPO)
        nm = "js_" + os.path.basename(path)[:-3]
        lo = Lower(rel, classes)
        body = [ast.ImportFrom("js_prelude", [ast.alias("*")], 0)]
        body += [ast.ImportFrom(m, [ast.alias(c)], 0) for c, m in sorted(where.items()) if m != nm]
        own = {}
        for s in trees[path]["body"]:
            if s["k"] == "ClassDeclaration":
                own[s["name"]["text"]] = lo.klass(s)
        for s in trees[path]["body"]:
            if s["k"] in ("FirstStatement", "VariableStatement"):
                # simple constants of the file
                for d in s["declarationList"]["declarations"]:
                    v = d.get("initializer")
                    if d["name"]["k"] == "Identifier" and v is not None and v["k"] in ("FirstLiteralToken", "NumericLiteral", "StringLiteral", "ArrayLiteralExpression"):
                        body.append(lo.at(ast.Assign([ast.Name(d["name"]["text"], ast.Store())], lo.x(v)), s))
        for c in own.values():
            body.append(c)
        p.modules[nm] = module(p, nm, rel, ast.Module(body, []), open(path, encoding="utf-8").read())
    return where


class Runtime:
    """what the language provides, for one analysis: objects, clock and console"""

    def __init__(self, lab):
        from .engine import HObj, Raise, NONE
        self.lab = lab
        self.now = 1000000
        self.console = []
        e = lab.e
        obj = lab.p.cls("js_prelude", "Obj")
        c = lambda v: ("c", type(v).__name__, v)

        def alloc(st, attrs):
            return e.alloc(st, HObj("inst", cls=obj, attrs=attrs))
        self.obj = alloc

        def js_obj(eng, st, a, k, ctx, node):
            d = {}
            for x in a:
                if x[0] == "tup":
                    d[x[1][0][2]] = x[1][1]
                elif x[0] == "o":
                    d.update(eng.h(st, x).attrs)
            return [(st, alloc(st, d))]

        def js_attr(eng, st, a, k, ctx, node):
            return eng.get_attr(a[0], a[1][2], st, ctx, node)

        def js_setidx(eng, st, a, k, ctx, node):
            if a[0][0] == "o":
                o = eng.hw(st, a[0])
                if o.kind == "list" and a[1][0] == "c" and 0 <= a[1][2] < len(o.items):
                    o.items[a[1][2]] = a[2]
                    return [(st, NONE)]
                if o.kind == "inst" and a[1][0] == "c":
                    o.attrs[a[1][2]] = a[2]
                    return [(st, NONE)]
            raise AnalysisBroken("store to an index that is not understood: %s" % eng.where(ctx, node))

        def js_typeof(eng, st, a, k, ctx, node):
            v = a[0]
            r = "object"
            if v == NONE:
                r = "undefined"
            elif v[0] == "c":
                r = {"str": "string", "int": "number", "float": "number", "bool": "boolean"}.get(v[1], "object")
            elif v[0] == "f" or (v[0] == "t" and v[1] == "attr"):
                r = "function"
            elif eng.types.get(v) in ("int", "float"):
                r = "number"
            elif eng.types.get(v) == "str":
                r = "string"
            return [(st, c(r))]

        def text(st, v):
            if v == NONE:
                return "null"
            if v[0] == "c":
                return json.dumps(v[2] if not isinstance(v[2], (bytes, tuple)) else list(v[2]))
            if v[0] == "tup":
                return "[" + ",".join(text(st, x) for x in v[1]) + "]"
            if v[0] == "o":
                o = e.h(st, v)
                if o.kind == "list" and o.items is not None:
                    return "[" + ",".join(text(st, x) for x in o.items) + "]"
                if o.kind == "inst":
                    return "{" + ",".join(json.dumps(n) + ":" + text(st, x) for n, x in o.attrs.items() if not n.startswith("_p_")) + "}"
            raise AnalysisBroken("JSON text of an unknown value")

        def console(eng, st, a, k, ctx, node):
            self.console.append((a[0][2], eng.where(ctx, node) if ctx else "", [eng.describe(x, st) for x in a[1:]]))
            return [(st, NONE)]

        def unsupported(eng, st, a, k, ctx, node):
            raise AnalysisBroken("JavaScript construct is not understood: %s" % a[0][2])

        def date(eng, st, a, k, ctx, node):
            return [(st, alloc(st, {"js_time": c(self.now)}))]
        def truth(eng, st, a, k, ctx, node):
            v = a[0]
            if v[0] in ("o", "tup", "f", "k") or v[0] == "t" and v[1] == "attr":
                return [(st, ("c", "bool", True))]
            return [(st, v)]
        for n, h in (("js_truth", truth), ("js_obj", js_obj), ("js_attr", js_attr), ("js_setidx", js_setidx), ("js_typeof", js_typeof), ("js_console", console), ("js_unsupported", unsupported),
                     ("js_date", date), ("js_json", lambda eng, st, a, k, ctx, node: [(st, c(text(st, a[0])))]),
                     ("js_now", lambda eng, st, a, k, ctx, node: [(st, c(self.now))])):
            e.hooks["js_prelude." + n] = h

        def missing(eng, st, b, n, ctx, node):
            """reading what an object does not have yields undefined; dates have locale methods"""
            if b[0] == "o" and isinstance(n, str):
                o = eng.h(st, b)
                if o.kind == "inst" and getattr(o.cls, "module", None) is not None and o.cls.module.name.startswith("js_") and n not in o.attrs:
                    if "js_time" in o.attrs:
                        return [(st, ("t", "attr", b, n))]
                    if o.cls.find(n) is None and o.cls.find_attr(n) is None:
                        return [(st, NONE)]
            return None
        e.attr_hooks.insert(0, missing)

        def dates(eng, f, args, kwargs, st, ctx, node):
            o, n = (f[1], f[2]) if f[0] == "mcall" else (f[2], f[3]) if f[0] == "t" and f[1] == "attr" else (None, None)
            if o is not None and o[0] == "o" and "js_time" in eng.h(st, o).attrs:
                t = eng.h(st, o).attrs["js_time"][2]
                return [(st, c(t) if n in ("getTime", "valueOf") else c("date %d" % t))]
            return None
        e.call_hooks.insert(0, dates)
