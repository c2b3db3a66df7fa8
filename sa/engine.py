"""Path-sensitive abstract interpreter (trace partitioning) over the `ast` of the analysed program.

Nothing is executed: program values are abstracted to constants, access paths (value numbers), linear forms with
interval bounds, and an allocation-site heap.  Branch conditions that the abstract state does not decide are split into
two partitions; loops over collections of unknown size are analysed by peeling the first iteration and then widening
everything the body changed, so that the second pass stands for an arbitrary later iteration.  No constraint solver is
involved; the only implication reasoning is the table in `State`/`Engine.implied`.
"""
import ast
import math
import re as _re
import sys
from collections import namedtuple
from fractions import Fraction

from .model import AnalysisBroken, ClassInfo, FuncInfo, Program, mangle

sys.setrecursionlimit(60000)

Event = namedtuple("Event", "kind recv name args kwargs res facts where")


def c(v):
    if type(v) is tuple:
        return ("tup", tuple(c(x) for x in v))
    return ("c", type(v).__name__, v)


NONE = c(None)
TRUE = c(True)
FALSE = c(False)


def is_c(v):
    return v[0] == "c"


def is_num(v):
    return v[0] == "c" and isinstance(v[2], (int, float, Fraction))


def tup(*vs):
    return ("tup", tuple(vs))


def attr(base, name):
    return ("t", "attr", base, name)


class Raise:
    __slots__ = ("exc", "val", "where", "implicit", "msg")

    def __init__(self, exc, where, implicit, msg="", val=None):
        self.exc = exc
        self.where = where
        self.implicit = implicit
        self.msg = msg
        self.val = val

    def __repr__(self):
        return "Raise(%s %s @%s)" % (self.exc, self.msg, self.where)


class HObj:
    __slots__ = ("kind", "cls", "attrs", "items", "open", "label", "static")

    def __init__(self, kind, cls=None, attrs=None, items=None, open=False, label=None, static=False):
        self.kind = kind
        self.cls = cls
        self.attrs = {} if attrs is None else attrs
        self.items = items
        self.open = open
        self.label = label
        self.static = static

    def copy(self):
        it = self.items
        if isinstance(it, list):
            it = list(it)
        elif isinstance(it, dict):
            it = dict(it)
        return HObj(self.kind, self.cls, dict(self.attrs), it, self.open, self.label, self.static)


class State:
    __slots__ = ("heap", "own", "facts", "events", "sym", "counts", "cut", "user")

    def __init__(self):
        self.heap = {}
        self.own = set()
        self.facts = {}
        self.events = None
        self.sym = {}
        self.counts = {}
        self.cut = False
        self.user = {}

    def fork(self):
        s = State()
        s.heap = dict(self.heap)
        self.own = set()
        s.facts = self.facts
        s.events = self.events
        s.sym = dict(self.sym)
        s.counts = dict(self.counts)
        s.cut = self.cut
        s.user = dict(self.user)
        return s

    def fact(self, atom, val):
        f = dict(self.facts)
        f[atom] = val
        self.facts = f

    def emit(self, *a):
        self.events = (self.events, Event(*a))

    def trace(self, since=None):
        out = []
        e = self.events
        while e is not None and e is not since:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out

    def count(self, label):
        n = self.counts.get(label, 0)
        self.counts[label] = n + 1
        return n


class Ctx:
    __slots__ = ("module", "cls", "frame", "fi", "locs", "globs", "classbody")

    def __init__(self, module, cls=None, frame=None, fi=None, locs=(), globs=(), classbody=None):
        self.module = module
        self.cls = cls
        self.frame = frame
        self.fi = fi
        self.locs = locs
        self.globs = globs
        self.classbody = classbody


def _locals_of(node):
    """Names bound in a function body (not in nested functions)."""
    names, globs = set(), set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)

    def walk(n, comp):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            globs.update(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add(al.asname or al.name.split(".")[0])
        for ch in ast.iter_child_nodes(n):
            walk(ch, comp)
    body = node.body if isinstance(node.body, list) else [node.body]
    for st in body:
        walk(st, False)
    return names - globs, globs


BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
          ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.Pow: "**"}

BUILTINS = {"len", "range", "enumerate", "isinstance", "hasattr", "getattr", "setattr", "int", "float", "str", "repr",
            "bool", "list", "tuple", "dict", "set", "bytes", "bytearray", "abs", "min", "max", "round", "sum", "any",
            "all", "zip", "map", "filter", "sorted", "reversed", "print", "super", "chr", "ord", "type", "hash", "id",
            "callable", "iter", "next", "divmod", "hex", "bin", "object", "issubclass", "frozenset", "locals",
            "globals", "open", "property", "staticmethod", "classmethod", "memoryview", "slice", "pow", "dir", "exec",
            "eval", "input", "__import__", "vars", "format"}
EXCS = {"Exception", "ValueError", "TypeError", "KeyError", "IndexError", "AttributeError", "RuntimeError", "OSError",
        "ImportError", "NotImplementedError", "StopIteration", "BaseException", "MemoryError", "AssertionError",
        "ZeroDivisionError", "NameError", "KeyboardInterrupt", "ModuleNotFoundError"}
TYPENAMES = {"int", "float", "str", "bool", "list", "tuple", "dict", "set", "bytes", "bytearray", "object", "type"}


class Engine:
    def __init__(self, program, max_states=60000, depth=40):
        self.p = program
        self.fns = {}
        self.fn_ids = {}
        self.static_heap = {}
        self.static_bad = []
        self.statics = {}
        self.static_busy = set()
        self.next_id = 1
        self.max_states = max_states
        self.depth_limit = depth
        self.depth = 0
        self.forks = 0
        self.hooks = {}
        self.method_hooks = {}
        self.attr_hooks = []
        self.call_hooks = []
        self.symcls = {}
        self.types = {}
        self.nullable_syms = set()
        self.bounds = {}
        self.distinct = set()
        self.visited = set()
        self.callsites = set()
        self.unsupported = set()
        self.classes = {}
        self.ext_ctor = {}
        self.rec_limit = 3
        self.no_merge = False
        self.ext_byte_fields = {"adafruit_midi.system_exclusive.SystemExclusive": ("manufacturer_id", "data")}
        self.ext_models = {}
        self.provide = {}
        self.local_classes = {}
        self.stack = []
        for m in program.modules.values():
            for ci in m.all_classes:
                self.classes[ci.qual] = ci
        self._locs = {}
        self.raise_in_try = False
        self.opaque_raises = True      # opaque calls in a try body may raise
        self.while_unroll = 2
        self.loop_limit = 600
        self.isinst_hook = None

    # ------------------------------------------------------------------ values
    def sym(self, name, cls=None, nullable=False, lo=None, hi=None, typ=None, distinct=False):
        v = ("s", name)
        if cls is not None:
            self.symcls[v] = cls
        if nullable:
            self.nullable_syms.add(v)
        if lo is not None or hi is not None:
            self.bounds[v] = (lo, hi)
        if typ:
            self.types[v] = typ
        if distinct:
            self.distinct.add(v)
        return v

    def new_id(self):
        self.next_id += 1
        return self.next_id

    def alloc(self, st, h):
        i = self.new_id()
        st.heap[i] = h
        st.own.add(i)
        return ("o", i)

    def h(self, st, v):
        o = st.heap.get(v[1])
        return o if o is not None else self.static_heap[v[1]]

    def hw(self, st, v):
        i = v[1]
        o = st.heap.get(i)
        if o is None:
            o = self.static_heap[i].copy()
            st.heap[i] = o
            st.own.add(i)
        elif i not in st.own:
            o = o.copy()
            st.heap[i] = o
            st.own.add(i)
        return o

    def mklist(self, st, items, label=None):
        return self.alloc(st, HObj("list", items=list(items), label=label))

    def mkdict(self, st, items, open=False, label=None):
        return self.alloc(st, HObj("dict", items={(k if isinstance(k, tuple) else c(k)): v for k, v in items.items()},
                                   open=open, label=label))

    def fv(self, fi, frame=None, selfv=None, defaults=None):
        key = id(fi.node)
        if key not in self.fn_ids:
            self.fn_ids[key] = len(self.fns)
            self.fns[self.fn_ids[key]] = fi
        if frame is None and fi.cls is not None:
            frame = getattr(fi.cls, "frame", None)
        return ("f", self.fn_ids[key], frame, selfv, defaults)

    def kv(self, ci):
        self.classes.setdefault(ci.qual, ci)
        return ("k", ci.qual)

    def class_of(self, v, st=None):
        if v[0] == "o":
            o = self.h(st, v)
            return o.cls if isinstance(o.cls, ClassInfo) else None
        return self.symcls.get(v)

    def nullable(self, v):
        return v in self.nullable_syms

    def fresh(self, st, label):
        n = st.count(label)
        return ("r", label, n)

    def describe(self, v, st=None):
        k = v[0]
        if k == "c":
            return repr(v[2])
        if k == "s":
            return v[1]
        if k == "r":
            return "%s#%d" % (v[1], v[2])
        if k == "t":
            if v[1] == "attr":
                return "%s.%s" % (self.describe(v[2], st), v[3])
            if v[1] == "idx":
                return "%s[%s]" % (self.describe(v[2], st), self.describe(v[3], st))
            return "%s(%s)" % (v[1], ", ".join(self.describe(x, st) if isinstance(x, tuple) else str(x)
                                               for x in v[2:]))
        if k == "lin":
            return " + ".join(["%s*%s" % (co, self.describe(t, st)) for t, co in v[2]] + [str(v[1])])
        if k == "o":
            if st is not None:
                o = self.h(st, v)
                if o.label:
                    return o.label
                if o.kind == "inst":
                    return "<%s>" % (o.cls.name if isinstance(o.cls, ClassInfo) else o.cls)
                if o.kind == "list" and o.items is not None:
                    return "[%s]" % ", ".join(self.describe(x, st) for x in o.items)
                return "<%s>" % o.kind
            return "o%d" % v[1]
        if k == "tup":
            return "(%s)" % ", ".join(self.describe(x, st) for x in v[1])
        if k == "f":
            return self.fns[v[1]].qual
        return str(v[1])

    def where(self, ctx, node):
        if ctx is None:
            return "<check>"
        return "%s:%s" % (ctx.module.rel, getattr(node, "lineno", "?"))

    # ------------------------------------------------------------------ linear forms
    def to_lin(self, v):
        if v[0] == "c":
            x = v[2]
            if isinstance(x, bool):
                x = int(x)
            return x, {}
        if v[0] == "lin":
            return v[1], dict(v[2])
        return 0, {v: 1}

    def from_lin(self, k, d):
        d = {t: co for t, co in d.items() if co != 0}
        # a == m*(a//m) + a%m
        for t in list(d):
            if t[0] == "t" and t[1] == "%" and is_num(t[3]) and t in d:
                q = ("t", "//", t[2], t[3])
                m = t[3][2]
                if q in d and d[q] == m * d[t]:
                    co = d[t]
                    del d[t], d[q]
                    k2, d2 = self.to_lin(t[2])
                    k += k2 * co
                    for a, b in d2.items():
                        d[a] = d.get(a, 0) + b * co
        d = {t: co for t, co in d.items() if co != 0}
        if isinstance(k, Fraction) and k.denominator == 1:
            k = int(k)
        if isinstance(k, float) and k == int(k) and abs(k) < 1e15 and d:
            k = int(k)
        if not d:
            return c(k)
        if k == 0 and len(d) == 1:
            t, co = next(iter(d.items()))
            if co == 1:
                return t
        return ("lin", k, tuple(sorted(d.items(), key=repr)))

    def canon_cmp(self, a, b):
        """returns (base, sign, k): a-b == sign_scale*(base) + const, i.e. comparing a ? b <=> base ? k (sign>0) or flipped"""
        ka, da = self.to_lin(a)
        kb, db = self.to_lin(b)
        k = ka - kb
        d = dict(da)
        for t, co in db.items():
            d[t] = d.get(t, 0) - co
        d = {t: co for t, co in d.items() if co != 0}
        if not d:
            return None, 1, k
        items = sorted(d.items(), key=repr)
        lead = items[0][1]
        sc = abs(Fraction(lead)) if not isinstance(lead, float) else abs(lead)
        sgn = 1 if lead > 0 else -1
        base = tuple((t, self._n(Fraction(co) / sc * sgn if not isinstance(co, float) else co / float(sc) * sgn))
                     for t, co in items)
        if isinstance(k, Fraction) or isinstance(k, int):
            kk = self._n(Fraction(-k) * sgn / sc) if not isinstance(sc, float) else -k * sgn / sc
        else:
            kk = -k * sgn / float(sc)
        if len(base) == 1 and base[0][1] == 1:
            bv = base[0][0]
        else:
            bv = ("lin", 0, base)
        return bv, sgn, kk

    @staticmethod
    def _n(f):
        if isinstance(f, Fraction) and f.denominator == 1:
            return int(f)
        return f

    def is_int(self, v):
        if v[0] == "c":
            return isinstance(v[2], int)
        if v[0] == "lin":
            return all(self.is_int(t) and isinstance(co, int) for t, co in v[2]) and isinstance(v[1], int)
        if v[0] == "t":
            if v[1] in ("len", "int", "round", "//"):
                return True
            if v[1] == "%":
                return self.is_int(v[2]) and self.is_int(v[3])
        return self.types.get(v) in ("int", "bool")

    def interval(self, v, st, depth=0):
        lo = hi = None
        if v[0] == "c":
            if isinstance(v[2], (int, float, Fraction)):
                return v[2], v[2]
            return None, None
        if v[0] == "lin":
            lo = hi = v[1]
            for t, co in v[2]:
                a, b = self.interval(t, st, depth + 1)
                if co < 0:
                    a, b = b, a
                lo = None if lo is None or a is None else lo + a * co
                hi = None if hi is None or b is None else hi + b * co
        elif v[0] == "t":
            op = v[1]
            if op == "%" and is_num(v[3]) and v[3][2] > 0:
                lo, hi = 0, (v[3][2] - 1 if self.is_int(v[2]) else v[3][2])
                a, b = self.interval(v[2], st, depth + 1)
                if a is not None and b is not None and a >= 0 and b < v[3][2]:
                    lo, hi = a, b
            elif op == "len":
                lo = 0
            elif op in ("//", "/") and is_num(v[3]) and v[3][2] > 0:
                a, b = self.interval(v[2], st, depth + 1)
                if op == "//":
                    lo = None if a is None else a // v[3][2]
                    hi = None if b is None else b // v[3][2]
                else:
                    lo = None if a is None else a / v[3][2]
                    hi = None if b is None else b / v[3][2]
            elif op in ("int", "round", "floor"):
                a, b = self.interval(v[2], st, depth + 1)
                if op == "round":
                    lo = None if a is None else round(a)
                    hi = None if b is None else round(b)
                elif op == "floor":
                    lo = None if a is None else a // 1
                    hi = None if b is None else b // 1
                else:
                    lo = None if a is None else int(a)
                    hi = None if b is None else int(b)
            elif op == "abs":
                a, b = self.interval(v[2], st, depth + 1)
                lo = 0
                if a is not None and b is not None:
                    hi = max(abs(a), abs(b))
            elif op == "*":
                a, b = self.interval(v[2], st, depth + 1)
                d, e = self.interval(v[3], st, depth + 1)
                if None not in (a, b, d, e):
                    ps = [a * d, a * e, b * d, b * e]
                    lo, hi = min(ps), max(ps)
            elif op in ("min", "max"):
                ivs = [self.interval(x, st, depth + 1) for x in v[2:]]
                los, his = [a for a, b in ivs], [b for a, b in ivs]
                if op == "min":
                    lo = None if None in los else min(los)
                    k = [x for x in his if x is not None]
                    hi = min(k) if k else None
                else:
                    hi = None if None in his else max(his)
                    k = [x for x in los if x is not None]
                    lo = max(k) if k else None
        b = self.bounds.get(v)
        if b:
            lo = b[0] if lo is None else (lo if b[0] is None else max(lo, b[0]))
            hi = b[1] if hi is None else (hi if b[1] is None else min(hi, b[1]))
        if depth < 6:
            flo, fhi = self.fact_bounds(v, st)
            if flo is not None:
                lo = flo if lo is None else max(lo, flo)
            if fhi is not None:
                hi = fhi if hi is None else min(hi, fhi)
        return lo, hi

    def fact_bounds(self, v, st):
        """bounds on v derived from recorded comparison facts (over-approximated to closed bounds; tightened for ints)"""
        bv, sgn, k = self.canon_cmp(v, c(0))
        if bv is None:
            return None, None
        # v = scale*(bv - k) with scale sign sgn ; only handle |scale| == 1
        k0, d = self.to_lin(v)
        scale = None
        if bv[0] == "lin":
            t0, c0 = bv[2][0]
            scale = d.get(t0, 0)
        else:
            scale = d.get(bv, 0)
        lo = hi = None
        isint = self.is_int(bv)
        for at, val in st.facts.items():
            if at[0] in ("lt", "le", "eq") and len(at) == 3 and at[1] == bv and not isinstance(at[2], tuple):
                x = at[2]
                if at[0] == "eq":
                    if val:
                        lo = x if lo is None else max(lo, x)
                        hi = x if hi is None else min(hi, x)
                    continue
                strict = (at[0] == "lt") == bool(val)   # lt true -> strict upper; le false -> strict lower
                if val:
                    u = x
                    if isint and at[0] == "lt":
                        u = -(-x // 1) - 1
                    hi = u if hi is None else min(hi, u)
                else:
                    low = x
                    if isint and at[0] == "le":
                        low = x // 1 + 1
                    lo = low if lo is None else max(lo, low)
        if bv[0] == "lin" and len(bv[2]) == 2 and bv[2][0][1] == 1 and bv[2][1][1] == -1:
            dlo, dhi = self.difference(bv[2][0][0], bv[2][1][0], st)
            lo = dlo if lo is None or (dlo is not None and dlo > lo) else lo
            hi = dhi if hi is None or (dhi is not None and dhi < hi) else hi
        if scale is None or scale == 0:
            return None, None
        conv = lambda b: None if b is None else self._n((b - k) * scale)
        a, b = conv(lo), conv(hi)
        if scale < 0:
            a, b = b, a
        return a, b

    def difference(self, a, b, st):
        """bounds of a - b through chains of recorded difference facts (longest paths over at most 8 terms)"""
        low = {}        # low[x, y] = lower bound of x - y

        def put(x, y, n):
            if (x, y) not in low or low[x, y] < n:
                low[x, y] = n
        for at, val in st.facts.items():
            if at[0] not in ("lt", "le", "eq") or len(at) != 3 or isinstance(at[2], tuple) or at[1][0] != "lin":
                continue
            d = at[1][2]
            if len(d) != 2 or d[0][1] != 1 or d[1][1] != -1:
                continue
            x, y, k = d[0][0], d[1][0], at[2]
            isint = self.is_int(at[1])
            if at[0] == "eq":
                if val:
                    put(x, y, k)
                    put(y, x, -k)
            elif val:       # x - y < k or <= k
                u = -(-k // 1) - 1 if isint and at[0] == "lt" else k
                put(y, x, -u)
            else:
                put(x, y, k // 1 + 1 if isint and at[0] == "le" else k)
        if len(low) < 2:
            return None, None
        nodes = {n for e in low for n in e}
        if len(nodes) > 8 or a not in nodes or b not in nodes:
            return None, None
        for z in nodes:
            for x in nodes:
                for y in nodes:
                    if (x, z) in low and (z, y) in low and x != y:
                        put(x, y, low[x, z] + low[z, y])
        up = low.get((b, a))
        return low.get((a, b)), None if up is None else -up

    def closure(self, atom, st):
        """decides a comparison after substituting terms known to be equal up to a constant"""
        rep = {}

        def find(t):
            k = 0
            while t in rep:
                t, d = rep[t]
                k += d
            return t, k
        n = 0
        for at, val in st.facts.items():
            if at[0] == "eq" and val and len(at) == 3 and at[1][0] == "lin" and not isinstance(at[2], tuple):
                d = at[1][2]
                if len(d) == 2 and d[0][1] == 1 and d[1][1] == -1:
                    (a, ka), (b, kb) = find(d[0][0]), find(d[1][0])
                    if a != b:
                        rep[a] = (b, at[2] + kb - ka)
                        n += 1
        if not n:
            return None

        def canon(base, x):
            if base[0] == "lin":
                d0 = base[2]
            else:
                d0 = ((base, 1),)
            out, k = {}, x
            for t, co in d0:
                r, o = find(t)
                out[r] = out.get(r, 0) + co
                k -= o * co
            return tuple(sorted(((t, co) for t, co in out.items() if co), key=repr)), k
        kind = atom[0]
        d, k = canon(atom[1], atom[2])
        if not d:
            return 0 == k if kind == "eq" else 0 < k if kind == "lt" else 0 <= k
        for at, val in st.facts.items():
            if at[0] != kind or len(at) != 3 or isinstance(at[2], tuple) or at[1] == atom[1]:
                continue
            d2, k2 = canon(at[1], at[2])
            if d2 == d and k2 == k:
                return val
            if kind == "eq" and d2 == tuple((t, -co) for t, co in d) and k2 == -k:
                return val
        return None

    # ------------------------------------------------------------------ decisions
    def implied(self, atom, st):
        f = st.facts
        if atom in f:
            return f[atom]
        k = atom[0]
        if k in ("lt", "le", "eq") and not isinstance(atom[2], tuple):
            base, x = atom[1], atom[2]
            lo, hi = self.interval(base, st)
            isint = self.is_int(base)
            if k == "eq":
                if isint and isinstance(x, float) and x != int(x):
                    return False
                if isint and isinstance(x, Fraction) and x.denominator != 1:
                    return False
                if lo is not None and lo == hi:
                    return lo == x
                if (lo is not None and x < lo) or (hi is not None and x > hi):
                    return False
                # strict facts
                for at, val in f.items():
                    if at[0] in ("lt", "le") and at[1] == base and at[2] == x:
                        if (at[0] == "lt" and val) or (at[0] == "le" and not val):
                            return False
                    if at[0] == "eq" and at[1] == base and val and at[2] != x:
                        return False
                if f.get(("none", base)) is True:
                    return False
                if x == 0 and ("truth", base) in f:
                    return not f[("truth", base)]
                if ("truth", base) in f and f[("truth", base)] is False and x != 0:
                    return False
                le, lt = f.get(("le", base, x)), f.get(("lt", base, x))
                if le is True and lt is False:
                    return True
                return self.closure(atom, st)
            for at, val in f.items():
                if at[1] != base or at[0] not in ("lt", "le", "eq"):
                    continue
                y = at[2]
                if isinstance(y, tuple):
                    continue
                if at[0] == "eq":
                    if val:
                        return y < x if k == "lt" else y <= x
                    continue
                if val:
                    # base < y or base <= y
                    if k == "lt" and (y < x or (at[0] == "lt" and y == x)):
                        return True
                    if k == "le" and y <= x:
                        return True
                else:
                    # base >= y (lt false) or base > y (le false)
                    if k == "lt" and y >= x:
                        return False
                    if k == "le" and (y > x or (at[0] == "le" and y == x)):
                        return False
            if f.get(("eq", base, x)) is False:
                if k == "lt" and f.get(("le", base, x)) is True:
                    return True
            if f.get(("eq", base, x)) is False and k == "le" and f.get(("lt", base, x)) is False:
                return False
            if f.get(("truth", base)) is False:
                return (0 < x) if k == "lt" else (0 <= x)
            if hi is not None and (hi < x or (k == "le" and hi <= x)):
                return True
            if lo is not None and (lo > x or (k == "lt" and lo >= x)):
                return False
            return self.closure(atom, st)
        if k == "eq":
            # equality of a term with a non numeric constant
            base, x = atom[1], atom[2]
            for at, val in f.items():
                if at[0] == "eq" and at[1] == base and val and at[2] != x:
                    return False
            if f.get(("none", base)) is True:
                return False
            t = f.get(("truth", base))
            if t is not None and bool(x[2]) != t:
                return False
            return None
        if k == "none":
            v = atom[1]
            if f.get(("truth", v)) is True:
                return False
            for at, val in f.items():
                if val and at[0] in ("eq",) and at[1] == v:
                    return False
                if at[0] in ("lt", "le") and at[1] == v:
                    return False
                if val and at[0] in ("isinst", "hasattr") and at[1] == v:
                    return False
            return None
        if k == "truth":
            v = atom[1]
            if f.get(("none", v)) is True:
                return False
            for at, val in f.items():
                if at[0] == "eq" and at[1] == v:
                    x = at[2]
                    xv = x[2] if isinstance(x, tuple) else x
                    if val:
                        return bool(xv)
                    if not isinstance(x, tuple) and x == 0:
                        if self.types.get(v) in ("int", "bool", "num"):
                            return True
            lo, hi = self.interval(v, st)
            if lo is not None and lo > 0:
                return True
            if hi is not None and hi < 0:
                return True
            return None
        return None

    def decide(self, atom, st):
        r = self.implied(atom, st)
        if r is not None:
            return [(st, r)]
        self.forks += 1
        if self.forks > self.max_states:
            raise AnalysisBroken("partition budget exceeded (%d)" % self.max_states)
        s2 = st.fork()
        st.fact(atom, True)
        s2.fact(atom, False)
        return [(st, True), (s2, False)]

    def none_atom(self, v, st):
        """decides `v is None`"""
        if v[0] == "c":
            return [(st, v[2] is None)]
        if v[0] in ("o", "f", "k", "x", "m", "tup", "lin", "b", "bm", "super"):
            return [(st, False)]
        if v[0] == "s" and not self.nullable(v) and (v in self.symcls or v in self.types or v in self.bounds):
            return [(st, False)]
        if v[0] == "t" and v[1] not in ("attr", "idx"):
            return [(st, False)]
        return self.decide(("none", v), st)

    def truth(self, v, st, ctx=None):
        k = v[0]
        if k == "c":
            return [(st, bool(v[2]))]
        if k == "tup":
            return [(st, len(v[1]) > 0)]
        if k in ("f", "k", "x", "m", "b", "bm", "super"):
            return [(st, True)]
        if k == "o":
            o = self.h(st, v)
            if o.kind == "inst" and "[list]" in o.attrs:
                return self.truth(o.attrs["[list]"], st, ctx)
            if o.kind in ("list", "dict", "set"):
                if o.items is not None and not o.open:
                    return [(st, len(o.items) > 0)]
                if o.items:
                    return [(st, True)]
                return self.decide(("truth", v), st)
            return [(st, True)]
        if k == "lin" or (k == "t" and v[1] in ("+", "-", "*", "/", "//", "%", "len", "int", "round", "abs", "min",
                                                "max", "floor", "&", "neg")):
            bv, sgn, kk = self.canon_cmp(v, c(0))
            return [(s, not r) for s, r in self.decide(("eq", bv, kk), st)]
        if k == "t" and v[1] == "fmt":
            return [(st, True)]
        if k == "s" and v in self.symcls and not self.nullable(v):
            return [(st, True)]
        return self.decide(("truth", v), st)

    def equal(self, a, b, st, ctx=None):
        """[(st,bool)] for a == b"""
        if a == b:
            return [(st, True)]
        if a[0] == "c" and b[0] == "c":
            return [(st, a[2] == b[2])]
        if a == NONE:
            return self.none_atom(b, st)
        if b == NONE:
            return self.none_atom(a, st)
        for x, y in ((a, b), (b, a)):
            if x[0] == "o":
                ox = self.h(st, x)
                if ox.kind == "inst" and isinstance(ox.cls, ClassInfo):
                    eqm = ox.cls.find("__eq__")
                    if eqm is not None:
                        out = []
                        for s, r in self.call(self.fv(eqm, None, x), [y], {}, st, ctx, None):
                            if isinstance(r, Raise):
                                out.append((s, False))
                            else:
                                out += self.truth(r, s)
                        return out
                if y[0] in ("o", "c", "f", "k", "tup", "x", "m"):
                    if y[0] == "o":
                        oy = self.h(st, y)
                        if ox.kind == "list" and oy.kind == "list" and ox.items is not None and oy.items is not None:
                            return self.equal_seq(ox.items, oy.items, st, ctx)
                    return [(st, False)]
        if a[0] == "tup" and b[0] == "tup":
            return self.equal_seq(a[1], b[1], st, ctx)
        hard = ("f", "k", "x", "m", "tup", "b")
        if a[0] in hard and b[0] in hard + ("c",) or b[0] in hard and a[0] == "c":
            return [(st, False)]
        if a in self.distinct and b in self.distinct:
            return [(st, False)]
        for x, y in ((a, b), (b, a)):
            if y[0] == "o" and x in self.distinct:
                return [(st, False)]
            if y[0] in ("o", "f", "k", "x", "m") and (self.types.get(x) in ("int", "num", "bool") or x[0] == "lin" or x in self.bounds):
                return [(st, False)]
            if x[0] == "c" and y[0] == "s" and y in self.symcls:
                return [(st, False)]
            if y[0] in ("c",) and isinstance(y[2], str) and self.types.get(x) in ("int", "num", "bool", "list"):
                return [(st, False)]
            if y[0] in ("c",) and isinstance(y[2], str) and (x[0] == "lin" or x in self.bounds):
                return [(st, False)]
            if y[0] == "c" and isinstance(y[2], bool) and self.types.get(x) == "bool":
                return [(s, r == y[2]) for s, r in self.truth(x, st)]
        for x, y in ((a, b), (b, a)):
            if y[0] == "c" and not isinstance(y[2], (int, float, Fraction)):
                if x[0] == "c":
                    return [(st, False)]
                return self.decide(("eq", x, y), st)
        if a[0] in ("o", "f", "k", "x", "m", "tup", "b", "bm") or b[0] in ("o", "f", "k", "x", "m", "tup", "b", "bm"):
            p, q = sorted((a, b), key=repr)
            return self.decide(("same", p, q), st)
        if a[0] == "s" and b[0] == "s" and (a in self.symcls or b in self.symcls):
            p, q = sorted((a, b), key=repr)
            return self.decide(("same", p, q), st)
        bv, sgn, kk = self.canon_cmp(a, b)
        if bv is None:
            return [(st, kk == 0)]
        return self.decide(("eq", bv, kk), st)

    def equal_seq(self, xs, ys, st, ctx):
        if len(xs) != len(ys):
            return [(st, False)]
        cur, out = [st], []
        for x, y in zip(xs, ys):
            nxt = []
            for s in cur:
                for s2, r in self.equal(x, y, s, ctx):
                    if r:
                        nxt.append(s2)
                    else:
                        out.append((s2, False))
            cur = nxt
        return out + [(s, True) for s in cur]

    def less(self, a, b, strict, st, ctx, node):
        """a < b / a <= b ; returns [(st, bool|Raise)]"""
        for v in (a, b):
            if v == NONE or v[0] in ("f", "k", "m", "b") or (v[0] == "o" and self.h(st, v).kind in ("inst", "dict")):
                return [(st, Raise("TypeError", self.where(ctx, node), True,
                                   "ordering comparison with %s" % self.describe(v, st)))]
        if a[0] == "c" and b[0] == "c":
            try:
                return [(st, a[2] < b[2] if strict else a[2] <= b[2])]
            except TypeError:
                return [(st, Raise("TypeError", self.where(ctx, node), True, "ordering of %r and %r" % (a[2], b[2])))]
        out, cur = [], [st]
        for v in (a, b):
            nxt = []
            for s in cur:
                if self.nullable(v):
                    for s2, isn in self.none_atom(v, s):
                        if isn:
                            out.append((s2, Raise("TypeError", self.where(ctx, node), True,
                                                  "ordering comparison with %s which can be None" % self.describe(v, s2))))
                        else:
                            nxt.append(s2)
                else:
                    nxt.append(s)
            cur = nxt
        for s in cur:
            if (is_c(a) and not is_num(a)) or (is_c(b) and not is_num(b)) or a[0] == "o" or b[0] == "o" \
                    or a[0] == "tup" or b[0] == "tup":
                out += self.decide(("ord" + ("<" if strict else "<="), a, b), s)
                continue
            bv, sgn, kk = self.canon_cmp(a, b)
            if bv is None:
                # a-b == kk const (canon returns k directly)
                d = kk
                out.append((s, d < 0 if strict else d <= 0))
                continue
            if sgn > 0:
                out += self.decide(("lt" if strict else "le", bv, kk), s)
            else:
                # a<b <=> bv > kk <=> not bv<=kk
                out += [(s2, not r) for s2, r in self.decide(("le" if strict else "lt", bv, kk), s)]
        return out

    # ------------------------------------------------------------------ statics
    def static_ctx(self, mod, cls=None, classbody=None):
        return Ctx(mod, cls, None, None, (), (), classbody)

    def static_eval(self, key, expr, mod, cls=None, label=None, classbody=None):
        if key in self.statics:
            return self.statics[key]
        if key in self.static_busy:
            return ("s", "static:" + str(label or key))
        self.static_busy.add(key)
        st = State()
        st.heap = self.static_heap
        before = set(self.static_heap)
        st.own = _All()
        saved, self.depth = self.depth, 0
        try:
            res = self.eval(expr, st, self.static_ctx(mod, cls, classbody))
        finally:
            self.depth = saved
            self.static_busy.discard(key)
        ok = [r for r in res if not isinstance(r[1], Raise)]
        if len(ok) != 1 or len(res) != 1:
            self.static_bad.append((key, label, [r[1] for r in res]))
        if ok and ok[0][0].heap is not self.static_heap:
            self.static_heap.update(ok[0][0].heap)
        v = ok[0][1] if len(ok) >= 1 and len(res) == 1 else ("s", "static:" + str(label or key))
        for i in self.static_heap:
            if i not in before:
                self.static_heap[i].static = True
        if v[0] == "o" and label and not self.static_heap[v[1]].label:
            self.static_heap[v[1]].label = label
        self.statics[key] = v
        return v

    def module_value(self, mod, name):
        r = self.p.lookup(mod, name)
        return self.from_lookup(r)

    def from_lookup(self, r):
        if r is None:
            return None
        if r[0] == "func":
            return self.fv(r[1])
        if r[0] == "class":
            return self.kv(r[1])
        if r[0] == "assign":
            return self.static_eval(("mod", r[2].name, r[3]), r[1], r[2], None, r[2].name + "." + r[3])
        if r[0] == "module":
            if r[1] in self.p.modules:
                return ("m", r[1])
            return self.external(r[1])
        if r[0] == "ext":
            return self.external(r[1])
        return None

    def external(self, dotted):
        """value of a name outside of the program; `provide` maps replaced modules to values"""
        if self.provide:
            parts = dotted.split(".")
            for n in range(len(parts), 0, -1):
                v = self.provide.get(".".join(parts[:n]))
                if v is not None:
                    for a in parts[n:]:
                        st = State()
                        st.heap = self.static_heap
                        r = self.get_attr(v, a, st, self.static_ctx(next(iter(self.p.modules.values()))), None)
                        v = r[0][1]
                        if isinstance(v, Raise):
                            return None
                    return v
        return ("x", dotted)

    def class_attr(self, ci, name):
        f = ci.find_attr(name)
        if f is None:
            return None
        c2, expr = f
        return self.static_eval(("cls", c2.qual, name), expr, c2.module, c2, c2.qual + "." + name, classbody=c2)

    # ------------------------------------------------------------------ expressions
    def bind(self, results, f):
        out = []
        for st, v in results:
            if isinstance(v, Raise):
                out.append((st, v))
            else:
                out += f(st, v)
        return out

    def eval(self, e, st, ctx):
        m = getattr(self, "e_" + e.__class__.__name__, None)
        if m is None:
            self.unsupported.add("%s@%s" % (e.__class__.__name__, self.where(ctx, e)))
            return [(st, self.fresh(st, "unsupported:" + e.__class__.__name__))]
        return m(e, st, ctx)

    def eval_list(self, es, st, ctx):
        cur = [(st, [])]
        out = []
        for e in es:
            nxt = []
            for s, vs in cur:
                star = isinstance(e, ast.Starred)
                for s2, v in self.eval(e.value if star else e, s, ctx):
                    if isinstance(v, Raise):
                        out.append((s2, v))
                    elif star:
                        seq = self.seq_items(v, s2)
                        nxt.append((s2, vs + (seq if seq is not None else [("t", "star", v)])))
                    else:
                        nxt.append((s2, vs + [v]))
            cur = nxt
        return out + cur

    def seq_items(self, v, st):
        if v[0] == "tup":
            return list(v[1])
        if v[0] == "o":
            o = self.h(st, v)
            if o.kind == "inst" and "[list]" in o.attrs:
                return self.seq_items(o.attrs["[list]"], st)
            if o.kind in ("list", "set") and o.items is not None and not o.open:
                return list(o.items)
            if o.kind == "dict" and not o.open:
                return list(o.items)
        if v[0] == "c" and isinstance(v[2], (str, bytes)):
            return [c(x) for x in v[2]]
        if v[0] == "range" and all(is_c(x) for x in v[1:]):
            r = range(*[x[2] for x in v[1:]])
            if len(r) <= 4096:
                return [c(i) for i in r]
        return None

    def e_Constant(self, e, st, ctx):
        return [(st, c(e.value))]

    def e_Name(self, e, st, ctx):
        v = self.load_name(e.id, st, ctx, e)
        return [(st, v)]

    def load_name(self, name, st, ctx, node):
        if ctx.frame is not None:
            fr = ctx.frame
            first = True
            while fr is not None:
                h = self.h(st, ("o", fr))
                if name in h.attrs and not (first and name in ctx.globs):
                    return h.attrs[name]
                if first and name in ctx.locs and h.items is None:
                    return Raise("UnboundLocalError", self.where(ctx, node), True, "local '%s' read before assignment" % name)
                first = False
                fr = h.cls
        if ctx.classbody is not None:
            v = self.class_attr(ctx.classbody, name)
            if v is not None:
                return v
            if name in ctx.classbody.classes:
                return self.kv(ctx.classbody.classes[name])
        key = ("glob", ctx.module.name, name)
        if key in st.sym:
            return st.sym[key]
        v = self.module_value(ctx.module, name)
        if v is not None:
            return v
        if name in BUILTINS or name in EXCS or name in TYPENAMES:
            return ("b", name)
        if name in ("__name__", "__file__"):
            return c(ctx.module.name)
        return Raise("NameError", self.where(ctx, node), True, "name '%s' is not defined" % name)

    def e_Attribute(self, e, st, ctx):
        name = mangle(e.attr, ctx.cls)
        return self.bind(self.eval(e.value, st, ctx), lambda s, b: self.get_attr(b, name, s, ctx, e))

    def null_guard(self, v, st, ctx, node, what):
        """[(st, ok)]: splits on None for nullable values; None branch is a Raise"""
        if v == NONE:
            return [(st, Raise("AttributeError", self.where(ctx, node), True, "%s of None" % what))]
        if self.nullable(v):
            out = []
            for s, isn in self.none_atom(v, st):
                if isn:
                    out.append((s, Raise("AttributeError", self.where(ctx, node), True,
                                         "%s of %s which can be None" % (what, self.describe(v, s)))))
                else:
                    out.append((s, True))
            return out
        return [(st, True)]

    def get_attr(self, b, name, st, ctx, node):
        k = b[0]
        if b == NONE:
            return [(st, Raise("AttributeError", self.where(ctx, node), True, "attribute '%s' of None" % name))]
        if k == "o":
            o = self.h(st, b)
            if o.kind == "inst":
                for hk in self.attr_hooks:
                    r = hk(self, st, b, name, ctx, node)
                    if r is not None:
                        return r
                if isinstance(o.cls, ClassInfo):
                    m = o.cls.find(name)
                    if m is not None and m.is_prop:
                        return self.call(self.fv(m, None, b), [], {}, st, ctx, node)
                    if name in o.attrs:
                        return [(st, o.attrs[name])]
                    if m is not None:
                        if m.is_static:
                            return [(st, self.fv(m))]
                        return [(st, self.fv(m, None, b if not m.is_class else self.kv(o.cls)))]
                    v = self.class_attr(o.cls, name)
                    if v is not None:
                        return [(st, v)]
                    cc = o.cls.find_class(name)
                    if cc is not None:
                        return [(st, self.kv(cc))]
                    if name == "__class__":
                        return [(st, self.kv(o.cls))]
                    if "[list]" in o.attrs:
                        return [(st, ("bm", o.attrs["[list]"], name))]
                    if o.cls.external_bases and o.cls.external_bases != ["object"] or o.open:
                        return [(st, attr(b, name))]
                elif name in o.attrs:
                    return [(st, o.attrs[name])]
                elif o.open:
                    return [(st, attr(b, name))]
                return [(st, Raise("AttributeError", self.where(ctx, node), True, "'%s' has no attribute '%s' here" % (
                    o.cls.name if isinstance(o.cls, ClassInfo) else o.cls, name)))]
            return [(st, ("bm", b, name))]
        if k in ("c", "tup", "range", "lin"):
            return [(st, ("bm", b, name))]
        if k == "k":
            ci = self.classes[b[1]]
            m = ci.find(name)
            if m is not None:
                if m.is_class:
                    return [(st, self.fv(m, None, b))]
                return [(st, self.fv(m))]
            key = ("clsattr", b, name)
            if key in st.sym:
                return [(st, st.sym[key])]
            v = self.class_attr(ci, name)
            if v is not None:
                return [(st, v)]
            cc = ci.find_class(name)
            if cc is not None:
                return [(st, self.kv(cc))]
            if name == "__name__":
                return [(st, c(ci.name))]
            if ci.external_bases:
                return [(st, attr(b, name))]
            return [(st, Raise("AttributeError", self.where(ctx, node), True, "class %s has no attribute '%s'" % (ci.name, name)))]
        if k == "x":
            return [(st, ("x", b[1] + "." + name))]
        if k == "m":
            v = self.from_lookup(self.p.lookup(self.p.modules[b[1]], name))
            if v is None:
                return [(st, Raise("AttributeError", self.where(ctx, node), True, "module %s has no attribute '%s'" % (b[1], name)))]
            return [(st, v)]
        if k == "super":
            return [(st, self.super_attr(b, name, st))]
        if k in ("f", "b", "bm"):
            return [(st, attr(b, name))]
        out = []
        for s, ok in self.null_guard(b, st, ctx, node, "attribute '%s'" % name):
            if isinstance(ok, Raise):
                out.append((s, ok))
                continue
            done = False
            for hk in self.attr_hooks:
                r = hk(self, s, b, name, ctx, node)
                if r is not None:
                    out += r
                    done = True
                    break
            if done:
                continue
            ci = self.symcls.get(b)
            if ci is not None:
                m = ci.find(name)
                if m is not None and m.is_prop:
                    out += self.call(self.fv(m, None, b), [], {}, s, ctx, node)
                    continue
                if (b, name) in s.sym:
                    out.append((s, s.sym[(b, name)]))
                    continue
                if m is not None:
                    out.append((s, self.fv(m, None, None if m.is_static else b)))
                    continue
                v = self.class_attr(ci, name)
                if v is not None:
                    out.append((s, v))
                    continue
            if (b, name) in s.sym:
                out.append((s, s.sym[(b, name)]))
            else:
                out.append((s, attr(b, name)))
        return out

    def super_attr(self, b, name, st):
        selfv, after = b[1], self.classes[b[2]]
        cls = self.class_of(selfv, st) if selfv[0] != "k" else self.classes[selfv[1]]
        if cls is None:
            cls = after
        m = cls.find_after(after, name)
        if m is not None:
            return self.fv(m, None, selfv)
        if selfv[0] == "o" and "[list]" in (self.h(st, selfv).attrs or {}):
            return ("bm", self.h(st, selfv).attrs["[list]"], name)
        return ("x", "super:" + name)

    def set_attr(self, b, name, v, st, ctx, node):
        """[(st, None|Raise)]"""
        k = b[0]
        if b == NONE:
            return [(st, Raise("AttributeError", self.where(ctx, node), True, "setting '%s' on None" % name))]
        out = []
        for s, ok in (self.null_guard(b, st, ctx, node, "setting '%s'" % name) if k in "strs" else [(st, True)]):
            if isinstance(ok, Raise):
                out.append((s, ok))
                continue
            ci = self.class_of(b, s)
            if ci is not None:
                sm = ci.find_setter(name)
                if sm is not None:
                    out += [(s2, r if isinstance(r, Raise) else None)
                            for s2, r in self.call(self.fv(sm, None, b), [v], {}, s, ctx, node)]
                    continue
                g = ci.find(name)
                if g is not None and g.is_prop:
                    out.append((s, Raise("AttributeError", self.where(ctx, node), True, "property '%s' has no setter" % name)))
                    continue
            if k == "o":
                o = self.hw(s, b)
                if o.static:
                    s.emit("static_write", b, name, (v,), {}, None, s.facts, self.where(ctx, node))
                o.attrs[name] = v
            elif k == "k":
                s.sym[("clsattr", b, name)] = v
                s.emit("static_write", b, name, (v,), {}, None, s.facts, self.where(ctx, node))
            else:
                s.sym[(b, name)] = v
            s.emit("set", b, name, (v,), {}, None, s.facts, self.where(ctx, node))
            out.append((s, None))
        return out

    def e_List(self, e, st, ctx):
        return [(s, v if isinstance(v, Raise) else self.mklist(s, v)) for s, v in self.eval_list(e.elts, st, ctx)]

    def e_Tuple(self, e, st, ctx):
        return [(s, v if isinstance(v, Raise) else tup(*v)) for s, v in self.eval_list(e.elts, st, ctx)]

    def e_Set(self, e, st, ctx):
        return [(s, v if isinstance(v, Raise) else self.alloc(s, HObj("set", items=v)))
                for s, v in self.eval_list(e.elts, st, ctx)]

    def e_Dict(self, e, st, ctx):
        keys = [k for k in e.keys]
        if any(k is None for k in keys):
            return [(s, self.alloc(s, HObj("dict", items={}, open=True))) for s, v in
                    self.eval_list(e.values, st, ctx) if not isinstance(v, Raise)]
        out = []
        for s, vs in self.eval_list(list(keys) + list(e.values), st, ctx):
            if isinstance(vs, Raise):
                out.append((s, vs))
                continue
            n = len(keys)
            out.append((s, self.alloc(s, HObj("dict", items=dict(zip(vs[:n], vs[n:]))))))
        return out

    def e_JoinedStr(self, e, st, ctx):
        parts = []
        for p in e.values:
            if isinstance(p, ast.FormattedValue):
                parts.append(p.value)
            else:
                parts.append(p)
        specs = [ast.dump(p.format_spec) if isinstance(p, ast.FormattedValue) and p.format_spec else "" for p in e.values]
        out = []
        for s, vs in self.eval_list(parts, st, ctx):
            if isinstance(vs, Raise):
                out.append((s, vs))
                continue
            if all(is_c(v) for v in vs) and not any(specs):
                out.append((s, c("".join(str(v[2]) for v in vs))))
            else:
                out.append((s, self.fmt(vs)))
        return out

    def fmt(self, vs):
        flat = []
        for v in vs:
            if v[0] == "t" and v[1] in ("str", "repr"):
                v = v[2]
            if v[0] == "t" and v[1] == "fmt":
                flat += list(v[2:])
            elif is_c(v):
                v = c(str(v[2]))
                if flat and is_c(flat[-1]):
                    flat[-1] = c(flat[-1][2] + v[2])
                elif v[2] != "":
                    flat.append(v)
            else:
                flat.append(v)
        if len(flat) == 1 and is_c(flat[0]):
            return flat[0]
        return ("t", "fmt") + tuple(flat)

    def e_Lambda(self, e, st, ctx):
        return self.make_closure(e, st, ctx)

    def make_closure(self, node, st, ctx):
        key = id(node)
        if key not in self.fn_ids:
            qual = (ctx.fi.qual if ctx.fi else ctx.module.name) + ".<%s>" % getattr(node, "name", "lambda")
            fi = FuncInfo(node, ctx.module, ctx.cls, qual, ctx.fi)
            self.fn_ids[key] = len(self.fns)
            self.fns[self.fn_ids[key]] = fi
        a = node.args
        defs = list(a.defaults) + [d for d in a.kw_defaults if d is not None]
        out = []
        for s, vs in self.eval_list(defs, st, ctx):
            if isinstance(vs, Raise):
                out.append((s, vs))
            else:
                out.append((s, ("f", self.fn_ids[key], ctx.frame, None, tuple(vs))))
        return out

    def e_IfExp(self, e, st, ctx):
        out = []
        for s, r in self.cond(e.test, st, ctx):
            if isinstance(r, Raise):
                out.append((s, r))
            else:
                out += self.eval(e.body if r else e.orelse, s, ctx)
        return out

    def cond(self, e, st, ctx):
        """[(st, bool|Raise)]"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, r if isinstance(r, Raise) else not r) for s, r in self.cond(e.operand, st, ctx)]
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            cur, out = [st], []
            for i, x in enumerate(e.values):
                nxt = []
                for s in cur:
                    for s2, r in self.cond(x, s, ctx):
                        if isinstance(r, Raise):
                            out.append((s2, r))
                        elif r != isand:
                            out.append((s2, r))
                        else:
                            nxt.append(s2)
                cur = nxt
            return out + [(s, isand) for s in cur]
        out = []
        for s, v in self.eval(e, st, ctx):
            if isinstance(v, Raise):
                out.append((s, v))
            else:
                out += self.truth(v, s, ctx)
        return out

    def e_BoolOp(self, e, st, ctx):
        isand = isinstance(e.op, ast.And)
        cur, out = [(st, None)], []
        for i, x in enumerate(e.values):
            last = i == len(e.values) - 1
            nxt = []
            for s, _ in cur:
                for s2, v in self.eval(x, s, ctx):
                    if isinstance(v, Raise) or last:
                        out.append((s2, v))
                        continue
                    for s3, r in self.truth(v, s2, ctx):
                        if r != isand:
                            # falsy unknowns keep their identity
                            out.append((s3, v))
                        else:
                            nxt.append((s3, None))
            cur = nxt
        return out

    def e_UnaryOp(self, e, st, ctx):
        if isinstance(e.op, ast.Not):
            return [(s, r if isinstance(r, Raise) else c(r)) for s, r in
                    [(s2, r2 if isinstance(r2, Raise) else not r2) for s2, r2 in self.cond(e.operand, st, ctx)]]

        def f(s, v):
            if isinstance(e.op, ast.USub):
                return self.binop("-", c(0), v, s, ctx, e)
            if isinstance(e.op, ast.UAdd):
                return [(s, v)]
            if is_c(v) and isinstance(v[2], int):
                return [(s, c(~v[2]))]
            return [(s, ("t", "~", v))]
        return self.bind(self.eval(e.operand, st, ctx), f)

    def e_BinOp(self, e, st, ctx):
        op = BINOPS.get(type(e.op), "?")
        return self.bind(self.eval(e.left, st, ctx), lambda s, a: self.bind(
            self.eval(e.right, s, ctx), lambda s2, b: self.binop(op, a, b, s2, ctx, e)))

    def binop(self, op, a, b, st, ctx, node):
        bad = None
        for v in (a, b):
            if v == NONE:
                bad = v
            if v[0] in ("f", "k", "m") or (v[0] == "o" and self.h(st, v).kind in ("inst", "dict")
                                            and not self.h(st, v).open):
                bad = v
        if bad is not None and not (op == "%" and is_c(a) and isinstance(a[2], str)):
            return [(st, Raise("TypeError", self.where(ctx, node), True, "operator '%s' applied to %s" % (op, self.describe(bad, st))))]
        out, cur = [], [st]
        for v in (a, b):
            if self.nullable(v):
                nxt = []
                for s in cur:
                    for s2, isn in self.none_atom(v, s):
                        if isn:
                            out.append((s2, Raise("TypeError", self.where(ctx, node), True, "operator '%s' applied to %s which can be None" % (op, self.describe(v, s2)))))
                        else:
                            nxt.append(s2)
                cur = nxt
        for s in cur:
            out.append((s, self.arith(op, a, b, s, ctx, node)))
        return out

    def arith(self, op, a, b, st, ctx, node):
        if a[0] == "c" and b[0] == "c":
            x, y = a[2], b[2]
            try:
                if op == "+":
                    return c(x + y)
                if op == "-":
                    return c(x - y)
                if op == "*":
                    if isinstance(x, (str, bytes)) and isinstance(y, int) and y > 10000:
                        return ("t", "*", a, b)
                    return c(x * y)
                if op == "/":
                    return c(x / y)
                if op == "//":
                    return c(x // y)
                if op == "%":
                    return c(x % y)
                if op == "&":
                    return c(x & y)
                if op == "|":
                    return c(x | y)
                if op == "^":
                    return c(x ^ y)
                if op == "<<":
                    return c(x << y)
                if op == ">>":
                    return c(x >> y)
                if op == "**":
                    return c(x ** y)
            except ZeroDivisionError:
                return Raise("ZeroDivisionError", self.where(ctx, node), True, "division by zero")
            except Exception as ex:
                return Raise(type(ex).__name__, self.where(ctx, node), True, "operator '%s' on %r and %r" % (op, x, y))
        for v in (a, b):
            if v[0] == "o" and self.h(st, v).kind == "list":
                if op == "+":
                    xa, xb = self.seq_items(a, st), self.seq_items(b, st)
                    if xa is not None and xb is not None:
                        return self.mklist(st, xa + xb)
                if op == "*" and is_c(b) and isinstance(b[2], int):
                    xa = self.seq_items(a, st)
                    if xa is not None and len(xa) * b[2] < 5000:
                        return self.mklist(st, xa * b[2])
                return ("t", op, a, b)
        if a[0] == "tup" and b[0] == "tup" and op == "+":
            return tup(*(a[1] + b[1]))
        if a[0] == "tup" and op == "*" and is_c(b) and isinstance(b[2], int):
            return tup(*(a[1] * b[2]))
        strish = any((is_c(v) and isinstance(v[2], str)) or (v[0] == "t" and v[1] in ("fmt", "str", "repr"))
                     or self.types.get(v) == "str" for v in (a, b))
        if strish:
            if op == "+":
                return self.fmt([a, b])
            return ("t", op, a, b)
        if op in ("+", "-"):
            ka, da = self.to_lin(a)
            kb, db = self.to_lin(b)
            if not isinstance(ka, (int, float, Fraction)) or not isinstance(kb, (int, float, Fraction)):
                return ("t", op, a, b)
            s = 1 if op == "+" else -1
            d = dict(da)
            for t, co in db.items():
                d[t] = d.get(t, 0) + s * co
            return self.from_lin(ka + s * kb, d)
        if op == "*":
            for x, y in ((a, b), (b, a)):
                if is_num(x) and (not is_c(y)):
                    k, d = self.to_lin(y)
                    m = x[2]
                    return self.from_lin(k * m, {t: co * m for t, co in d.items()})
            p, q = sorted((a, b), key=repr)
            return ("t", "*", p, q)
        if op == "<<" and is_num(b) and isinstance(b[2], int):
            return self.arith("*", a, c(2 ** b[2]), st, ctx, node)
        if op == ">>" and is_num(b) and isinstance(b[2], int):
            return self.mkdiv(a, c(2 ** b[2]), st)
        if op == "&":
            for x, y in ((a, b), (b, a)):
                if is_num(x) and isinstance(x[2], int) and x[2] > 0 and (x[2] & (x[2] + 1)) == 0:
                    return self.mkmod(y, c(x[2] + 1), st)
            p, q = sorted((a, b), key=repr)
            return ("t", "&", p, q)
        if op == "|":
            for x, y in ((a, b), (b, a)):
                kx, dx = self.to_lin(x)
                lo, hi = self.interval(y, st)
                if lo is not None and hi is not None and lo >= 0 and dx and hi < 2 ** 20:
                    m = 1
                    while m <= hi:
                        m *= 2
                    if isinstance(kx, int) and kx % m == 0 and all(isinstance(co, int) and co % m == 0 for co in dx.values()):
                        return self.arith("+", x, y, st, ctx, node)
            p, q = sorted((a, b), key=repr)
            return ("t", "|", p, q)
        if op == "//":
            if is_num(b) and b[2] == 0:
                return Raise("ZeroDivisionError", self.where(ctx, node), True, "division by zero")
            return self.mkdiv(a, b, st)
        if op == "%":
            if is_num(b) and b[2] == 0:
                return Raise("ZeroDivisionError", self.where(ctx, node), True, "modulo by zero")
            return self.mkmod(a, b, st)
        if op == "/":
            if is_num(b):
                if b[2] == 0:
                    return Raise("ZeroDivisionError", self.where(ctx, node), True, "division by zero")
                if b[2] == 1:
                    return a
        return ("t", op, a, b)

    def mkmod(self, a, m, st):
        if is_num(m) and m[2] > 0:
            lo, hi = self.interval(a, st)
            if lo is not None and hi is not None and lo >= 0 and hi < m[2]:
                return a
            # (x*m + y) % m == y % m
            k, d = self.to_lin(a)
            if isinstance(m[2], int) and isinstance(k, int) and all(isinstance(co, int) for co in d.values()):
                d2 = {t: co % m[2] if co % m[2] <= m[2] // 2 or co > 0 else co for t, co in d.items()}
                d2 = {t: (0 if co % m[2] == 0 else co) for t, co in d.items()}
                a2 = self.from_lin(k % m[2] if d2 != d else k, d2)
                if a2 != a:
                    if is_num(a2):
                        return c(a2[2] % m[2])
                    return self.mkmod(a2, m, st)
            if a[0] == "t" and a[1] == "%" and is_num(a[3]) and a[3][2] % m[2] == 0:
                return self.mkmod(a[2], m, st)
        return ("t", "%", a, m)

    def mkdiv(self, a, m, st):
        if is_num(m) and m[2] > 0:
            if m[2] == 1:
                return a if self.is_int(a) else ("t", "floor", a)
            lo, hi = self.interval(a, st)
            if lo is not None and hi is not None and lo >= 0 and hi < m[2]:
                return c(0)
            k, d = self.to_lin(a)
            if isinstance(m[2], int) and isinstance(k, int) and all(isinstance(co, int) for co in d.values()):
                mul = {t: co // m[2] for t, co in d.items() if co % m[2] == 0}
                rest = {t: co for t, co in d.items() if co % m[2] != 0}
                if mul and all(self.is_int(t) for t in mul):
                    r = self.from_lin(k, rest)
                    q = self.mkdiv(r, m, st) if not is_num(r) else c(r[2] // m[2])
                    kq, dq = self.to_lin(q)
                    for t, co in mul.items():
                        dq[t] = dq.get(t, 0) + co
                    return self.from_lin(kq, dq)
        return ("t", "//", a, m)

    def e_Compare(self, e, st, ctx):
        return [(s, r if isinstance(r, Raise) else c(r)) for s, r in self.compare_chain(e, st, ctx)]

    def compare_chain(self, e, st, ctx):
        out = []
        first = self.eval(e.left, st, ctx)

        def step(s, left, i):
            res = []
            for s2, right in self.eval(e.comparators[i], s, ctx):
                if isinstance(right, Raise):
                    res.append((s2, right))
                    continue
                for s3, r in self.compare(e.ops[i], left, right, s2, ctx, e):
                    if isinstance(r, Raise) or not r or i == len(e.ops) - 1:
                        res.append((s3, r))
                    else:
                        res += step(s3, right, i + 1)
            return res
        for s, l in first:
            if isinstance(l, Raise):
                out.append((s, l))
            else:
                out += step(s, l, 0)
        return out

    def compare(self, op, a, b, st, ctx, node):
        n = type(op).__name__
        neg = lambda rs: [(s, r if isinstance(r, Raise) else not r) for s, r in rs]
        if n == "Eq":
            return self.equal(a, b, st, ctx)
        if n == "NotEq":
            return neg(self.equal(a, b, st, ctx))
        if n == "Is":
            return self.identical(a, b, st, ctx)
        if n == "IsNot":
            return neg(self.identical(a, b, st, ctx))
        if n == "Lt":
            return self.less(a, b, True, st, ctx, node)
        if n == "LtE":
            return self.less(a, b, False, st, ctx, node)
        if n == "Gt":
            return self.less(b, a, True, st, ctx, node)
        if n == "GtE":
            return self.less(b, a, False, st, ctx, node)
        if n == "In":
            return self.contains(a, b, st, ctx, node)
        return neg(self.contains(a, b, st, ctx, node))

    def identical(self, a, b, st, ctx):
        if a == b:
            return [(st, True)]
        if a[0] == "o" and b[0] == "o":
            return [(st, False)]
        if a == NONE or b == NONE:
            return self.none_atom(b if a == NONE else a, st)
        if a[0] == "c" and b[0] == "c":
            return [(st, a[1] == b[1] and a[2] == b[2])]
        return self.equal(a, b, st, ctx)

    def contains(self, x, cont, st, ctx, node):
        if cont == NONE:
            return [(st, Raise("TypeError", self.where(ctx, node), True, "membership test on None"))]
        if cont[0] == "c" and x[0] == "c":
            try:
                return [(st, x[2] in cont[2])]
            except TypeError as ex:
                return [(st, Raise("TypeError", self.where(ctx, node), True, str(ex)))]
        if cont[0] == "o":
            o = self.h(st, cont)
            if o.kind in ("dict", "set", "list") and o.items is not None:
                items = list(o.items)
                cur, out = [st], []
                for it in items:
                    nxt = []
                    for s in cur:
                        for s2, r in self.equal(x, it, s, ctx):
                            if r:
                                out.append((s2, True))
                            else:
                                nxt.append(s2)
                    cur = nxt
                    if not cur:
                        break
                for s in cur:
                    if o.open:
                        out += self.decide(("in", x, cont), s)
                    else:
                        out.append((s, False))
                return out
            if o.kind == "inst" and isinstance(o.cls, ClassInfo) and o.cls.find("__contains__"):
                return self.bind_truth(self.call(self.fv(o.cls.find("__contains__"), None, cont), [x], {}, st, ctx, node))
        seq = self.seq_items(cont, st)
        if seq is not None:
            return self.contains(x, self.mklist(st, seq), st, ctx, node)
        out = []
        for s, ok in self.null_guard(cont, st, ctx, node, "membership test"):
            if isinstance(ok, Raise):
                ok.exc = "TypeError"
                out.append((s, ok))
            elif (cont, ("in", x)) in s.sym:
                out.append((s, s.sym[(cont, ("in", x))] == TRUE))
            else:
                out += self.decide(("in", x, cont), s)
        return out

    def bind_truth(self, res):
        out = []
        for s, v in res:
            if isinstance(v, Raise):
                out.append((s, v))
            else:
                out += self.truth(v, s)
        return out

    def e_Subscript(self, e, st, ctx):
        if isinstance(e.slice, ast.Slice):
            parts = [p for p in (e.slice.lower, e.slice.upper, e.slice.step)]
            exprs = [p if p is not None else ast.Constant(None) for p in parts]
            return self.bind(self.eval(e.value, st, ctx), lambda s, b: [
                (s2, vs if isinstance(vs, Raise) else self.slice(b, vs, s2, ctx, e))
                for s2, vs in self.eval_list(exprs, s, ctx)])
        return self.bind(self.eval(e.value, st, ctx), lambda s, b: self.bind(
            self.eval(e.slice, s, ctx), lambda s2, i: self.get_item(b, i, s2, ctx, e)))

    def slice(self, b, vs, st, ctx, node):
        if b == NONE:
            return Raise("TypeError", self.where(ctx, node), True, "slice of None")
        seq = self.seq_items(b, st)
        if seq is not None and all(is_c(v) for v in vs):
            r = seq[slice(*[v[2] for v in vs])]
            if b[0] == "c":
                return c(b[2][slice(*[v[2] for v in vs])])
            if b[0] == "tup":
                return tup(*r)
            return self.mklist(st, r)
        return ("t", "slice", b, *vs)

    def get_item(self, b, i, st, ctx, node):
        if b == NONE:
            return [(st, Raise("TypeError", self.where(ctx, node), True, "subscript of None"))]
        if b[0] == "o":
            o = self.h(st, b)
            if o.kind == "dict":
                if i in o.items:
                    return [(st, o.items[i])]
                if is_c(i) and not o.open and all(is_c(k) for k in o.items):
                    for k in o.items:
                        if k[2] == i[2]:
                            return [(st, o.items[k])]
                    return [(st, Raise("KeyError", self.where(ctx, node), True, "missing key %r" % (i[2],)))]
                if o.open:
                    return [(st, ("t", "idx", b, i))]
                out, cur = [], [st]
                for k in list(o.items):
                    nxt = []
                    for s in cur:
                        for s2, r in self.equal(i, k, s, ctx):
                            if r:
                                out.append((s2, o.items[k]))
                            else:
                                nxt.append(s2)
                    cur = nxt
                    if len(out) > 300:
                        break
                for s in cur:
                    out.append((s, Raise("KeyError", self.where(ctx, node), True, "key %s not in dict" % self.describe(i, s))))
                return out
        seq = self.seq_items(b, st)
        if seq is not None:
            if is_c(i):
                try:
                    return [(st, seq[i[2]])]
                except IndexError:
                    return [(st, Raise("IndexError", self.where(ctx, node), True, "index %r of %d" % (i[2], len(seq))))]
                except TypeError:
                    return [(st, Raise("TypeError", self.where(ctx, node), True, "index %r" % (i[2],)))]
            out = []
            lo, hi = self.interval(i, st)
            if self.nullable(i):
                for s, isn in self.none_atom(i, st):
                    if isn:
                        out.append((s, Raise("TypeError", self.where(ctx, node), True, "index %s which can be None" % self.describe(i, s))))
                    else:
                        st = s
            if lo is not None and lo >= 0 and hi is not None and hi < len(seq):
                return out + [(st, ("t", "idx", b, i))]
            for s, r in self.less(i, c(len(seq)), True, st, ctx, node):
                if isinstance(r, Raise):
                    out.append((s, r))
                elif r:
                    for s2, r2 in self.less(i, c(-len(seq)), True, s, ctx, node):
                        if r2 is True:
                            out.append((s2, Raise("IndexError", self.where(ctx, node), True, "index %s may be below range" % self.describe(i, s2))))
                        else:
                            out.append((s2, ("t", "idx", b, i)))
                else:
                    out.append((s, Raise("IndexError", self.where(ctx, node), True, "index %s may exceed length %d" % (self.describe(i, s), len(seq)))))
            return out
        if b[0] == "o":
            o = self.h(st, b)
            if o.kind == "inst" and isinstance(o.cls, ClassInfo) and o.cls.find("__getitem__"):
                return self.call(self.fv(o.cls.find("__getitem__"), None, b), [i], {}, st, ctx, node)
            if o.kind == "inst" and "[list]" in o.attrs:
                return self.get_item(o.attrs["[list]"], i, st, ctx, node)
        out = []
        for s, ok in self.null_guard(b, st, ctx, node, "subscript"):
            if isinstance(ok, Raise):
                ok.exc = "TypeError"
                out.append((s, ok))
            elif (b, ("idx", i)) in s.sym:
                out.append((s, s.sym[(b, ("idx", i))]))
            else:
                done = False
                for hk in self.attr_hooks:
                    r = hk(self, s, b, ("idx", i), ctx, node)
                    if r is not None:
                        out += r
                        done = True
                        break
                if not done:
                    out.append((s, ("t", "idx", b, i)))
        return out

    def set_item(self, b, i, v, st, ctx, node):
        if b == NONE:
            return [(st, Raise("TypeError", self.where(ctx, node), True, "item assignment on None"))]
        if b[0] == "o":
            o = self.h(st, b)
            if o.kind == "inst" and isinstance(o.cls, ClassInfo) and o.cls.find("__setitem__"):
                return [(s, r if isinstance(r, Raise) else None) for s, r in self.call(self.fv(o.cls.find("__setitem__"), None, b), [i, v], {}, st, ctx, node)]
            if o.kind == "inst" and "[list]" in o.attrs:
                return self.set_item(o.attrs["[list]"], i, v, st, ctx, node)
            o = self.hw(st, b)
            if o.static:
                st.emit("static_write", b, ("idx", i), (v,), {}, None, st.facts, self.where(ctx, node))
            if o.kind == "dict":
                o.items[i] = v
            elif o.kind == "list" and o.items is not None:
                if is_c(i) and isinstance(i[2], int) and -len(o.items) <= i[2] < len(o.items):
                    o.items[i[2]] = v
                elif is_c(i):
                    return [(st, Raise("IndexError", self.where(ctx, node), True, "assignment index %r of %d" % (i[2], len(o.items))))]
                else:
                    o.items = [("t", "upd", x, i, v) for x in o.items]
            st.emit("idxset", b, i, (v,), {}, None, st.facts, self.where(ctx, node))
            return [(st, None)]
        out = []
        for s, ok in self.null_guard(b, st, ctx, node, "item assignment"):
            if isinstance(ok, Raise):
                out.append((s, ok))
                continue
            s.sym[(b, ("idx", i))] = v
            s.sym[(b, ("in", i))] = TRUE
            s.emit("idxset", b, i, (v,), {}, None, s.facts, self.where(ctx, node))
            out.append((s, None))
        return out

    # ------------------------------------------------------------------ comprehensions
    def e_ListComp(self, e, st, ctx):
        return self.comp(e, st, ctx, "list")

    def e_GeneratorExp(self, e, st, ctx):
        return self.comp(e, st, ctx, "list")

    def e_SetComp(self, e, st, ctx):
        return self.comp(e, st, ctx, "set")

    def comp(self, e, st, ctx, kind):
        fr = self.alloc(st, HObj("frame", cls=ctx.frame, items=[]))
        c2 = Ctx(ctx.module, ctx.cls, fr[1], ctx.fi, (), ctx.globs, ctx.classbody)
        res = self.comp_gen(e, 0, st, c2, [], e.generators)
        out = []
        for s, v in res:
            if isinstance(v, Raise):
                out.append((s, v))
            else:
                items, op = v
                if op is not None:
                    out.append((s, ("t", "comp", op) if False else self.alloc(s, HObj(kind, items=None, open=True, label=None, attrs={"elem": op}))))
                else:
                    out.append((s, self.alloc(s, HObj(kind, items=items))))
        return out

    def comp_gen(self, e, gi, st, ctx, acc, gens):
        """returns [(st, (items, openelem))]"""
        if gi == len(gens):
            return [(s, v if isinstance(v, Raise) else (acc + [v], None)) for s, v in self.eval(e.elt, st, ctx)]
        g = gens[gi]
        out = []
        for s, it in self.eval(g.iter, st, ctx):
            if isinstance(it, Raise):
                out.append((s, it))
                continue
            seq = self.iter_items(it, s, ctx, g)
            if isinstance(seq, Raise):
                out.append((s, seq))
                continue
            if seq is None:
                # unknown size: analyse element expression for an arbitrary element
                el = self.generic_elem(it, s)
                for s2, r in self.assign(g.target, el, s, ctx):
                    if isinstance(r, Raise):
                        out.append((s2, r))
                        continue
                    for s3, ok in self.conds(g.ifs, s2, ctx):
                        if isinstance(ok, Raise):
                            out.append((s3, ok))
                        elif ok:
                            for s4, v in self.comp_gen(e, gi + 1, s3, ctx, acc, gens):
                                if isinstance(v, Raise):
                                    out.append((s4, v))
                                else:
                                    out.append((s4, (None, v[0][-1] if v[0] else v[1])))
                        else:
                            out.append((s3, (None, NONE)))
                continue
            cur = [(s, acc, None)]
            for el in seq:
                nxt = []
                for s1, ac, opn in cur:
                    for s2, r in self.assign(g.target, el, s1, ctx):
                        if isinstance(r, Raise):
                            out.append((s2, r))
                            continue
                        for s3, ok in self.conds(g.ifs, s2, ctx):
                            if isinstance(ok, Raise):
                                out.append((s3, ok))
                            elif ok:
                                for s4, v in self.comp_gen(e, gi + 1, s3, ctx, ac or [], gens):
                                    if isinstance(v, Raise):
                                        out.append((s4, v))
                                    else:
                                        nxt.append((s4, v[0], v[1] if v[1] is not None else opn))
                            else:
                                nxt.append((s3, ac, opn))
                cur = nxt
            out += [(s1, (ac, opn)) for s1, ac, opn in cur]
        return out

    def conds(self, ifs, st, ctx):
        cur, out = [st], []
        for x in ifs:
            nxt = []
            for s in cur:
                for s2, r in self.cond(x, s, ctx):
                    if isinstance(r, Raise):
                        out.append((s2, r))
                    elif r:
                        nxt.append(s2)
                    else:
                        out.append((s2, False))
            cur = nxt
        return out + [(s, True) for s in cur]

    def e_DictComp(self, e, st, ctx):
        fr = self.alloc(st, HObj("frame", cls=ctx.frame, items=[]))
        c2 = Ctx(ctx.module, ctx.cls, fr[1], ctx.fi, (), ctx.globs, ctx.classbody)
        e2 = ast.copy_location(ast.ListComp(ast.Tuple([e.key, e.value], ast.Load()), e.generators), e)
        out = []
        for s, v in self.comp_gen(e2, 0, st, c2, [], e.generators):
            if isinstance(v, Raise):
                out.append((s, v))
            elif v[1] is not None or v[0] is None:
                out.append((s, self.alloc(s, HObj("dict", items={}, open=True))))
            else:
                out.append((s, self.alloc(s, HObj("dict", items={t[1][0]: t[1][1] for t in v[0]}))))
        return out

    def iter_items(self, it, st, ctx, node):
        if it == NONE:
            return Raise("TypeError", self.where(ctx, node.iter if hasattr(node, "iter") else node), True, "iterating None")
        if it[0] == "c" and not isinstance(it[2], (str, bytes)):
            return Raise("TypeError", self.where(ctx, node.iter if hasattr(node, "iter") else node), True, "iterating %r" % (it[2],))
        if it[0] in ("enum", "zip", "rev"):
            if it[0] == "enum":
                q = self.iter_items(it[1], st, ctx, node)
                return q if q is None or isinstance(q, Raise) else [tup(c(i), x) for i, x in enumerate(q)]
            if it[0] == "rev":
                q = self.iter_items(it[1], st, ctx, node)
                return q if q is None or isinstance(q, Raise) else q[::-1]
            qs = [self.iter_items(x, st, ctx, node) for x in it[1:]]
            for q in qs:
                if q is None or isinstance(q, Raise):
                    return q
            return [tup(*z) for z in zip(*qs)]
        return self.seq_items(it, st)

    def generic_elem(self, it, st, first=False):
        if it[0] == "range":
            lo, hi = (c(0), it[1]) if len(it) == 2 else (it[1], it[2])
            if first:
                return lo
            v = ("s", "i@%d" % st.count("rangevar"))
            self.types[v] = "int"
            l0, _ = self.interval(lo, st)
            _, h1 = self.interval(hi, st)
            self.bounds[v] = (l0, None if h1 is None else h1 - 1)
            # relational bound i < hi
            bv, sgn, kk = self.canon_cmp(v, hi)
            if bv is not None:
                if sgn > 0:
                    st.fact(("lt", bv, kk), True)
                else:
                    st.fact(("le", bv, kk), False)
            return v
        if it[0] == "enum":
            i = c(0) if first else ("s", "i@%d" % st.count("rangevar"))
            return tup(i, ("t", "idx", it[1], i))
        if it[0] == "zip":
            i = c(0) if first else ("s", "i@%d" % st.count("rangevar"))
            return tup(*[("t", "idx", x, i) for x in it[1:]])
        if it[0] == "rev":
            return ("t", "idx", it[1], c(-1) if first else ("s", "i@%d" % st.count("rangevar")))
        if it[0] == "o":
            o = self.h(st, it)
            if "elem" in o.attrs and o.attrs["elem"] is not None:
                return o.attrs["elem"]
        return ("t", "idx", it, c(0) if first else ("s", "i@%d" % st.count("rangevar")))

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st, ctx):
        out = []
        self.callsites.add((ctx.module.rel, e.lineno, e.col_offset))

        def with_args(s, fv):
            res = []
            kws = [k for k in e.keywords]
            for s2, vs in self.eval_list(list(e.args) + [k.value for k in kws], s, ctx):
                if isinstance(vs, Raise):
                    res.append((s2, vs))
                    continue
                n = len(vs) - len(kws)
                kwargs = {}
                for k, v in zip(kws, vs[n:]):
                    if k.arg is None:
                        if v[0] == "o" and self.h(s2, v).kind == "dict":
                            for kk, vv in self.h(s2, v).items.items():
                                kwargs[kk[2]] = vv
                    else:
                        kwargs[k.arg] = v
                res += self.call(fv, vs[:n], kwargs, s2, ctx, e)
            return res
        if isinstance(e.func, ast.Attribute):
            name = mangle(e.func.attr, ctx.cls)
            return self.bind(self.eval(e.func.value, st, ctx), lambda s, b: self.call_attr(b, name, s, ctx, e, with_args))
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            if ctx.frame is not None and ctx.cls is not None:
                fr = ctx.frame
                selfv = None
                while fr is not None and selfv is None:
                    h = self.h(st, ("o", fr))
                    selfv = h.attrs.get("self", None)
                    if selfv is None and h.label:
                        selfv = h.attrs.get(h.label)
                    fr = h.cls
                if selfv is not None:
                    return [(st, ("super", selfv, ctx.cls.qual))]
        return self.bind(self.eval(e.func, st, ctx), with_args)

    def call_attr(self, b, name, st, ctx, e, with_args):
        """method call; unresolved receivers become events"""
        if b[0] in ("s", "t", "r") or (b[0] == "o" and self.h(st, b).kind == "inst"):
            def run(s, f):
                if f[0] == "t" and f[1] == "attr" and f[2] == b:
                    return with_args(s, ("mcall", b, name))
                return with_args(s, f)
            return self.bind(self.get_attr(b, name, st, ctx, e.func), run)
        return self.bind(self.get_attr(b, name, st, ctx, e.func), with_args)

    def call(self, f, args, kwargs, st, ctx, node):
        k = f[0]
        for hk in self.call_hooks:
            r = hk(self, f, args, kwargs, st, ctx, node)
            if r is not None:
                return r
        if k == "f":
            return self.call_fn(f, args, kwargs, st, ctx, node)
        if k == "k":
            return self.instantiate(self.classes[f[1]], args, kwargs, st, ctx, node)
        if k == "b":
            return self.call_builtin(f[1], args, kwargs, st, ctx, node)
        if k == "bm":
            return self.call_bm(f[1], f[2], args, kwargs, st, ctx, node)
        if k == "x":
            return self.call_ext(f[1], args, kwargs, st, ctx, node)
        if k == "mcall":
            return self.opaque(f[1], f[2], args, kwargs, st, ctx, node)
        if k == "t" and f[1] == "attr":
            return self.call(("mcall", f[2], f[3]), args, kwargs, st, ctx, node)
        if f == NONE or k in ("c", "tup", "lin"):
            return [(st, Raise("TypeError", self.where(ctx, node), True, "%s is not callable" % self.describe(f, st)))]
        if k == "o":
            o = self.h(st, f)
            if isinstance(o.cls, ClassInfo) and o.cls.find("__call__"):
                return self.call_fn(self.fv(o.cls.find("__call__"), None, f), args, kwargs, st, ctx, node)
        out = []
        for s, ok in self.null_guard(f, st, ctx, node, "call"):
            if isinstance(ok, Raise):
                out.append((s, ok))
            else:
                out += self.opaque(f, "()", args, kwargs, s, ctx, node)
        return out

    def opaque(self, recv, name, args, kwargs, st, ctx, node):
        label = "%s.%s" % (self.describe(recv, st), name)
        res = self.fresh(st, label)
        st.emit("call", recv, name, tuple(args), dict(kwargs), res, st.facts, self.where(ctx, node) if ctx else "")
        return [(st, res)]

    def call_fn(self, f, args, kwargs, st, ctx, node):
        fi = self.fns[f[1]]
        if f[3] is not None and not fi.is_static:
            args = [f[3]] + list(args)
        hk = self.hooks.get(fi.qual)
        if hk is not None:
            r = hk(self, st, args, kwargs, ctx, node)
            if r is not None:
                return r
        if self.depth >= self.depth_limit or self.stack.count(fi.qual) >= self.rec_limit:
            return self.opaque(("s", "deep"), fi.qual, args, kwargs, st, ctx, node)
        n = fi.node
        a = n.args
        params = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        where = self.where(ctx, node) if ctx and node is not None else fi.where
        env = {}
        if len(args) > len(params):
            if a.vararg:
                env[a.vararg.arg] = tup(*args[len(params):])
                args = args[:len(params)]
            else:
                return [(st, Raise("TypeError", where, True, "%s() takes %d positional arguments but %d were given" % (fi.name, len(params), len(args))))]
        elif a.vararg:
            env[a.vararg.arg] = tup()
        for p, v in zip(params, args):
            env[p] = v
        extra = {}
        for kn, v in kwargs.items():
            if kn in params or kn in kwonly:
                if kn in env:
                    return [(st, Raise("TypeError", where, True, "%s() got multiple values for argument '%s'" % (fi.name, kn)))]
                env[kn] = v
            elif a.kwarg:
                extra[c(kn)] = v
            else:
                return [(st, Raise("TypeError", where, True, "%s() got an unexpected keyword argument '%s'" % (fi.name, kn)))]
        if a.kwarg:
            env[a.kwarg.arg] = self.alloc(st, HObj("dict", items=extra))
        nd = len(a.defaults)
        dparams = params[len(params) - nd:] if nd else []
        for i, p in enumerate(dparams):
            if p not in env:
                env[p] = self.default_value(fi, i, a.defaults[i], f)
        j = nd
        for i, p in enumerate(kwonly):
            if a.kw_defaults[i] is not None:
                if p not in env:
                    env[p] = self.default_value(fi, j, a.kw_defaults[i], f)
                j += 1
        missing = [p for p in params + kwonly if p not in env]
        if missing:
            return [(st, Raise("TypeError", where, True, "%s() missing required argument '%s'" % (fi.name, missing[0])))]
        if id(n) not in self._locs:
            self._locs[id(n)] = _locals_of(n)
        locs, globs = self._locs[id(n)]
        fr = self.alloc(st, HObj("frame", cls=f[2], attrs=env, label=params[0] if params and fi.cls else None))
        self.visited.add(fi.qual)
        st.emit("enter", args[0] if args and fi.cls is not None and not fi.is_static else None, fi.qual, tuple(args), dict(kwargs), None, st.facts, where)
        c2 = Ctx(fi.module, fi.cls, fr[1], fi, locs, globs)
        self.depth += 1
        self.stack.append(fi.qual)
        try:
            if isinstance(n, ast.Lambda):
                return self.eval(n.body, st, c2)
            out = []
            for s, ctl in self.block(n.body, st, c2):
                if ctl is None:
                    out.append((s, NONE))
                elif ctl[0] == "ret":
                    out.append((s, ctl[1]))
                elif ctl[0] == "raise":
                    out.append((s, ctl[1]))
                else:
                    out.append((s, NONE))
            return self.merge(out)
        finally:
            self.depth -= 1
            self.stack.pop()

    def merge(self, outs):
        """joins partitions that are identical up to facts (keeps only the common facts)"""
        if len(outs) < 2 or len(outs) > 400 or self.no_merge:
            return outs
        res = []
        for s, v in outs:
            for i, (s2, v2) in enumerate(res):
                if v2 is v or (not isinstance(v, Raise) and v == v2):
                    if s2.events is s.events and s2.cut == s.cut and s2.sym == s.sym and self.same_heap(s, s2) and s2.counts == s.counts:
                        f1, f2 = s2.facts, s.facts
                        if f1 is not f2:
                            s2.facts = {a: b for a, b in f1.items() if f2.get(a, None) == b and a in f2}
                        break
            else:
                res.append((s, v))
        return res

    def same_heap(self, a, b):
        for i, o in a.heap.items():
            p = b.heap.get(i)
            if p is o:
                continue
            if p is None:
                if o.kind == "frame":
                    continue
                return False
            if o.kind == "frame" and i not in self._live_frames(a):
                continue
            if p.attrs != o.attrs or p.items != o.items:
                return False
        for i, o in b.heap.items():
            if i not in a.heap and o.kind != "frame":
                return False
        return True

    def _live_frames(self, st):
        return ()

    def default_value(self, fi, i, expr, f):
        if f[4] is not None:
            return f[4][i]
        return self.static_eval(("def", fi.qual, id(fi.node), i), expr, fi.module, fi.cls, "%s.<default %d>" % (fi.qual, i),
                                classbody=fi.cls)

    def instantiate(self, ci, args, kwargs, st, ctx, node, label=None):
        hk = self.hooks.get(ci.qual)
        if hk is not None:
            r = hk(self, st, args, kwargs, ctx, node)
            if r is not None:
                return r
        o = self.alloc(st, HObj("inst", cls=ci, label=label))
        if "list" in ci.external_bases:
            st.heap[o[1]].attrs["[list]"] = self.mklist(st, [])
        st.emit("new", o, ci.qual, tuple(args), dict(kwargs), o, st.facts, self.where(ctx, node) if ctx and node is not None else "")
        init = ci.find("__init__")
        if init is None:
            ext = [b for b in ci.external_bases if b not in ("object", "Exception")]
            if (args or kwargs) and not ext and "Exception" not in ci.external_bases:
                return [(st, Raise("TypeError", self.where(ctx, node) if ctx else "", True, "%s() takes no arguments" % ci.name))]
            if ext:
                self.ext_init(ext[0], ci, o, args, kwargs, st, ctx)
            return [(st, o)]
        return [(s, r if isinstance(r, Raise) else o) for s, r in
                self.call_fn(self.fv(init, None, o), list(args), kwargs, st, ctx, node)]

    def ext_name(self, ci):
        """dotted name of the first external base of a class"""
        for cc in ci.mro:
            for b in cc.node.bases:
                r = self.p.resolve_expr(cc.module, b)
                if isinstance(r, tuple) and r and r[0] == "ext":
                    return r[1]
                if r is None and isinstance(b, ast.Attribute):
                    return ast.unparse(b)
        return None

    def ext_init(self, base, ci, o, args, kwargs, st, ctx):
        dotted = self.ext_name(ci)
        m = self.ext_models.get(dotted)
        if m:
            h = self.hw(st, o)
            for p, v in zip(m, args):
                h.attrs[p] = v
            for p, v in kwargs.items():
                h.attrs[p] = v
            for p in m:
                h.attrs.setdefault(p, NONE)
            self.ext_bytes(dotted, h, st)

    def ext_bytes(self, dotted, h, st):
        """the MIDI library stores these fields as bytes"""
        for a in self.ext_byte_fields.get(dotted, ()):
            v = h.attrs.get(a)
            if v is not None and v[0] == "o":
                it = self.seq_items(v, st)
                if it is not None:
                    h.attrs[a] = tup(*it)

    def call_ext(self, dotted, args, kwargs, st, ctx, node):
        hk = self.hooks.get(dotted)
        if hk is not None:
            r = hk(self, st, args, kwargs, ctx, node)
            if r is not None:
                return r
        if dotted == "micropython.const":
            return [(st, args[0])]
        if dotted == "array.array":
            if len(args) == 1:
                return [(st, self.mklist(st, []))]
            seq = self.seq_items(args[1], st)
            if seq is not None:
                return [(st, self.mklist(st, seq))]
            o = self.h(st, args[1]) if args[1][0] == "o" else None
            return [(st, self.alloc(st, HObj("list", items=None, open=True, attrs=dict(o.attrs) if o else {})))]
        if dotted in ("math.floor", "math.ceil", "math.trunc"):
            return self.num1("floor" if dotted.endswith("floor") else ("int" if dotted.endswith("trunc") else "ceil"), args[0], st, ctx, node)
        if dotted.startswith("math.") and args and not kwargs and all(is_num(a) for a in args) and hasattr(math, dotted[5:]):
            try:
                return [(st, c(getattr(math, dotted[5:])(*[a[2] for a in args])))]
            except Exception as ex:
                return [(st, Raise(type(ex).__name__, self.where(ctx, node), True, str(ex)))]
        if dotted in ("re.findall", "re.sub", "re.split", "re.escape") and not kwargs and all(a[0] == "c" for a in args):
            try:
                r = getattr(_re, dotted[3:])(*[a[2] for a in args])
            except Exception as ex:
                return [(st, Raise(type(ex).__name__, self.where(ctx, node), True, str(ex)))]
            return [(st, self.mklist(st, [c(x) for x in r]) if isinstance(r, list) else c(r))]
        if dotted == "math.pow":
            v = ("t", "pow", *args)
            self.types[v] = "num"
            return [(st, v)]
        if dotted in ("functools.partial",):
            return [(st, ("t", "partial", *args))]
        if dotted == "super:__init__":
            selfv = None
            if ctx.frame is not None:
                selfv = self.h(st, ("o", ctx.frame)).attrs.get("self")
            if selfv and selfv[0] == "o":
                ci = self.h(st, selfv).cls
                if isinstance(ci, ClassInfo):
                    self.ext_init(None, ci, selfv, args, kwargs, st, ctx)
            return [(st, NONE)]
        m = self.ext_models.get(dotted)
        if m is not None:
            o = self.alloc(st, HObj("inst", cls=dotted))
            h = st.heap[o[1]]
            if len(args) > len(m) or any(k not in m for k in kwargs):
                return [(st, Raise("TypeError", self.where(ctx, node), True, "bad arguments for %s" % dotted))]
            for p, v in zip(m, args):
                h.attrs[p] = v
            h.attrs.update(kwargs)
            for p in m:
                h.attrs.setdefault(p, NONE)
            self.ext_bytes(dotted, h, st)
            st.emit("new", o, dotted, tuple(args), dict(kwargs), o, st.facts, self.where(ctx, node))
            return [(st, o)]
        return self.opaque(("x", dotted), "()", args, kwargs, st, ctx, node)

    def num1(self, op, v, st, ctx, node):
        if v == NONE:
            return [(st, Raise("TypeError", self.where(ctx, node), True, "%s(None)" % op))]
        out = []
        if self.nullable(v):
            for s, isn in self.none_atom(v, st):
                if isn:
                    out.append((s, Raise("TypeError", self.where(ctx, node), True, "%s() of %s which can be None" % (op, self.describe(v, s)))))
                else:
                    out += self.num1x(op, v, s, ctx, node)
            return out
        return self.num1x(op, v, st, ctx, node)

    def num1x(self, op, v, st, ctx, node):
        if is_c(v):
            import math
            try:
                return [(st, c({"int": int, "floor": math.floor, "ceil": math.ceil, "round": round, "abs": abs,
                                "float": float}[op](v[2])))]
            except (ValueError, TypeError) as ex:
                return [(st, Raise(type(ex).__name__, self.where(ctx, node), True, "%s(%r)" % (op, v[2])))]
        if v[0] == "o" or v[0] == "tup":
            return [(st, Raise("TypeError", self.where(ctx, node), True, "%s(%s)" % (op, self.describe(v, st))))]
        if op in ("int", "floor", "round", "ceil") and self.is_int(v):
            return [(st, v)]
        if op in ("int", "floor") and v[0] == "t" and v[1] == "/":
            return [(st, self.mkdiv(v[2], v[3], st))]
        if op in ("int",) and v[0] == "t" and v[1] in ("//", "floor"):
            return [(st, v)]
        if op == "float":
            return [(st, v)]
        if op == "abs":
            lo, hi = self.interval(v, st)
            if lo is not None and lo >= 0:
                return [(st, v)]
        return [(st, ("t", op, v))]

    def typename_of(self, v, st):
        if v[0] == "c":
            return v[1]
        if v[0] == "tup":
            return "tuple"
        if v[0] == "o":
            o = self.h(st, v)
            return o.kind if o.kind != "inst" else o.cls
        if v[0] == "lin":
            return "num"
        return self.types.get(v) or self.symcls.get(v)

    def isinstance_(self, v, t, st, ctx, node):
        if t[0] == "tup":
            cur, out = [st], []
            for x in t[1]:
                nxt = []
                for s in cur:
                    for s2, r in self.isinstance_(v, x, s, ctx, node):
                        if r:
                            out.append((s2, True))
                        else:
                            nxt.append(s2)
                cur = nxt
            return out + [(s, False) for s in cur]
        if self.isinst_hook:
            r = self.isinst_hook(self, v, t, st)
            if r is not None:
                return [(st, r)] if isinstance(r, bool) else r
        tn = self.typename_of(v, st)
        if v == NONE:
            return [(st, False)]
        if t[0] == "b":
            name = t[1]
            if tn is None:
                return self.decide(("isinst", v, name), st)
            if isinstance(tn, ClassInfo) or (isinstance(tn, str) and "." in tn):
                return [(st, name == "object")]
            if tn == "num":
                return [(st, True)] if name in ("int", "float") and False else ([(st, False)] if name not in ("int", "float", "bool", "object") else self.decide(("isinst", v, name), st))
            return [(st, tn == name or (tn == "bool" and name == "int") or name == "object")]
        if t[0] == "k":
            ci = self.classes[t[1]]
            if isinstance(tn, ClassInfo):
                if tn.is_sub(ci):
                    return [(st, True)]
                if v[0] == "o" or not ci.is_sub(tn):
                    return [(st, False)]
                return self.decide(("isinst", v, ci.qual), st)
            if tn is None:
                return self.decide(("isinst", v, ci.qual), st)
            return [(st, False)]
        if t[0] == "x":
            if isinstance(tn, ClassInfo):
                names = set()
                for cc in tn.mro:
                    for b in cc.node.bases:
                        r = self.p.resolve_expr(cc.module, b)
                        if isinstance(r, tuple) and r and r[0] == "ext":
                            names.add(r[1])
                return [(st, t[1] in names)]
            if tn is None:
                # mutually exclusive external message classes
                for at, val in st.facts.items():
                    if val and at[0] == "isinst" and at[1] == v and at[2] != t[1] and "." in at[2]:
                        return [(st, False)]
                return self.decide(("isinst", v, t[1]), st)
            return [(st, tn == t[1])]
        return self.decide(("isinst", v, repr(t)), st)

    def has_attr(self, v, name, st):
        if v[0] == "o":
            o = self.h(st, v)
            if o.kind == "inst":
                if name in o.attrs:
                    return [(st, True)]
                if isinstance(o.cls, ClassInfo):
                    if o.cls.find(name) or o.cls.find_attr(name):
                        return [(st, True)]
                    if not o.open and not [b for b in o.cls.external_bases if b != "object"]:
                        return [(st, False)]
                if o.open:
                    return self.decide(("hasattr", v, name), st)
            return [(st, False)]
        if v == NONE or v[0] in ("c", "tup"):
            return [(st, hasattr(v[2] if v[0] == "c" else (), name))]
        if (v, name) in st.sym:
            return [(st, True)]
        ci = self.symcls.get(v)
        if ci is not None and (ci.find(name) or ci.find_attr(name)):
            return [(st, True)]
        return self.decide(("hasattr", v, name), st)

    def call_builtin(self, name, args, kwargs, st, ctx, node):
        if name in EXCS:
            return [(st, ("exc", name, tuple(args)))]
        m = getattr(self, "b_" + name, None)
        if m is not None:
            return m(args, kwargs, st, ctx, node)
        return self.opaque(("b", name), "()", args, kwargs, st, ctx, node)

    def b_dir(self, args, kwargs, st, ctx, node):
        v = args[0] if args else NONE
        names = set(dir(object))
        if v[0] == "k":
            cs = self.classes[v[1]].mro
        elif v[0] == "o" and self.h(st, v).kind == "inst" and isinstance(self.h(st, v).cls, ClassInfo):
            cs = self.h(st, v).cls.mro
            names |= set(self.h(st, v).attrs)
        elif v[0] == "o" and self.h(st, v).kind == "inst" and isinstance(self.h(st, v).cls, str) and not self.h(st, v).open:
            cs = ()
            names |= set(self.h(st, v).attrs)
        elif v[0] == "m":
            return [(st, self.mklist(st, [c(x) for x in sorted(set(self.p.modules[v[1]].bind))]))]
        else:
            return self.opaque(("b", "dir"), "()", args, kwargs, st, ctx, node)
        for q in cs:
            names |= set(q.methods) | set(q.attrs) | set(q.classes)
        return [(st, self.mklist(st, [c(x) for x in sorted(names)]))]

    def b_len(self, args, kwargs, st, ctx, node):
        v = args[0]
        if v == NONE or is_num(v):
            return [(st, Raise("TypeError", self.where(ctx, node), True, "len(%s)" % self.describe(v, st)))]
        seq = self.seq_items(v, st)
        if seq is not None:
            return [(st, c(len(seq)))]
        if v[0] == "o" and self.h(st, v).kind == "inst":
            o = self.h(st, v)
            if isinstance(o.cls, ClassInfo) and o.cls.find("__len__"):
                return self.call(self.fv(o.cls.find("__len__"), None, v), [], {}, st, ctx, node)
            if isinstance(o.cls, ClassInfo) and not o.open and not [b for b in o.cls.external_bases if b != "object"]:
                return [(st, Raise("TypeError", self.where(ctx, node), True, "len() of %s" % o.cls.name))]
        out = []
        for s, ok in self.null_guard(v, st, ctx, node, "len()"):
            out.append((s, ok if isinstance(ok, Raise) else ("t", "len", v)))
        return out

    def b_range(self, args, kwargs, st, ctx, node):
        if len(args) > 1 and args[0] == c(0) and len(args) == 2:
            args = args[1:]
        return [(st, ("range",) + tuple(args))]

    def b_enumerate(self, args, kwargs, st, ctx, node):
        return [(st, ("enum", args[0]))]

    def b_zip(self, args, kwargs, st, ctx, node):
        return [(st, ("zip",) + tuple(args))]

    def b_reversed(self, args, kwargs, st, ctx, node):
        return [(st, ("rev", args[0]))]

    def b_isinstance(self, args, kwargs, st, ctx, node):
        return [(s, c(r)) for s, r in self.isinstance_(args[0], args[1], st, ctx, node)]

    def b_hasattr(self, args, kwargs, st, ctx, node):
        if not is_c(args[1]):
            return [(st, self.fresh(st, "hasattr"))]
        return [(s, c(r)) for s, r in self.has_attr(args[0], args[1][2], st)]

    def b_getattr(self, args, kwargs, st, ctx, node):
        if not is_c(args[1]):
            return [(st, self.fresh(st, "getattr"))]
        n = args[1][2]
        if len(args) < 3:
            return self.get_attr(args[0], n, st, ctx, node)
        out = []
        for s, r in self.has_attr(args[0], n, st):
            if r:
                out += self.get_attr(args[0], n, s, ctx, node)
            else:
                out.append((s, args[2]))
        return out

    def b_setattr(self, args, kwargs, st, ctx, node):
        if is_c(args[1]):
            return [(s, r if r is not None else NONE) for s, r in self.set_attr(args[0], args[1][2], args[2], st, ctx, node)]
        return self.opaque(("b", "setattr"), "()", args, kwargs, st, ctx, node)

    def b_int(self, args, kwargs, st, ctx, node):
        if not args:
            return [(st, c(0))]
        return self.num1("int", args[0], st, ctx, node)

    def b_float(self, args, kwargs, st, ctx, node):
        return self.num1("float", args[0], st, ctx, node)

    def b_round(self, args, kwargs, st, ctx, node):
        if len(args) > 1:
            if all(is_c(a) for a in args) and args[0] != NONE:
                return [(st, c(round(args[0][2], args[1][2])))]
            return self.bind(self.null_num(args[0], st, ctx, node, "round"), lambda s, v: [(s, ("t", "roundn", *args))])
        return self.num1("round", args[0], st, ctx, node)

    def null_num(self, v, st, ctx, node, op):
        if v == NONE:
            return [(st, Raise("TypeError", self.where(ctx, node), True, "%s(None)" % op))]
        if self.nullable(v):
            return [(s, Raise("TypeError", self.where(ctx, node), True, "%s() of %s which can be None" % (op, self.describe(v, s))) if isn else v)
                    for s, isn in self.none_atom(v, st)]
        return [(st, v)]

    def b_abs(self, args, kwargs, st, ctx, node):
        return self.num1("abs", args[0], st, ctx, node)

    def b_bool(self, args, kwargs, st, ctx, node):
        if not args:
            return [(st, FALSE)]
        return [(s, c(r)) for s, r in self.truth(args[0], st)]

    def b_str(self, args, kwargs, st, ctx, node):
        if not args:
            return [(st, c(""))]
        if is_c(args[0]):
            return [(st, c(str(args[0][2])))]
        return [(st, ("t", "str", args[0]))]

    def b_repr(self, args, kwargs, st, ctx, node):
        if is_c(args[0]):
            return [(st, c(repr(args[0][2])))]
        return [(st, ("t", "str", args[0]))]

    def minmax(self, name, args, kwargs, st, ctx, node):
        if len(args) == 1:
            seq = self.seq_items(args[0], st)
            if seq is None:
                return [(st, ("t", name, args[0]))]
            args = seq
        if kwargs:
            return [(st, self.fresh(st, name))]
        cur = [(st, args[0])] if args else []
        out = []
        # partition by ordering so that clamp idioms agree with if-chains
        for x in args[1:]:
            nxt = []
            for s, best in cur:
                if isinstance(best, Raise):
                    out.append((s, best))
                    continue
                a, b = (x, best) if name == "min" else (best, x)
                for s2, r in self.less(a, b, True, s, ctx, node):
                    if isinstance(r, Raise):
                        out.append((s2, r))
                    else:
                        nxt.append((s2, x if r else best))
            cur = nxt
        return out + cur

    def b_min(self, args, kwargs, st, ctx, node):
        return self.minmax("min", args, kwargs, st, ctx, node)

    def b_max(self, args, kwargs, st, ctx, node):
        return self.minmax("max", args, kwargs, st, ctx, node)

    def b_list(self, args, kwargs, st, ctx, node):
        if not args:
            return [(st, self.mklist(st, []))]
        if args[0] == NONE:
            return [(st, Raise("TypeError", self.where(ctx, node), True, "list(None)"))]
        seq = self.iter_items(args[0], st, ctx, node)
        if isinstance(seq, Raise):
            return [(st, seq)]
        if seq is not None:
            return [(st, self.mklist(st, seq))]
        src = args[0]
        return [(st, self.alloc(st, HObj("list", items=None, open=True, attrs={"src": src})))]

    def b_bytes(self, args, kwargs, st, ctx, node):
        if not args:
            return [(st, c(b""))]
        seq = self.seq_items(args[0], st)
        if seq is not None:
            return [(st, tup(*seq))]
        if args[0][0] == "o":
            o = self.h(st, args[0])
            if "src" in o.attrs:
                return [(st, o.attrs["src"])]
        return [(st, ("t", "bytes", args[0]))]

    b_bytearray = b_bytes

    def b_tuple(self, args, kwargs, st, ctx, node):
        if not args:
            return [(st, tup())]
        seq = self.iter_items(args[0], st, ctx, node)
        if isinstance(seq, Raise):
            return [(st, seq)]
        if seq is not None:
            return [(st, tup(*seq))]
        return [(st, ("t", "tuple", args[0]))]

    def b_set(self, args, kwargs, st, ctx, node):
        seq = self.seq_items(args[0], st) if args else []
        if seq is None:
            return [(st, self.alloc(st, HObj("set", items=[], open=True)))]
        return [(st, self.alloc(st, HObj("set", items=seq)))]

    def b_dict(self, args, kwargs, st, ctx, node):
        if args:
            if args[0][0] == "o" and self.h(st, args[0]).kind == "dict":
                o = self.h(st, args[0])
                it = dict(o.items)
                it.update({c(k): v for k, v in kwargs.items()})
                return [(st, self.alloc(st, HObj("dict", items=it, open=o.open)))]
            return [(st, self.alloc(st, HObj("dict", items={}, open=True)))]
        return [(st, self.alloc(st, HObj("dict", items={c(k): v for k, v in kwargs.items()})))]

    def anyall(self, isany, args, st):
        seq = self.seq_items(args[0], st)
        if seq is None:
            if args[0][0] == "o":
                el = self.h(st, args[0]).attrs.get("elem")
                if el is not None:
                    return self.decide(("any" if isany else "all", args[0]), st)
            return self.decide(("any" if isany else "all", args[0]), st)
        cur, out = [st], []
        for x in seq:
            nxt = []
            for s in cur:
                for s2, r in self.truth(x, s):
                    if r == isany:
                        out.append((s2, isany))
                    else:
                        nxt.append(s2)
            cur = nxt
        return out + [(s, not isany) for s in cur]

    def b_any(self, args, kwargs, st, ctx, node):
        return [(s, c(r)) for s, r in self.anyall(True, args, st)]

    def b_all(self, args, kwargs, st, ctx, node):
        return [(s, c(r)) for s, r in self.anyall(False, args, st)]

    def b_sum(self, args, kwargs, st, ctx, node):
        seq = self.seq_items(args[0], st)
        if seq is None:
            return [(st, ("t", "sum", args[0]))]
        v = args[1] if len(args) > 1 else c(0)
        for x in seq:
            v = self.arith("+", v, x, st, ctx, node)
            if isinstance(v, Raise):
                break
        return [(st, v)]

    def b_sorted(self, args, kwargs, st, ctx, node):
        seq = self.seq_items(args[0], st)
        if seq is not None:
            if all(is_c(x) for x in seq) and not kwargs:
                return [(st, self.mklist(st, [c(y) for y in sorted(x[2] for x in seq)]))]
            return [(st, self.mklist(st, seq))]
        return [(st, ("t", "sorted", args[0]))]

    def b_map(self, args, kwargs, st, ctx, node):
        seq = self.seq_items(args[1], st) if len(args) == 2 else None
        if seq is None:
            return [(st, self.fresh(st, "map"))]
        cur, out = [(st, [])], []
        for x in seq:
            nxt = []
            for s, acc in cur:
                for s2, r in self.call(args[0], [x], {}, s, ctx, node):
                    if isinstance(r, Raise):
                        out.append((s2, r))
                    else:
                        nxt.append((s2, acc + [r]))
            cur = nxt
        return out + [(s, self.mklist(s, acc)) for s, acc in cur]

    def b_filter(self, args, kwargs, st, ctx, node):
        seq = self.seq_items(args[1], st)
        if seq is None:
            return [(st, self.fresh(st, "filter"))]
        cur, out = [(st, [])], []
        for x in seq:
            nxt = []
            for s, acc in cur:
                rs = self.call(args[0], [x], {}, s, ctx, node) if args[0] != NONE else [(s, x)]
                for s2, r in rs:
                    if isinstance(r, Raise):
                        out.append((s2, r))
                    else:
                        for s3, t in self.truth(r, s2):
                            nxt.append((s3, acc + [x] if t else acc))
            cur = nxt
        return out + [(s, self.mklist(s, acc)) for s, acc in cur]

    def b_print(self, args, kwargs, st, ctx, node):
        return [(st, NONE)]

    def b_type(self, args, kwargs, st, ctx, node):
        v = args[0]
        ci = self.class_of(v, st)
        if ci is not None:
            return [(st, self.kv(ci))]
        if v[0] == "c":
            return [(st, ("b", v[1]))]
        if v[0] == "tup":
            return [(st, ("b", "tuple"))]
        if v[0] == "o" and self.h(st, v).kind in TYPENAMES:
            return [(st, ("b", self.h(st, v).kind))]
        return [(st, ("t", "type", v))]

    def b_callable(self, args, kwargs, st, ctx, node):
        v = args[0]
        if v[0] in ("f", "k", "b", "bm", "x"):
            return [(st, TRUE)]
        if v[0] in ("c", "tup", "lin"):
            return [(st, FALSE)]
        if v[0] == "o":
            o = self.h(st, v)
            return [(st, c(isinstance(o.cls, ClassInfo) and o.cls.find("__call__") is not None))]
        return [(s, c(r)) for s, r in self.decide(("callable", v), st)]

    def b_chr(self, args, kwargs, st, ctx, node):
        if is_c(args[0]) and isinstance(args[0][2], int):
            return [(st, c(chr(args[0][2])))]
        return [(st, ("t", "chr", args[0]))]

    def b_ord(self, args, kwargs, st, ctx, node):
        if is_c(args[0]):
            return [(st, c(ord(args[0][2])))]
        return [(st, ("t", "ord", args[0]))]

    def b_super(self, args, kwargs, st, ctx, node):
        if len(args) == 2 and args[0][0] == "k":
            return [(st, ("super", args[1], args[0][1]))]
        return [(st, self.fresh(st, "super"))]

    def b_divmod(self, args, kwargs, st, ctx, node):
        q = self.arith("//", args[0], args[1], st, ctx, node)
        if isinstance(q, Raise):
            return [(st, q)]
        return [(st, tup(q, self.arith("%", args[0], args[1], st, ctx, node)))]

    def b_iter(self, args, kwargs, st, ctx, node):
        return [(st, args[0])]

    # builtin methods on containers / constants
    def call_bm(self, b, name, args, kwargs, st, ctx, node):
        if b[0] == "o":
            o = self.h(st, b)
            if o.kind in ("list", "set"):
                return self.list_method(b, o, name, args, kwargs, st, ctx, node)
            if o.kind == "dict":
                return self.dict_method(b, o, name, args, kwargs, st, ctx, node)
        if b[0] == "c" and isinstance(b[2], (str, bytes)):
            if name == "join":
                seq = self.seq_items(args[0], st)
                if seq is not None:
                    if all(is_c(x) for x in seq):
                        try:
                            return [(st, c(b[2].join(x[2] for x in seq)))]
                        except TypeError:
                            return [(st, Raise("TypeError", self.where(ctx, node), True, "join of non-strings"))]
                    parts = []
                    for i, x in enumerate(seq):
                        if i and b[2]:
                            parts.append(b)
                        parts.append(x)
                    return [(st, self.fmt(parts))]
                el = self.h(st, args[0]).attrs.get("elem") if args[0][0] == "o" else None
                return [(st, ("t", "join", b, el if el is not None else args[0]))]
            if all(is_c(a) for a in args) and not kwargs and hasattr(b[2], name) and name in (
                    "upper", "lower", "strip", "replace", "split", "startswith", "endswith", "find", "lstrip", "rstrip", "title", "isdigit", "index", "count", "splitlines", "partition", "zfill", "ljust", "rjust"):
                try:
                    r = getattr(b[2], name)(*[a[2] for a in args])
                except Exception as ex:
                    return [(st, Raise(type(ex).__name__, self.where(ctx, node), True, str(ex)))]
                if isinstance(r, list):
                    return [(st, self.mklist(st, [c(x) for x in r]))]
                return [(st, c(r))]
            if name == "format":
                return [(st, self.fmt([b] + list(args)))]
            return [(st, ("t", "strm:" + name, b, *args))]
        if b[0] == "tup":
            if name == "index" or name == "count":
                return [(st, self.fresh(st, "tuple." + name))]
        if is_c(b):
            if not hasattr(b[2], name):
                return [(st, Raise("AttributeError", self.where(ctx, node), True, "'%s' has no attribute '%s'" % (b[1], name)))]
        return self.opaque(b, name, args, kwargs, st, ctx, node)

    def list_method(self, b, o, name, args, kwargs, st, ctx, node):
        if name == "__init__":
            return [(st, NONE)] if not args else self.list_method(b, o, "extend", args, kwargs, st, ctx, node)
        if name == "__setitem__":
            return self.set_item(b, args[0], args[1], st, ctx, node)
        if name == "__getitem__":
            return self.get_item(b, args[0], st, ctx, node)
        if name == "__len__":
            return self.b_len([b], {}, st, ctx, node)
        if name in ("append", "add", "remove", "insert", "extend", "pop", "clear", "sort", "reverse", "discard", "update"):
            if o.static:
                st.emit("static_write", b, name, tuple(args), {}, None, st.facts, self.where(ctx, node))
            st.emit("mut", b, name, tuple(args), dict(kwargs), None, st.facts, self.where(ctx, node))
            o = self.hw(st, b)
        if name in ("append", "add"):
            if o.items is not None:
                if not (o.kind == "set" and args[0] in o.items):
                    o.items.append(args[0])
            elif "src" in o.attrs:
                del o.attrs["src"]
            return [(st, NONE)]
        if name == "insert":
            if o.items is not None:
                if is_c(args[0]):
                    o.items.insert(args[0][2], args[1])
                else:
                    o.items = None
                    o.open = True
            return [(st, NONE)]
        if name in ("extend", "update"):
            seq = self.seq_items(args[0], st)
            if o.items is not None and seq is not None:
                o.items.extend(seq)
            else:
                o.items, o.open = None, True
            return [(st, NONE)]
        if name == "clear":
            o.items, o.open = [], False
            return [(st, NONE)]
        if name == "pop":
            if o.items is not None:
                if not o.items:
                    if not o.open:
                        return [(st, Raise("IndexError", self.where(ctx, node), True, "pop from empty list"))]
                elif not args or is_c(args[0]):
                    try:
                        return [(st, o.items.pop(*[a[2] for a in args]))]
                    except IndexError:
                        return [(st, Raise("IndexError", self.where(ctx, node), True, "pop index out of range"))]
            return [(st, self.fresh(st, "pop"))]
        if name in ("remove", "discard"):
            if o.items is None:
                return [(st, NONE)]
            cur, out = [st], []
            for i, x in enumerate(list(o.items)):
                nxt = []
                for s in cur:
                    for s2, r in self.equal(args[0], x, s, ctx):
                        if r:
                            w = self.hw(s2, b)
                            del w.items[i]
                            out.append((s2, NONE))
                        else:
                            nxt.append(s2)
                cur = nxt
            for s in cur:
                if o.open or name == "discard":
                    out.append((s, NONE))
                else:
                    out.append((s, Raise("ValueError", self.where(ctx, node), True, "list.remove(x): x not in list")))
            return out
        if name == "index":
            if o.items is not None:
                cur, out = [st], []
                for i, x in enumerate(o.items):
                    nxt = []
                    for s in cur:
                        for s2, r in self.equal(args[0], x, s, ctx):
                            (out if r else nxt).append((s2, c(i)) if r else s2)
                    cur = nxt
                return out + [(s, Raise("ValueError", self.where(ctx, node), True, "not in list")) for s in cur]
            return [(st, self.fresh(st, "index"))]
        if name == "copy":
            return [(st, self.alloc(st, HObj(o.kind, items=None if o.items is None else list(o.items), open=o.open, attrs=dict(o.attrs))))]
        if name == "sort":
            key = kwargs.get("key")
            if o.items is not None and len(o.items) > 1:
                keys = []
                s = st
                ok = True
                for x in o.items:
                    if key is None or key == NONE:
                        keys.append(x)
                    else:
                        rs = self.call(key, [x], {}, s, ctx, node)
                        if len(rs) != 1 or isinstance(rs[0][1], Raise):
                            ok = False
                            break
                        s, kvv = rs[0]
                        keys.append(kvv)
                if ok and all(is_num(k) for k in keys):
                    w = self.hw(s, b)
                    order = sorted(range(len(keys)), key=lambda i: keys[i][2])
                    if kwargs.get("reverse") == TRUE:
                        order = sorted(range(len(keys)), key=lambda i: keys[i][2], reverse=True)
                    w.items = [w.items[i] for i in order]
                    return [(s, NONE)]
                return [(s, NONE)]
            return [(st, NONE)]
        if name == "reverse":
            if o.items is not None:
                o.items.reverse()
            return [(st, NONE)]
        if name == "count":
            return [(st, self.fresh(st, "count"))]
        return [(st, Raise("AttributeError", self.where(ctx, node), True, "list has no method '%s'" % name))]

    def dict_method(self, b, o, name, args, kwargs, st, ctx, node):
        if name == "get":
            out = []
            for s, r in self.contains(args[0], b, st, ctx, node):
                if r is True:
                    out += self.get_item(b, args[0], s, ctx, node)
                elif r is False:
                    out.append((s, args[1] if len(args) > 1 else NONE))
                else:
                    out.append((s, r))
            return out
        if name == "keys":
            if not o.open:
                return [(st, self.mklist(st, list(o.items)))]
        elif name == "values":
            if not o.open:
                return [(st, self.mklist(st, list(o.items.values())))]
        elif name == "items":
            if not o.open:
                return [(st, self.mklist(st, [tup(k, v) for k, v in o.items.items()]))]
        elif name == "copy":
            return [(st, self.alloc(st, HObj("dict", items=dict(o.items), open=o.open)))]
        elif name in ("update", "setdefault", "pop", "clear", "popitem"):
            if o.static:
                st.emit("static_write", b, name, tuple(args), {}, None, st.facts, self.where(ctx, node))
            o = self.hw(st, b)
            if name == "update" and args and args[0][0] == "o" and self.h(st, args[0]).kind == "dict":
                o.items.update(self.h(st, args[0]).items)
                return [(st, NONE)]
            if name == "clear":
                o.items = {}
                return [(st, NONE)]
            if name == "pop":
                if args[0] in o.items:
                    return [(st, o.items.pop(args[0]))]
                if not o.open:
                    if len(args) > 1:
                        return [(st, args[1])]
                    return [(st, Raise("KeyError", self.where(ctx, node), True, "pop missing key"))]
            if name == "setdefault":
                if args[0] in o.items:
                    return [(st, o.items[args[0]])]
                o.items[args[0]] = args[1] if len(args) > 1 else NONE
                return [(st, o.items[args[0]])]
        return self.opaque(b, name, args, kwargs, st, ctx, node)

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st, ctx):
        cur = [st]
        out = []
        for x in stmts:
            nxt = []
            for s in cur:
                for s2, ctl in self.stmt(x, s, ctx):
                    if ctl is None:
                        nxt.append(s2)
                    else:
                        out.append((s2, ctl))
            cur = nxt
            if not cur:
                break
        return out + [(s, None) for s in cur]

    def stmt(self, x, st, ctx):
        m = getattr(self, "s_" + x.__class__.__name__, None)
        if m is None:
            self.unsupported.add("%s@%s" % (x.__class__.__name__, self.where(ctx, x)))
            return [(st, None)]
        return m(x, st, ctx)

    def ctl(self, results):
        return [(s, ("raise", v) if isinstance(v, Raise) else None) for s, v in results]

    def s_Expr(self, x, st, ctx):
        if isinstance(x.value, ast.Constant):
            return [(st, None)]
        return self.ctl(self.eval(x.value, st, ctx))

    def s_Pass(self, x, st, ctx):
        return [(st, None)]

    def s_Global(self, x, st, ctx):
        return [(st, None)]

    s_Nonlocal = s_Global

    def s_Assign(self, x, st, ctx):
        out = []
        for s, v in self.eval(x.value, st, ctx):
            if isinstance(v, Raise):
                out.append((s, ("raise", v)))
                continue
            cur = [s]
            for t in x.targets:
                nxt = []
                for s1 in cur:
                    for s2, r in self.assign(t, v, s1, ctx):
                        if isinstance(r, Raise):
                            out.append((s2, ("raise", r)))
                        else:
                            nxt.append(s2)
                cur = nxt
            out += [(s1, None) for s1 in cur]
        return out

    def s_AnnAssign(self, x, st, ctx):
        if x.value is None:
            return [(st, None)]
        return self.s_Assign(ast.copy_location(ast.Assign([x.target], x.value), x), st, ctx)

    def set_local(self, name, v, st, ctx):
        if name in ctx.globs:
            # nonlocal?
            fr = self.h(st, ("o", ctx.frame)).cls if ctx.frame is not None else None
            while fr is not None:
                h = self.h(st, ("o", fr))
                if name in h.attrs:
                    self.hw(st, ("o", fr)).attrs[name] = v
                    return
                fr = h.cls
            st.sym[("glob", ctx.module.name, name)] = v
            st.emit("static_write", ("m", ctx.module.name), name, (v,), {}, None, st.facts, ctx.module.rel)
            return
        self.hw(st, ("o", ctx.frame)).attrs[name] = v

    def assign(self, t, v, st, ctx):
        if isinstance(t, ast.Name):
            self.set_local(t.id, v, st, ctx)
            return [(st, None)]
        if isinstance(t, ast.Attribute):
            name = mangle(t.attr, ctx.cls)
            return [(s, r) for s, r in self.bind(self.eval(t.value, st, ctx), lambda s, b: self.set_attr(b, name, v, s, ctx, t))]
        if isinstance(t, ast.Subscript):
            if isinstance(t.slice, ast.Slice):
                return self.bind(self.eval(t.value, st, ctx), lambda s, b: (s.emit("idxset", b, ("slice",), (v,), {}, None, s.facts, self.where(ctx, t)), [(s, None)])[1])
            return self.bind(self.eval(t.value, st, ctx), lambda s, b: self.bind(
                self.eval(t.slice, s, ctx), lambda s2, i: self.set_item(b, i, v, s2, ctx, t)))
        if isinstance(t, (ast.Tuple, ast.List)):
            seq = self.seq_items(v, st)
            if seq is not None and len(seq) != len(t.elts) and not any(isinstance(e, ast.Starred) for e in t.elts):
                return [(st, Raise("ValueError", self.where(ctx, t), True, "unpacking %d values into %d" % (len(seq), len(t.elts))))]
            if v == NONE:
                return [(st, Raise("TypeError", self.where(ctx, t), True, "unpacking None"))]
            cur, out = [st], []
            for i, e in enumerate(t.elts):
                el = seq[i] if seq is not None and i < len(seq) else ("t", "idx", v, c(i))
                nxt = []
                for s in cur:
                    for s2, r in self.assign(e.value if isinstance(e, ast.Starred) else e, el, s, ctx):
                        if isinstance(r, Raise):
                            out.append((s2, r))
                        else:
                            nxt.append(s2)
                cur = nxt
            return out + [(s, None) for s in cur]
        return [(st, None)]

    def s_AugAssign(self, x, st, ctx):
        op = BINOPS.get(type(x.op), "?")
        out = []

        def load(s):
            t = x.target
            if isinstance(t, ast.Name):
                return self.e_Name(t, s, ctx)
            if isinstance(t, ast.Attribute):
                return self.e_Attribute(t, s, ctx)
            return self.e_Subscript(t, s, ctx)
        for s, a in load(st):
            if isinstance(a, Raise):
                out.append((s, ("raise", a)))
                continue
            for s2, b in self.eval(x.value, s, ctx):
                if isinstance(b, Raise):
                    out.append((s2, ("raise", b)))
                    continue
                if op == "+" and a[0] == "o" and self.h(s2, a).kind == "list":
                    for s3, r in self.list_method(a, self.h(s2, a), "extend", [b], {}, s2, ctx, x):
                        for s4, r4 in self.assign(x.target, a, s3, ctx):
                            out.append((s4, ("raise", r4) if isinstance(r4, Raise) else None))
                    continue
                for s3, v in self.binop(op, a, b, s2, ctx, x):
                    if isinstance(v, Raise):
                        out.append((s3, ("raise", v)))
                        continue
                    for s4, r in self.assign(x.target, v, s3, ctx):
                        out.append((s4, ("raise", r) if isinstance(r, Raise) else None))
        return out

    def s_Return(self, x, st, ctx):
        if x.value is None:
            return [(st, ("ret", NONE))]
        return [(s, ("raise", v) if isinstance(v, Raise) else ("ret", v)) for s, v in self.eval(x.value, st, ctx)]

    def s_If(self, x, st, ctx):
        out = []
        for s, r in self.cond(x.test, st, ctx):
            if isinstance(r, Raise):
                out.append((s, ("raise", r)))
            else:
                out += self.block(x.body if r else x.orelse, s, ctx)
        return out

    def s_Break(self, x, st, ctx):
        return [(st, ("brk",))]

    def s_Continue(self, x, st, ctx):
        return [(st, ("cont",))]

    def s_Raise(self, x, st, ctx):
        if x.exc is None:
            return [(st, ("raise", Raise("reraise", self.where(ctx, x), False)))]
        out = []
        for s, v in self.eval(x.exc, st, ctx):
            if isinstance(v, Raise):
                out.append((s, ("raise", v)))
                continue
            name = v[1] if v[0] in ("exc", "b") else (self.describe(v, s))
            out.append((s, ("raise", Raise(name, self.where(ctx, x), False, "explicit raise", v))))
        return out

    def s_Assert(self, x, st, ctx):
        out = []
        for s, r in self.cond(x.test, st, ctx):
            if isinstance(r, Raise):
                out.append((s, ("raise", r)))
            elif r:
                out.append((s, None))
            else:
                out.append((s, ("raise", Raise("AssertionError", self.where(ctx, x), False))))
        return out

    def s_Delete(self, x, st, ctx):
        out = [(st, None)]
        for t in x.targets:
            if isinstance(t, ast.Name):
                if ctx.frame is not None:
                    self.hw(st, ("o", ctx.frame)).attrs.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                name = mangle(t.attr, ctx.cls)
                nxt = []
                for s, _ in out:
                    for s2, b in self.eval(t.value, s, ctx):
                        if isinstance(b, Raise):
                            nxt.append((s2, ("raise", b)))
                            continue
                        if b[0] == "o":
                            self.hw(s2, b).attrs.pop(name, None)
                        s2.emit("del", b, name, (), {}, None, s2.facts, self.where(ctx, t))
                        nxt.append((s2, None))
                out = nxt
            elif isinstance(t, ast.Subscript):
                nxt = []
                for s, _ in out:
                    for s2, b in self.eval(t.value, s, ctx):
                        if isinstance(b, Raise):
                            nxt.append((s2, ("raise", b)))
                            continue
                        for s3, i in self.eval(t.slice, s2, ctx):
                            if isinstance(i, Raise):
                                nxt.append((s3, ("raise", i)))
                                continue
                            if b[0] == "o":
                                o = self.hw(s3, b)
                                if o.kind == "dict":
                                    if i in o.items:
                                        del o.items[i]
                                    elif not o.open:
                                        nxt.append((s3, ("raise", Raise("KeyError", self.where(ctx, t), True, "del of missing key %s" % self.describe(i, s3)))))
                                        continue
                                elif o.items is not None and is_c(i):
                                    try:
                                        del o.items[i[2]]
                                    except IndexError:
                                        nxt.append((s3, ("raise", Raise("IndexError", self.where(ctx, t), True, "del index"))))
                                        continue
                            else:
                                s3.sym[(b, ("in", i))] = FALSE
                                s3.sym.pop((b, ("idx", i)), None)
                            s3.emit("del", b, ("idx", i), (), {}, None, s3.facts, self.where(ctx, t))
                            nxt.append((s3, None))
                out = nxt
        return out

    def s_FunctionDef(self, x, st, ctx):
        out = []
        for s, v in self.make_closure(x, st, ctx):
            if isinstance(v, Raise):
                out.append((s, ("raise", v)))
            else:
                self.set_local(x.name, v, s, ctx)
                out.append((s, None))
        return out

    def s_ClassDef(self, x, st, ctx):
        if x.decorator_list or x.keywords:
            self.set_local(x.name, ("s", "localclass:" + x.name), st, ctx)
            return [(st, None)]
        qual = (ctx.fi.qual if ctx.fi else ctx.module.name) + ".<%s>" % x.name
        ci = self.local_classes.get(id(x))
        if ci is None:
            ci = self.local_classes[id(x)] = ClassInfo(x, ctx.module, None, qual)
        # bases bound to local values cannot be resolved by name
        if any(isinstance(b, ast.Name) and ctx.frame is not None and b.id in self.h(st, ("o", ctx.frame)).attrs for b in x.bases):
            self.set_local(x.name, ("s", "localclass:" + x.name), st, ctx)
            return [(st, None)]
        ci.frame = ctx.frame
        self.set_local(x.name, self.kv(ci), st, ctx)
        return [(st, None)]

    def s_Import(self, x, st, ctx):
        b = {}
        ctx.module.bind_import(x, b)
        for n, t in b.items():
            v = ("m", t[1]) if t[1] in self.p.modules else self.external(t[1])
            self.set_local(n, v, st, ctx)
        return [(st, None)]

    def s_ImportFrom(self, x, st, ctx):
        b = {}
        ctx.module.bind_import(x, b)
        for n, t in b.items():
            r = self.p.lookup_from(t[1], t[2])
            v = self.from_lookup(r)
            if v is None:
                return [(st, ("raise", Raise("ImportError", self.where(ctx, x), True, "cannot import %s from %s" % (t[2], t[1]))))]
            self.set_local(n, v, st, ctx)
        return [(st, None)]

    def s_With(self, x, st, ctx):
        out = []
        for s, vs in self.eval_list([i.context_expr for i in x.items], st, ctx):
            if isinstance(vs, Raise):
                out.append((s, ("raise", vs)))
                continue
            cur = [(s, None)]
            for i, v in zip(x.items, vs):
                if i.optional_vars is not None:
                    cur = [r for s1, _ in cur for r in self.assign(i.optional_vars, v, s1, ctx)]
            for s1, r in cur:
                if isinstance(r, Raise):
                    out.append((s1, ("raise", r)))
                else:
                    out += self.block(x.body, s1, ctx)
        return out

    def s_Try(self, x, st, ctx):
        out = []
        pre = st.fork()
        body = self.block(x.body, st, ctx)
        raised = [(s, ctl) for s, ctl in body if ctl and ctl[0] == "raise"]
        normal = [(s, ctl) for s, ctl in body if not (ctl and ctl[0] == "raise")]
        if x.handlers and not raised and self.opaque_raises:
            # any opaque operation may raise: handlers are reachable from the state before the body
            r = Raise("opaque", self.where(ctx, x), False, "opaque operation in try body")
            raised = [(pre, ("raise", r))]
            # as well as after every opaque call that was made
        for s, ctl in normal:
            if ctl is None and x.orelse:
                out += self.block(x.orelse, s, ctx)
            else:
                out.append((s, ctl))
        for s, ctl in raised:
            r = ctl[1]
            handled = False
            for h in x.handlers:
                names = []
                if h.type is None:
                    names = ["*"]
                elif isinstance(h.type, ast.Tuple):
                    names = [ast.unparse(e) for e in h.type.elts]
                else:
                    names = [ast.unparse(h.type)]
                if "*" in names or "Exception" in names or "BaseException" in names or r.exc in names or r.exc == "opaque":
                    if h.name:
                        self.set_local(h.name, r.val if r.val is not None and r.val[0] == "o" else ("exc", r.exc, ()), s, ctx)
                    for s2, c2 in self.block(h.body, s, ctx):
                        if c2 and c2[0] == "raise" and c2[1].exc == "reraise":
                            c2 = ("raise", r)
                        out.append((s2, c2))
                    handled = True
                    break
            if not handled and r.exc != "opaque":
                out.append((s, ctl))
        if x.finalbody:
            fin = []
            for s, ctl in out:
                for s2, c2 in self.block(x.finalbody, s, ctx):
                    fin.append((s2, c2 if c2 is not None else ctl))
            out = fin
        return out

    # -- loops
    def s_For(self, x, st, ctx):
        out = []
        for s, it in self.eval(x.iter, st, ctx):
            if isinstance(it, Raise):
                out.append((s, ("raise", it)))
                continue
            guard = self.null_guard(it, s, ctx, x.iter, "iteration") if it[0] in ("s", "t", "r") else [(s, True)]
            for s1, ok in guard:
                if isinstance(ok, Raise):
                    ok.exc = "TypeError"
                    out.append((s1, ("raise", ok)))
                    continue
                seq = self.iter_items(it, s1, ctx, x)
                if isinstance(seq, Raise):
                    out.append((s1, ("raise", seq)))
                elif seq is not None:
                    out += self.for_exact(x, seq, it, s1, ctx)
                else:
                    out += self.for_generic(x, it, s1, ctx)
        return out

    def for_exact(self, x, seq, it, st, ctx):
        cur, out, done = [st], [], []
        live = it[0] == "o" and self.h(st, it).kind == "list"
        i = 0
        n = len(seq)
        pending = [(st, 0)]
        # iterate per state so that mutation of the list during iteration is respected
        cur = [st]
        while cur:
            nxt = []
            for s in cur:
                if live:
                    items = self.h(s, it).items
                    if items is None or i >= len(items):
                        done.append(s)
                        continue
                    el = items[i]
                else:
                    if i >= n:
                        done.append(s)
                        continue
                    el = seq[i]
                for s2, r in self.assign(x.target, el, s, ctx):
                    if isinstance(r, Raise):
                        out.append((s2, ("raise", r)))
                        continue
                    for s3, ctl in self.block(x.body, s2, ctx):
                        if ctl is None or ctl[0] == "cont":
                            nxt.append(s3)
                        elif ctl[0] == "brk":
                            out.append((s3, None))
                        else:
                            out.append((s3, ctl))
            nxt = [s for s, _ in self.merge([(s, NONE) for s in nxt])]
            cur = nxt
            i += 1
            if i > 5000:
                raise AnalysisBroken("loop at %s does not terminate in the abstract" % self.where(ctx, x))
        for s in done:
            out += self.block(x.orelse, s, ctx) if x.orelse else [(s, None)]
        return out

    def nonempty(self, it, st):
        if it[0] == "range":
            lo, hi = (c(0), it[1]) if len(it) == 2 else (it[1], it[2])
            return [(s, r) for s, r in self.less(lo, hi, True, st, None, None)] if True else None
        if it[0] in ("enum", "rev"):
            return self.nonempty(it[1], st)
        if it[0] == "zip":
            return self.decide(("truth", it), st)
        if it[0] == "o":
            return self.truth(it, st)
        bv, sgn, kk = self.canon_cmp(("t", "len", it), c(0))
        return [(s, not r) for s, r in self.decide(("eq", bv, kk), st)]

    def widen(self, pre, st, tag):
        """replaces everything that differs between pre and st (heap attributes, locals, symbolic writes) by unknowns"""
        s = st.fork()
        n = 0
        for i, o in list(s.heap.items()):
            p = pre.heap.get(i)
            if p is None or p is o:
                continue
            for a, v in list(o.attrs.items()):
                if p.attrs.get(a) != v:
                    w = ("s", "w:%s:%d:%s" % (tag, i, a))
                    t = self._join_type(p.attrs.get(a), v, s)
                    if t:
                        self.types[w] = t
                    pv = p.attrs.get(a)
                    # monotone counter: keep lower/upper bound
                    if pv is not None and t in ("int", "num"):
                        bv, sgn, kk = self.canon_cmp(v, pv)
                        if bv is None:
                            l0, h0 = self.interval(pv, pre)
                            self.bounds[w] = (l0, None) if kk >= 0 else (None, h0)
                    elif t is None and (pv == NONE or v == NONE):
                        self.nullable_syms.add(w)
                    self.hw(s, ("o", i)).attrs[a] = w
                    n += 1
            if o.items != p.items:
                w = self.hw(s, ("o", i))
                if isinstance(w.items, list):
                    w.items = None
                    w.open = True
                elif isinstance(w.items, dict):
                    w.open = True
        for k, v in list(s.sym.items()):
            if pre.sym.get(k) != v:
                s.sym[k] = ("s", "w:%s:%s" % (tag, repr(k)[:60]))
        return s

    def _join_type(self, a, b, st):
        def ty(v):
            if v is None:
                return None
            if v[0] == "c":
                return {"int": "int", "bool": "bool", "float": "num", "str": "str"}.get(v[1])
            if v[0] == "lin":
                return "int" if self.is_int(v) else "num"
            return self.types.get(v)
        x, y = ty(a), ty(b)
        if x == y:
            return x
        if x in ("int", "num") and y in ("int", "num"):
            return "num"
        return None

    def for_generic(self, x, it, st, ctx):
        out = []
        tag = "%s:%d" % (ctx.module.name, x.lineno)
        for s, ne in self.nonempty(it, st):
            if isinstance(ne, Raise):
                out.append((s, ("raise", ne)))
                continue
            if not ne:
                out += self.block(x.orelse, s, ctx) if x.orelse else [(s, None)]
                continue
            pre = s.fork()
            ends = []

            def run(state, el, final):
                for s2, r in self.assign(x.target, el, state, ctx):
                    if isinstance(r, Raise):
                        out.append((s2, ("raise", r)))
                        continue
                    for s3, ctl in self.block(x.body, s2, ctx):
                        if ctl is None or ctl[0] == "cont":
                            ends.append((s3, final))
                        elif ctl[0] == "brk":
                            out.append((s3, None))
                        else:
                            out.append((s3, ctl))
            run(s, self.generic_elem(it, s, True), False)
            first = list(ends)
            del ends[:]
            for s1, _ in first:
                # exit after the first iteration
                ex = s1.fork()
                out += self.block(x.orelse, ex, ctx) if x.orelse else [(ex, None)]
                w = self.widen(pre, s1, tag)
                run(w, self.generic_elem(it, w, False), True)
            for s1, _ in ends:
                out += self.block(x.orelse, s1, ctx) if x.orelse else [(s1, None)]
        return out

    def s_While(self, x, st, ctx):
        out = []
        tag = "%s:%d" % (ctx.module.name, x.lineno)
        cur = [(st, 0)]     # (state, number of undecided iterations)
        pre = st.fork()
        steps = 0
        while cur:
            steps += 1
            if steps > self.loop_limit:
                for s, _ in cur:
                    s.cut = True
                    s.emit("nonterminating", None, tag, (), {}, None, s.facts, self.where(ctx, x))
                    out.append((s, ("raise", Raise("NonTermination", self.where(ctx, x), True, "loop without progress"))))
                break
            nxt = []
            for s, und in cur:
                before = self.forks
                conds = self.cond(x.test, s, ctx)
                undecided = len([1 for _, r in conds if not isinstance(r, Raise)]) > 1
                const_true = isinstance(x.test, ast.Constant) and bool(x.test.value)
                for s1, r in conds:
                    if isinstance(r, Raise):
                        out.append((s1, ("raise", r)))
                    elif not r:
                        out += self.block(x.orelse, s1, ctx) if x.orelse else [(s1, None)]
                    else:
                        u = und + (1 if undecided else 0)
                        if u > self.while_unroll + 1 or (const_true and und > self.while_unroll):
                            # covered by the widened iteration; this partition is subsumed
                            s1.cut = True
                            s1.emit("loopcut", None, tag, (), {}, None, s1.facts, self.where(ctx, x))
                            continue
                        if u == self.while_unroll + 1 or (const_true and und == self.while_unroll):
                            s1 = self.widen(pre, s1, tag)
                            if const_true:
                                u = und + 1
                        elif const_true:
                            u = und + 1
                        res = self.block(x.body, s1, ctx)
                        for s2, ctl in res:
                            if ctl is None or ctl[0] == "cont":
                                nxt.append((s2, u))
                            elif ctl[0] == "brk":
                                out.append((s2, None))
                            else:
                                out.append((s2, ctl))
            cur = nxt
        return out


class _All(set):
    def __contains__(self, x):
        return True

    def add(self, x):
        pass
