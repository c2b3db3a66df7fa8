"""Shared set-up: engine with models of the external MIDI classes, a volatile period counter and boundary objects."""
from .engine import *
from .model import firmware

MSG = {
    "adafruit_midi.control_change.ControlChange": ["control", "value", "channel"],
    "adafruit_midi.program_change.ProgramChange": ["patch", "channel"],
    "adafruit_midi.system_exclusive.SystemExclusive": ["manufacturer_id", "data"],
    "adafruit_midi.midi_message.MIDIUnknownEvent": ["status"],
}
CC = "adafruit_midi.control_change.ControlChange"
PC = "adafruit_midi.program_change.ProgramChange"
SX = "adafruit_midi.system_exclusive.SystemExclusive"
PERIOD = "pyswitch.misc.PeriodCounter"
MAP = "pyswitch.controller.client.ClientParameterMapping"


def boundary_class(eng, st, name, attrs=None, open=False):
    """an instance without a class: reads of unknown attributes are opaque when open"""
    return eng.alloc(st, HObj("inst", cls=name, attrs=dict(attrs or {}), open=open, label=name))


class Lab:
    def __init__(self, program=None, volatile_period=True, **kw):
        self.p = program or firmware()
        self.e = Engine(self.p, **kw)
        self.e.ext_models.update(MSG)
        self.st = State()
        if volatile_period:
            self.e.attr_hooks.append(self._period_attr)
        self.handlers = {}
        self.base_facts = {}
        self.e.call_hooks.append(self._handler)

    def bound(self, name, attrs=None, st=None, methods=None, open=True):
        """boundary object: unknown attributes are opaque, method calls become events (optionally with a handler)"""
        st = st if st is not None else self.st
        o = self.e.alloc(st, HObj("inst", cls=name, attrs=dict(attrs or {}), open=open, label=name))
        for m, f in (methods or {}).items():
            self.handlers[(o, m)] = f
        return o

    def _handler(self, eng, f, args, kwargs, st, ctx, node):
        if f[0] == "mcall":
            h = self.handlers.get((f[1], f[2]))
            if h is not None:
                st.emit("call", f[1], f[2], tuple(args), dict(kwargs), None, st.facts, eng.where(ctx, node) if ctx else "")
                r = h(eng, st, args, kwargs)
                if isinstance(r, tuple):
                    return [(st, r)]
                return r
        return None

    # ---- finite abstraction of reachable object states (typestate fixpoints)
    def canon(self, st, root):
        seen = {}
        e = self.e

        def val(v):
            if v[0] == "o":
                if v in seen:
                    return ("ref", seen[v])
                seen[v] = len(seen)
                o = e.h(st, v)
                if o.kind in ("list", "set"):
                    return (o.kind, None if o.items is None else tuple(val(x) for x in o.items))
                if o.kind == "dict":
                    return ("dict", o.open, tuple((val(k), val(x)) for k, x in o.items.items()))
                if o.kind == "frame":
                    return ("frame",)
                return ("inst", o.cls.qual if isinstance(o.cls, ClassInfo) else o.cls, o.label,
                        tuple(sorted((a, val(x)) for a, x in o.attrs.items())))
            if v[0] == "tup":
                return ("tup", tuple(val(x) for x in v[1]))
            if v[0] == "r":
                return ("r", v[1])
            if v[0] == "t":
                return ("t", v[1]) + tuple(val(x) if isinstance(x, tuple) else x for x in v[2:])
            if v[0] == "f":
                return ("f", v[1], val(v[3]) if v[3] else None)
            return v
        return val(root)

    # PeriodCounter.exceeded / .passed: fresh unknown at every read
    def _period_attr(self, eng, st, b, name, ctx, node):
        if name in ("exceeded", "passed") and b[0] == "o":
            ci = eng.class_of(b, st)
            if ci is not None and ci.qual == PERIOD:
                n = st.count(("pc", b, name))
                v = ("t", "attr", b, name) if n == 0 else ("r", "%s.%s" % (b, name), n)
                eng.types[v] = "bool" if name == "exceeded" else "int"
                if name == "passed":
                    eng.bounds[v] = (0, None)
                st.emit("period", b, name, (), {}, v, st.facts, eng.where(ctx, node) if ctx else "")
                return [(st, v)]
        return None

    def cls(self, mod, name):
        return self.p.cls(mod, name)

    def fn(self, mod, name):
        return self.e.fv(self.p.func(mod, name))

    def call(self, f, args=(), kwargs=None, st=None):
        return self.e.call(f, list(args), dict(kwargs or {}), st if st is not None else self.st, None, None)

    def new(self, ci, args=(), kwargs=None, st=None):
        return self.e.instantiate(ci, list(args), dict(kwargs or {}), st if st is not None else self.st, None, None)

    def method(self, obj, name, args=(), kwargs=None, st=None):
        st = st if st is not None else self.st
        return self.e.bind(self.e.get_attr(obj, name, st, _CTX, _NODE),
                           lambda s, f: self.e.call(f if not (f[0] == "t" and f[1] == "attr") else ("mcall", obj, name),
                                                    list(args), dict(kwargs or {}), s, _CTX, _NODE))

    def get(self, obj, name, st=None):
        return self.e.get_attr(obj, name, st if st is not None else self.st, _CTX, _NODE)

    def set(self, obj, name, v, st=None):
        return self.e.set_attr(obj, name, v, st if st is not None else self.st, _CTX, _NODE)


class _M:
    rel = "<check>"
    name = "<check>"


_CTX = Ctx(_M)


class _N:
    lineno = 0
    col_offset = 0


_NODE = _N()


def seq(lab, states, *steps):
    """runs steps (each: st -> [(st, v)]) one after the other; returns (ok states, raises)"""
    cur, bad = list(states), []
    for f in steps:
        nxt = []
        for s in cur:
            for s2, v in f(s):
                if isinstance(v, Raise):
                    bad.append((s2, v))
                else:
                    nxt.append(s2)
        cur = nxt
    return cur, bad


def calls(trace, recv=None, name=None):
    return [ev for ev in trace if ev.kind == "call" and (recv is None or ev.recv == recv) and (name is None or ev.name == name)]


def rebase(st, facts=None):
    """starts a new observation window in the same abstract heap"""
    s = st.fork()
    s.events = None
    s.facts = dict(facts or {})
    s.counts = {}
    return s


def must(lab, results, what):
    """all partitions of a set-up step must complete normally"""
    from .model import AnalysisBroken
    out = []
    for s, v in results:
        if isinstance(v, Raise):
            raise AnalysisBroken("set-up '%s' raises %r" % (what, v))
        out.append((s, v))
    if not out:
        raise AnalysisBroken("set-up '%s' has no outcome" % what)
    return out


def explore(lab, roots, starts, steps, limit=3000):
    """Closes the reachable abstract states under `steps` (typestate fixpoint).

    starts: [(st, spec)]; steps(st, spec) -> [(name, run)] with run(st) -> [(st, value, newspec or None)].
    Returns (number of states, number of transitions)."""
    seen = set()
    todo = []
    trans = 0

    def push(st, spec):
        k = (tuple(lab.canon(st, r) for r in roots), spec)
        if k not in seen:
            seen.add(k)
            todo.append((st, spec))
    for st, spec in starts:
        push(rebase(st, lab.base_facts), spec)
    from .report import Check
    while todo and not (Check.current and Check.current.enough()):
        st, spec = todo.pop()
        for name, run in steps(st, spec):
            for s2, v, nspec in run(rebase(st, lab.base_facts)):
                trans += 1
                if nspec is None or isinstance(v, Raise):
                    continue
                push(rebase(s2, lab.base_facts), nspec)
        if len(seen) > limit:
            from .model import AnalysisBroken
            raise AnalysisBroken("typestate exploration exceeded %d abstract states" % limit)
    return len(seen), trans
