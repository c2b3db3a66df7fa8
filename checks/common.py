"""shared boundary objects for the checks"""
from sa.lab import *
from sa.model import AnalysisBroken

ACT = "pyswitch.controller.actions"
CB = "pyswitch.controller.callbacks"
CLI = "pyswitch.controller.client"
KEM = "pyswitch.clients.kemper"
CONFIG = {"displayDimFactorOn": 0.75, "displayDimFactorOff": 0.25, "ledBrightnessOn": 0.5, "ledBrightnessOff": 0.125}
JUNK = ("s", "junk")


def build(lab, v, st):
    """python data -> abstract value (tuples starting with a tag string in VAL are values already)"""
    if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0] in ("c", "s", "t", "lin", "r", "o", "f", "k", "x", "m", "tup", "mcall", "b", "bm"):
        return v
    if isinstance(v, list):
        return lab.e.mklist(st, [build(lab, x, st) for x in v])
    if isinstance(v, dict):
        return lab.e.mkdict(st, {k: build(lab, x, st) for k, x in v.items()})
    if isinstance(v, tuple):
        return tup(*[build(lab, x, st) for x in v])
    return c(v)


def plain(lab, v, st):
    """abstract value -> python data where it is fully known, else the abstract value"""
    if v[0] == "c":
        return v[2]
    if v[0] == "tup":
        return tuple(plain(lab, x, st) for x in v[1])
    if v[0] == "o":
        o = lab.e.h(st, v)
        if o.kind == "list" and o.items is not None:
            return [plain(lab, x, st) for x in o.items]
    return v


def mapping(lab, st, name="M", value=NONE, **attrs):
    """boundary parameter mapping: only data, identity compared"""
    e = lab.e
    d = {"name": c(name), "value": value, "set": e.sym(name + ".set", cls=SX), "request": e.sym(name + ".request", cls=SX),
         "response": e.sym(name + ".response", cls=SX), "type": c(0), "depends": NONE}
    d.update(attrs)
    return lab.bound(name, d, st=st)


def client(lab, st):
    return lab.bound("client", {}, st=st)


def application(lab, st, cfg=CONFIG, **attrs):
    e = lab.e
    cl = client(lab, st)
    d = {"config": build(lab, cfg, st), "client": cl, "shared": e.mkdict(st, {}), "inputs": e.mklist(st, [])}
    d.update(attrs)
    return lab.bound("appl", d, st=st), cl


def switch(lab, st, pixels=(0,), actions=()):
    e = lab.e
    n = len(pixels)
    return lab.bound("switch", {"pixels": tup(*[c(p) for p in pixels]), "actions": e.mklist(st, list(actions)),
                                "colors": e.mklist(st, [tup(c(0), c(0), c(0)) for _ in range(n)]),
                                "brightnesses": e.mklist(st, [c(0) for _ in range(n)]),
                                "id": c("S")}, st=st)


def label(lab, st, name="label", **attrs):
    d = {"text": c(""), "back_color": NONE, "text_color": NONE}
    d.update(attrs)
    return lab.bound(name, d, st=st)


def closed_label(lab, st, name="label", **attrs):
    """label of which all attributes are known (so that hasattr() is decided)"""
    d = {"text": c(""), "back_color": NONE, "text_color": c((250, 250, 250)), "override_text": NONE}
    d.update(attrs)
    o = lab.bound(name, d, st=st, open=False, methods={"update_label": lambda *a: NONE})
    lab.e.hw(st, o).attrs["update_label"] = ("mcall", o, "update_label")
    return o


def hget(lab, st, o, a):
    return lab.e.h(st, o).attrs.get(a)


def hset(lab, st, o, a, v):
    lab.e.hw(st, o).attrs[a] = v


def led(lab, st, sw, i=0):
    return (plain(lab, hget(lab, st, sw, "colors"), st)[i], plain(lab, hget(lab, st, sw, "brightnesses"), st)[i])


def sets(lab, st, cl, since=None):
    """[(mapping, python value)] of client.set calls"""
    out = []
    for x in calls(st.trace(), cl, "set"):
        a = list(x.args) + [x.kwargs[k] for k in ("mapping", "value") if k in x.kwargs]
        out.append((a[0] if a else None, plain(lab, a[1], st) if len(a) > 1 else None))
    return out


def dim(color, f):
    return tuple(int(x * f) for x in color)


def feq(a, b):
    """equality of possibly fractional constants"""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(feq(x, y) for x, y in zip(a, b))
    try:
        return abs(float(a) - float(b)) < 1e-9
    except (TypeError, ValueError):
        return a == b


def stub(lab, fi, kind, ret=NONE):
    """replaces a firmware function by an event with its arguments by parameter name (defaults filled in when they are constants)"""
    a = fi.node.args
    params = [x.arg for x in a.posonlyargs + a.args]
    dfl = dict(zip(params[len(params) - len(a.defaults):], a.defaults)) if a.defaults else {}

    def h(eng, s, args, kwargs, ctx, node):
        d = dict(zip(params, args))
        d.update(kwargs)
        for p, x in dfl.items():
            if p not in d:
                v = x.value if isinstance(x, __import__("ast").Constant) else None
                d[p] = c(v)
        s.emit(kind, d.get(params[0]) if fi.cls and params else None, fi.name, (), d, None, s.facts, "")
        return [(s, ret)]
    lab.e.hooks[fi.qual] = h


def events(s, kind):
    return [x for x in s.trace() if x.kind == kind]


def ok(chk, rule, cons, results):
    """keeps the normal outcomes; a Raise is a violation of `rule`"""
    out = []
    for s, v in results:
        if isinstance(v, Raise):
            chk.ob(rule, cons, False, "raises %s %s" % (v.exc, v.msg), v.where)
        else:
            out.append((s, v))
    return out


def preload(lab, modname):
    """evaluates all module level assignments now, as an import would"""
    mod = lab.p.module(modname)
    for n, b in list(mod.bind.items()):
        if b[0] == "assign":
            lab.e.module_value(mod, n)


_par = {}


def _worker(i):
    from sa.report import Check
    chk0, fn, items = _par["job"]
    chk = Check(chk0.pid, chk0.tier, chk0.seed)
    chk.started = chk0.started
    timer = chk.watch()
    try:
        ret = fn(chk, *items[i])
        err = None
    except AnalysisBroken as e:
        ret, err = None, str(e)
    except Exception:
        import traceback
        ret, err = None, traceback.format_exc()
    timer.cancel()
    return ret, err, (chk.obligations, chk.discharged, chk.violations, chk.by_rule, chk.samples, chk.notes, chk.functions, chk.assumptions)


def parallel(chk, fn, items, jobs=None):
    """runs fn(chk, *item) for every item in forked processes and merges the obligations in order; returns the results"""
    import multiprocessing
    import os
    items = list(items)
    jobs = min(jobs or os.cpu_count() or 1, 8, len(items) or 1)
    _par["job"] = (chk, fn, items)
    if jobs <= 1:
        res = [_worker(i) for i in range(len(items))]
    else:
        with multiprocessing.get_context("fork").Pool(jobs) as pool:
            res = pool.map(_worker, range(len(items)), chunksize=1)
    out, broken = [], None
    for ret, err, (n, d, viol, by, samples, notes, funcs, assum) in res:
        chk.obligations += n
        chk.discharged += d
        for k, v in viol.items():
            chk.violations.setdefault(k, v)
        for k, v in by.items():
            chk.by_rule[k] = chk.by_rule.get(k, 0) + v
        chk.samples += [x for x in samples if len(chk.samples) < 400]
        for k, v in notes.items():
            chk.notes[k] = chk.notes.get(k, 0) + v if isinstance(v, (int, float)) else v
        chk.functions |= funcs
        broken = broken or err
        out.append(ret)
    if broken:
        raise AnalysisBroken(broken)
    return out
