"""Unknown values: every shipped action, display callback, tuner display and strobe is closed under all events that can happen while parameter values are unknown (or known only in part); no path may raise."""
from checks.common import *
from checks.factories import Rig, instances
from checks.c13 import events as action_events

LIMITS = {"quick": ([0, 33], 60), "thorough": ([0, 1, 33, 8192, 16383], 900)}
ENV = [("labels and LEDs", {}), ("no labels, no LEDs", {"labels": False, "pixels": ()}), ("no enable callback, one LED", {"enable": False, "pixels": (0,)})]


def run(chk):
    chk.rule("push", "pushing and releasing raises no error, whatever is known")
    chk.rule("update", "periodic updates, resets and display refreshes raise no error, whatever is known")
    chk.rule("notify", "a parameter answered, or given up, raises no error, whatever else is known")
    chk.rule("move", "pedals and wheels raise no error, whatever is known")
    chk.rule("create", "creation and initialisation raise no error")
    chk.rule("display", "display callbacks, tuner display and strobe raise no error, whatever is known")
    items = [(a, cons, env) for a in ("action",) for cons in instances() for env in ENV]
    items += [("display", x, None) for x in displays()] + [("input", x, None) for x in CONTINUOUS]
    parallel(chk, one, items)
    for r, n in (("push", 500), ("update", 1000), ("notify", 500), ("move", 20), ("display", 100)):
        chk.floor(r, n)


def one(chk, kind, item, env):
    {"action": action, "display": display, "input": continuous}[kind](chk, item, env)


def rule_of(what):
    return {"push": "push", "release": "push", "move": "move"}.get(what) or ("notify" if what.startswith(("report", "termination")) else "update")


def close(chk, lab, cons, roots, start, evs, limit, rulef=rule_of):
    """evs(st) -> [(what, run, follow)]; closes the abstract states up to the limit, breadth first"""
    seen, todo = set(), []

    def push(s):
        s = rebase(s)
        k = tuple(lab.canon(s, x) for x in roots)
        if k not in seen and len(seen) < limit:
            seen.add(k)
            todo.append(s)
    push(start)
    i = 0
    while i < len(todo):
        s = todo[i]
        i += 1
        for what, run, follow in evs(s):
            for s2, v in run(s.fork()):
                bad = isinstance(v, Raise)
                chk.ob(rulef(what), "%s: %s" % (cons, what), not bad, "raises %s %s" % (v.exc, v.msg) if bad else "", v.where if bad else None)
                if not bad and follow:
                    push(s2)
    chk.notes["abstract_states"] = chk.notes.get("abstract_states", 0) + len(seen)


def action(chk, inst, env):
    cons, name, mod, kw = inst
    ename, ekw = env
    cons = "%s [%s]" % (cons, ename)
    r = Rig(name, mod, kw, **ekw)
    if r.raised is not None:
        chk.ob("create", cons, False, "raises %s %s" % (r.raised.exc, r.raised.msg), r.raised.where)
        return
    chk.ob("create", cons, True)
    vals, limit = LIMITS[chk.tier]
    lab = r.lab

    def evs(s):
        out = [(w, f, True) for w, f in action_events(r, s, True, vals)]
        for i, m in enumerate(r.mappings):
            nm = plain(lab, lab.e.h(s, m).attrs.get("name", NONE), s)

            def unknown(s, m=m):
                hset(lab, s, m, "value", NONE)
                return [(s, NONE)]
            out.append(("value of %s unknown again" % nm, unknown, True))

            def lost(s, m=m):
                hset(lab, s, m, "value", NONE)
                return r.terminate(s, m)
            out.append(("termination of %s" % nm, lost, True))
            v = lab.e.sym("reported", typ="int", lo=0, hi=16383)
            out.append(("report of any value of %s" % nm, lambda s, m=m, v=v: r.report(s, m, v), False))
        if r.enable is not None and ekw.get("enable", True):
            for on in (True, False):
                out.append(("update", lambda s, on=on: r.update(r.set_enabled(s, on)), True))
        return out
    close(chk, lab, cons, r.roots(), r.st, evs, limit if not ekw else limit // 3)
    chk.analysed(lab.e)


# ---- display callbacks, tuner and strobe
def displays():
    out = []
    for a in ({"show_name": True}, {"show_name": True, "show_rig_id": True}, {"show_name": False, "show_rig_id": "rig"}, {"show_name": True, "show_rig_id": "bank"}, {"show_name": False, "show_rig_id": False}):
        out.append((KEM, "KemperRigNameCallback", a))
    out += [("pyswitch.clients.kemper.callbacks.tempo_bpm", "KemperTempoDisplayCallback", {}),
            ("pyswitch.controller.callbacks.parameter_display", "ParameterDisplayCallback", {"mapping": "M"}),
            ("pyswitch.controller.callbacks.parameter_display", "ParameterDisplayCallback", {"mapping": "M", "default_text": "-"}),
            ("pyswitch.clients.local.callbacks.splashes", "SplashesCallback", {"splashes": "R"}),
            (KEM, "TunerDisplayCallback", {"splash_default": "R", "splash_tuner": "T"}),
            (KEM, "TunerDisplayCallback", {"splash_default": "R", "splash_tuner": "T", "process_overridden_actions": True}),
            (KEM, "TunerDisplayCallback", {"splash_default": "R", "strobe": True}),
            ("pyswitch.controller.strobe", "StrobeController", {"mapping_state": "M", "mapping_deviance": "D"}),
            ("pyswitch.controller.strobe", "StrobeController", {"mapping_state": "M", "mapping_deviance": "D", "reverse": True, "switches": 1}),
            ("pyswitch.ui.elements", "TunerDisplay", {"mapping_note": "M", "mapping_deviance": "D", "layout": {"font": "F"}}),
            ("pyswitch.ui.elements", "TunerDisplay", {"mapping_deviance": "D", "deviance_zoom": 1}),
            ("pyswitch.ui.elements", "TunerDisplay", {"mapping_note": "M", "layout": {"font": "F"}})]
    # every display class of the firmware has to appear here
    lab = Lab()
    known = {n for _, n, _ in out}
    for mn, mod in lab.p.modules.items():
        for ci in mod.classes:
            if mn.startswith("pyswitch") and (ci.find("update_label") or ci.find("get_root")) and ci.name not in known and ci.name not in ("DisplayLabel",) and ci.find("update_label" if ci.find("update_label") else "get_root").cls == ci:
                raise AnalysisBroken("display callback %s is not covered" % ci.qual)
    return out


def clock(lab, passed=40):
    """time passed since the last period is a constant (loops over it stay finite); whether the period is over stays unknown"""
    def h(eng, st, b, name, ctx, node):
        if name == "passed" and b[0] == "o":
            ci = eng.class_of(b, st)
            if ci is not None and ci.qual == PERIOD:
                return [(st, c(passed))]
        return None
    lab.e.attr_hooks.insert(0, h)


def display(chk, x, _env):
    modname, name, kw = x
    kw = dict(kw)
    n = kw.pop("switches", 2)
    lab = Lab()
    clock(lab)
    e, st = lab.e, lab.st
    cons = "%s%s" % (name, kw or "")
    maps = {}
    for k, v in list(kw.items()):
        if v in ("M", "D"):
            maps[v] = kw[k] = mapping(lab, st, v)
        elif v in ("R", "T"):
            kw[k] = lab.bound("splash" + v, {"bounds": None}, st=st)
            (st, b), = must(lab, lab.new(lab.cls("pyswitch.ui.ui", "DisplayBounds"), [c(0), c(0), c(240), c(200)], st=st), "DisplayBounds")
            hset(lab, st, kw[k], "bounds", b)
        else:
            kw[k] = build(lab, v, st)
    if name == "TunerDisplay":
        (st, b), = must(lab, lab.new(lab.cls("pyswitch.ui.ui", "DisplayBounds"), [c(0), c(0), c(240), c(200)], st=st), "DisplayBounds")
        kw["bounds"] = b
    r = ok(chk, "create", cons, lab.new(lab.cls(modname, name), [], kw, st=st))
    if len(r) != 1:
        return
    st, o = r[0]
    appl, cl = application(lab, st)
    acts = [lab.bound("action%d" % i, {}, st=st) for i in range(n)]
    sws = [switch(lab, st, (i,), [acts[i]]) for i in range(n)]
    for i, s in enumerate(sws):
        hset(lab, st, s, "strobe_order", c(n - i))
        hset(lab, st, s, "override_action", NONE)
    e.hw(st, hget(lab, st, appl, "inputs")).items.extend(sws)
    ui = lab.bound("ui", {}, st=st)
    listener = lab.bound("listener", {}, st=st)
    ci = lab.cls(modname, name)
    np = len(ci.find("init").node.args.args) if ci.find("init") else 0
    if not np:
        raise AnalysisBroken("%s has no init" % name)
    first = [a.arg for a in ci.find("init").node.args.args][1]
    args = [ui, appl] if first == "ui" else [appl, listener][:np - 1]
    if name == "StrobeController":
        args = [appl]
    r = ok(chk, "create", cons + " init", lab.method(o, "init", args, st=rebase(st)))
    if not r:
        return
    regs = []
    for s, _ in r:
        for ev in calls(s.trace(), cl, "register"):
            a = list(ev.args) + list(ev.kwargs.values())
            if (a[0], a[1] if len(a) > 1 else NONE) not in regs:
                regs.append((a[0], a[1] if len(a) > 1 else NONE))
    lb = closed_label(lab, st, "label")
    start = rebase(r[0][0])
    lb = closed_label(lab, start, "label")
    roots = [o, lb, appl] + sws + list({m: 1 for m, l in regs})

    def each(s, m, meth, v=None):
        s = s.fork()
        if v is not None:
            hset(lab, s, m, "value", v)
        cur = [(s, NONE)]
        for mm, l in regs:
            if mm != m or l == NONE:
                continue
            nxt = []
            for s1, x1 in cur:
                nxt += [(s1, x1)] if isinstance(x1, Raise) else lab.method(l, meth, [m], st=s1)
            cur = nxt
        return cur

    def evs(s):
        out = []
        for m in {m: 1 for m, l in regs}:
            nm = plain(lab, lab.e.h(s, m).attrs.get("name", NONE), s)
            for v in (c(0), c(1), c(16383), lab.e.sym("reported", typ="int", lo=0, hi=16383)):
                out.append(("report of %s" % nm, lambda s, m=m, v=v: each(s, m, "parameter_changed", v), v[0] == "c"))
            out.append(("termination of %s" % nm, lambda s, m=m: each(s, m, "request_terminated"), True))
            out.append(("loss of %s" % nm, lambda s, m=m: each(s, m, "request_terminated", NONE), True))
        for meth, args in (("update", []), ("update_label", [lb]), ("get_root", []), ("push", []), ("release", []), ("reset", [])):
            if ci.find(meth) is not None:
                out.append((meth, lambda s, meth=meth, args=args: lab.method(o, meth, args, st=s), True))
        if ci.find("update_label") is not None:
            for b in (3, None):
                def pre(s, b=b):
                    d = lab.e.hw(s, hget(lab, s, appl, "shared")).items
                    if b is None:
                        d.pop(c("preselectedBank"), None)
                    else:
                        d[c("preselectedBank")] = c(b)
                    return lab.method(o, "update", [], st=s)
                out.append(("preselection", pre, True))
        return out
    close(chk, lab, cons, roots, start, evs, 200 if chk.tier == "quick" else 1500, rulef=lambda w: "display")
    chk.analysed(e)


# ---- generic pedals and wheels
CONTINUOUS = [("EncoderAction", {}), ("EncoderAction", {"preview": True}), ("EncoderAction", {"preview": True, "reset": True, "accept": True, "cancel": True}), ("EncoderAction", {"accept": True}), ("AnalogAction", {}), ("AnalogAction", {"auto_calibrate": True})]


def continuous(chk, x, _env):
    name, kw = x
    lab = Lab()
    e, st = lab.e, lab.st
    cons = "%s%s" % (name, sorted(kw) or "")
    kw = dict(kw)
    from checks.c06 import message
    m = mapping(lab, st, "M", set=message(lab, st, SX, [0, 1, 2], [1, 2, 3, 4, 5, 6]))
    a = {"mapping": m}
    btns = []
    lb = closed_label(lab, st)
    maps = [m]
    for n in ("accept", "cancel"):
        if kw.pop(n, False):
            (st, b), = must(lab, lab.call(lab.fn("pyswitch.clients.local.actions.encoder_button", "ENCODER_BUTTON"), st=st), "ENCODER_BUTTON()")
            a[n + "_action"] = b
            btns.append(b)
    if kw.pop("preview", False):
        a["preview_display"] = lb
    if kw.pop("reset", False):
        rm = a["preview_reset_mapping"] = mapping(lab, st, "R")
        maps.append(rm)
    a.update({k: build(lab, v, st) for k, v in kw.items()})
    r = ok(chk, "create", cons, lab.new(lab.cls("pyswitch.controller.actions." + name, name), [], a, st=st))
    if len(r) != 1:
        return
    st, o = r[0]
    appl, cl = application(lab, st)
    sws = [switch(lab, st, (0,), [b]) for b in btns]
    (st, _), = must(lab, lab.method(o, "init", [appl], st=st), "init")
    for b, s in zip(btns, sws):
        (st, _), = must(lab, lab.method(b, "init", [appl, s], st=st), "init of the button")
    regs = []
    for ev in calls(st.trace(), cl, "register"):
        l = list(ev.args) + list(ev.kwargs.values())
        regs.append((l[0], l[1] if len(l) > 1 else NONE))
    start = rebase(st)
    roots = [o, lb] + btns + maps

    def notify(s, mm, meth, v=None):
        if v is not None:
            hset(lab, s, mm, "value", v)
        cur = [(s, NONE)]
        for m2, l in regs:
            if m2 == mm and l != NONE:
                cur = [y for s1, x1 in cur for y in ([(s1, x1)] if isinstance(x1, Raise) else lab.method(l, meth, [mm], st=s1))]
        return cur

    def evs(s):
        out = []
        for p in (0, 1, 40000, 65535) if name == "AnalogAction" else (-3, 0, 2):
            out.append(("move", lambda s, p=p: lab.method(o, "process", [c(p)], st=s), True))
        for b in btns:
            for meth in ("push", "release", "update", "update_displays", "reset"):
                out.append((meth, lambda s, b=b, meth=meth: lab.method(b, meth, [], st=s), True))
        for meth in ("update", "reset"):
            if lab.e.class_of(o, s).find(meth):
                out.append((meth, lambda s, meth=meth: lab.method(o, meth, [], st=s), True))
        for mm in maps:
            nm = plain(lab, lab.e.h(s, mm).attrs["name"], s)
            for v in (c(0), c(16383)):
                out.append(("report of %s" % nm, lambda s, mm=mm, v=v: notify(s, mm, "parameter_changed", v), True))
            out.append(("termination of %s" % nm, lambda s, mm=mm: notify(s, mm, "request_terminated", NONE), True))
        return out
    close(chk, lab, cons, roots, start, evs, 150 if chk.tier == "quick" else 1500)
    chk.analysed(e)
