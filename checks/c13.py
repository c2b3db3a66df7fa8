"""Disabled actions: typestate of every shipped action (and of the action base classes with any callback) under all events while its enable callback says no."""
from checks.common import *
from checks.factories import Rig, instances
from checks import c02

SAMPLES = {"quick": ([None, 33], 260), "thorough": ([None, 1, 33, 9000], 1500)}


def run(chk):
    chk.rule("silent", "while disabled no event changes LEDs or labels and nothing is sent")
    chk.rule("input", "switches, pedals and wheels do not drive disabled actions")
    chk.rule("notice", "a change of the enabled state resets the callback exactly once at the next update, and never otherwise")
    chk.rule("redraw", "an action that becomes enabled draws its LEDs and label again at the next update")
    chk.rule("restore", "an action that is enabled again shows what it showed before, as long as nothing has changed")
    chk.rule("total", "no event raises an error while disabled")
    base(chk)
    inputs(chk)
    parallel(chk, factory, instances())
    for r, n in (("silent", 2000), ("redraw", 150), ("notice", 15), ("input", 30), ("restore", 400)):
        chk.floor(r, n)


# ---- base classes with a boundary callback
def base(chk):
    for cn in ("Action", "PushButtonAction"):
        for withcb in (True, False):
            lab = Lab()
            e, st = lab.e, lab.st
            en = lab.bound("enable", {"on": TRUE}, st=st)
            lab.handlers[(en, "enabled")] = lambda eng, s, a, k: hget(lab, s, en, "on")
            cb = lab.bound("callback", {}, st=st)
            lb = closed_label(lab, st, "label")
            cfg = {"display": lb, "useSwitchLeds": True, "enableCallback": en}
            if withcb:
                cfg["callback"] = cb
            (st, act), = must(lab, lab.new(lab.cls(ACT, cn), [build(lab, cfg, st)], st=st), cn)
            sw = switch(lab, st, (0, 1), [act])
            appl, cl = application(lab, st)
            r = ok(chk, "total", cn + ".init", lab.method(act, "init", [appl, sw], st=st))
            if not r:
                continue
            (st, _), = r
            tr = st.trace()
            if withcb:
                chk.ob("notice", cn + ".init", len(calls(tr, cb, "init")) == 1 and len(calls(tr, en, "init")) == 1, "callback and enable callback are not initialised once each")

            def one(s, spec, name, on, toggled):
                cons = "%s%s %s, %s" % (cn, "" if withcb else " without callback", name, "enabled" if on else "disabled")
                tr = s.trace()
                n = len(calls(tr, cb, "reset"))
                d = len(calls(tr, cb, "update_displays"))
                if withcb:
                    if name == "update":
                        chk.ob("notice", cons, n == (1 if toggled else 0), "%d resets at an update %s" % (n, "after a change" if toggled else "without change"))
                        chk.ob("redraw", cons, d == (1 if toggled and on else 0), "%d redraws" % d)
                    elif not on:
                        chk.ob("silent", cons, d == 0, "%d redraws while disabled" % d)
                if not on:
                    cols = plain(lab, hget(lab, s, sw, "colors"), s)
                    chk.ob("silent", cons + " LEDs", cols == [(0, 0, 0), (0, 0, 0)] or spec[2], "LEDs %s" % cols)

            def steps(s, spec):
                on, last, lit = spec

                def go(name, run, newon=None):
                    def f(s):
                        o = on if newon is None else newon
                        out = []
                        for s2, v in ok(chk, "total", "%s %s" % (cn, name), run(s)):
                            one(s2, spec, name, o, name == "update" and o != last)
                            out.append((s2, v, (o, o if name == "update" else last, lit)))
                        return out
                    return (name, f)

                def setc(s):
                    cur = []
                    before = lab.canon(s, hget(lab, s, sw, "colors"))
                    bb = lab.canon(s, hget(lab, s, sw, "brightnesses"))
                    for s1, v in lab.set(act, "switch_color", c((7, 8, 9)), st=s):
                        for s2, v2 in (lab.set(act, "switch_brightness", c(0.7), st=s1) if not isinstance(v, Raise) else [(s1, v)]):
                            if not isinstance(v2, Raise):
                                same = before == lab.canon(s2, hget(lab, s2, sw, "colors")) and bb == lab.canon(s2, hget(lab, s2, sw, "brightnesses"))
                                chk.ob("silent" if not on else "redraw", "%s colour set while %s" % (cn, "enabled" if on else "disabled"), same != on, "LEDs %s" % ("unchanged" if on else "changed"))
                                hset(lab, s2, sw, "colors", e.mklist(s2, [c((0, 0, 0))] * 2))
                                hset(lab, s2, sw, "brightnesses", e.mklist(s2, [c(0)] * 2))
                            cur.append((s2, v2))
                    return cur
                out = [go("update", lambda s: lab.method(act, "update", st=s)), go("update_displays", lambda s: lab.method(act, "update_displays", st=s)),
                       go("reset", lambda s: lab.method(act, "reset", st=s)), go("colour", setc)]
                for x in (True, False):
                    def tog(s, x=x):
                        hset(lab, s, en, "on", c(x))
                        return lab.method(act, "update", st=s)
                    out.append(go("update", tog, x))
                return out
            # the first update always counts as a change
            n, t = explore(lab, [act, en, sw, lb], [(st, (True, None, False))], steps)
            # listener of parameters
            if withcb:
                reg = calls(tr, cb, "init")[0]
                listener = (list(reg.args) + list(reg.kwargs.values()))
                if len(listener) > 1:
                    for on in (True, False):
                        for ev in ("parameter_changed", "request_terminated"):
                            s = rebase(st)
                            hset(lab, s, en, "on", c(on))
                            for lit in (True, False):
                                hset(lab, s, cb, "enabled", c(lit))
                            for s2, v in ok(chk, "total", cn + " " + ev, lab.method(listener[1], ev, [lab.bound("m", {}, st=s)], st=s)):
                                d = len(calls(s2.trace(), cb, "update_displays"))
                                chk.ob("silent" if not on else "redraw", "%s: %s while %s" % (cn, ev, "enabled" if on else "disabled"), d == (1 if on else 0), "%d redraws" % d)
            chk.analysed(e)


def inputs(chk):
    rule = "input"
    for hold, repeat in ((False, None), (True, False), (True, True)):
        rig = c02.Rig(hold, repeat, None)
        lab, e = rig.lab, rig.lab.e
        name = "switch[%s]" % ("hold" + ("+repeat" if repeat else "") if hold else "short")

        def steps(s, spec):
            out = []
            for pushed in (True, False):
                for en in ((True, True), (False, True), (True, False), (False, False)):
                    def f(s, pushed=pushed, en=en):
                        for grp in (rig.acts, rig.holds):
                            for a, v in zip(grp, en):
                                e.hw(s, a).attrs["enabled"] = c(v)
                        e.hw(s, rig.model).attrs["pushed"] = c(pushed)
                        out = []
                        for s2, v in ok(chk, "total", name, lab.method(rig.obj, "process", st=s)):
                            ev = rig.events(s2.trace())
                            for i, v2 in enumerate(en):
                                if not v2:
                                    chk.ob(rule, "%s %s action %d disabled" % (name, "down" if pushed else "up", i + 1), not [x for x in ev if x[0][1] == str(i + 1)], "disabled action receives %s" % ev)
                            out.append((s2, v, pushed))
                        return out
                    out.append(("x", f))
            return out
        explore(lab, [rig.obj], [(rig.init_state, False)], steps)
        chk.analysed(e)
    for kind, attrs in (("pedal", {"value": 40000}), ("wheel", {"position": 7})):
        for en in ((True, True), (False, True), (True, False), (False, False)):
            lab = Lab()
            e, st = lab.e, lab.st
            acts = [lab.bound("action%d" % i, {"enabled": c(v)}, st=st) for i, v in enumerate(en)]
            model = closed_label(lab, st, kind)
            o = e.hw(st, model)
            o.attrs.clear()
            for k, v in attrs.items():
                o.attrs[k] = c(v)
            o.attrs["init"] = ("mcall", model, "init")
            cfg = build(lab, {"assignment": {"model": model}, "actions": [acts[0], [acts[1]]]}, st)
            appl = lab.bound("appl", {}, st=st)
            (st, obj), = must(lab, lab.new(lab.cls(c02.MOD, "ContinuousController"), [appl, cfg], st=st), "ContinuousController")
            for s, v in ok(chk, "total", kind, lab.method(obj, "process", st=rebase(st))):
                for i, a in enumerate(acts):
                    n = len(calls(s.trace(), a, "process"))
                    chk.ob(rule, "%s, action %d %s" % (kind, i + 1, "enabled" if en[i] else "disabled"), n == (1 if en[i] else 0), "action receives %d values" % n)
            chk.analysed(e)


# ---- every shipped action
def factory(chk, cons, name, mod, kw):
    r = Rig(name, mod, kw)
    lab = r.lab
    if r.raised is not None:
        chk.ob("total", cons, False, "cannot be created: %r" % r.raised, r.where)
        return
    restore(chk, cons, r)
    vals, limit = SAMPLES[chk.tier]
    drawn = initially_drawn(chk, cons, r)
    seen, todo = set(), []

    def push(s, on):
        s = rebase(s)
        k = (tuple(lab.canon(s, x) for x in r.roots()), on)
        if k not in seen and len(seen) < limit:
            seen.add(k)
            todo.append((s, on))
    (s0, v0), = [x for x in r.update(r.st)][:1]
    push(r.st, True)
    push(s0, True)
    i = 0
    while i < len(todo):
        s, on = todo[i]
        i += 1
        for what, run in events(r, s, on, vals):
            before = view(r, s)
            for s2, v in run(s.fork()):
                if isinstance(v, Raise):
                    chk.ob("total", "%s: %s while %s" % (cons, what, "enabled" if on else "disabled"), False, "raises %s %s" % (v.exc, v.msg), v.where)
                    continue
                if on:
                    push(s2, True)
                    continue
                after = view(r, s2)
                chk.ob("silent", "%s: %s" % (cons, what), unchanged(before, after), "the disabled action changes its display", r.where)
                snt = r.sends(s2)
                chk.ob("silent", "%s: %s sends" % (cons, what), not snt, "the disabled action sends %s" % [x.name for x in snt], snt[0].where if snt else r.where)
                push(s2, False)
        if on:
            push(r.set_enabled(s, False), False)
        elif not r.continuous:
            back(chk, cons, r, s, drawn)
    chk.analysed(lab.e)
    chk.notes["abstract_states"] = len(seen)


def view(r, st):
    """visible state; an ending preview (override text removed, its text colour restored) is not an effect of the action"""
    return r.visible(st)


def unchanged(a, b):
    for x, y in zip(a, b):
        if len(x) == 4:
            if x[:2] != y[:2] or (y[3] != x[3] and y[3] != NONE):
                return False
        elif x != y:
            return False
    return True


def events(r, st, on, vals):
    out = [("update", lambda s: r.update(s)), ("reset", lambda s: r.reset(s)), ("redraw", lambda s: r.redraw(s))]
    for i, m in enumerate(r.mappings):
        nm = plain(r.lab, r.lab.e.h(st, m).attrs.get("name", NONE), st)
        nm = nm if isinstance(nm, str) else "mapping %d" % i
        for v in vals:
            out.append(("report of %s" % nm, lambda s, m=m, v=v: r.report(s, m, c(v))))
        out.append(("termination of %s" % nm, lambda s, m=m: r.terminate(s, m)))
    if not r.continuous:
        # another action preselects a bank and blinks
        for b in (True, False):
            def blink(s, b=b):
                d = r.lab.e.hw(s, hget(r.lab, s, r.appl, "shared"))
                d.items[c("preselectedBank")] = c(3)
                d.items[c("preselectBlinkState")] = c(b)
                d.items.setdefault(c("preselectCallback"), NONE)
                return r.update(s)
            out.append(("blinking preselection", blink))
    if on:
        if r.continuous:
            for p in (0, 90):
                out.append(("move", lambda s, p=p: r.each(s, r.actions, "process", [c(p)])))
        else:
            out.append(("push", lambda s: r.each(s, r.actions, "push")))
            out.append(("release", lambda s: r.each(s, r.actions, "release")))
    return out


def initially_drawn(chk, cons, r):
    """what the action draws when it is first updated with known values: parts of the display that are no longer junk"""
    parts = None
    if r.continuous:
        return ()
    for v in (None, 33):
        s = r.spoil(r.st)
        for m in r.mappings:
            hset(r.lab, s, m, "value", c(v))
        for s2, x in r.update(s):
            if isinstance(x, Raise):
                chk.ob("total", cons + ": first update", False, "raises %s %s" % (x.exc, x.msg), x.where)
                continue
            p = frozenset(junkfree(r, s2))
            parts = p if parts is None else parts & p
    return parts or ()


def junkfree(r, st):
    out = []
    lab = r.lab
    if plain(lab, hget(lab, st, r.label, "text"), st) != "<junk>":
        out.append("text")
    if plain(lab, hget(lab, st, r.label, "back_color"), st) != (99, 99, 98):
        out.append("label colour")
    cols = plain(lab, hget(lab, st, r.switch, "colors"), st)
    brs = plain(lab, hget(lab, st, r.switch, "brightnesses"), st)
    if all(x != (99, 99, 98) for x in cols):
        out.append("LED colours")
    if all(x != 99 for x in brs):
        out.append("LED brightness")
    return out


def back(chk, cons, r, s, drawn):
    """disabled at an update, then enabled again, its display taken over by others meanwhile"""
    for s1, v in r.update(s.fork()):
        if isinstance(v, Raise):
            continue
        s2 = r.spoil(r.set_enabled(rebase(s1), True))
        for s3, v3 in r.each(s2, r.actions, "update"):
            if isinstance(v3, Raise):
                chk.ob("total", cons + ": enabled again", False, "raises %s %s" % (v3.exc, v3.msg), v3.where)
                continue
            got = junkfree(r, s3)
            for p in drawn:
                chk.ob("redraw", "%s: %s when enabled again" % (cons, p), p in got, "not drawn again", r.where)


def parts(r, s):
    """visible parts with their junk markers"""
    lab = r.lab
    out = {}
    for n, l in (("label", r.label), ("preview", r.preview)):
        if l:
            for a in ("text", "back_color"):
                out["%s %s" % (n, a)] = plain(lab, hget(lab, s, l, a), s)
    for i, x in enumerate(plain(lab, hget(lab, s, r.switch, "colors"), s)):
        out["LED %d colour" % i] = x
    for i, x in enumerate(plain(lab, hget(lab, s, r.switch, "brightnesses"), s)):
        out["LED %d brightness" % i] = x
    return out


def restore(chk, cons, r):
    """page left and entered again, with another page shown meanwhile"""
    if r.continuous:
        return
    junk = parts(r, r.spoil(r.st))

    def run(states, fn):
        out = []
        for s in states:
            for s1, v in fn(rebase(s)):
                if isinstance(v, Raise):
                    chk.ob("total", cons + ": shown again", False, "raises %s %s" % (v.exc, v.msg), v.where)
                else:
                    out.append(s1)
        return out[:4]

    def shown(s, what):
        before = parts(r, s)
        away = run([r.set_enabled(s, False)], r.update)
        for b in run([r.set_enabled(r.spoil(x), True) for x in away], r.update):
            after = parts(r, b)
            for p, x in before.items():
                if x != junk[p]:
                    chk.ob("restore", "%s: %s %s" % (cons, p, what), after[p] == x, "%r is shown as %r after the page has been left and entered again" % (x, "what the other page left there" if after[p] == junk[p] else after[p]), r.where)
    first = run([r.spoil(r.st)], r.update)
    for v in (None, 0, 1, 33, 16383):
        cur = first
        if v is not None:
            for m in r.mappings:
                name = plain(r.lab, r.lab.e.h(cur[0], m).attrs.get("name", NONE), cur[0])
                if str(name).lower().startswith("tuner") and len(r.mappings) > 1:
                    # display actions leave the switch to the tuner
                    continue
                cur = run(cur, lambda s, m=m: r.report(s, m, c("Name %s" % v) if r.mtype(m, s) == "str" else c(v)))
            cur = run(cur, r.update)
        for s in cur:
            shown(s, "of value %s" % v)
        if r.mappings:
            # what a push shows has to be confirmed by the device
            continue
        for n in (1, 2):
            cur = run(cur, lambda s: r.each(s, r.actions, "push"))
            cur = run(cur, lambda s: r.each(s, r.actions, "release"))
            cur = run(cur, r.update)
            for s in cur:
                shown(s, "of value %s, pushed %d times" % (v, n))
