"""Tuner mode: real tuner display callback, UI controller and switches over all sequences of tuner reports and switch edges."""
from checks.common import *
from checks import c01
from checks import ui as U
from checks.world import World

UIC = "pyswitch.ui.UiController"
ON, OFF = 1, 0


def run(chk):
    chk.rule("display", "the tuner display is shown exactly while the device reports tuner mode on, the default display otherwise")
    chk.rule("leave", "releasing a switch pushed while the tuner is on switches the tuner off on the device, once; nothing else sends")
    chk.rule("opener", "the release of the press which opened the tuner does not close it")
    chk.rule("swallow", "while the tuner is on the actions see nothing of the switches unless that is configured")
    chk.rule("back", "when the tuner is off every switch works again, and every action of it is reset and redrawn")
    chk.rule("dark", "LEDs are dark in tuner mode unless actions stay active")
    chk.rule("strobe", "strobe LEDs only move while the tuner is on, within the configured brightness and in the configured colour")
    chk.rule("note", "the tuner display shows the reported note name, deviance position and tuning colour")
    chk.rule("total", "no tuner report or press raises an error")
    jobs = [(p, own, n) for p in (False, True) for own, n in ((True, 2), (True, 1), (False, 1))]
    parallel(chk, modes, jobs)
    parallel(chk, strobe, [(n, rev, dimf) for n in (1, 2, 4) for rev in (True, False) for dimf in (0.1, 1)])
    parallel(chk, notes, [(z, cal) for z in (None, 1, 2.4, 6) for cal in (None, (9000, 8000))])
    for r, n in (("display", 500), ("leave", 300), ("opener", 20), ("swallow", 300), ("back", 200), ("strobe", 200), ("note", 100)):
        chk.floor(r, n)


def scene(lab, w, own, **kw):
    """tuner callback with its UI controller, initialised as the application does"""
    U.hardware(lab)
    hset(lab, w.st, w.appl, "low_memory_warning", FALSE)
    (w.st, b), = must(lab, lab.new(lab.cls(U.UI, "DisplayBounds"), [c(0), c(0), c(240), c(240)], {}, st=w.st), "DisplayBounds")
    (w.st, default), = must(lab, lab.new(lab.cls(U.UI, "DisplayElement"), [], {"bounds": b}, st=w.st), "DisplayElement")
    own_tuner = None
    if own:
        (w.st, own_tuner), = must(lab, lab.new(lab.cls(U.UI, "DisplayElement"), [], {"bounds": b}, st=w.st), "DisplayElement")
        kw["splash_tuner"] = own_tuner
    cb = w.make(KEM, "TunerDisplayCallback", splash_default=default, **kw)
    return cb, default, own_tuner


def connect(chk, lab, w, cb, cons):
    """initialises the user interface; adds its listeners to those of the world; returns the screen"""
    tft = lab.bound("tft", {}, st=w.st)
    drv = lab.bound("display_driver", {"tft": tft, "width": c(240), "height": c(240)}, st=w.st)
    loader = lab.bound("font_loader", {}, st=w.st, methods={"get": lambda eng, s, a, k: tup(c("font"), a[0])})
    (w.st, ui), = must(lab, lab.new(lab.cls(UIC, "UiController"), [drv, loader, cb], {}, st=w.st), "UiController")
    for m, a in (("init", [w.appl]), ("show", [])):
        r = ok(chk, "total", cons + ": start", lab.method(ui, m, a, st=w.st))
        if len(r) != 1:
            return None
        w.st = r[0][0]
    learn(lab, w, w.st.trace())
    shown = [x.args[0] for x in calls(w.st.trace(), tft, "show")]
    w.st = rebase(w.st)
    return tft, ui, shown


def learn(lab, w, tr):
    for ev in calls(tr, w.cl, "register"):
        l = list(ev.args) + list(ev.kwargs.values())
        k = (l[0], l[1] if len(l) > 1 else None)
        if k not in w.regs:
            w.regs.append(k)


def named(lab, w, m, word):
    n = plain(lab, hget(lab, w.st, m, "name"), w.st)
    return isinstance(n, str) and word in n.lower()


def state_mapping(lab, w, st):
    (w.st, m), = must(lab, lab.call(lab.e.fv(lab.cls(KEM, "KemperMappings").find("TUNER_MODE_STATE")), [], st=w.st), "TUNER_MODE_STATE")
    return m


def modes(chk, process, own, n):
    w = World()
    lab, e = w.lab, w.lab.e
    base = "%s, %s tuner display, %d switches" % ("actions stay active" if process else "default", "own" if own else "standard", n + 1)
    cb, default, own_tuner = scene(lab, w, own, process_overridden_actions=process)
    m = state_mapping(lab, w, w.st)
    w.put(w.make(KEM + ".actions.tuner", "TUNER_MODE"))
    recs = []
    for i in range(n):
        acts = [w.recorder("action %d.%d" % (i, j), "PushButtonAction", mode=w.push_mode("ONE_SHOT"), useSwitchLeds=True) for j in range(2 - i)]
        hold = [w.recorder("hold %d" % i, "PushButtonAction", mode=w.push_mode("ONE_SHOT"))] if i == 1 else []
        w.put(*[a for a, x in acts], hold=[a for a, x in hold])
        recs.append((acts, hold))
    if not w.start(chk, "total", base + ": start"):
        return
    got = connect(chk, lab, w, cb, base)
    if got is None:
        return
    tft, ui, shown = got

    def root(s):
        (s2, v), = must(lab, lab.method(cb, "get_root", [], st=s.fork()), "get_root")
        return v
    chk.ob("display", base + ": start", root(w.st) == default and len(shown) == 1, "the default display is not shown at start")
    everyone = [x for acts, hold in recs for x in acts + hold]

    def acts_seen(tr):
        return [x for a, r in everyone for x in calls(tr, r, "state_changed_by_user")]

    # spec: tuner on, switch states (None, "normal", "swallowed", "both"), pushed while on, switch shown
    def steps(s, spec):
        on, sw, flag, mine = spec
        tag = "%s: tuner %s, switches %s%s" % (base, "on" if on else "off", ["up" if x is None else x for x in sw], ", pushed before" if flag else "")
        out = []

        def edge(i):
            def f(s):
                down = sw[i] is None
                cons = "%s: switch %d %s" % (tag, i, "pushed" if down else "released")
                res = []
                for s2, v in ok(chk, "total", cons, w.press(s, i) if down else w.release(s, i)):
                    tr = s2.trace()
                    sent = [x for x in w.sets(s2) if x[0] == m]
                    seen = acts_seen(tr)
                    nflag = flag
                    if on:
                        if down:
                            nflag = True
                            chk.ob("leave", cons, not sent if i or not process else True, "sends %s" % (sent,))
                        elif flag:
                            nflag = False
                            own_sends = 1 if not (process and i == 0) else None
                            good = [v for mm, v in sent].count(OFF) == 1 and len(sent) == 1 if own_sends else any(v == OFF for mm, v in sent)
                            chk.ob("leave", cons, good, "sends %s instead of tuner off once" % ([v for mm, v in sent],))
                        else:
                            chk.ob("opener", cons, not sent, "the tuner is switched %s" % [v for mm, v in sent])
                        if not process:
                            chk.ob("swallow", cons, not seen, "an action is triggered")
                        elif i and down and not recs[i - 1][1]:
                            chk.ob("swallow", cons, len(seen) >= 1, "the actions are not triggered although they stay active")
                        state = None if not down else "normal" if process else "swallowed"
                    else:
                        if down:
                            if i and not recs[i - 1][1]:
                                chk.ob("back", cons, len({x.recv for x in seen}) == len(recs[i - 1][0]), "%d of its %d actions are triggered" % (len({x.recv for x in seen}), len(recs[i - 1][0])))
                            if i == 0:
                                chk.ob("back", cons, len(sent) == 1 and (mine or sent[0][1] == ON), "tuner switch sends %s" % ([v for mm, v in sent],))
                        elif sw[i] == "swallowed":
                            chk.ob("swallow", cons, not seen and not sent, "the release of a push in tuner mode reaches the actions")
                        if i:
                            chk.ob("leave", cons, not sent, "sends %s" % (sent,))
                        state = "normal" if down else None
                    res.append((s2, v, (on, sw[:i] + (state,) + sw[i + 1:], nflag, mine or i == 0)))
                return res
            return f

        def report(val):
            def f(s):
                cons = "%s: tuner %s reported" % (tag, "on" if val == ON else "off")
                res = []
                for s2, v in ok(chk, "total", cons, w.report(s, m, c(val))):
                    tr = s2.trace()
                    learn(lab, w, tr)
                    chk.ob("leave", cons, not w.sets(s2), "sends %s" % (w.sets(s2),))
                    chk.ob("swallow", cons, not acts_seen(tr), "an action is triggered")
                    r = root(s2)
                    shows = calls(tr, tft, "show")
                    if val == ON:
                        chk.ob("display", cons, r != default and (r == own_tuner or not own), "the tuner display is not the current one")
                        if not process:
                            for i in range(n + 1):
                                chk.ob("dark", cons + ", switch %d" % i, all(feq(x, (0, 0, 0)) for x in w.lit(s2, i)), "LEDs show %s" % w.lit(s2, i))
                        elif not on:
                            for i in range(1, n + 1):
                                chk.ob("dark", cons + ", switch %d" % i, w.lit(s2, i) == w.lit(s, i), "the LEDs change")
                    else:
                        chk.ob("display", cons, r == default, "the default display is not the current one")
                        for a, rec in everyone:
                            k = len(calls(tr, rec, "reset"))
                            chk.ob("back", cons + ", an action", k == 1 or (k <= 1 and not on), "it is reset %d times" % k)
                            if on:
                                chk.ob("back", cons + ", redraw", len(calls(tr, rec, "update_displays")) >= 1, "it is not redrawn")
                    want = (val == ON) != on
                    chk.ob("display", cons + ", screen", len(shows) == (1 if want else 0), "the screen is changed %d times" % len(shows))
                    res.append((s2, v, (val == ON, sw, flag if val == ON else False, mine and val == ON)))
                return res
            return f
        for i in range(n + 1):
            out.append(("edge", edge(i)))
        for val in (ON, OFF):
            out.append(("report", report(val)))
        return out
    k, t = explore(lab, w.roots() + [cb, ui], [(w.st, (False, (None,) * (n + 1), False, False))], steps, 4000)
    chk.notes["abstract_states"] = k
    chk.analysed(e)


def strobe(chk, n, reverse, dimf):
    w = World()
    lab, e = w.lab, w.lab.e
    c01.clock(lab, 17)
    base = "strobe on %d switches%s, dim factor %s" % (n, ", reversed" if reverse else "", dimf)
    col = (40, 120, 200)
    cb, default, _ = scene(lab, w, True, strobe=True, strobe_color=col, strobe_dim=dimf, strobe_reverse=reverse)
    m = state_mapping(lab, w, w.st)
    (w.st, dev), = must(lab, lab.call(e.fv(lab.cls(KEM, "KemperMappings").find("TUNER_DEVIANCE")), [], st=w.st), "TUNER_DEVIANCE")
    for i in range(n):
        w.put(w.recorder("action %d" % i, useSwitchLeds=True)[0])
        w.switches[-1]["assignment"]["strobeOrder"] = (i * 3) % n
    if not w.start(chk, "total", base + ": start"):
        return
    got = connect(chk, lab, w, cb, base)
    if got is None:
        return
    levels = {tuple(int(x * b * b * dimf) for x in col) for b in [k / 16 for k in range(17)]}

    def walk(s, on, rest, cons):
        if not rest:
            return
        kind, v = rest[0]
        cons2 = "%s, %s %d" % (cons, kind, v)
        before = [w.lit(s, i) for i in range(n)]
        for s2, _ in ok(chk, "total", base + cons2, w.report(rebase(s), m if kind == "tuner" else dev, c(v))):
            after = [w.lit(s2, i) for i in range(n)]
            chk.ob("leave", base + cons2, not w.sets(s2), "sends %s" % (w.sets(s2),))
            if kind == "deviance":
                if not on or n == 1:
                    chk.ob("strobe", base + cons2, after == before, "the LEDs change")
                else:
                    for i in range(n):
                        chk.ob("strobe", base + cons2 + ", switch %d" % i, any(feq(x, y) for x in after[i] for y in levels | {(0, 0, 0)}), "LEDs %s" % (after[i],))
                    if n > 1 and after != before:
                        moved.append(1)
            walk(s2, (v == 1) if kind == "tuner" else on, rest[1:], cons2)
    moved = []
    for seq in ([("deviance", 9000), ("tuner", 1), ("deviance", 9000), ("deviance", 12000), ("tuner", 0), ("deviance", 3000)],
                [("tuner", 1), ("deviance", 0), ("deviance", 16383), ("deviance", 8191), ("tuner", 1), ("deviance", 0)],
                [("tuner", 1), ("tuner", 0), ("deviance", 5000), ("tuner", 1), ("deviance", 5000), ("deviance", 5000)]):
        walk(w.st, False, seq, "")
    if n > 1:
        chk.ob("strobe", base, bool(moved), "the strobe never moves")
    chk.analysed(e)


def notes(chk, zoom, cal):
    w = World()
    lab, e = w.lab, w.lab.e
    U.hardware(lab)
    hi, lo = cal or (8192 + 350, 8192 - 350)
    base = "TunerDisplay(%s)" % ", ".join(x for x in ("" if zoom is None else "deviance_zoom=%s" % zoom, "" if cal is None else "calibration %d..%d" % (lo, hi)) if x)
    bx, by, bw, bh = 10, 20, 200, 160
    (st, b), = must(lab, lab.new(lab.cls(U.UI, "DisplayBounds"), [c(bx), c(by), c(bw), c(bh)], {}, st=w.st), "DisplayBounds")
    mn, md = mapping(lab, st, "note"), mapping(lab, st, "deviance")
    good, bad = (1, 200, 3), (200, 4, 5)
    names = ["C", "Db", "D", "Eb", "E", "F", "Gb", "G", "Ab", "A", "Bb", "B"]
    kw = {"mapping_note": mn, "mapping_deviance": md, "bounds": b, "layout": {"font": "/f"}, "color_in_tune": good, "color_out_of_tune": bad}
    if zoom is not None:
        kw["deviance_zoom"] = zoom
    if cal:
        kw.update(calibration_high=hi, calibration_low=lo, note_names=["N%d" % i for i in range(12)])
        names = ["N%d" % i for i in range(12)]
    (st, td), = must(lab, lab.new(lab.cls(U.EL, "TunerDisplay"), [], {k: build(lab, v, st) for k, v in kw.items()}, st=st), "TunerDisplay")
    hset(lab, st, w.appl, "low_memory_warning", FALSE)
    st, ui = U.screen(lab, st)
    (st, _), = must(lab, lab.method(td, "init", [ui, w.appl], st=st), "init")
    regs = {tuple(list(x.args) + list(x.kwargs.values())) for x in calls(st.trace(), w.cl, "register")}
    chk.ob("note", base + ": registration", (mn, td) in regs and (md, td) in regs, "its mappings are not registered")
    st = rebase(st)
    (_, splash), = must(lab, lab.get(ui, "splash", st=st), "splash")
    label, = must(lab, lab.get(td, "label_note", st=st), "label_note")

    def report(s, m, v):
        s = s.fork()
        hset(lab, s, m, "value", c(v))
        return ok(chk, "total", base, lab.method(td, "parameter_changed", [m], st=s))

    def marker(s):
        rects = [(k, o, x, y) for k, o, x, y in U.things(lab, s, splash) if k == "Rect"]
        return [(U.num(lab, s, o, "x") + x, U.num(lab, s, o, "width"), U.attr(lab, s, o, "fill")) for k, o, x, y in rects]
    for note in list(range(128)) if chk.thorough else list(range(0, 26)) + [60, 127]:
        for s, _ in report(st, mn, note):
            t = plain(lab, lab.get(label[1], "text", st=s)[0][1], s)
            chk.ob("note", "%s: note %d" % (base, note), t == names[note % 12], "shows %r" % (t,))
            for s2, _ in report(rebase(s), mn, (note + 7) % 128):
                t = plain(lab, lab.get(label[1], "text", st=s2)[0][1], s2)
                chk.ob("note", "%s: note %d after %d" % (base, (note + 7) % 128, note), t == names[(note + 7) % 128 % 12], "shows %r" % (t,))
    vals = sorted({0, 1, 8191, 8192, 8193, 16383, lo, lo - 1, hi, hi + 1} | set(range(0, 16384, 64 if chk.thorough else 1024)))
    last = None
    s = st
    fixed = marker(st)
    for v in vals + [8192, 0, 16383, 8192]:
        for s2, _ in report(rebase(s), md, v):
            tune = lo <= v <= hi
            col = good if tune else bad
            mk = marker(s2)
            moving = [x for x, f in zip(mk, fixed)] if len(mk) != 2 else mk[1:]
            for x, wd, fill in moving:
                chk.ob("note", "%s: deviance %d, position" % (base, v), bx <= x and x + wd <= bx + bw, "marker at %s..%s outside of the display" % (x, x + wd))
                if v != 8192 or last is not None:
                    chk.ob("note", "%s: deviance %d, marker colour" % (base, v), feq(fill, col), "marker in %s" % (fill,))
            if v != 8192 or last is not None:
                tc = plain(lab, lab.get(label[1], "text_color", st=s2)[0][1], s2)
                chk.ob("note", "%s: deviance %d, note colour" % (base, v), feq(tc, col), "note in %s" % (tc,))
            if last is not None and moving and last[1] is not None:
                mid = moving[0][0]
                chk.ob("note", "%s: deviance %d after %d" % (base, v, last[0]), (mid >= last[1]) if v > last[0] else (mid <= last[1]), "the marker moves the wrong way")
            last = (v, moving[0][0] if moving else None)
            s = s2
    mid = [x for x in marker(s)]
    if len(mid) == 2:
        chk.ob("note", base + ": in tune position", abs(mid[1][0] - mid[0][0]) <= 2, "the marker for a perfect note is at %s, the target at %s" % (mid[1][0], mid[0][0]))
    chk.analysed(e)
