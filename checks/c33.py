"""Generic actions: messages, keys and values sent by the local actions over all push sequences; their displays."""
from checks.common import *
from checks import c06
from checks.world import World

A = "pyswitch.clients.local.actions."
LOC = {"CUSTOM_MESSAGE": "custom", "ROTATING_MESSAGES": "rotate", "PARAMETER_UP_DOWN": "param_change", "HID_KEYBOARD": "hid", "DISPLAY_FIXED_TEXT": "fixed_text"}
NRPN = 16383


def run(chk):
    chk.rule("message", "custom and rotating actions send exactly the configured raw message on push and, if any, the release message on release")
    chk.rule("rotate", "rotating actions cycle through their messages, colours and texts in order, one step per push and release")
    chk.rule("step", "parameter change actions set the known value plus the offset, kept inside the range, once per push")
    chk.rule("unknown", "nothing is set while the value is unknown")
    chk.rule("repeat", "a held switch repeats the step each time the repeat interval is over, a released one never")
    chk.rule("keys", "keyboard actions press each configured key once in order on push and leave no key pressed")
    chk.rule("display", "label and LEDs show configured texts and colours, in range")
    chk.rule("total", "no push, release or report raises an error")
    jobs = [(custom, (m, r)) for m in ([], [1], [176, 80, 0], (240, 0, 32, 51, 247), list(range(256))) for r in (None, [176, 80, 127], (255,))]
    for n in (None, 1, 2, 3):
        for k in (None, 1, 2):
            for d in (None, 3):
                jobs.append((rotate, (n, k, d, 1)))
    jobs += [(rotate, (2, 1, 2, 2)), (rotate, (3, None, None, 3)), (rotate, (None, 2, 2, 2))]
    for off in (1, -1, 5, -30, 127, 2000):
        for mx in (None, 50, NRPN):
            for sx in (True, False):
                if chk.thorough or (off in (1, -30) or mx is None):
                    jobs.append((step, (off, mx, sx)))
    jobs += [(repeat, (iv,)) for iv in (200, 50, 0, None)]
    jobs += [(hid, (k,)) for k in (0x4f, [4], (4, 5, 6), [7, 7], [])]
    jobs += [(fixed, (b,)) for b in (None, (9, 8, 7))]
    parallel(chk, job, jobs)
    for r, n in (("message", 100), ("rotate", 200), ("step", 500), ("unknown", 20), ("repeat", 50), ("keys", 30), ("display", 300)):
        chk.floor(r, n)


def job(chk, fn, args):
    fn(chk, *args)


def make(chk, w, name, cons, labels=1, **kw):
    lab = w.lab
    label = closed_label(lab, w.st, "label", back_color=c((1, 2, 3)))
    act = w.make(A + LOC[name], name, display=label, **kw)
    lst = lab.e.h(w.st, act).items if act[0] == "o" and lab.e.h(w.st, act).kind == "list" else [act]
    w.put(*lst, n=max(1, len(lst)))
    if not w.start(chk, "total", cons):
        return None
    cur = ok(chk, "total", cons + ": first update", w.update(w.st))
    if not cur:
        return None
    w.st = rebase(cur[0][0])
    return label


def raw(w, s):
    """raw bytes of all messages sent"""
    lab, out = w.lab, []
    for ev in s.trace():
        if ev.kind == "call" and ev.name == "send":
            x = (list(ev.args) + list(ev.kwargs.values()))[0]
            r = lab.method(x, "__bytes__", st=s.fork())
            if len(r) != 1 or isinstance(r[0][1], Raise):
                out.append("?")
                continue
            b = plain(lab, r[0][1], r[0][0])
            out.append(list(b) if isinstance(b, (bytes, bytearray, list, tuple)) else b)
    return out


def custom(chk, msg, rel):
    w = World()
    lab = w.lab
    base = "CUSTOM_MESSAGE(%s, release=%s)" % (msg if len(msg) < 9 else "%d bytes" % len(msg), rel)
    kw = {"message": msg, "text": "Tx", "color": (20, 40, 60), "led_brightness": 0.5}
    if rel is not None:
        kw["message_release"] = rel
    label = make(chk, w, "CUSTOM_MESSAGE", base, **kw)
    if label is None:
        return
    s = w.st
    for i in range(3):
        for down in (True, False):
            r = ok(chk, "total", base, w.edge(s, 0, down))
            if not r:
                return
            s = r[0][0]
            want = [list(msg)] if down else [] if rel is None else [list(rel)]
            chk.ob("message", "%s: %s %d" % (base, "push" if down else "release", i), raw(w, s) == want and not w.sets(s), "sends %s" % (raw(w, s),))
            look(chk, w, s, base, label, "Tx", (20, 40, 60), dim((20, 40, 60), 0.5))
            s = rebase(s)
            r = ok(chk, "total", base, w.update(s))
            if not r:
                return
            s = r[0][0]
            chk.ob("message", base + ": update", not raw(w, s) and not w.sets(s), "sends %s" % (raw(w, s),))
            s = rebase(s)
    chk.analysed(lab.e)


def look(chk, w, s, cons, label, text, back, leds):
    lab = w.lab
    if text is not None:
        t = plain(lab, hget(lab, s, label, "text"), s)
        chk.ob("display", cons + ": text", t == text, "shows %r instead of %r" % (t, text))
    if back is not None:
        t = plain(lab, hget(lab, s, label, "back_color"), s)
        chk.ob("display", cons + ": label colour", feq(t, back), "shows %s instead of %s" % (t, back))
    if leds is not None:
        got = w.lit(s, 0)
        want = leds if isinstance(leds, list) else [leds] * len(got)
        chk.ob("display", cons + ": LEDs", len(got) == len(want) and all(feq(g, x) for g, x in zip(got, want)), "show %s instead of %s" % (got, want))


def rotate(chk, n, k, d, leds):
    """n messages, k release messages, d display colours, rotating colours on each of the LEDs"""
    w = World()
    lab = w.lab
    msgs = [[176, i, 7] for i in range(n)] if n else None
    rels = [(177, i) for i in range(k)] if k else None
    nc = 3
    cols = [[(10 * i + 1, 10 * j + 2, 200) for j in range(nc)] for i in range(leds)]
    disp = [(i, 2 * i, 100) for i in range(d)] if d else None
    texts = ["a", "b"]
    kw = {"led_colors": cols if leds > 1 else cols[0], "led_brightness": 0.5, "texts": texts, "num_leds": leds}
    for key, v in (("messages", msgs), ("messages_release", rels), ("display_colors", disp)):
        if v:
            kw[key] = v
    base = "ROTATING_MESSAGES(%s messages, %s release, %s display colours, %d LEDs)" % (n, k, d, leds)
    label = make(chk, w, "ROTATING_MESSAGES", base, **kw)
    if label is None:
        return
    s = w.st

    def judge(s, cons, i):
        back = disp[i % d] if d else cols[0][i % nc]
        look(chk, w, s, cons, label, texts[i % 2], back, [dim(cols[x][i % nc], 0.5) for x in range(leds)])
    judge(s, base + ": start", 0)
    for i in range(7):
        for down in (True, False):
            cons = "%s: %s %d" % (base, "push" if down else "release", i)
            r = ok(chk, "total", cons, w.edge(s, 0, down))
            if not r:
                return
            s = r[0][0]
            src = msgs if down else rels
            want = [list(src[i % len(src)])] if src else []
            chk.ob("rotate", cons, raw(w, s) == want, "sends %s instead of %s" % (raw(w, s), want))
            judge(s, cons, i if down else i + 1)
            s = rebase(s)
            r = ok(chk, "total", base, w.update(s))
            if not r:
                return
            s = r[0][0]
            chk.ob("rotate", base + ": update", not raw(w, s) and not w.sets(s), "sends %s" % (raw(w, s),))
            s = rebase(s)
    chk.analysed(lab.e)


def real(lab, st, sx):
    """a parameter set by system exclusive or control change"""
    if sx:
        (st, m), = must(lab, lab.call(("x", SX), [lab.e.mklist(st, [c(1)]), lab.e.mklist(st, [c(2)])], st=st), "message")
    else:
        (st, m), = must(lab, lab.call(("x", CC), [c(7), c(0)], st=st), "message")
    return st, m


def value(w, m, v):
    return None if v is NONE or v is None else v[1] if isinstance(v, tuple) and v and v[0] == "c" else v


def step(chk, off, mx, sx):
    w = World()
    lab, e = w.lab, w.lab.e
    w.st, msg = real(lab, w.st, sx)
    m = mapping(lab, w.st, "Param", set=msg, response=NONE)
    kw = {"mapping": m, "offset": off, "color": (100, 200, 50), "led_brightness": 0.5, "text": "V={val}"}
    if mx is not None:
        kw["max_value"] = mx
    base = "PARAMETER_UP_DOWN(%s, max_value=%s, %s)" % (off, mx, "SysEx" if sx else "CC")
    label = make(chk, w, "PARAMETER_UP_DOWN", base, **kw)
    if label is None:
        return
    top = mx if mx is not None else NRPN if sx else 127
    for s, _ in ok(chk, "total", base, w.press(w.st, 0)):
        chk.ob("unknown", base + ": push with unknown value", not w.sets(s), "sets %s" % (w.sets(s),))
        for s2, _ in ok(chk, "total", base, w.update(rebase(s))):
            chk.ob("unknown", base + ": held with unknown value", not w.sets(s2), "sets %s" % (w.sets(s2),))
            for s3, _ in ok(chk, "total", base, w.release(rebase(s2), 0)):
                chk.ob("unknown", base + ": release with unknown value", not w.sets(s3), "sets %s" % (w.sets(s3),))
    full = NRPN if sx else 127
    vals = sorted({x for x in (0, 1, 29, 30, 31, 49, 50, 51, 126, 127, top - 1, top, top + 1, top - off, top - off - 1, -off, -off + 1, 8191, full) if 0 <= x <= full} | (set(range(0, full + 1, 1 if full < 200 else 131)) if chk.thorough else set()))
    for v in vals:
        cons = "%s: at %d" % (base, v)
        for s, _ in ok(chk, "total", cons, w.report(w.st, m, c(v))):
            chk.ob("step", cons + ", report", not w.sets(s), "sets %s" % (w.sets(s),))
            f = min(v / top, 1)
            if off < 0:
                f = 1 - f
            t = plain(lab, hget(lab, s, label, "text"), s)
            if v <= top:
                x = v * 100 / top
                chk.ob("display", cons + ", text", t in {"V=%d" % round(x), "V=%d" % int(x + 0.5)}, "shows %r for %.1f%%" % (t, x))
            bc = plain(lab, hget(lab, s, label, "back_color"), s)
            chk.ob("display", cons + ", label colour", isinstance(bc, tuple) and all(0 <= a <= 255 and abs(a - b * f) <= 1 for a, b in zip(bc, (100, 200, 50))), "shows %s" % (bc,))
            lit = w.lit(s, 0)[0]
            chk.ob("display", cons + ", LED", all(0 <= a <= 255 and abs(a - b * f * 0.5) <= 1.01 for a, b in zip(lit, (100, 200, 50))), "shows %s" % (lit,))
            for s2, _ in ok(chk, "total", cons, w.press(rebase(s), 0)):
                want = max(0, min(top, v + off))
                got = [(x, value(w, s2, y)) for x, y in w.sets(s2)]
                chk.ob("step", cons + ", push", got == [(m, want)], "sets %s instead of %d" % ([y for _, y in got], want))
                for s3, _ in ok(chk, "total", cons, w.release(rebase(s2), 0)):
                    chk.ob("step", cons + ", release", not w.sets(s3), "sets %s" % (w.sets(s3),))
                    for s4, _ in ok(chk, "total", cons, w.update(rebase(s3))):
                        chk.ob("repeat", cons + ", released", not w.sets(s4), "sets %s" % (w.sets(s4),))
    for s, _ in ok(chk, "total", base, w.report(w.st, m, c(top))):
        for s2, _ in ok(chk, "total", base, w.report(rebase(s), m, NONE)):
            for s3, _ in ok(chk, "total", base, w.press(rebase(s2), 0)):
                chk.ob("unknown", base + ": push after the value got lost", not w.sets(s3), "sets %s" % (w.sets(s3),))
    chk.analysed(e)


def repeat(chk, iv):
    w = World()
    lab, e = w.lab, w.lab.e
    w.st, msg = real(lab, w.st, True)
    m = mapping(lab, w.st, "Param", set=msg, response=NONE)
    base = "PARAMETER_UP_DOWN(repeat_interval_millis=%s)" % iv
    en = w.enable()
    label = make(chk, w, "PARAMETER_UP_DOWN", base, mapping=m, offset=10, repeat_interval_millis=iv, enable_callback=en)
    if label is None:
        return
    r = ok(chk, "total", base, w.report(w.st, m, c(100)))
    s0 = rebase(r[0][0])

    def steps(s, spec):
        held, v, on, stale = spec
        out = []

        def edge(s):
            res = []
            for s2, x in ok(chk, "total", base, w.edge(s, 0, not held)):
                got = [value(w, s2, y) for _, y in w.sets(s2)]
                want = [v + 10] if on and not held else []
                chk.ob("step", "%s: %s at %d%s" % (base, "release" if held else "push", v, "" if on else ", disabled"), got == want, "sets %s" % got)
                res.append((s2, x, ((2 if on else 1) if not held else 0, v, on, stale or held == 2 and not on)))
            return res

        def update(s):
            res = []
            for s2, x in ok(chk, "total", base, w.update(s)):
                got = [value(w, s2, y) for _, y in w.sets(s2)]
                due = any(c06.periods(lab, s2).values())
                h = held if on or held != 2 else 1
                cons = "%s: update, %s%s" % (base, "held" if held else "released", "" if on else ", disabled")
                if h != 2 and stale and held:
                    pass   # released and pushed again in between two updates while disabled
                elif h != 2 or not iv:
                    chk.ob("repeat", cons, not got, "sets %s" % got)
                elif not stale:
                    chk.ob("repeat", cons + (", interval over" if due else ""), got == ([v + 10] if due else []), "sets %s" % got)
                    seen.add(bool(got))
                res.append((s2, x, (h, v, on, stale and on and h > 0)))
            return res

        def toggle(s):
            s = s.fork()
            hset(lab, s, en, "on", c(not on))
            return [(s, NONE, (held, v, not on, stale))]
        out += [("edge", edge), ("update", update), ("toggle", toggle)]
        for x in (100, 200):
            def rep(s, x=x):
                return [(s2, r, (held, x, on, stale)) for s2, r in ok(chk, "total", base, w.report(s, m, c(x)))]
            out.append(("report", rep))
        return out
    seen = set()
    explore(lab, w.roots() + [label, en], [(s0, (0, 100, True, False))], steps, 600)
    # the tuner takes over while the switch is held: its release never arrives
    ov = lab.bound("override", {}, st=s0)
    for n in ("push", "release"):
        lab.handlers[(ov, n)] = lambda eng, s, a, k: NONE
    for s1, _ in ok(chk, "total", base, w.press(s0, 0)):
        s1 = rebase(s1)
        hset(lab, s1, w.switches[0], "override_action", ov)
        for s2, _ in ok(chk, "total", base, w.release(s1, 0)):
            for s3, _ in ok(chk, "total", base, w.update(rebase(s2))):
                chk.ob("repeat", base + ": released while overridden", not w.sets(s3), "sets %s" % (w.sets(s3),))
                s3 = rebase(s3)
                hset(lab, s3, w.switches[0], "override_action", NONE)
                for s4, _ in ok(chk, "total", base, w.update(s3)):
                    chk.ob("repeat", base + ": override over", not w.sets(s4), "sets %s" % (w.sets(s4),))
    if iv:
        chk.ob("repeat", base + ": held", seen == {True, False}, "a held switch %s" % ("never repeats the step" if True not in seen else "repeats the step with every update"))
    chk.analysed(e)


def hid(chk, keys):
    w = World()
    lab, e = w.lab, w.lab.e
    base = "HID_KEYBOARD(%s)" % (keys,)
    label = make(chk, w, "HID_KEYBOARD", base, keycodes=keys, text="K", color=(10, 20, 30), led_brightness=0.5)
    if label is None:
        return
    want = [keys] if isinstance(keys, int) else list(keys)
    s = w.st
    look(chk, w, s, base, label, "K", (10, 20, 30), dim((10, 20, 30), 0.5))

    def pressed(s):
        seq, down = [], set()
        for ev in s.trace():
            if ev.kind != "call" or not ev.recv or ev.name not in ("send", "press", "release", "release_all"):
                continue
            ks = [plain(lab, x, s) for x in ev.args]
            ks = [y for x in ks for y in (x if isinstance(x, (list, tuple)) else [x])]
            if ev.name in ("send", "press"):
                seq += ks
            if ev.name == "press":
                down |= set(ks)
            if ev.name == "release":
                down -= set(ks)
            if ev.name == "release_all":
                down = set()
        return seq, down
    for i in range(2):
        cons = "%s: push %d" % (base, i)
        # the USB keyboard may be missing: then nothing is sent
        r = [(pressed(x), x) for x, _ in ok(chk, "total", cons, w.press(s, 0))]
        for (seq, down), x in r:
            chk.ob("keys", cons, seq == want or not seq, "keys %s instead of %s" % (seq, want))
        good = [x for (seq, down), x in r if seq == want]
        if not chk.ob("keys", cons + " with keyboard", bool(good), "the keys are never sent"):
            return
        nxt = None
        for x in good:
            for y, _ in ok(chk, "total", base, w.release(x, 0)):
                seq, down = pressed(y)
                chk.ob("keys", "%s: release %d" % (base, i), seq == want, "keys %s" % (seq,))
                chk.ob("keys", "%s: after release %d" % (base, i), not down, "keys %s stay pressed" % sorted(down))
                for z, _ in ok(chk, "total", base, w.update(rebase(y))):
                    chk.ob("keys", "%s: update %d" % (base, i), not pressed(z)[0], "keys %s" % (pressed(z)[0],))
                    nxt = rebase(z)
        if nxt is None:
            return
        s = nxt
    chk.analysed(e)


def fixed(chk, back):
    w = World()
    lab = w.lab
    base = "DISPLAY_FIXED_TEXT(back_color=%s)" % (back,)
    kw = {"text": "fix"}
    if back:
        kw["back_color"] = back
    label = make(chk, w, "DISPLAY_FIXED_TEXT", base, **kw)
    if label is None:
        return
    look(chk, w, w.st, base, label, "fix", back or (1, 2, 3), None)
    for s, _ in ok(chk, "total", base, w.click(w.st, 0)):
        chk.ob("message", base + ": click", not raw(w, s) and not w.sets(s), "sends something")
    chk.analysed(lab.e)
