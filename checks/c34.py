"""Tempo and morph: tap tempo pairs, beat LEDs, displayed tempo, morph commands and morph colours over all sequences of reports and presses."""
from checks.common import *
from checks import ui as U
from checks.world import World

A = KEM + ".actions."
M = KEM + ".mappings."
LON, DON = CONFIG["ledBrightnessOn"], CONFIG["displayDimFactorOn"]
FULL = 16383
BASE, MORPHED = (255, 0, 0), (0, 0, 255)
BPM = 64   # units per beat per minute (Kemper MIDI specification)
CC = {"tap": 30, "morph": 80, "pedal": 11}


def run(chk):
    chk.rule("tap", "each push of the tap button sends the tap command once, each release releases it, nothing else sends")
    chk.rule("beat", "the tempo LEDs are lit in the configured colour and brightness exactly while the beat signal is on")
    chk.rule("bpm", "the displayed tempo is the reported value in beats per minute")
    chk.rule("preview", "a changed tempo is previewed, but not the first value and not after a rig change")
    chk.rule("command", "each push of the morph button sends one morph command and each release its end; displays send nothing")
    chk.rule("colour", "the morph displays interpolate between their two colours according to the current morph state")
    chk.rule("state", "the morph state follows reports, is toggled by the morph button, stays in range and is reset when a rig is selected")
    chk.rule("total", "no report or press raises an error")
    jobs = [(tap, ()), (tap, ((9, 8, 7),))]
    for col in (None, (10, 20, 30)):
        for br in (None, 0.5):
            for n in (1, 3):
                jobs.append((beat, (col, br, n)))
    for text in (None, "T={bpm}", "no token"):
        for where in ("display", "change", "both"):
            jobs.append((bpm, (text, where)))
    jobs += [(tempo_display, ()), (tempo_encoder, ())]
    cols = (None, ((0, 255, 0), (255, 255, 0)), ((10, 200, 30), (10, 20, 230)))
    for fix in (None, (7, 8, 9)):
        for cs in cols:
            jobs.append((morph, (fix, cs, None)))
    for k in ("RIG_SELECT", "RIG_SELECT toggles", "RIG_SELECT momentary", "RIG_UP", "RIG_DOWN", "BANK_SELECT", "BANK_UP", "RIG_SELECT_AND_MORPH_STATE"):
        jobs.append((morph, (None, cols[1], k)))
    parallel(chk, job, jobs)
    for r, n in (("tap", 6), ("beat", 100), ("bpm", 200), ("preview", 100), ("command", 100), ("colour", 300), ("state", 200)):
        chk.floor(r, n)


def job(chk, fn, args):
    fn(chk, *args)


def cc(lab, s, m):
    x = hget(lab, s, m, "set")
    return plain(lab, hget(lab, s, x, "control"), s)


def find(lab, w, mod, name):
    """the registered mapping object of a factory (mappings are singletons)"""
    if mod:
        f = lab.fn(M + mod, name)
    else:
        f = lab.e.fv(lab.cls(KEM, "KemperMappings").find(name))
    (w.st, m), = must(lab, lab.call(f, st=w.st), name)
    return m


def start(chk, w, cons):
    """start and first update, as the application does"""
    if not w.start(chk, "total", cons):
        return False
    r = ok(chk, "total", cons + ": first update", w.update(w.st))
    if not r:
        return False
    w.st = rebase(r[0][0])
    return True


def msgs(w, s):
    return [(cc(w.lab, s, m), plain(w.lab, v, s) if not isinstance(v, int) else v) for m, v in w.sets(s)]


def tap(chk, col=None):
    w = World()
    lab = w.lab
    label = closed_label(lab, w.st, "label", back_color=c((1, 2, 3)))
    kw = {"display": label, "use_leds": True}
    if col:
        kw["color"] = col
    w.put(w.make(A + "tempo", "TAP_TEMPO", **kw))
    base = "TAP_TEMPO(%s)" % ("color=%s" % (col,) if col else "")
    if not start(chk, w, base):
        return
    s = w.st
    chk.ob("tap", base + ": start", not w.sets(s), "sends at start")
    for i in range(4):
        for down, v in ((True, 1), (False, 0)):
            (s, _), = ok(chk, "total", base, w.edge(s, 0, down))[:1] or [(s, None)]
            chk.ob("tap", "%s: %s %d" % (base, "push" if down else "release", i), msgs(w, s) == [(CC["tap"], v)], "sends %s" % (msgs(w, s),))
            s = rebase(s)
            for s2, _ in ok(chk, "total", base, w.update(s)):
                chk.ob("tap", base + ": update", not msgs(w, s2), "sends %s" % (msgs(w, s2),))
                s = rebase(s2)
    t = plain(lab, hget(lab, s, label, "text"), s)
    chk.ob("tap", base + ": text", t == "Tap", "shows %r" % (t,))
    chk.analysed(lab.e)


def beat(chk, col, br, n):
    w = World()
    lab = w.lab
    kw = {"enable_callback": w.enable()}
    if col:
        kw["color"] = col
    if br is not None:
        kw["led_brightness"] = br
    w.put(w.make(A + "tempo", "SHOW_TEMPO", **kw), n=n)
    base = "SHOW_TEMPO(%s) on %d LEDs" % (", ".join(str(x) for x in (col, br) if x is not None), n)
    if not start(chk, w, base):
        return
    mt = [m for m, l in w.regs if plain(lab, hget(lab, w.st, m, "name"), w.st) == "Tempo Pulse"]
    tun = find(lab, w, "", "TUNER_MODE_STATE")
    if not mt or tun not in w.mappings:
        raise AnalysisBroken("tempo mappings not found")
    want = dim(col or plain(lab, lab.e.class_attr(lab.cls("pyswitch.colors", "Colors"), "LIGHT_GREEN"), w.st), br if br is not None else 0.02)

    def judge(s, cons, v):
        chk.ob("tap", cons + ": messages", not w.sets(s), "sends %s" % (w.sets(s),))
        if v is None:
            return
        for i, x in enumerate(w.lit(s, 0)):
            chk.ob("beat", "%s, LED %d" % (cons, i), feq(x, want if v else (0, 0, 0)), "LED shows %s instead of %s" % (x, want if v else (0, 0, 0)))

    def steps(s, spec):
        v, tuner = spec
        out = []

        def rep(x):
            def g(s):
                res = []
                cons = "%s: beat %s reported after %s%s" % (base, x, v, ", tuner on" if tuner else "")
                for s2, r in ok(chk, "total", cons, w.report(s, mt[0], c(x))):
                    judge(s2, cons, None if tuner else x)
                    res.append((s2, r, (x, tuner)))
                return res
            return g

        def tune(x):
            def g(s):
                res = []
                cons = "%s: tuner %s, beat %s" % (base, "on" if x else "off", v)
                for s2, r in ok(chk, "total", cons, w.report(s, tun, c(x))):
                    judge(s2, cons, None if x or tuner else v)
                    res.append((s2, r, (None if tuner and not x else v, x)))
                return res
            return g

        def update(s):
            res = []
            for s2, r in ok(chk, "total", base + ": update", w.update(s)):
                judge(s2, "%s: update, beat %s" % (base, v), None if tuner else v)
                res.append((s2, r, (v, tuner)))
            return res
        out += [("beat %d" % x, rep(x)) for x in (0, 1)]
        out += [("tuner %d" % x, tune(x)) for x in (0, 1)]
        out.append(("update", update))
        return out
    explore(lab, w.roots(), [(w.st, (None, 0))], steps, 400)
    chk.analysed(lab.e)


def beats(v):
    """acceptable texts: the nearest whole number, ties either way"""
    lo, r = divmod(v, BPM)
    return {str(lo)} if r < BPM / 2 else {str(lo + 1)} if r > BPM / 2 else {str(lo), str(lo + 1)}


def values(chk):
    return list(range(0, FULL + 1, 8)) + [FULL] if chk.thorough else sorted({0, 1, 31, 32, 33, 63, 64, 95, 96, 97, 7680, 7679, 7711, 7712, 7713, 8191, 8192, 16383} | set(range(0, FULL + 1, 997)))


def bpm(chk, text, where):
    w = World()
    lab = w.lab
    kw = {}
    label = change = None
    if where in ("display", "both"):
        kw["display"] = label = closed_label(lab, w.st, "label", back_color=c((1, 2, 3)))
    if where in ("change", "both"):
        kw["change_display"] = change = closed_label(lab, w.st, "change", back_color=c((1, 2, 3)), override_text=NONE)
    if text:
        kw["text"] = text
    base = "SHOW_TEMPO(%s, text=%s)" % (where, text)
    seen = []
    pv = lab.cls("pyswitch.controller.preview", "ValuePreview").find("preview")
    if pv is None:
        raise AnalysisBroken("ValuePreview.preview not found")
    stub(lab, pv, "preview")
    w.put(w.make(A + "tempo", "SHOW_TEMPO", **kw))
    if not start(chk, w, base):
        return
    mb, rid = find(lab, w, "tempo_bpm", "MAPPING_TEMPO_BPM"), find(lab, w, "", "RIG_ID")
    tpl = text or "{bpm} bpm"

    def report(s, m, v):
        r = ok(chk, "total", base, w.report(s, m, c(v)))
        return [x for x, _ in r]

    def previews(s):
        out = []
        for ev in events(s, "preview"):
            k = ev.kwargs.get("text", ev.args[1] if len(ev.args) > 1 else None)
            out.append(plain(lab, k, s) if k is not None else None)
        return out

    def judge(s, cons, v, expect):
        want = {tpl.replace("{bpm}", x) for x in beats(v)}
        if label:
            t = plain(lab, hget(lab, s, label, "text"), s)
            chk.ob("bpm", cons, t in want, "shows %r instead of %s" % (t, sorted(want)))
        if change and expect is not None:
            p = previews(s)
            chk.ob("preview", cons, (len(p) == 1 and p[0] in want) if expect else not p, "previews %s%s" % (p, "" if not expect else " instead of %s" % sorted(want)))
        chk.ob("tap", cons + ": messages", not w.sets(s), "sends")
    for v in values(chk):
        for s in report(w.st, mb, v):
            judge(s, "%s: first value %d" % (base, v), v, False)
            u = (v + 640) % (FULL + 1)
            for s2 in report(rebase(s), mb, u):
                judge(s2, "%s: %d after %d" % (base, u, v), u, True)
                for s3 in report(rebase(s2), mb, u):
                    judge(s3, "%s: %d again" % (base, u), u, False)
            if not change or v % 5:
                continue
            for s2 in report(rebase(s), rid, 12):
                for s3 in report(rebase(s2), mb, u):
                    judge(s3, "%s: %d after %d, rig changed" % (base, u, v), u, False)
                    for s4 in report(rebase(s3), mb, v):
                        judge(s4, "%s: back to %d in the same rig" % (base, v), v, True)
    chk.analysed(lab.e)


def tempo_display(chk):
    w = World()
    lab, e = w.lab, w.lab.e
    cb = w.make(KEM + ".callbacks.tempo_bpm", "KemperTempoDisplayCallback")
    label = closed_label(lab, w.st, "label", back_color=c((1, 2, 3)))
    hset(lab, w.st, label, "callback", cb)
    w.call(cb, "init", w.appl, NONE)
    base = "KemperTempoDisplayCallback"
    mb = find(lab, w, "tempo_bpm", "MAPPING_TEMPO_BPM")
    for v in [None] + values(chk):
        s = w.st.fork()
        hset(lab, s, mb, "value", c(v))
        for s2, _ in ok(chk, "total", base, lab.method(cb, "update_label", [label], st=s)):
            t = plain(lab, hget(lab, s2, label, "text"), s2)
            if v is None:
                chk.ob("bpm", base + ": no tempo", not any(ch.isdigit() for ch in t or ""), "shows %r" % (t,))
            else:
                chk.ob("bpm", "%s: %d" % (base, v), t in {x + " bpm" for x in beats(v)}, "shows %r" % (t,))
    chk.analysed(e)


def tempo_encoder(chk):
    """the preview of the encoder shows the same tempo"""
    w = World()
    lab, e = w.lab, w.lab.e
    disp = closed_label(lab, w.st, "preview", back_color=c((1, 2, 3)), override_text=NONE)
    pv = lab.cls("pyswitch.controller.preview", "ValuePreview").find("preview")
    if pv is None:
        raise AnalysisBroken("ValuePreview.preview not found")
    stub(lab, pv, "preview")
    enc = w.make(A + "tempo_bpm", "ENCODER_BPM", preview_display=disp, step_width=64)
    w.call(enc, "init", w.appl)
    mb = find(lab, w, "tempo_bpm", "MAPPING_TEMPO_BPM")
    base = "ENCODER_BPM"
    for v in values(chk):
        s = rebase(w.st)
        hset(lab, s, mb, "value", c(v))
        for s1, _ in ok(chk, "total", base, lab.method(enc, "process", [c(0)], st=s)):
            for s2, _ in ok(chk, "total", base, lab.method(enc, "process", [c(1)], st=rebase(s1))):
                t = [plain(lab, ev.kwargs.get("text", ev.args[1] if len(ev.args) > 1 else NONE), s2) for ev in events(s2, "preview")]
                sent = [plain(lab, x, s2) if isinstance(x, tuple) else x for m, x in w.sets(s2)]
                n = min(v + 64, FULL)
                if n == v:
                    continue
                chk.ob("bpm", "%s: one step from %d" % (base, v), len(t) == 1 and t[0] in {x + " bpm" for x in beats(n)}, "previews %s for value %d" % (t, n))
                chk.ob("bpm", "%s: one step from %d, message" % (base, v), sent == [n], "sends %s" % (sent,))
    chk.analysed(e)


def mix(a, b, v):
    return tuple(x + (y - x) * v / FULL for x, y in zip(a, b))


def near(got, want, f):
    return isinstance(got, tuple) and len(got) == 3 and all(abs(g - w * f) < 2 for g, w in zip(got, want))


def morph(chk, fix, cs, rig):
    w = World()
    lab, e = w.lab, w.lab.e
    a, b = cs or (BASE, MORPHED)
    lb = closed_label(lab, w.st, "button", back_color=c((1, 2, 3)))
    ld = closed_label(lab, w.st, "morph display", back_color=c((1, 2, 3)))
    kw = {} if not cs else {"morph_color_base": a, "morph_color_morphed": b}
    acts = [w.make(A + "morph", "MORPH_BUTTON", display=lb, **(dict(kw, color=fix) if fix else kw)), w.make(A + "morph", "MORPH_DISPLAY", display=ld, **kw)]
    for x in acts:
        w.put(x)
    base = "MORPH_BUTTON%s" % (", ".join(str(x) for x in (fix, cs, rig) if x) and "(%s)" % ", ".join(str(x) for x in (fix, cs, rig) if x))
    if rig:
        n = rig.split()[0]
        mod = {"RIG_SELECT": "rig_select", "RIG_UP": "rig_up_down", "RIG_DOWN": "rig_up_down", "BANK_SELECT": "bank_select", "BANK_UP": "bank_up_down", "RIG_SELECT_AND_MORPH_STATE": "rig_select_and_morph_state"}[n]
        opt = {"BANK_SELECT": {"bank": 4}, "RIG_SELECT": {"rig": 2}, "RIG_SELECT_AND_MORPH_STATE": {"rig": 2}}.get(n, {})
        if "toggles" in rig:
            opt["rig_btn_morph"] = True
        if "momentary" in rig:
            opt.update(rig_btn_morph=True, momentary_morph=True)
        lm = None
        if n.endswith("STATE"):
            opt.update(kw, morph_display=None)
        act = w.make(A + mod, n, use_leds=False, **opt)
        w.put(*(e.h(w.st, act).items if act[0] == "o" and e.h(w.st, act).kind == "list" else [act]))
    if not start(chk, w, base):
        return
    mm = [find(lab, w, "morph", x) for x in ("MAPPING_MORPH_BUTTON", "MAPPING_MORPH_PEDAL")]
    if not any(m in w.mappings for m in mm):
        raise AnalysisBroken("morph mappings not registered")

    def judge(s, cons, ov, button=True, display=True):
        for i, l, x in ((0, lb, fix), (1, ld, None)):
            if not (button, display)[i]:
                continue
            want = x or mix(a, b, ov)
            gl, gd = w.lit(s, i)[0], plain(lab, hget(lab, s, l, "back_color"), s)
            chk.ob("colour", "%s, %s LED" % (cons, ("button", "display")[i]), near(gl, want, LON), "shows %s instead of %s" % (gl, dim(want, LON)))
            chk.ob("colour", "%s, %s label" % (cons, ("button", "display")[i]), near(gd, want, DON), "shows %s instead of %s" % (gd, dim(want, DON)))

    small = rig and rig.endswith("STATE") and not chk.thorough

    def steps(s, spec):
        last, ov, r, held = spec
        tag = "%s: reported %s, morph %s" % (base, last, ov)
        out = []

        def rep(v):
            def g(s):
                n = ov if v == last else v
                cons = "%s, report %d" % (tag, v)
                cur = [(s, NONE)]
                for m in mm:
                    cur = [x for s1, _ in cur for x in ok(chk, "total", cons, w.report(s1, m, c(v)))]
                res = []
                for s2, x in cur:
                    chk.ob("command", cons, not msgs(w, s2), "sends %s" % (msgs(w, s2),))
                    judge(s2, cons, n)
                    res.append((s2, x, (v, n, r, held)))
                return res
            return g

        def button(down):
            def g(s):
                n = (0 if ov else FULL) if down else ov
                cons = "%s, morph button %s" % (tag, "pushed" if down else "released")
                res = []
                for s2, x in ok(chk, "total", cons, w.edge(s, 0, down)):
                    chk.ob("command", cons, msgs(w, s2) == [(CC["morph"], int(down))], "sends %s" % (msgs(w, s2),))
                    judge(s2, cons, n, True, False)
                    res.append((s2, x, (last, n, r, 1 if down else 0)))
                return res
            return g

        def rigbutton(down):
            def g(s):
                cons = "%s, %s %s at rig %s" % (tag, rig, "pushed" if down else "released", r)
                n = ov
                same = r is not None and r % 5 == 1
                if "toggles" in rig:
                    if down:
                        n = (0 if ov else FULL) if same else 0
                elif "momentary" in rig:
                    if down:
                        n = FULL if same else 0
                    elif same:
                        n = 0
                elif down and (r is not None or rig.startswith("RIG_SELECT") or rig == "BANK_UP"):
                    if not (rig == "RIG_DOWN" and r == 0 or rig == "RIG_UP" and r == 624):
                        n = 0
                res = []
                for s2, x in ok(chk, "total", cons, w.edge(s, 2, down)):
                    chk.ob("command", cons, not any(k in CC.values() for k, _ in msgs(w, s2)), "sends %s" % (msgs(w, s2),))
                    cur = [(s2, x)]
                    if last is not None:
                        for m in mm:
                            cur = [y for s1, _ in cur for y in ok(chk, "total", cons, w.report(s1, m, c(last)))]
                        for s3, _ in cur:
                            judge(s3, cons + ", next answer of the device", n)
                            chk.ob("state", cons, True)
                    res += [(s3, y, (last, n, r, 2 if down else 0)) for s3, y in cur]
                return res
            return g

        def setrig(v):
            def g(s):
                cur = [(s, NONE)]
                for m in w.mappings:
                    if m not in mm:
                        cur = [x for s1, _ in cur for x in ok(chk, "total", tag + ", rig reported", w.report(s1, m, c(v)))]
                return [(s2, x, (last, ov, v, held)) for s2, x in cur]
            return g
        def page(s):
            cons = "%s, page changed" % tag
            cur = [(s, NONE)]
            for act in acts:
                for m in ("reset", "update_displays"):
                    cur = [x for s1, _ in cur for x in ok(chk, "total", cons, lab.method(act, m, st=s1))]
            for s2, x in cur:
                chk.ob("command", cons, not msgs(w, s2), "sends %s" % (msgs(w, s2),))
                judge(s2, cons, ov)
            return [(s2, x, spec) for s2, x in cur]
        if not rig and not held:
            out.append(("page", page))
        for v in (0, FULL) if small else (0, 5000, FULL):
            out.append(("report %d" % v, rep(v)))
        if held in (0, 1):
            out.append(("button", button(held == 0)))
        if rig:
            if held in (0, 2):
                out.append(("rig", rigbutton(held == 0)))
            if not held:
                for v in (1, 2) if small else (0, 1, 11):
                    out.append(("at rig", setrig(v)))
        return out

    # every morph value
    for v in sorted({0, 1, 2, 8190, 8191, 8192, FULL - 1, FULL} | set(range(0, FULL, 61 if chk.thorough else 611))):
        cur = [w.st.fork()]
        for m in mm:
            cur = [x for s1 in cur for x, _ in ok(chk, "total", base, w.report(s1, m, c(v)))]
        for s2 in cur:
            judge(s2, "%s: first value %d" % (base, v), v)
            chk.ob("state", "%s: first value %d" % (base, v), True)
    for s2, _ in ok(chk, "total", base, w.press(w.st, 1)):
        chk.ob("command", base + ": push on the morph display", not msgs(w, s2), "sends %s" % (msgs(w, s2),))
        judge(s2, base + ": push on the morph display", 0)
        for s3, _ in ok(chk, "total", base, w.release(rebase(s2), 1)):
            chk.ob("command", base + ": release on the morph display", not msgs(w, s3), "sends %s" % (msgs(w, s3),))
            judge(s3, base + ": release on the morph display", 0)
    explore(lab, w.roots() + [lb, ld], [(w.st, (None, 0, None, 0))], steps, 6000)
    chk.analysed(e)
