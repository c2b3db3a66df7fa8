"""Action factory options: each factory is built with distinctive values of its options and driven through reports, pushes, releases and turns; the values have to show up where their name says, and every option has to make a difference."""
from checks.common import *
from checks.factories import Rig, VARIANTS, factories, params

BTN = "pyswitch.clients.local.actions.encoder_button"
TEXT = "Xyz"
COLOR = (200, 100, 52)
OTHER = (40, 180, 90)
BRIGHT = 0.375
VALUES = (0, 1, 5, 127, 8000, 16383)
FACTORS = (1, CONFIG["displayDimFactorOn"], CONFIG["displayDimFactorOff"])
# further arguments under which an option is meant to have an effect
CONTEXT = {
    "max_bank": {"preselect": True}, "momentary_morph": {"rig_btn_morph": True}, "rig_off": {}, "bank_off": {"bank": 3, "rig_off": 4},
    "cancel_action": {"accept_action": "<button>"}, "preview_timeout_millis": {}, "preview_blink_color": {"accept_action": "<button>"},
    "led_colors": {"messages": [[176, 1, 0], [176, 1, 1]]}, "texts": {"messages": [[176, 1, 0], [176, 1, 1]]}, "display_colors": {"messages": [[176, 1, 0], [176, 1, 1]]},
    "messages_release": {"messages": [[176, 1, 0], [176, 1, 1]]}, "text": {}, "change_timeout_millis": {},
    "morph_id": {}, "morph_only_when_enabled": {}, "auto_exclude_rigs": {"rig_off": "auto"},
}
# context by factory and option, where it differs
SPECIAL = {
    ("BANK_SELECT", "bank_off"): {}, ("RIG_SELECT", "bank"): {}, ("ROTATING_MESSAGES", "led_brightness"): {"messages": [[176, 1, 0], [176, 1, 1]], "led_colors": [COLOR, OTHER]},
    ("ROTATING_MESSAGES", "use_leds"): {"messages": [[176, 1, 0], [176, 1, 1]], "led_colors": [COLOR, OTHER]}, ("ROTATING_MESSAGES", "display"): {"messages": [[176, 1, 0], [176, 1, 1]], "texts": ["a", "b"]},
    ("BANK_UP", "led_brightness"): {}, ("PagerAction", "led_brightness_on"): {"select_page": 1}, ("PagerAction", "led_brightness_off"): {"select_page": 2},
    ("PagerAction", "mappings"): None, ("PagerAction", "select_page"): {}, ("BINARY_SWITCH", "use_internal_state"): {"mapping": "<unreported>"},
    ("RIG_SELECT_AND_MORPH_STATE", "morph_color_base"): {"morph_only_when_enabled": False, "morph_display": "<morph>"},
    ("RIG_SELECT_AND_MORPH_STATE", "morph_color_morphed"): {"morph_only_when_enabled": False, "morph_display": "<morph>"},
    ("RIG_SELECT_AND_MORPH_STATE", "morph_display"): {"morph_only_when_enabled": False},
}
# two values for options without an oracle of their own: any difference of behaviour suffices
PAIRS = {
    "display_mode": (10, 20), "bank_off": (6, 7), "preselect": (False, True), "max_bank": (None, 7), "use_internal_state": (True, False), "show_slot_names": (False, True),
    "rig_off": (None, 4), "bank": (None, 3), "rig_btn_morph": (False, True), "momentary_morph": (False, True), "keep_bank": (True, False), "auto_exclude_rigs": (None, (1, 2)),
    "morph_only_when_enabled": (True, False), "remember_off_value": (True, False), "value_on": (1, 77), "value_off": (0, 55), "reference_value": (None, 6), "comparison_mode": (0, 10),
    "message_release": (None, [176, 80, 0]), "select_page": (None, 2), "max_value": (16383, 300), "messages": ([[176, 1, 0]], [[176, 2, 9]]), "messages_release": (None, [[176, 2, 0]]),
    "texts": (None, ["one", "two"]), "led_colors": (None, [COLOR, OTHER]), "display_colors": (None, [COLOR, OTHER]), "step_width": (1, 40), "boost_volume": (0.25, 0.75), "offset": (10, 20),
    "morph_use_leds": (True, False), "bank_": (2, 3),
}
COLORS = {"color", "morph_color_base", "morph_color_morphed", "preview_blink_color", "text_color", "back_color"}
PERIODS = {"change_timeout_millis", "preview_timeout_millis", "repeat_interval_millis"}


class Probe:
    """everything observable of a factory product over a set of scenarios"""

    def __init__(self, name, mod, kw, enabled=True, enable=True, callback=None):
        lab = Lab()
        lab.e.opaque_raises = False
        extra = {}
        kw = dict(kw)
        for k, v in list(kw.items()):
            if v == "<button>":
                (st, b), = must(lab, lab.call(lab.fn(BTN, "ENCODER_BUTTON"), st=lab.st), "ENCODER_BUTTON()")
                lab.st = st
                extra[k] = b
                setattr(self, k, b)
                kw.pop(k)
            elif v in ("<morph>", "<label>"):
                extra[k] = closed_label(lab, lab.st, k, back_color=c((1, 2, 3)))
                setattr(self, k, extra[k])
                kw.pop(k)
            elif v == "<unreported>":
                extra[k] = mapping(lab, lab.st, k, response=NONE, value=c(0))
                kw.pop(k)
            elif v == "<none>":
                extra[k] = NONE
                kw.pop(k)
            elif v == "<call>":
                extra[k] = cb = lab.bound(k, st=lab.st, open=False)
                ret = c("Cb") if "text" in k else c(OTHER)
                lab.e.call_hooks.insert(0, lambda eng, f, args, kwargs, st, ctx, node, cb=cb, ret=ret: [(st, ret)] if f == cb else None)
                kw.pop(k)
        self.lab = lab
        self.rig = r = Rig(name, mod, kw, enabled=enabled, enable=enable, lab=lab, extra=extra)
        self.raised = r.raised
        self.seen = []          # [(scenario, what, value)]
        self.bad = []
        self.intervals = set()
        if self.raised is not None:
            return
        self.st = r.st
        for k in ("accept_action", "cancel_action"):
            if hasattr(self, k):
                b = getattr(self, k)
                (self.st, _), = must(lab, lab.method(b, "init", [r.appl, r.switch], st=rebase(self.st)), "init of the button")
        self.drive()

    def labels(self):
        out = [("label", self.rig.label), ("preview", self.rig.preview)]
        return out + [(k, getattr(self, k)) for k in ("morph_display",) if hasattr(self, k)]

    def note(self, sc, s):
        lab = self.lab
        for n, l in self.labels():
            if l is None:
                continue
            for a in ("text", "back_color", "text_color", "override_text"):
                self.seen.append((sc, n + "." + a, self.value(s, hget(lab, s, l, a))))
        cols = plain(lab, hget(lab, s, self.rig.switch, "colors"), s)
        bri = plain(lab, hget(lab, s, self.rig.switch, "brightnesses"), s)
        for i, (x, y) in enumerate(zip(cols, bri)):
            self.seen.append((sc, "led", x if isinstance(x, tuple) else repr(x)))
            self.seen.append((sc, "brightness", y if not isinstance(y, tuple) else repr(y)))
            self.seen.append((sc, "led %d" % i, (repr(x), repr(y))))
        for x in self.rig.sends(s):
            self.seen.append((sc, "send", repr([x.name] + [lab.canon(s, a) for a in list(x.args) + list(x.kwargs.values())])))
        self.seen.append((sc, "shared", repr(lab.canon(s, hget(lab, s, self.rig.appl, "shared")))))

    def value(self, s, v):
        return plain(self.lab, v, s)

    def step(self, sc, states, fn):
        """applies fn to all states; keeps distinct ones"""
        lab, r = self.lab, self.rig
        out = {}
        for s in states:
            for s1, v in fn(rebase(s)):
                if isinstance(v, Raise):
                    self.bad.append("%s: raises %s %s" % (sc, v.exc, v.msg))
                    continue
                self.note(sc, s1)
                self.intervals |= {plain(lab, o.attrs.get("interval", NONE), s1) for o in s1.heap.values() if isinstance(o.cls, ClassInfo) and o.cls.qual == PERIOD}
                key = tuple(lab.canon(s1, x) for x in r.roots())
                out.setdefault(key, s1)
        return list(out.values())[:6]

    def drive(self):
        r, lab = self.rig, self.lab
        first = self.step("start", [self.st], r.update)
        self.note("init", self.st)
        for v in ((None,) + VALUES):
            cur = first
            name = "value %s" % v
            if v is not None:
                for m in r.mappings:
                    cur = self.step(name, cur, lambda s, m=m: r.report(s, m, c("Name %s" % v) if r.mtype(m, s) == "str" else c(v)))
                cur = self.step(name + " update", cur, r.update)
            if r.continuous:
                for p in (0, 3, 90, 85):
                    cur = self.step(name + " turn %d" % p, cur, lambda s, p=p: r.each(s, r.actions, "process", [c(p)]))
                    cur = self.step(name + " turned %d" % p, cur, r.update)
                for k in ("cancel_action", "accept_action"):
                    if hasattr(self, k):
                        b = getattr(self, k)
                        self.step(name + " " + k, cur, lambda s, b=b: lab.method(b, "push", st=s))
                        if k == "cancel_action":
                            q = self.step(name + " " + k, cur, lambda s, b=b: lab.method(b, "push", st=s))
                            if hasattr(self, "accept_action"):
                                self.step(name + " accept after cancel", q, lambda s: lab.method(self.accept_action, "push", st=s))
                continue
            cur = self.step(name + " redraw", [r.spoil(s) for s in cur], r.redraw)
            for n in (1, 2):
                cur = self.step(name + " push %d" % n, cur, lambda s: r.each(s, r.actions, "push"))
                cur = self.step(name + " pushed %d" % n, cur, r.update)
                cur = self.step(name + " release %d" % n, cur, lambda s: r.each(s, r.actions, "release"))
                cur = self.step(name + " released %d" % n, cur, r.update)
                self.step(name + " redraw %d" % n, cur, r.redraw)
        cur = first if not r.continuous else []
        for v in (1, 16383, 1, 12, 11, 7, 17, 11, 6, 0, 1):
            name = "history to %s" % v
            for m in r.mappings:
                cur = self.step(name, cur, lambda s, m=m: r.report(s, m, c("Name %s" % v) if r.mtype(m, s) == "str" else c(v)))
            cur = self.step(name + " update", cur, r.update)
            cur = self.step(name + " push", cur, lambda s: r.each(s, r.actions, "push"))
            cur = self.step(name + " release", cur, lambda s: r.each(s, r.actions, "release"))
            cur = self.step(name + " released", cur, r.update)

    # ---- queries
    def has(self, what, pred):
        return any(w == what and pred(v) for _, w, v in self.seen)

    def texts(self, what="label"):
        return {v for _, w, v in self.seen if w in (what + ".text", what + ".override_text") and isinstance(v, str)}

    def colors(self, *whats):
        return {v for _, w, v in self.seen if w in whats and isinstance(v, tuple)}

    def signature(self):
        return frozenset((a, b, repr(x)) for a, b, x in self.seen)


def like(color, got):
    """the colour, possibly dimmed, is among the colours"""
    for x in got:
        f = x[0] / color[0]
        if len(x) == 3 and 0.1 <= f <= 1.001 and all(abs(a - b * f) <= 1.5 for a, b in zip(x, color)):
            return True
    return False


def jobs():
    lab = Lab()
    out = []
    for name, mod, x in factories(lab):
        ps = [p for p, o in params(x)]
        for p in ps + ["<plain>"]:
            out.append((name, mod, p, ps))
    return out


def base(name, p):
    if (name, p) in SPECIAL:
        return SPECIAL[(name, p)]
    return dict(CONTEXT.get(p, {}))


def run(chk):
    chk.rule("builds", "each factory builds and runs with every option given")
    chk.rule("id", "the action carries the ID given")
    chk.rule("enable", "the action is enabled exactly when its enable callback says so")
    chk.rule("leds", "LEDs of the switch are used unless switched off by use_leds")
    chk.rule("display", "the display given shows the action, change and preview displays show changed values")
    chk.rule("text", "the text given is shown on the display of the action, and only there")
    chk.rule("color", "the colour given is shown, where necessary dimmed by a configured factor")
    chk.rule("callback", "results of colour and text callbacks are shown")
    chk.rule("brightness", "the brightness given is used for the LEDs")
    chk.rule("dim", "the dim factor given is used for the display")
    chk.rule("special", "special values of dim factors and brightnesses mean the configured global value")
    chk.rule("mode", "the mode given determines what push and release do")
    chk.rule("period", "times given are used for a timer")
    chk.rule("effect", "each option makes a difference")
    js = jobs()
    if len(js) < 300:
        raise AnalysisBroken("only %d options of factories found" % len(js))
    parallel(chk, option, js)
    special(chk)
    for r, n in (("id", 40), ("enable", 80), ("leds", 60), ("display", 40), ("text", 60), ("color", 60), ("brightness", 15), ("mode", 20), ("effect", 25), ("special", 10), ("period", 4)):
        chk.floor(r, n)


def probe(chk, name, mod, kw, **k):
    p = Probe(name, mod, kw, **k)
    cons = "%s(%s)" % (name, ", ".join("%s=%s" % (a, str(b)[:20]) for a, b in kw.items()))
    chk.ob("builds", cons, p.raised is None, "raises %s" % (p.raised,), p.rig.where)
    if p.raised is not None:
        return None
    chk.ob("builds", cons, not p.bad, "; ".join(p.bad[:2]), p.rig.where)
    chk.analysed(p.lab.e)
    return p


def option(chk, name, mod, p, ps):
    b = base(name, p)
    if b is None:
        return
    b = {k: v for k, v in b.items() if k in ps}
    cons = "%s %s" % (name, p)
    if p == "<plain>":
        enabling(chk, name, mod, ps)
        return
    elif p == "id" or p == "morph_id":
        x = probe(chk, name, mod, dict(b, **{p: "Xid"}))
        if x is None:
            return
        ids = [plain(x.lab, x.lab.get(a, "id", st=x.st)[0][1], x.st) for a in x.rig.actions]
        good = all(i == "Xid" for i in ids) if "morph_id" not in ps else (ids.count("Xid") == 1 and ids.index("Xid") == 1 if p == "morph_id" else all(i == "Xid" for i in ids))
        chk.ob("id", cons, good, "the IDs of the actions are %s" % ids, x.rig.where)
    elif p == "use_leds":
        leds(chk, name, mod, b, ps, cons)
    elif p in ("display", "change_display", "preview_display", "morph_display"):
        display(chk, name, mod, b, p, ps, cons)
    elif p == "text":
        x = probe(chk, name, mod, dict(b, text=TEXT))
        y = probe(chk, name, mod, dict(b))
        if x is None or y is None:
            return
        where = "label" if "display" in ps else "preview"
        chk.ob("text", cons, any(TEXT in t for t in x.texts(where)), "the text given is never shown: %s" % sorted(x.texts(where))[:4], x.rig.where)
        chk.ob("text", cons + " elsewhere", where == "preview" or name == "SHOW_TEMPO" or not any(TEXT in t for t in x.texts("preview")), "the text given is shown on the display for changes", x.rig.where)
    elif p in COLORS:
        x = probe(chk, name, mod, dict(b, **dict({p: COLOR}, **({"use_leds": True} if "use_leds" in ps else {}))))
        if x is None:
            return
        if p == "preview_blink_color":
            got = x.colors("preview.text_color", "preview.back_color")
            chk.ob("color", cons, COLOR in got, "the preview never has the colour given: %s" % sorted(got)[:4], x.rig.where)
        elif p == "text_color":
            got = x.colors("label.text_color")
            chk.ob("color", cons, COLOR in got, "the text never has the colour given: %s" % sorted(got)[:4], x.rig.where)
        else:
            got = x.colors("label.back_color", "morph_display.back_color") if "display" in ps else set()
            ledc = x.colors("led") if "use_leds" in ps and p != "back_color" else set()
            chk.ob("color", cons + " display", "display" not in ps or like(COLOR, got) or p not in ("color", "back_color") and like(COLOR, ledc), "the display never has the colour given: %s" % sorted(got)[:4], x.rig.where)
            if "use_leds" in ps and p == "color":
                chk.ob("color", cons + " LEDs", like(COLOR, ledc), "the LEDs never have the colour given: %s" % sorted(ledc)[:4], x.rig.where)
    elif p in ("color_callback", "text_callback"):
        x = probe(chk, name, mod, dict(b, **{p: "<call>"}))
        if x is None:
            return
        if p == "color_callback":
            chk.ob("callback", cons, like(OTHER, x.colors("label.back_color")) and like(OTHER, x.colors("led")), "the colour of the callback is never shown", x.rig.where)
        else:
            chk.ob("callback", cons, any("Cb" in t for t in x.texts()), "the text of the callback is never shown", x.rig.where)
    elif p.startswith("led_brightness"):
        x = probe(chk, name, mod, dict(b, **dict({p: BRIGHT}, **({"color": COLOR} if "color" in ps else {}))))
        if x is None:
            return
        got = {v for _, w, v in x.seen if w == "brightness" and isinstance(v, (int, float))}
        chk.ob("brightness", cons, any(feq(v, BRIGHT) for v in got) or dim(COLOR, BRIGHT) in x.colors("led"), "the LEDs never have the brightness given: %s" % sorted(got)[:5], x.rig.where)
    elif "dim_factor" in p:
        x = probe(chk, name, mod, dict(b, color=COLOR, **{p: 0.5}))
        if x is None:
            return
        got = x.colors("label.back_color")
        chk.ob("dim", cons, dim(COLOR, 0.5) in got, "the display never is dimmed as given: %s" % sorted(got)[:4], x.rig.where)
    elif p == "mode":
        modes(chk, name, mod, b)
    elif p in PERIODS:
        x = probe(chk, name, mod, dict(b, **{p: 4321}))
        if x is None:
            return
        if 4321 not in x.intervals:
            chk.ob("period", cons, False, "no timer has the time given: %s" % sorted(map(str, x.intervals)), x.rig.where)
        else:
            chk.ob("period", cons, True)
    elif p in PAIRS:
        one, two = PAIRS[p]
        if (name, p) in (("BANK_SELECT", "bank"),):
            one, two = 2, 3
        x, y = probe(chk, name, mod, dict(b, **{p: one})), probe(chk, name, mod, dict(b, **{p: two}))
        if x is None or y is None:
            return
        chk.ob("effect", cons, x.signature() != y.signature(), "the values %s and %s make no difference" % (one, two), x.rig.where)
    elif p in ("accept_action", "cancel_action"):
        x = probe(chk, name, mod, dict(b, **{p: "<button>"}))
        if x is None:
            return
        sent = lambda end: [v for t, w, v in x.seen if w == "send" and t.endswith(end)]
        if p == "accept_action":
            chk.ob("effect", cons, bool(sent(" accept_action")), "the button sends nothing", x.rig.where)
            chk.ob("effect", cons + " turning", not any(w == "send" and " turn " in t for t, w, v in x.seen), "values are sent while turning although they have to be accepted", x.rig.where)
        else:
            chk.ob("effect", cons, bool(sent(" accept_action")) and not sent(" accept after cancel"), "values are sent although they were cancelled", x.rig.where)


def enabling(chk, name, mod, ps):
    for on in (True, False, None):
        x = probe(chk, name, mod, {"morph_only_when_enabled": False} if "morph_only_when_enabled" in ps else {}, enabled=bool(on), enable=on is not None)
        if x is None:
            return
        for i, a in enumerate(x.rig.actions):
            for s, v in ok(chk, "enable", name, x.lab.get(a, "enabled", st=x.st)):
                got = [t for _, t in x.lab.e.truth(v, s)]
                chk.ob("enable", "%s action %d callback %s" % (name, i, on), got == [on is not False], "the action is enabled: %s" % got, x.rig.where)


JUNKC = (99, 99, 98)


def leds(chk, name, mod, b, ps, cons):
    off = dict(b, use_leds=False)
    if "morph_use_leds" in ps:
        off["morph_use_leds"] = False
    x = probe(chk, name, mod, off)
    if x is not None:
        got = {v for _, w, v in x.seen if w == "led" and v not in (JUNKC, (0, 0, 0))} | {v for _, w, v in x.seen if w == "brightness" and v not in (99, 0)}
        chk.ob("leds", cons + " off", not got, "LEDs are set although they are switched off: %s" % sorted(map(str, got))[:3], x.rig.where)
    for kw in (dict(b, use_leds=True),):
        x = probe(chk, name, mod, kw)
        if x is not None:
            got = {v for _, w, v in x.seen if w == "led" and v not in (JUNKC, (0, 0, 0))}
            chk.ob("leds", cons + " on", bool(got), "LEDs are never set", x.rig.where)


def display(chk, name, mod, b, p, ps, cons):
    if p == "morph_display":
        x = probe(chk, name, mod, dict(b, morph_display="<morph>"))
        if x is not None:
            chk.ob("display", cons, len(x.colors("morph_display.back_color") - {(1, 2, 3)}) > 1, "the display is never changed", x.rig.where)
        return
    x = probe(chk, name, mod, b)
    if x is None:
        return
    where = "label" if p == "display" else "preview"
    changed = {v for _, w, v in x.seen if w in (where + ".text", where + ".override_text") and v not in ("", "<junk>", None)} | {v for _, w, v in x.seen if w == where + ".back_color" and v not in ((1, 2, 3), JUNKC, None)}
    chk.ob("display", cons, bool(changed), "the display is never changed", x.rig.where)
    y = probe(chk, name, mod, dict(b, **{p: "<none>"}))
    if y is not None and p == "display":
        changed = {v for _, w, v in y.seen if w == "label.text" and v not in ("", "<junk>", None)}
        chk.ob("display", cons + " absent", not changed, "a display is changed which was not given", x.rig.where)


# values after push and release (both shortly one after the other), starting from the off state: (push, release)
MODES = {0: ("on", None), 10: ("off", None), 30: ("on", "off"), 40: ("off", "on"), 200: (None, None)}


def modes(chk, name, mod, b):
    sig = {}
    for m in (0, 10, 20, 30, 40, 50, 100, 200):
        x = probe(chk, name, mod, dict(b, mode=m))
        if x is None:
            return
        sig[m] = frozenset((a, v) for a, w, v in x.seen if w == "send")
        push = {v for a, w, v in x.seen if w == "send" and a.startswith("value") and " push 1" in a}
        rel = {v for a, w, v in x.seen if w == "send" and a.startswith("value") and " release 1" in a}
        if m in MODES:
            chk.ob("mode", "%s mode %d" % (name, m), bool(push) == (MODES[m][0] is not None) or m in (10, 40), "a push sends %s" % sorted(push)[:2], x.rig.where)
            chk.ob("mode", "%s mode %d" % (name, m), bool(rel) == (MODES[m][1] is not None), "a release sends %s" % sorted(rel)[:2], x.rig.where)
    for m in (0, 30, 20, 100):
        for n in (10, 40, 200):
            chk.ob("mode", "%s modes %d and %d" % (name, m, n), sig[m] != sig[n], "the modes make no difference")


def special(chk):
    mod = "pyswitch.clients.local.actions.binary_switch"
    lit = {True: CONFIG["ledBrightnessOn"], False: CONFIG["ledBrightnessOff"]}
    dims = {True: CONFIG["displayDimFactorOn"], False: CONFIG["displayDimFactorOff"]}
    for state in (True, False):
        for v, want in ((None, state), ("off" if state else "on", not state), (BRIGHT, None), (0, None), (1, None)):
            key = "on" if state else "off"
            kw = {"led_brightness_" + key: v, "display_dim_factor_" + key: v, "color": COLOR, "use_internal_state": False}
            x = probe(chk, "BINARY_SWITCH", mod, kw)
            if x is None:
                continue
            sc = "value 1" if state else "value 0"
            bri = {y for a, w, y in x.seen if a == sc + " update" and w == "brightness"}
            col = {y for a, w, y in x.seen if a == sc + " update" and w == "label.back_color"}
            lw, dw = (lit[want], dims[want]) if want is not None else (v, v)
            chk.ob("special", "BINARY_SWITCH %s brightness %s" % (key, v), bri and all(feq(q, lw) for q in bri), "the brightness is %s, expected %s" % (bri, lw), x.rig.where)
            chk.ob("special", "BINARY_SWITCH %s dim factor %s" % (key, v), col == {dim(COLOR, dw)}, "the colour is %s, expected %s" % (col, dim(COLOR, dw)), x.rig.where)
    mod = "pyswitch.clients.kemper.actions.bank_up_down"
    for name in ("BANK_UP", "BANK_DOWN"):
        for v in ("on", "off", BRIGHT, None):
            kw = {} if v is None else {"dim_factor": v, "led_brightness": v}
            x = probe(chk, name, mod, dict(kw, color=COLOR))
            if x is None:
                continue
            on = {"on": True, "off": False, None: False}.get(v)
            lw, dw = (lit[on], dims[on]) if on is not None else (v, v)
            bri = {y for a, w, y in x.seen if a in ("value 5 redraw",) and w == "brightness"}
            col = {y for a, w, y in x.seen if a in ("value 5 redraw",) and w == "label.back_color"}
            chk.ob("special", "%s brightness %s" % (name, v), bri and all(feq(q, lw) for q in bri), "the brightness is %s, expected %s" % (bri, lw), x.rig.where)
            chk.ob("special", "%s dim factor %s" % (name, v), col == {dim(COLOR, dw)}, "the colour is %s, expected %s" % (col, dim(COLOR, dw)), x.rig.where)
