"""On/off parameters: evaluation over symbolic values, sent values, automatic restore, display consistency."""
from checks.common import *

MODES = {"EQUAL": "==", "GREATER": ">", "GREATER_EQUAL": ">=", "LESS": "<", "LESS_EQUAL": "<="}
ON_COLOR = (200, 100, 40)
COLORS = {None: (8, 80, 160), 3: (80, 40, 120), 4: (16, 32, 64), 20: (240, 120, 200), 21: (40, 160, 80)}


def make(lab, kwargs, cfg=CONFIG, value=NONE, mode="LATCH", map_attrs=None, with_label=True):
    """(state, dict of objects) for a push button action with an on/off callback"""
    e, st = lab.e, lab.st
    m = mapping(lab, st, "M", value, **(map_attrs or {}))
    kw = {k: build(lab, v, st) for k, v in kwargs.items()}
    kw["mapping"] = m
    ci = lab.cls(CB, "BinaryParameterCallback")
    (s, cb), = must(lab, lab.new(ci, [], kw, st=st), "BinaryParameterCallback()")
    lb = label(lab, s)
    md = e.class_attr(lab.cls(ACT, "PushButtonAction"), mode)
    acfg = {"callback": cb, "mode": md, "useSwitchLeds": TRUE}
    if with_label:
        acfg["display"] = lb
    (s, act), = must(lab, lab.new(lab.cls(ACT, "PushButtonAction"), [], {"config": e.mkdict(s, acfg)}, st=s), "PushButtonAction()")
    sw = switch(lab, s, (0,), [act])
    appl, cl = application(lab, s, cfg)
    (s, _), = must(lab, lab.method(act, "init", [appl, sw], st=s), "init")
    return s, dict(m=m, cb=cb, act=act, sw=sw, label=lb, appl=appl, client=cl)


def modevalue(lab, name):
    v = lab.e.class_attr(lab.cls(CB, "BinaryParameterCallback"), name)
    if v is None or v[0] != "c":
        raise AnalysisBroken("comparison mode constant %s vanished" % name)
    return v


def evaluation(chk):
    for name in list(MODES) + [None, "NO_STATE_CHANGE"]:
        op = MODES.get(name or "GREATER_EQUAL")
        for ref in ("reference", "enable", "enable-list"):
            for before in (False, True):
                lab = Lab()
                e = lab.e
                r = e.sym("reference", typ="int")
                v = e.sym("value", typ="int", nullable=True)
                kw = {"use_internal_state": False}
                if name is not None:
                    kw["comparison_mode"] = modevalue(lab, name)
                if ref == "reference":
                    kw.update(reference_value=r, value_enable=77)
                elif ref == "enable":
                    kw.update(value_enable=r)
                else:
                    kw.update(value_enable=[r, c(5)], value_disable=[0, 0])
                s0, o = make(lab, kw)
                cons = "comparison %s against %s, previously %s" % (name or "default", ref, "on" if before else "off")
                for s1, _ in must(lab, lab.method(o["act"], "feedback_state", [c(before)], st=s0), "feedback_state"):
                    s1 = rebase(s1)
                    hset(lab, s1, o["m"], "value", v)
                    for s2, res in lab.method(o["act"], "update_displays", st=s1):
                        if isinstance(res, Raise):
                            chk.ob("evaluate", cons, False, "raises %s %s" % (res.exc, res.msg), res.where)
                            continue
                        for s3, stv in lab.get(o["act"], "state", s2):
                            for s4, on in e.truth(stv, s3):
                                for s5, unknown in e.equal(v, NONE, s4):
                                    if unknown:
                                        chk.ob("evaluate", cons + " unknown value", on is False, "enabled although the value is unknown")
                                        continue
                                    if name == "NO_STATE_CHANGE":
                                        chk.ob("evaluate", cons, on == before, "state changed by a received value")
                                        continue
                                    if op == "==":
                                        dec = e.equal(v, r, s5)
                                    elif op in ("<", "<="):
                                        dec = e.less(v, r, op == "<", s5, None, None)
                                    else:
                                        dec = e.less(r, v, op == ">", s5, None, None)
                                    for s6, want in dec:
                                        chk.ob("evaluate", cons + (" holds" if want else " fails"), on == want,
                                               "shown %s although value %s reference is %s" % ("on" if on else "off", op, want))
                chk.analysed(e)


def history(chk):
    """automatic disable values, sent values and displays over all histories of reports, pushes, resets and terminations"""
    cases = [
        ("scalar", dict(value_enable=9, value_disable=2), 9, 2, None, False),
        ("scalar+disable mapping", dict(value_enable=9, value_disable=2), 9, 2, None, True),
        ("default values", dict(reference_value=10), 1, 0, None, False),
        ("list", dict(value_enable=[9, 8], value_disable=[2, 3], reference_value=10), [9, 8], [2, 3], None, False),
        ("auto", dict(value_enable=9, value_disable="auto", reference_value=10), 9, "auto", "auto", False),
        ("auto+disable mapping", dict(value_enable=9, value_disable="auto", reference_value=10), 9, "auto", "auto", True),
        ("auto in list", dict(value_enable=[9, 8], value_disable=["auto", 3], reference_value=10), [9, 8], ["auto", 3], "list", False),
    ]
    for name, kw, en, dis, auto, dm in cases:
        for internal in (False, True):
            for response in (True, False):
                if response is False and auto:
                    continue
                for texts in (0, 1, 2):
                    if texts != 2 and (auto or dm):
                        continue
                    one_history(chk, name, dict(kw), en, dis, auto, dm, internal, response, texts)


def one_history(chk, name, kw, en, dis, auto, dm, internal, response, texts):
    lab = Lab()
    e = lab.e
    ref = 10 if "reference_value" in kw else 9
    on_vals, off_vals = (20, 21), (3, 4)
    mdis = mapping(lab, lab.st, "M-disable")
    if dm:
        kw["mapping_disable"] = mdis
    kw["use_internal_state"] = internal
    if texts >= 1:
        kw["text"] = "ON"
    if texts >= 2:
        kw["text_disabled"] = "OFF"
    colfn = e.sym("color_callback", cls="callback")

    def hook(eng, f, args, kwargs, st, ctx, node):
        if f == colfn:
            v = plain(lab, (list(args) + list(kwargs.values()))[1], st)
            return [(st, build(lab, COLORS[v if not isinstance(v, tuple) else None], st))]
        return None
    e.call_hooks.insert(0, hook)
    usecb = texts != 1
    if usecb:
        kw["color_callback"] = colfn
    else:
        kw["color"] = ON_COLOR
    s0, o = make(lab, kw, map_attrs={} if response else {"response": NONE, "request": NONE})
    cons0 = "%s%s%s texts=%d" % (name, " internal" if internal else "", "" if response else " without response", texts)
    shows = internal or response

    def expected(spec):
        on, cur = spec[0], spec[1]
        col = COLORS[cur if cur != "unset" else None] if usecb else ON_COLOR
        eff = on and shows
        txt = "" if not texts else ("OFF" if texts == 2 and shows and not on else "ON")
        return (col, 0.5 if eff else 0.125), dim(col, 0.75 if eff else 0.25), txt

    def check_display(s, spec, cons):
        (col, br), back, txt = expected(spec)
        gc, gb = led(lab, s, o["sw"])
        gback = plain(lab, hget(lab, s, o["label"], "back_color"), s)
        gtxt = plain(lab, hget(lab, s, o["label"], "text"), s)
        chk.ob("display", cons, feq(gc, col) and feq(gb, br) and feq(gback, back) and gtxt == txt,
               "LED %s/%s label %s '%s'; expected LED %s/%s label %s '%s'" % (gc, gb, gback, gtxt, col, br, back, txt))

    def steps(st, spec):
        out = [("push", push), ("reset", reset), ("terminated", terminated)]
        for v in on_vals + off_vals:
            out.append(("report %d" % v, lambda s, sp, v=v: report(s, sp, v)))
        return [(n, (lambda s, f=f: f(s, spec))) for n, f in out]

    def report(s, spec, v):
        on, cur, off = spec
        hset(lab, s, o["m"], "value", c(v))
        n = (v >= ref if cur != v else on, v, off)
        if cur != v and v < ref:
            n = (n[0], v, v)
        return fin(lab.method(o["act"], "update_displays", st=s), spec, n, "report %s" % ("on" if v >= ref else "off"), [])

    def reset(s, spec):
        on, cur, off = spec
        hset(lab, s, o["label"], "back_color", c("junk"))
        hset(lab, s, o["label"], "text", c("" if not texts else "junk"))
        hset(lab, s, o["sw"], "colors", e.mklist(s, [c("junk")]))
        hset(lab, s, o["sw"], "brightnesses", e.mklist(s, [c("junk")]))
        n = (cur is not None and cur >= ref, cur, cur if cur is not None and cur < ref else off)
        return fin(lab.method(o["act"], "reset", st=s), spec, n, "reset", [])

    def terminated(s, spec):
        on, cur, off = spec
        return fin(lab.method(o["cb"], "request_terminated", [o["m"]], st=s), spec, (False if cur is not None else on, None, off), "terminated", [])

    def push(s, spec):
        on, cur, off = spec
        n = (not on, cur, off)
        if not on:
            want = [(o["m"], en)]
        else:
            d = dis
            if auto == "auto":
                d = off
            elif auto == "list":
                d = None if off is None else [off, 3]
            want = [] if d is None else [(mdis if dm else o["m"], d)]
        if auto == "list" and off is None and not on:
            want = None   # enabling before a value to restore is known: not specified
        return fin(lab.method(o["act"], "push", st=s), spec, n, "push", want)

    def fin(res, spec, n, what, want):
        out = []
        cons = "%s: %s when %s%s" % (cons0, what, "on" if spec[0] else "off",
                                     "" if not auto else (", restore value %s" % ("known" if spec[2] is not None else "unknown")))
        for s, v in res:
            if isinstance(v, Raise):
                chk.ob("sent", cons, False, "raises %s %s" % (v.exc, v.msg), v.where)
                continue
            got = sets(lab, s, o["client"])
            if want is not None:
                chk.ob("sent", cons, got == want, "sent %s, expected %s" % (
                    [(e.describe(a, s), b) for a, b in got], [(e.describe(a, s), b) for a, b in want]))
            if what == "push" and want:
                tr = s.trace()
                i = max([k for k, x in enumerate(tr) if x.kind == "call" and x.recv == o["client"] and x.name == "set"] or [-1])
                chk.ob("request-after", cons, any(x.kind == "call" and x.recv == o["client"] and x.name == "request" and o["m"] in x.args for x in tr[i + 1:]),
                       "the new value is not requested after the change was sent")
            for s2, got in lab.get(o["act"], "state", s):
                chk.ob("state", cons, got == c(n[0]), "state is %s, expected %s" % (e.describe(got), n[0]))
            check_display(s, n, cons)
            out.append((s, v, n))
        return out

    (s1, _), = must(lab, lab.method(o["act"], "update_displays", st=s0), "update_displays")
    check_display(s1, (False, None, None), cons0 + ": initially")
    n, t = explore(lab, [o["act"], o["label"], o["sw"], o["m"]], [(s1, (False, None, None))], steps)
    chk.notes["abstract_states"] = chk.notes.get("abstract_states", 0) + n
    chk.notes["transitions"] = chk.notes.get("transitions", 0) + t
    chk.analysed(e)


def options(chk):
    """dim factors and brightness: nothing -> global of that kind, 'on'/'off' swapped kind, else as given"""
    G = {"on": (0.75, 0.5), "off": (0.25, 0.125)}
    for which in ("on", "off"):
        for given in (None, "other", 0.375, "default"):
            lab = Lab()
            kw = {"color": ON_COLOR, "use_internal_state": True, "reference_value": 10}
            other = "off" if which == "on" else "on"
            want = G[which]
            cfg = CONFIG
            if given == "other":
                kw["display_dim_factor_" + which] = other
                kw["led_brightness_" + which] = other
                want = G[other]
            elif given == "default":
                cfg = {}
                want = (1, 0.3) if which == "on" else (0.2, 0.02)
            elif given is not None:
                kw["display_dim_factor_" + which] = given
                kw["led_brightness_" + which] = given
                want = (given, given)
            s, o = make(lab, kw, cfg)
            hset(lab, s, o["m"], "value", c(20 if which == "on" else 3))
            for s2, _ in must(lab, lab.method(o["act"], "update_displays", st=s), "update_displays"):
                got = (plain(lab, hget(lab, s2, o["label"], "back_color"), s2), led(lab, s2, o["sw"])[1])
                chk.ob("options", "%s state, option %s" % (which, given), feq(got[0], dim(ON_COLOR, want[0])) and feq(got[1], want[1]),
                       "label/brightness %s, expected dim factor and brightness %s" % (got, want))
            chk.analysed(lab.e)


def run(chk):
    chk.rule("evaluate", "the state shown after a new value equals the configured comparison of value and reference, off if unknown")
    chk.rule("sent", "user changes send the enable/disable value(s) on the mapping of that direction, nothing else ever sends")
    chk.rule("request-after", "after sending, the new value is requested")
    chk.rule("state", "the on/off state follows the documented transition for every event")
    chk.rule("display", "LED colour/brightness and label colour/text equal the current state after every event")
    chk.rule("options", "dim factor and brightness options resolve to the configured global or given value")
    evaluation(chk)
    history(chk)
    options(chk)
    chk.floor("evaluate", 40)
    chk.floor("sent", 100)
