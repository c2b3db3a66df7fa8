"""Rotary encoders: symbolic turns for the arithmetic, and a typestate exploration of preselect/accept/cancel over a small complete value range."""
from checks.common import *
from checks.c06 import message

MOD = "pyswitch.controller.actions.EncoderAction"
BTN = "pyswitch.clients.local.actions.encoder_button"
BANK = "pyswitch.clients.kemper.actions.bank_select_encoder"


def stub_preview(lab):
    ci = lab.cls("pyswitch.controller.preview", "ValuePreview")
    for n in ("preview", "preview_mapping", "reset", "update"):
        stub(lab, ci.find(n), "shown")


def shown(s):
    return [x for x in events(s, "shown") if x.name in ("preview", "preview_mapping")]


def world(kw, kind="cc", preview=False, accept=False, cancel=False, reset=False):
    lab = Lab()
    e, st = lab.e, lab.st
    w = {"lab": lab}
    m = w["m"] = mapping(lab, st, "M", set=message(lab, st, CC, 7, 0) if kind == "cc" else message(lab, st, SX, [0, 1, 2], [1, 2, 3, 4, 5, 6]))
    a = {k: build(lab, v, st) for k, v in kw.items()}
    a["mapping"] = m
    stub_preview(lab)
    for n, on in (("accept_action", accept), ("cancel_action", cancel)):
        if on:
            (st, b), = must(lab, lab.call(lab.fn(BTN, "ENCODER_BUTTON"), st=st), "ENCODER_BUTTON()")
            a[n] = w[n] = b
    if preview:
        a["preview_display"] = closed_label(lab, st)
    if reset:
        a["preview_reset_mapping"] = w["reset"] = mapping(lab, st, "R", set=message(lab, st, CC, 8, 0))
    (st, o), = must(lab, lab.new(lab.cls(MOD, "EncoderAction"), [], a, st=st), "EncoderAction()")
    w["act"] = o
    w["appl"], w["cl"] = application(lab, st)
    (st, _), = must(lab, lab.method(o, "init", [w["appl"]], st=st), "init")
    for n in ("accept_action", "cancel_action"):
        if n in w:
            (st, _), = must(lab, lab.method(w[n], "init", [w["appl"], switch(lab, st, actions=(w[n],))], st=st), "init of the button")
    e.no_merge = True
    w["st"] = st
    return w


def turn(w, st, pos):
    return w["lab"].method(w["act"], "process", [pos], st=rebase(st, st.facts))


def run(chk):
    chk.rule("range", "every value sent or shown lies between minimum and maximum")
    chk.rule("step", "turning changes the value by the scaled number of steps from the current value, limited to the range")
    chk.rule("idle", "without movement nothing is sent or shown")
    chk.rule("preselect", "with an accept button nothing is sent while turning; the preview shows the preselected value and stays")
    chk.rule("accept", "accepting sends exactly the value shown, once, and nothing without a preselection")
    chk.rule("cancel", "cancelling sends nothing and the next preselection starts from the current value")
    chk.rule("start", "a preselection starts from the current value of the device")
    chk.rule("bank", "the bank encoder sends banks in range, preselects them and shows their number")
    chk.rule("total", "no movement or button raises an error")
    direct(chk)
    preselect(chk)
    shared_button(chk)
    banks(chk)
    for r, n in (("range", 10), ("step", 50), ("idle", 10), ("preselect", 20), ("accept", 20), ("cancel", 5), ("bank", 10)):
        chk.floor(r, n)


def clamped(e, x, lo, hi, s):
    """[(state, clamp(x, lo, hi))]"""
    out = []
    for s2, low in e.less(x, c(lo), True, s, None, None):
        if low:
            out.append((s2, c(lo)))
            continue
        for s3, high in e.less(c(hi), x, True, s2, None, None):
            out.append((s3, c(hi) if high else x))
    return out


def direct(chk):
    cases = [("cc", {}, 1, 0, 127), ("sx", {}, 80, 0, 16383), ("cc", {"min_value": 5, "max_value": 20}, 1, 5, 20), ("sx", {"step_width": 7, "max_value": 100}, 7, 0, 100),
             ("cc", {"min_value": 0, "max_value": 1}, 1, 0, 1), ("cc", {"step_width": 3}, 3, 0, 127)]
    for kind, kw, sw, lo, hi in cases:
        for prev in (False, True):
            for known in (True, False, "mixed"):
                direct1(chk, kind, kw, sw, lo, hi, prev, known)
    # fractional step widths: constants around the wrap of the scaled position
    for sw in (0.5, 0.25, 1.5):
        for ps in ((0, -1, -2, -3, -4, -3, -2, -1, 0, 1, 2, 3), (5, 7, 8, 9, 100, 99), (-5, -4, -3, 0, 4, -4), (-1, 0, 1, 0, -1, -2, -1)):
            w = world({"step_width": sw})
            lab, e, s = w["lab"], w["lab"].e, w["st"]
            hset(lab, s, w["m"], "value", c(50))
            cur, last = 50, None
            for p in ps:
                r = ok(chk, "total", "step width %s" % sw, turn(w, s, c(p)))
                if len(r) != 1:
                    chk.ob("step", "step width %s" % sw, False, "ambiguous outcome")
                    break
                s = r[0][0]
                got = [x for _, x in sets(lab, s, w["cl"])]
                new = cur if last is None else max(0, min(127, cur + int(p * sw) - int(last * sw)))
                last = p
                chk.ob("step", "step width %s" % sw, (got == [new]) if new != cur else got in ([], [new]), "position %d sends %s, expected %s" % (p, got, new))
                cur = new
            chk.analysed(e)


def direct1(chk, kind, kw, sw, lo, hi, prev, known):
    cons = "%s %s, %s%s" % (kind, kw or "defaults", {True: "known value", False: "unknown value", "mixed": "value becoming known"}[known], ", preview" if prev else "")
    w = world(kw, kind, prev)
    lab, e, m, cl = w["lab"], w["lab"].e, w["m"], w["cl"]
    pos = [e.sym("position%d" % i, typ="int", lo=-100000, hi=100000) for i in range(3)]
    dev = [e.sym("device%d" % i, typ="int", lo=lo, hi=hi) for i in range(3)]
    states = [(w["st"], None)]
    for i in range(3):
        nxt = []
        for s0, last in states:
            s0 = s0.fork()
            k = known is True or (known == "mixed" and i == 2)
            if k:
                hset(lab, s0, m, "value", dev[i])
            elif i == 0:
                hset(lab, s0, m, "value", NONE)
            start = hget(lab, s0, m, "value")
            start = c(0) if start == NONE else start
            for s, v in ok(chk, "total", cons, turn(w, s0, pos[i])):
                got = sets(lab, s, cl)
                sh = shown(s)
                if i == 0:
                    chk.ob("idle", cons + " start", not got and not sh, "the first position sends %s" % (got,))
                    nxt.append((s, pos[i]))
                    continue
                delta = e.from_lin(0, {pos[i]: sw, pos[i - 1]: -sw})
                for s2, same in e.equal(pos[i], pos[i - 1], s):
                    if same:
                        chk.ob("idle", cons, not got and not sh, "no movement sends %s" % (got,))
                        continue
                    tot = e.arith("+", start, delta, s2, None, None)
                    tot = tot[0][1] if isinstance(tot, list) else tot
                    for s3, want in clamped(e, tot, lo, hi, s2):
                        for mm, x in got:
                            x = build(lab, x, s3)
                            l, h = e.interval(x, s3)
                            chk.ob("range", cons, mm == m and l is not None and h is not None and l >= lo and h <= hi, "value lies in [%s, %s]" % (l, h))
                            chk.ob("step", cons, len(got) == 1 and all(q is True for _, q in e.equal(x, want, s3)), "sends %s, expected %s" % (e.describe(x, s3), e.describe(want, s3)))
                        if not got:
                            chk.ob("step", cons + " nothing sent", known is not True and i == 1 and False or all(q is True for _, q in e.equal(want, start, s3)), "nothing is sent although the value changes to %s" % e.describe(want, s3))
                        chk.ob("preselect", cons + " preview", len(sh) == (len(got) if prev else 0), "%d previews for %d values" % (len(sh), len(got)))
                        for x in sh:
                            chk.ob("preselect", cons + " preview value", x.name == "preview_mapping" and build(lab, got[0][1], s3) == x.kwargs.get("value") and x.kwargs.get("client") == w["act"] and x.kwargs.get("stay") == FALSE and x.kwargs.get("max_value") == c(hi) and x.kwargs.get("mapping") == m,
                                   "preview of %s" % {k: e.describe(z, s3) for k, z in x.kwargs.items() if k != "self"})
                if i < 2:
                    nxt.append((s, pos[i]))
        # one state per distinct heap is enough: the facts of both steps are kept
        states = nxt if len(nxt) < 12 else nxt[:12] if not chk.thorough else nxt
    chk.analysed(e)


def preselect(chk):
    for kw, reset, cancel, conv in (({}, True, True, False), ({"max_value": 3}, False, True, True), ({}, False, False, False)):
        preselect1(chk, kw, reset, cancel, conv)
    preselect1(chk, {}, False, True, False, False)


def preselect1(chk, kw, reset, cancel, conv, preview=True):
    top = 2 if not kw else kw["max_value"]
    kw = dict({"max_value": top, "preview_timeout_millis": 777, "preview_blink_period_millis": 333, "preview_blink_color": (1, 2, 3)}, **kw)
    if conv:
        kw["convert_value"] = ("s", "convert_value")
    w = world(kw, "cc", preview, True, cancel, reset)
    lab, e, m, cl, act = w["lab"], w["lab"].e, w["m"], w["cl"], w["act"]
    if conv:
        e.sym("convert_value", cls="callback")

        def hook(eng, f, args, kwargs, s, ctx, node):
            if f == kw["convert_value"]:
                return [(s, c("text %s" % plain(lab, (list(args) + list(kwargs.values()))[0], s)))]
            return None
        e.call_hooks.insert(0, hook)
    cons = "preselection%s%s%s" % (" with reset mapping" if reset else "", " with cancel button" if cancel else "", " with conversion" if conv else "" if preview else " without display")
    roots = [act, m] + ([w["reset"]] if reset else [])
    POS = (-2, -1, 0, 1, 3)
    # spec: (last position, active value or None, base known to the encoder, reset value seen, device, reset now)
    st = w["st"]

    def steps(s, spec):
        pos, active, base, seen, d, r = spec
        out = [("turn %d" % p, lambda s, p=p: do_turn(s, spec, p)) for p in POS]
        out.append(("accept", lambda s: do_accept(s, spec)))
        out.append(("other preview", lambda s: do_cancel(s, spec, False)))
        if cancel:
            out.append(("cancel", lambda s: do_cancel(s, spec, True)))
        for v in (None, 0, top):
            if v != d:
                out.append(("device %s" % v, lambda s, v=v: do_device(s, spec, v)))
        if reset:
            for v in (None, 1, 2):
                if v != r:
                    out.append(("reset %s" % v, lambda s, v=v: do_reset(s, spec, v)))
        return out

    def do_device(s, spec, v):
        s = s.fork()
        hset(lab, s, m, "value", c(v))
        return [(s, NONE, spec[:4] + (v,) + spec[5:])]

    def do_reset(s, spec, v):
        s = s.fork()
        hset(lab, s, w["reset"], "value", c(v))
        return [(s, NONE, spec[:5] + (v,))]

    def do_accept(s, spec):
        pos, active, base, seen, d, r = spec
        out = []
        for s2, v in ok(chk, "total", cons + " accept", lab.method(w["accept_action"], "push", st=s)):
            got = sets(lab, s2, cl)
            if active is None:
                chk.ob("accept", cons + " without preselection", not got, "sends %s" % [x for _, x in got])
                out.append((s2, v, spec))
            else:
                chk.ob("accept", cons, got == [(m, active)], "sends %s, shown is %s" % ([x for _, x in got], active))
                cur = plain(lab, hget(lab, s2, m, "value"), s2)
                chk.ob("accept", cons + " takes over the value", cur == active, "the parameter value is %s" % (cur,))
                out.append((s2, v, (pos, None, active, seen, active, r)))
            for s3, v3 in ok(chk, "total", cons + " release", lab.method(w["accept_action"], "release", st=rebase(s2))):
                chk.ob("accept", cons + " release", not sets(lab, s3, cl), "releasing the button sends something")
        return out

    def do_cancel(s, spec, button):
        pos, active, base, seen, d, r = spec
        name = cons + (" by button" if button else " by another preview")
        run_ = lab.method(w["cancel_action"], "push", st=s) if button else lab.method(act, "cancel", st=s)
        out = []
        for s2, v in ok(chk, "total", name, run_):
            chk.ob("cancel", name, not sets(lab, s2, cl), "cancelling sends %s" % (sets(lab, s2, cl),))
            out.append((s2, v, (pos, None, d, seen, d, r)))
        return out

    def do_turn(s, spec, p):
        pos, active, base, seen, d, r = spec
        out = []
        for s2, v in ok(chk, "total", cons + " turn", turn(w, s, c(p))):
            chk.ob("preselect", cons + " nothing sent", not sets(lab, s2, cl), "turning sends %s" % (sets(lab, s2, cl),))
            sh = [x for x in shown(s2)]
            a, b, nseen, nd = active, base, seen, d
            if reset:
                if r is not None and seen is not None and r != seen:
                    a, b = None, d
                    chk.ob("cancel", cons + " by reset parameter", any(x.name == "reset" for x in events(s2, "shown")), "the preview stays although the reset parameter changed")
                nseen = r
            delta = 0 if pos is None else p - pos
            if delta == 0:
                chk.ob("idle", cons, not sh, "a preview is shown without movement")
                out.append((s2, v, (p, a, b, nseen, nd, r)))
                continue
            if nd is None:
                nd = plain(lab, hget(lab, s2, m, "value"), s2)
            cur = nd if nd is not None else 0
            if not preview:
                # what accepting now would send
                vals = []
                for s3, _ in ok(chk, "total", cons + " accept", lab.method(w["accept_action"], "push", st=rebase(s2))):
                    vals += [build(lab, x, s3) for _, x in sets(lab, s3, cl)]
            elif not conv:
                vals = [x.kwargs.get("value") for x in sh]
            else:
                vals = [c(int(x.kwargs["text"][2][5:])) if x.kwargs.get("text", NONE)[0] == "c" and str(x.kwargs["text"][2]).startswith("text ") else NONE for x in sh]
            vals = [plain(lab, x, s2) for x in vals]
            chk.ob("range", cons, all(isinstance(x, int) and 0 <= x <= top for x in vals) and len(vals) <= 1, "shows %s" % vals)
            if a is not None:
                want, rule, name = max(0, min(top, a + delta)), "step", cons
                before = a
            else:
                want, before = max(0, min(top, cur + delta)), cur
                rule, name = ("start", "preselection before any other") if b == "startup" else ("start", "preselection after the device changed the value") if b is not None and b != cur else ("cancel", cons + " next start") if b is not None else ("cancel", cons + " next start, unknown")
            got = vals[0] if vals else None
            if rule == "start":
                # the two known findings cover exactly these wrong values
                k = max(0, min(top, (-1 if b == "startup" else b) + delta))
                if not (got == k or (got is None and k == b)):
                    rule, name = "step", cons + " first"
            chk.ob(rule, name, got == want or (got is None and want == before), "turning by %d from %s shows %s, expected %s" % (delta, before, got, want))
            for x in sh:
                k = x.kwargs
                chk.ob("preselect", cons + " preview", k.get("stay") == TRUE and k.get("client") == act and k.get("timeout_millis") == c(777) and k.get("blink_interval_millis") == c(333) and plain(lab, k.get("blink_color"), s2) == (1, 2, 3),
                       "preview options are %s" % {q: e.describe(z, s2) for q, z in k.items() if q != "self"})
            out.append((s2, v, (p, a if got is None else got, cur if b is None else b, nseen, nd, r)))
        return out
    n, t = explore(lab, roots, [(st, (None, None, "startup", None, None, None))], steps, limit=20000)
    chk.notes["abstract_states " + cons], chk.notes["transitions " + cons] = n, t
    chk.analysed(e)


def shared_button(chk):
    """one button registered at two encoders, in every combination of accept and cancel"""
    for modes in (("accept_action", "cancel_action"), ("cancel_action", "accept_action"), ("accept_action", "accept_action"), ("cancel_action", "cancel_action")):
        lab = Lab()
        e, st = lab.e, lab.st
        stub_preview(lab)
        bs = []
        for i in range(2):
            (st, b), = must(lab, lab.call(lab.fn(BTN, "ENCODER_BUTTON"), st=st), "ENCODER_BUTTON()")
            bs.append(b)
        encs = []
        appl, cl = application(lab, st)
        for i, mode in enumerate(modes):
            m = mapping(lab, st, "M%d" % i, set=message(lab, st, CC, 7 + i, 0))
            # bs[0] is the shared button, bs[1] the accept button of encoders cancelled by the shared one
            kw = {"mapping": m, mode: bs[0]}
            if mode == "cancel_action":
                kw["accept_action"] = bs[1]
            (st, o), = must(lab, lab.new(lab.cls(MOD, "EncoderAction"), [], kw, st=st), "EncoderAction()")
            (st, _), = must(lab, lab.method(o, "init", [appl], st=st), "init")
            encs.append((o, m, mode))
        for b in bs:
            (st, _), = must(lab, lab.method(b, "init", [appl, switch(lab, st, actions=(b,))], st=st), "init of the button")
        for turned in ((0,), (1,), (0, 1)):
            s = rebase(st)
            for i in range(2):
                hset(lab, s, encs[i][1], "value", c(10))
                for p in (0, 20 if i in turned else 0):
                    (s, _), = must(lab, lab.method(encs[i][0], "process", [c(p)], st=s), "turn")
            cons = "button used as %s and %s" % modes
            for s2, v in ok(chk, "total", cons, lab.method(bs[0], "push", st=rebase(s))):
                got = [m for m, _ in sets(lab, s2, cl)]
                want = [encs[i][1] for i in turned if modes[i] == "accept_action"]
                chk.ob("accept", cons, sorted(got, key=repr) == sorted(want, key=repr), "%d values are sent, expected %d" % (len(got), len(want)))
                for s3, v3 in ok(chk, "total", cons, lab.method(bs[1], "push", st=rebase(s2))):
                    chk.ob("cancel", cons, not sets(lab, s3, cl), "a cancelled preselection is sent later")
        chk.analysed(e)


def banks(chk):
    lab = Lab()
    e, st = lab.e, lab.st
    stub_preview(lab)
    lb = closed_label(lab, st)
    nb = plain(lab, e.module_value(lab.p.module(KEM), "NUM_BANKS"), st)
    nr = plain(lab, e.module_value(lab.p.module(KEM), "NUM_RIGS_PER_BANK"), st)
    (st, a), = must(lab, lab.call(lab.fn(BANK, "ENCODER_BANK_SELECT"), kwargs={"preview_display": lb, "step_width": c(1)}, st=st), "ENCODER_BANK_SELECT()")
    appl, cl = application(lab, st)
    (st, _), = must(lab, lab.method(a, "init", [appl], st=st), "init")
    (st, m), = must(lab, lab.call(lab.fn(KEM + ".mappings.select", "MAPPING_BANK_SELECT"), st=st), "MAPPING_BANK_SELECT()")
    e.no_merge = True
    for rig in [None, 0, 1, 4, 5, 9, 312, nb * nr - 6, nb * nr - 1]:
        for seq in ((0, 1), (0, -1), (0, -1, -2), (0, 3, 2), (0, 1000), (0, 1, -1000, 1000), (5, 6, 6, 7)):
            s = rebase(st)
            hset(lab, s, m, "value", c(rig))
            cur, last = (rig or 0) // nr, None
            cons = "rig id %s" % ("unknown" if rig is None else "known")
            for p in seq:
                res = ok(chk, "total", "bank encoder, " + cons, lab.method(a, "process", [c(p)], st=rebase(s)))
                if len(res) != 1:
                    chk.ob("bank", cons, not res, "ambiguous outcome")
                    break
                s = res[0][0]
                got = sets(lab, s, cl)
                new = cur if last is None else max(0, min(nb - 1, cur + p - last))
                chk.ob("bank", cons + " sent", (got == [(m, new)]) if new != cur else got in ([], [(m, new)]), "positions %s from rig id %s send %s, expected bank %s" % (seq, rig, [x for _, x in got], new))
                txt = [plain(lab, x.kwargs.get("text"), s) for x in shown(s)]
                chk.ob("bank", cons + " text", txt == ["Bank %d" % (x + 1) for _, x in got], "shows %s" % txt)
                if got:
                    sh = {k: x for k, x in e.h(s, hget(lab, s, appl, "shared")).items.items()}
                    chk.ob("bank", cons + " preselection", sh.get(c("preselectedBank")) == c(new) and sh.get(c("preselectCallback")) == a, "the preselected bank is %s" % (sh.get(c("preselectedBank")),))
                cur, last = new, p
    # periodic update: blinks only its own preselection
    for own in (True, False, None):
        s = rebase(st)
        hset(lab, s, m, "value", c(12))
        if own is not None:
            other = lab.bound("other", st=s)
            hset(lab, s, appl, "shared", build(lab, {"preselectedBank": c(1), "preselectCallback": a if own else other, "preselectBlinkState": FALSE}, s))
        for s2, v in ok(chk, "total", "bank encoder update", lab.method(a, "update", st=s)):
            sh = e.h(s2, hget(lab, s2, appl, "shared")).items
            b = sh.get(c("preselectBlinkState"))
            per = [s2.facts.get(("truth", x.res)) for x in s2.trace() if x.kind == "period" and x.name == "exceeded"]
            chk.ob("bank", "blinking %s" % own, b is None if own is None else b == c(bool(own and any(per))), "the blink state is %s" % (b,))
    chk.analysed(e)
