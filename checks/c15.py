"""Value previews: typestate of the preview of one label over all mixes of previews, resets, timers, text changes and cancels by two clients."""
from checks.common import *
from checks import ui as U

MOD = "pyswitch.controller.preview"
BLINK = (9, 200, 9)


def run(chk):
    chk.rule("show", "a preview shows its text at once")
    chk.rule("stay", "a preview stays until its timeout, or until it is reset when it is sticky or has no timeout")
    chk.rule("end", "after the end of a preview the label shows its normal text and text colour")
    chk.rule("blink", "while blinking the text colour alternates between the blink colour and the normal one")
    chk.rule("cancel", "starting a preview cancels every other client once and never the caller")
    chk.rule("shared", "all users of a label share one preview, users of other labels do not")
    chk.rule("timer", "starting a preview restarts its timer with the given timeout")
    chk.rule("value", "the preview of a parameter shows its name and its value in percent of the maximum")
    chk.rule("total", "no mix of previews raises an error")
    jobs = [(cb, col, back) for cb in (True, False) for col in (None, (1, 2, 3)) for back in (None, (20, 20, 20))]
    parallel(chk, closure, jobs)
    shared(chk)
    percent(chk)
    for r, n in (("show", 2000), ("stay", 1000), ("end", 1000), ("blink", 300), ("cancel", 1000), ("shared", 3), ("value", 8)):
        chk.floor(r, n)


def setup(cb, col, back):
    lab = Lab(volatile_period=False)
    e, st = lab.e, lab.st
    U.hardware(lab)
    # the timers: intervals and restarts are recorded, expiry is open
    pc = lab.cls("pyswitch.misc", "PeriodCounter")
    stub(lab, pc.find("reset"), "restart")

    def period(eng, s, b, name, ctx, node):
        if name in ("exceeded", "passed") and b[0] == "o":
            ci = eng.class_of(b, s)
            if ci is not None and ci.qual == PERIOD:
                v = ("r", "period.%s" % (b,), s.count(("pc", b)))
                eng.types[v] = "bool"
                s.emit("period", b, name, (), {}, v, s.facts, "")
                return [(s, v)]
    e.attr_hooks.append(period)
    callback = None
    if cb:
        callback = lab.bound("text callback", {"value": c("normal 1")}, st=st)

        def upd(eng, s, a, k):
            return [(s2, NONE) for s2, v in lab.set(a[0], "text", hget(lab, s, callback, "value"), st=s)]
        lab.handlers[(callback, "update_label")] = upd
    lay = {"font": "/f"}
    if col:
        lay["textColor"] = col
    if back:
        lay["backColor"] = back
    (st, lb), = must(lab, U.label_(lab, st, lay, callback), "DisplayLabel()")
    return lab, st, lb, callback


def get_preview(lab, st, lb):
    return lab.method(lab.e.kv(lab.cls(MOD, "ValuePreview")), "get", [lb], st=st)


def closure(chk, cb, col, back):
    lab, st, lb, callback = setup(cb, col, back)
    e = lab.e
    base = "label %s text callback, %s, %s" % ("with" if cb else "without", "own text colour" if col else "automatic text colour", "background" if back else "no background")
    (st, pv), = must(lab, get_preview(lab, st, lb), "ValuePreview.get")
    cls = [lab.bound("client%d" % i, {}, st=st) for i in (1, 2)]
    st, ui = U.screen(lab, st)
    appl, _ = application(lab, st, low_memory_warning=FALSE)
    (st, _), = must(lab, lab.method(lb, "init", [ui, appl], st=st), "init")
    (st, _), = must(lab, lab.set(lb, "text", c("normal 1"), st=st), "text")

    def look(s):
        return plain(lab, lab.get(lb, "text", st=s)[0][1], s), plain(lab, lab.get(lb, "text_color", st=s)[0][1], s)
    # cancelling clients reset the preview, as the encoder does
    for i, x in enumerate(cls):
        lab.handlers[(x, "cancel")] = lambda eng, s, a, k: lab.method(pv, "reset", [TRUE], st=s)

    # spec: (override text or None, sticky, has timeout, blinking, normal text, normal colour, text was set meanwhile, clients known)
    def normal_color(bk):
        if col:
            return col
        return (0, 0, 0) if bk and sum(bk) > 600 else (255, 255, 255)

    def steps(s, spec):
        ov, stay, timed, blink, norm, bk, covered, known = spec
        out = []

        def ended(cons, s2, what="end"):
            t, k = look(s2)
            chk.ob("end", cons, t == norm and feq(k, normal_color(bk)), "the label shows %r in %s instead of %r in %s" % (t, k, norm, normal_color(bk)))
            chk.ob("end", cons + ", override", hget(lab, s2, lb, "override_text") == NONE, "the override text is not removed")

        def preview(text, client, sticky, timeout, bl):
            name = "preview%s%s%s%s" % ("" if client is None else " by client %d" % (client + 1), ", sticky" if sticky else "", ", no timeout" if not timeout else "", ", blinking" if bl else "")
            kw = {"text": c(text), "stay": c(sticky), "timeout_millis": c(timeout), "blink_interval_millis": c(400 if bl else None), "blink_color": c(BLINK)}
            if client is not None:
                kw["client"] = cls[client]
            cons = "%s: %s after %s" % (base, name, state(spec))

            def f(s):
                res = []
                for s2, v in ok(chk, "total", cons, lab.method(pv, "preview", [], kw, st=s)):
                    tr = s2.trace()
                    t, k = look(s2)
                    chk.ob("show", cons, t == text, "the label shows %r" % (t,))
                    for i, x in enumerate(cls):
                        n = len(calls(tr, x, "cancel"))
                        chk.ob("cancel", cons + ", client %d" % (i + 1), n == (1 if i in known and i != client else 0), "is cancelled %d times" % n)
                    if timeout:
                        rs = [plain(lab, hget(lab, s2, x.recv, "interval"), s2) for x in events(s2, "restart")]
                        chk.ob("timer", cons, timeout in rs, "timers restarted: %s" % rs)
                    res.append((s2, v, (text, sticky, bool(timeout), bl, norm, bk, False, known if client is None or client in known else tuple(sorted(known + (client,))))))
                return res
            out.append((name, f))
        for text in ("A", "B"):
            for client in (None, 0, 1):
                for sticky in (False, True):
                    for timeout in (1500, None):
                        for bl in (False, True):
                            if (text == "B") != (client == 1) or (client == 1 and (sticky, timeout, bl) != (True, 1500, True)) or (client == 0 and (sticky, timeout, bl) != (False, 1500, False)):
                                continue
                            preview(text, client, sticky, timeout, bl)

        def reset(now):
            cons = "%s: reset%s after %s" % (base, " at once" if now else "", state(spec))

            def f(s):
                res = []
                for s2, v in ok(chk, "total", cons, lab.method(pv, "reset", [c(now)], st=s)):
                    if ov is None or now or not timed:
                        if ov is not None:
                            ended(cons, s2)
                        res.append((s2, v, (None, False, False, False, norm, bk, False, known)))
                    else:
                        t, k = look(s2)
                        chk.ob("stay", cons, t in (ov, norm if covered else ov), "the label shows %r before the timeout" % (t,))
                        chk.ob("end", cons + ", colour", feq(k, normal_color(bk)), "text colour %s after a reset" % (k,))
                        chk.ob("timer", cons, [1 for x in events(s2, "restart")], "the timeout is not restarted")
                        res.append((s2, v, (ov, False, True, False, norm, bk, covered, known)))
                return res
            out.append(("reset", f))
        reset(True)
        reset(False)

        def update(s):
            res = []
            cons = "%s: update after %s" % (base, state(spec))
            before = look(s)[1]
            for s2, v in ok(chk, "total", cons, lab.method(pv, "update", [], st=s)):
                t, k = look(s2)
                reads = [(x.recv, s2.facts.get(("truth", x.res))) for x in events(s2, "period")]
                gone = hget(lab, s2, lb, "override_text") == NONE
                if ov is None:
                    chk.ob("stay", cons, t == norm, "the label shows %r without a preview" % (t,))
                    res.append((s2, v, spec))
                    continue
                if gone:
                    chk.ob("stay", cons, timed and not stay and any(b is True for r, b in reads), "the preview ends%s" % (" although it is sticky" if stay else " without its timeout"))
                    ended(cons, s2)
                    res.append((s2, v, (None, False, False, False, norm, bk, False, known)))
                else:
                    if timed and not stay:
                        chk.ob("stay", cons + ", elapsed", reads and not all(b is True for r, b in reads), "the preview does not end after its timeout")
                    chk.ob("stay", cons, t == ov or covered, "the label shows %r before the end of the preview" % (t,))
                    if blink:
                        flip = any(b is True for r, b in reads)
                        good = (BLINK, normal_color(bk))
                        chk.ob("blink", cons, any(feq(k, g) for g in good) and (flip or feq(k, before)), "text colour %s" % (k,))
                    else:
                        chk.ob("blink", cons, feq(k, before), "text colour %s without blinking" % (k,))
                    res.append((s2, v, spec))
            return res
        out.append(("update", update))

        def other(s):
            """the normal text of the label changes"""
            new = "normal 2" if norm == "normal 1" else "normal 1"
            res = []
            if cb:
                s = s.fork()
                hset(lab, s, callback, "value", c(new))
                r = lab.method(lb, "update_label", [], st=s)
            else:
                r = lab.set(lb, "text", c(new), st=s)
            for s2, v in ok(chk, "total", base + ": text changes", r):
                t, k = look(s2)
                if cb and ov is not None:
                    chk.ob("stay", "%s: normal text changes during %s" % (base, state(spec)), t == ov, "the label shows %r" % (t,))
                if not cb or ov is None:
                    chk.ob("show", "%s: normal text changes after %s" % (base, state(spec)), t == new, "the label shows %r" % (t,))
                res.append((s2, v, (ov, stay, timed, blink, new, bk, covered or (not cb and ov is not None), known)))
            return res
        out.append(("text", other))
        if back and not blink:
            def paint(s):
                new = (240, 240, 240) if bk == back else back
                return [(s2, v, (ov, stay, timed, blink, norm, new, covered, known)) for s2, v in ok(chk, "total", base + ": background changes", lab.set(lb, "back_color", c(new), st=s))]
            out.append(("background", paint))
        return out

    def state(spec):
        ov, stay, timed, blink, norm, bk, covered, known = spec
        if ov is None:
            return "no preview"
        return "a%s%s%s preview" % (" sticky" if stay else "", "" if timed else " timeless", " blinking" if blink else "")
    roots = [pv, lb, ui] + cls + ([callback] if callback else [])
    n, t = explore(lab, roots, [(st, (None, False, False, False, "normal 1", back, False, ()))], steps, 2500)
    chk.notes["abstract_states"] = n
    chk.analysed(e)


def shared(chk):
    lab, st, lb, _ = setup(True, None, None)
    (st, l2), = must(lab, U.label_(lab, st, {"font": "/f"}), "DisplayLabel()")
    got = []
    for x in (lb, lb, l2, lb):
        (st, p), = must(lab, get_preview(lab, st, x), "ValuePreview.get")
        got.append(p)
    chk.ob("shared", "two users of one label", got[0] == got[1] == got[3], "they get different previews")
    chk.ob("shared", "users of two labels", got[2] != got[0], "they share one preview")
    for sticky in (False, True):
        for s, _ in ok(chk, "total", "preview", lab.method(got[0], "preview", [c("x")], {"stay": c(sticky)}, st=rebase(st))):
            for s2, p in ok(chk, "total", "ValuePreview.get", get_preview(lab, s, lb)):
                chk.ob("shared", "use of a label during a preview", p == got[0], "it gets another preview")
            for s3, _ in ok(chk, "total", "reset", lab.method(got[0], "reset", [TRUE], st=s)):
                for s2, p in ok(chk, "total", "ValuePreview.get", get_preview(lab, s3, lb)):
                    chk.ob("shared", "use of a label after a preview", p == got[0], "it gets another preview")
    for p, x, n in ((got[0], lb, "first"), (got[2], l2, "second")):
        (st, v), = must(lab, lab.get(p, "label", st=st), "label")
        chk.ob("shared", "preview of the %s label" % n, v == x, "it belongs to another label")
    chk.analysed(lab.e)


def percent(chk):
    lab, st, lb, _ = setup(True, None, None)
    (st, pv), = must(lab, get_preview(lab, st, lb), "ValuePreview.get")
    m = mapping(lab, st, "Gain")
    m0 = mapping(lab, st, "")
    hset(lab, st, m0, "name", NONE)
    cl = lab.bound("client", {}, st=st)
    (st, _), = must(lab, lab.method(pv, "preview", [c("x")], {"client": cl}, st=st), "preview")
    for v, mx in ((0, 127), (127, 127), (64, 127), (16383, 16383), (8192, 16383), (1, 1000)):
        for mm, pre in ((m, "Gain: "), (m0, "")):
            want = "%s%d%%" % (pre, round(v * 100 / mx))
            for s, _ in ok(chk, "total", "preview_mapping", lab.method(pv, "preview_mapping", [], {"value": c(v), "mapping": mm, "max_value": c(mx)}, st=rebase(st))):
                t = plain(lab, lab.get(lb, "text", st=s)[0][1], s)
                chk.ob("value", "value %d of %d%s" % (v, mx, "" if pre else ", mapping without name"), t == want, "shows %r instead of %r" % (t, want))
                chk.ob("cancel", "value preview without client", len(calls(s.trace(), cl, "cancel")) == 1, "another client is not cancelled once")
    for own in (True, False):
        kw = {"value": c(5), "mapping": m, "max_value": c(10), "stay": TRUE, "timeout_millis": c(700), "blink_interval_millis": c(300), "blink_color": c(BLINK)}
        if own:
            kw["client"] = cl
        for s, _ in ok(chk, "total", "preview_mapping", lab.method(pv, "preview_mapping", [], kw, st=rebase(st))):
            chk.ob("cancel", "value preview by %s" % ("the same client" if own else "nobody"), len(calls(s.trace(), cl, "cancel")) == (0 if own else 1), "wrong cancel")
            chk.ob("timer", "value preview", 700 in [plain(lab, hget(lab, s, x.recv, "interval"), s) for x in events(s, "restart")], "the given timeout is not used")
            for s2, _ in ok(chk, "total", "update", lab.method(pv, "update", [], st=s)):
                chk.ob("stay", "sticky value preview", hget(lab, s2, lb, "override_text") != NONE, "it ends")
    cbf = lab.e.sym("own text", cls="function")
    seen = []

    def hook(eng, f, args, kwargs, st, ctx, node):
        if f == cbf:
            seen.append(len(args) + len(kwargs))
            return [(st, c("own text"))]
    lab.e.call_hooks.insert(0, hook)
    for s, _ in ok(chk, "total", "preview_mapping", lab.method(pv, "preview_mapping", [], {"value": c(5), "mapping": m, "max_value": c(10), "text_callback": cbf}, st=rebase(st))):
        chk.ob("value", "own text callback", plain(lab, lab.get(lb, "text", st=s)[0][1], s) == "own text" and seen == [1], "the text callback is not used")
    chk.analysed(lab.e)
