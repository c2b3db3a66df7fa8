"""Expression pedals: symbolic raw readings through AnalogAction, interval bounds of what is sent, and a twin for history independence."""
from checks.common import *
from checks.c06 import message, interval

MOD = "pyswitch.controller.actions.AnalogAction"
PREV = "pyswitch.controller.preview.ValuePreview"


def world(kw, kind="cc", preview=False):
    lab = Lab()
    e, st = lab.e, lab.st
    m = mapping(lab, st, "M", set={"cc": lambda: message(lab, st, CC, 7, 0), "pc": lambda: message(lab, st, PC, 0), "sx": lambda: message(lab, st, SX, [0, 1, 2], [1, 2, 3, 4, 5, 6]),
                                   "list": lambda: e.mklist(st, [message(lab, st, CC, 7, 0)])}[kind]())
    a = {k: build(lab, v, st) for k, v in kw.items()}
    a["mapping"] = m
    lb = None
    if preview:
        lb = closed_label(lab, st)
        a["change_display"] = lb
        ci = lab.cls("pyswitch.controller.preview", "ValuePreview")
        for n in ("preview", "preview_mapping"):
            def h(eng, s, args, kwargs, ctx, node, n=n):
                s.emit("shown", args[0], n, tuple(args[1:]), dict(kwargs), None, s.facts, "")
                return [(s, NONE)]
            e.hooks[ci.find(n).qual] = h
    ci = lab.cls(MOD, "AnalogAction")
    act = []
    for i in range(2):
        (st, o), = must(lab, lab.new(ci, [], a, st=st), "AnalogAction()")
        act.append(o)
    appl, cl = application(lab, st)
    for o in act:
        (st, _), = must(lab, lab.method(o, "init", [appl], st=st), "init")
    lab.e.no_merge = True
    return lab, st, act, m, cl


def due(lab, s):
    """(all frame timers reported true, number of timer reads)"""
    xs = [s.facts.get(("truth", x.res)) for x in s.trace() if x.kind == "period" and x.name == "exceeded"]
    return bool(xs) and all(xs), len(xs)


def process(lab, st, act, raw):
    return lab.method(act, "process", [raw], st=rebase(st, st.facts))


def run(chk):
    chk.rule("range", "the value sent is an integer between 0 and the maximum of the parameter")
    chk.rule("threshold", "a reading below the threshold sends 0")
    chk.rule("ends", "the lowest reading sends 0 and the highest the maximum")
    chk.rule("change", "the first reading is sent, afterwards exactly the changes")
    chk.rule("frame", "nothing happens before the frame interval has passed, at most one value is sent in it")
    chk.rule("calibrate", "with auto calibration nothing is sent until the minimum window is covered; then the window maps to the full range")
    chk.rule("transfer", "a transfer function alone determines the value")
    chk.rule("preview", "the preview shows exactly the values sent")
    chk.rule("total", "no reading raises an error")
    plain_configs(chk)
    calibrated(chk)
    transfer(chk)
    preview(chk)
    for r in ("range", "change", "calibrate", "transfer"):
        chk.floor(r, 5)


def plain_configs(chk):
    steps = [None, 2, 16, 100, 128, 1024, 65536] if not chk.thorough else [None, 1, 2, 3, 7, 16, 64, 100, 127, 128, 256, 1000, 1024, 4096, 16384, 65535, 65536]
    for kind in ("cc", "sx", "pc", "list"):
        for mx in (None, 1, 5, 127, 1000, 16383):
            for ns in steps:
                for thr in ("default", None, 0, 30000):
                    if thr not in ("default", None) and ns not in (None, 128):
                        continue
                    if kind in ("pc", "list") and (ns is not None or mx not in (None, 5)):
                        continue
                    one(chk, kind, mx, ns, thr)


def one(chk, kind, mx, ns, thr):
    kw = {}
    if mx is not None:
        kw["max_value"] = mx
    if ns is not None:
        kw["num_steps"] = ns
    if thr != "default":
        kw["min_raw_value"] = thr
    lab, st, (a, twin), m, cl = world(kw, kind)
    e = lab.e
    top = mx if mx is not None else 16383 if kind == "sx" else 127
    cons = "%s max %s steps %s threshold %s" % (kind, mx, ns, thr)
    r = [e.sym("raw%d" % i, typ="int", lo=0, hi=65535) for i in range(2)]
    tv = 1024 if thr == "default" else (thr or 0)

    def value(s, v):
        return sets(lab, s, cl)
    cur = [(st, None)]
    for i in range(2):
        nxt = []
        for s0, last in cur:
            for s, v in process(lab, s0, a, r[i]):
                if isinstance(v, Raise):
                    chk.ob("total", cons, False, "raises %s %s" % (v.exc, v.msg), v.where)
                    continue
                ok, n = due(lab, s)
                got = sets(lab, s, cl)
                if not ok:
                    chk.ob("frame", cons, n > 0 and not got, "%d values sent before the frame interval has passed" % len(got))
                    continue
                chk.ob("frame", cons + " due", len(got) <= 1, "%d values sent" % len(got))
                for mm, x in got:
                    x = build(lab, x, s)
                    lo, hi = e.interval(x, s)
                    chk.ob("range", cons, mm == m and e.is_int(x) and lo is not None and hi is not None and lo >= 0 and hi <= top,
                           "value %s lies in [%s, %s], maximum is %s" % (e.describe(x, s), lo, hi, top))
                    for s2, below in e.less(r[i], c(tv), True, s, None, None):
                        if below:
                            for s3, z in e.equal(x, c(0), s2):
                                chk.ob("threshold", cons, z is True, "a reading below %d sends %s" % (tv, e.describe(x, s2)))
                    if last is not None:
                        chk.ob("change", cons + " repeated", all(q is False for _, q in e.equal(x, last, s)), "the value just sent can be sent again")
                if i == 0:
                    chk.ob("change", cons + " first", len(got) == 1, "the first reading is not sent")
                # twin without history
                for s2, v2 in process(lab, s, twin, r[i]) if i == 1 else []:
                    if isinstance(v2, Raise) or not due(lab, s2)[0]:
                        continue
                    want = sets(lab, s2, cl)
                    if not want:
                        continue
                    w = build(lab, want[0][1], s2)
                    cmpto = build(lab, got[0][1], s2) if got else last
                    for s3, q in e.equal(cmpto, w, s2):
                        chk.ob("change", cons + (" sent" if got else " suppressed"), q is True, "%s although the reading means %s" % (
                            "sent " + e.describe(cmpto, s2) if got else "nothing is sent after " + e.describe(cmpto, s2), e.describe(w, s2)))
                if got and i == 0:
                    nxt.append((s, build(lab, got[0][1], s)))
        cur = nxt
    # ends
    for raw, want in ((0, 0), (65535, top)):
        if raw and (65536 % (ns or 128) or 65535 < tv):
            continue
        for s, v in process(lab, st, twin, c(raw)):
            if isinstance(v, Raise):
                chk.ob("total", cons, False, "raises %s %s" % (v.exc, v.msg), v.where)
            elif due(lab, s)[0]:
                got = [x for _, x in sets(lab, s, cl)]
                chk.ob("ends", cons + " reading %d" % raw, got == [want], "sends %s, expected %s" % (got, want))
    fps = interval_of(lab, st, a, chk, cons)
    chk.analysed(e)


def interval_of(lab, st, act, chk, cons, want=1000 // 24):
    for s, v in process(lab, st, act, c(5)):
        for x in s.trace():
            if x.kind == "period" and x.name == "exceeded":
                got = interval(lab, s, x.recv)
                chk.ob("frame", cons + " interval", got == want, "the frame interval is %s ms, expected %s" % (got, want))
                return


def calibrated(chk):
    for win in (0, 0.1, 0.25, 0.5, 1):
        for kind in ("cc", "sx"):
            for thr in (None, "default"):
                kw = {"auto_calibrate": True, "cal_min_window": win}
                if thr is None:
                    kw["min_raw_value"] = None
                lab, st, (a, _), m, cl = world(kw, kind)
                e = lab.e
                top = 127 if kind == "cc" else 16383
                cons = "auto calibration, window %s, %s, threshold %s" % (win, kind, thr)
                w = int(65536 * win)
                r = [e.sym("raw%d" % i, typ="int", lo=0, hi=65535) for i in range(3)]
                cur = [(st, [])]
                for i in range(3):
                    nxt = []
                    for s0, seen in cur:
                        for s, v in process(lab, s0, a, r[i]):
                            if isinstance(v, Raise):
                                chk.ob("total", cons, False, "raises %s %s" % (v.exc, v.msg), v.where)
                                continue
                            ok, n = due(lab, s)
                            got = sets(lab, s, cl)
                            if not ok:
                                chk.ob("frame", cons, not got, "a value is sent before the frame interval has passed")
                                continue
                            new = seen + [r[i]]
                            for _, x in got:
                                x = build(lab, x, s)
                                lo, hi = e.interval(x, s)
                                chk.ob("range", cons, e.is_int(x) and lo is not None and hi is not None and lo >= 0 and hi <= top, "value lies in [%s, %s]" % (lo, hi))
                                # some pair of readings must be at least the window apart
                                def covered(s, pairs):
                                    if not pairs:
                                        return w == 0
                                    (p, q) = pairs[0]
                                    return all(t or covered(s2, pairs[1:]) for s2, t in e.less(c(w), e.from_lin(0, {p: 1, q: -1}), False, s, None, None))
                                if i < 2 or chk.thorough:
                                    chk.ob("calibrate", cons + " reading %d" % (i + 1), covered(s, [(p, q) for p in new for q in new if p != q]), "a value is sent before the window is covered")
                            if i < 2:
                                nxt.append((s, new))
                    cur = nxt
                    if i == 1 and not chk.thorough:
                        cur = cur[:12]
                # concrete windows
                for lo_, hi_ in ((0, 65535), (1000, 60000), (30000, 65535), (123, 45678), (5000, 5001 + w)):
                    if hi_ - lo_ < w or hi_ > 65535:
                        continue
                    for order in ((lo_, hi_), (hi_, lo_)):
                        states = [st]
                        for x in order:
                            states = [s for s0 in states for s, v in process(lab, s0, a, c(x)) if not isinstance(v, Raise) and due(lab, s)[0]]
                        for s0 in states:
                            for raw, want in ((lo_, 0), (hi_, top), (lo_, 0)):
                                res = []
                                for s, v in process(lab, s0, a, c(raw)):
                                    if isinstance(v, Raise):
                                        chk.ob("total", cons, False, "raises %s %s" % (v.exc, v.msg), v.where)
                                    elif due(lab, s)[0]:
                                        got = [x for _, x in sets(lab, s, cl)]
                                        res.append((s, got))
                                        chk.ob("calibrate", cons + " ends %d..%d" % (lo_, hi_), got in ([want], []), "reading %d sends %s, expected %s" % (raw, got, want))
                                s0 = res[0][0]
                # the two ends differ, so the second visit of each end is always sent
                for lo_, hi_ in ((1000, 60000),):
                    s0, sentv = st, []
                    for raw in (lo_, hi_, lo_, hi_):
                        rr = [(s, [x for _, x in sets(lab, s, cl)]) for s, v in process(lab, s0, a, c(raw)) if not isinstance(v, Raise) and due(lab, s)[0]]
                        if not rr:
                            break
                        s0 = rr[0][0]
                        sentv.append(rr[0][1])
                    if 59000 >= w:
                        chk.ob("calibrate", cons + " sweep", sentv[2:] == [[0], [top]] and sentv[1] == [top], "a full sweep sends %s" % sentv)
                    else:
                        chk.ob("calibrate", cons + " sweep too small", sentv == [[]] * 4, "a sweep smaller than the window sends %s" % sentv)
                chk.analysed(e)


def transfer(chk):
    for ns, mx, thr in ((None, None, "default"), (2, 3, "default"), (None, None, 50000)):
        lab0 = None
        kw = {}
        if ns:
            kw["num_steps"] = ns
        if mx:
            kw["max_value"] = mx
        if thr != "default":
            kw["min_raw_value"] = thr
        fn = ("s", "transfer_function")
        lab, st, (a, _), m, cl = world(dict(kw, transfer_function=fn))
        e = lab.e
        e.sym("transfer_function", cls="callback")
        outs = [e.sym("out%d" % i, typ="int", lo=0, hi=127) for i in range(2)]
        raws = [e.sym("raw%d" % i, typ="int", lo=0, hi=65535) for i in range(2)]

        def hook(eng, f, args, kwargs, s, ctx, node):
            if f == fn:
                s.emit("transfer", None, "t", tuple(args) + tuple(kwargs.values()), {}, None, s.facts, "")
                return [(s, outs[raws.index(args[0])] if args and args[0] in raws else c(-99))]
            return None
        e.call_hooks.insert(0, hook)
        cons = "transfer function, steps %s max %s threshold %s" % (ns, mx, thr)
        cur = [(st, None)]
        for i in range(2):
            nxt = []
            for s0, last in cur:
                for s, v in process(lab, s0, a, raws[i]):
                    if isinstance(v, Raise):
                        chk.ob("total", cons, False, "raises %s %s" % (v.exc, v.msg), v.where)
                        continue
                    if not due(lab, s)[0]:
                        continue
                    args = [x.args for x in s.trace() if x.kind == "transfer"]
                    got = [build(lab, x, s) for _, x in sets(lab, s, cl)]
                    chk.ob("transfer", cons + " argument", bool(args) and all(x == (raws[i],) for x in args), "the function gets %s" % (args,))
                    if got:
                        chk.ob("transfer", cons, got == [outs[i]], "sent %s" % [e.describe(x, s) for x in got])
                        if last is not None:
                            chk.ob("change", cons, all(q is False for _, q in e.equal(last, got[0], s)), "the same value is sent twice in a row")
                    else:
                        chk.ob("transfer", cons + " unchanged", last is not None and all(q is True for _, q in e.equal(last, outs[i], s)), "a changed value is not sent")
                    if i == 0 and got:
                        nxt.append((s, got[0]))
            cur = nxt
        chk.analysed(e)


def preview(chk):
    for conv in (False, True):
        fn = ("s", "convert_value")
        kw = {"change_timeout_millis": 777}
        if conv:
            kw["convert_value"] = fn
        lab, st, (a, _), m, cl = world(kw, preview=True)
        e = lab.e
        e.sym("convert_value", cls="callback")
        txt = e.sym("converted", typ="str")

        def hook(eng, f, args, kwargs, s, ctx, node):
            if f == fn:
                s.emit("convert", None, "t", tuple(args), {}, None, s.facts, "")
                return [(s, txt)]
            return None
        e.call_hooks.insert(0, hook)
        r = e.sym("raw", typ="int", lo=0, hi=65535)
        for s, v in process(lab, st, a, r):
            cons = "preview%s" % (" with conversion" if conv else "")
            if isinstance(v, Raise):
                chk.ob("total", cons, False, "raises %s %s" % (v.exc, v.msg), v.where)
                continue
            got = [build(lab, x, s) for _, x in sets(lab, s, cl)]
            shown = [x for x in s.trace() if x.kind == "shown"]
            chk.ob("preview", cons + " count", len(shown) == len(got), "%d previews for %d values sent" % (len(shown), len(got)))
            for x, g in zip(shown, got):
                k = x.kwargs
                if conv:
                    cv = [y.args for y in s.trace() if y.kind == "convert"]
                    chk.ob("preview", cons, x.name == "preview" and txt in (list(x.args) + [k.get("text")]) and cv == [(g,)], "shows %s" % (k or x.args,))
                else:
                    vals = list(x.args) + list(k.values())
                    chk.ob("preview", cons, x.name == "preview_mapping" and g in vals and m in vals and c(127) in vals, "shows %s" % (vals,))
                chk.ob("preview", cons + " timeout", c(777) in list(x.args) + list(k.values()), "the timeout is not passed")
        chk.analysed(e)
