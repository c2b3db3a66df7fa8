"""Rig and bank selection: messages and displays of all rig/bank actions over reports, preselections and presses."""
from checks.common import *
from checks.world import World

A = KEM + ".actions."
WHITE = (255, 255, 255)
DOFF, DON, LOFF, LON = CONFIG["displayDimFactorOff"], CONFIG["displayDimFactorOn"], CONFIG["ledBrightnessOff"], CONFIG["ledBrightnessOn"]
CC_BANK, CC_RIG, CC_NEXT, CC_PREV = 47, 50, 48, 49   # Kemper MIDI specification
PER, BANKS = 5, 125
CUR, TGT = "RIG_SELECT_DISPLAY_CURRENT_RIG", "RIG_SELECT_DISPLAY_TARGET_RIG"
OTHER = 77   # bank of the preselecting button


def run(chk):
    chk.rule("address", "a selection sends the bank and rig it stands for, as one complete group in order")
    chk.rule("release", "releasing the switch releases exactly the rig command which has been pressed")
    chk.rule("preselect", "preselecting sends the bank only; the next rig selection applies it and forgets it")
    chk.rule("silent", "reports, updates and redraws never send anything")
    chk.rule("display", "label and LEDs show the bank and rig derived from the reported rig id, or the target, in the colour of that bank")
    chk.rule("name", "the rig name display shows bank and rig of the reported id, or the preselected bank")
    chk.rule("total", "no selection raises an error")
    jobs = []
    R = ("rig_select", "RIG_SELECT")
    RM = ("rig_select_and_morph_state", "RIG_SELECT_AND_MORPH_STATE")
    rig = [{"rig": 1}, {"rig": 5}, {"rig": 2, "rig_off": 4}, {"rig": 3, "rig_off": "auto"}, {"rig": 2, "bank": 7}, {"rig": 4, "bank": 1, "bank_off": 125},
           {"rig": 2, "bank": 3, "rig_off": 5, "bank_off": 9}, {"rig": 2, "bank": 3, "rig_off": "auto", "bank_off": "auto"}, {"rig": 2, "bank": 3, "rig_off": 1, "bank_off": "auto"},
           {"rig": 2, "bank": 3, "rig_off": "auto", "bank_off": 6}, {"rig": 2, "bank": 125, "bank_off": "auto"}, {"rig": 3, "rig_off": "auto", "auto_exclude_rigs": (4, 5)}, {"rig": None}, {"rig": None, "bank": 4}]
    for o in rig:
        for mode in (CUR, TGT):
            jobs.append((R, dict(o, display_mode=mode)))
    for o in rig:
        if "auto_exclude_rigs" not in o and o.get("rig"):
            jobs.append((RM, dict(o, morph_use_leds=False)))
    S = ("bank_select", "BANK_SELECT")
    for o in ({"bank": 1}, {"bank": 125}, {"bank": 6, "bank_off": 11}, {"bank": 6, "preselect": True}, {"bank": 6, "bank_off": 11, "preselect": True}):
        for mode in (CUR, TGT):
            jobs.append((S, dict(o, display_mode=mode)))
    for n in ("BANK_UP", "BANK_DOWN"):
        for o in ({}, {"preselect": True}, {"preselect": True, "max_bank": 10}, {"dim_factor": "on", "led_brightness": "on"}, {"dim_factor": 0.6, "led_brightness": 0.4, "preselect": True}):
            for mode in (CUR, TGT):
                jobs.append((("bank_up_down", n), dict(o, display_mode=mode)))
    for n in ("RIG_UP", "RIG_DOWN"):
        for keep in (True, False):
            for mode in (CUR, TGT):
                jobs.append((("rig_up_down", n), {"keep_bank": keep, "display_mode": mode}))
    looks = [{"color": (40, 80, 120)}, {"text": "own"}, {"text": "own", "color": (8, 16, 24)}, {"text_callback": 1}, {"color_callback": 1}, {"text_callback": 1, "color_callback": 1}]
    for o in looks:
        for f, base in ((R, {"rig": 2, "rig_off": 4}), (R, {"rig": 2, "bank": 3, "rig_off": 5, "bank_off": 9}), (S, {"bank": 6, "bank_off": 11}), (("bank_up_down", "BANK_UP"), {"preselect": True}), (("rig_up_down", "RIG_DOWN"), {"keep_bank": False})):
            for mode in (CUR, TGT):
                jobs.append((f, dict(base, display_mode=mode, **o)))
    core = [(R, dict(rig=2, bank=3, rig_off="auto", bank_off="auto", display_mode=TGT)), (R, dict(rig=3, rig_off="auto", auto_exclude_rigs=(4, 5), display_mode=TGT)), (S, dict(bank=6, preselect=True, display_mode=TGT)),
            (S, dict(bank=6, bank_off=11, display_mode=CUR)), (("bank_up_down", "BANK_UP"), dict(preselect=True, max_bank=3, display_mode=TGT)), (("rig_up_down", "RIG_DOWN"), dict(keep_bank=False, display_mode=TGT)),
            (R, dict(rig=2, bank=3, bank_off="auto", display_mode=CUR))]
    if chk.thorough:
        core += [(RM, dict(rig=2, rig_off=4, morph_use_leds=False)), (RM, dict(rig=2, bank=3, rig_off="auto", bank_off="auto", morph_use_leds=False)), (R, dict(rig=2, bank=3, rig_off="auto", bank_off=6, display_mode=CUR)),
                 (R, dict(rig=2, bank=3, rig_off=1, bank_off="auto", display_mode=TGT)), (("bank_up_down", "BANK_DOWN"), dict(preselect=True, display_mode=CUR, max_bank=5)), (("rig_up_down", "RIG_UP"), dict(keep_bank=True, display_mode=CUR))]
    parallel(chk, selection, [x + (True,) for x in core] + jobs)
    names(chk)
    for r, n in (("address", 1000), ("release", 500), ("preselect", 100), ("silent", 500), ("display", 1000), ("name", 500)):
        chk.floor(r, n)


def color(bank):
    return COLORS[bank % len(COLORS)]


COLORS = []


class Oracle:
    """what one action stands for; pure python over (rid, pre, off) with off = remembered (rig_off, bank_off)"""

    def __init__(self, name, o):
        self.name, self.o = name, o
        self.kind = "rig" if name.startswith("RIG_SELECT") else "bank" if name == "BANK_SELECT" else "bankstep" if name.startswith("BANK") else "rigstep"
        self.step = 1 if name.endswith("UP") else -1
        self.mode = o.get("display_mode", TGT)
        self.limit = o.get("max_bank") or BANKS

    def off0(self):
        return tuple(1 if self.o.get(k) == "auto" else self.o.get(k) for k in ("rig_off", "bank_off"))

    def on(self, rid):
        o = self.o
        if rid is None:
            return False
        if self.kind == "bank":
            return rid // PER == o["bank"] - 1
        return o.get("rig") is not None and rid % PER == o["rig"] - 1 and (o.get("bank") is None or rid // PER == o["bank"] - 1)

    def remember(self, rid, off):
        o = self.o
        if self.kind != "rig" or rid is None or self.on(rid):
            return off
        r, b = off
        if o.get("rig_off") == "auto" and rid % PER + 1 not in (o.get("auto_exclude_rigs") or ()):
            r = rid % PER + 1
        if o.get("bank_off") == "auto" and o.get("bank") is not None and (r is not None or rid // PER != o["bank"] - 1):
            b = rid // PER + 1
        return (r, b)

    def target(self, rid, pre, off):
        """(bank, rig) from 0 the action stands for, None for what is kept"""
        o = self.o
        if self.kind == "rig":
            on = self.on(rid) and pre is None
            r = off[0] - 1 if on and off[0] is not None else o["rig"] - 1 if o["rig"] is not None else None if rid is None else rid % PER
            b = o.get("bank")
            if pre is not None:
                return pre, r
            return (None if b is None else off[1] - 1 if on and off[1] is not None else b - 1), r
        if self.kind == "bank":
            b = o["bank"] - 1
            if self.on(rid) and o.get("bank_off") is not None and not o.get("preselect"):
                b = o["bank_off"] - 1
            return b, rid % PER
        if self.kind == "bankstep":
            b = (pre if pre is not None else rid // PER) + self.step
            return b % self.limit, rid % PER
        if o.get("keep_bank", True):
            r = rid % PER + self.step
            n = rid + self.step if 0 <= r < PER else rid
        else:
            n = (rid + self.step) % (PER * BANKS)
        return n // PER, n % PER

    def press(self, rid, pre, off):
        """(messages or None if not specified, new preselection)"""
        o = self.o
        if self.kind == "rig":
            b, r = self.target(rid, pre, off)
            out = [(CC_BANK, b)] if b is not None and pre is None else []
            return out + ([(CC_RIG + r, 1)] if r is not None else []), None
        if self.kind == "bankstep" and not o.get("preselect"):
            return [(CC_NEXT if self.step > 0 else CC_PREV, 0)], pre
        if rid is None:
            return [], pre
        b, r = self.target(rid, pre, off)
        if self.kind == "bankstep":
            return [(CC_BANK, b)], b
        if self.kind == "bank":
            if o.get("preselect"):
                return [(CC_BANK, b)], b if pre is not None or not self.on(rid) else None
            return [(CC_BANK, b), (CC_RIG + r, 1)], None
        if b * PER + r == rid:
            return [], pre
        return ([(CC_BANK, b)] if b != rid // PER else []) + [(CC_RIG + r, 1)], None

    def look(self, rid, pre, off):
        """(text, label colour, [allowed LED colours])"""
        o, mode = self.o, self.mode
        text = o.get("text", "Bank up" if self.name == "BANK_UP" else "Bank dn" if self.name == "BANK_DOWN" else None)
        if self.kind == "bankstep":
            f = {"on": DON, "off": DOFF}.get(o.get("dim_factor", "off"), o.get("dim_factor"))
            g = {"on": LON, "off": LOFF}.get(o.get("led_brightness", "off"), o.get("led_brightness"))
        else:
            f, g = DOFF, LOFF
        if rid is None:
            if self.kind == "rigstep":
                return None
            return text if self.kind == "bankstep" else "", dim(WHITE, f), [dim(WHITE, g)]
        b, r = rid // PER, rid % PER
        tb, tr = self.target(rid, pre, off)
        tb = b if tb is None else tb
        sb, sr = (b, r) if mode == CUR else (tb, tr)
        if self.kind == "bankstep" and "text_callback" not in o:
            pass
        elif o.get("text_callback"):
            text = "T%d.%d" % (sb, sr)
        elif text is None:
            text = "Bank %d" % (sb + 1) if self.kind == "bank" else "Rig %d-%d" % (sb + 1, sr + 1)
        if o.get("color"):
            col = o["color"]
        elif o.get("color_callback"):
            col = (b % 256, r * 10, 7)
        else:
            col = color(sb)
        on = self.on(rid) if self.kind in ("rig", "bank") else False
        blink = [dim(col, LON), dim(col, LOFF)]
        if self.kind == "rigstep":
            return text, col, [dim(col, LON)]
        if self.kind == "bankstep":
            return text, dim(col, f), [dim(col, g)] if pre is None else None
        if self.kind == "bank" and o.get("preselect") and pre == o["bank"] - 1:
            return text, (dim(col, f) if mode == CUR else None), (blink if mode == TGT else [dim(col, LOFF)])
        lit = mode == TGT and on
        if self.kind == "rig" and pre is not None:
            return text, dim(col, f), blink
        return text, col if lit else dim(col, f), [dim(col, LON if lit else LOFF)]


def functions(lab):
    """symbols for the text and colour callbacks of a user"""
    e = lab.e
    tx, cx = e.sym("text callback", cls="function"), e.sym("colour callback", cls="function")

    def hook(eng, f, args, kwargs, st, ctx, node):
        if f in (tx, cx):
            a = [plain(lab, x, st) for x in args]
            if len(a) != 3 or not all(isinstance(x, int) for x in a[1:]):
                raise AnalysisBroken("user callback called with %s" % (a,))
            return [(st, c("T%d.%d" % (a[1], a[2]))) if f == tx else (st, c((a[1] % 256, a[2] * 10, 7)))]
    e.call_hooks.insert(0, hook)
    return tx, cx


def module(lab, f):
    return A + f[0]


def selection(chk, f, o, full=False):
    w = World()
    lab, e = w.lab, w.lab.e
    kw = dict(o)
    mod = lab.p.module(module(lab, f))
    if not COLORS:
        v = lab.p.lookup(lab.p.module(KEM), "BANK_COLORS")
        COLORS.extend(plain(lab, e.module_value(lab.p.module(KEM), "BANK_COLORS"), w.st))
        if len(COLORS) < 2 or not all(isinstance(x, tuple) for x in COLORS):
            raise AnalysisBroken("BANK_COLORS not found")
    tx, cx = functions(lab)
    if "display_mode" in o:
        kw["display_mode"] = e.module_value(mod, o["display_mode"]) if lab.p.lookup(mod, o["display_mode"]) else e.module_value(lab.p.module(A + "rig_select"), o["display_mode"])
    if o.get("text_callback"):
        kw["text_callback"] = tx
    if o.get("color_callback"):
        kw["color_callback"] = cx
    label = closed_label(lab, w.st, "label", back_color=c((1, 2, 3)))
    kw["display"] = label
    base = "%s(%s)" % (f[1], ", ".join("%s=%s" % (k, v) for k, v in o.items()))
    act = w.make(module(lab, f), f[1], **kw)
    if act[0] == "o" and e.h(w.st, act).kind == "list":
        w.put(*e.h(w.st, act).items)
    else:
        w.put(act)
    orc = Oracle(f[1], o)
    w.put(w.make(A + "bank_select", "BANK_SELECT", bank=OTHER, preselect=True))
    w.put(w.make(A + "rig_select", "RIG_SELECT", rig=4, bank=9))
    if not w.start(chk, "total", base + ": start"):
        return

    def msgs(s):
        out = []
        for m, v in w.sets(s):
            x = hget(lab, s, m, "set") if m and m[0] == "o" else None
            out.append((plain(lab, hget(lab, s, x, "control"), s) if x and x[0] == "o" else m, v))
        return out

    def judge(s, cons, rid, pre, off):
        want = orc.look(rid, pre, off)
        if want is None:
            return
        text, back, leds = want
        gt, gb = plain(lab, hget(lab, s, label, "text"), s), plain(lab, hget(lab, s, label, "back_color"), s)
        chk.ob("display", cons + ", text", gt == text, "shows %r instead of %r" % (gt, text))
        if back is not None:
            chk.ob("display", cons + ", label colour", feq(gb, back), "shows %s instead of %s" % (gb, back))
        if leds is not None:
            g = w.lit(s, 0)[0]
            chk.ob("display", cons + ", LED", any(feq(g, x) for x in leds), "shows %s instead of %s" % (g, leds))

    def report(s, cons, rid):
        cur = [(s, NONE)]
        for m in w.mappings:
            nxt = []
            for s2, _ in cur:
                nxt += ok(chk, "total", cons, w.report(s2, m, c(rid)))
            cur = nxt
        return cur

    ids = set()
    b, r = (o.get("bank") or 3) - 1, (o.get("rig") or 2) - 1
    ids |= {b * PER + r, b * PER + (r + 1) % PER, ((b + 4) % BANKS) * PER + r, ((b + 3) % BANKS) * PER + (r + 2) % PER}
    if f[1] in ("RIG_UP", "RIG_DOWN", "BANK_UP", "BANK_DOWN"):
        ids |= {0, PER - 1, PER, PER * BANKS - 1, PER * BANKS - PER}
    ids = sorted(ids)
    if full and "bank" not in o:
        ids = [ids[0], ids[1], ids[-1]]

    def steps(s, spec):
        rid, pre, off, held = spec
        out = []
        tag = "%s: at rig %s%s" % (base, rid, "" if pre is None else ", bank %d preselected" % pre)

        def press(s):
            cons = tag + ", pressed"
            want, npre = orc.press(rid, pre, off)
            res = []
            for s2, v in ok(chk, "total", cons, w.press(s, 0)):
                got = msgs(s2)
                chk.ob("preselect" if pre is not None or npre is not None else "address", cons, got == want, "sends %s instead of %s" % (got, want))
                h = [x for x in want if CC_RIG <= x[0] < CC_RIG + PER]
                res.append((s2, v, (rid, npre, off, (h[0][0] if h else 0,))))
            return res

        def release(s):
            cons = "%s: released after %s" % (base, held[0] or "nothing")
            res = []
            for s2, v in ok(chk, "total", cons, w.release(s, 0)):
                got = msgs(s2)
                chk.ob("release", cons, got == ([(held[0], 0)] if held[0] else []), "sends %s" % (got,))
                res.append((s2, v, (rid, pre, off, ())))
            return res

        def rep(x):
            def g(s):
                res = []
                cons = "%s: rig %d reported%s%s" % (base, x, "" if pre is None else ", bank %d preselected" % pre, "" if off == orc.off0() else ", remembered %s" % (off,))
                o2 = orc.remember(x, off)
                for s2, v in report(s, cons, x):
                    chk.ob("silent", cons, not msgs(s2), "sends %s" % (msgs(s2),))
                    judge(s2, cons, x, pre, o2)
                    res.append((s2, v, (x, pre, o2, held)))
                return res
            return g

        def update(s):
            res = []
            for s2, v in ok(chk, "total", tag + ", update", w.update(s)):
                chk.ob("silent", tag + ", update", not msgs(s2), "sends %s" % (msgs(s2),))
                res.append((s2, v, (rid, pre, off, held)))
            return res

        def other(s):
            """another button preselects its bank"""
            res = []
            for s2, v in ok(chk, "total", tag + ", other bank preselected", w.click(s, 1)):
                if rid is not None:
                    chk.ob("preselect", tag + ", BANK_SELECT preselects", msgs(s2) == [(CC_BANK, OTHER - 1)], "sends %s" % (msgs(s2),))
                res.append((s2, v, (rid, OTHER - 1 if rid is not None and (pre is not None or rid // PER != OTHER - 1) else pre, off, held)))
            return res

        def end(s):
            """another button selects rig 4 of bank 9, or of the preselected one"""
            res = []
            for s2, v in ok(chk, "total", tag + ", other rig selected", w.click(s, 2)):
                want = ([(CC_BANK, 8)] if pre is None else []) + [(CC_RIG + 3, 1), (CC_RIG + 3, 0)]
                chk.ob("preselect", tag + ", RIG_SELECT(4, bank 9)", msgs(s2) == want, "sends %s instead of %s" % (msgs(s2), want))
                res.append((s2, v, (rid, None, off, held)))
            return res
        out.append(("press", press) if not held else ("release", release))
        for x in ids:
            out.append(("report", rep(x)))
        if pre is not None or rid is None:
            out.append(("update", update))
        if not held:
            out += [("other", other), ("end", end)]
        return out
    s0 = []
    for s, _ in ok(chk, "total", base + ": first update", w.update(w.st)):
        judge(s, base + ": before the first report", None, None, orc.off0())
        s0.append((s, (None, None, orc.off0(), ())))
    if full:
        n, t = explore(lab, w.roots() + [label], s0, steps, 12000)
        chk.notes["abstract_states"] = n
    else:
        def walk(s, spec, path):
            if not path:
                return
            for k, (name, go) in enumerate(steps(s, spec)):
                if name == path[0] or (isinstance(path[0], int) and k == path[0] + 1):
                    for s2, v, sp in go(rebase(s)):
                        walk(s2, sp, path[1:])
                    return
        for i in range(len(ids)):
            for path in (["press", "release"], [i, "press", i, "release", "press", "release"], [i, "other", "update", i, "press", "release", i, "update", "end"], [i, "press", "release", "end"],
                         [i, "other", (i + 1) % len(ids), "end", i, "press", "release"], [i, (i + 1) % len(ids), "press", (i + 2) % len(ids), "release", "press", "release"]):
                for st0, sp in s0:
                    walk(st0, sp, path)
    if "color" not in o and "text" not in o and f[1] != "RIG_SELECT_AND_MORPH_STATE":
        for rid in range(0, PER * BANKS, 1 if chk.thorough else 23):
            for s, sp in s0[:1]:
                cons = "%s: rig %d reported" % (base, rid)
                off = orc.remember(rid, orc.off0())
                for s2, _ in report(rebase(s), cons, rid):
                    judge(s2, cons, rid, None, off)
                    want, _ = orc.press(rid, None, off)
                    for s3, _ in ok(chk, "total", cons, w.press(rebase(s2), 0)):
                        chk.ob("address", cons + ", pressed", msgs(s3) == want, "sends %s instead of %s" % (msgs(s3), want))
    chk.analysed(e)


def names(chk):
    """the rig name and id display"""
    for show in (True, False):
        for rid_opt in (False, True, "rig", "bank"):
            w = World()
            lab, e = w.lab, w.lab.e
            cons = "KemperRigNameCallback(show_name=%s, show_rig_id=%r)" % (show, rid_opt)
            cb = w.make(KEM, "KemperRigNameCallback", show_name=show, show_rig_id=rid_opt)
            lb = closed_label(lab, w.st, "label", text=c("old"))
            w.put(w.make(A + "bank_select", "BANK_SELECT", bank=OTHER, preselect=True))
            w.put(w.make(A + "rig_select", "RIG_SELECT", rig=4))
            if not w.start(chk, "total", cons):
                continue
            lis = lab.bound("label listener", {}, st=w.st)
            lab.handlers[(lis, "parameter_changed")] = lambda eng, s, a, k: lab.method(cb, "update_label", [lb], st=s)
            w.call(cb, "init", w.appl, lis)
            tr = w.st.trace()
            regs = [list(x.args) + list(x.kwargs.values()) for x in calls(tr, w.cl, "register")]
            mine = [a[0] for a in regs if len(a) > 1 and a[1] != NONE and a[0] not in [m for m, l in w.regs]] + [m for m, l in w.regs]
            byname = {}
            for m in mine:
                byname[plain(lab, hget(lab, w.st, m, "name"), w.st)] = m
            st = rebase(w.st)
            mname = [m for n, m in byname.items() if "ame" in str(n)]
            if show and len(mname) != 1:
                raise AnalysisBroken("%s: rig name mapping not found in %s" % (cons, list(byname)))
            for rid in [None] + list(range(0, PER * BANKS, 1 if chk.thorough else 31)) + [PER * BANKS - 1]:
                for name in (None, "Lead"):
                    for pre in (False, True):
                        s = st.fork()
                        for m in mine:
                            hset(lab, s, m, "value", c(rid))
                        if show:
                            hset(lab, s, mname[0], "value", c(name))
                        starts = [(s, NONE)]
                        if pre:
                            if rid is None or rid // PER == OTHER - 1:
                                continue
                            starts = ok(chk, "total", cons, w.click(s, 0))
                        for s1, _ in starts:
                            for s2, _ in ok(chk, "total", cons, lab.method(cb, "update_label", [lb], st=s1)):
                                got = plain(lab, hget(lab, s2, lb, "text"), s2)
                                txt = None
                                if rid_opt and rid is not None:
                                    txt = {True: "%d-%d" % (rid // PER + 1, rid % PER + 1), "rig": "%d" % (rid % PER + 1), "bank": "%d" % (rid // PER + 1)}[rid_opt]
                                k = "%s: rig %s, name %s%s" % (cons, rid, name, ", preselected" if pre else "")
                                if pre:
                                    want = "Bank %d" % OTHER
                                elif not show:
                                    want = txt if txt is not None else "old"
                                elif name is None:
                                    chk.ob("name", k, isinstance(got, str) and got.startswith((txt + " ") if txt else "PySwitch"), "shows %r" % (got,))
                                    continue
                                else:
                                    want = name if txt is None else txt + " " + name
                                chk.ob("name", k, got == want, "shows %r instead of %r" % (got, want))
            # preselection shows up at the next update, once
            if show or rid_opt:
                s = st.fork()
                for m in mine:
                    hset(lab, s, m, "value", c(12))
                for s1, _ in ok(chk, "total", cons, w.click(s, 0)):
                    for s2, _ in ok(chk, "total", cons + ": update", lab.method(cb, "update", [], st=rebase(s1))):
                        got = plain(lab, hget(lab, s2, lb, "text"), s2)
                        chk.ob("name", cons + ": update after preselection", got == "Bank %d" % OTHER, "shows %r" % (got,))
            chk.analysed(e)
