"""LED segments: the real switch controller with real actions, for all combinations of LED count, LED usage and enabled state; the LEDs written by each action are compared as sets."""
import itertools
from checks.common import *
from checks import c02
from checks.c13 import events
from checks.factories import Rig, instances

BASE = (1, 2, 3)                       # what the LEDs show before


def run(chk):
    chk.rule("segments", "the LEDs of different actions are disjoint, in range and in order, and cover all LEDs when there are enough of them")
    chk.rule("own", "an action changes only its own LEDs, and none when it is disabled or does not use LEDs")
    chk.rule("colour", "the LEDs of an action show its colour scaled by its brightness")
    chk.rule("switch", "colour and brightness of a switch drive exactly the LEDs assigned to it")
    chk.rule("total", "setting colours and brightness raises no error")
    nmax, kmax = (8, 5) if chk.thorough else (5, 4)
    jobs = [(n, k) for k in range(1, kmax + 1) for n in range(nmax + 1)]
    jobs.sort(key=lambda j: -j[1])
    parallel(chk, layout, jobs)
    whole(chk)
    parallel(chk, factory, instances())
    for r, m in (("segments", 2000), ("own", 2000), ("colour", 1000), ("switch", 50)):
        chk.floor(r, m)
    chk.notes["bounds"] = "0..%d LEDs, 1..%d actions, all subsets using LEDs, all sequences of two enabled sets" % (nmax, kmax)


def rig(chk, n, uses, hold=0, cls="Action"):
    """a switch with n LEDs (scattered indices) and one action per entry of uses; the last `hold` of them are hold actions"""
    lab = Lab()
    e, st = lab.e, lab.st
    pixels = [(5 * i + 3) % 17 for i in range(n)]
    leds = e.mklist(st, [c(BASE) for _ in range(17)])
    drv = lab.bound("led_driver", {"leds": leds}, st=st)
    appl, _ = application(lab, st, led_driver=drv)
    acts, ens = [], []
    for i, u in enumerate(uses):
        en = lab.bound("enable%d" % i, {"on": TRUE}, st=st)
        lab.handlers[(en, "enabled")] = (lambda en: lambda eng, s, a, k: hget(lab, s, en, "on"))(en)
        (st, a), = must(lab, lab.new(lab.cls(ACT, cls), [build(lab, {"useSwitchLeds": u, "enableCallback": en}, st)], st=st), cls)
        acts.append(a)
        ens.append(en)
    model = lab.bound("model", {"pushed": FALSE}, st=st)
    k = len(acts) - hold
    cfg = {"assignment": {"model": model, "pixels": tuple(pixels)}, "actions": list(acts[:k])}
    if hold:
        cfg["actionsHold"] = list(acts[k:])
    r = ok(chk, "total", "SwitchController with %d LEDs" % n, lab.new(lab.cls(c02.MOD, "SwitchController"), [appl, build(lab, cfg, st)], st=st))
    return lab, r, acts, ens, leds, pixels


def shown(lab, s, leds):
    return plain(lab, leds, s)


def draw(chk, lab, s, a, color, br, cons):
    for s1, _ in ok(chk, "total", cons, lab.set(a, "switch_color", build(lab, color, s), st=s)):
        for s2, _ in ok(chk, "total", cons, lab.set(a, "switch_brightness", c(br), st=s1)):
            return s2
    return None


def layout(chk, n, k):
    full = k <= (4 if chk.thorough else 3)
    for uses in itertools.product((True, False), repeat=k):
        for hold in ((0, 1) if k > 1 else (0,)):
            lab, r, acts, ens, leds, pixels = rig(chk, n, uses, hold, "PushButtonAction" if hold else "Action")
            if not r:
                continue
            (s, sw), = r
            masks = list(itertools.product((True, False), repeat=k))
            for prev in (masks if full else masks[:1]):
                x = s.fork()
                x = frames(chk, lab, x, acts, ens, leds, pixels, uses, prev, 0, None)
                if x is None:
                    continue
                for m in masks:
                    y = x.fork()
                    frames(chk, lab, y, acts, ens, leds, pixels, uses, m, 1, "%d LEDs, using LEDs %s, enabled %s" % (n, bits(uses), bits(m)))
            if uses == (True,):
                tuples(chk, lab, s, acts[0], leds, pixels)
            chk.analysed(lab.e)


def bits(m):
    return "".join("1" if x else "0" for x in m)


def frames(chk, lab, s, acts, ens, leds, pixels, uses, mask, rnd, cons):
    for en, on in zip(ens, mask):
        hset(lab, s, en, "on", c(on))
    seg = {}
    n = len(pixels)
    want = {}
    for i, a in enumerate(acts):
        before = shown(lab, s, leds)
        col = (40 * rnd + 16 * (i + 1), 200 - 8 * i, 100 + rnd)
        br = (0.5, 0.75, 0.25, 1, 0.875)[i % 5]
        s = draw(chk, lab, s, a, col, br, cons or "drawing")
        if s is None:
            return None
        after = shown(lab, s, leds)
        ch = [j for j in range(len(after)) if not feq(after[j], before[j])]
        want[i] = dim(col, br)
        if cons:
            mine = uses[i] and mask[i]
            chk.ob("own", "%s, action %d" % (cons, i + 1), set(ch) <= set(pixels) and (mine or not ch), "LEDs %s changed by an action which %s" % (ch, "owns LEDs of %s" % pixels if mine else "must not use any"))
            chk.ob("colour", "%s, action %d" % (cons, i + 1), all(feq(after[j], want[i]) for j in ch), "LEDs show %s for colour %s at %s" % ([after[j] for j in ch], col, br))
            if mine:
                seg[i] = sorted(pixels.index(j) for j in ch if j in pixels)
    if cons and seg:
        order = [seg[i] for i in sorted(seg)]
        flat = [p for q in order for p in q]
        chk.ob("segments", cons, flat == sorted(set(flat)), "LED positions of the actions are %s" % order)
        if len(seg) <= n:
            chk.ob("segments", cons + ", coverage", flat == list(range(n)) and all(order), "LED positions of the actions are %s of %d" % (order, n))
        fin = shown(lab, s, leds)
        for i in seg:
            chk.ob("own", "%s, action %d after all" % (cons, i + 1), all(feq(fin[pixels[p]], want[i]) for p in seg[i]), "the LEDs of this action were changed by another one")
            for s2, v in ok(chk, "total", cons, lab.get(acts[i], "switch_brightness", st=s)):
                if seg[i]:
                    chk.ob("own", "%s, brightness of action %d" % (cons, i + 1), v[0] == "c" and feq(v[2], (0.5, 0.75, 0.25, 1, 0.875)[i % 5]), "reports brightness %s" % (v,))
    return s


def tuples(chk, lab, s, a, leds, pixels):
    """several colours: one per LED when the numbers are equal, else one of them for all"""
    n = len(pixels)
    for m in range(1, n + 3):
        cols = tuple((10 * j + 5, 20 * j, 255 - j) for j in range(m))
        cons = "%d colours for %d LEDs" % (m, n)
        s1 = draw(chk, lab, s.fork(), a, cols, 1, cons)
        if s1 is None:
            continue
        got = [shown(lab, s1, leds)[p] for p in pixels]
        if m == n:
            chk.ob("colour", cons, feq(tuple(got), cols), "LEDs show %s" % got)
        else:
            chk.ob("colour", cons, not got or (got[0] in cols and all(g == got[0] for g in got)), "LEDs show %s" % got)


def whole(chk):
    """colour, colours, brightness and brightnesses of the switch itself; two switches on one driver"""
    lab = Lab()
    e, st = lab.e, lab.st
    leds = e.mklist(st, [c(BASE) for _ in range(9)])
    appl, _ = application(lab, st, led_driver=lab.bound("led_driver", {"leds": leds}, st=st))
    sws, pix = [], [(4, 0, 7), (), (2,), (8, 1)]
    for p in pix:
        cfg = build(lab, {"assignment": {"model": lab.bound("model%d" % len(sws), {"pushed": FALSE}, st=st), "pixels": p}, "actions": []}, st)
        r = ok(chk, "total", "SwitchController()", lab.new(lab.cls(c02.MOD, "SwitchController"), [appl, cfg], st=st))
        if not r:
            return
        (st, sw), = r
        sws.append(sw)
    for i, p in enumerate(pix):
        for col in ((255, 255, 255), (0, 0, 0), (200, 17, 96)):
            for b in (0, 0.02, 0.3, 0.5, 1):
                cons = "%d LEDs, colour %s, brightness %s" % (len(p), col, b)
                before = shown(lab, st, leds)
                for attr, vals in (("single", (("color", col), ("brightness", b))), ("list", (("colors", [col] * len(p)), ("brightnesses", [b] * len(p))))):
                    s = st.fork()
                    for at, v in vals:
                        for s, _ in ok(chk, "total", cons, lab.set(sws[i], at, build(lab, v, s), st=s)):
                            break
                    after = shown(lab, s, leds)
                    good = [feq(after[j], dim(col, b) if j in p else before[j]) for j in range(9)]
                    chk.ob("switch", "%s (%s)" % (cons, attr), all(good), "LEDs %s instead of %s" % (after, [j for j, g in enumerate(good) if not g]))
                    if p:
                        for at, v in (("color", col), ("brightness", b)):
                            for s2, got in ok(chk, "total", cons, lab.get(sws[i], at, st=s)):
                                chk.ob("switch", "%s, %s read back (%s)" % (cons, at, attr), feq(plain(lab, got, s2), v), "%s" % (got,))
        if len(p) > 1:
            cols = [(10 * j, 20, 255 - j) for j in range(len(p))]
            s = st.fork()
            for at, v in (("colors", cols), ("brightnesses", [0.5 ** j for j in range(len(p))])):
                for s, _ in ok(chk, "total", "LED by LED", lab.set(sws[i], at, build(lab, v, s), st=s)):
                    break
            after = shown(lab, s, leds)
            chk.ob("switch", "%d LEDs set one by one" % len(p), all(feq(after[q], dim(cols[j], 0.5 ** j)) for j, q in enumerate(p)), "LEDs %s" % after)
        # leave a trace for the next switch
        for s, _ in ok(chk, "total", "colour", lab.set(sws[i], "color", c((90 + i, 8, 8)), st=st)):
            for s, _ in ok(chk, "total", "brightness", lab.set(sws[i], "brightness", c(0.5), st=s)):
                st = s
    chk.analysed(lab.e)


def factory(chk, cons, name, mod, kw):
    """every shipped action between two others on the same switch: it never touches their LEDs"""
    r = Rig(name, mod, kw, pixels=tuple(range(12)))
    lab, e = r.lab, r.lab.e
    if r.raised is not None or r.continuous:
        return                          # reported by C01, or no LEDs
    st = r.st
    others = [lab.bound("other%d" % i, {"uses_switch_leds": TRUE, "enabled": TRUE, "id": c("O%d" % i)}, st=st) for i in (1, 2)]
    n = 0
    for a in r.actions:
        for s, v in lab.get(a, "uses_switch_leds", st=st):
            n += v == TRUE
    hset(lab, st, r.switch, "actions", e.mklist(st, [others[0]] + list(r.actions) + [others[1]]))
    hset(lab, st, r.switch, "pixels", tup(*[c(i) for i in range(n + 2)]))
    hset(lab, st, r.switch, "colors", e.mklist(st, [c(BASE)] * (n + 2)))
    hset(lab, st, r.switch, "brightnesses", e.mklist(st, [c(0.3)] * (n + 2)))
    vals, limit = ((None, 33), 14) if not chk.thorough else ((None, 0, 1, 33, 9000), 200)
    seen, todo = set(), [st]
    i = 0
    while i < len(todo):
        s = todo[i]
        i += 1
        for what, run in events(r, s, True, vals):
            for s2, v in run(s.fork()):
                if isinstance(v, Raise):
                    continue
                cols, brs = plain(lab, hget(lab, s2, r.switch, "colors"), s2), plain(lab, hget(lab, s2, r.switch, "brightnesses"), s2)
                good = hget(lab, s2, r.switch, "color") is None and hget(lab, s2, r.switch, "brightness") is None and isinstance(cols, list) and len(cols) == n + 2 and all(feq(cols[j], BASE) and feq(brs[j], 0.3) for j in (0, -1))
                chk.ob("own", "%s: %s" % (cons, what), good, "the LEDs of other actions on the switch become %s %s" % (cols, brs), r.where)
                s2 = rebase(s2)
                k = tuple(lab.canon(s2, x) for x in r.roots())
                if k not in seen and len(seen) < limit:
                    seen.add(k)
                    todo.append(s2)
    chk.analysed(e)
