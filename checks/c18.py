"""Paging: typestate of pagers, direct page buttons and paged actions on real switches."""
from checks.common import *
from checks.world import World

PAG = "pyswitch.clients.local.actions.pager"
WHITE = (255, 255, 255)


def run(chk):
    chk.rule("enabled", "exactly the actions of the current page are enabled")
    chk.rule("cycle", "the next-page button cycles through all pages in order, a direct button selects its page; nothing else changes the page")
    chk.rule("redraw", "a page change resets every action once, and newly enabled actions draw themselves")
    chk.rule("display", "LEDs and label of pager and page buttons show the current page")
    chk.rule("mappings", "the mappings of a pager are registered and requested")
    chk.rule("total", "no pager raises an error, whatever its pages are")
    sets_ = [[1, 2], [0, 1, 2], ["a", "b", "c", "d"], [7], [2, 1], [], [0, "", 3], [100, 5, 100.5], ["1", 1]]
    jobs = []
    for ids in sets_:
        for opts in ({}, {"led": (0.5, 0.25, 0.125)}, {"nolabel": 1}, {"noleds": 1}, {"plain": 1}):
            jobs.append((ids, None, opts))
        for sel in ids[:3] + ["nope"]:
            for opts in ({}, {"led": (0.5, 0.25, 0.125), "plain": 1}):
                jobs.append((ids, sel, opts))
    parallel(chk, paged, jobs)
    disabled(chk)
    two(chk)
    mappings(chk)
    for r, n in (("enabled", 500), ("cycle", 200), ("redraw", 300), ("display", 300), ("mappings", 3)):
        chk.floor(r, n)


def scene(ids, opts):
    out = []
    for i, x in enumerate(ids):
        d = {"id": x}
        if "plain" not in opts or i % 2:
            d["color"] = (40 * i + 20, 200 - 8 * i, 16)
        if "plain" not in opts or i % 3 == 1:
            d["text"] = "Page %d" % i
        out.append(d)
    return out


def show(chk, w, s, i, pages, cur, direct, on, opts, cons, bright):
    """LEDs of the button on switch i"""
    if "noleds" in opts:
        return
    k = direct if direct is not None else cur
    col = pages[k].get("color", WHITE)
    br = bright[0] if direct is None else bright[2] if on else bright[1]
    got = w.lit(s, i)
    chk.ob("display", cons, all(feq(g, dim(col, br)) for g in got), "LEDs %s instead of %s at %s" % (got, col, br))


def paged(chk, ids, sel, opts):
    w = World()
    lab, e = w.lab, w.lab.e
    pages = scene(ids, opts)
    bright = opts.get("led", (0.15, 0.02, 0.3))
    kw = {"pages": pages}
    if "led" in opts:
        kw.update(led_brightness=0.5, led_brightness_off=0.25, led_brightness_on=0.125)
    label = None
    if "nolabel" not in opts:
        label = closed_label(lab, w.st, "label", back_color=c((1, 2, 3)))
        kw["display"] = label
    if "noleds" in opts:
        kw["use_leds"] = False
    if sel is not None:
        kw["select_page"] = sel
    base = "pages %s, %s%s" % (ids, "next" if sel is None else "select %r" % (sel,), "".join(" " + k for k in opts))
    pager = w.make(PAG, "PagerAction", **kw)
    en = w.read(pager, "enable_callback")
    targets = []
    for i, x in enumerate(ids):
        for j in range(2 if i == 0 else 1):
            a, cb = w.recorder("%r.%d" % (x, j), id=x, enableCallback=en, useSwitchLeds=True)
            targets.append((a, cb, i))
    free, fcb = w.recorder("free", id="free")
    known = [i for i in range(len(ids))]
    direct = known if sel is None else [i for i in known if ids[i] != sel]
    proxies = [w.call(pager, "proxy", ids[i], use_leds="noleds" not in opts) for i in direct[:3]]
    ghost = w.call(pager, "proxy", "ghost")
    # order on the device: some paged actions in front of the pager, the rest behind; page 0 shares a switch with the pager
    for a, cb, i in targets[:1]:
        w.put(a)
    w.put(pager, n=2)
    ip = len(w.switches) - 1
    for a, cb, i in targets[1:]:
        w.put(a)
    px = []
    for p in proxies:
        w.put(p)
        px.append(len(w.switches) - 1)
    w.put(ghost)
    ig = len(w.switches) - 1
    fill, _ = w.recorder("fill")
    w.put(fill, free)
    ifr = len(w.switches) - 1
    if not w.start(chk, "total", base + ": start"):
        return
    selidx = ids.index(sel) if sel is not None and sel in ids else None

    def judge(s, cons, cur, before):
        for a, cb, i in targets:
            for s2, v in ok(chk, "total", cons, lab.get(a, "enabled", st=s)):
                chk.ob("enabled", "%s, action of page %r" % (cons, ids[i]), v == c(i == cur), "enabled is %s" % (v,))
        for s2, v in ok(chk, "total", cons, lab.get(free, "enabled", st=s)):
            chk.ob("enabled", cons + ", action without pager", v == TRUE, "enabled is %s" % (v,))
        if not ids:
            return
        show(chk, w, s, ip, pages, cur, selidx, selidx == cur, opts, cons + ", pager", bright)
        for k, i in enumerate(direct[:3]):
            show(chk, w, s, px[k], pages, cur, i, i == cur, opts, cons + ", button of page %r" % (ids[i],), bright)
        if label is not None:
            txt, back = plain(lab, hget(lab, s, label, "text"), s), plain(lab, hget(lab, s, label, "back_color"), s)
            chk.ob("display", cons + ", label", txt == pages[cur].get("text", "") and feq(back, pages[cur].get("color", WHITE)), "label shows %r on %s" % (txt, back))

    drawn = [x for x in ok(chk, "total", base + ": first update", w.update(w.st))]
    if not drawn:
        return
    for s, _ in drawn:
        judge(s, base + ": at start", 0, None)

    def steps(s, cur):
        out = []
        def go(name, sw, new):
            def f(s):
                res = []
                for s2, v in ok(chk, "total", "%s: %s" % (base, name), w.click(s, sw)):
                    cons = "%s: %s on page %s" % (base, name, ids[cur] if ids else "-")
                    tr = s2.trace()
                    moved = new is not None
                    now = new if moved else cur
                    chk.ob("cycle", cons, all((lab.get(a, "enabled", st=s2)[0][1] == TRUE) == (i == now) for a, cb, i in targets), "the page is not %s" % (ids[now] if ids else None))
                    if ids:
                        for a, cb, i in [(a, cb, i) for a, cb, i in targets] + [(free, fcb, None)]:
                            n = len(calls(tr, cb, "reset"))
                            if now == cur:
                                chk.ob("redraw", "%s, action %s" % (cons, i), n <= (1 if moved else 0), "%d resets without a page change" % n)
                            else:
                                chk.ob("redraw", "%s, action %s" % (cons, i), n == 1, "%d resets" % n)
                    judge(s2, cons, now, cur)
                    for s3, v3 in ok(chk, "total", cons + ", update", w.update(rebase(s2))):
                        t3 = s3.trace()
                        for a, cb, i in targets:
                            n = len(calls(t3, cb, "update_displays"))
                            if now != cur:
                                chk.ob("redraw", "%s, update of action %s" % (cons, i), n == (1 if i == now else 0), "%d redraws after a page change" % n)
                        judge(s3, cons + " and update", now, cur)
                        res.append((s3, v3, now))
                return res
            out.append((name, f))
        n = len(ids)
        go("pager pressed", ip, None if not n else selidx if selidx is not None else (cur + 1) % n)
        for k, i in enumerate(direct[:3]):
            go("button of page %r" % (ids[i],), px[k], i)
        go("button of an unknown page", ig, None)
        go("other action", ifr, None)
        return out
    n, t = explore(lab, w.roots(), [(s, 0) for s, _ in drawn], steps)
    chk.notes["abstract_states"] = n
    chk.analysed(lab.e)


def disabled(chk):
    """a pager which is itself disabled: its page buttons still work and show the state"""
    w = World()
    lab = w.lab
    en = w.enable(True)
    pages = scene([1, 2], {})
    label = closed_label(lab, w.st, "label", back_color=c((1, 2, 3)))
    pager = w.make(PAG, "PagerAction", pages=pages, select_page=1, enable_callback=en, display=label)
    proxy = w.call(pager, "proxy", 2)
    a, cb = w.recorder("second page", id=2, enableCallback=w.read(pager, "enable_callback"))
    w.put(pager)
    w.put(proxy)
    w.put(a)
    if not w.start(chk, "total", "disabled pager: start"):
        return
    for s, _ in ok(chk, "total", "disabled pager: update", w.update(w.st)):
        hset(lab, s, en, "on", FALSE)
        for s1, _ in ok(chk, "total", "disabled pager", w.click(s, 0)):
            chk.ob("cycle", "disabled pager pressed", lab.get(a, "enabled", st=s1)[0][1] == FALSE, "the page changes")
        for s1, _ in ok(chk, "total", "disabled pager, page button", w.click(s, 1)):
            for s2, _ in ok(chk, "total", "disabled pager, update", w.update(s1)):
                chk.ob("cycle", "page button of a disabled pager", lab.get(a, "enabled", st=s2)[0][1] == TRUE, "the page is not selected")
                got = w.lit(s2, 1)
                chk.ob("display", "page button of a disabled pager", all(feq(g, dim(pages[1]["color"], 0.3)) for g in got), "LEDs %s while its page is selected" % got)
                chk.ob("display", "label of a disabled pager", plain(lab, hget(lab, s2, label, "text"), s2) == "Page 0", "the label is changed")
                hset(lab, s2, en, "on", TRUE)
                for s3, _ in ok(chk, "total", "pager enabled again", w.update(s2)):
                    chk.ob("display", "pager enabled again", plain(lab, hget(lab, s3, label, "text"), s3) == "Page 1", "the label is not updated")
                    for s4, _ in ok(chk, "total", "pager enabled again", w.click(s3, 0)):
                        got = w.lit(s4, 1)
                        chk.ob("display", "page button after the pager was used again", all(feq(g, dim(pages[1]["color"], 0.02)) for g in got), "LEDs %s" % got)
    chk.analysed(lab.e)


def two(chk):
    """two pagers do not influence each other"""
    w = World()
    lab = w.lab
    ps = [w.make(PAG, "PagerAction", pages=scene([1, 2, 3], {})) for _ in range(2)]
    acts = []
    for j, p in enumerate(ps):
        w.put(p)
    for j, p in enumerate(ps):
        for i in (1, 2, 3):
            a, cb = w.recorder("p%d.%d" % (j, i), id=i, enableCallback=w.read(p, "enable_callback"))
            acts.append((a, j, i))
            w.put(a)
    if not w.start(chk, "total", "two pagers: start"):
        return

    def steps(s, cur):
        out = []
        for k in (0, 1):
            def f(s, k=k):
                new = tuple(x % 3 + 1 if j == k else x for j, x in enumerate(cur))
                res = []
                for s2, v in ok(chk, "total", "two pagers", w.click(s, k)):
                    for a, j, i in acts:
                        chk.ob("enabled", "two pagers at %s, pager %d pressed, action of page %d of pager %d" % (cur, k + 1, i, j + 1), lab.get(a, "enabled", st=s2)[0][1] == c(new[j] == i), "wrong page")
                    res.append((s2, v, new))
                return res
            out.append(("pager %d" % k, f))
        return out
    explore(lab, w.roots(), [(w.st, (1, 1))], steps)
    chk.analysed(lab.e)


def mappings(chk):
    w = World()
    lab = w.lab
    ms = [mapping(lab, w.st, "M%d" % i) for i in (1, 2)]
    pager = w.make(PAG, "PagerAction", pages=scene([1, 2], {}), mappings=ms)
    w.put(pager)
    if not w.start(chk, "total", "pager with mappings: start"):
        return
    for m in ms:
        chk.ob("mappings", "registered", [x[0] for x in w.regs].count(m) == 1, "a mapping is registered %d times" % [x[0] for x in w.regs].count(m))
    for s, _ in ok(chk, "total", "pager with mappings: update", w.update(w.st)):
        rq = [list(x.args) + list(x.kwargs.values()) for x in calls(s.trace(), w.cl, "request")]
        for m in ms:
            chk.ob("mappings", "requested", [x[0] for x in rq].count(m) == 1, "a mapping is requested %d times per update" % [x[0] for x in rq].count(m))
        for m in ms:
            for v in (c(5), NONE):
                ok(chk, "total", "report to a pager", w.report(s, m, v))
    chk.analysed(lab.e)
