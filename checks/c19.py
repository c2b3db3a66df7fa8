"""Display elements: labels over all orders of changes, overrides and initialisation; split containers, bounds helpers and splash switching."""
from checks.common import *
from checks import ui as U

LAY = "pyswitch.ui.layout"
SPLIT = "pyswitch.ui.DisplaySplitContainer"
UIC = "pyswitch.ui.UiController"
WHITE, BLACK = (255, 255, 255), (0, 0, 0)


def run(chk):
    chk.rule("text", "the label shows the last text set, wrapped as configured, or its active override text")
    chk.rule("back", "the background shows the last background colour, a multi colour background one of its colours")
    chk.rule("textcolor", "the text has the configured colour or contrasts with the background")
    chk.rule("place", "background and text area lie inside of the bounds, the background reduced by the stroke, the text above it")
    chk.rule("guard", "a background can neither be added nor removed later")
    chk.rule("split", "split containers place their children side by side, disjoint, in order and inside")
    chk.rule("bounds", "bounds helpers take the given amount off the given edge and leave the rest")
    chk.rule("tree", "each element is initialised once, in order, and listed once")
    chk.rule("show", "the interface shows the root element of its callback, initialised once, and updates what is shown")
    chk.rule("total", "no operation on display elements raises an error")
    jobs = []
    for back in (None, (10, 20, 30), (250, 240, 230), ((200, 0, 0), (0, 200, 0), (0, 0, 200))):
        for tc in (None, (7, 8, 9)):
            for wrap in (None, 70):
                jobs.append((history, (back, tc, wrap)))
    jobs += [(layouts, (s, sc, ls)) for s in (0, 1, 5) for sc in (1, 2) for ls in (None, 0.8)]
    jobs += [(contrast, ()), (helpers, ()), (tree, ()), (controller, ())]
    jobs += [(split, (d, how)) for d in ("HORIZONTAL", "VERTICAL") for how in ("add", "ctor", "update")]
    parallel(chk, job, jobs)
    for r, n in (("text", 500), ("back", 300), ("textcolor", 500), ("place", 50), ("guard", 4), ("split", 200), ("bounds", 100), ("tree", 10), ("show", 10)):
        chk.floor(r, n)


def job(chk, fn, args):
    fn(chk, *args)


def screen(chk):
    lab = Lab()
    U.hardware(lab)
    appl, cl = application(lab, lab.st)
    hset(lab, lab.st, appl, "low_memory_warning", FALSE)
    st, ui = U.screen(lab, lab.st)
    return lab, st, ui, appl


def shown(lab, s, ui):
    (_, splash), = must(lab, lab.get(ui, "splash", st=s), "splash")
    return U.things(lab, s, splash)


def allowed(back):
    """text colours which contrast with the background"""
    if not back:
        return {WHITE}
    lum = back[0] * 0.2126 + back[1] * 0.7151 + back[2] * 0.0721
    return {WHITE} if lum < 137 else {BLACK} if lum > 143 else {WHITE, BLACK}


def multi(back):
    return bool(back) and isinstance(back[0], (tuple, list))


def one(s, lab, o, a):
    v = U.attr(lab, s, o, a)
    return tuple(v) if isinstance(v, list) else v


def history(chk, back, tc, wrap):
    lab, st, ui, appl = screen(chk)
    lay = {"font": "/f", "text": "Init"}
    if back:
        lay["backColor"] = back
    if tc:
        lay["textColor"] = tc
    if wrap:
        lay["maxTextWidth"] = wrap
    base = "DisplayLabel(backColor=%s, textColor=%s, maxTextWidth=%s)" % (back, tc, wrap)
    r = ok(chk, "total", base, U.label_(lab, st, lay))
    if not r:
        return
    (st, lb), = r
    texts = ["", "two words", 12]
    backs = [] if not back else [back, (240, 250, 200), (5, 5, 60)] + ([((1, 2, 3), (250, 250, 250))] if not tc else [])

    def get(s, a):
        (_, v), = must(lab, lab.get(lb, a, st=s), a)
        return plain(lab, v, s)

    def judge(s, cons, spec):
        text, bk, colour, ready, over = spec
        t = get(s, "text")
        chk.ob("text", cons + ": text", t == (over or text), "text is %r instead of %r" % (t, over or text))
        want = {colour} if colour else {tc} if tc else set().union(*[allowed(x) for x in bk]) if multi(bk) else allowed(bk)
        if ready:
            rects = [x for x in shown(lab, s, ui) if x[0] == "Rect"]
            areas = [x for x in shown(lab, s, ui) if x[0] == "Label"]
            if not chk.ob("place", cons + ": parts", len(areas) == 1 and len(rects) == (1 if back else 0), "%d text areas and %d backgrounds" % (len(areas), len(rects))):
                return
            fill = None
            if back:
                fill = one(s, lab, rects[0][1], "fill")
                chk.ob("back", cons + ": background", fill in [tuple(x) for x in bk] if multi(bk) else fill == bk, "background filled with %s instead of %s" % (fill, bk))
                if not tc and not colour:
                    want = allowed(fill) if isinstance(fill, tuple) and not multi(fill) else want
            a = areas[0][1]
            t = one(s, lab, a, "text")
            x = over or text
            chk.ob("text", cons + ": text area", t == ("\n".join(x.split(" ")) if wrap else x), "shows %r for %r" % (t, x))
            k = one(s, lab, a, "color")
            chk.ob("textcolor", cons + ": text area", k in want, "text in %s on %s, expected %s" % (k, fill, sorted(want)))
        k = get(s, "text_color")
        if ready or colour or k is not None:
            chk.ob("textcolor", cons + ": property", k in want or not ready and not colour and k == tc, "text colour is %s, expected %s" % (k, sorted(want)))
        b = get(s, "back_color")
        chk.ob("back", cons + ": property", feq(b, bk) or list(b or []) == list(bk or []), "background is %s instead of %s" % (b, bk))

    def steps(s, spec):
        text, bk, colour, ready, over = spec
        tag = "%s%s" % (base, ", shown" if ready else "")
        out = []

        def do(name, run, new):
            def g(s):
                res = []
                for s2, v in ok(chk, "total", "%s: %s" % (tag, name), run(s)):
                    judge(s2, "%s: %s after text %r, background %s%s%s" % (tag, name, text, bk, "" if colour is None else ", text colour set", "" if over is None else ", overridden"), new)
                    res.append((s2, v, new))
                return res
            out.append((name, g))
        if over is None:
            for t in texts:
                do("text = %r" % (t,), lambda s, t=t: lab.set(lb, "text", c(t), st=s), (str(t), bk, colour, ready, over))
        for b in backs:
            new = (text, b, colour if feq(b, bk) else None, ready, over)
            do("back_color = %s" % (b,), lambda s, b=b: lab.set(lb, "back_color", build(lab, b, s), st=s), new)
        for k in (None, (90, 91, 92)):
            do("text_color = %s" % (k,), lambda s, k=k: lab.set(lb, "text_color", c(k), st=s), (text, bk, k, ready, over)) if not (k is None and tc) else None
        if not ready:
            do("init", lambda s: lab.method(lb, "init", [ui, appl], st=s), (text, bk, colour, True, over))

        def override(x):
            def run(s):
                s = s.fork()
                out = []
                for s1, v in lab.set(lb, "override_text", c(x), st=s):
                    out += [(s1, v)] if isinstance(v, Raise) else lab.method(lb, "update_label", st=s1)
                return out
            return run
        if ready:
            for x in ("over", "ride"):
                do("override %s" % x, override(x), (text, bk, colour, ready, x))
            do("override off", override(None), (text, bk, colour, ready, None))
        return out
    explore(lab, [lb, ui, appl], [(st, ("Init", back, None, False, None))], steps, 4000)
    # a background can not appear or disappear
    other = NONE if back else c((1, 1, 1))
    for s, v in lab.set(lb, "back_color", other, st=rebase(st)):
        chk.ob("guard", base, isinstance(v, Raise), "the background is silently %s" % ("removed" if back else "added"))
    chk.analysed(lab.e)


def layouts(chk, stroke, scale, spacing):
    for bounds in ((10, 20, 100, 40), (0, 0, 240, 240), (3, 7, 31, 9)):
        lab, st, ui, appl = screen(chk)
        lay = {"font": "/some.pcf", "backColor": (1, 2, 3), "text": "a b", "stroke": stroke, "maxTextWidth": 50}
        if spacing:
            lay["lineSpacing"] = spacing
        if stroke == 0:
            del lay["stroke"]
        kw = {} if scale == 1 else {"scale": scale}
        base = "DisplayLabel(stroke=%d, scale=%d, lineSpacing=%s) in %s" % (stroke, scale, spacing, bounds)
        r = ok(chk, "total", base, U.label_(lab, st, lay, bounds=bounds, **kw))
        if not r:
            continue
        (st, lb), = r
        for s, _ in ok(chk, "total", base + ": init", lab.method(lb, "init", [ui, appl], st=st)):
            th = shown(lab, s, ui)
            if not chk.ob("place", base + ": order", [x[0] for x in th] == ["Rect", "Label"], "splash consists of %s" % ([x[0] for x in th],)):
                continue
            _, o, x, y = th[0]
            got = (U.num(lab, s, o, "x") + x, U.num(lab, s, o, "y") + y, U.num(lab, s, o, "width"), U.num(lab, s, o, "height"))
            want = (bounds[0] + stroke, bounds[1] + stroke, bounds[2] - 2 * stroke, bounds[3] - 2 * stroke)
            chk.ob("place", base + ": background", got == want, "background at %s instead of %s" % (got, want))
            _, o, x, y = th[1]
            p, a = one(s, lab, o, "anchored_position"), one(s, lab, o, "anchor_point")
            chk.ob("place", base + ": text", a == (0.5, 0.5) and abs(p[0] + x - bounds[0] - bounds[2] / 2) <= 1 and abs(p[1] + y - bounds[1] - bounds[3] / 2) <= 1, "text at %s (anchor %s) in %s" % ((p[0] + x, p[1] + y), a, bounds))
            sc, ls, f = one(s, lab, o, "scale"), one(s, lab, o, "line_spacing"), one(s, lab, o, "font")
            chk.ob("place", base + ": text options", (sc or 1) == scale and (ls or 1) == (spacing or 1) and f == ("font", "/some.pcf"), "scale %s, line spacing %s, font %s" % (sc, ls, f))
            for ev in s.trace():
                if ev.kind == "wrap":
                    chk.ob("place", base + ": wrapping", plain(lab, ev.args[1], s) == 50 and plain(lab, ev.args[2], s) == ("font", "/some.pcf"), "wraps with %s" % (ev.args[1:],))
        chk.analysed(lab.e)
    for s, v in U.label_(lab, rebase(st), {"backColor": (1, 2, 3)}):
        chk.ob("guard", "label without font", isinstance(v, Raise), "a label without font is accepted")


def contrast(chk):
    vals = (0, 60, 120, 139, 160, 200, 255) if not chk.thorough else range(0, 256, 15)
    lab, st, ui, appl = screen(chk)
    (st, lb), = ok(chk, "total", "label", U.label_(lab, st, {"font": "/f", "backColor": (9, 9, 9)}))
    (st, _), = ok(chk, "total", "label", lab.method(lb, "init", [ui, appl], st=st))
    st = rebase(st)
    for r in vals:
        for g in vals:
            for b in vals:
                for s, _ in ok(chk, "total", "back_color", lab.set(lb, "back_color", c((r, g, b)), st=st.fork())):
                    k = plain(lab, lab.get(lb, "text_color", st=s)[0][1], s)
                    chk.ob("textcolor", "automatic colour on (%d, %d, %d)" % (r, g, b), k in allowed((r, g, b)), "text in %s" % (k,))
    chk.analysed(lab.e)


def rect(lab, s, o):
    """x, y, width, height of a DisplayBounds"""
    return tuple(plain(lab, hget(lab, s, o, a), s) for a in ("x", "y", "width", "height"))


def helpers(chk):
    lab = Lab()
    mod = lab.p.module(LAY)
    found = 0
    for name in ("remove_from_top", "remove_from_bottom", "remove_from_left", "remove_from_right", "top", "bottom", "left", "right", "translated", "translate", "with_position"):
        f = lab.p.lookup(mod, name)
        if not f or f[0] != "func":
            continue
        found += 1
        for b in ((0, 0, 240, 240), (10, 20, 101, 57)):
            for amount in (0, 1, 40, 33.7, 57, b[2], b[3]):
                if amount > min(b[2], b[3]):
                    continue
                s = rebase(lab.st)
                (s, o), = must(lab, lab.new(lab.cls(U.UI, "DisplayBounds"), [c(x) for x in b], {}, st=s), "DisplayBounds")
                args = [c(amount)] if "translate" not in name and "position" not in name else [c(amount), c(3)]
                cons = "%s(%s, %s)" % (name, b, amount)
                for s2, v in ok(chk, "total", cons, lab.call(lab.e.fv(f[1]), [o] + args, st=s)):
                    rest = rect(lab, s2, o)
                    got = rect(lab, s2, v) if v[0] == "o" else None
                    n = int(amount)
                    x, y, w, h = b
                    side = name.split("_")[-1]
                    part = {"top": (x, y, w, n), "bottom": (x, y + h - n, w, n), "left": (x, y, n, h), "right": (x + w - n, y, n, h)}.get(side)
                    left = {"top": (x, y + n, w, h - n), "bottom": (x, y, w, h - n), "left": (x + n, y, w - n, h), "right": (x, y, w - n, h)}.get(side)
                    if name == "translated":
                        part, left = (x + n, y + 3, w, h), b
                    elif name == "with_position":
                        part, left = (n, 3, w, h), b
                    elif name == "translate":
                        part, left = None, (x + n, y + 3, w, h)
                    elif not name.startswith("remove"):
                        left = b
                    chk.ob("bounds", cons, got == part and rest == left, "returns %s and leaves %s, expected %s and %s" % (got, rest, part, left))
    if found < 4:
        raise AnalysisBroken("bounds helpers not found")
    chk.analysed(lab.e)


def element(lab, st, **kw):
    (st, o), = must(lab, lab.new(lab.cls(U.UI, "DisplayElement"), [], {k: build(lab, v, st) for k, v in kw.items()}, st=st), "DisplayElement")
    return st, o


def disjoint(chk, cons, rs, box, horizontal):
    i = 0 if horizontal else 1
    for k, r in enumerate(rs):
        inside = r[0] >= box[0] and r[1] >= box[1] and r[0] + r[2] <= box[0] + box[2] and r[1] + r[3] <= box[1] + box[3]
        chk.ob("split", "%s, child %d" % (cons, k), inside and r[2] > 0 and r[3] > 0, "child at %s leaves %s" % (r, box))
        chk.ob("split", "%s, child %d across" % (cons, k), r[1 - i] == box[1 - i] and r[3 - i] == box[3 - i], "child at %s in %s" % (r, box))
        if k:
            p = rs[k - 1]
            chk.ob("split", "%s, child %d after its neighbour" % (cons, k), 0 <= r[i] - (p[i] + p[2 + i]) <= 1, "child at %s after %s" % (r, p))
            chk.ob("split", "%s, child %d size" % (cons, k), abs(r[2 + i] - p[2 + i]) <= 1, "%s beside %s" % (r, p))
    if rs:
        lost = box[2 + i] - sum(r[2 + i] for r in rs)
        chk.ob("split", cons + ", space", 0 <= lost < len(rs) + 1, "%d of %d pixels are not used" % (lost, box[2 + i]))


def split(chk, direction, how):
    lab = Lab()
    ci = lab.cls(SPLIT, "DisplaySplitContainer")
    d = lab.e.class_attr(ci, direction)
    for box in ((0, 0, 240, 40), (10, 20, 101, 203)):
        for n in range(0, 8):
            for hole in (None, 0, n - 1):
                if hole is not None and (hole < 0 or n < 2):
                    continue
                st = rebase(lab.st)
                (st, b), = must(lab, lab.new(lab.cls(U.UI, "DisplayBounds"), [c(x) for x in box], {}, st=st), "DisplayBounds")
                kids = []
                for i in range(n):
                    st, k = element(lab, st)
                    kids.append(k)
                lst = [NONE if i == hole else k for i, k in enumerate(kids)]
                kw = {"direction": d, "bounds": b}
                if how == "ctor":
                    kw["children"] = lab.e.mklist(st, list(lst))
                cons = "%s split of %s into %d%s (%s)" % (direction.lower(), box, n, "" if hole is None else " without %d" % hole, how)
                r = ok(chk, "total", cons, lab.new(ci, [], kw, st=st))
                if not r:
                    continue
                (s, o), = r
                bad = False
                if how != "ctor":
                    for k in lst:
                        r = ok(chk, "total", cons, lab.method(o, "add", [k], st=s))
                        if not r:
                            bad = True
                            break
                        (s, _), = r
                if bad:
                    continue
                if how == "update":
                    hset(lab, s, o, "bounds", b)
                    hset(lab, s, b, "x", c(box[0] + 5))
                    r = ok(chk, "total", cons, lab.method(o, "update_bounds", st=s))
                    if not r:
                        continue
                    (s, _), = r
                own = rect(lab, s, hget(lab, s, o, "bounds"))
                rs = [rect(lab, s, hget(lab, s, k, "bounds")) for k in lst if k != NONE]
                disjoint(chk, cons, rs, own, direction == "HORIZONTAL")
    # nested: a row of columns and the other way round
    for n, m in ((2, 3), (3, 1), (1, 4)):
        st = rebase(lab.st)
        (st, b), = must(lab, lab.new(lab.cls(U.UI, "DisplayBounds"), [c(x) for x in (4, 6, 230, 200)], {}, st=st), "DisplayBounds")
        other = lab.e.class_attr(ci, "VERTICAL" if direction == "HORIZONTAL" else "HORIZONTAL")
        cons = "nested %s split %dx%d (%s)" % (direction.lower(), n, m, how)
        rows, s = [], st
        for i in range(n):
            kids = []
            for j in range(m):
                s, k = element(lab, s)
                kids.append(k)
            kw = {"direction": other}
            if how == "ctor":
                kw["children"] = lab.e.mklist(s, list(kids))
            (s, r), = must(lab, lab.new(ci, [], kw, st=s), "inner container")
            if how == "add":
                for k in kids:
                    (s, _), = must(lab, lab.method(r, "add", [k], st=s), "add")
            rows.append((r, kids))
        kw = {"direction": d, "bounds": b}
        if how == "ctor":
            kw["children"] = lab.e.mklist(s, [r for r, _ in rows])
        (s, o), = must(lab, lab.new(ci, [], kw, st=s), "outer container")
        if how != "ctor":
            for r, kids in rows:
                (s, _), = must(lab, lab.method(o, "add", [r], st=s), "add")
                if how == "update":   # filled after having been added
                    for k in kids:
                        (s, _), = must(lab, lab.method(r, "add", [k], st=s), "add")
        if how == "update":
            (s, _), = must(lab, lab.method(o, "update_bounds", st=s), "update_bounds")
        rs = [rect(lab, s, hget(lab, s, r, "bounds")) for r, _ in rows]
        disjoint(chk, cons, rs, (4, 6, 230, 200), direction == "HORIZONTAL")
        for (r, kids), box in zip(rows, rs):
            disjoint(chk, cons + ", inner", [rect(lab, s, hget(lab, s, k, "bounds")) for k in kids], box, direction != "HORIZONTAL")
    chk.analysed(lab.e)


def tree(chk):
    """elements with boundary children"""
    for shape in ((), ("a",), ("a", None, "b"), (None, None), ("a", ("b", "c"), "d"), (("a", None), ("b",))):
        for how in ("ctor", "add"):
            lab = Lab()
            st = lab.st
            leaves = []

            def leaf(name):
                o = lab.bound("leaf " + name, {"ready": FALSE, "bounds": NONE}, st=st)
                lab.handlers[(o, "initialized")] = lambda eng, s, a, k: hget(lab, s, o, "ready")

                def ini(eng, s, a, k):
                    hset(lab, s, o, "ready", TRUE)
                    return NONE
                lab.handlers[(o, "init")] = ini
                lab.handlers[(o, "contents_flat")] = lambda eng, s, a, k: eng.mklist(s, [o])
                leaves.append(o)
                return o

            def make(x, s):
                if x is None:
                    return s, NONE, []
                if isinstance(x, str):
                    o = leaf(x)
                    return s, o, [o]
                kids, flat = [], []
                for y in x:
                    s, o, f = make(y, s)
                    kids.append(o)
                    flat += f
                kw = {} if how == "add" else {"children": lab.e.mklist(s, list(kids))}
                (s, o), = must(lab, lab.new(lab.cls(U.UI, "DisplayElement"), [], kw, st=s), "DisplayElement")
                if how == "add":
                    for k in kids:
                        (s, _), = must(lab, lab.method(o, "add", [k], st=s), "add")
                return s, o, [o] + flat
            s, root, flat = make(shape, st)
            cons = "tree %s (%s)" % (shape, how)
            u, ap = lab.bound("ui", {}, st=s), lab.bound("appl", {}, st=s)

            def readiness(s, want):
                for s2, v in ok(chk, "total", cons, lab.method(root, "initialized", st=s)):
                    chk.ob("tree", "%s: %s" % (cons, "ready" if want else "not ready yet"), v == c(want), "initialized() returns %s" % (v,))
            readiness(rebase(s), False)
            s = rebase(s)
            for s1, _ in ok(chk, "total", cons, lab.method(root, "init", [u, ap], st=s)):
                got = [ev.recv for ev in s1.trace() if ev.kind == "call" and ev.name == "init" and ev.recv in leaves]
                good = all(tuple(list(ev.args) + list(ev.kwargs.values())) == (u, ap) for ev in s1.trace() if ev.kind == "call" and ev.name == "init" and ev.recv in leaves)
                chk.ob("tree", cons + ": init", got == leaves and good, "%d of %d leaves initialised%s" % (len(got), len(leaves), "" if good else " with other arguments"))
                readiness(rebase(s1), True)
                for s2, _ in ok(chk, "total", cons, lab.method(root, "init", [u, ap], st=rebase(s1))):
                    chk.ob("tree", cons + ": init again", not [ev for ev in s2.trace() if ev.kind == "call" and ev.name == "init" and ev.recv in leaves], "children are initialised twice")
                for s2, v in ok(chk, "total", cons, lab.method(root, "contents_flat", st=rebase(s1))):
                    got = list(lab.e.h(s2, v).items)
                    chk.ob("tree", cons + ": contents", got == flat, "contents_flat() lists %d of %d elements" % (len(got), len(flat)))
            chk.analysed(lab.e)


def controller(chk):
    """UI controller with two splash elements, one of them with an updateable child"""
    lab = Lab()
    st = lab.st
    U.hardware(lab)
    tft = lab.bound("tft", {}, st=st)
    drv = lab.bound("display", {"width": c(320), "height": c(200), "tft": tft}, st=st)
    loader = lab.bound("fonts", {}, st=st)
    cb = lab.bound("splashes", {"which": c(0)}, st=st)
    appl = lab.bound("appl", {}, st=st)
    kids = [lab.bound("kid%d" % i, {"ready": FALSE}, st=st) for i in range(2)]
    for k in kids:
        lab.handlers[(k, "initialized")] = lambda eng, s, a, kw, k=k: hget(lab, s, k, "ready")

        def ini(eng, s, a, kw, k=k):
            hset(lab, s, k, "ready", TRUE)
            return NONE
        lab.handlers[(k, "init")] = ini
        lab.handlers[(k, "contents_flat")] = lambda eng, s, a, kw, k=k: eng.mklist(s, [k])
    roots = []
    for k in kids:
        (st, r), = must(lab, lab.new(lab.cls(U.UI, "DisplayElement"), [], {"children": lab.e.mklist(st, [k])}, st=st), "DisplayElement")
        roots.append(r)
    # the second root itself is a boundary object
    own = lab.bound("own root", {"ready": FALSE, "splash": NONE}, st=st)
    group = lab.bound("own splash", {}, st=st)
    lab.handlers[(own, "initialized")] = lambda eng, s, a, kw: hget(lab, s, own, "ready")

    def setter(o, name, v):
        def h(eng, s, a, kw):
            hset(lab, s, o, name, v)
            return NONE
        return h
    lab.handlers[(own, "init")] = setter(own, "ready", TRUE)
    lab.handlers[(own, "make_splash")] = setter(own, "splash", group)
    lab.handlers[(own, "contents_flat")] = lambda eng, s, a, kw: eng.mklist(s, [own])
    roots[1], kids[1] = own, own
    lab.handlers[(cb, "get_root")] = lambda eng, s, a, k: roots[hget(lab, s, cb, "which")[2]]
    (st, ui), = must(lab, lab.new(lab.cls(UIC, "UiController"), [drv, loader, cb], {}, st=st), "UiController")
    base = "UiController"
    for s, v in ok(chk, "total", base, lab.get(ui, "bounds", st=st)):
        chk.ob("show", base + ".bounds", rect(lab, s, v) == (0, 0, 320, 200), "bounds are %s" % (rect(lab, s, v),))
    r = ok(chk, "total", base + ".init", lab.method(ui, "init", [appl], st=rebase(st)))
    if not r:
        return
    (st, _), = r
    ini = calls(st.trace(), cb, "init")
    chk.ob("show", base + ".init", len(ini) == 1 and (list(ini[0].args) + list(ini[0].kwargs.values()))[:2] == [appl, ui], "the splash callback is not initialised with application and listener")

    def steps(s, spec):
        shown, seen, want = spec
        out = []

        def trigger(name):
            def g(s):
                res = []
                before = [hget(lab, s, r, "splash") for r in roots]
                for s2, v in ok(chk, "total", base + "." + name, lab.method(ui, name, [NONE] if name != "show" else [], st=s)):
                    cons = "%s.%s with root %d while %s" % (base, name, want, "nothing is shown" if shown is None else "root %d is shown" % shown)
                    sh = calls(s2.trace(), tft, "show")
                    new = shown != want and name != "request_terminated"
                    n = hget(lab, s2, roots[want], "splash")
                    chk.ob("show", cons, len(sh) == (1 if new else 0) and all(ev.args[0] == n for ev in sh) and (not new or n not in (None, NONE)), "shows %d splashes" % len(sh))
                    chk.ob("show", cons + ", splash", all(before[i] == hget(lab, s2, roots[i], "splash") for i in seen), "the splash of an element shown before is replaced by an empty one")
                    for i, k in enumerate(kids):
                        m = len(calls(s2.trace(), k, "init"))
                        chk.ob("show", cons + ", initialisation", m == (1 if new and i == want and i not in seen else 0), "root %d is initialised %d times" % (i, m))
                    res.append((s2, v, (want if new else shown, seen | {want} if new else seen, want)))
                return res
            out.append((name, g))
        for n in ("show", "parameter_changed"):
            trigger(n)

        def switch(s):
            s = s.fork()
            hset(lab, s, cb, "which", c(1 - want))
            return [(s, NONE, (shown, seen, 1 - want))]
        out.append(("switch", switch))
        return out
    explore(lab, [ui, cb] + roots + kids[:1], [(rebase(st), (None, frozenset(), 0))], steps, 200)
    chk.analysed(lab.e)
