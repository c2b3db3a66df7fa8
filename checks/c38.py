"""Explore mode: the controller with a real user interface over boards with usable and unusable ports; the shown ports, LEDs and markers after every push from every reached state."""
import itertools

from checks.common import *
from checks import ui as U
from checks.c02 import MOD

EX = "pyswitch.controller.explore"
BOARDS = {
    "one": ["GP1"],
    "two": ["GP1", "GP25"],
    "mixed": ["GP1", "GP10", "GP11", "GP2", "GP23", "GP24", "GP25", "GP9"],
    "unusable first": ["GP0", "GP1", "GP2"],
    "unusable last": ["GP1", "GP2", "GP9"],
    "aliases": ["GP23_VBUS", "GP26", "GP26_A0", "GP27", "GP27_A1"],
    "many": ["GP%d" % i for i in range(13)],
}
UNUSABLE = {"one": [()], "two": [(), ("GP25",)], "mixed": [("GP23",), ("GP1", "GP11", "GP9"), ()], "unusable first": [("GP0",), ("GP0", "GP1")], "unusable last": [("GP9",)], "aliases": [("GP26_A0", "GP27_A1")], "many": [(), ("GP0", "GP3", "GP12")]}
WHITE, BLUE = (255, 255, 255), (0, 0, 255)


class Explore:
    def __init__(self, names, unusable, where, leds=True, ui=True, per=None, cols=None, wiring=None, size=(240, 240)):
        self.lab = lab = Lab()
        e, st = lab.e, lab.st
        e.opaque_raises = False
        U.hardware(lab)
        self.models, self.created = {}, {}
        self.usable = [n for n in names if n not in unusable]
        self.per = 3 if per is None else per
        self.cols = 5 if cols is None else cols
        attrs = {n: ("s", "port " + n) for n in names}
        attrs.update({"LED": ("s", "port LED"), "A0": ("s", "port A0"), "board_id": c("board"), "I2C": ("s", "i2c")})
        board = lab.bound("board", attrs, st=st, open=False)
        self.unclaimed = []
        fail = lambda s, what: [(s, Raise("ValueError", "", False, what))]

        def create(eng, s, a, k):
            port = (list(a) + list(k.values()))[0]
            n = next((x for x, p in attrs.items() if p == port), None)
            if n in unusable and where == "create":
                return fail(s, "pin in use")
            m = lab.bound("switch " + str(n), {"pushed": FALSE}, st=s, methods={"init": lambda eng, s, a, k, n=n: fail(s, "pin in use") if n in unusable else NONE})
            self.created.setdefault(n, []).append(m)
            if n not in unusable:
                self.models[n] = m
            return m
        factory = lab.bound("switch_factory", {}, st=st, methods={"create_switch": create})
        self.pixels = e.mklist(st, [])

        def init(eng, s, a, k):
            n = plain(lab, (list(a) + list(k.values()))[0], s)
            eng.hw(s, self.pixels).items[:] = [c((0, 0, 0))] * n
            return NONE
        kw = {}
        if leds:
            self.driver = lab.bound("led_driver", {"leds": self.pixels}, st=st, methods={"init": init})
            kw["led_driver"] = self.driver
        self.leds = leds
        self.ui = None
        if ui:
            self.shown = []
            tft = lab.bound("tft", {}, st=st)
            drv = lab.bound("display", {"width": c(size[0]), "height": c(size[1]), "tft": tft}, st=st)
            loader = lab.bound("font_loader", {}, st=st, methods={"get": lambda eng, s, a, k: tup(c("font"), a[0])})
            (st, self.ui), = must(lab, lab.new(lab.cls("pyswitch.ui.UiController", "UiController"), [drv, loader], {}, st=st), "UiController()")
            kw["ui"] = self.ui
            self.tft, self.size = tft, size
        if per is not None:
            kw["num_pixels_per_switch"] = c(per)
        if cols is not None:
            kw["num_port_columns"] = c(cols)
        self.result = lab.new(lab.cls(EX, "ExploreModeController"), [board, factory], kw, st=st)

    def screen(self, s):
        """[(kind, object, x, y, w, h)] of what is on the display"""
        lab = self.lab
        x = calls(s.trace(), self.tft, "show")
        if not x:
            return None
        return U.things(lab, s, x[-1].args[0])

    def ports(self, s, things):
        """{text: (text area, rectangle behind it)} of all text areas"""
        lab = self.lab
        rects = []
        out = {}
        for kind, o, x, y in things:
            if kind == "Rect":
                rects.append((o, x + U.num(lab, s, o, "x"), y + U.num(lab, s, o, "y"), U.num(lab, s, o, "width"), U.num(lab, s, o, "height")))
            else:
                px, py = U.attr(lab, s, o, "anchored_position") or (0, 0)
                px, py = x + px, y + py
                back = [r for r in rects if r[1] <= px <= r[1] + r[3] and r[2] <= py <= r[2] + r[4]]
                out.setdefault(U.attr(lab, s, o, "text"), []).append((o, back[-1] if back else None))
        return out

    def lit(self, s):
        return plain(self.lab, self.pixels, s)


def run(chk):
    chk.rule("start", "explore mode starts without an error and asks for the general purpose ports of the board, each once; ports which cannot be used are left out")
    chk.rule("ports", "the display shows every usable port in a label of its own, at most the given number in one row, inside the display and without overlap, and no other port")
    chk.rule("leds", "each push moves the light by one triplet forward (even ports) or backward (odd ports), around the end; exactly this triplet is white, the triplets of all other ports are dimly blue")
    chk.rule("report", "the display shows the indices of the triplet which is lit and how many LEDs there are")
    chk.rule("marker", "the label of the port used last is red, all others are not")
    chk.rule("quiet", "without a push nothing changes; a held or released switch does nothing")
    items = []
    for b, names in BOARDS.items():
        for un in UNUSABLE[b]:
            for where in ("init", "create"):
                items.append((names, un, where, True, True, None, None))
        items.append((names, UNUSABLE[b][0], "init", False, True, None, None))
        items.append((names, UNUSABLE[b][0], "init", True, False, None, None))
        items.append((names, UNUSABLE[b][0], "init", False, False, None, None))
        for per, cols in ((1, 5), (4, 3), (3, 1), (2, 100)):
            items.append((names, UNUSABLE[b][-1], "init", True, True, per, cols))
    parallel(chk, one, items)
    errors(chk)
    for r, k in (("start", 40), ("ports", 40), ("leds", 150), ("report", 150), ("marker", 150), ("quiet", 150)):
        chk.floor(r, k)


def one(chk, names, un, where, leds, ui, per, cols):
    x = Explore(names, un, where, leds, ui, per, cols)
    lab, e = x.lab, x.lab.e
    cons = "%d ports%s%s%s%s" % (len(names), " without " + ",".join(un) + " (%s)" % where if un else "", "" if leds else ", no LEDs", "" if ui else ", no display", "" if per is None else ", %d LEDs each, %d columns" % (per, cols))
    r = ok(chk, "start", cons, x.result)
    if not r:
        return
    if len(r) > 1:
        raise AnalysisBroken("explore mode starts with %d outcomes" % len(r))
    s, ctl = r[0]
    asked = sorted(x.created) if where == "init" else sorted(list(x.created) + list(un))
    twice = [n for n, ms in x.created.items() if len(ms) > 1]
    chk.ob("start", cons, asked == sorted(names) and not twice, "asked for %s (twice: %s) of %s" % (asked, twice, sorted(names)))
    for what in ("init", "tick"):
        r = ok(chk, "start", cons + " " + what, lab.method(ctl, what, [], st=s))
        if not r:
            return
        s, v = r[0]
    chk.ob("start", cons + " keeps running", v == TRUE, "tick returns %s" % e.describe(v, s))
    chk.ob("start", cons + " usable ports", sorted(x.models) == sorted(x.usable), "%s" % sorted(x.models))
    if sorted(x.models) != sorted(x.usable):
        return
    x.usable = list(x.models)       # the order of the ports is the one in which they have been claimed
    n = len(x.usable)
    if ui and not layout(chk, x, s, cons):
        return
    if leds:
        k = len(x.lit(s))
        chk.ob("leds", cons + " amount", k >= n * x.per, "%d LEDs are initialized for %d ports" % (k, n))
        if k < n * x.per:
            return
    if n == 0:
        return
    # all pushes from all positions of the light: position -> push of each port
    cur, pos = s, -1
    todo = {(k, p) for k in range(-1, n) for p in range(n)} if n <= 8 else {(k, p) for k in (-1, 0, 1, n - 2, n - 1) for p in (0, 1, n - 2, n - 1)}
    todo -= {(-1, p) for p in range(2, n)}
    todo -= {(-1, p) for p in range(n) if p}
    i = 0
    while todo and i < 400:
        i += 1
        cand = [(k, p) for (k, p) in sorted(todo) if k == pos]
        if cand:
            p = cand[0][1]
        else:
            p = (i % 3 == 0) if n > 1 else 0
            p = int(p)
        todo.discard((pos, p))
        cur, good = push(chk, x, ctl, cur, cons, pos, p, n, ui, leds)
        if not good:
            return
        pos = pos + (1 if p % 2 == 0 else -1)
        pos = 0 if pos >= n else n - 1 if pos < 0 else pos
    if n > 1:
        together(chk, x, ctl, cur, cons, pos, n, leds)
    chk.analysed(e)


def inside(x, box):
    o, bx, by, bw, bh = box
    return bx >= 0 and by >= 0 and bx + bw <= x.size[0] and by + bh <= x.size[1] and bw > 0 and bh > 0


def apart(a, b):
    return a[1] + a[3] <= b[1] or b[1] + b[3] <= a[1] or a[2] + a[4] <= b[2] or b[2] + b[4] <= a[2]


def layout(chk, x, s, cons):
    lab = x.lab
    th = x.screen(s)
    if th is None:
        chk.ob("ports", cons, False, "nothing is shown on the display")
        return False
    t = x.ports(s, th)
    boxes = []
    for name in x.usable:
        l = t.get(name, [])
        chk.ob("ports", "%s: %s" % (cons, name), len(l) == 1 and l[0][1] is not None, "%d labels show the port" % len(l))
        if len(l) == 1 and l[0][1] is not None:
            boxes.append((name, l[0][1]))
    other = [n for n in t if isinstance(n, str) and n.startswith("GP") and n not in x.usable]
    chk.ob("ports", cons + " others", not other, "%s are shown which are not in use" % other)
    rows = {}
    for name, (o, bx, by, bw, bh) in boxes:
        chk.ob("ports", "%s: %s inside" % (cons, name), inside(x, (o, bx, by, bw, bh)), "the label is at %d,%d with %d x %d" % (bx, by, bw, bh))
        rows.setdefault(by, []).append(name)
    for (a, ra), (b, rb) in itertools.combinations(boxes, 2):
        if not apart(ra, rb):
            chk.ob("ports", "%s: %s and %s" % (cons, a, b), False, "the labels overlap")
    chk.ob("ports", cons + " rows", all(len(r) <= x.cols for r in rows.values()), "rows: %s" % rows)
    return len(boxes) == len(x.usable)


def observe(x, s, ui):
    out = [x.lit(s)]
    if ui:
        for k, o, a, b in x.screen(s):
            out.append((U.attr(x.lab, s, o, "text"), U.attr(x.lab, s, o, "fill"), U.attr(x.lab, s, o, "color")))
    return out


def tick(chk, x, ctl, s, rule, cons):
    r = ok(chk, rule, cons, x.lab.method(ctl, "tick", [], st=s))
    if len(r) > 1:
        raise AnalysisBroken("%s: a tick has %d outcomes" % (cons, len(r)))
    return r[0][0] if r else None


def push(chk, x, ctl, s, cons, pos, p, n, ui, leds):
    lab = x.lab
    cons = "%s: push %s at position %d" % (cons, x.usable[p], pos)
    m = x.models[x.usable[p]]
    s = s.fork()
    hset(lab, s, m, "pushed", TRUE)
    s = tick(chk, x, ctl, s, "leds", cons)
    if s is None:
        return s, False
    new = pos + (1 if p % 2 == 0 else -1)
    new = 0 if new >= n else n - 1 if new < 0 else new
    if leds:
        lit = x.lit(s)
        mine = list(range(new * x.per, new * x.per + x.per))
        on = [i for i, q in enumerate(lit) if q == WHITE]
        chk.ob("leds", cons, on == mine, "lit are %s instead of %s" % (on, mine))
        rest = [lit[i] for i in range(n * x.per) if i not in mine]
        chk.ob("leds", cons + " others", all(q[0] == 0 and q[1] == 0 and 0 < q[2] < 60 for q in rest), "the others are %s" % sorted(set(rest)))
    if ui:
        t = x.ports(s, x.screen(s))
        for name in x.usable:
            l = t.get(name, [])
            if len(l) != 1:
                chk.ob("marker", cons, False, "%s is shown %d times" % (name, len(l)))
                return s, False
            fill = U.attr(lab, s, l[0][1][0], "fill")
            if name == x.usable[p]:
                chk.ob("marker", cons, fill == (255, 0, 0), "its label is %s" % (fill,))
            elif fill == (255, 0, 0):
                chk.ob("marker", cons, False, "%s is still marked" % name)
        if leds:
            texts = [a for a in t if isinstance(a, str) and "(" in a]
            want = "(" + ", ".join(str(i) for i in mine) + ")"
            chk.ob("report", cons, len(texts) == 1 and want in texts[0] and texts[0].rstrip().endswith(str(n * x.per)), "the display shows %s, lit are %s of %d" % (texts, want, n * x.per))
            if len(texts) == 1 and len(t[texts[0]]) == 1:
                o, box = t[texts[0]][0]
                clash = [name for name in x.usable if box is not None and not apart(box, t[name][0][1])]
                chk.ob("report", cons + " place", box is not None and inside(x, box) and not clash, "it is outside of the display or hidden by the labels of %s" % clash)
    before = observe(x, s, ui)
    for what, v in (("held", TRUE), ("released", FALSE), ("idle", FALSE)):
        s = s.fork()
        hset(lab, s, m, "pushed", v)
        s = tick(chk, x, ctl, s, "quiet", cons)
        if s is None:
            return s, False
        chk.ob("quiet", cons + " " + what, observe(x, s, ui) == before, "something changes when the switch is %s" % what)
    return s, True


def together(chk, x, ctl, s, cons, pos, n, leds):
    """a second switch is pushed while the first one is held"""
    if not leds:
        return
    lab = x.lab
    a, b = x.models[x.usable[0]], x.models[x.usable[1]]
    s = s.fork()
    hset(lab, s, a, "pushed", TRUE)
    s = tick(chk, x, ctl, s, "leds", cons)
    if s is None:
        return
    first = x.lit(s)
    s = s.fork()
    hset(lab, s, b, "pushed", TRUE)
    s = tick(chk, x, ctl, s, "leds", cons)
    if s is None:
        return
    on = [i for i, q in enumerate(x.lit(s)) if q == WHITE]
    chk.ob("leds", cons + ": second switch while the first is held", on == list(range(pos * x.per, pos * x.per + x.per)) and x.lit(s) != first, "lit are %s, the light was at position %d" % (on, pos))


def errors(chk):
    """errors which do not mean that the port is in use are not hidden"""
    for exc in ("RuntimeError", "TypeError", "MemoryError"):
        lab = Lab()
        U.hardware(lab)
        st = lab.st
        lab.e.opaque_raises = False
        board = lab.bound("board", {"GP1": ("s", "a"), "GP2": ("s", "b")}, st=st, open=False)
        f = lab.bound("switch_factory", {}, st=st, methods={"create_switch": lambda eng, s, a, k, exc=exc: [(s, Raise(exc, "", False, "broken"))]})
        r = lab.new(lab.cls(EX, "ExploreModeController"), [board, f], {}, st=st)
        chk.ob("start", "a %s while a port is claimed" % exc, all(isinstance(v, Raise) for _, v in r), "the error is hidden")
