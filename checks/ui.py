"""A screen for real display elements: rectangles, text areas and groups of the display library are boundary objects with known attributes."""
from checks.common import *

EL = "pyswitch.ui.elements"
UI = "pyswitch.ui.ui"
RECT = ("x", "adafruit_display_shapes.rect.Rect")
TEXT = ("x", "adafruit_display_text.label.Label")
WRAP = ("x", "adafruit_display_text.wrap_text_to_pixels")
GROUP = ("x", "displayio.Group")


def hardware(lab):
    """the display library: records what exists and what it shows"""
    def hook(eng, f, args, kwargs, st, ctx, node):
        if f in (RECT, TEXT, GROUP):
            d = dict(kwargs)
            if f == TEXT:
                for n, a in zip(("font", "text", "color"), args):
                    d.setdefault(n, a)
            if f == GROUP:
                d["content"] = eng.mklist(st, [])
            name = f[1].rsplit(".", 1)[1]
            o = eng.alloc(st, HObj("inst", cls=name, attrs=d, open=True, label=name))
            st.emit("made", o, name, tuple(args), dict(d), None, st.facts, eng.where(ctx, node) if ctx else "")
            return [(st, o)]
        if f == WRAP:
            t = args[0]
            if is_c(t) and isinstance(t[2], str):
                st.emit("wrap", None, "wrap", tuple(args), dict(kwargs), None, st.facts, "")
                return [(st, eng.mklist(st, [c(x) for x in t[2].split(" ")]))]
        if f[0] == "mcall" and f[2] == "append" and f[1][0] == "o":
            o = eng.h(st, f[1])
            if o.kind == "inst" and o.cls == "Group":
                eng.hw(st, o.attrs["content"]).items.append(args[0])
                return [(st, NONE)]
        return None
    lab.e.call_hooks.insert(0, hook)


def things(lab, st, o, out=None):
    """all rectangles and text areas in a group, with the offset of their groups: [(kind, object, x, y)]"""
    out = [] if out is None else out

    def walk(g, x, y):
        for k in lab.e.h(st, hget(lab, st, g, "content")).items:
            b = lab.e.h(st, k)
            if b.cls == "Group":
                walk(k, x + num(lab, st, k, "x"), y + num(lab, st, k, "y"))
            else:
                out.append((b.cls, k, x, y))
    walk(o, 0, 0)
    return out


def num(lab, st, o, a):
    v = hget(lab, st, o, a)
    if v is None:
        return 0
    v = plain(lab, v, st)
    if not isinstance(v, (int, float)):
        raise AnalysisBroken("display attribute %s is not a number: %s" % (a, v))
    return v


def attr(lab, st, o, a):
    v = hget(lab, st, o, a)
    return None if v is None else plain(lab, v, st)


def screen(lab, st, chk=None):
    """a splash element as the root of the screen -> (st, ui)"""
    (st, ui), = must(lab, lab.new(lab.cls(UI, "DisplayElement"), [], {}, st=st), "DisplayElement()")
    loader = lab.bound("font_loader", {}, st=st, methods={"get": lambda eng, s, a, k: tup(c("font"), a[0])})
    (st, _), = must(lab, lab.method(ui, "make_splash", [loader], st=st), "make_splash")
    return st, ui


def label_(lab, st, layout, callback=None, bounds=(10, 20, 100, 40), **kw):
    (st, b), = must(lab, lab.new(lab.cls(UI, "DisplayBounds"), [c(x) for x in bounds], {}, st=st), "DisplayBounds")
    a = {"layout": build(lab, layout, st), "bounds": b}
    if callback is not None:
        a["callback"] = callback
    a.update({k: build(lab, v, st) for k, v in kw.items()})
    return lab.new(lab.cls(EL, "DisplayLabel"), [], a, st=st)
