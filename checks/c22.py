"""Effect types: the type number range is partitioned by the category lookup, tables are compared with it, and the slot display is closed over all reports."""
from checks.common import *

ES = KEM + ".actions.effect_state"
EX = KEM + ".actions.effect_state_extended_names"
NSLOTS = 10

# documented type numbers of the device (MIDI specification, appendix B), by family
FAMILIES = {
    "WAH": [*range(1, 11), 12, 13], "PITCH": [11, *range(129, 133)], "DISTORTION": range(17, 43), "COMPRESSOR": (49, 50), "NOISE_GATE": (57, 58), "SPACE": (64,),
    "CHORUS": (65, 66, 67, 71), "VIBRATO": (68,), "ROTARY": (69,), "TREMOLO": (70, 75, 76), "SLICER": range(77, 81), "PHASER_FLANGER": range(81, 92),
    "EQUALIZER": range(97, 105), "BOOSTER": range(113, 117), "LOOPER": range(121, 124), "DUAL": range(137, 141), "DELAY": range(145, 167), "REVERB": range(177, 194),
}
FAMILY = {t: f for f, r in FAMILIES.items() for t in r}


def run(chk):
    chk.rule("total", "every type number is assigned to exactly one category which has a name and a colour")
    chk.rule("documented", "documented type numbers belong to the category of their family, all others to none")
    chk.rule("names", "extended names exist exactly for type numbers of a category (and the empty slot) and are short texts")
    chk.rule("display", "the slot display shows colour, text and state for the last reported type and state")
    chk.rule("empty", "an empty or unknown slot is shown disabled")
    lab = Lab()
    e = lab.e
    (st, cb), = must(lab, lab.new(lab.cls(ES, "KemperEffectEnableCallback"), [], {"slot_id": c(0)}), "KemperEffectEnableCallback()")
    cat = {}
    ci = lab.cls(ES, "KemperEffectEnableCallback")
    for f in ["NONE"] + sorted(FAMILIES):
        v = e.class_attr(ci, "CATEGORY_" + f)
        if v is None or v[0] != "c":
            raise AnalysisBroken("CATEGORY_%s not found" % f)
        cat[f] = v[2]
    chk.ob("total", "category numbers", len(set(cat.values())) == len(cat) and all(isinstance(x, int) and x >= 0 for x in cat.values()), "categories share a number: %s" % cat)
    colors = plain_list(lab, e.class_attr(ci, "CATEGORY_COLORS"), st)
    names = plain_list(lab, e.class_attr(ci, "CATEGORY_NAMES"), st)
    if colors is None or names is None:
        raise AnalysisBroken("category tables are not constant")
    for f, n in cat.items():
        okc = n < len(colors) and isinstance(colors[n], tuple) and len(colors[n]) == 3 and all(isinstance(x, int) and 0 <= x <= 255 for x in colors[n])
        chk.ob("total", "category %s colour" % f, okc, "no colour for category %d" % n)
        chk.ob("total", "category %s name" % f, n < len(names) and isinstance(names[n], str) and names[n], "no name for category %d" % n)
    chk.ob("total", "distinct names", len(set(names)) == len(names), "two categories have the same name")
    # lookup: documented area number by number, the rest symbolically
    got = {}

    def lookup(v, cons, want):
        for s, r in ok(chk, "total", cons, lab.method(cb, "get_effect_category", [v], st=rebase(st))):
            r = plain(lab, r, s)
            chk.ob("total", cons, r in cat.values(), "category %s does not exist" % (r,))
            chk.ob("documented", cons, r == want, "category %s, expected %s" % (r, want))
            yield r
    for t in range(0, 256):
        fam = FAMILY.get(t, "NONE")
        rs = list(lookup(c(t), "type %d" % t, cat[fam]))
        got[t] = rs[0] if rs else None
    for lo, hi in ((256, 16383), (194, None)):
        v = e.sym("type%d" % lo, typ="int", lo=lo, hi=hi)
        list(lookup(v, "types from %d" % lo, cat["NONE"]))
    # extended names
    tab = e.module_value(lab.p.module(EX), "_EFFECT_TYPE_NAMES")
    ext = names_table(lab, st, tab)
    if ext is None:
        ext = {}
        # table not under its known name: read it through the display instead
    for t in range(0, 256):
        if not ext:
            break
        has = t in ext
        chk.ob("names", "type %d" % t, (not has) or t == 0 or got[t] != cat["NONE"], "name '%s' for a type without category" % ext.get(t))
        if has:
            chk.ob("names", "type %d text" % t, isinstance(ext[t], str) and 0 < len(ext[t]) <= 12, "name %r" % (ext[t],))
    chk.ob("names", "numbers", all(isinstance(t, int) and 0 <= t <= 16383 for t in ext), "name for an impossible type number")
    # every documented single type (not a gap of its family) keeps its own name
    for t, n in DOC_NAMED.items():
        if ext:
            chk.ob("names", "documented type %d" % t, t in ext and n in norm(ext[t]), "named '%s', expected a name for %s" % (ext.get(t), n))
    chk.analysed(e)
    display(chk, cat, colors, names)
    for r, n in (("total", 250), ("documented", 250), ("names", 100), ("display", 200), ("empty", 20)):
        chk.floor(r, n)


# type number -> characteristic part of the name in the device manual
DOC_NAMED = {1: "wah", 4: "vow", 9: "ring", 11: "pit", 33: "green", 38: "fuzz", 50: "sw", 64: "sp", 67: "air", 68: "vib", 69: "rot", 81: "ph", 89: "fl", 91: "fl", 98: "studio", 113: "tr", 114: "lead",
             129: "tr", 132: "oct", 137: "chr", 138: "harm", 150: "cry", 166: "harm", 177: "rev", 180: "echo", 181: "cirr", 193: "spr"}


def norm(s):
    return str(s).lower()


def plain_list(lab, v, st):
    if v is None:
        return None
    v = plain(lab, v, st)
    return list(v) if isinstance(v, (list, tuple)) and not (isinstance(v, tuple) and v and v[0] in ("s", "t", "o", "x")) else None


def names_table(lab, st, v):
    if v is None or v[0] != "o":
        return None
    o = lab.e.h(st, v)
    if o.kind != "dict" or o.open:
        return None
    return {plain(lab, k, st): plain(lab, x, st) for k, x in o.items.items()}


def display(chk, cat, colors, names):
    cases = [("EFFECT_STATE", ES, {}), ("EFFECT_STATE with slot names", ES, {"show_slot_names": True}), ("EFFECT_STATE with text", ES, {"text": "T"}),
             ("EFFECT_STATE with color", ES, {"color": (9, 80, 160)}), ("EFFECT_STATE_EXT", EX, {}), ("EFFECT_STATE_EXT with slot names", EX, {"show_slot_names": True})]
    for cons, mod, kw in cases:
        one(chk, cons, mod, kw, cat, colors, names)


def one(chk, cons, mod, kw, cat, colors, names):
    lab = Lab()
    e, st = lab.e, lab.st
    lb = label(lab, st)
    a = {k: build(lab, v, st) for k, v in kw.items()}
    slot = 1
    a.update(slot_id=c(slot), display=lb, mode=e.class_attr(lab.cls(ACT, "PushButtonAction"), "LATCH"))
    (st, act), = must(lab, lab.call(lab.fn(mod, "EFFECT_STATE_EXT" if mod == EX else "EFFECT_STATE"), kwargs=a, st=st), cons)
    sw = switch(lab, st, (0,), [act])
    appl, cl = application(lab, st)
    (st, _), = must(lab, lab.method(act, "init", [appl, sw], st=st), "init")
    ms = {}
    for n in ("EFFECT_STATE", "EFFECT_TYPE"):
        (st, ms[n]), = must(lab, lab.call(e.fv(lab.cls(KEM, "KemperMappings").methods[n]), [c(slot)], st=st), n)
    (st, cb), = must(lab, lab.get(act, "callback", st), "callback")
    types = [0, 1, 33, 91, 200]
    ext = names_table(lab, st, e.module_value(lab.p.module(EX), "_EFFECT_TYPE_NAMES")) if mod == EX else None

    def show(s, spec, what):
        t, v = spec
        f = cat[FAMILY.get(t, "NONE")] if t is not None else cat["NONE"]
        empty = f == cat["NONE"]
        on = not empty and v is not None and v >= 1
        col = kw.get("color") or colors[f]
        gc, gb = led(lab, s, sw)
        back = plain(lab, hget(lab, s, lb, "back_color"), s)
        for s2, x in lab.get(act, "state", s):
            x = plain(lab, x, s2)
            chk.ob("empty" if empty else "display", "%s: state after %s" % (cons, what), x == on, "type %s with state %s is shown %s" % (t, v, "enabled" if x else "disabled"))
        chk.ob("empty" if empty else "display", "%s: LED after %s" % (cons, what), feq(gc, col) and feq(gb, 0.5 if on else 0.125), "type %s with state %s: LED %s/%s" % (t, v, gc, gb))
        chk.ob("display", "%s: label after %s" % (cons, what), feq(back, dim(col, 0.75 if on else 0.25)), "type %s with state %s: label colour %s" % (t, v, back))
        if t is not None:
            txt = plain(lab, hget(lab, s, lb, "text"), s)
            want = names[f] if not ext or t not in ext else ext[t]
            if kw.get("show_slot_names"):
                want = "B " + want
            chk.ob("display", "%s: text after %s" % (cons, what), txt == kw.get("text", want), "type %s is named '%s', expected '%s'" % (t, txt, want))

    def steps(s, spec):
        out = [("reset", lambda s: after(lab.method(act, "reset", st=spoil(s)), spec, "a reset"))]
        for t in types:
            out.append(("type", lambda s, t=t: rep(s, (t, spec[1]), "EFFECT_TYPE", t)))
        for v in (0, 1):
            out.append(("state", lambda s, v=v: rep(s, (spec[0], v), "EFFECT_STATE", v)))
        for n, sp in (("EFFECT_TYPE", (None, spec[1])), ("EFFECT_STATE", (spec[0], None))):
            out.append(("terminated", lambda s, n=n, sp=sp: after(lab.method(cb, "request_terminated", [ms[n]], st=s), sp, "connection loss")))
        return out

    def spoil(s):
        hset(lab, s, lb, "back_color", c("junk"))
        hset(lab, s, lb, "text", c("junk"))
        hset(lab, s, sw, "colors", e.mklist(s, [c("junk")]))
        hset(lab, s, sw, "brightnesses", e.mklist(s, [c("junk")]))
        return s

    def rep(s, spec, n, v):
        hset(lab, s, ms[n], "value", c(v))
        return after(lab.method(cb, "parameter_changed", [ms[n]], st=s), spec, "a report of the %s" % n.split("_")[1].lower())

    def after(res, spec, what):
        out = []
        for s, v in ok(chk, "display", "%s: %s" % (cons, what), res):
            show(s, spec, what)
            out.append((s, v, spec))
        return out
    n, t = explore(lab, [act, lb, sw] + list(ms.values()), [(st, (None, None))], steps)
    chk.notes["abstract_states"] = chk.notes.get("abstract_states", 0) + n
    chk.notes["transitions"] = chk.notes.get("transitions", 0) + t
    chk.analysed(e)
