"""Hardware tables: constant evaluation of every device definition module; pins, LEDs and names are compared as sets, fields are checked against what the input controllers read."""
import re
from checks.common import *

DEV = "pyswitch.hardware.devices."
HW = "pyswitch.hardware.adafruit"


def pins_in(lab, st, v, out=None, seen=None):
    """board pins reachable from a value"""
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if v[0] == "x" and v[1].startswith("board."):
        out.append(v[1][6:])
    elif v[0] == "tup":
        for x in v[1]:
            pins_in(lab, st, x, out, seen)
    elif v[0] == "o" and v not in seen:
        seen.add(v)
        o = lab.e.h(st, v)
        for x in (list(o.attrs.values()) if o.kind == "inst" else list(o.items.values()) if o.kind == "dict" else list(o.items or [])):
            pins_in(lab, st, x, out, seen)
    return out


def tables(lab):
    """{device: {constant: dict value}} of all device definition modules"""
    out = {}
    for mn, mod in sorted(lab.p.modules.items()):
        if not mn.startswith(DEV):
            continue
        preload(lab, mn)
        d = {}
        for n, b in mod.bind.items():
            if n.startswith("_"):
                continue
            v = lab.e.module_value(mod, n) if b[0] in ("assign", "multi", "for", "if") or b[0] not in ("module", "import", "func", "class", "ext") else None
            if v is not None and v[0] == "o" and lab.e.h(lab.st, v).kind == "dict":
                d[n] = v
        if d:
            out[mn[len(DEV):]] = d
    return out


def kind(lab, st, model):
    ci = lab.e.class_of(model, st)
    if ci is None:
        return "?"
    return "switch" if ci.find("pushed") else "analog" if ci.find("value") else "encoder" if ci.find("position") else "?"


def run(chk):
    chk.rule("pins", "every input uses its own pins; a socket may only be used either as pedal or as switch")
    chk.rule("reserved", "no input uses a pin of the display, the LEDs or the MIDI ports")
    chk.rule("leds", "every LED belongs to exactly one switch and the LED numbers of a device are contiguous from zero")
    chk.rule("names", "names and strobe positions are unique per device")
    chk.rule("fields", "every definition has the fields the input controllers read, of the right kind, and is initialised without error")
    chk.rule("documented", "pins are those documented in the header of the definition")
    lab = Lab()
    e, st = lab.e, lab.st
    tabs = tables(lab)
    if not tabs:
        raise AnalysisBroken("no device definitions found")
    # pins of display, LEDs and MIDI
    reserved = {}
    for cn, what in (("AdafruitST7789DisplayDriver", "display"), ("AdafruitNeoPixelDriver", "LEDs")):
        (s, o), = must(lab, lab.new(lab.cls(HW, cn), [], st=st), cn)
        for p in pins_in(lab, s, o):
            chk.ob("reserved", "%s %s" % (what, p), p not in reserved, "pin is used by %s already" % reserved.get(p))
            reserved[p] = what
    for mn, mod in lab.p.modules.items():
        if mn.startswith(DEV):
            for fi in mod.functions:
                if fi.cls is None and not fi.name.startswith("_"):
                    (s, o), = must(lab, lab.call(e.fv(fi), st=rebase(st)), fi.name)
                    for ev in s.trace():
                        if ev.kind == "call" and ev.recv and ev.recv[0] == "x":
                            for a in list(ev.args) + list(ev.kwargs.values()):
                                for p in pins_in(lab, s, a):
                                    chk.ob("reserved", "%s %s" % (fi.name, p), p not in reserved, "pin is used by %s already" % reserved.get(p), fi.where)
                                    reserved[p] = fi.name
    chk.notes["reserved_pins"] = str(sorted(reserved))
    for dev, d in tabs.items():
        device(chk, lab, dev, d, reserved)
    chk.notes["devices"] = len(tabs)
    chk.analysed(e)
    for r, n in (("pins", 20), ("reserved", 25), ("leds", 20), ("names", 20), ("fields", 20)):
        chk.floor(r, n)


def device(chk, lab, dev, d, reserved):
    e, st = lab.e, lab.st
    mod = lab.p.module(DEV + dev)
    where = mod.rel
    doc = {}
    for l in open(lab.p.path(mod.rel) if hasattr(lab.p, "path") else mod.path).read().split("\n"):
        m = re.match(r"#\s*(GP\d+)\s*-\s*foot\s*switch\s+(\w+)\s*$", l, re.I)
        if m:
            doc[m.group(1)] = m.group(2).lower()
    users, leds, names, strobe = {}, {}, {}, {}
    for n, v in d.items():
        cons = "%s.%s" % (dev, n)
        f = {plain(lab, k, st): x for k, x in e.h(st, v).items.items()}
        model = f.get("model")
        if not chk.ob("fields", cons + " model", model is not None and model[0] == "o", "no hardware model", where):
            continue
        k = kind(lab, st, model)
        chk.ob("fields", cons + " kind", k != "?", "the model is neither switch, pedal nor wheel", where)
        chk.ob("fields", cons + " keys", set(f) <= {"model", "pixels", "name", "strobeOrder"}, "unknown fields %s" % sorted(set(f) - {"model", "pixels", "name", "strobeOrder"}), where)
        nm = plain(lab, f["name"], st) if "name" in f else None
        chk.ob("names", cons, isinstance(nm, str) and nm not in names, "name %r is %s" % (nm, "used by %s" % names.get(nm)), where)
        names[nm] = n
        ps = pins_in(lab, st, model)
        chk.ob("pins", cons + " count", len(ps) == (2 if k == "encoder" else 1) and len(set(ps)) == len(ps), "pins %s" % ps, where)
        for p in ps:
            chk.ob("reserved", cons, p not in reserved, "pin %s belongs to %s" % (p, reserved.get(p)), where)
            chk.ob("pins", cons + " exists", re.match(r"GP([0-9]|1\d|2[0-8])$", p), "pin %s does not exist" % p, where)
            if k == "analog":
                chk.ob("pins", cons + " analog", p in ("GP26", "GP27", "GP28"), "pin %s has no analog input" % p, where)
            clash = [o for o in users.get(p, []) if not {o[1], k} == {"analog", "switch"}]
            chk.ob("pins", cons, not clash, "pin %s is used by %s too" % (p, [o[0] for o in clash]), where)
            users.setdefault(p, []).append((n, k))
            if k == "switch" and p in doc:
                chk.ob("documented", cons, nm is None or nm.lower() == doc[p], "pin %s is documented as switch %s" % (p, doc[p]), where)
        px = plain(lab, f["pixels"], st) if "pixels" in f else ()
        if px:
            chk.ob("leds", cons + " kind", k == "switch" and isinstance(px, (tuple, list)) and all(type(x) == int and x >= 0 for x in px), "LEDs %s at a %s" % (px, k), where)
            for x in px:
                chk.ob("leds", cons, x not in leds, "LED %s belongs to %s already" % (x, leds.get(x)), where)
                leds[x] = n
            so = plain(lab, f["strobeOrder"], st) if "strobeOrder" in f else None
            chk.ob("names", cons + " strobe", isinstance(so, int) and so not in strobe, "strobe position %s is %s" % (so, "used by %s" % strobe.get(so)), where)
            strobe[so] = n
        control(chk, lab, cons, v, k, px, where)
    chk.ob("leds", dev, sorted(leds) == list(range(len(leds))), "LED numbers %s" % sorted(leds), where)
    chk.ob("names", dev + " strobe", sorted(strobe) == list(range(len(strobe))), "strobe positions %s" % sorted(strobe), where)
    for p, s in doc.items():
        chk.ob("documented", "%s %s" % (dev, p), any(k == "switch" for _, k in users.get(p, [])), "documented switch %s has no definition" % s, where)


def control(chk, lab, cons, v, k, px, where):
    """the matching input controller accepts the definition and reads it"""
    e = lab.e
    st = rebase(lab.st)
    cfg = e.mkdict(st, {"assignment": v, "actions": e.mklist(st, [])})
    leds = e.mklist(st, [c((0, 0, 0)) for _ in range((max(px) + 1) if px else 0)])
    drv = lab.bound("led_driver", {"leds": leds}, st=st)
    appl = lab.bound("appl", {"led_driver": drv}, st=st)
    cn = "SwitchController" if k == "switch" else "ContinuousController"
    for s, o in ok(chk, "fields", cons + " controller", lab.new(lab.cls("pyswitch.controller.inputs", cn), [appl, cfg], st=st)):
        chk.ob("fields", cons + " controller", True)
        if k == "switch":
            s1, p = lab.get(o, "pixels", st=s)[0]
            p = plain(lab, p, s1)
            chk.ob("fields", cons + " LEDs", list(p) == list(px), "the controller uses LEDs %s instead of %s" % (p, px), where)
        for s2, _ in ok(chk, "fields", cons + " process", lab.method(o, "process", [], st=s)):
            pass
