"""Hardware adapters: abstract execution of the adapters over opaque driver libraries; the events at the library boundary are compared with the hardware facts."""
from checks.common import *
from checks.c23 import tables, pins_in

HW = "pyswitch.hardware.adafruit"
# positional parameters of the driver libraries
SIG = {"busio.UART": ["tx", "rx"], "adafruit_midi.MIDI": ["midi_in", "midi_out"], "digitalio.DigitalInOut": ["pin"], "analogio.AnalogIn": ["pin"],
       "rotaryio.IncrementalEncoder": ["pin_a", "pin_b", "divisor"], "busio.SPI": ["clock", "MOSI", "MISO"], "adafruit_misc.neopixel.NeoPixel": ["pin", "n"],
       "displayio.FourWire": ["spi_bus"], "fourwire.FourWire": ["spi_bus"], "adafruit_misc.adafruit_st7789.ST7789": ["bus"], "adafruit_bitmap_font.bitmap_font.load_font": ["filename"]}
UNKNOWN = "adafruit_midi.midi_message.MIDIUnknownEvent"
RX, TX = ("GP1", "GP13", "GP17"), ("GP0", "GP12", "GP16")     # UART0 pins of the RP2040


def ext(s, *names):
    """[(name, kwargs)] of the library calls, positional arguments named"""
    out = []
    for ev in s.trace():
        if ev.kind == "call" and ev.recv and ev.recv[0] == "x":
            n = ev.recv[1] + ("." + ev.name if ev.name not in ("()", "") else "")
            d = dict(zip(SIG.get(n, []), ev.args))
            d.update(ev.kwargs)
            if n.split(".")[-1] in names:
                out.append((n, d, ev))
    return out


def library(lab, *names):
    """constructors of the driver libraries return distinct opaque objects"""
    def h(eng, f, args, kwargs, st, ctx, node):
        if f[0] == "x" and f[1].split(".")[-1] in names:
            o = lab.bound("lib." + f[1].split(".")[-1], {}, st=st)
            st.emit("call", f, "()", tuple(args), dict(kwargs), o, st.facts, eng.where(ctx, node) if ctx else "")
            return [(st, o)]
        return None
    lab.e.call_hooks.insert(0, h)


def islib(lab, st, v, name):
    return v is not None and v[0] == "o" and lab.e.h(st, v).label == "lib." + name


def run(chk):
    chk.rule("midi", "MIDI adapters forward every message unchanged and exactly once, in both directions")
    chk.rule("ports", "MIDI adapters use the configured ports, channels and buffer sizes; the DIN port works at MIDI speed on the pins of a hardware UART")
    chk.rule("input", "switch, wheel and pedal report exactly what the hardware delivers; switches are active low with a pull-up")
    chk.rule("before", "reading an input before it is initialised raises no error")
    chk.rule("leds", "the LED driver is set up once, on its pin, for exactly the number of LEDs needed")
    chk.rule("display", "the display driver uses the configured pins and dimensions; each font is loaded once")
    midi(chk)
    devices(chk)
    inputs(chk)
    leds(chk)
    display(chk)
    for r, n in (("midi", 12), ("ports", 15), ("input", 10), ("leds", 5), ("display", 8)):
        chk.floor(r, n)


def adapters(lab):
    """classes with send and receive in the hardware package"""
    return [ci for mn, mod in sorted(lab.p.modules.items()) if mn.startswith(HW) for ci in mod.classes if ci.find("send") and ci.find("receive")]


def midi(chk):
    names = [ci.name for ci in adapters(Lab())]
    if len(names) < 2:
        raise AnalysisBroken("MIDI adapters not found")
    for name in names:
        lab = Lab()
        e, st = lab.e, lab.st
        ci = [x for x in adapters(lab) if x.name == name][0]
        init = ci.find("__init__").node.args
        kw = {a.arg: e.sym(a.arg) for a in init.args[1:]}
        library(lab, "MIDI", "UART")
        r = ok(chk, "ports", name, lab.new(ci, [], kw, st=st))
        for s, o in r:
            m = ext(s, "MIDI")
            if not chk.ob("ports", name + " MIDI", len(m) == 1, "%d MIDI objects" % len(m), ci.where if hasattr(ci, "where") else None):
                continue
            d = m[0][1]
            for k in ("in_channel", "out_channel", "in_buf_size"):
                if k in kw:
                    chk.ob("ports", "%s %s" % (name, k), d.get(k) == kw[k], "%s is set to %s" % (k, d.get(k)), m[0][2].where)
            if "port_in" in kw:
                chk.ob("ports", name + " input", d.get("midi_in") == kw["port_in"], "input port is %s" % (d.get("midi_in"),), m[0][2].where)
                chk.ob("ports", name + " output", d.get("midi_out") == kw["port_out"], "output port is %s" % (d.get("midi_out"),), m[0][2].where)
            else:
                u = ext(s, "UART")
                if chk.ob("ports", name + " UART", len(u) == 1 and {u[0][1].get("tx"), u[0][1].get("rx")} == {kw.get("gpio_in"), kw.get("gpio_out")}, "UART of %s" % u, ci.module.rel):
                    for k in ("baudrate", "timeout"):
                        chk.ob("ports", "%s %s" % (name, k), u[0][1].get(k) == kw.get(k), "%s is %s" % (k, u[0][1].get(k)), u[0][2].where)
                    chk.ob("ports", name + " UART ends", d.get("midi_in") == d.get("midi_out") and d.get("midi_in") not in (None, NONE), "in %s, out %s" % (d.get("midi_in"), d.get("midi_out")), m[0][2].where)
            # traffic
            sxd = lambda st, n: e.mklist(st, [e.sym("byte%d" % i, typ="int", lo=0, hi=127) for i in range(n)])
            kinds = [("control change", CC, lambda st: [e.sym("control", typ="int", lo=0, hi=127), e.sym("value", typ="int", lo=0, hi=127)]), ("program change", PC, lambda st: [e.sym("patch", typ="int", lo=0, hi=127)])]
            kinds += [("system exclusive of %d bytes" % n, SX, lambda st, n=n: [sxd(st, 3), sxd(st, n)]) for n in (1, 8, 64)]
            kinds += [("unknown event", UNKNOWN, lambda st: [c(0xf8)])]
            for kn, cls, margs in kinds:
                s0 = rebase(s)
                (s0, x), = must(lab, lab.call(("x", cls), margs(s0), st=s0), kn)
                s0 = rebase(s0)
                before = lab.canon(s0, x)
                for s1, v in ok(chk, "midi", name + ".send", lab.method(o, "send", [x], st=s0)):
                    snt = [ev for ev in s1.trace() if ev.kind == "call" and ev.name in ("send", "write") and ev.recv and ev.recv[0] != "x"]
                    if cls == UNKNOWN:
                        chk.ob("midi", "%s.send %s" % (name, kn), not snt, "unknown events are sent", snt[0].where if snt else None)
                        continue
                    good = len(snt) == 1 and snt[0].args == (x,) and not snt[0].kwargs and lab.canon(s1, x) == before
                    chk.ob("midi", "%s.send %s" % (name, kn), good, "message sent %d times%s" % (len(snt), "" if not snt else " as %s %s" % (snt[0].args, snt[0].kwargs)), snt[0].where if snt else ci.module.rel)
            for s1, v in ok(chk, "midi", name + ".receive", lab.method(o, "receive", [], st=rebase(s))):
                rc = [ev for ev in s1.trace() if ev.kind == "call" and ev.name == "receive" and ev.recv and ev.recv[0] != "x"]
                chk.ob("midi", name + ".receive", len(rc) == 1 and not rc[0].args and v[0] in ("r", "t") and "receive" in str(v) or len(rc) == 1 and v == rc[0].res, "reads %d messages, returns %s" % (len(rc), v), rc[0].where if rc else None)
        chk.analysed(e)


def devices(chk):
    lab = Lab()
    e, st = lab.e, lab.st
    for mn, mod in sorted(lab.p.modules.items()):
        if not mn.startswith("pyswitch.hardware.devices"):
            continue
        for fi in mod.functions:
            if fi.cls is not None or fi.name.startswith("_"):
                continue
            for kw in ({}, {"in_channel": c(3), "out_channel": c(5), "in_buf_size": c(77)}):
                for s, o in ok(chk, "ports", fi.name, lab.call(e.fv(fi), [], dict(kw), st=rebase(st))):
                    m = ext(s, "MIDI")
                    chk.ob("ports", fi.name + " MIDI", len(m) == 1, "%d MIDI objects" % len(m), fi.where)
                    for _, d, ev in m:
                        for k, v in (kw or {"in_channel": NONE, "out_channel": c(0)}).items():
                            chk.ob("ports", "%s %s" % (fi.name, k), d.get(k) == v, "%s is %s" % (k, d.get(k)), ev.where)
                        if not ext(s, "UART"):
                            chk.ob("ports", fi.name + " ports", d.get("midi_in") == ("t", "idx", ("x", "usb_midi.ports"), c(0)) and d.get("midi_out") == ("t", "idx", ("x", "usb_midi.ports"), c(1)), "ports in %s, out %s" % (d.get("midi_in"), d.get("midi_out")), ev.where)
                    for _, d, ev in ext(s, "UART"):
                        tx, rx = [(d.get(k) or ("?", "?"))[1].replace("board.", "") for k in ("tx", "rx")]
                        chk.ob("ports", fi.name + " pins", tx in TX and rx in RX, "UART sends on %s and receives on %s" % (tx, rx), ev.where)
                        chk.ob("ports", fi.name + " speed", plain(lab, d.get("baudrate", NONE), s) == 31250, "baud rate %s" % plain(lab, d.get("baudrate", NONE), s), ev.where)
                        t = plain(lab, d.get("timeout", NONE), s)
                        chk.ob("ports", fi.name + " timeout", isinstance(t, (int, float)) and t <= 0.01, "reading blocks for %s s" % t, ev.where)
    chk.analysed(e)


def inputs(chk):
    for mod, cn, kind in (("AdafruitSwitch", "AdafruitSwitch", "pushed"), ("AdafruitPotentiometer", "AdafruitPotentiometer", "value"), ("AdafruitEncoder", "AdafruitEncoder", "position")):
        lab = Lab()
        e, st = lab.e, lab.st
        ci = lab.cls(HW + "." + mod, cn)
        pins = [("x", "board.GP1"), ("x", "board.GP2")]
        library(lab, "DigitalInOut", "AnalogIn", "IncrementalEncoder")
        args = pins + [c(4)] if kind == "position" else pins[:1]
        (st, o), = must(lab, lab.new(ci, args, st=st), cn)
        for s, v in ok(chk, "before", cn, lab.get(o, kind, st=st)):
            chk.ob("before", cn, v == NONE or plain(lab, v, s) in (0, False), "reads %s" % (v,), ci.module.rel)
        chk.ob("input", cn + " creation", not ext(st, "DigitalInOut", "AnalogIn", "IncrementalEncoder"), "the pin is claimed by the definition already, even if it is not used", ci.module.rel)
        for s, _ in ok(chk, "input", cn + ".init", lab.method(o, "init", [], st=rebase(st))):
            lib = {"pushed": "DigitalInOut", "value": "AnalogIn", "position": "IncrementalEncoder"}[kind]
            x = ext(s, lib)
            if not chk.ob("input", cn + ".init", len(x) == 1, "%d hardware objects" % len(x), ci.module.rel):
                continue
            d, ev = x[0][1], x[0][2]
            if kind == "position":
                chk.ob("input", cn + " pins", {d.get("pin_a"), d.get("pin_b")} == set(pins), "pins %s" % d, ev.where)
                chk.ob("input", cn + " order", d.get("pin_a") == pins[0], "the wheel turns the other way round", ev.where)
                chk.ob("input", cn + " divisor", d.get("divisor") == c(4), "divisor %s" % (d.get("divisor"),), ev.where)
            else:
                chk.ob("input", cn + " pin", d.get("pin") == pins[0], "pin %s" % d, ev.where)
            if kind == "pushed":
                w = {y.name: y.args[0] for y in s.trace() if y.kind == "set" and islib(lab, s, y.recv, "DigitalInOut")}
                for y in s.trace():
                    if y.kind == "call" and y.name == "switch_to_input":
                        w["direction"] = ("x", "digitalio.Direction.INPUT")
                        w.update(y.kwargs)
                        if y.args:
                            w["pull"] = y.args[0]
                chk.ob("input", cn + " direction", w.get("direction", ("x", "digitalio.Direction.INPUT")) == ("x", "digitalio.Direction.INPUT"), "direction %s" % (w.get("direction"),), ev.where)
                chk.ob("input", cn + " pull", w.get("pull") == ("x", "digitalio.Pull.UP"), "pull %s" % (w.get("pull"),), ev.where)
            # reading
            s = rebase(s)
            for raw in ((True, False) if kind == "pushed" else (None,)):
                hw = lambda eng, st2, b, name, ctx, node, raw=raw: [(st2, c(raw) if raw is not None else ("s", "reading"))] if islib(lab, st2, b, lib) and name in ("value", "position") else None
                e.attr_hooks.insert(0, hw)
                for s1, v in ok(chk, "input", "%s.%s" % (cn, kind), lab.get(o, kind, st=s.fork())):
                    if raw is None:
                        chk.ob("input", "%s.%s" % (cn, kind), v == ("s", "reading"), "reads %s" % (v,), ci.module.rel)
                    else:
                        chk.ob("input", "%s.%s at level %s" % (cn, kind, raw), plain(lab, v, s1) is (not raw), "reads %s" % (v,), ci.module.rel)
                e.attr_hooks.remove(hw)
        chk.analysed(e)


def leds(chk):
    lab = Lab()
    e, st = lab.e, lab.st
    ci = lab.cls(HW, "AdafruitNeoPixelDriver")
    n = e.sym("count", typ="int", lo=0, hi=200)
    library(lab, "NeoPixel")
    pin = ("x", "board.GP9")
    for args, want in (([pin], pin), ([], ("x", "board.GP7"))):
        (s, o), = must(lab, lab.new(ci, args, st=st), "LED driver")
        chk.ob("leds", "creation", not ext(s, "NeoPixel"), "LEDs are set up before their number is known", ci.module.rel)
        for s, _ in ok(chk, "leds", "init", lab.method(o, "init", [n], st=rebase(s))):
            x = ext(s, "NeoPixel")
            chk.ob("leds", "init", len(x) == 1 and x[0][1].get("pin") == want and x[0][1].get("n") == n, "LED object %s" % x, ci.module.rel)
            for s2, v in lab.get(o, "leds", st=s):
                chk.ob("leds", "leds", islib(lab, s2, v, "NeoPixel"), "leds is %s" % (v,), ci.module.rel)
    chk.analysed(e)
    # the controller asks for the highest LED in use plus one
    cases = [([(0, 1, 2)], 3), ([(9, 11, 10), (0, 1, 2)], 12), ([(), (3,)], 4), ([], 0), ([None], 0), ([(0,), (2,), (1,)], 3)]
    lab = Lab()
    tabs = tables(lab)
    for dev, d in tabs.items():
        px = [plain(lab, {plain(lab, k, lab.st): x for k, x in lab.e.h(lab.st, v).items.items()}.get("pixels", c(())), lab.st) for v in d.values()]
        cases.append((px, max([p + 1 for x in px for p in x] or [0])))
    for pxs, want in cases:
        lab = Lab()
        e, st = lab.e, lab.st
        for cn in ("SwitchController", "ContinuousController"):
            stub(lab, lab.cls("pyswitch.controller.inputs", cn).find("__init__"), "input")
        ins = []
        for px in pxs:
            model = lab.bound("model", {"pushed": FALSE}, st=st)
            a = {"model": model}
            if px is not None:
                a["pixels"] = px
            ins.append({"assignment": a, "actions": []})
        drv, mid = lab.bound("led_driver", {}, st=st), lab.bound("midi", {}, st=st)
        cfg = build(lab, ins, st)
        for s, o in ok(chk, "leds", "controller", lab.new(lab.cls("pyswitch.controller.controller", "Controller"), [], {"led_driver": drv, "midi": mid, "inputs": cfg, "config": build(lab, {}, st)}, st=st)):
            got = [plain(lab, (list(x.args) + list(x.kwargs.values()))[0], s) for x in calls(s.trace(), drv, "init")]
            chk.ob("leds", "controller with LEDs %s" % (pxs[:3],), got == [want], "the LED driver is set up for %s instead of %s LEDs" % (got, want))
            order = [x.kind for x in s.trace() if x.kind == "input" or x.kind == "call" and x.recv == drv]
            chk.ob("leds", "controller order", order[:1] == ["call"], "inputs are created before the LEDs exist")
        chk.analysed(e)


def display(chk):
    lab = Lab()
    e, st = lab.e, lab.st
    ci = lab.cls(HW, "AdafruitST7789DisplayDriver")
    own = {"tft_cs": ("x", "board.A"), "tft_dc": ("x", "board.B"), "spi_mosi": ("x", "board.C"), "spi_clk": ("x", "board.D"), "width": c(100), "height": c(50), "row_start": c(7), "rotation": c(90), "baudrate": c(1000)}
    dfl = {"tft_cs": ("x", "board.GP13"), "tft_dc": ("x", "board.GP12"), "spi_mosi": ("x", "board.GP15"), "spi_clk": ("x", "board.GP14"), "width": c(240), "height": c(240), "row_start": c(80), "rotation": c(180), "baudrate": c(24000000)}
    for kw, want in ((own, own), ({}, dfl)):
        (s0, o), = must(lab, lab.new(ci, [], dict(kw), st=st), "display driver")
        for s, _ in ok(chk, "display", "init", lab.method(o, "init", [], st=rebase(s0)))[:1]:
            spi, bus, tft = ext(s, "SPI"), ext(s, "FourWire"), ext(s, "ST7789")
            if not chk.ob("display", "objects", len(spi) == len(bus) == len(tft) == 1, "%d SPI, %d bus, %d display objects" % (len(spi), len(bus), len(tft)), ci.module.rel):
                continue
            got = {"spi_clk": spi[0][1].get("clock"), "spi_mosi": spi[0][1].get("MOSI"), "tft_dc": bus[0][1].get("command"), "tft_cs": bus[0][1].get("chip_select"),
                   "width": tft[0][1].get("width"), "height": tft[0][1].get("height"), "row_start": tft[0][1].get("rowstart"), "rotation": tft[0][1].get("rotation")}
            cf = [y for y in s.trace() if y.kind == "call" and y.name == "configure"]
            if cf:
                got["baudrate"] = cf[0].kwargs.get("baudrate")
            for k, v in got.items():
                chk.ob("display", k, v == want[k], "%s is %s instead of %s" % (k, v, want[k]), tft[0][2].where)
            seq = [y for y in s.trace() if y.kind == "call"]
            names = [y.name if y.recv[0] == "r" else y.recv[1].split(".")[-1] for y in seq]
            chk.ob("display", "bus is locked while it is configured", "configure" not in names or ("try_lock" in names[:names.index("configure")] and "unlock" in names[names.index("configure"):]), "order %s" % names)
            chk.ob("display", "old displays are released first", "release_displays" in names and names.index("release_displays") < names.index("FourWire"), "order %s" % names)
    (s, o), = must(lab, lab.new(lab.cls(HW, "AdafruitFontLoader"), [], st=st), "font loader")
    got = {}
    library(lab, "load_font")
    for path in ("a", "b", "a", "b"):
        for s1, v in ok(chk, "display", "font", lab.method(o, "get", [c(path)], st=rebase(s)))[:1]:
            x = ext(s1, "load_font")
            if path in got:
                chk.ob("display", "font is kept", not x and v == got[path], "font is loaded %d times more" % len(x))
            else:
                chk.ob("display", "font is loaded", len(x) == 1 and x[0][1].get("filename") == c(path) and v not in got.values(), "font %s is loaded from %s" % (path, x))
                got[path] = v
            s = s1
    chk.analysed(e)
