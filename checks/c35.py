"""Virtual Kemper against the firmware: the JavaScript sources of the device are lowered to the program model and interpreted; every message the firmware's mappings and protocol produce is handed to the device, the answers to the firmware's mappings."""
import glob
import os

from sa import js
from sa.model import Program, REPO, LIB
from checks.common import *
from checks.c06 import message, interval
from checks.mappings import instances, msgdata

HT = os.path.join(REPO, "web/htdocs")
BASE = []
NUMBERS = (0, 1, 127, 128, 8191, 16383)
STRINGS = ("A", "Blue Clean", "x" * 64, "Rig ~ 1.2!")
CLIENT = "KemperClient"


def sources():
    out = []
    for d in ("clients/kemper/virtual/*.js", "js/misc/*.js"):
        out += sorted(f for f in glob.glob(os.path.join(HT, d)) if not f.endswith("UI.js"))
    out += [os.path.join(HT, "clients/kemper/KemperClient.js")]
    out += [f for f in sorted(glob.glob(os.path.join(HT, "js/model/*.js"))) if os.path.basename(f) in ("VirtualClient.js", "Client.js")]
    return out


def program():
    if not BASE:
        p = Program([(os.path.join(LIB, "pyswitch"), "pyswitch")])
        p.js = js.load(p, sources())
        BASE.append(p)
    return BASE[0]


class Broken(Exception):
    pass


class Device:
    """the virtual device and the firmware's mappings in one abstract heap; everything is concrete, so there is one path"""

    made = []

    def __init__(self):
        if Device.made:
            o = Device.made[0]
            self.__dict__.update(o.__dict__)
            self.st = o.st.fork()
            self.rt.now = 1000000
            return
        self.make()
        Device.made.append(self)
        o = Device()
        self.__dict__.update(o.__dict__)
        c0 = Device.made[0] = Device.__new__(Device)
        c0.__dict__.update(self.__dict__)
        c0.st = self.st.fork()

    def make(self):
        self.lab = lab = Lab(program(), volatile_period=False)
        lab.e.no_merge = True
        lab.e.opaque_raises = False
        self.rt = js.Runtime(lab)
        self.st = lab.st
        preload(lab, KEM)
        where = lab.p.js
        if CLIENT not in where:
            raise AnalysisBroken("class %s not found" % CLIENT)
        cl = self.do(lab.new(lab.p.cls(where[CLIENT], CLIENT), [], st=self.st), "KemperClient")
        self.dev = self.js(cl, "getVirtualClient", self.rt.obj(self.st, {}))
        self.midi = lab.bound("midi", st=self.st)
        self.cl = self.do(lab.new(lab.cls(CLI, "Client"), [self.midi, build(lab, {}, self.st)], st=self.st), "Client")
        self.maps = {}
        self.take()

    def do(self, results, what):
        rs = list(results)
        if len(rs) != 1:
            raise AnalysisBroken("%s: %d paths" % (what, len(rs)))
        self.st, v = rs[0]
        if isinstance(v, Raise):
            raise Broken("%s raises %s %s (%s)" % (what, v.exc, v.msg, v.where))
        return v

    def js(self, obj, name, *args):
        return self.do(self.lab.method(obj, name, list(args), st=self.st), name)

    # -- device side
    def take(self):
        """the messages the device has queued since"""
        q = self.do(self.lab.get(self.dev, "messageQueue", self.st), "messageQueue")
        out = plain(self.lab, q, self.st)
        self.do(self.lab.set(self.dev, "messageQueue", build(self.lab, [], self.st), self.st), "messageQueue")
        if not isinstance(out, list):
            raise Broken("the message queue is not a list")
        return [norm(m) for m in out]

    def send(self, msg):
        """hands raw bytes to the device: complaints"""
        self.rt.console.clear()
        self.js(self.dev, "doSend", build(self.lab, list(msg), self.st))
        return [x for x in self.rt.console if x[0] in ("error", "warn")]

    def update(self, passed=0):
        self.rt.now += passed
        self.rt.console.clear()
        self.js(self.dev, "update")
        return [x for x in self.rt.console if x[0] in ("error", "warn")]

    def change(self, address, value):
        """the device's own value of an address changes (its user interface does that)"""
        p = self.do(self.lab.get(self.dev, "parameters", self.st), "parameters")
        key = self.do(self.lab.new(self.lab.p.cls(self.lab.p.js["NRPNKey"], "NRPNKey"), [build(self.lab, list(address), self.st)], st=self.st), "NRPNKey")
        self.js(self.js(p, "get", key), "setValue", c(value))

    # -- firmware side
    def mapping(self, fi, args):
        return self.do(self.lab.call(self.lab.e.fv(fi), kwargs={k: c(x) for k, x in args.items()}, st=self.st), "mapping")

    def sent(self, before):
        out = []
        for ev in self.st.trace(before):
            if ev.kind == "call" and ev.recv == self.midi and ev.name == "send":
                out.append(raw(self.lab, self.st, ev.args[0]))
        return out

    def set(self, m, v):
        b = self.st.events
        self.do(self.lab.method(self.cl, "set", [m, c(v)], st=self.st), "Client.set")
        return self.sent(b)

    def request(self, m):
        """the request message of the mapping itself (parameters depending on others are requested when those have changed)"""
        return [raw(self.lab, self.st, self.attr(m, "request"))]

    def parse(self, m, data):
        """hands a raw message to a mapping: taken?"""
        msg = message_of(self.lab, self.st, data)
        if msg is None:
            return False
        r = self.do(self.lab.method(m, "parse", [msg], st=self.st), "parse")
        return r == TRUE

    def finished(self, m):
        return self.do(self.lab.method(m, "result_finished", [], st=self.st), "result_finished") == TRUE

    def value(self, m):
        return plain(self.lab, self.do(self.lab.get(m, "value", self.st), "value"), self.st)

    def forget(self, m):
        self.do(self.lab.set(m, "value", NONE, self.st), "value")

    def attr(self, m, n):
        return self.do(self.lab.get(m, n, self.st), n)


def norm(m):
    """list of bytes of a queued message, numbers of value 5.0 are 5"""
    if not isinstance(m, (list, tuple, bytes)):
        return m
    return [int(x) if isinstance(x, float) and x == int(x) else x for x in m]


def midi_ok(m):
    if not isinstance(m, list) or not m or any(not isinstance(x, int) or isinstance(x, bool) for x in m):
        return False
    if m[0] == 0xF0:
        return m[-1] == 0xF7 and all(0 <= x < 128 for x in m[1:-1]) and len(m) >= 5
    if 0xB0 <= m[0] < 0xC0:
        return len(m) == 3 and all(0 <= x < 128 for x in m[1:])
    if 0xC0 <= m[0] < 0xD0:
        return len(m) == 2 and 0 <= m[1] < 128
    return False


def raw(lab, st, m):
    """bytes of a firmware message on channel 1"""
    d = msgdata(lab, st, m)
    if d[0] == "SysEx":
        return [0xF0] + list(d[1]) + list(d[2]) + [0xF7]
    if d[0] == "CC":
        return [0xB0, d[1], d[2]]
    if d[0] == "PC":
        return [0xC0, d[1]]
    raise AnalysisBroken("unknown message %s" % (d,))


def message_of(lab, st, data):
    if not midi_ok(data):
        return None
    if data[0] == 0xF0:
        return message(lab, st, SX, list(data[1:4]), list(data[4:-1]))
    if data[0] < 0xC0:
        return message(lab, st, CC, data[1], data[2])
    return message(lab, st, PC, data[1])


def say(l):
    return "; ".join("%s %s" % (x[1], " ".join(str(y) for y in x[2]))[:160] for x in l[:2])


# -- rules ------------------------------------------------------------------------------------------

REQUESTS = {0x41: 0, 0x43: 1}


def answers(chk, cons, args, fi):
    """request -> exactly one answer which the mapping takes, with the device's value"""
    d = Device()
    m = d.mapping(fi, args)
    req = d.attr(m, "request")
    res = d.attr(m, "response")
    if req == NONE or res == NONE:
        return False
    r = raw(d.lab, d.st, req)
    if len(r) > 7 and r[6] not in REQUESTS:
        return False
    typ = plain(d.lab, d.attr(m, "type"), d.st)
    out = d.request(m)
    for x in out:
        bad = d.send(x)
        chk.ob("understood", cons + " request", not bad, "the device complains about %s: %s" % (x, say(bad)), fi.where)
    q = d.take()
    chk.ob("answer", cons, len(q) == 1 and midi_ok(q[0]) and d.parse(m, q[0]) and d.finished(m),
           "the request %s is answered by %s, which the mapping does not take as its value" % (out, q), fi.where)
    v = d.value(m)
    chk.ob("answer", cons + " type", isinstance(v, str) if typ == 1 else isinstance(v, int), "the first value is %r" % (v,), fi.where)
    addr = r[8:10]
    for x in (STRINGS if typ == 1 else TEMPI if fi.name == "MAPPING_TEMPO_BPM" else NUMBERS):
        d.forget(m)
        d.change(addr, x)
        d.take()
        for y in d.request(m):
            d.send(y)
        q = d.take()
        got = len(q) == 1 and midi_ok(q[0]) and d.parse(m, q[0])
        chk.ob("coding", "%s %r" % (cons, x if not isinstance(x, str) or len(x) < 20 else "long"), bool(got) and d.value(m) == x,
               "the device's value %r arrives as %r (%s)" % (x, d.value(m), q), fi.where)
    return True


def sets(chk, cons, args, fi):
    """set messages are understood and, where the value can be requested, read back as they were set"""
    d = Device()
    m = d.mapping(fi, args)
    s = d.attr(m, "set")
    if s == NONE or d.lab.e.h(d.st, s).kind == "list":
        return False
    kind = msgdata(d.lab, d.st, s)[0]
    req = d.attr(m, "request") != NONE and d.attr(m, "response") != NONE
    name = cons.split(".")[-1].split(" ")[0]
    for v in TEMPI if name == "MAPPING_TEMPO_BPM" else NUMBERS if kind == "SysEx" else (1, 0) if name == "EFFECT_STATE" else (0, 1, 64, 127):
        out = d.set(m, v)
        chk.ob("set", "%s set %d" % (cons, v), len(out) == 1, "the firmware sends %s" % (out,), fi.where)
        for x in out:
            bad = d.send(x)
            chk.ob("understood", "%s set %d" % (cons, v), not bad, "the device complains about %s: %s" % (x, say(bad)), fi.where)
        d.take()
        if not req or name == "MAPPING_MORPH_BUTTON":
            continue
        want = v * 128 if name == "MAPPING_MORPH_PEDAL" else v
        d.forget(m)
        for x in d.request(m):
            d.send(x)
        q = d.take()
        for x in q:
            d.parse(m, x)
        chk.ob("set", "%s set %d" % (cons, v), d.value(m) == want, "set to %d, the device answers %r (%s)" % (v, d.value(m), q), fi.where)
    return True


TEMPI = tuple(64 * x for x in (40, 60, 120, 121, 200, 255))


def tempo(chk):
    d = Device()
    fs = by_name(d.lab)
    where = fs["MAPPING_TEMPO_BPM"].where
    m = d.mapping((fs["MAPPING_TEMPO_BPM"]), {})

    def read():
        d.take()
        d.forget(m)
        for x in d.request(m):
            d.send(x)
        for x in d.take():
            d.parse(m, x)
        return d.value(m)
    conv = d.lab.fn(fs["MAPPING_TEMPO_BPM"].module.name, "convert_bpm")
    v = read()
    bpm = plain(d.lab, d.do(d.lab.method(d.do(d.lab.get(d.dev, "tempo", d.st), "tempo"), "bpm", [], st=d.st), "bpm"), d.st)
    chk.ob("tempo", "initially", v == bpm * 64, "the tempo of %s beats per minute is answered as %r at first" % (bpm, v), where)
    for bpm in (40, 60, 90, 120, 121, 180, 240, 255):
        for x in d.set(m, bpm * 64):
            bad = d.send(x)
            chk.ob("understood", "tempo %d" % bpm, not bad, say(bad), where)
        v = read()
        t = plain(d.lab, d.do(d.lab.call(conv, [c(v) if v is not None else NONE], st=d.st), "convert_bpm"), d.st)
        chk.ob("tempo", "bpm %d" % bpm, v == bpm * 64 and t == str(bpm), "tempo %d reads back as %r, shown as %r" % (bpm, v, t), where)
    # tapping
    t = d.mapping((fs["MAPPING_TAP_TEMPO"]), {})
    for ms, bpm in ((500, 120), (1000, 60), (300, 200), (250, 240)):
        d.rt.now += 10000
        for i in range(3):
            for v in (1, 0):
                for x in d.set(t, v):
                    bad = d.send(x)
                    chk.ob("understood", "tap", not bad, say(bad), fs["MAPPING_TAP_TEMPO"].where)
            d.rt.now += ms
        v = read()
        chk.ob("tempo", "tap %d ms" % ms, v is not None and abs(v - bpm * 64) <= 64, "tapping every %d ms yields the tempo value %r instead of %d" % (ms, v, bpm * 64), fs["MAPPING_TAP_TEMPO"].where)


def by_name(lab):
    from checks.mappings import factories
    return {fi.name: fi for _, f, fi in factories(lab)}


def beacon(d, lease, init):
    """the firmware's own beacon"""
    from checks.c08 import byteseq
    lab = d.lab
    per = {}

    def exceeded(eng, st, b, name, ctx, node):
        if name == "exceeded" and b[0] == "o" and eng.class_of(b, st) is not None and eng.class_of(b, st).qual == PERIOD:
            return [(st, TRUE if init or interval(lab, st, b) == lease * 500 else FALSE)]
        return None
    lab.e.attr_hooks.insert(0, exceeded)
    b = d.st.events
    d.do(d.lab.method(d.proto, "update", [], st=d.st), "protocol.update")
    lab.e.attr_hooks.remove(exceeded)
    return d.sent(b)


def connect(chk, d, lease):
    lab = d.lab
    lab.e.hooks[PERIOD + ".reset"] = lambda eng, s, a, k, ctx, node: [(s, NONE)]
    d.proto = d.do(lab.new(lab.cls(KEM, "KemperBidirectionalProtocol"), [], {"time_lease_seconds": c(lease)}, st=d.st), "KemperBidirectionalProtocol")
    d.do(lab.method(d.proto, "init", [d.midi, lab.bound("client", st=d.st)], st=d.st), "init")
    out = beacon(d, lease, True)
    if len(out) != 1:
        raise AnalysisBroken("%d initial beacons" % len(out))
    d.take()
    bad = d.send(out[0])
    chk.ob("understood", "beacon, lease %d" % lease, not bad, "the device complains about %s: %s" % (out[0], say(bad)))
    return out[0], d.take()


def parameter_set(d):
    """the mappings of the firmware's parameter set, by their factories"""
    out = []
    for label_, args, f, fi in instances(d.lab):
        m = d.mapping(fi, args)
        r = d.do(d.lab.method(d.proto, "is_bidirectional", [m], st=d.st), "is_bidirectional")
        if r == TRUE and not any(m == x[1] for x in out):
            out.append((label_ + (" %s" % args if args else ""), m, fi))
        elif r not in (TRUE, FALSE):
            raise AnalysisBroken("is_bidirectional(%s) is not known" % label_)
    return out


def session(chk, lease):
    d = Device()
    first, q = connect(chk, d, lease)
    ps = parameter_set(d)
    chk.ob("session", "parameter set", len(ps) >= 10, "only %d mappings in the parameter set" % len(ps))
    for x in q:
        chk.ob("bytes", "initial parameters %s" % x[:10], midi_ok(x), "not a MIDI message: %s" % (x,))
    for cons, m, fi in ps:
        d.forget(m)
        hit = [x for x in q if d.parse(m, x)]
        chk.ob("session", "%s initially" % cons, bool(hit) and d.value(m) is not None, "the parameter is not sent when a session is started", fi.where)
    # keep alive: accepted by the firmware, often enough, valid bytes for more than a cycle of the step counter
    sense = interval(d.lab, d.st, [v for v in [d.attr(d.proto, "sensing_period")]][0])
    gap, worst, seen = 0, 0, 0
    for i in range(60):
        bad = d.update(50)
        chk.ob("understood", "update", not bad, say(bad))
        gap += 50
        for x in d.take():
            chk.ob("bytes", "update %s" % x[:9], midi_ok(x), "not a MIDI message: %s" % (x,))
            if midi_ok(x) and d.do(d.lab.method(d.proto, "receive", [message_of(d.lab, d.st, x)], st=d.st), "receive") == TRUE:
                worst, gap, seen = max(worst, gap), 0, seen + 1
        worst = max(worst, gap)
        if lease * 1000 <= 50 * (i + 3):
            break
    state = d.attr(d.proto, "state")
    run = d.do(d.lab.get(d.proto, "_STATE_RUNNING", d.st), "_STATE_RUNNING")
    chk.ob("keep-alive", "lease %d" % lease, seen > 0 and worst < sense and state == run, "%d sensing messages, at most %d ms apart (the firmware gives up after %s ms)" % (seen, worst, sense))
    return d, ps, first


def lifetime(chk, lease):
    """parameters are reported unasked until the lease is over, longer when it is renewed in time"""
    d = Device()
    first, q = connect(chk, d, lease)
    renew = beacon_renew(d, lease)
    probe = Probe(d)
    d.update(lease * 500)
    chk.ob("lease", "lease %d, half" % lease, probe(), "no report after half of the lease")
    bad = d.send(renew)
    chk.ob("understood", "keep-alive beacon", not bad, say(bad))
    q = d.take()
    chk.ob("lease", "lease %d, renewing" % lease, len(q) < 3, "renewing the lease sends %d messages: the parameter set belongs to the start of a session only" % len(q))
    d.update(lease * 1000 - 10)
    chk.ob("lease", "lease %d, renewed" % lease, probe(), "no report before the renewed lease is over")
    d.update(20)
    d.update(2000)
    d.take()
    chk.ob("lease", "lease %d, over" % lease, not probe(), "reports go on after the lease is over")
    d.update(600)
    chk.ob("lease", "lease %d, over, sensing" % lease, d.take() == [], "messages are sent after the lease is over")
    # a new session
    d.send(first)
    q = d.take()
    chk.ob("lease", "lease %d, again" % lease, len(q) > 0 and probe(), "no parameters when a session is started again")


class Probe:
    def __init__(self, d):
        self.d = d
        self.n = 0
        fs = by_name(d.lab)
        self.m = d.mapping((fs["EFFECT_STATE"]), {"slot_id": 0})
        d.change(address(d, self.m), 0)

    def __call__(self):
        self.n += 1
        d = self.d
        v = self.n % 2
        for x in d.set(self.m, v):
            d.send(x)
        return any(d.parse(self.m, x) and d.value(self.m) == v for x in d.take())


def address(d, m):
    return raw(d.lab, d.st, d.attr(m, "response"))[8:10]


def beacon_renew(d, lease):
    d.update(600)
    for x in d.take():
        if midi_ok(x):
            d.do(d.lab.method(d.proto, "receive", [message_of(d.lab, d.st, x)], st=d.st), "receive")
    out = beacon(d, lease, False)
    if len(out) != 1:
        raise AnalysisBroken("%d keep-alive beacons" % len(out))
    return out[0]


def changes(chk):
    """changes of the parameters of the set are reported unasked, with their value; nothing is without a session"""
    d = Device()
    first, q = connect(chk, d, 30)
    off = Device()
    for cons, m, fi in parameter_set(d):
        if d.lab.e.h(d.st, d.attr(m, "response")).kind == "list":
            continue
        a = address(d, m)
        typ = plain(d.lab, d.attr(m, "type"), d.st)
        d.change(a, "other" if typ == 1 else 77)
        d.take()
        for x in (STRINGS if typ == 1 else NUMBERS):
            d.change(a, x)
            q = [y for y in d.take() if d.parse(m, y)]
            chk.ob("report", "%s %r" % (cons, x if not isinstance(x, str) or len(x) < 20 else "long"), bool(q) and d.value(m) == x, "a change to %r is not reported (%s)" % (x, q), fi.where)
            off.change(a, x)
        chk.ob("report", cons + " offline", off.take() == [], "reported without a session", fi.where)


def rigs(chk):
    d = Device()
    connect(chk, d, 30)
    fs = by_name(d.lab)
    fv = lambda n: fs[n]
    rid = d.mapping(fv("RIG_ID"), {})
    rname = d.mapping(fv("RIG_NAME"), {})
    bank = d.mapping(fv("MAPPING_BANK_SELECT"), {})
    up, down = d.mapping(fv("MAPPING_NEXT_BANK"), {}), d.mapping(fv("MAPPING_PREVIOUS_BANK"), {})
    sel = [d.mapping(fv("MAPPING_RIG_SELECT"), {"rig": r}) for r in range(5)]

    def out(*steps):
        for m, v in steps:
            for x in d.set(m, v):
                bad = d.send(x)
                chk.ob("understood", "rig change %s" % x, not bad, say(bad), fs["MAPPING_RIG_SELECT"].where)
        q = d.take()
        d.forget(rid)
        for x in q:
            chk.ob("bytes", "rig change %s" % x[:9], midi_ok(x), "not a MIDI message: %s" % (x,))
            d.parse(rid, x)
            d.parse(rname, x)
        return d.value(rid), d.finished(rid)
    b = 0
    where = fs["MAPPING_RIG_SELECT"].where
    for r in (3, 0, 4, 1, 2, 2):
        v = out((sel[r], 1), (sel[r], 0))
        chk.ob("rig", "rig %d of bank 0" % r, v == (5 * b + r, True), "selecting rig %d reports rig id %s" % (r, v), where)
    for b in (1, 7, 24, 25, 26, 51, 100, 124, 0):
        for r in (0, 4, 3):
            v = out((bank, b), (sel[r], 1), (sel[r], 0))
            chk.ob("rig", "bank %d rig %d" % (b, r), v == (5 * b + r, True), "selecting bank %d, rig %d reports rig id %s instead of %d" % (b, r, v, 5 * b + r), where)
        v = out((sel[1], 1), (sel[1], 0))
        chk.ob("rig", "bank %d, then rig 1" % b, v == (5 * b + 1, True), "selecting rig 1 of the current bank %d reports rig id %s" % (b, v), where)
    b = 30
    out((bank, b), (sel[2], 1), (sel[2], 0), (up, 0))
    v = out((sel[4], 1), (sel[4], 0))
    chk.ob("rig", "bank up after a bank selection", v == (5 * (b + 1) + 4, True), "selecting rig 4 after bank %d and bank up reports rig id %s instead of %d" % (b, v, 5 * (b + 1) + 4), where)
    out((bank, 0), (sel[1], 1), (sel[1], 0))
    cur = 1
    names = set()
    for m, step, n in ((up, 5, "up"), (down, -5, "down"), (down, -5, "down, wrapping"), (up, 5, "up, wrapping"), (up, 5, "up")):
        v = out((m, 0))
        cur = (cur + step) % 625
        chk.ob("rig", "bank %s" % n, v == (cur, True), "bank %s reports rig id %s instead of %d" % (n, v, cur), fs["MAPPING_NEXT_BANK"].where)
    # the name belongs to the rig
    for r in range(5):
        out((sel[r], 1), (sel[r], 0))
        names.add(d.value(rname))
    chk.ob("rig", "names", len(names) == 5 and all(isinstance(x, str) and x for x in names), "the rigs of a bank are reported with the names %s" % sorted(map(str, names)), where)


def tuner(chk):
    d = Device()
    connect(chk, d, 30)
    fs = by_name(d.lab)
    fv = lambda n: fs[n]
    mode, note, dev = (d.mapping(fv(n), {}) for n in ("TUNER_MODE_STATE", "TUNER_NOTE", "TUNER_DEVIANCE"))
    where = fs["TUNER_MODE_STATE"].where
    chk.ob("tuner", "off", not any(d.parse(note, x) or d.parse(dev, x) for x in run_for(d, 200)), "the tuner reports although it is off", where)
    d.change(address(d, note), 40)
    d.change(address(d, dev), 8000)
    d.take()
    for i in range(2):
        for x in d.set(mode, 1):
            bad = d.send(x)
            chk.ob("understood", "tuner on", not bad, say(bad), where)
        q = d.take()
        chk.ob("tuner", "on, state", any(d.parse(mode, x) for x in q) and d.value(mode) == 1, "switching the tuner on is not reported", where)
        q = run_for(d, 200)
        a = [x for x in q if d.parse(note, x)]
        b = [x for x in q if d.parse(dev, x)]
        chk.ob("tuner", "on, values", len(a) > 2 and len(b) > 2 and d.value(note) == 40 and d.value(dev) == 8000, "note %r, deviance %r" % (d.value(note), d.value(dev)), where)
        for x in d.set(mode, 0):
            d.send(x)
        q = d.take()
        chk.ob("tuner", "off, state", any(d.parse(mode, x) for x in q) and d.value(mode) == 0, "switching the tuner off is not reported", where)
        q = run_for(d, 200)
        chk.ob("tuner", "off again", not any(d.parse(note, x) or d.parse(dev, x) for x in q), "the tuner reports although it is off", where)


def run_for(d, ms, step=10):
    out = []
    for i in range(ms // step):
        d.update(step)
        out += d.take()
    return out


def pulses(chk):
    """the tempo display toggles twice per beat while a session runs"""
    d = Device()
    connect(chk, d, 30)
    fs = by_name(d.lab)
    m = d.mapping((fs["MAPPING_TEMPO_DISPLAY"]), {})
    bpm = d.mapping((fs["MAPPING_TEMPO_BPM"]), {})
    for t in (120, 60):
        for x in d.set(bpm, t * 64):
            d.send(x)
        d.take()
        vals = []
        for x in run_for(d, 4000, 20):
            if d.parse(m, x):
                vals.append(d.value(m))
        n = 4 * t * 2 // 60
        chk.ob("tempo", "pulse %d bpm" % t, n - 2 <= len(vals) <= n + 1 and set(vals) == {0, 1} and all(a != b for a, b in zip(vals, vals[1:])),
               "%d pulses in 4 s at %d bpm (expected about %d): %s" % (len(vals), t, n, vals[:6]), fs["MAPPING_TEMPO_DISPLAY"].where)


def cycle(chk):
    """a long session: the sensing messages stay valid when their counter wraps"""
    d = Device()
    first, q = connect(chk, d, 30)
    n = 0
    for i in range(132):
        if i % 20 == 0:
            d.send(first)
        d.take()
        d.update(501)
        for x in d.take():
            ok_ = midi_ok(x)
            if not ok_:
                chk.ob("bytes", "long session", False, "not a MIDI message: %s" % (x,))
            elif d.do(d.lab.method(d.proto, "receive", [message_of(d.lab, d.st, x)], st=d.st), "receive") == TRUE:
                n += 1
    chk.ob("bytes", "long session", n >= 130, "only %d sensing messages in 132 periods" % n)


def run(chk):
    chk.rule("answer", "every request of the firmware is answered by exactly one message the requesting mapping takes as its value, of the mapping's type")
    chk.rule("coding", "the decoded answer is the device's value, over the value range and for texts")
    chk.rule("set", "set messages change the parameter to the value set, read back by the same mapping")
    chk.rule("understood", "no message of the firmware raises an error in the device or is left unparsed")
    chk.rule("session", "the firmware's beacon makes the device send every parameter of the firmware's parameter set")
    chk.rule("keep-alive", "the device's sensing messages are accepted by the firmware and arrive before it gives up")
    chk.rule("lease", "the device reports as long as the lease the firmware encoded, and not longer; renewing it and starting again work")
    chk.rule("report", "in a session changed parameters of the set are reported unasked with their value, without a session nothing is sent unasked")
    chk.rule("rig", "rig and bank selection lead to the rig the firmware's mapping numbers")
    chk.rule("tuner", "the tuner mode switches note and deviance reports on and off")
    chk.rule("tempo", "tempo values and pulses agree with the beats per minute")
    chk.rule("bytes", "everything the device sends is a valid MIDI message")
    lab = Lab(program())
    jobs = [(label_.split(".")[-1] + (" %s" % " ".join(str(v) for v in args.values()) if args else ""), (args, fi)) for label_, args, f, fi in instances(lab)]
    tasks = [(k, x) for k in ("answers", "sets") for x in jobs]
    tasks += [("session", l) for l in (10, 30)] + [("lifetime", l) for l in ((10, 30) if not chk.thorough else (4, 10, 20, 30, 60))]
    tasks += [(n, None) for n in ("tempo", "changes", "rigs", "tuner", "pulses", "cycle")]
    tasks.reverse()
    Device()

    def work(sub, kind, x):
        try:
            if kind in ("answers", "sets"):
                globals()[kind](sub, x[0], x[1][0], x[1][1])
            elif x is not None:
                globals()[kind](sub, x)
            else:
                globals()[kind](sub)
        except Broken as ex:
            sub.ob("understood", "%s %s" % (kind, x[0] if isinstance(x, tuple) else x or ""), False, str(ex))
    parallel(chk, work, tasks)
    chk.floor("answer", 40)
    chk.floor("coding", 200)
    chk.floor("set", 100)
    chk.floor("report", 60)
    chk.floor("rig", 30)
