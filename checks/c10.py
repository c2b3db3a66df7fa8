"""Value coding: symbolic values through set_value, symbolic messages through parse, two-part parameters as typestate."""
from checks.common import *
from checks.c06 import message, real_mapping

UNKNOWN = "adafruit_midi.midi_message.MIDIUnknownEvent"
MAN = [0, 0x20, 0x33]


def run(chk):
    chk.rule("encode", "an integer 0..16383 is set as two 7-bit bytes that decode to the same integer")
    chk.rule("plain", "control change and program change messages carry the plain value, list parameters one value per message")
    chk.rule("keep", "setting a value changes nothing but the value bytes")
    chk.rule("match", "a message is taken as answer exactly if kind, manufacturer, function, instance and address (or controller) match")
    chk.rule("decode", "an answer is decoded to 128*msb+lsb, to the plain value, or to the text for string parameters")
    chk.rule("reject", "a message not taken changes nothing")
    chk.rule("two-part", "a two-part value is 128*first+second and complete only after the second part following a first part")
    encode(chk)
    plainset(chk)
    sysex(chk)
    others(chk)
    strings(chk)
    twopart(chk)
    for r, n in (("encode", 6), ("match", 20), ("two-part", 10)):
        chk.floor(r, n)


def bytes_of(lab, v, st):
    return list(lab.e.seq_items(v, st) or [])


def lineq(lab, a, b, st):
    """decided equality on every partition"""
    return all(r is True for _, r in lab.e.equal(a, b, st))


def inrange(lab, v, lo, hi, st):
    e = lab.e
    return all(r for _, r in e.less(c(lo), v, False, st, None, None)) and all(r for _, r in e.less(v, c(hi), False, st, None, None))


def encode(chk):
    for pre in (6, 7, 8):
        for state in ("fresh", "set before"):
            lab = Lab()
            e, st = lab.e, lab.st
            v = e.sym("value", typ="int", lo=0, hi=16383)
            data = [2, 0x7f, 1, 0, 0x0a, 0x05, 33, 44][:pre]
            m = message(lab, st, SX, MAN, data)
            st, mp = real_mapping(lab, st, "P", set=m, response=message(lab, st, SX, MAN, data[:6]))
            cons = "SysEx template of %d bytes, %s" % (pre, state)
            states = [st]
            if state != "fresh":
                w = e.sym("earlier value", typ="int", lo=0, hi=16383)
                states = [s for s, _ in must(lab, lab.method(mp, "set_value", [w], st=st), "set_value")]
            for s0 in states:
                for s, r in lab.method(mp, "set_value", [v], st=s0):
                    if isinstance(r, Raise):
                        chk.ob("encode", cons, False, "raises %s %s" % (r.exc, r.msg), r.where)
                        continue
                    bs = bytes_of(lab, hget(lab, s, m, "data"), s)
                    if not chk.ob("encode", cons + " length", len(bs) == 8, "%d data bytes" % len(bs)):
                        continue
                    chk.ob("keep", cons, [plain(lab, x, s) for x in bs[:6]] == data[:6] and [plain(lab, x, s) for x in bytes_of(lab, hget(lab, s, m, "manufacturer_id"), s)] == MAN,
                           "address bytes become %s" % [plain(lab, x, s) for x in bs[:6]])
                    for i in (6, 7):
                        chk.ob("encode", cons + " 7-bit byte %d" % i, e.is_int(bs[i]) and inrange(lab, bs[i], 0, 127, s), "byte %d is %s" % (i, e.describe(bs[i], s)))
                    # decode with the decoder used for responses
                    ans = message(lab, s, SX, MAN, [0, 0] + data[2:6] + [0, 0])
                    hset(lab, s, ans, "data", tup(*([c(0), c(0)] + [c(x) for x in data[2:6]] + bs[6:8])))
                    n = 0
                    for s2, ok in lab.method(mp, "parse", [ans], st=s):
                        n += 1
                        got = hget(lab, s2, mp, "value")
                        chk.ob("encode", cons + " round trip", not isinstance(ok, Raise) and ok == TRUE and lineq(lab, got, v, s2), "decoded value is %s" % e.describe(got, s2))
                    chk.ob("encode", cons + " decodable", n > 0, "")
            chk.analysed(e)


def plainset(chk):
    for kind, at, keep in ((CC, "value", {"control": 7, "channel": None}), (PC, "patch", {"channel": None})):
        lab = Lab()
        e, st = lab.e, lab.st
        v = e.sym("value", typ="int", lo=0, hi=127)
        m = message(lab, st, kind, 7, 3) if kind == CC else message(lab, st, kind, 3)
        st, mp = real_mapping(lab, st, "P", set=m)
        for s, r in lab.method(mp, "set_value", [v], st=st):
            cons = kind.split(".")[-1]
            if isinstance(r, Raise):
                chk.ob("plain", cons, False, "raises %s" % r.exc, r.where)
                continue
            chk.ob("plain", cons, hget(lab, s, m, at) == v, "%s is %s" % (at, e.describe(hget(lab, s, m, at), s)))
            for a, x in keep.items():
                chk.ob("keep", cons + " " + a, plain(lab, hget(lab, s, m, a), s) == x, "%s becomes %s" % (a, e.describe(hget(lab, s, m, a), s)))
        chk.analysed(e)
    lab = Lab()
    e, st = lab.e, lab.st
    vs = [e.sym("value%d" % i, typ="int", lo=0, hi=127) for i in range(4)]
    ms = [message(lab, st, CC, 7, 0), message(lab, st, PC, 0), message(lab, st, SX, MAN, [2, 0x7f, 1, 0, 4, 5]), message(lab, st, CC, 9, 0)]
    for order in ([0, 1, 2, 3], [3, 2, 1, 0], [0, 3], [2], [0, None, 3]):
        s0 = st.fork()
        lst = [NONE if i is None else ms[i] for i in order]
        s0, mp = real_mapping(lab, s0, "L%s" % order, set=e.mklist(s0, lst))
        vals = [vs[i or 0] for i in order]
        for container in ("list", "tuple"):
            arg = e.mklist(s0, vals) if container == "list" else tup(*vals)
            for s, r in lab.method(mp, "set_value", [arg], st=s0.fork()):
                cons = "list parameter %s with a %s of values" % (order, container)
                if isinstance(r, Raise):
                    chk.ob("plain", cons, False, "raises %s %s" % (r.exc, r.msg), r.where)
                    continue
                for i in range(4):
                    h = e.h(s, ms[i]).attrs
                    got = h.get("value") if i in (0, 3) else (h.get("patch") if i == 1 else bytes_of(lab, h["data"], s)[-1])
                    if i in order:
                        chk.ob("plain", cons + " message %d" % i, lineq(lab, got, vs[i], s), "carries %s" % e.describe(got, s))
                    else:
                        was = e.h(s0, ms[i]).attrs
                        chk.ob("keep", cons + " message %d" % i, got == (was.get("value") if i in (0, 3) else was.get("patch") if i == 1 else bytes_of(lab, was["data"], s0)[-1]), "a message of another parameter changes")
    chk.analysed(e)


def verdict(chk, lab, s, r, mp, should, val, cons, only_taken=False):
    e = lab.e
    if isinstance(r, Raise):
        chk.ob("match", cons, False, "raises %s %s" % (r.exc, r.msg), r.where)
        return
    for s2, took in e.truth(r, s):
        for s3, want in should(s2):
            if only_taken and not took:
                chk.ob("reject", cons, hget(lab, s3, mp, "value") == c("old"), "value changes")
                continue
            chk.ob("match", cons + (" matching" if want else " not matching"), took == want, "the message is %staken" % ("" if took else "not "))
            got = hget(lab, s3, mp, "value")
            if took and want:
                chk.ob("decode", cons, lineq(lab, got, val, s3), "value is %s" % e.describe(got, s3))
            elif not took:
                chk.ob("reject", cons, got == c("old"), "value becomes %s" % e.describe(got, s3))


def sysex(chk):
    """all single- and multi-byte differences via symbolic bytes"""
    for symbolic in ([0, 1], [2, 3, 4, 5], ["man"], [2], [3], [4], [5], ["man0"], ["man1"], ["man2"]):
        lab = Lab()
        e, st = lab.e, lab.st
        tpl = [2, 0x7f, 1, 0, 0x0a, 0x05]
        st, mp = real_mapping(lab, st, "P", response=message(lab, st, SX, MAN, tpl))
        hset(lab, st, mp, "value", c("old"))
        b = [e.sym("byte%d" % i, typ="int", lo=0, hi=127) for i in range(8)]
        man = [e.sym("man%d" % i, typ="int", lo=0, hi=127) for i in range(3)] if "man" in symbolic else [c(x) for x in MAN]
        for i in range(3):
            if "man%d" % i in symbolic:
                man[i] = e.sym("man%d" % i, typ="int", lo=0, hi=127)
        m = message(lab, st, SX, MAN, [0])
        data = [b[i] if i in symbolic or i > 5 else c(tpl[i]) for i in range(8)]
        hset(lab, st, m, "manufacturer_id", tup(*man))
        hset(lab, st, m, "data", tup(*data))

        def should(s):
            pairs = [(data[i], c(tpl[i])) for i in range(2, 6)] + list(zip(man, [c(x) for x in MAN]))
            return e.equal_seq([p[0] for p in pairs], [p[1] for p in pairs], s, None)
        val = e.arith("+", e_mul(e, b[6], 128, st), b[7], st, None, None)
        val = val[0][1] if isinstance(val, list) else val
        for s, r in lab.method(mp, "parse", [m], st=st):
            verdict(chk, lab, s, r, mp, should, val, "SysEx, free %s" % symbolic, only_taken=symbolic in (["man"], [2, 3, 4, 5]))
        chk.analysed(e)


def e_mul(e, v, k, st):
    return e.from_lin(0, {v: k})


def others(chk):
    lab = Lab()
    e, st = lab.e, lab.st
    x, k = e.sym("msgvalue", typ="int", lo=0, hi=127), e.sym("control", typ="int", lo=0, hi=127)
    tpl = {"SysEx": message(lab, st, SX, MAN, [2, 0x7f, 1, 0, 0x0a, 0x05]), "CC": message(lab, st, CC, 20, 0), "PC": message(lab, st, PC, 0), "none": NONE}
    msg = {"SysEx": message(lab, st, SX, MAN, [2, 0x7f, 1, 0, 0x0a, 0x05, 0, 1]), "CC": message(lab, st, CC, k, x), "PC": message(lab, st, PC, x), "unknown": message(lab, st, UNKNOWN, 0xf8)}
    for tn, t in tpl.items():
        s0 = st.fork()
        s0, mp = real_mapping(lab, s0, "P" + tn, response=t)
        hset(lab, s0, mp, "value", c("old"))
        for mn, m in msg.items():
            if tn == mn == "SysEx":
                continue

            def should(s, tn=tn, mn=mn):
                if tn != mn:
                    return [(s, False)]
                return e.equal(k, c(20), s) if mn == "CC" else [(s, True)]
            for s, r in lab.method(mp, "parse", [m], st=s0.fork()):
                verdict(chk, lab, s, r, mp, should, x, "%s message against %s template" % (mn, tn))
    chk.analysed(e)


def strings(chk):
    lab = Lab()
    e, st = lab.e, lab.st
    st, mp = real_mapping(lab, st, "S", response=message(lab, st, SX, MAN, [0, 0, 3, 0, 0, 1]), type=e.class_attr(lab.cls(CLI, "ClientParameterMapping"), "PARAMETER_TYPE_STRING"))
    for text in ("", "A", "Rig 1", "x" * 40, "~!{}%s"):
        m = message(lab, st, SX, MAN, [0, 0, 3, 0, 0, 1] + [ord(x) for x in text] + [0])
        for s, r in lab.method(mp, "parse", [m], st=st.fork()):
            cons = "string of %d characters" % len(text)
            if isinstance(r, Raise):
                chk.ob("decode", cons, False, "raises %s %s" % (r.exc, r.msg), r.where)
                continue
            got = plain(lab, hget(lab, s, mp, "value"), s)
            chk.ob("decode", cons, r == TRUE and got == text, "decoded to %r" % (got,))
        bad = message(lab, st, SX, MAN, [0, 0, 3, 0, 0, 2] + [ord(x) for x in text] + [0])
        for s, r in lab.method(mp, "parse", [bad], st=st.fork()):
            chk.ob("match", "string of another address", not isinstance(r, Raise) and all(t is False for _, t in e.truth(r, s)), "a text of another address is taken")
    chk.analysed(e)


def twopart(chk):
    lab = Lab()
    e, st = lab.e, lab.st
    midi = lab.bound("midi")
    notes = []
    l = lab.bound("listener", methods={})

    def changed(eng, s, args, kwargs):
        m = (list(args) + list(kwargs.values()))[0]
        s.emit("notified", l, "changed", (hget(lab, s, m, "value"),), {}, None, s.facts, "")
        return NONE
    lab.handlers[(l, "parameter_changed")] = changed
    lab.handlers[(l, "request_terminated")] = lambda *a: NONE
    st, mp = real_mapping(lab, st, "T", cls="ClientTwoPartParameterMapping", response=e.mklist(st, [message(lab, st, CC, 32, 0), message(lab, st, PC, 0)]))
    (st, cl), = must(lab, lab.new(lab.cls(CLI, "Client"), [midi, e.mkdict(st, {})], st=st), "Client()")
    (st, _), = must(lab, lab.method(cl, "register", [mp, l], st=st), "register")
    a, b = e.sym("first a", typ="int", lo=0, hi=127), e.sym("first b", typ="int", lo=0, hi=127)
    p = e.sym("second", typ="int", lo=0, hi=127)
    msgs = {"first a": message(lab, st, CC, 32, a), "first b": message(lab, st, CC, 32, b), "second": message(lab, st, PC, p),
            "other control": message(lab, st, CC, 33, p), "sysex": message(lab, st, SX, MAN, [2, 0x7f, 1, 0, 4, 5, 0, 1])}

    def steps(s, spec):
        return [(k, lambda s, k=k: step(s, spec, k)) for k in msgs]

    def step(s, spec, k):
        first, value = spec
        cons = "%s %s" % (k, "after the first part" if first else "without a first part")
        out = []
        for s2, v in lab.method(cl, "receive", [msgs[k]], st=s):
            if isinstance(v, Raise):
                chk.ob("two-part", cons, False, "raises %s %s" % (v.exc, v.msg), v.where)
                continue
            got = [x.args[0] for x in s2.trace() if x.kind == "notified"]
            f, val = first, value
            done = k == "second" and first
            if done:
                val = ("pair", first)
                f = None
            elif k.startswith("first"):
                f = k
            want = None
            if val:
                base = a if val[1] == "first a" else b
                want = e.from_lin(0, {base: 128, p: 1})
            cur = hget(lab, s2, mp, "value")
            chk.ob("two-part", cons + " value", (cur == NONE) if want is None else lineq(lab, cur, want, s2), "value is %s" % e.describe(cur, s2))
            chk.ob("two-part", cons + " notified", len(got) == (1 if done else 0) and all(lineq(lab, g, want, s2) for g in got), "%d notifications" % len(got))
            out.append((s2, v, (f, val)))
        return out
    n, t = explore(lab, [cl], [(st, (None, None))], steps)
    chk.notes["abstract_states"], chk.notes["transitions"] = n, t
    chk.analysed(e)
