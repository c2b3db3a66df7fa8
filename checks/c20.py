"""Parameter messages: constant evaluation of every mapping factory and a relational lint over set, request and response."""
from checks.common import *
from checks.mappings import all_definitions, instances

# function codes of the device (request -> response)
PAIR = {0x41: 0x01, 0x43: 0x03, 0x47: 0x07}
STRING_RESPONSES = (0x03, 0x07)

# MIDI specification of the device: controller numbers of the parameters which are set by control change
K = "kemper.mappings."
CONTROLLERS = {
    "kemper.KemperMappings.TUNER_MODE_STATE": 31, K + "tempo.MAPPING_TAP_TEMPO": 30, K + "bank.MAPPING_NEXT_BANK": 48, K + "bank.MAPPING_PREVIOUS_BANK": 49,
    K + "select.MAPPING_BANK_SELECT": 47, K + "morph.MAPPING_MORPH_BUTTON": 80, K + "morph.MAPPING_MORPH_PEDAL": 11, K + "freeze.MAPPING_FREEZE_ALL_GLOBAL": 35,
    K + "pedals.MAPPING_WAH_PEDAL": 1, K + "pedals.MAPPING_PITCH_PEDAL": 4, K + "pedals.MAPPING_VOLUME_PEDAL": 7, K + "pedals.MAPPING_DELAY_MIX_PEDAL": 68,
    K + "pedals.MAPPING_DELAY_FEEDBACK_PEDAL": 69, K + "pedals.MAPPING_REVERB_MIX_PEDAL": 70, K + "pedals.MAPPING_REVERB_TIME_PEDAL": 71, K + "pedals.MAPPING_VOLUME_OUTPUT_PEDAL": 73,
}
BY_ARG = {
    K + "select.MAPPING_RIG_SELECT": ("rig", lambda r: 50 + r), K + "effects.MAPPING_EFFECT_BUTTON": ("num", lambda n: 74 + n),
    "kemper.KemperMappings.EFFECT_STATE": ("slot_id", lambda i: (17, 18, 19, 20, 22, 24, 27, 29, 26, 28)[i]),
}
PAGES = (0x32, 0x33, 0x34, 0x35, 0x38, 0x3a, 0x3c, 0x3d, 0x3c, 0x3d)
FREEZE = (0x6b, 0x6c, 0x6d, 0x6e, 0x6f, 0x71, 0x72, 0x73, 0x72, 0x73)
# (address page, address number) of parameters with a documented NRPN address
NRPN = {
    "kemper.KemperMappings.RIG_NAME": (0, 1), "kemper.KemperMappings.RIG_DATE": (0, 3), "kemper.KemperMappings.TUNER_MODE_STATE": (0x7f, 0x7e),
    "kemper.KemperMappings.TUNER_NOTE": (0x7d, 0x54), "kemper.KemperMappings.TUNER_DEVIANCE": (0x7c, 0x0f),
    K + "rig.MAPPING_RIG_COMMENT": (0, 4), K + "rig.MAPPING_RIG_VOLUME": (4, 1), K + "rig.MAPPING_RIG_TRANSPOSE": (4, 4), K + "tempo_bpm.MAPPING_TEMPO_BPM": (4, 0),
    K + "amp.MAPPING_AMP_NAME": (0, 0x10), K + "amp.MAPPING_AMP_STATE": (0x0a, 2), K + "amp.MAPPING_AMP_GAIN": (0x0a, 4),
    K + "cabinet.MAPPING_CABINET_NAME": (0, 0x20), K + "cabinet.MAPPING_CABINET_STATE": (0x0c, 2), K + "tempo.MAPPING_TEMPO_DISPLAY": (0x7c, 0),
    K + "system.MAPPING_MAIN_VOLUME": (0x7f, 0), K + "system.MAPPING_MONITOR_VOLUME": (0x7f, 2), K + "system.MAPPING_LOOPER_VOLUME": (0x7f, 52), K + "system.MAPPING_SPACE_INTENSITY": (0x7f, 36),
    K + "morph.MAPPING_MORPH_BUTTON": (0, 0x0b), K + "morph.MAPPING_MORPH_PEDAL": (0, 0x0b),
    K + "looper.MAPPING_LOOPER_REC_PLAY_OVERDUB": (0x7d, 88), K + "looper.MAPPING_LOOPER_STOP": (0x7d, 89), K + "looper.MAPPING_LOOPER_TRIGGER": (0x7d, 90),
    K + "looper.MAPPING_LOOPER_REVERSE": (0x7d, 91), K + "looper.MAPPING_LOOPER_HALF_SPEED": (0x7d, 92), K + "looper.MAPPING_LOOPER_CANCEL": (0x7d, 93), K + "looper.MAPPING_LOOPER_ERASE": (0x7d, 94),
    K + "fixed_fx.MAPPING_FIXED_TRANSPOSE": (5, 1), K + "fixed_fx.MAPPING_FIXED_GATE": (5, 6), K + "fixed_fx.MAPPING_FIXED_COMP": (5, 11), K + "fixed_fx.MAPPING_FIXED_BOOST": (5, 16),
    K + "fixed_fx.MAPPING_FIXED_WAH": (5, 21), K + "fixed_fx.MAPPING_FIXED_CHORUS": (5, 26), K + "fixed_fx.MAPPING_FIXED_AIR": (5, 36), K + "fixed_fx.MAPPING_FIXED_DBL_TRACKER": (5, 41),
}
NRPN_BY_SLOT = {
    "kemper.KemperMappings.EFFECT_STATE": lambda i: (PAGES[i], 3), "kemper.KemperMappings.EFFECT_TYPE": lambda i: (PAGES[i], 0),
    K + "effects.MAPPING_DLY_REV_MIX": lambda i: (PAGES[i], 0x45), K + "rotary.MAPPING_ROTARY_SPEED": lambda i: (PAGES[i], 0x1e), K + "freeze.MAPPING_FREEZE": lambda i: (0x7d, FREEZE[i]),
}


def flat(m):
    return m if isinstance(m, list) else [m] if m is not None else []


def byte(x):
    return isinstance(x, int) and not isinstance(x, bool) and 0 <= x <= 127


def run(chk):
    chk.rule("bytes", "every byte of a message is 7-bit and messages have the form their users expect")
    chk.rule("address", "set, request and response of a parameter use the same address and function codes that belong together")
    chk.rule("documented", "addresses and controller numbers are those of the device's MIDI specification")
    chk.rule("slots", "each effect slot uses its own controller number, and its own address page for all of its parameters")
    chk.rule("answerable", "a parameter that can be requested has a response and vice versa two-part parameters have exactly two")
    chk.rule("protocol", "the bidirectional parameter set consists of existing parameters which all have a response and no part of it is listed twice")
    lab, defs = all_definitions(chk, "bytes")
    for label_, args, name, d, where in defs:
        cons = label_ + ("(%s)" % ", ".join("%s=%s" % x for x in args.items()) if args else "")
        one(chk, label_, args, cons, d, where)
    slots(chk, [x for x in defs if "slot_id" in x[1]])
    protocol(chk)
    for r, n in (("bytes", 80), ("address", 60), ("documented", 80), ("slots", 20), ("protocol", 10), ("answerable", 80)):
        chk.floor(r, n)


def one(chk, label_, args, cons, d, where):
    msgs = flat(d["set"]) + flat(d["request"]) + flat(d["response"])
    chk.ob("bytes", cons + " messages", bool(msgs), "the parameter has no message", where)
    for m in msgs:
        if m is None:
            continue
        if m[0] == "SysEx":
            chk.ob("bytes", cons, len(m[1]) == 3 and all(map(byte, m[1])) and len(m[2]) >= 6 - (2 if len(m[2]) < 6 else 0) and all(map(byte, m[2])), "SysEx %s %s" % (m[1], m[2]), where)
            chk.ob("bytes", cons + " header", m[1] == (0, 0x20, 0x33) and m[2][0] in (0, 2) and m[2][1] == 0x7f and m[2][3] == 0, "header of SysEx %s %s" % (m[1], m[2]), where)
        elif m[0] == "CC":
            chk.ob("bytes", cons, byte(m[1]) and byte(m[2]), "control change %s" % (m,), where)
        elif m[0] == "PC":
            chk.ob("bytes", cons, byte(m[1]), "program change %s" % (m,), where)
        else:
            chk.ob("bytes", cons, False, "unknown message %s" % (m,), where)
    for m in flat(d["set"]):
        chk.ob("bytes", cons + " set", m is None or m[0] != "SysEx" or len(m[2]) == 6, "the set message has %d data bytes, 6 are needed in front of the value" % len(m[2]) if m and m[0] == "SysEx" else "", where)
    # relations
    resp = flat(d["response"])
    chk.ob("answerable", cons, (d["request"] is None or len(resp) > 0), "the parameter is requested but has no response", where)
    chk.ob("answerable", cons + " parts", (len(resp) == 2 and isinstance(d["response"], list)) if d["class"] == "ClientTwoPartParameterMapping" else not isinstance(d["response"], list), "%d response messages" % len(resp), where)
    for rq in flat(d["request"]):
        if rq is None:
            continue
        chk.ob("address", cons + " request", rq[0] == "SysEx" and rq[2][2] in PAIR and len(resp) == 1 and resp[0][0] == "SysEx" and resp[0][2][2] == PAIR[rq[2][2]] and resp[0][2][4:6] == rq[2][4:6],
               "request %s, response %s" % (rq[2] if rq[0] == "SysEx" else rq, resp), where)
    for r in resp:
        if r and r[0] == "SysEx":
            fn = r[2][2]
            chk.ob("address", cons + " type", (d["type"] == 1) == (fn in STRING_RESPONSES), "response function 0x%02x for a parameter of type %s" % (fn, d["type"]), where)
            for s in flat(d["set"]):
                if s and s[0] == "SysEx":
                    chk.ob("address", cons + " set", s[2][2] == 0x01 and s[2][4:6] == r[2][4:6], "set %s, response %s" % (s[2], r[2]), where)
    for s in flat(d["set"]):
        if s and s[0] == "SysEx":
            chk.ob("address", cons + " set function", s[2][2] == 0x01, "set function 0x%02x" % s[2][2], where)
    # documentation
    want = CONTROLLERS.get(label_)
    if label_ in BY_ARG:
        a, f = BY_ARG[label_]
        want = f(args[a])
    if want is not None:
        sm = flat(d["set"])
        chk.ob("documented", cons + " controller", len(sm) == 1 and sm[0][0] == "CC" and sm[0][1] == want, "set message %s, controller %d is documented" % (sm, want), where)
    na = NRPN.get(label_)
    if label_ in NRPN_BY_SLOT:
        na = NRPN_BY_SLOT[label_](args["slot_id"])
    if na is not None:
        for m in msgs:
            if m and m[0] == "SysEx":
                chk.ob("documented", cons + " address", tuple(m[2][4:6]) == tuple(na), "address %s, documented is %s" % (m[2][4:6], na), where)
        chk.ob("documented", cons + " present", any(m and m[0] == "SysEx" for m in msgs), "no NRPN message", where)
    if d["class"] == "ClientTwoPartParameterMapping":
        chk.ob("documented", cons + " rig id", [(x[0], x[1] if x[0] == "CC" else None) for x in resp if x] == [("CC", 32), ("PC", None)], "rig id is decoded from %s" % (resp,), where)


def slots(chk, defs):
    ctl = {}
    for label_, args, name, d, where in defs:
        i = args["slot_id"]
        for m in flat(d["set"]):
            if m and m[0] == "CC":
                k = (label_, m[1])
                chk.ob("slots", "%s(%d) controller" % (label_, i), k not in ctl, "controller %d is also used by slot %s" % (m[1], ctl.get(k)), where)
                ctl[k] = i
    # addresses: two slots share an address exactly if they are the same module (with and without spillover)
    by = {}
    for label_, args, name, d, where in defs:
        for m in flat(d["response"]):
            if m and m[0] == "SysEx":
                by.setdefault(label_, []).append((args["slot_id"], tuple(m[2][4:6]), where))
    for label_, xs in by.items():
        for i, a, w in xs:
            same = {j for j, b, _ in xs if b == a}
            chk.ob("slots", "%s(%d) address" % (label_, i), same <= {i, i + 2, i - 2} and (same == {i} or i >= 6), "slots %s share the address %s" % (sorted(same), a), w)


def protocol(chk):
    lab = Lab()
    e, st = lab.e, lab.st
    preload(lab, KEM)
    seen = []
    (s, p), = must(lab, lab.new(lab.cls(KEM, "KemperBidirectionalProtocol"), [], {"time_lease_seconds": c(30)}, st=st), "KemperBidirectionalProtocol()")
    want = {"EFFECT_TYPE": range(6), "EFFECT_STATE": range(6), "RIG_NAME": None, "TUNER_MODE_STATE": None, "TUNER_NOTE": None, "TUNER_DEVIANCE": None}
    never = {"RIG_ID": None, "RIG_DATE": None, "BIDIRECTIONAL_SENSING": None}
    for names, exp in ((want, True), (never, False)):
        for n, rng in names.items():
            fi = lab.cls(KEM, "KemperMappings").methods.get(n)
            if fi is None:
                raise AnalysisBroken("KemperMappings.%s not found" % n)
            for i in (rng if rng is not None else [None]):
                (s2, m), = must(lab, lab.call(e.fv(fi), [c(i)] if i is not None else [], st=s.fork()), n)
                for meth in ("is_bidirectional", "feedback_value"):
                    for s3, v in ok(chk, "protocol", n, lab.method(p, meth, [m], st=s2.fork())):
                        for s4, t in e.truth(v, s3):
                            chk.ob("protocol", "%s%s %s" % (n, "" if i is None else "(%d)" % i, meth), t == exp, "is %scovered by the bidirectional protocol" % ("" if t else "not "))
                if exp:
                    r = hget(lab, s2, m, "response")
                    chk.ob("protocol", "%s%s response" % (n, "" if i is None else "(%d)" % i), r is not None and r != NONE and m not in seen, "no response or listed twice")
                    seen.append(m)
    chk.analysed(e)
