"""Kemper bidirectional session: typestate of the protocol object over timer expiries and every class of message."""
from checks.common import *
from checks.c06 import message, interval

KMAN = [0x00, 0x20, 0x33]
GREEN_MOD = "pyswitch.colors"


def byteseq(lab, v, st):
    """list of byte constants of an abstract bytes/list/tuple value"""
    if v[0] == "c" and isinstance(v[2], (bytes, list, tuple)):
        return list(v[2])
    it = lab.e.seq_items(v, st)
    if it is None:
        return None
    return [plain(lab, x, st) for x in it]


def run(chk):
    chk.rule("init-beacon", "offline: one initialisation beacon per elapsed init interval, nothing else is sent")
    chk.rule("keep-alive", "running: one beacon without init flag per elapsed half lease, restarted when the session starts")
    chk.rule("sensing", "only genuine sensing messages start the session and restart the sensing timeout")
    chk.rule("loss", "a sensing timeout makes the session offline; its listeners are told at the latest when it is initialised again, and never without a session before")
    chk.rule("beacon", "beacons carry parameter set, flags and lease time as the device expects")
    chk.rule("color", "the state colour is green exactly while the session runs")
    for lease in (2, 5, 10, 30, 60) if not chk.thorough else (2, 3, 4, 5, 10, 29, 30, 60, 120, 254):
        for tuner in (True, False, None):
            session(chk, lease, tuner)
    chk.floor("init-beacon", 10)
    chk.floor("keep-alive", 10)
    chk.floor("sensing", 50)


def session(chk, lease, tuner):
    lab = Lab()
    e, st = lab.e, lab.st
    name = "lease %ds, tuner %s" % (lease, tuner)
    e.hooks[PERIOD + ".reset"] = lambda eng, s, args, kwargs, ctx, node: (s.emit("preset", args[0], "reset", (), {}, None, s.facts, ""), [(s, NONE)])[1]
    if lab.p.cls("pyswitch.misc", "PeriodCounter").find("reset") is None:
        raise AnalysisBroken("PeriodCounter.reset vanished")
    midi, cl = lab.bound("midi"), lab.bound("client")
    kw = {"time_lease_seconds": c(lease)}
    if tuner is not None:
        kw["tuner_mode"] = c(tuner)
    (st, p), = must(lab, lab.new(lab.cls(KEM, "KemperBidirectionalProtocol"), [], kw, st=st), "KemperBidirectionalProtocol()")
    (st, _), = must(lab, lab.method(p, "init", [midi, cl], st=st), "init")
    per = {}
    for a in ("init_period", "sensing_period", "resend_period"):
        (st, v), = must(lab, lab.get(p, a, st), a)
        per[v] = a
    by = {a: v for v, a in per.items()}
    chk.ob("keep-alive", name + " interval", interval(lab, st, by["resend_period"]) == lease * 500, "keep-alive interval is %s ms" % interval(lab, st, by["resend_period"]))
    chk.ob("sensing", name + " interval", 500 < interval(lab, st, by["sensing_period"]) <= lease * 1000 or lease < 3, "sensing timeout is %s ms" % interval(lab, st, by["sensing_period"]))
    chk.ob("init-beacon", name + " interval", interval(lab, st, by["init_period"]) > 0, "no init interval")
    good = [0x00, 0x00, 0x7e, 0x00, 0x7f]
    v1, v2 = e.sym("b1", typ="int", lo=0, hi=127), e.sym("b2", typ="int", lo=0, hi=127)
    msgs = {
        "sensing": (True, message(lab, st, SX, KMAN, good + [v1])),
        "sensing with product bytes": (True, message(lab, st, SX, KMAN, [0x02, 0x7f] + good[2:] + [v1, v2])),
        "foreign manufacturer": (False, message(lab, st, SX, [0x00, 0x20, 0x32], good + [v1])),
        "other function": (False, message(lab, st, SX, KMAN, [0, 0, 0x01, 0, 0x7f, v1])),
        "other instance": (False, message(lab, st, SX, KMAN, [0, 0, 0x7e, 1, 0x7f, v1])),
        "other address": (False, message(lab, st, SX, KMAN, [0, 0, 0x7e, 0, 0x40, v1])),
        "own beacon": (False, message(lab, st, SX, KMAN, [2, 0x7f, 0x7e, 0, 0x40, 2, 3, 15])),
        "short sysex": (False, message(lab, st, SX, KMAN, [0x7e])),
        "control change": (False, message(lab, st, CC, 0x7e, v1)),
        "program change": (False, message(lab, st, PC, v1)),
        "unknown event": (False, message(lab, st, "adafruit_midi.midi_message.MIDIUnknownEvent", 0xfe)),
    }
    green = plain(lab, e.class_attr(lab.cls(GREEN_MOD, "Colors"), "GREEN"), st)
    red = plain(lab, e.class_attr(lab.cls(GREEN_MOD, "Colors"), "RED"), st)

    def steps(s, spec):
        return [("update", lambda s: update(s, spec))] + [("receive", lambda s, n=n: receive(s, spec, n)) for n in msgs]

    seen = {"init": 0, "keep": 0, "loss": 0}

    def events(s):
        sent = [(list(x.args) + list(x.kwargs.values()))[0] for x in calls(s.trace(), midi, "send")]
        lost = len(calls(s.trace(), cl, "notify_connection_lost"))
        ex = {}
        for x in s.trace():
            if x.kind == "period" and x.name == "exceeded":
                ex[per.get(x.recv)] = s.facts.get(("truth", x.res))
        rs = [per.get(x.recv) for x in s.trace() if x.kind == "preset"]
        return sent, lost, ex, rs

    def color(s, running, cons):
        for s2, v in lab.method(p, "get_color", st=s):
            got = plain(lab, v, s2) if not isinstance(v, Raise) else v
            chk.ob("color", cons, got == (green if running else red), "colour is %s while %s" % (got, "running" if running else "offline"))

    def beacon(s, m, init, cons):
        h = e.h(s, m) if m[0] == "o" else None
        man = byteseq(lab, h.attrs["manufacturer_id"], s) if h and "manufacturer_id" in h.attrs else None
        data = byteseq(lab, h.attrs["data"], s) if h and "data" in h.attrs else None
        want = [0x7e, 0x00, 0x40, 2, (1 if init else 0) | 2 | (0 if tuner is False else 32), lease // 2]
        chk.ob("beacon", cons, man == KMAN and data is not None and data[2:] == want and len(data) == 8, "beacon is %s %s, expected ... %s" % (man, data, want))

    def update(s, spec):
        running, initsent, had, told = spec
        cons = "%s: update while %s%s" % (name, "running" if running else "offline", " after a session" if had else "")
        out = []
        for s2, v in lab.method(p, "update", st=s):
            if isinstance(v, Raise):
                chk.ob("init-beacon", cons, False, "raises %s %s" % (v.exc, v.msg), v.where)
                continue
            sent, lost, ex, rs = events(s2)
            if not running:
                due = ex.get("init_period")
                chk.ob("init-beacon", cons + " timer", due is not None, "the init interval is not checked")
                chk.ob("init-beacon", cons + (" due" if due else " not due"), len(sent) == (1 if due else 0), "%d messages sent" % len(sent))
                for m in sent:
                    beacon(s2, m, True, cons)
                if due:
                    seen["init"] += 1
                    chk.ob("loss", cons, (lost >= 1 if had and not told else lost == 0 if not had else True), "notify_connection_lost called %d times" % lost)
                else:
                    chk.ob("loss", cons, lost == 0 or (had and not told), "notify_connection_lost called %d times" % lost)
                n = (False, initsent or bool(due), had, told or lost > 0)
            else:
                to = ex.get("sensing_period")
                ka = ex.get("resend_period")
                chk.ob("loss", cons + " timer", to is not None, "the sensing timeout is not checked")
                if to:
                    seen["loss"] += 1
                    chk.ob("keep-alive", cons + " lost", all(True for m in sent) and len(sent) <= (1 if ka else 0), "%d messages sent" % len(sent))
                    n = (False, initsent, True, lost > 0)
                else:
                    chk.ob("keep-alive", cons + " timer", ka is not None, "the keep-alive interval is not checked")
                    chk.ob("keep-alive", cons + (" due" if ka else " not due"), len(sent) == (1 if ka else 0), "%d messages sent" % len(sent))
                    seen["keep"] += bool(ka)
                    chk.ob("loss", cons, lost == 0, "connection loss notified in a running session")
                    n = spec
                for m in sent:
                    beacon(s2, m, False, cons)
            color(s2, n[0], cons)
            out.append((s2, v, n))
        return out

    def receive(s, spec, k):
        running, initsent, had, told = spec
        cons = "%s: %s while %s%s" % (name, k, "running" if running else "offline", "" if initsent else " before the first beacon")
        out = []
        g, m = msgs[k]
        for s2, v in lab.method(p, "receive", [m], st=s):
            if isinstance(v, Raise):
                chk.ob("sensing", cons, False, "raises %s %s" % (v.exc, v.msg), v.where)
                continue
            sent, lost, ex, rs = events(s2)
            acc = g and initsent
            chk.ob("sensing", cons + " silent", not sent and not lost, "receiving sends %d messages, %d notifications" % (len(sent), lost))
            chk.ob("sensing", cons, ("sensing_period" in rs) == acc, "the sensing timeout is %srestarted" % ("" if "sensing_period" in rs else "not "))
            if acc and not running:
                chk.ob("keep-alive", cons + " restart", "resend_period" in rs, "the keep-alive interval is not restarted")
            elif running:
                chk.ob("keep-alive", cons + " restart", "resend_period" not in rs, "the keep-alive interval is restarted in a running session: the lease runs out")
            n = (running or acc, initsent, had or acc, False if acc and not running else told)
            color(s2, n[0], cons)
            out.append((s2, v, n))
        return out

    n, t = explore(lab, [p], [(st, (False, False, False, False))], steps)
    for k, x in seen.items():
        chk.ob("init-beacon", name + " reachable " + k, x > 0, "no path sends it")
    chk.notes["abstract_states"] = chk.notes.get("abstract_states", 0) + n
    chk.notes["transitions"] = chk.notes.get("transitions", 0) + t
    chk.analysed(e)
