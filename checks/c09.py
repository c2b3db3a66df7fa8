"""MIDI routing: every path of send/receive for all routing tables over application and devices, with every pattern of available messages."""
import itertools

from checks.common import *
from checks.c06 import message

MIDI = "pyswitch.controller.midi"
UNKNOWN = "adafruit_midi.midi_message.MIDIUnknownEvent"


def tables(chk):
    """routing tables as lists of (source, target), 0 = application"""
    two = [(0, 1), (1, 0), (0, 2), (2, 0), (1, 2), (2, 1)]
    out = []
    for n in range(len(two) + 1):
        for t in itertools.combinations(two, n):
            out.append(list(t))
    out += [list(reversed(t)) for t in out if len(t) in (4, 6)]
    three = [
        [(1, 2), (1, 3)], [(1, 3), (2, 3)], [(1, 2), (2, 3), (3, 1)], [(1, 0), (2, 0), (3, 0)], [(1, 2), (1, 3), (1, 0), (0, 1)],
        [(1, 2), (2, 1), (3, 0), (0, 3)], [(1, 2), (3, 2), (3, 0), (1, 0)], [(2, 1), (1, 3), (1, 2), (2, 3), (0, 2), (2, 0)],
        [(0, 1), (0, 2), (0, 3)], [(1, 3), (2, 3), (1, 3)],
    ]
    out += three
    if chk.thorough:
        edges = [(a, b) for a in range(4) for b in range(4) if a != b]
        import random
        rnd = random.Random(chk.seed)
        out += [rnd.sample(edges, rnd.randint(2, 6)) for _ in range(150)]
    return out


def run(chk):
    chk.rule("send", "each message of the application goes exactly once to the target of each routing from the application, and nowhere else")
    chk.rule("external", "each message read from a source reaches each target of its external routings exactly once, in the cycle it was read; unknown events do not")
    chk.rule("read", "sources are read at most once per cycle, sources of external routings exactly once unless the application has messages waiting; other devices are never read")
    chk.rule("application", "the application receives each message of its sources exactly once and in order, and gets nothing only when nothing is left")
    chk.rule("total", "routing raises no error")
    for t in tables(chk):
        table(chk, t)
    chk.floor("send", 50)
    chk.floor("external", 100)
    chk.floor("application", 100)


def table(chk, routes):
    lab = Lab()
    e, st = lab.e, lab.st
    name = "routings " + (", ".join("%s>%s" % tuple("APP" if x == 0 else "D%d" % x for x in r) for r in routes) or "none")
    appl = e.class_attr(lab.cls(MIDI, "MidiRouting"), "APPLICATION")
    nread = {}
    avail = [None]
    MSGS = {}
    devs = [appl]
    for d in (1, 2, 3):
        def recv(eng, s, args, kwargs, d=d):
            k = sum(1 for x in s.trace() if x.kind == "read" and x.args[0] == d)
            out = []
            for kind in avail[0]:
                s2 = s.fork()
                m = NONE if kind == "none" else MSGS[(d, k, kind)] if (d, k, kind) in MSGS else None
                if m is None:
                    continue
                s2.emit("read", None, "read", (d, m), {}, None, s2.facts, "")
                out.append((s2, m))
            return out
        devs.append(lab.bound("D%d" % d, methods={"receive": recv, "send": lambda *a: NONE}))
    for d in (1, 2, 3):
        for k in range(4):
            for kind in ("msg", "unknown"):
                m = message(lab, st, CC if kind == "msg" else UNKNOWN, d * 10 + k) if kind == "unknown" else message(lab, st, CC, d * 10 + k, 0)
                hset(lab, st, m, "_STATUS", c(0xb0))
                MSGS[(d, k, kind)] = m
    rs = []
    for a, b in routes:
        (st, r), = must(lab, lab.new(lab.cls(MIDI, "MidiRouting"), [], {"source": devs[a], "target": devs[b]}, st=st), "MidiRouting()")
        rs.append(r)
    (st, mc), = must(lab, lab.new(lab.cls(MIDI, "MidiController"), [], {"routings": e.mklist(st, rs)}, st=st), "MidiController()")

    def sends(tr):
        return [(devs.index(x.recv), (list(x.args) + list(x.kwargs.values()))[0]) for x in tr if x.kind == "call" and x.name == "send" and x.recv in devs]
    # application to devices
    own = message(lab, st, CC, 99, 1)
    for s, v in lab.method(mc, "send", [own], st=rebase(st)):
        if isinstance(v, Raise):
            chk.ob("total", name + " send", False, "raises %s" % v.exc, v.where)
            continue
        got = sorted(sends(s.trace()), key=repr)
        chk.ob("send", name, got == sorted([(b, own) for a, b in routes if a == 0], key=repr) and not [x for x in s.trace() if x.kind == "read"],
               "sent to %s" % ["D%d" % d for d, _ in got])
    # cycles
    ext = [(a, b) for a, b in routes if a and b]
    to_app = [a for a, b in routes if b == 0]
    n_src = len({a for a, b in ext} | set(to_app))
    cycles = 3 if n_src <= 1 or (n_src == 2 and (chk.thorough or len(routes) == 3)) else 2
    states = [(rebase(st), [])]
    for i in range(cycles + 4):
        avail[0] = ["none", "msg", "unknown"] if i < (1 if cycles == 3 and n_src > 1 else 2) else (["none", "msg"] if i < cycles else ["none"])
        nxt = []
        for s, hist in states:
            t0 = len(s.trace())
            for s2, v in lab.method(mc, "receive", st=s.fork()):
                if isinstance(v, Raise):
                    chk.ob("total", name + " receive", False, "raises %s %s" % (v.exc, v.msg), v.where)
                    continue
                nxt.append((s2, hist + [(s2.trace()[t0:], v)]))
        states = nxt
    for s, hist in states:
        judge(chk, name, routes, ext, to_app, devs, MSGS, hist, sends, lab)
    chk.ob("total", name, bool(states), "no path completes")
    chk.analysed(e)


def judge(chk, name, routes, ext, to_app, devs, MSGS, hist, sends, lab):
    kinds = {m: k for k, m in MSGS.items()}
    due = {a: [] for a in to_app}
    for tr, ret in hist:
        reads = [x.args for x in tr if x.kind == "read"]
        backlog = any(due.values())
        for d in (1, 2, 3):
            n = sum(1 for x in reads if x[0] == d)
            if d not in {a for a, b in routes}:
                chk.ob("read", name + " D%d no source" % d, n == 0, "a device which is no source is read")
            elif d in {a for a, b in ext}:
                chk.ob("read", name + " D%d external source" % d, n == 1 or (n == 0 and backlog and d in to_app), "read %d times in one cycle" % n)
            else:
                chk.ob("read", name + " D%d" % d, n <= 1, "read %d times in one cycle" % n)
        want = []
        for d, m in reads:
            if m == NONE:
                continue
            if kinds[m][2] == "msg":
                want += [(b, m) for a, b in ext if a == d]
            if d in due:
                due[d].append(m)
        got = sends(tr)
        chk.ob("external", name, sorted(got, key=repr) == sorted(want, key=repr), "forwarded %s, expected %s" % (
            [("D%d" % b, kinds.get(m)) for b, m in got], [("D%d" % b, kinds[m]) for b, m in want]))
        if ret == NONE:
            chk.ob("application", name + " nothing left", not any(due.values()), "the application gets nothing although %d read messages are undelivered" % sum(map(len, due.values())))
            empty = {d for d, m in reads if m == NONE}
            chk.ob("application", name + " all asked", set(to_app) <= empty, "the application gets nothing although not all of its sources were read and empty")
        else:
            k = kinds.get(ret)
            ok = k is not None and k[0] in due and due[k[0]] and due[k[0]][0] == ret
            chk.ob("application", name + " in order", bool(ok), "the application gets %s" % (k,))
            if ok:
                due[k[0]].pop(0)
    chk.ob("application", name + " delivered", not any(due.values()), "%d messages are never delivered" % sum(map(len, due.values())))
