"""Bidirectional parameters: typestate of the bidirectional client's subscriptions over register/set/receive/connection loss."""
from checks.common import *
from checks.c06 import message, real_mapping, listener, periods, interval, LIFE


class World:
    def __init__(self, setlist=False):
        lab = self.lab = Lab()
        e, st = lab.e, lab.st
        self.midi = lab.bound("midi")
        self.l = [listener(lab, "listener%d" % i) for i in (1, 2)]
        self.m, self.rq, self.setm = {}, {}, {}
        # B: covered and fed back, Q: covered without feedback, N: not covered, R: covered, no set message
        for i, k in enumerate("BQNR"):
            self.rq[k] = message(lab, st, SX, [0, 1, 2], [9, 1, 1, 1, 1, i])
            kw = {"request": self.rq[k], "response": message(lab, st, CC, 5 + i, 0)}
            if k != "R":
                s1 = message(lab, st, CC, 50 + i, 0)
                self.setm[k] = [s1]
                kw["set"] = s1
                if setlist and k == "B":
                    s2 = message(lab, st, CC, 60 + i, 0)
                    self.setm[k] = [s1, s2]
                    kw["set"] = e.mklist(st, [s1, s2])
            if k == "B":
                kw["depends"] = NONE
            st, self.m[k] = real_mapping(lab, st, k, **kw)
        st, dep = real_mapping(lab, st, "dep", request=message(lab, st, SX, [0, 1, 2], [9, 1, 1, 1, 1, 9]), response=message(lab, st, CC, 99, 0))
        hset(lab, st, self.m["R"], "depends", dep)
        cover = [self.m[k] for k in "BQR"]
        self.proto = lab.bound("protocol", methods={
            "is_bidirectional": lambda eng, s, a, k: c((list(a) + list(k.values()))[0] in cover),
            "feedback_value": lambda eng, s, a, k: c((list(a) + list(k.values()))[0] in (self.m["B"], self.m["R"])),
            "receive": lambda eng, s, a, k: TRUE, "update": lambda eng, s, a, k: NONE, "init": lambda eng, s, a, k: NONE})
        (st, self.cl), = must(lab, lab.new(lab.cls(CLI, "BidirectionalClient"), [self.midi, build(lab, {"maxRequestLifetimeMillis": LIFE}, st), self.proto], st=st), "BidirectionalClient()")
        inits = calls(st.trace(), self.proto, "init")
        self.inits = [list(x.args) + list(x.kwargs.values()) for x in inits]
        self.st = st
        self.val = {k: e.sym("value" + k, typ="int", lo=0, hi=127) for k in "BQNR?"}
        self.msgs = {k: message(lab, st, CC, 5 + "BQNR".index(k) if k != "?" else 77, self.val[k]) for k in "BQNR?"}

    def sent(self, s):
        return [x.args[0] for x in calls(s.trace(), self.midi, "send")]

    def notes(self, s):
        return sorted(((self.l.index(x.recv), x.name) + tuple(x.args) for x in s.trace() if x.kind == "notified"), key=repr)


def run(chk):
    chk.rule("init", "the protocol is initialised once with the MIDI handler and the client")
    chk.rule("no-poll", "a covered parameter sends no request message, an uncovered one is requested and answered as usual")
    chk.rule("receive", "an incoming value of a covered parameter notifies each registered listener exactly once, again and again")
    chk.rule("set", "setting sends the set message(s) once; a parameter fed back notifies all its listeners at once with the value stored")
    chk.rule("lost", "connection loss tells exactly the listeners of covered parameters, and keeps their registration")
    chk.rule("protocol", "the protocol gets exactly the messages no parameter used, and its periodic update")
    for setlist in (False, True):
        table(chk, setlist)
    chk.floor("receive", 10)
    chk.floor("set", 10)
    chk.floor("lost", 5)


def table(chk, setlist):
    w = World(setlist)
    lab, e = w.lab, w.lab.e
    chk.ob("init", "protocol.init", w.inits == [[w.midi, w.cl]], "called %d times with %s" % (len(w.inits), [[e.describe(a, w.st) for a in x] for x in w.inits]))
    keys = "BQR"
    # the application registers every covered parameter before anything else happens
    states = [w.st]
    for k in keys:
        nxt = []
        for s in states:
            for s2, v in must(lab, lab.method(w.cl, "register", [w.m[k], w.l[0]], st=rebase(s)), "register"):
                chk.ob("no-poll", "register " + k, not w.sent(s2), "a request is sent for a covered parameter")
                nxt.append(s2)
        states = nxt
    # spec: (listeners of B, Q, R ; pending listeners of N or None)
    start = ((0,), (0,), (0,), None)

    def steps(st, spec):
        out = []
        for k in "BR":
            for who in (0, 1):
                out.append(("register", lambda s, k=k, who=who: register(s, spec, k, who)))
        if not setlist and not chk.thorough:
            return out + [("set", lambda s, k=k: setv(s, spec, k)) for k in "BQ"] + [("receive", lambda s: receive(s, spec, "B"))]
        for k in "BQRN":
            for who in (0, 1) if k == "N" else (0,):
                out.append(("request", lambda s, k=k, who=who: request(s, spec, k, who)))
        out.append(("register", lambda s: register(s, spec, "N", 0)))
        for k in "BQRN?":
            out.append(("receive", lambda s, k=k: receive(s, spec, k)))
        out.append(("receive", lambda s: receive(s, spec, None)))
        for k in "BQRN":
            out.append(("set", lambda s, k=k: setv(s, spec, k)))
        out.append(("lost", lambda s: lost(s, spec)))
        out.append(("update", lambda s: update(s, spec)))
        return out

    def show(spec):
        return "listeners B:%d Q:%d R:%d, N %s" % (len(spec[0]), len(spec[1]), len(spec[2]), "idle" if spec[3] is None else "pending for %d" % len(spec[3])) + (" list" if setlist else "")

    def bad(s, v, rule, cons):
        if isinstance(v, Raise):
            chk.ob(rule, cons, False, "raises %s %s" % (v.exc, v.msg), v.where)
            return True

    def add(spec, i, who):
        n = list(spec)
        if who not in (n[i] or ()):
            n[i] = (n[i] or ()) + (who,)
        return tuple(n)

    def register(s, spec, k, who):
        cons = "register %s, %s" % (k, show(spec))
        out = []
        for s2, v in lab.method(w.cl, "register", [w.m[k], w.l[who]], st=s):
            if bad(s2, v, "no-poll", cons):
                continue
            chk.ob("no-poll", cons, not w.sent(s2) and not w.notes(s2), "registering sends or notifies")
            out.append((s2, v, spec if k == "N" else add(spec, keys.index(k), who)))
        return out

    def request(s, spec, k, who):
        cons = "request %s, %s" % (k, show(spec))
        out = []
        for s2, v in lab.method(w.cl, "request", [w.m[k], w.l[who]], st=s):
            if bad(s2, v, "no-poll", cons):
                continue
            want = [w.rq["N"]] if k == "N" and spec[3] is None else []
            chk.ob("no-poll", cons, w.sent(s2) == want and not w.notes(s2), "sent %d request messages, expected %d" % (len(w.sent(s2)), len(want)))
            out.append((s2, v, add(spec, 3, who) if k == "N" else spec))
        return out

    def receive(s, spec, k):
        cons = "receive %s, %s" % (k or "nothing", show(spec))
        for kk in w.m:
            hset(lab, s, w.m[kk], "value", c("old"))
        out = []
        for s2, v in lab.method(w.cl, "receive", [NONE if k is None else w.msgs[k]], st=s):
            if bad(s2, v, "receive", cons):
                continue
            expired = any(t and interval(lab, s2, p) == LIFE for p, t in periods(lab, s2).items())
            notes = w.notes(s2)
            n = list(spec)
            term = [x for x in notes if x[1] == "terminated"]
            if term or (expired and spec[3] is not None):
                chk.ob("lost", cons + " timeout", sorted(x[0] for x in term) == sorted(spec[3] or ()) and all(x[2] == w.m["N"] for x in term),
                       "the time-out terminates %s" % [(e.describe(x[2], s2)) for x in term])
                n[3] = None
            changed = [x for x in notes if x[1] == "changed"]
            want = []
            used = False
            if k in ("B", "Q", "R"):
                want = [(l, "changed", w.m[k], w.val[k]) for l in spec[keys.index(k)]]
                used = True
            elif k == "N" and n[3] is not None:
                want = [(l, "changed", w.m[k], w.val[k]) for l in n[3]]
                used = True
                n[3] = None
            chk.ob("receive", cons, changed == sorted(want, key=repr), "notified %s, expected %d notifications" % ([(x[0] + 1, e.describe(x[3], s2)) for x in changed], len(want)))
            got = [list(x.args) + list(x.kwargs.values()) for x in calls(s2.trace(), w.proto, "receive")]
            chk.ob("protocol", cons, got == ([] if used or k is None else [[w.msgs[k]]]), "the protocol got %d messages" % len(got))
            chk.ob("no-poll", cons, not w.sent(s2), "receiving sends a message")
            out.append((s2, v, tuple(n)))
        return out

    def setv(s, spec, k):
        cons = "set %s, %s" % (k, show(spec))
        for kk in w.m:
            hset(lab, s, w.m[kk], "value", c("old"))
        x = e.sym("set value", typ="int", lo=0, hi=127)
        y = e.sym("second set value", typ="int", lo=0, hi=127)
        v0 = e.mklist(s, [x, y]) if len(w.setm.get(k, ())) == 2 else x
        out = []
        for s2, v in lab.method(w.cl, "set", [w.m[k], v0], st=s):
            if bad(s2, v, "set", cons):
                continue
            chk.ob("set", cons + " sent", w.sent(s2) == w.setm.get(k, []), "sent %d messages, expected %d" % (len(w.sent(s2)), len(w.setm.get(k, []))))
            for mm, vv in zip(w.setm.get(k, []), [x, y]):
                chk.ob("set", cons + " value", hget(lab, s2, mm, "value") == vv, "the message carries %s" % e.describe(hget(lab, s2, mm, "value"), s2))
            fed = k in "BR"
            want = sorted(((l, "changed", w.m[k], v0) for l in spec[keys.index(k)]), key=repr) if fed else []
            chk.ob("set", cons, w.notes(s2) == want, "notified %s, expected %d notifications with the value set" % (
                [(x[0] + 1, x[1], e.describe(x[3], s2)) for x in w.notes(s2)], len(want)))
            out.append((s2, v, spec))
        return out

    def lost(s, spec):
        cons = "connection lost, " + show(spec)
        out = []
        for s2, v in lab.method(w.cl, "notify_connection_lost", st=s):
            if bad(s2, v, "lost", cons):
                continue
            got = [x[:3] for x in w.notes(s2)]
            want = sorted(((l, "terminated", w.m[k]) for i, k in enumerate(keys) for l in spec[i]), key=repr)
            chk.ob("lost", cons, got == want, "notified %s" % [(x[0] + 1, x[1], e.describe(x[2], s2)) for x in got])
            out.append((s2, v, spec))
        return out

    def update(s, spec):
        cons = "update, " + show(spec)
        out = []
        for s2, v in lab.method(w.cl, "update", st=s):
            if bad(s2, v, "protocol", cons):
                continue
            chk.ob("protocol", cons, len(calls(s2.trace(), w.proto, "update")) == 1 and not w.notes(s2) and not w.sent(s2), "the protocol is not updated exactly once")
            out.append((s2, v, spec))
        return out

    n, t = explore(lab, [w.cl], [(s, start) for s in states], steps)
    chk.notes["abstract_states"] = chk.notes.get("abstract_states", 0) + n
    chk.notes["transitions"] = chk.notes.get("transitions", 0) + t
    chk.analysed(e)
