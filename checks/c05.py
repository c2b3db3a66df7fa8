"""Main loop: order of input polls, message reads, client hand-over and periodic updates on every path of tick()/init()."""
from checks.common import *
from checks.c06 import message, real_mapping

MAIN = "pyswitch.controller.controller"
INP = "pyswitch.controller.inputs"
NOW = "pyswitch.misc.get_current_millis"


class World:
    def __init__(self, chk, n_inputs, n_upd, limit, protocol=False, debug=False, clear=None):
        lab = self.lab = Lab()
        e, st = lab.e, lab.st
        e.while_unroll = (limit or 10) + 4
        self.limit = limit
        cfg = {"updateInterval": 77}
        if limit is not None:
            cfg["maxConsecutiveMidiMessages"] = limit
        if debug:
            cfg["debugStats"] = True
        if clear is not None:
            cfg["clearBuffers"] = clear
        self.midi = lab.bound("midi", methods={"receive": self.receive})
        self.led = lab.bound("led_driver")
        defs = []
        for i in range(n_inputs):
            at = {"pushed": FALSE} if i % 2 == 0 else {"value": c(0)}
            m = lab.bound("model%d" % i, at, open=False, methods={"init": lambda *a: NONE})
            e.hw(st, m).attrs["init"] = ("mcall", m, "init")
            a = {"model": m}
            if i % 2 == 0:
                a["pixels"] = (i,)
            defs.append({"assignment": a, "actions": []})
        for cn in ("SwitchController", "ContinuousController"):
            ci = lab.cls(INP, cn)
            fi = ci.find("process")
            if fi is None:
                raise AnalysisBroken("%s.process vanished" % cn)
            e.hooks[fi.qual] = self.mark("poll")
        for cn in ("Client", "BidirectionalClient"):
            ci = lab.cls(CLI, cn)
            e.hooks[ci.find("receive").qual] = self.mark("client", "any")
        e.hooks["pyswitch.stats.Memory.watch"] = lambda eng, s, args, kwargs, ctx, node: [(s, NONE)]
        self.proto = lab.bound("protocol") if protocol else NONE
        if debug:
            ci = lab.cls("pyswitch.controller.measure", "RuntimeMeasurement")
            for mn in ("start", "finish", "update"):
                if ci.find(mn) is not None:
                    e.hooks[ci.find(mn).qual] = self.mark("update" if mn == "update" else "measure")
        up = lab.cls("pyswitch.misc", "Updateable")
        e.hooks[up.find("update").qual] = self.mark("update")
        e.hooks["pyswitch.misc.do_print"] = lambda eng, s, args, kwargs, ctx, node: [(s, NONE)]
        kw = {"led_driver": self.led, "midi": self.midi, "config": build(lab, cfg, st), "inputs": build(lab, defs, st), "protocol": self.proto}
        (st, self.obj), = must(lab, lab.new(lab.cls(MAIN, "Controller"), [], kw, st=st), "Controller()")
        self.upd = []
        for i in range(n_upd):
            (st, u), = must(lab, lab.new(up, [], st=st), "Updateable()")
            self.upd.append(u)
            for s, _ in must(lab, lab.method(self.obj, "add_updateable", [u], st=st), "add_updateable"):
                st = s
        # adding the same component again does not update it twice
        for u in self.upd[:1]:
            for s, _ in must(lab, lab.method(self.obj, "add_updateable", [u], st=st), "add_updateable"):
                st = s
        if protocol:
            e.hooks[lab.cls(CLI, "BidirectionalClient").find("update").qual] = self.mark("update")
        # a parameter request is pending
        (st, cl), = must(lab, lab.get(self.obj, "client", st), "client")
        st, m = real_mapping(lab, st, "pending", request=message(lab, st, SX, [0, 1, 2], [9, 1, 1, 1, 1, 1]), response=message(lab, st, CC, 5, 0))
        (st, _), = must(lab, lab.method(cl, "request", [m, lab.bound("listener", st=st)], st=st), "request")
        for s, v in must(lab, lab.get(self.obj, "inputs", st), "inputs"):
            self.inputs = e.seq_items(v, s)
            st = s
        if self.inputs is None or len(self.inputs) != n_inputs:
            raise AnalysisBroken("the controller does not create one input controller per definition")
        self.st = st

    def mark(self, kind, res=NONE):
        def h(eng, st, args, kwargs, ctx, node):
            a = list(args) + list(kwargs.values())
            st.emit("tok", a[0], kind, tuple(a[1:]), {}, None, st.facts, eng.where(ctx, node) if ctx else "")
            return [(st, eng.sym("used%d" % st.count("client.used"), typ="bool") if res == "any" else res)]
        return h

    def receive(self, eng, st, args, kwargs):
        n = st.count("midi.receive")
        msg = eng.sym("message%d" % n, cls="message")
        out = []
        s2 = st.fork()
        st.emit("tok", self.midi, "read", (NONE,), {}, None, st.facts, "")
        out.append((st, NONE))
        s2.emit("tok", self.midi, "read", (msg,), {}, None, s2.facts, "")
        out.append((s2, msg))
        return out


def run(chk):
    chk.rule("alive", "every tick returns true and raises nothing")
    chk.rule("poll", "all inputs are polled between any two message reads and before the first one of a tick")
    chk.rule("step", "at most one message is read and at most one component is updated between two polls of all inputs")
    chk.rule("handover", "each message read is handed to the client exactly once, before the next one is read; with an empty queue the client gets its turn too")
    chk.rule("limit", "one receive phase reads until the queue is empty or the configured number of messages is reached, and never more than one message above it")
    chk.rule("updates", "when the interval is exceeded every component is updated exactly once in order, otherwise none")
    chk.rule("drain", "start-up discards stale messages until the queue is empty if configured (default), and only then")
    chk.rule("timer", "a period counter reports true after its interval has passed since its last reset or true report, and only then")
    configs = [(0, 0, 2, False, False), (1, 1, 1, False, False), (2, 2, 1, False, False), (3, 1, 2, True, False), (2, 1, 2, False, True), (2, 0, None, False, False)]
    if chk.thorough:
        configs += [(4, 1, 3, True, True), (2, 3, 1, True, False), (5, 2, 2, False, False)]
    for cf in configs:
        ticks(chk, *cf)
    for clear in (None, True, False):
        drain(chk, clear)
    timer(chk)
    chk.floor("poll", 50)
    chk.floor("updates", 10)


def ticks(chk, n_inputs, n_upd, limit, protocol, debug):
    w = World(chk, n_inputs, n_upd, limit, protocol, debug)
    lab, e = w.lab, w.lab.e
    lim = 10 if limit is None else limit
    name = "%d inputs, %d components, limit %s%s%s" % (n_inputs, n_upd, limit, " with protocol" if protocol else "", " with statistics" if debug else "")
    for s0, v0 in must(lab, lab.get(w.obj, "updateables", w.st), "updateables"):
        order = e.seq_items(v0, s0)
    own = list(order)
    chk.ob("updates", name + " registered", len(set(own)) == len(own) and set(w.upd) <= set(own) and len(own) == n_upd + protocol + debug,
           "%d components registered, expected %d" % (len(own), n_upd + protocol + debug))
    main_period = None
    for s0, v0 in lab.get(w.obj, "period", w.st):
        main_period = v0

    def steps(st, spec):
        return [("tick", tick)]

    def tick(st):
        out = []
        for s, v in lab.method(w.obj, "tick", st=st):
            judge(s, v)
            out.append((s, v, "running"))
        return out

    def judge(s, v):
        if isinstance(v, Raise):
            chk.ob("alive", name, False, "tick raises %s %s" % (v.exc, v.msg), v.where)
            return
        for s2, t in e.truth(v, s):
            chk.ob("alive", name, t is True, "tick() can return a false value: the endless loop ends")
        toks = [x for x in s.trace() if x.kind == "tok"]
        exc = [s.facts.get(("truth", x.res)) for x in s.trace() if x.kind == "period" and x.name == "exceeded" and x.recv == main_period]
        due = True in exc
        ups = [x.recv for x in toks if x.name == "update"]
        chk.ob("updates", name + (" due" if due else " not due"), ups == (own if due else []),
               "%d component updates (in order: %s), expected %d" % (len(ups), ups == own[:len(ups)], len(own) if due else 0))
        polled = set()
        phase = 0
        reads = nups = 0
        pending = None
        client_turns = 0
        for i, x in enumerate(toks):
            if x.name == "poll":
                polled.add(x.recv)
                if len(polled) == len(w.inputs):
                    # a complete poll: starts a new observation window
                    if reads or nups:
                        reads = nups = 0
            elif x.name == "read":
                chk.ob("poll", name, polled >= set(w.inputs), "a message is read although %d of %d inputs were not polled since the previous read" % (
                    len(set(w.inputs) - polled), len(w.inputs)), x.where)
                reads += 1
                if w.inputs:
                    chk.ob("step", name, reads <= 1, "%d messages read between two polls" % reads)
                chk.ob("handover", name, pending is None, "a message is read while the previous one was not handed to the client")
                pending = x.args[0] if x.args[0] != NONE else None
                polled = set()
                phase += 1
                chk.ob("limit", name + " upper", phase <= lim + 1, "%d messages read in one go, configured are %d" % (phase, lim))
                last = x.args[0]
            elif x.name == "client":
                client_turns += 1
                a = x.args[0] if x.args else NONE
                if pending is not None:
                    chk.ob("handover", name, a == pending, "another message is handed to the client")
                    pending = None
                else:
                    chk.ob("handover", name, a == NONE, "a message is handed to the client twice")
            elif x.name == "update":
                nups += 1
                if w.inputs:
                    chk.ob("step", name + " update", nups <= 1, "two components are updated without polling the inputs in between")
                if phase:
                    chk.ob("limit", name + " lower", last == NONE or phase >= lim, "reading stops after %d messages although more are available" % phase)
                phase = 0
        chk.ob("handover", name + " end", pending is None, "the last message read is not handed to the client")
        chk.ob("handover", name + " turn", client_turns >= 1, "the client gets no turn in a tick without messages")
        chk.ob("limit", name + " lower", phase > 0 and (last == NONE or phase >= lim), "the last receive phase of the tick reads %d messages although more are available" % phase)
        chk.ob("poll", name + " each tick", bool(toks) and {x.recv for x in toks if x.name == "poll"} == set(w.inputs), "not all inputs are polled in a tick")

    n, t = explore(lab, [w.obj], [(w.st, "start")], steps)
    chk.notes["abstract_states"] = chk.notes.get("abstract_states", 0) + n
    chk.notes["tick_paths"] = chk.notes.get("tick_paths", 0) + t
    chk.analysed(e)


def drain(chk, clear):
    w = World(chk, 1, 0, 3, clear=clear)
    lab, e = w.lab, w.lab.e
    name = "clearBuffers %s" % clear
    n = 0
    for s, v in lab.method(w.obj, "init", st=rebase(w.st)):
        toks = [x for x in s.trace() if x.kind == "tok"]
        reads = [x.args[0] for x in toks if x.name == "read"]
        if isinstance(v, Raise):
            if v.exc == "NonTermination":
                continue
            chk.ob("drain", name, False, "init raises %s %s" % (v.exc, v.msg), v.where)
            continue
        n += 1
        if clear is False:
            chk.ob("drain", name, reads == [], "messages are read although clearing the buffers is off")
        else:
            chk.ob("drain", name, reads and reads[-1] == NONE and NONE not in reads[:-1], "start-up ends although messages are still available (or reads on after the queue is empty)")
        chk.ob("drain", name + " client", not [x for x in toks if x.name == "client" and x.args and x.args[0] != NONE], "stale messages reach the client")
    chk.ob("drain", name + " outcomes", n >= (1 if clear is False else 3), "only %d paths of init() complete" % n)
    chk.analysed(e)


def timer(chk):
    lab = Lab(volatile_period=False)
    e, st = lab.e, lab.st
    cur = [None]
    e.hooks[NOW] = lambda eng, s, args, kwargs, ctx, node: [(s, cur[0])]
    t1 = e.sym("t_reset", typ="int", lo=0)
    d1 = e.sym("d1", typ="int", lo=0)
    d2 = e.sym("d2", typ="int", lo=0)
    i = e.sym("interval", typ="int", lo=1)
    (st, p), = must(lab, lab.new(lab.cls("pyswitch.misc", "PeriodCounter"), [i], st=st), "PeriodCounter()")
    cur[0] = t1
    for s, _ in must(lab, lab.method(p, "reset", st=st), "reset"):
        for s1, v1 in lab.get(p, "passed", s):
            chk.ob("timer", "passed right after reset", v1 == c(0), "passed is %s" % (e.describe(v1, s1) if not isinstance(v1, Raise) else v1))
        cur[0] = e.from_lin(0, {t1: 1, d1: 1})
        for s1, v1 in lab.get(p, "passed", s):
            chk.ob("timer", "passed", v1 == d1 or e.to_lin(v1) == e.to_lin(d1), "passed is not the time since the reset")
        for s2, v2 in lab.get(p, "exceeded", s):
            if isinstance(v2, Raise):
                chk.ob("timer", "first read", False, "raises %s" % v2.exc, v2.where)
                continue
            for s3, on in e.truth(v2, s2):
                for s4, late in e.less(i, d1, True, s3, None, None):
                    for s5, early in e.less(d1, i, True, s4, None, None):
                        if late:
                            chk.ob("timer", "after the interval", on is True, "not reported although the interval has passed")
                        if early:
                            chk.ob("timer", "before the interval", on is False, "reported before the interval has passed")
                        cur[0] = e.from_lin(0, {t1: 1, d1: 1, d2: 1})
                        for s6, v6 in lab.get(p, "exceeded", s5.fork()):
                            for s7, on2 in e.truth(v6, s6):
                                base = d2 if on else e.from_lin(0, {d1: 1, d2: 1})
                                for s8, late2 in e.less(i, base, True, s7, None, None):
                                    for s9, early2 in e.less(base, i, True, s8, None, None):
                                        if late2:
                                            chk.ob("timer", "second read after %s, interval passed" % on, on2 is True, "not reported although the interval has passed")
                                        if early2:
                                            chk.ob("timer", "second read after %s, too early" % on, on2 is False, "reported too early")
    chk.analysed(e)
