"""Foot switch and continuous input dispatch: typestate of SwitchController / ContinuousController against the documented protocol."""
from sa.lab import *
from sa.model import AnalysisBroken

MOD = "pyswitch.controller.inputs"


class Rig:
    """abstract switch with two short actions (one nested in a list) and optionally two hold actions"""

    def __init__(self, hold, repeat, override=None, nohold_key=False):
        self.hold, self.repeat, self.override = hold, repeat, override
        lab = self.lab = Lab(volatile_period=False)
        e, st = lab.e, lab.st
        self.model = lab.bound("switch-model", {"pushed": FALSE})
        self.acts = [lab.bound("action%d" % i, {"enabled": TRUE}) for i in (1, 2)]
        self.holds = [lab.bound("hold%d" % i, {"enabled": TRUE}) for i in (1, 2)] if hold else []
        cfg = {"assignment": e.mkdict(st, {"model": self.model}),
               "actions": e.mklist(st, [self.acts[0], e.mklist(st, [self.acts[1]])])}
        if hold:
            cfg["actionsHold"] = e.mklist(st, [e.mklist(st, [self.holds[0]]), self.holds[1]])
        if repeat is not None:
            cfg["holdRepeat"] = c(repeat)
        self.period = lab.bound("hold-period")
        e.attr_hooks.append(self._exceeded)
        self.appl = lab.bound("appl")
        sc = lab.cls(MOD, "SwitchController")
        (s, obj), = must(lab, lab.new(sc, [self.appl, e.mkdict(st, cfg)], {"period_counter_hold": self.period}), "SwitchController()")
        self.obj = obj
        self.init_state = s
        self.ov = None
        if override:
            push, release = override
            self.ov = lab.bound("override", st=s, methods={"push": lambda *a: c(push), "release": lambda *a: c(release)})
            for s, _ in lab.set(obj, "override_action", self.ov, st=s):
                self.init_state = s

    def _exceeded(self, eng, st, b, name, ctx, node):
        if b == self.period and name == "exceeded":
            v = ("r", "hold.exceeded", st.count("he"))
            eng.types[v] = "bool"
            st.emit("period", b, "exceeded", (), {}, v, st.facts, "")
            return [(st, v)]
        return None

    def events(self, tr):
        names = {}
        for i, a in enumerate(self.acts):
            names[a] = "a%d" % (i + 1)
        for i, a in enumerate(self.holds):
            names[a] = "h%d" % (i + 1)
        if self.ov:
            names[self.ov] = "ov"
        return [(names[x.recv], x.name) for x in tr if x.kind == "call" and x.recv in names and x.name in ("push", "release")]


def seq_of(names, what):
    return [(n, w) for n in names for w in what]


def run(chk):
    chk.rule("dispatch", "press and release drive exactly the documented push/release calls, once per physical edge, in order, skipping disabled actions")
    chk.rule("hold-exclusive", "with hold actions a press ends in either the hold actions or the short actions, decided by the hold timer, and leaves the switch ready for the next press")
    chk.rule("override", "an override action gets the edges first and its result decides whether the normal actions see them")
    chk.rule("init", "every action (nested lists flattened) is initialised once with application and switch, registered for updates and displayed")
    chk.rule("continuous", "every enabled action of a pedal or encoder gets each polled value once, in order")
    chk.rule("timer", "the hold timer is restarted by the press that it judges")
    tot = [0, 0]
    for hold, repeat in ((False, None), (True, None), (True, False), (True, True)):
        for ov in (None, (True, True), (False, False), (True, False), (False, True)):
            if ov in ((True, False), (False, True)) and hold:
                continue
            rig = Rig(hold, repeat, ov)
            n, t = explore_switch(chk, rig)
            tot[0] += n
            tot[1] += t
            chk.analysed(rig.lab.e)
        rig = Rig(hold, repeat, None)
        n, t = explore_changing(chk, rig)
        tot[0] += n
        tot[1] += t
        chk.analysed(rig.lab.e)
    chk.notes["abstract_states"], chk.notes["transitions"] = tot
    init(chk)
    continuous(chk)
    hold_time(chk)
    chk.floor("dispatch", 20)
    chk.floor("hold-exclusive", 20)


def explore_switch(chk, rig):
    lab, e = rig.lab, rig.lab.e
    # spec: (pressed, swallowed, fired, en) ; fired: hold actions already fired in this press
    start = (False, False, False)

    def steps(st, spec):
        out = []
        for pushed in (True, False):
            for en in (((True, True)), ((False, True)), ((True, False))):
                out.append((("down" if pushed else "up", en),
                            (lambda s, pushed=pushed, en=en: step(s, spec, pushed, en))))
        return out

    def step(st, spec, pushed, en):
        for a, v in zip(rig.acts, en):
            e.hw(st, a).attrs["enabled"] = c(v)
        for a, v in zip(rig.holds, en):
            e.hw(st, a).attrs["enabled"] = c(v)
        e.hw(st, rig.model).attrs["pushed"] = c(pushed)
        out = []
        for s, v in lab.method(rig.obj, "process", st=st):
            out.append((s, v, judge(s, v, spec, pushed, en)))
        return out

    cfg = "SwitchController%s%s" % (("[hold%s]" % ("+repeat" if rig.repeat else "")) if rig.hold else "[short only]",
                                    "" if not rig.override else " override(push->%s, release->%s)" % rig.override)

    def judge(s, v, spec, pushed, en):
        pressed, swallowed, fired = spec
        cons = "%s %s->%s%s enabled=%s" % (cfg, "down" if pressed else "up", "down" if pushed else "up", " after hold fired" if fired else "", en)
        if isinstance(v, Raise):
            chk.ob("dispatch", cons, False, "raises %s: %s" % (v.exc, v.msg), v.where)
            return None
        tr = s.trace()
        ev = rig.events(tr)
        acts = ["a%d" % (i + 1) for i in (0, 1) if en[i]]
        holds = ["h%d" % (i + 1) for i in (0, 1) if en[i]]
        reads = [s.facts.get(("truth", x.res)) for x in tr if x.kind == "period"]
        exceeded = any(r is True for r in reads)
        ovev = [x for x in ev if x[0] == "ov"]
        rest = [x for x in ev if x[0] != "ov"]
        edge = pressed != pushed
        rule = "hold-exclusive" if rig.hold else "dispatch"
        nspec = (pushed, swallowed, fired)
        # override
        if rig.override:
            want = ([("ov", "push" if pushed else "release")] if edge else [])
            chk.ob("override", cons, ovev == want, "override calls %s, expected %s" % (ovev, want))
            if edge:
                cont = rig.override[0] if pushed else rig.override[1]
                if not cont:
                    chk.ob("override", cons + " swallowed", rest == [], "actions called although the override swallowed the event: %s" % rest)
                    return (pushed, pushed, False)
                nspec = (pushed, False, fired)
            elif swallowed:
                chk.ob("override", cons + " idle", rest == [], "actions called while swallowed: %s" % rest)
                return (pushed, swallowed, fired)
        if not edge:
            if pushed and rig.hold:
                pending = not fired or rig.repeat
                if pending:
                    chk.ob("hold-exclusive", cons + " polls timer", len(reads) > 0, "the hold timer is not evaluated while the switch is held")
                    want = seq_of(holds, ("push", "release")) if exceeded else []
                    chk.ob("hold-exclusive", cons + " exceeded=%s" % exceeded, rest == want, "calls %s, expected %s" % (rest, want))
                    return (True, False, fired or exceeded)
                chk.ob("hold-exclusive", cons, rest == [], "hold actions fire again without holdRepeat: %s" % rest)
                return nspec
            chk.ob("dispatch", cons, rest == [], "actions called without an edge: %s" % rest)
            return nspec
        if pushed:
            if rig.hold:
                chk.ob("hold-exclusive", cons, rest == [], "actions called on press although hold actions exist: %s" % rest)
                chk.ob("timer", cons, len(calls(tr, rig.period, "reset")) >= 1, "the hold timer is not restarted by the press")
            else:
                want = seq_of(acts, ("push",))
                chk.ob("dispatch", cons, rest == want, "calls %s, expected %s" % (rest, want))
            return (True, False, False)
        # release
        if not rig.hold:
            want = seq_of(acts, ("release",))
            if rig.override and rig.override[0] is False:
                pass
            chk.ob("dispatch", cons, rest == want, "calls %s, expected %s" % (rest, want))
            return (False, False, False)
        short = [("a%d" % (i + 1), w) for i in (0, 1) if en[i] for w in ("push", "release")]
        hold = seq_of(holds, ("push", "release"))
        if fired:
            # nothing, or (with repeat) one more round of the hold actions
            ok = rest == [] or (rig.repeat and rest == hold)
            chk.ob(rule, cons, ok, "calls %s after the hold actions already ran" % rest)
        elif swallowed:
            pass
        else:
            chk.ob(rule, cons + " timer", len(reads) > 0, "release does not evaluate the hold timer")
            want = hold if exceeded else short
            chk.ob(rule, cons + " exceeded=%s" % exceeded, rest == want, "calls %s, expected %s" % (rest, want))
        return (False, False, False)

    return explore(lab, [rig.obj], [(rig.init_state, start)], steps)


def explore_changing(chk, rig):
    """override actions which are installed and removed at any time, also while the switch is held"""
    lab, e = rig.lab, rig.lab.e
    OV = {None: None}
    for pol in ((True, True), (False, False)):
        OV[pol] = lab.bound("override%s" % (pol,), st=rig.init_state, methods={"push": lambda *a, p=pol: c(p[0]), "release": lambda *a, p=pol: c(p[1])})

    def steps(st, spec):
        return [("x", lambda s, p=p, o=o: step(s, spec, p, o)) for p in (True, False) for o in OV]

    def step(st, spec, pushed, pol):
        e.hw(st, rig.model).attrs["pushed"] = c(pushed)
        (st, _), = must(lab, lab.set(rig.obj, "override_action", OV[pol] or NONE, st=st), "override_action")
        return [(s, v, judge(s, v, spec, pushed, pol)) for s, v in lab.method(rig.obj, "process", st=rebase(st, st.facts))]

    def judge(s, v, spec, pushed, pol):
        pressed, mode, fired = spec
        cons = "SwitchController%s: %s with override %s, press %s%s" % (
            "[hold%s]" % ("+repeat" if rig.repeat else "") if rig.hold else "[short only]", ("held" if pressed else "pressed") if pushed else "released" if pressed else "idle", pol, mode, ", hold actions fired" if fired else "")
        if isinstance(v, Raise):
            chk.ob("override", cons, False, "raises %s: %s" % (v.exc, v.msg), v.where)
            return None
        tr = s.trace()
        rest = rig.events(tr)
        reads = [s.facts.get(("truth", x.res)) for x in tr if x.kind == "period"]
        exceeded = any(r is True for r in reads)
        short = seq_of(("a1", "a2"), ("push", "release"))
        hold = seq_of(("h1", "h2"), ("push", "release"))
        ovc = [(x.recv, x.name) for x in tr if x.kind == "call" and x.recv in OV.values() and x.name in ("push", "release")]
        edge = pressed != pushed
        chk.ob("override", cons + " edges", ovc == ([(OV[pol], "push" if pushed else "release")] if edge and pol else []), "override calls %s" % [n for _, n in ovc])
        if not edge:
            if not pushed or mode == "swallowed" or not rig.hold:
                chk.ob("override", cons, rest == [], "actions called: %s" % rest)
            elif pol is None or pol[0]:
                if not fired or rig.repeat:
                    chk.ob("override", cons + " exceeded=%s" % exceeded, rest == (hold if exceeded else []), "calls %s" % rest)
                else:
                    chk.ob("override", cons, rest == [], "calls %s" % rest)
            return (pushed, mode, fired or bool(rest))
        if pushed:
            cont = pol is None or pol[0]
            want = [] if rig.hold or not cont else seq_of(("a1", "a2"), ("push",))
            chk.ob("override", cons, rest == want, "calls %s, expected %s" % (rest, want))
            return (True, "delivered" if cont else "swallowed", False)
        if pol is not None and not pol[1]:
            chk.ob("override", cons, rest == [], "calls %s although the override swallowed the release" % rest)
        elif rig.hold:
            if mode == "swallowed":
                want = [[]]
            elif fired:
                want = [[], hold] if rig.repeat else [[]]
            else:
                want = [hold if exceeded else short]
            chk.ob("override", cons + " exceeded=%s" % exceeded, rest in want, "calls %s, expected %s" % (rest, want[0]))
        elif mode == "delivered":
            chk.ob("override", cons, rest == seq_of(("a1", "a2"), ("release",)), "calls %s" % rest)
        elif mode == "swallowed" and pol is None:
            chk.ob("override", cons, rest == [], "the actions see a release without their push: %s" % rest)
        return (False, "none", False)

    return explore(lab, [rig.obj], [(rig.init_state, (False, "none", False))], steps)


def init(chk):
    rig = Rig(True, None)
    lab, e = rig.lab, rig.lab.e
    tr = rig.init_state.trace()
    chk.ob("init", "switch model", len(calls(tr, rig.model, "init")) == 1, "the switch hardware is not initialised exactly once")
    for a in rig.acts + rig.holds:
        n = e.describe(a, rig.init_state)
        inits = calls(tr, a, "init")
        chk.ob("init", n + " init", len(inits) == 1 and list(inits[0].args)[:1] == [rig.appl] and rig.obj in inits[0].args,
               "init(appl, switch) called %d times with %s" % (len(inits), [e.describe(x, rig.init_state) for i in inits for x in i.args]))
        ups = [x for x in calls(tr, rig.appl, "add_updateable") if a in x.args]
        chk.ob("init", n + " updateable", len(ups) == 1, "not registered for periodic updates exactly once")
        chk.ob("init", n + " display", len(calls(tr, a, "update_displays")) >= 1, "not displayed initially")
    for s, v in lab.get(rig.obj, "actions", rig.init_state):
        items = e.seq_items(v, s) if not isinstance(v, Raise) else None
        chk.ob("init", "SwitchController.actions", items == rig.acts + rig.holds, "actions is %s" % (e.describe(v, s) if not isinstance(v, Raise) else v))


def continuous(chk):
    for kind in ("value", "position"):
        lab = Lab()
        e, st = lab.e, lab.st
        val = e.sym("reading", typ="int")
        model = lab.bound("input-model", {kind: val}, open=False, methods={"init": lambda *a: NONE})
        e.hw(st, model).attrs["init"] = ("s", "model.init")
        acts = [lab.bound("action%d" % i, {"enabled": TRUE}) for i in (1, 2, 3)]
        e.hw(st, acts[1]).attrs["enabled"] = FALSE
        appl = lab.bound("appl")
        cfg = e.mkdict(st, {"assignment": e.mkdict(st, {"model": model}),
                            "actions": e.mklist(st, [acts[0], e.mklist(st, [acts[1], acts[2]])])})
        for s, obj in must(lab, lab.new(lab.cls(MOD, "ContinuousController"), [appl, cfg]), "ContinuousController()"):
            inits = [len(calls(s.trace(), a, "init")) for a in acts]
            chk.ob("continuous", kind + " init", inits == [1, 1, 1], "actions initialised %s times" % inits)
            s = rebase(s)
            for s2, v in lab.method(obj, "process", st=s):
                if isinstance(v, Raise):
                    chk.ob("continuous", kind + " process", False, "raises %s %s" % (v.exc, v.msg), v.where)
                    continue
                got = [(x.recv, x.args) for x in s2.trace() if x.kind == "call" and x.name == "process"]
                want = [(acts[0], (val,)), (acts[2], (val,))]
                chk.ob("continuous", kind + " process", got == want, "process calls: %s" % [(e.describe(a, s2), [e.describe(x) for x in b]) for a, b in got])
        chk.analysed(lab.e)


def hold_time(chk):
    for given in (None, 250):
        lab = Lab()
        e, st = lab.e, lab.st

        def ctor(eng, s, args, kwargs, ctx, node):
            s.emit("period-new", None, "interval", ((list(args) + list(kwargs.values()))[0],), {}, None, s.facts, "")
        e.hooks[PERIOD] = ctor
        cfg = {"assignment": e.mkdict(st, {"model": lab.bound("m", {"pushed": FALSE})}), "actions": e.mklist(st, []),
               "actionsHold": e.mklist(st, [lab.bound("h", {"enabled": TRUE})])}
        if given:
            cfg["holdTimeMillis"] = c(given)
        for s, v in must(lab, lab.new(lab.cls(MOD, "SwitchController"), [lab.bound("appl"), e.mkdict(st, cfg)]), "SwitchController()"):
            iv = [x.args[0] for x in s.trace() if x.kind == "period-new"]
            chk.ob("timer", "holdTimeMillis=%s" % given, iv == [c(given or 600)], "hold interval %s" % [e.describe(x) for x in iv])
