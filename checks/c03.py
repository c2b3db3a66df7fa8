"""Push-button modes: state machine of PushButtonAction, decided by abstract interpretation of every mode x state x event."""
from sa.lab import *
from sa.model import AnalysisBroken

MODES = ["ENABLE", "DISABLE", "LATCH", "MOMENTARY", "MOMENTARY_INVERSE", "HOLD_MOMENTARY", "ONE_SHOT", "NO_STATE_CHANGE"]
MOD = "pyswitch.controller.actions"


def expected(mode, ev, s, exceeded):
    """(new state, states the device is told)"""
    if ev == "push":
        if mode == "ENABLE" or mode == "MOMENTARY":
            return (True, [] if s else [True])
        if mode == "DISABLE" or mode == "MOMENTARY_INVERSE":
            return (False, [False] if s else [])
        if mode in ("LATCH", "HOLD_MOMENTARY"):
            return (not s, [not s])
        if mode == "ONE_SHOT":
            return (True, [True])
        return (s, [])
    if ev == "release":
        if mode == "MOMENTARY":
            return (False, [False] if s else [])
        if mode == "MOMENTARY_INVERSE":
            return (True, [] if s else [True])
        if mode == "HOLD_MOMENTARY" and exceeded:
            return (not s, [not s])
        if mode == "ONE_SHOT":
            return (False, [])
        return (s, [])
    if ev == "reset":
        return (False, [])
    if ev == "feedback_on":
        return (True, [])
    if ev == "feedback_off":
        return (False, [])
    if ev == "set_on":
        return (True, [] if s else [True])
    if ev == "set_off":
        return (False, [False] if s else [])


def make(lab, mode, external_period=True, extra=None, enabled=None):
    e, st = lab.e, lab.st
    told = []

    def changed(eng, s, args, kwargs):
        act = e.h(s, lab.cb).attrs.get("action")
        r = lab.get(act, "state", s) if act else [(s, NONE)]
        r[0][0].emit("told", lab.cb, "state", (r[0][1],), {}, None, s.facts, "")
        return NONE
    lab.cb = lab.bound("callback", methods={"state_changed_by_user": changed})
    cfg = {"callback": lab.cb}
    if mode is not None:
        cfg["mode"] = mode
    cfg.update(extra or {})
    lab.period = lab.bound("period", {})

    def exc(eng, s, b, name, ctx, node):
        if b == lab.period and name == "exceeded":
            v = ("r", "period.exceeded", s.count("pe"))
            eng.types[v] = "bool"
            s.emit("period", b, "exceeded", (), {}, v, s.facts, "")
            return [(s, v)]
        return None
    e.attr_hooks.append(exc)
    args = {"config": e.mkdict(st, cfg)}
    if external_period:
        args["period_counter"] = lab.period
    return lab.new(lab.cls(MOD, "PushButtonAction"), [], args)


def run(chk):
    chk.rule("mode-table", "for every mode, prior state and event the resulting state and the states sent to the device equal the documented table")
    chk.rule("order", "the device is told after the new state is visible and the displays are refreshed after every state change by the user")
    chk.rule("hold-timer", "HOLD_MOMENTARY restarts its timer on push and decides on release by that timer; no other mode depends on it")
    chk.rule("default", "the default mode is HOLD_MOMENTARY with the configured hold time (600 ms when absent)")
    nst = ntr = 0
    for mode in MODES + [None]:
        lab = Lab(volatile_period=False)
        pba = lab.cls(MOD, "PushButtonAction")
        m = None if mode is None else lab.e.class_attr(pba, mode)
        if mode is not None and (m is None or m[0] != "c"):
            raise AnalysisBroken("mode constant PushButtonAction.%s vanished" % mode)
        for st, act in must(lab, make(lab, m), "PushButtonAction()"):
            appl, sw = lab.bound("appl", st=st), lab.bound("switch", st=st)
            for st1, _ in must(lab, lab.method(act, "init", [appl, sw], st=st), "init"):
                for st2, got in must(lab, lab.get(act, "state", st1), "state"):
                    chk.ob("mode-table", "PushButtonAction[%s] initial state" % mode, got == FALSE, "initial state is not off")

                def steps(s, spec):
                    return [(ev, (lambda s1, ev=ev: one(chk, lab, s1, act, mode or "HOLD_MOMENTARY", spec, ev, mode is None)))
                            for ev in ("push", "release", "reset", "feedback_on", "feedback_off", "set_on", "set_off")]
                n, t = explore(lab, [act], [(st1, False)], steps)
                nst += n
                ntr += t
        chk.analysed(lab.e)
    chk.notes["abstract_states"], chk.notes["transitions"] = nst, ntr
    # hold time plumbing
    for given in (None, 250):
        lab = Lab(volatile_period=True)
        seen = []

        def ctor(eng, st, args, kwargs, ctx, node):
            v = (list(args) + list(kwargs.values()))[0]
            st.emit("period-new", None, "interval", (v,), {}, None, st.facts, eng.where(ctx, node) if ctx else "")
            return None
        lab.e.hooks[PERIOD] = ctor
        for st, act in must(lab, make(lab, None, False, {} if given is None else {"holdTimeMillis": c(given)}), "PushButtonAction()"):
            ivs = [ev.args[0] for ev in st.trace() if ev.kind == "period-new"]
            want = c(600 if given is None else given)
            chk.ob("default", "holdTimeMillis=%s" % given, ivs == [want], "hold timer interval is %s, expected %s" % (
                [lab.e.describe(v) for v in ivs], want[2]))
    chk.floor("mode-table", 100)


def one(chk, lab, st, act, mode, s0, ev, default):
    e = lab.e
    cons = "PushButtonAction[%s%s] %s from %s" % (mode, " by default" if default else "", ev, "on" if s0 else "off")
    if ev in ("push", "release", "reset"):
        res = lab.method(act, ev, st=st)
    elif ev.startswith("feedback"):
        res = lab.method(act, "feedback_state", [c(ev == "feedback_on")], st=st)
    else:
        res = [(s, r if r is not None else NONE) for s, r in lab.set(act, "state", c(ev == "set_on"), st=st)]
    out = []
    for s, v in res:
        if isinstance(v, Raise):
            chk.ob("mode-table", cons, False, "raises %s: %s" % (v.exc, v.msg), v.where)
            continue
        out.append((s, v, expected(mode, ev, s0, None)[0]))
        tr = s.trace()
        reads = [x for x in tr if x.kind == "period"]
        exceeded = None
        if reads:
            exceeded = s.facts.get(("truth", reads[-1].res))
        if mode == "HOLD_MOMENTARY" and ev == "release":
            chk.ob("hold-timer", cons, exceeded is not None, "release does not decide by the hold timer")
        want_state, want_told = expected(mode, ev, s0, exceeded)
        out[-1] = (s, v, want_state)
        told = [x.args[0] for x in tr if x.kind == "told"]
        for s2, got in lab.get(act, "state", s):
            chk.ob("mode-table", cons + ("" if exceeded is None else " held=%s" % exceeded),
                   got == c(want_state) and told == [c(x) for x in want_told],
                   "state %s, device told %s; expected state %s, told %s" % (
                       e.describe(got), [e.describe(x) for x in told], want_state, want_told))
        if mode == "HOLD_MOMENTARY" and ev == "push":
            chk.ob("hold-timer", cons, len(calls(tr, lab.period, "reset")) >= 1, "push does not restart the hold timer")
        if told:
            last = max(i for i, x in enumerate(tr) if x.kind == "told")
            chk.ob("order", cons, any(x.kind == "call" and x.recv == lab.cb and x.name == "update_displays" for x in tr[last + 1:]),
                   "displays are not refreshed after the state change")
    return out
