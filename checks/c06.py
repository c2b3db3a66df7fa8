"""Parameter request life cycle: typestate of the client's request table with two listeners and volatile timers."""
from checks.common import *

NOW = "pyswitch.misc.get_current_millis"
LIFE = 2000


def message(lab, st, cls, *args):
    (s, v), = must(lab, lab.e.call(("x", cls), [build(lab, a, st) for a in args], {}, st, None, None), cls)
    return v


def real_mapping(lab, st, name, **kw):
    ci = lab.cls(CLI, kw.pop("cls", "ClientParameterMapping"))
    fi = ci.find("get")
    (s, m), = must(lab, lab.e.call(lab.e.fv(fi), [], dict({"name": c(name)}, **kw), st, None, None), "mapping get()")
    assert s is st or True
    return s, m


def listener(lab, name, seen_attr="value"):
    o = lab.bound(name)

    def handler(kind):
        def h(eng, s, args, kwargs):
            m = (list(args) + list(kwargs.values()))[0]
            for s2, v in lab.get(m, "value", s):
                s2.emit("notified", o, kind, (m, v), {}, None, s2.facts, "")
            return NONE
        return h
    lab.handlers[(o, "parameter_changed")] = handler("changed")
    lab.handlers[(o, "request_terminated")] = handler("terminated")
    return o


def periods(lab, s):
    """{period object: truth of its `exceeded` read in this window}"""
    out = {}
    for x in s.trace():
        if x.kind == "period" and x.name == "exceeded":
            out[x.recv] = bool(out.get(x.recv)) or s.facts.get(("truth", x.res)) is True
    return out


def interval(lab, s, p):
    for s2, v in lab.get(p, "interval", s):
        return plain(lab, v, s2)


class World:
    def __init__(self, reqlist=False):
        lab = self.lab = Lab()
        e, st = lab.e, lab.st
        self.midi = lab.bound("midi")
        self.l = [listener(lab, "listener%d" % i) for i in (1, 2)]
        self.req = {"A": message(lab, st, SX, [0, 1, 2], [9, 1, 1, 1, 1, 1]), "B": message(lab, st, SX, [0, 1, 2], [9, 1, 1, 1, 1, 2])}
        self.req2 = message(lab, st, SX, [0, 1, 2], [9, 1, 1, 1, 1, 3])
        self.m = {}
        areq = e.mklist(st, [self.req["A"], NONE, self.req2]) if reqlist else self.req["A"]
        self.areq = [self.req["A"], self.req2] if reqlist else [self.req["A"]]
        st, self.m["A"] = real_mapping(lab, st, "A", request=areq, response=message(lab, st, CC, 5, 0))
        st, self.m["B"] = real_mapping(lab, st, "B", request=self.req["B"], response=message(lab, st, CC, 6, 0))
        st, self.m["P"] = real_mapping(lab, st, "P", response=message(lab, st, CC, 8, 0))
        st, self.m["N"] = real_mapping(lab, st, "N", request=self.req["B"])
        st, self.m["S"] = real_mapping(lab, st, "S", set=message(lab, st, CC, 11, 0))
        (st, self.cl), = must(lab, lab.new(lab.cls(CLI, "Client"), [self.midi, build(lab, {"maxRequestLifetimeMillis": LIFE}, st)], st=st), "Client()")
        self.st = st
        self.msgs = {k: message(lab, st, CC, n, e.sym("value" + k, typ="int", lo=0, hi=127)) for k, n in (("A", 5), ("B", 6), ("P", 8), ("?", 77))}
        self.val = {k: e.sym("value" + k, typ="int", lo=0, hi=127) for k in "ABP?"}

    def sent(self, s):
        return [x.args[0] for x in calls(s.trace(), self.midi, "send")]

    def notes(self, s):
        return [(self.l.index(x.recv), x.name) + tuple(x.args) for x in s.trace() if x.kind == "notified"]


def run(chk):
    chk.rule("query", "a request sends its message(s) exactly once when nothing is pending and nothing otherwise")
    chk.rule("answer", "an answer notifies every registered listener exactly once with the value already stored")
    chk.rule("timeout", "a request whose lifetime is exceeded terminates every listener exactly once and is dropped")
    chk.rule("table", "the request table holds exactly the pending requests and subscriptions")
    chk.rule("foreign", "messages matching no pending request change and notify nothing")
    chk.rule("lifetime", "a request is only terminated after its configured lifetime and at the next clean-up after it")
    chk.rule("depends", "a dependent parameter is queried when its dependency changed, for every requester")
    for reqlist in (False, True):
        table(chk, reqlist)
    lifetime(chk)
    depends(chk)
    shared(chk)
    chk.floor("query", 20)
    chk.floor("answer", 20)
    chk.floor("timeout", 10)


def table(chk, reqlist):
    w = World(reqlist)
    lab, e = w.lab, w.lab.e
    keys = "ABP"

    def steps(st, spec):
        out = []
        if reqlist:
            return [("request", lambda s, who=who: request(s, spec, "A", who)) for who in (0, 1, None)] + [
                ("receive", lambda s, k=k: receive(s, spec, k)) for k in ("A", "?", None)]
        for k in "AB":
            for who in (0, 1, None) if k == "A" else (0,):
                out.append(("request", lambda s, k=k, who=who: request(s, spec, k, who)))
        for k in "NS":
            out.append(("request", lambda s, k=k: inert(s, spec, k)))
        for who in (0, 1):
            out.append(("register", lambda s, who=who: register(s, spec, who)))
        for k in ("A", "B", "P", "?", None):
            out.append(("receive", lambda s, k=k: receive(s, spec, k)))
        return out

    def show(spec):
        return ", ".join("%s:%s" % (k, "-" if v is None else "pending for %d listener(s)" % len(v)) for k, v in zip(keys, spec))

    def fail(s, v, rule, cons):
        if isinstance(v, Raise):
            chk.ob(rule, cons, False, "raises %s %s" % (v.exc, v.msg), v.where)
            return True

    def check_table(s, n, cons):
        for s2, v in lab.get(w.cl, "requests", s):
            if isinstance(v, Raise):
                continue
            it = e.seq_items(v, s2)
            if it is not None:
                chk.ob("table", cons, len(it) == sum(1 for x in n if x is not None),
                       "%d requests in the table, expected %d" % (len(it), sum(1 for x in n if x is not None)))

    def request(s, spec, k, who):
        i = keys.index(k)
        cons = "request %s by %s with %s%s" % (k, "nobody" if who is None else "listener%d" % (who + 1), show(spec), " (list of messages)" if reqlist else "")
        out = []
        for s2, v in lab.method(w.cl, "request", [w.m[k]] + ([] if who is None else [w.l[who]]), st=s):
            if fail(s2, v, "query", cons):
                continue
            cur = spec[i]
            n = list(spec)
            n[i] = (cur or ()) + (() if who is None or (cur and who in cur) else (who,))
            want = [] if cur is not None else (w.areq if k == "A" else [w.req[k]])
            got = w.sent(s2)
            chk.ob("query", cons, got == want and not w.notes(s2), "sent %d message(s), expected %d; notified %s" % (len(got), len(want), w.notes(s2)))
            check_table(s2, n, cons)
            out.append((s2, v, tuple(n)))
        return out

    def inert(s, spec, k):
        cons = "request of a parameter without %s with %s" % ("response" if k == "N" else "request", show(spec))
        out = []
        for s2, v in lab.method(w.cl, "request", [w.m[k], w.l[0]], st=s):
            if fail(s2, v, "query", cons):
                continue
            chk.ob("query", cons, not w.sent(s2) and not w.notes(s2), "a message was sent")
            check_table(s2, spec, cons)
            out.append((s2, v, spec))
        return out

    def register(s, spec, who):
        cons = "register listener%d with %s" % (who + 1, show(spec))
        out = []
        for s2, v in lab.method(w.cl, "register", [w.m["P"], w.l[who]], st=s):
            if fail(s2, v, "query", cons):
                continue
            cur = spec[2]
            n = (spec[0], spec[1], (cur or ()) + (() if cur and who in cur else (who,)))
            chk.ob("query", cons, not w.sent(s2), "a message was sent for a subscription")
            check_table(s2, n, cons)
            # registering a requestable parameter is redundant
            out.append((s2, v, n))
        return out

    def receive(s, spec, k):
        cons = "receive %s with %s" % ("nothing" if k is None else ("foreign message" if k == "?" else "answer " + k), show(spec))
        for kk in keys:
            hset(lab, s, w.m[kk], "value", c("old"))
        out = []
        for s2, v in lab.method(w.cl, "receive", [NONE if k is None else w.msgs[k]], st=s):
            if fail(s2, v, "answer", cons):
                continue
            per = periods(lab, s2)
            due = any(t for p, t in per.items() if interval(lab, s2, p) != LIFE)
            lifes = {p: t for p, t in per.items() if interval(lab, s2, p) == LIFE}
            nexp = sum(1 for t in lifes.values() if t)
            notes = w.notes(s2)
            term = {}
            for x in notes:
                if x[1] == "terminated":
                    term.setdefault(x[2], []).append(x[0])
            n = list(spec)
            dropped = set()
            for i, kk in enumerate(keys):
                t = term.pop(w.m[kk], None)
                if kk == "P":
                    chk.ob("timeout", cons + " subscription", t is None, "a subscription was terminated")
                    continue
                if t is not None:
                    chk.ob("timeout", cons + " terminated " + kk, spec[i] is not None and sorted(t) == sorted(spec[i]),
                           "terminated for listeners %s, registered %s" % (t, spec[i]))
                    dropped.add(kk)
                    n[i] = None
            # silent drops: pending without listeners cannot be observed through notifications
            if due:
                npend = sum(1 for kk in "AB" if spec[keys.index(kk)] is not None)
                chk.ob("timeout", cons + " clean-up due", len(lifes) == npend, "%d of %d pending requests checked for timeout" % (len(lifes), npend))
            chk.ob("timeout", cons + " never early", not dropped or nexp >= len(dropped), "requests terminated although their lifetime is not exceeded")
            want_term = sum(1 for kk in "AB" if spec[keys.index(kk)])
            unlistened = [kk for kk in "AB" if spec[keys.index(kk)] == ()]
            if nexp > len(dropped):
                chk.ob("timeout", cons + " exceeded", len(dropped) + len(unlistened) >= nexp, "%d lifetimes exceeded but only %d requests terminated" % (nexp, len(dropped)))
                for kk in unlistened:
                    if nexp == len(dropped) + len(unlistened):
                        n[keys.index(kk)] = None
                        dropped.add(kk)
                    else:
                        return out
            # answer
            ans = [x for x in notes if x[1] == "changed"]
            if k in ("A", "B", "P") and spec[keys.index(k)] is not None and k not in dropped:
                i = keys.index(k)
                want = [(l, "changed", w.m[k], w.val[k]) for l in spec[i]]
                chk.ob("answer", cons, sorted(ans, key=repr) == sorted(want, key=repr), "notified %s, expected %s" % (
                    [(x[0] + 1, e.describe(x[3], s2)) for x in ans], [(x[0] + 1, e.describe(x[3], s2)) for x in want]))
                for s3, got in lab.get(w.m[k], "value", s2):
                    chk.ob("answer", cons + " stored", got == w.val[k], "value stored is %s" % e.describe(got, s3))
                for s3, t in e.truth(v, s2):
                    chk.ob("answer", cons + " reported", t is True, "receive() does not report the message as used")
                if k != "P":
                    n[i] = None
            else:
                chk.ob("foreign", cons, ans == [], "notified %s" % ans)
                for s3, t in e.truth(v, s2):
                    chk.ob("foreign", cons + " reported", t is False, "receive() reports an unmatched message as used")
            for kk in keys:
                if kk != k or spec[keys.index(kk)] is None:
                    for s3, got in lab.get(w.m[kk], "value", s2):
                        chk.ob("foreign", cons + " value of " + kk, got == c("old"), "value of %s changed to %s" % (kk, e.describe(got, s3)))
            chk.ob("query", cons + " sends", not w.sent(s2), "receiving sends messages")
            check_table(s2, n, cons)
            out.append((s2, v, tuple(n)))
        return out

    n, t = explore(lab, [w.cl], [(w.st, (None, None, None))], steps)
    chk.notes["abstract_states"] = chk.notes.get("abstract_states", 0) + n
    chk.notes["transitions"] = chk.notes.get("transitions", 0) + t
    chk.analysed(e)


def clock(lab):
    """successive reads of the clock are non-decreasing symbols; returns the list filled per state through events"""
    e = lab.e

    def now(eng, st, args, kwargs, ctx, node):
        v = st.now
        st.emit("clock", None, "now", (), {}, v, st.facts, "")
        return [(st, v)]
    e.hooks[NOW] = now


def lifetime(chk):
    """linear facts over clock readings instead of volatile timers"""
    for first in (True, False):
        lab = Lab(volatile_period=False)
        e, st = lab.e, lab.st
        cur = [None]
        e.hooks[NOW] = lambda eng, s, args, kwargs, ctx, node: [(s, cur[0])]
        midi = lab.bound("midi")
        l = listener(lab, "listener")
        t0 = e.sym("t_create", typ="int", lo=0)
        d1 = e.sym("t_request", typ="int", lo=0)
        d2 = e.sym("waited", typ="int", lo=0)
        cur[0] = t0
        st, m = real_mapping(lab, st, "A", request=message(lab, st, SX, [0, 1, 2], [9, 1, 1, 1, 1, 1]), response=message(lab, st, CC, 5, 0))
        (st, cl), = must(lab, lab.new(lab.cls(CLI, "Client"), [midi, build(lab, {"maxRequestLifetimeMillis": LIFE}, st)], st=st), "Client()")
        cur[0] = d1
        for s, v in must(lab, lab.method(cl, "request", [m, l], st=st), "request"):
            cur[0] = e.from_lin(0, {d1: 1, d2: 1})
            s = rebase(s, s.facts)
            for s2, v2 in lab.method(cl, "receive", [NONE], st=s):
                if isinstance(v2, Raise):
                    chk.ob("lifetime", "timeout of a single request", False, "raises %s" % v2.exc, v2.where)
                    continue
                term = [x for x in s2.trace() if x.kind == "notified" and x.name == "terminated"]
                for s3, late in e.less(c(LIFE), d2, True, s2, None, None):
                    if term:
                        chk.ob("lifetime", "terminated %s" % ("after its lifetime" if late else "within its lifetime"), late is True,
                               "terminated although it waited at most %d ms" % LIFE)
                    elif late:
                        # must be because the clean-up interval has not elapsed; clean-up was last at 0 -> d1+d2 <= interval
                        for s4, small in e.less(e.from_lin(0, {d1: 1, d2: 1}), c(LIFE), False, s3, None, None):
                            chk.ob("lifetime", "late request at a due clean-up %s" % small, small is True, "a request that exceeded its lifetime survives a due clean-up")
        chk.analysed(e)


def depends(chk):
    lab = Lab()
    e, st = lab.e, lab.st
    midi = lab.bound("midi")
    ls = [listener(lab, "listener%d" % i) for i in (1, 2)]
    rd = message(lab, st, SX, [0, 1, 2], [9, 1, 1, 1, 1, 1])
    rm = message(lab, st, SX, [0, 1, 2], [9, 1, 1, 1, 1, 2])
    st, d = real_mapping(lab, st, "D", request=rd, response=message(lab, st, CC, 5, 0))
    st, m = real_mapping(lab, st, "M", request=rm, response=message(lab, st, CC, 6, 0), depends=d)
    (st, cl), = must(lab, lab.new(lab.cls(CLI, "Client"), [midi, build(lab, {"maxRequestLifetimeMillis": LIFE}, st)], st=st), "Client()")

    def sent(s):
        return [x.args[0] for x in calls(s.trace(), midi, "send")]

    def quiet(s):
        return not any(periods(lab, s).values())
    states = [st]
    for i, l in enumerate(ls):
        nxt = []
        for s in states:
            for s2, v in must(lab, lab.method(cl, "request", [m, l], st=rebase(s)), "request of a dependent parameter"):
                got = sent(s2)
                chk.ob("depends", "request %d asks for the dependency" % (i + 1), got == ([rd] if i == 0 else []), "sent %s" % [e.describe(x, s2) for x in got])
                nxt.append(s2)
        states = nxt

    def answer(states, k, val, wantsend, wantnotes, what):
        out = []
        for s in states:
            msg = message(lab, s, CC, k, val)
            for s2, v in lab.method(cl, "receive", [msg], st=rebase(s)):
                if isinstance(v, Raise):
                    chk.ob("depends", what, False, "raises %s %s" % (v.exc, v.msg), v.where)
                    continue
                if not quiet(s2):
                    continue
                got = sent(s2)
                notes = sorted([(ls.index(x.recv)) for x in s2.trace() if x.kind == "notified" and x.name == "changed"])
                chk.ob("depends", what, got == wantsend and notes == wantnotes, "sent %d, expected %d; notified listeners %s, expected %s" % (
                    len(got), len(wantsend), [n + 1 for n in notes], [n + 1 for n in wantnotes]))
                out.append(s2)
        return out
    states = answer(states, 5, 1, [rm], [], "first value of the dependency queries the parameter once")
    states = answer(states, 6, 33, [], [0, 1], "the answer reaches every requester")
    for i, l in enumerate(ls):
        nxt = []
        for s in states:
            for s2, v in must(lab, lab.method(cl, "request", [m, l], st=rebase(s)), "request again"):
                nxt.append(s2)
        states = nxt
    same = answer(states, 5, 1, [], [], "unchanged dependency does not query the parameter")
    states = answer(states, 5, 2, [rm], [], "changed dependency queries the parameter again")
    states = answer(states, 6, 34, [], [0, 1], "the second answer reaches every requester")
    chk.analysed(e)


def shared(chk):
    """several pending parameters answered by the same message, in every order and amidst others"""
    import itertools
    for kinds in itertools.chain(itertools.permutations(("same", "same", "other")), itertools.permutations(("same", "subscription", "other", "same"))):
        lab = Lab()
        e, st = lab.e, lab.st
        midi = lab.bound("midi")
        (st, cl), = must(lab, lab.new(lab.cls(CLI, "Client"), [midi, build(lab, {}, st)], st=st), "Client()")
        ls, ms = [], []
        states = [st]
        for i, k in enumerate(kinds):
            l = listener(lab, "listener%d" % i)
            nxt = []
            for s in states:
                kw = {"response": message(lab, s, CC, 6 if k == "other" else 5, 0)}
                if k != "subscription":
                    kw["request"] = message(lab, s, SX, [0, 1, 2], [9, 1, 1, 1, 1, i])
                s, m = real_mapping(lab, s, "M%d" % i, **kw)
                for s2, v in must(lab, lab.method(cl, "register" if k == "subscription" else "request", [m, l], st=s), "request"):
                    nxt.append(s2)
            states = nxt
            ls.append(l)
            ms.append(m)
        cons = "pending: %s" % ", ".join(kinds)
        done = False
        for s in states:
            for s2, v in ok(chk, "answer", cons, lab.method(cl, "receive", [message(lab, s, CC, 5, 44)], st=rebase(s))):
                if any(periods(lab, s2).values()):
                    continue
                done = True
                got = sorted((ls.index(x.recv), x.name, plain(lab, x.args[1], s2)) for x in s2.trace() if x.kind == "notified")
                want = [(i, "changed", 44) for i, k in enumerate(kinds) if k != "other"]
                chk.ob("answer", cons, got == want, "one message answers several parameters: notified %s, expected %s" % (got, want))
                for s3, r in lab.get(cl, "requests", s2):
                    it = e.seq_items(r, s3)
                    if it is not None:
                        n = sum(1 for k in kinds if k != "same")
                        chk.ob("table", cons, len(it) == n, "%d requests stay in the table, expected %d" % (len(it), n))
        if not done:
            raise AnalysisBroken("no outcome of receive()")
        chk.analysed(e)
