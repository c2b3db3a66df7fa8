"""Several real switches with real actions around a boundary application and client."""
from checks.common import *
from checks import c02

CTRL = "pyswitch.controller.controller"


class World:
    def __init__(self, cfg=CONFIG, lab=None, leds=24):
        self.lab = lab = lab or Lab()
        e, st = lab.e, lab.st
        self.raised = None
        self.led = e.mklist(st, [c((0, 0, 0))] * leds)
        self.nled = 0
        self.appl, self.cl = application(lab, st, cfg, led_driver=lab.bound("led_driver", {"leds": self.led}, st=st))
        ra = lab.cls(CTRL, "Controller").find("reset_actions")
        if ra is None:
            raise AnalysisBroken("Controller.reset_actions vanished")
        lab.handlers[(self.appl, "reset_actions")] = lambda eng, s, a, k: lab.call(e.fv(ra), [self.appl], st=s)
        self.switches, self.models, self.pixels = [], [], []
        self.st = st

    def make(self, modname, name, st=None, **kw):
        """calls a factory or constructor; keyword values are python data or abstract values"""
        lab, st = self.lab, self.st
        x = lab.p.lookup(lab.p.module(modname), name)
        if not x or x[0] not in ("func", "class"):
            raise AnalysisBroken("%s.%s not found" % (modname, name))
        args = {k: build(lab, v, st) for k, v in kw.items()}
        r = lab.call(lab.e.fv(x[1]), kwargs=args, st=st) if x[0] == "func" else lab.new(x[1], kwargs=args, st=st)
        (self.st, v), = must(lab, r, name)
        return v

    def call(self, obj, meth, *args, **kw):
        lab = self.lab
        (self.st, v), = must(lab, lab.method(obj, meth, [build(lab, a, self.st) for a in args], {k: build(lab, a, self.st) for k, a in kw.items()}, st=self.st), meth)
        return v

    def read(self, obj, attr, st=None):
        (s, v), = must(self.lab, self.lab.get(obj, attr, st=st or self.st), attr)
        return v

    def enable(self, on=True, name="enable"):
        lab, st = self.lab, self.st
        en = lab.bound(name, {"on": c(on)}, st=st)
        lab.handlers[(en, "enabled")] = lambda eng, s, a, k: hget(lab, s, en, "on")
        return en

    def recorder(self, name, cls="Action", **cfg):
        """a real action whose callback only records what is called"""
        cb = self.lab.bound("callback of " + name, {}, st=self.st)
        a = self.make(ACT, cls, config=dict({"callback": cb}, **cfg))
        return a, cb

    def push_mode(self, name):
        return self.lab.e.class_attr(self.lab.cls(ACT, "PushButtonAction"), name)

    def put(self, *actions, n=1, hold=()):
        """a switch with n LEDs"""
        lab, st = self.lab, self.st
        model = lab.bound("model%d" % len(self.models), {"pushed": FALSE}, st=st)
        pix = list(range(self.nled, self.nled + n))
        self.nled += n
        cfg = {"assignment": {"model": model, "pixels": tuple(pix)}, "actions": list(actions)}
        if hold:
            cfg["actionsHold"] = list(hold)
        self.models.append(model)
        self.pixels.append(pix)
        self.switches.append(cfg)

    def start(self, chk, rule, cons):
        """creates the switch controllers; False if that raises"""
        lab, e = self.lab, self.lab.e
        sws = []
        self.st = rebase(self.st)
        inputs = hget(lab, self.st, self.appl, "inputs")
        for cfg in self.switches:
            r = ok(chk, rule, cons, lab.new(lab.cls(c02.MOD, "SwitchController"), [self.appl, build(lab, cfg, self.st)], st=self.st))
            if not r:
                return False
            if len(r) > 1:
                raise AnalysisBroken("%s: start has %d outcomes" % (cons, len(r)))
            self.st, sw = r[0]
            e.hw(self.st, inputs).items.append(sw)
            sws.append(sw)
        self.switches = sws
        self.updateables, self.regs = [], []
        tr = self.st.trace()
        self.startup = tr
        for ev in calls(tr, self.appl, "add_updateable"):
            if ev.args[0] not in self.updateables:
                self.updateables.append(ev.args[0])
        for ev in calls(tr, self.cl, "register"):
            l = list(ev.args) + list(ev.kwargs.values())
            if (l[0], l[1] if len(l) > 1 else None) not in self.regs:
                self.regs.append((l[0], l[1] if len(l) > 1 else None))
        self.st = rebase(self.st)
        return True

    @property
    def mappings(self):
        out = []
        for m, l in self.regs:
            if m not in out:
                out.append(m)
        return out

    def roots(self):
        return self.switches + [self.appl, self.led] + self.mappings + self.updateables + self.models

    # ---- events: [(st, v)]
    def edge(self, s, i, down):
        s = s.fork()
        hset(self.lab, s, self.models[i], "pushed", c(down))
        return self.lab.method(self.switches[i], "process", st=s)

    def press(self, s, i):
        return self.edge(s, i, True)

    def release(self, s, i):
        return self.edge(s, i, False)

    def click(self, s, i):
        out = []
        for s1, v in self.press(s, i):
            out += [(s1, v)] if isinstance(v, Raise) else self.release(s1, i)
        return out

    def update(self, s):
        cur = [(s, NONE)]
        for u in self.updateables:
            nxt = []
            for x, v in cur:
                nxt += [(x, v)] if isinstance(v, Raise) else self.lab.method(u, "update", st=x)
            cur = nxt
        return cur

    def report(self, s, m, v):
        s = s.fork()
        hset(self.lab, s, m, "value", v)
        cur = [(s, NONE)]
        for mm, l in self.regs:
            if mm != m or l in (None, NONE):
                continue
            nxt = []
            for x, r in cur:
                nxt += [(x, r)] if isinstance(r, Raise) else self.lab.method(l, "parameter_changed", [m], st=x)
            cur = nxt
        return cur

    def sets(self, s):
        return sets(self.lab, s, self.cl)

    def lit(self, s, i):
        """colours of the LEDs of switch i"""
        v = plain(self.lab, self.led, s)
        return [v[p] for p in self.pixels[i]]
