"""Enumerates the public action factories of the firmware and builds each with boundary objects around it (application, client, switch, labels, enable callback)."""
from checks.common import *

# sample arguments by parameter name; a required parameter without a sample makes the analysis fail (a new factory has to be looked at)
SAMPLE = {"slot_id": 1, "slot": 2, "num": 2, "rig": 2, "bank": 3, "boost_volume": 0.75, "offset": 10, "message": [176, 80, 1], "keycodes": [4, 5], "text": "Txt",
          "pages": [{"id": 1, "color": (10, 20, 30), "text": "P1"}, {"id": 2, "color": (40, 50, 60), "text": "P2"}]}
# option combinations worth their own instance
VARIANTS = {
    "RIG_SELECT": [{}, {"display_mode": 20}, {"bank": 3, "display_mode": 20}, {"rig_off": 4}, {"bank": 3, "rig_off": 4, "bank_off": 7, "display_mode": 20}, {"bank": 3, "rig_off": "auto", "bank_off": "auto"}, {"rig": None},
                   {"rig_btn_morph": True}, {"rig_btn_morph": True, "momentary_morph": True, "bank": 3}],
    "RIG_SELECT_AND_MORPH_STATE": [{}, {"morph_only_when_enabled": False, "rig_btn_morph": True}],
    "BANK_SELECT": [{}, {"display_mode": 20, "bank_off": 5}, {"preselect": True}, {"preselect": True, "display_mode": 20}],
    "BANK_UP": [{}, {"display_mode": 20}, {"preselect": True}, {"preselect": True, "display_mode": 20, "max_bank": 7}, {"dim_factor": "on", "led_brightness": 0.4}],
    "BANK_DOWN": [{}, {"preselect": True}, {"display_mode": 20, "preselect": True, "max_bank": 7}],
    "RIG_UP": [{}, {"keep_bank": False}, {"display_mode": 10}],
    "RIG_DOWN": [{}, {"keep_bank": False}, {"display_mode": 10}],
    "RIG_VOLUME_BOOST": [{}, {"remember_off_value": False}],
    "FIXED_EFFECT_STATE": [{"slot": i} for i in range(8)],
    "EFFECT_BUTTON": [{"num": i} for i in range(1, 5)] + [{"use_internal_state": False}],
    "EFFECT_STATE": [{}, {"show_slot_names": True}],
    "EFFECT_STATE_EXT": [{}, {"show_slot_names": True}],
    "MORPH_BUTTON": [{}, {"color": (9, 9, 9)}],
    "PARAMETER_UP_DOWN": [{}, {"offset": -10, "max_value": 100}, {"repeat_interval_millis": 0}],
    "CUSTOM_MESSAGE": [{}, {"message_release": [176, 80, 0]}],
    "ROTATING_MESSAGES": [{"messages": [[176, 1, 0], [176, 1, 1]], "messages_release": [[176, 2, 0]], "led_colors": [(1, 1, 1), (2, 2, 2)], "texts": ["a", "b"]}, {}],
    "BINARY_SWITCH": [{}, {"use_internal_state": True}, {"value_off": "auto"}],
    "DISPLAY_FIXED_TEXT": [{}, {"back_color": (1, 1, 1), "text_color": (2, 2, 2)}],
    "SHOW_TEMPO": [{}],
    "PagerAction": [{}, {"select_page": 2}],
}
BOOM = {"num_leds": 1}


def factories(lab):
    """[(short name, module, FuncInfo or ClassInfo)]"""
    out = []
    for name, mod in sorted(lab.p.modules.items()):
        if not (name.startswith("pyswitch.clients.") and ".actions." in name):
            continue
        for fi in mod.functions:
            if fi.name.isupper() and not fi.name.startswith("_"):
                out.append((fi.name, name, fi))
        for ci in mod.classes:
            if ci.name == "PagerAction":
                out.append((ci.name, name, ci))
    return sorted(out, key=lambda x: (x[1], x[0]))


def params(x):
    """[(name, has default)]"""
    node = x.node if isinstance(x, FuncInfo) else x.find("__init__").node
    a = node.args
    ps = [p.arg for p in a.args]
    if not isinstance(x, FuncInfo):
        ps = ps[1:]
    n = len(ps) - len(a.defaults)
    return [(p, i >= n) for i, p in enumerate(ps)] + [(p.arg, d is not None) for p, d in zip(a.kwonlyargs, a.kw_defaults)]


class Rig:
    """one factory product in its environment"""

    def __init__(self, name, modname, kwargs=None, pixels=(0, 1, 2), enabled=True, enable=True, labels=True, cfg=CONFIG, lab=None, extra=None):
        self.lab = lab = lab or Lab()
        e, st = lab.e, lab.st
        r = lab.p.lookup(lab.p.module(modname), name)
        if not r or r[0] not in ("func", "class"):
            raise AnalysisBroken("factory %s.%s not found" % (modname, name))
        x = r[1]
        self.fi = x
        self.where = x.where if isinstance(x, FuncInfo) else "%s:%d" % (x.module.rel, x.node.lineno)
        kw = dict(kwargs or {})
        self.label = self.preview = self.enable = None
        if labels:
            self.label = closed_label(lab, st, "label", back_color=c((1, 2, 3)))
            self.preview = closed_label(lab, st, "preview", back_color=c((1, 2, 3)))
        en = lab.bound("enable", {"on": c(enabled)}, st=st)
        lab.handlers[(en, "enabled")] = lambda eng, s, a, k: hget(lab, s, en, "on")
        lab.handlers[(en, "init")] = lambda eng, s, a, k: NONE
        self.enable = en
        args = {}
        for p, opt in params(x):
            if p in kw:
                args[p] = build(lab, kw.pop(p), st)
            elif p == "enable_callback":
                if enable:
                    args[p] = en
            elif p in ("display", "morph_display"):
                if labels and not (p == "morph_display"):
                    args[p] = self.label
            elif p in ("change_display", "preview_display"):
                if labels:
                    args[p] = self.preview
            elif opt:
                continue
            elif p == "mapping":
                (st, m), = must(lab, lab.call(lab.fn(KEM + ".mappings.amp", "MAPPING_AMP_GAIN"), st=st), "mapping")
                args[p] = m
            elif p in SAMPLE:
                args[p] = build(lab, SAMPLE[p], st)
            else:
                raise AnalysisBroken("factory %s has a new required argument %s" % (name, p))
        if kw:
            raise AnalysisBroken("factory %s has no argument %s" % (name, sorted(kw)))
        args.update({k: build(lab, v, st) for k, v in (extra or {}).items()})
        self.args = args
        res = lab.call(e.fv(x), kwargs=args, st=st) if isinstance(x, FuncInfo) else lab.new(x, kwargs=args, st=st)
        self.raised = next((v for s, v in res if isinstance(v, Raise)), None)
        if self.raised is not None:
            return
        if len(res) != 1:
            raise AnalysisBroken("factory %s has %d outcomes" % (name, len(res)))
        st, v = res[0]
        self.actions = list(e.h(st, v).items) if v[0] == "o" and e.h(st, v).kind == "list" else [v]
        self.appl, self.cl = application(lab, st, cfg)
        self.switch = switch(lab, st, pixels, self.actions)
        e.hw(st, e.h(st, self.appl).attrs["inputs"]).items.append(self.switch)
        self.regs = []
        self.continuous = e.class_of(self.actions[0], st).find("process") is not None
        st = rebase(st)
        for a in self.actions:
            for nm, ar in (("init", [self.appl] if self.continuous else [self.appl, self.switch]),):
                rs = lab.method(a, nm, ar, st=st)
                self.raised = next((v for s, v in rs if isinstance(v, Raise)), None)
                if self.raised is not None:
                    return
                if len(rs) != 1:
                    raise AnalysisBroken("init of %s has %d outcomes" % (name, len(rs)))
                st = rs[0][0]
        for ev in calls(st.trace(), self.cl, "register"):
            l = (list(ev.args) + list(ev.kwargs.values()))
            if (l[0], l[1] if len(l) > 1 else None) not in self.regs:
                self.regs.append((l[0], l[1] if len(l) > 1 else None))
        self.updateables = []
        for ev in calls(st.trace(), self.appl, "add_updateable"):
            if ev.args[0] not in self.updateables and ev.args[0] not in self.actions:
                self.updateables.append(ev.args[0])
        self.st = rebase(st)

    # ---- state helpers
    @property
    def mappings(self):
        out = []
        for m, l in self.regs:
            if m not in out:
                out.append(m)
        return out

    def mtype(self, m, st=None):
        st = st or self.st
        t = plain(self.lab, self.lab.e.h(st, m).attrs.get("type", c(0)), st)
        return "str" if t == 2 or t == 1 and False else "int"

    def roots(self):
        return self.actions + [x for x in (self.label, self.preview, self.enable) if x] + [self.appl, self.switch] + self.mappings + self.updateables

    def set_enabled(self, st, v):
        s = st.fork()
        hset(self.lab, s, self.enable, "on", c(v))
        return s

    def visible(self, st):
        """everything the user can see"""
        lab = self.lab
        out = []
        for l in (self.label, self.preview):
            if l:
                out.append(tuple(lab.canon(st, hget(lab, st, l, a)) for a in ("text", "back_color", "text_color", "override_text")))
        out.append((lab.canon(st, hget(lab, st, self.switch, "colors")), lab.canon(st, hget(lab, st, self.switch, "brightnesses"))))
        return out

    def sends(self, st):
        return [x for x in st.trace() if x.kind == "call" and (x.name in ("send", "press") or (x.name == "set" and x.recv == self.cl))]

    def spoil(self, st):
        """replaces everything visible by junk"""
        lab = self.lab
        s = st.fork()
        for l in (self.label, self.preview):
            if l:
                hset(lab, s, l, "text", c("<junk>"))
                hset(lab, s, l, "back_color", c((99, 99, 98)))
        n = len(plain(lab, hget(lab, s, self.switch, "colors"), s))
        hset(lab, s, self.switch, "colors", lab.e.mklist(s, [c((99, 99, 98))] * n))
        hset(lab, s, self.switch, "brightnesses", lab.e.mklist(s, [c(99)] * n))
        return s

    # ---- events: each returns [(st, v)]
    def each(self, st, objs, meth, args=()):
        cur = [(st, NONE)]
        for o in objs:
            nxt = []
            for s, v in cur:
                if isinstance(v, Raise):
                    nxt.append((s, v))
                else:
                    nxt += self.lab.method(o, meth, list(args), st=s)
            cur = nxt
        return cur

    def report(self, st, m, v):
        """the device reports a value: stored and all registered listeners notified"""
        s = st.fork()
        hset(self.lab, s, m, "value", v)
        return self.each(s, [l for mm, l in self.regs if mm == m and l is not None and l != NONE], "parameter_changed", [m])

    def terminate(self, st, m):
        return self.each(st, [l for mm, l in self.regs if mm == m and l is not None and l != NONE], "request_terminated", [m])

    def update(self, st):
        return self.each(st, self.actions + self.updateables, "update")

    def reset(self, st):
        return self.each(st, self.actions, "reset")

    def redraw(self, st):
        return self.each(st, [a for a in self.actions if not self.continuous], "update_displays")


def instances(lab=None, labels=True, **kw):
    """[(label, name, module, kwargs)]"""
    lab = lab or Lab()
    out = []
    for name, mod, x in factories(lab):
        for v in VARIANTS.get(name, [{}]):
            out.append((name + ("(%s)" % ", ".join("%s=%s" % (k, str(w)[:20]) for k, w in v.items()) if v else ""), name, mod, v))
    return out


def rigs(lab=None, **kw):
    """[(label, Rig)] – one analysis context each"""
    for cons, name, mod, v in instances():
        yield cons, Rig(name, mod, v, **kw)
