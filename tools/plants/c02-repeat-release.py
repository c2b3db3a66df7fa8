"""
property: C02
needs: a switch with actionsHold and holdRepeat, held longer than the hold time, released between two repeats
breaks: the short actions run after the hold actions already ran in the same press
@@ content/lib/pyswitch/controller/inputs.py
<<<<
                self.__hold_was_active = True
            else:
====
                self.__hold_was_active = not self.__hold_was_active
            else:
>>>>
"""
from vpdemo import *
with mocks():
    from lib.pyswitch.controller.inputs import SwitchController


class Period:
    due = False
    def reset(self):
        self.due = False
    @property
    def exceeded(self):
        r, self.due = self.due, False
        return r


log = []


class A:
    enabled = True
    def __init__(self, n):
        self.n = n
    def init(self, *a):
        pass
    def update_displays(self):
        pass
    def push(self):
        log.append(self.n + "+")
    def release(self):
        log.append(self.n + "-")


class Model:
    pushed = False
    def init(self):
        pass


p, m = Period(), Model()
sc = SwitchController(Appl(), {"assignment": {"model": m}, "actions": [A("short")], "actionsHold": [A("hold")], "holdRepeat": True}, p)
m.pushed = True
sc.process()
for i in range(2):
    p.due = True
    sc.process()
m.pushed = False
sc.process()
expect("calls", log, ["hold+", "hold-"] * 2)
