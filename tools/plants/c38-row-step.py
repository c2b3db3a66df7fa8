"""
property: C38
needs: more ports than fit into one row
breaks: neighboured ports (last of a row and first of the next) move the light in the same direction
@@ content/lib/pyswitch/controller/explore.py
<<<<
        if index % 2 == 0:
            scan_step = 1
====
        if index % self.__num_port_columns % 2 == 0:
            scan_step = 1
>>>>
"""
from vpdemo import *
with mocks():
    from lib.pyswitch.controller.explore import ExploreModeController
    from lib.pyswitch.colors import Colors
    from lib.pyswitch.ui.ui import DisplayBounds
class Model:
    pushed = False
    def init(self): pass
class Board: pass
class Factory:
    def __init__(self): self.models = []
    def create_switch(self, port):
        self.models.append(Model())
        return self.models[-1]
class Led:
    def init(self, n): self.leds = [(0, 0, 0)] * n
class Ui:
    bounds = DisplayBounds(0, 0, 240, 240)
    def set_callback(self, cb): self.cb = cb
    def init(self, a): pass
    def show(self): pass
def run(n, ui=None):
    b, f, l = Board(), Factory(), Led()
    for i in range(n): setattr(b, "GP%02d" % i, i)
    a = ExploreModeController(b, f, led_driver=l, ui=ui)
    a.init()
    def push(i):
        for v in (True, False):
            f.models[i].pushed = v
            a.tick()
        return [k for k, q in enumerate(l.leds) if q == Colors.WHITE]
    return a, push
a, push = run(8)
expect("first", push(0), [0, 1, 2])
expect("second", push(6), [3, 4, 5])
expect("back", push(5), [0, 1, 2])
