"""
property: C38
needs: more ports than fit into one row of the display
breaks: only ports of the last row are marked when they are pushed
@@ content/lib/pyswitch/controller/explore.py
<<<<
            self.latest_marker.back_color = Colors.LIGHT_BLUE

        for row in self.__ports_display_rows.children:
====
            self.latest_marker.back_color = Colors.LIGHT_BLUE

        for row in self.__ports_display_rows.children[-1:]:
>>>>
"""
from vpdemo import *
with mocks():
    from lib.pyswitch.controller.explore import ExploreModeController
    from lib.pyswitch.colors import Colors
    from lib.pyswitch.ui.ui import DisplayBounds
class Model:
    pushed = False
    def init(self): pass
class Board: pass
class Factory:
    def __init__(self): self.models = []
    def create_switch(self, port):
        self.models.append(Model())
        return self.models[-1]
class Led:
    def init(self, n): self.leds = [(0, 0, 0)] * n
class Ui:
    bounds = DisplayBounds(0, 0, 240, 240)
    def set_callback(self, cb): self.cb = cb
    def init(self, a): pass
    def show(self): pass
def run(n, ui=None):
    b, f, l = Board(), Factory(), Led()
    for i in range(n): setattr(b, "GP%02d" % i, i)
    a = ExploreModeController(b, f, led_driver=l, ui=ui)
    a.init()
    def push(i):
        for v in (True, False):
            f.models[i].pushed = v
            a.tick()
        return [k for k, q in enumerate(l.leds) if q == Colors.WHITE]
    return a, push
ui = Ui()
a, push = run(7, ui)
def marked():
    return [e.text for e in ui.cb.get_root().contents_flat() if getattr(e, "back_color", None) == Colors.RED]
for i in (6, 0, 5, 4):
    push(i)
    expect("marked after %d" % i, marked(), ["GP%02d" % i])
