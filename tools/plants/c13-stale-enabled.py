"""
property: C13
needs: an action with an enable callback on a page which is left and entered again while the parameter value stays the same
breaks: the action does not draw itself again when it becomes enabled, as its callback is only reset when it is disabled
@@ content/lib/pyswitch/controller/actions/__init__.py
<<<<
        if self.__last_enabled != self.enabled:
            self.__last_enabled = self.enabled
            
            if self.callback:
                self.callback.reset()
====
        if self.__last_enabled != self.enabled:
            if self.callback and (self.__last_enabled == -1 or self.enabled == False):
                self.callback.reset()

            self.__last_enabled = self.enabled
>>>>
"""
from vpdemo import *
with mocks():
    from lib.pyswitch.controller.actions import Action
    from lib.pyswitch.controller.callbacks import Callback
class Enable(Callback):
    on = True
    def enabled(self, action):
        return self.on
class Cb(Callback):
    resets = 0
    def reset(self):
        self.resets += 1
    def update_displays(self):
        pass
en, cb = Enable(), Cb()
a = Action({"callback": cb, "enableCallback": en})
a.init(Appl(), Switch(1, [a]))
got = []
for on in (True, False, True, True, False):
    en.on = on
    a.update()
    got.append(cb.resets)
expect("resets", got, [1, 2, 3, 3, 4])
