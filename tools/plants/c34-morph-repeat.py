"""
property: C34
needs: morph button pushed while the device keeps reporting the same (unmorphed) pedal value, then the display evaluated again
breaks: an unchanged report overwrites the morph state toggled by the button
@@ content/lib/pyswitch/clients/kemper/actions/morph.py
<<<<
        if self.__set_internal_state and value != None and value != self.__last_value:
====
        if self.__set_internal_state and value != None:
>>>>
"""
from vpdemo import *
with mocks():
    from lib.pyswitch.clients.kemper.actions.morph import MORPH_BUTTON
a = MORPH_BUTTON()
ap = Appl()
a.init(ap, Switch(1, [a]))
cb = a.callback
cb.evaluate_value(0)
a.push()
a.release()
expect("after the push", ap.shared["morphStateOverride"], 16383)
cb.evaluate_value(0)
expect("after the same report again", ap.shared["morphStateOverride"], 16383)
cb.evaluate_value(200)
expect("after a new report", ap.shared["morphStateOverride"], 200)
