"""
property: C12
needs: an encoder with accept and cancel buttons but without a preview display; cancel after turning, then turn again
breaks: cancelling does not forget the preselected value when there is no preview display
@@ content/lib/pyswitch/controller/actions/EncoderAction.py
<<<<
        self._last_value = self._get_value()

        if self.__preview:
            self.__preview.reset
====
        if self.__preview:
            self._last_value = self._get_value()
            self.__preview.reset
>>>>
"""
from vpdemo import *
with mocks():
    from lib.pyswitch.controller.actions.EncoderAction import EncoderAction
    from lib.pyswitch.clients.local.actions.encoder_button import ENCODER_BUTTON
    from lib.pyswitch.clients.kemper.mappings.system import MAPPING_MAIN_VOLUME
ap = Appl()
ok, no = ENCODER_BUTTON(), ENCODER_BUTTON()
m = MAPPING_MAIN_VOLUME()
e = EncoderAction(m, accept_action=ok, cancel_action=no, step_width=1, max_value=1000)
e.init(ap)
for b in (ok, no):
    b.init(ap, Switch(1, [b]))
m.value = 500
e.process(0)
e.process(1)
no.push()
e.process(2)
ok.push()
first = ap.client.sets[-1][1]
e.process(3)
no.push()
m.value = first
e.process(13)
no.push()
e.process(14)
ok.push()
expect("value sent after cancelling", ap.client.sets[-1][1], first + 1)
