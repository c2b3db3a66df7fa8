"""
property: C05
needs: a flood of MIDI messages none of which belongs to a pending parameter request
breaks: only messages used by the client count against the limit of consecutive messages, so a flood of others holds the tick forever
@@ content/lib/pyswitch/controller/controller.py
<<<<
            self.client.receive(midimsg)
====
            parsed = self.client.receive(midimsg)
>>>>
@@ content/lib/pyswitch/controller/controller.py
<<<<
            cnt = cnt + 1
====
            if parsed or not self.client.requests:
                cnt = cnt + 1
>>>>
"""
from vpdemo import *
with mocks():
    from lib.pyswitch.controller.controller import Controller
    from lib.pyswitch.controller.client import ClientParameterMapping
    from adafruit_midi.control_change import ControlChange
    from adafruit_midi.system_exclusive import SystemExclusive


class Midi:
    n = 0
    def receive(self):
        self.n += 1
        return ControlChange(99, 1) if self.n < 500 else None
    def send(self, m):
        pass


class Led:
    leds = []
    def init(self, n):
        self.leds = [None] * n


midi = Midi()
c = Controller(led_driver=Led(), midi=midi, config={"clearBuffers": False})
m = ClientParameterMapping.get(name="A", request=SystemExclusive(manufacturer_id=b"\x00\x20\x33", data=b"\x02\x7f\x41\x00\x01\x01"), response=ControlChange(5, 0))
c.client.request(m, None)
c.tick()
expect("messages taken in one tick are limited", midi.n <= 40, True)
