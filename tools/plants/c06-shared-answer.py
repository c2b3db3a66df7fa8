"""
property: C06
needs: two pending requests whose responses match the same incoming message
breaks: only the first of the matching requests is notified, the other one stays pending until its timeout
@@ content/lib/pyswitch/controller/client.py
<<<<
            if request.finished:
                do_cleanup = True

        # Check
====
            if request.finished:
                do_cleanup = True
                break

        # Check
>>>>
"""
from vpdemo import *
with mocks():
    from lib.pyswitch.controller.client import Client, ClientParameterMapping
    from adafruit_midi.control_change import ControlChange
    from adafruit_midi.system_exclusive import SystemExclusive


class Midi:
    def __init__(self):
        self.sent = []
    def send(self, m):
        self.sent.append(m)


class L:
    def __init__(self):
        self.got = []
    def parameter_changed(self, m):
        self.got.append((m.name, m.value))
    def request_terminated(self, m):
        self.got.append((m.name, "terminated"))


def sx(*d):
    return SystemExclusive(manufacturer_id=b"\x00\x20\x33", data=bytes(d))


# two parameters which share one answer message: both requests have to be answered by it
m1 = ClientParameterMapping.get(name="A", request=sx(2, 127, 0x41, 0, 1, 1), response=sx(0, 0, 1, 0, 1, 1))
m2 = ClientParameterMapping.get(name="B", request=sx(2, 127, 0x41, 0, 1, 1), response=sx(0, 0, 1, 0, 1, 1))
cl = Client(Midi(), {})
l1, l2 = L(), L()
cl.request(m1, l1)
cl.request(m2, l2)
cl.receive(sx(0, 0, 1, 0, 1, 1, 0, 5))
expect("listener 1", l1.got, [("A", 5)])
expect("listener 2", l2.got, [("B", 5)])
