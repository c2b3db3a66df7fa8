"""
property: C08
needs: a lost connection (no sensing message for the timeout) that comes back: the first sensing message after it, followed by an update
breaks: the sensing timeout is not restarted by the message that re-establishes the session, so it is dropped again at once
@@ content/lib/pyswitch/clients/kemper/__init__.py
<<<<
            self.__has_been_running = True
            self.state = self._STATE_RUNNING

        self.sensing_period.reset()

        return True
====
            self.__has_been_running = True
            self.state = self._STATE_RUNNING

        else:
            self.sensing_period.reset()

        return True
>>>>
"""
from vpdemo import *
import time
with mocks():
    from lib.pyswitch.clients.kemper import KemperBidirectionalProtocol, KemperMappings
    from adafruit_midi.system_exclusive import SystemExclusive
class Midi:
    def __init__(self):
        self.sent = []
    def send(self, m):
        self.sent.append(m)
p = KemperBidirectionalProtocol(10)
p.init(Midi(), Client())
p.init_period.interval = 0
p.sensing_period.interval = 60
p.update()
sense = KemperMappings.BIDIRECTIONAL_SENSING().response
msg = SystemExclusive(manufacturer_id=sense.manufacturer_id, data=[0, 0, 0x7e, 0, 0x7f])
p.receive(msg)
p.sensing_period.reset()
p.update()
expect("running", p.state, 20)
time.sleep(0.1)
p.update()
expect("lost", p.state, 10)
time.sleep(0.1)
p.receive(msg)
p.update()
expect("back", p.state, 20)
