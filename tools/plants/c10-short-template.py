"""
property: C10
needs: a large value followed by a small one on the same NRPN parameter
breaks: the high byte of the previous value stays in the message
@@ content/lib/pyswitch/controller/client.py
<<<<
            while len(data) < 8:
                data.append(0)
            
            # Set value as 14 bit
            data[6] = int(floor(value / 128))
            data[7] = int(value % 128)
====
            while len(data) < 8:
                data.append(0)
            
            # Set value as 14 bit (the high byte is zero already for small values)
            if value > 127:
                data[6] = int(floor(value / 128))
            data[7] = int(value % 128)
>>>>
"""
from vpdemo import *
with mocks():
    from lib.pyswitch.controller.client import ClientParameterMapping
    from adafruit_midi.system_exclusive import SystemExclusive
m = ClientParameterMapping.get(name="A", set=SystemExclusive(manufacturer_id=b"\x00\x20\x33", data=b"\x02\x7f\x01\x00\x0a\x02"))
for v in (5, 127, 128, 16383, 5):
    m.set_value(v)
    d = m.set.data
    expect("value bytes of %d" % v, d[6] * 128 + d[7], v)
