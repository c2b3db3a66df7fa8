"""
property: C10
needs: a two-part answer whose second part is lost, followed by a complete answer with another first part
breaks: the first part of the broken answer is combined with the second part of the next answer
@@ content/lib/pyswitch/controller/client.py
<<<<
        if value_1 != None:
            self.__value_1 = value_1
            return True
====
        if value_1 != None:
            if self.__value_1 == None:
                self.__value_1 = value_1
            return True
>>>>
"""
from vpdemo import *
with mocks():
    from lib.pyswitch.controller.client import ClientTwoPartParameterMapping
    from adafruit_midi.control_change import ControlChange
    from adafruit_midi.program_change import ProgramChange
m = ClientTwoPartParameterMapping.get(name="demo", response=[ControlChange(32, 0), ProgramChange(0)])
m.parse(ControlChange(32, 3))
m.parse(ControlChange(32, 1))
m.parse(ProgramChange(5))
expect("value", m.value, 128 + 5)
expect("finished", m.result_finished(), True)
