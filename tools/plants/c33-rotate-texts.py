"""
property: C33
needs: a rotating action with release messages of another number than its messages
breaks: the release messages start again each time the messages do
@@ content/lib/pyswitch/clients/local/actions/rotate.py
<<<<
        if self.__messages and self.__messages_pos >= len(self.__messages):
            self.__messages_pos = 0
====
        if self.__messages and self.__messages_pos >= len(self.__messages):
            self.__messages_pos = 0
            self.__messages_release_pos = 0
>>>>
"""
from vpdemo import *
with mocks():
    from lib.pyswitch.clients.local.actions.rotate import ROTATING_MESSAGES
sent = []
class Midi:
    def send(self, m):
        sent.append(list(m.__bytes__()))
a = ROTATING_MESSAGES(messages=[[1], [2]], messages_release=[[11], [12], [13]], led_colors=[(1, 1, 1)])
ap = Appl()
ap.client.midi = Midi()
a.init(ap, Switch(1, [a]))
for i in range(4):
    a.push()
    a.release()
expect("messages", sent, [[1], [11], [2], [12], [1], [13], [2], [11]])
