"""
property: C15
needs: a preview client that shows its value twice before another client of the same label takes over
breaks: the replaced client is cancelled several times
@@ content/lib/pyswitch/controller/preview.py
<<<<
            if not client in self.__clients:
                self.__clients.append(client)
====
            self.__clients.append(client)
>>>>
"""
from vpdemo import *
with mocks():
    from lib.pyswitch.controller.preview import ValuePreview
class Client:
    n = 0
    def cancel(self):
        self.n += 1
lab = Label()
lab.text_color = (1, 2, 3)
p = ValuePreview.get(lab)
a, b = Client(), Client()
p.preview("a", client=a)
p.preview("a2", client=a)
p.preview("b", client=b)
expect("cancels", (a.n, b.n), (1, 0))
