"""
property: C22
needs: a label shared by several pages: the page is left and entered again while the effect type stays the same
breaks: after a reset (page change) the name of the effect type is not drawn again, the label keeps the text of the other page
@@ content/lib/pyswitch/controller/callbacks/effect_enable.py
<<<<
        super().reset()
        
        self.__current_kpp_type = None
====
        super().reset()
        
        if self.mapping.value == None:
            self.__current_kpp_type = None
>>>>
"""
from vpdemo import *
with mocks():
    from lib.pyswitch.clients.kemper.actions.effect_state import EFFECT_STATE, PushButtonAction
lab = Label()
a = EFFECT_STATE(0, display=lab, mode=PushButtonAction.LATCH)
a.init(Appl(), Switch(1, [a]))
cb = a.callback
cb.mapping_fxtype.value = 33
cb.mapping.value = 1
cb.parameter_changed(cb.mapping_fxtype)
cb.parameter_changed(cb.mapping)
expect("text", lab.text, "Dist")
lab.text = "other page"
a.reset()
expect("text after reset", lab.text, "Dist")
