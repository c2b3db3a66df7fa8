From cc5ecce453cb07eedb593cb3b373296776dd89ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:23 +0000
Subject: [PATCH 01/47] fix: holdRepeat switch keeps stale hold state when the
 hold time elapses exactly at release

---
 content/lib/pyswitch/controller/inputs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/content/lib/pyswitch/controller/inputs.py b/content/lib/pyswitch/controller/inputs.py
index 60ae017..b9dc1a4 100755
--- a/content/lib/pyswitch/controller/inputs.py
+++ b/content/lib/pyswitch/controller/inputs.py
@@ -81,6 +81,8 @@ class SwitchController:
                             return
                                                 
                         if self.__check_hold():
+                            self.__hold_active = False
+                            self.__hold_was_active = False
                             return
 
                         if self.__hold_was_active:
-- 
2.43.0


From b49b5b41ed0be1640014bc269062bb56b630c3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:24 +0000
Subject: [PATCH 02/47] fix: every listener of a dependent parameter is
 notified, not only the first one requesting it

---
 content/lib/pyswitch/controller/client.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/content/lib/pyswitch/controller/client.py b/content/lib/pyswitch/controller/client.py
index 7db96cc..b9531de 100755
--- a/content/lib/pyswitch/controller/client.py
+++ b/content/lib/pyswitch/controller/client.py
@@ -241,13 +241,19 @@ class Client: #(ClientRequestListener):
             self.__client = client
             self.__orig_mapping = orig_mapping
             self.__last_value = None
-            self.__listener = listener
+            self.__listeners = [listener]
+
+        # There is only one dependency listener per mapping, serving all listeners of the mapping
+        def add_listener(self, listener):
+            if listener not in self.__listeners:
+                self.__listeners.append(listener)
 
         def parameter_changed(self, mapping):
             if mapping.value != self.__last_value:
                 self.__last_value = mapping.value
 
-                self.__client._register_mapping(self.__orig_mapping, self.__listener, True)           
+                for listener in self.__listeners:
+                    self.__client._register_mapping(self.__orig_mapping, listener, True)           
         
         def request_terminated(self, mapping):
             pass
@@ -318,6 +324,8 @@ class Client: #(ClientRequestListener):
         if mapping.depends:
             if not mapping in self.__dependencies:
                 self.__dependencies[mapping] = self._DependencyListener(self, mapping, listener)
+            else:
+                self.__dependencies[mapping].add_listener(listener)
 
             # Register the dependency rather than the mapping itself
             self._register_mapping(mapping.depends, self.__dependencies[mapping], True)
-- 
2.43.0


From 43d1766389ceec21186b115ac2785d64ef3bbf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:33 +0000
Subject: [PATCH 03/47] fix: BANK_UP/BANK_DOWN honour dim_factor "on" (the
 display mode was compared instead)

---
 content/lib/pyswitch/clients/kemper/actions/bank_up_down.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py b/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
index 3f89a38..d890e40 100755
--- a/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
@@ -121,7 +121,7 @@ class KemperBankChangeCallback(Callback):
 
         if self.__dim_factor_p == "off":
             self.__dim_factor = get_option(appl.config, "displayDimFactorOff", 0.2)
-        elif self.__display_mode == "on":
+        elif self.__dim_factor_p == "on":
             self.__dim_factor = get_option(appl.config, "displayDimFactorOn", 1)
         else:
             self.__dim_factor = self.__dim_factor_p
-- 
2.43.0


From bc010598bf0d738bc28b51247be7866f51c717a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:36 +0000
Subject: [PATCH 04/47] fix: bank select encoder does not crash while the rig
 ID is unknown

---
 .../lib/pyswitch/clients/kemper/actions/bank_select_encoder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py b/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
index 92c2daf..65dcabc 100644
--- a/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
@@ -62,6 +62,9 @@ class _BankSelectEncoderAction(EncoderAction):
         self._appl.shared["preselectedBank"] = self._last_value
 
     def _get_value(self):
+        if self._mapping.value == None:
+            return None
+        
         return int(self._mapping.value / NUM_RIGS_PER_BANK)
 
     def _set_value(self, value):
-- 
2.43.0


From 7266b663ef9fc4c2b7b8d616f42ed565a77aebad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:03 +0000
Subject: [PATCH 05/47] fix: encoder with accept button does not crash when
 preselection was canceled before a value was known

---
 content/lib/pyswitch/controller/actions/EncoderAction.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/content/lib/pyswitch/controller/actions/EncoderAction.py b/content/lib/pyswitch/controller/actions/EncoderAction.py
index f80231b..f63896f 100755
--- a/content/lib/pyswitch/controller/actions/EncoderAction.py
+++ b/content/lib/pyswitch/controller/actions/EncoderAction.py
@@ -132,6 +132,10 @@ class EncoderAction(Updateable):
         # No value yet
         if self._get_value() == None:
             self._set_value(0)
+
+        # Preselection has been canceled before a value was known: Start from the current value
+        if self._last_value == None:
+            self._last_value = self._get_value()
             
         # Get the delta value
         add_value = position - self.__last_pos
-- 
2.43.0


From d2cb9f7a975f5f95ef029c5ca93530c725f3b261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:23 +0000
Subject: [PATCH 06/47] fix: encoder button remembers accept/cancel mode per
 registered encoder

---
 .../pyswitch/clients/local/actions/encoder_button.py   | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/content/lib/pyswitch/clients/local/actions/encoder_button.py b/content/lib/pyswitch/clients/local/actions/encoder_button.py
index 29cf1ca..0dff9e4 100755
--- a/content/lib/pyswitch/clients/local/actions/encoder_button.py
+++ b/content/lib/pyswitch/clients/local/actions/encoder_button.py
@@ -21,17 +21,15 @@ class _EncoderButtonCallback(Callback):
     def __init__(self):
         super().__init__()
         
-        self.__encoders = []
-        self.__cancel_mode = False
+        self.__encoders = []      # Tuples of encoder and cancel mode
 
     # cancel_mode tells us what to trigger later on, accept() or cancel().
     def register_encoder(self, encoder, cancel_mode):
-        self.__encoders.append(encoder)
-        self.__cancel_mode = cancel_mode
+        self.__encoders.append((encoder, cancel_mode))
 
     def push(self):
-        for encoder in self.__encoders:
-            if self.__cancel_mode:
+        for (encoder, cancel_mode) in self.__encoders:
+            if cancel_mode:
                 encoder.cancel()
             else:
                 encoder.accept()
-- 
2.43.0


From dc8a5f520152639d2bef6d072c8171d2484305f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:26 +0000
Subject: [PATCH 07/47] fix: auto-calibrated pedal without minimum window does
 not crash at the first reading

---
 content/lib/pyswitch/controller/actions/AnalogAction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/content/lib/pyswitch/controller/actions/AnalogAction.py b/content/lib/pyswitch/controller/actions/AnalogAction.py
index eba6f24..bf34e5a 100755
--- a/content/lib/pyswitch/controller/actions/AnalogAction.py
+++ b/content/lib/pyswitch/controller/actions/AnalogAction.py
@@ -49,6 +49,7 @@ class AnalogAction(Updateable):
         self.__calibrate = auto_calibrate
         self.__cal_min = None
         self.__cal_max = None
+        self.__cal_factor = 1
         self.__cal_min_window = int(65536 * cal_min_window)
 
         self.__min_raw_value = min_raw_value   # store the custom min raw value
-- 
2.43.0


From a1bbc6751e44ec0f556f9088c74beb4f92209b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:29 +0000
Subject: [PATCH 08/47] fix: blinking value preview restores the text color of
 the label after its timeout

---
 content/lib/pyswitch/controller/preview.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/content/lib/pyswitch/controller/preview.py b/content/lib/pyswitch/controller/preview.py
index 465cda6..552b9d2 100644
--- a/content/lib/pyswitch/controller/preview.py
+++ b/content/lib/pyswitch/controller/preview.py
@@ -135,8 +135,10 @@ class ValuePreview:
         if self.label.override_text:
             # Free preview display after a period
             if not self.__stay and self.__period and self.__period.exceeded:
+                self.label.text_color = self.__orig_color
                 self.label.override_text = None
                 self.label.update_label()
+                return
 
             # Blink
             if self.__blink_period and self.__blink_period.exceeded:
-- 
2.43.0


From 38b6ed1a2e02f32d8f1cd8616c20f537c78979b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:06 +0000
Subject: [PATCH 09/47] fix: pager can directly select a page with a falsy ID
 (like zero)

---
 content/lib/pyswitch/clients/local/actions/pager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/clients/local/actions/pager.py b/content/lib/pyswitch/clients/local/actions/pager.py
index 5548c56..2c008eb 100755
--- a/content/lib/pyswitch/clients/local/actions/pager.py
+++ b/content/lib/pyswitch/clients/local/actions/pager.py
@@ -55,7 +55,7 @@ class PagerAction(Callback, Action):
 
         self.current_page_index = -1
         self.current_page_id = None
-        self.__select_page_index = self._get_page_index(select_page) if select_page else None
+        self.__select_page_index = self._get_page_index(select_page) if select_page != None else None
 
         self.enable_callback = PagerAction._EnableCallback(self)
 
-- 
2.43.0


From 5f17584567b09b40abd5b67c5b682b3e75854673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:35 +0000
Subject: [PATCH 10/47] fix: pager registers and requests its mappings, and
 notices changes of its enabled state

---
 content/lib/pyswitch/clients/local/actions/pager.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/content/lib/pyswitch/clients/local/actions/pager.py b/content/lib/pyswitch/clients/local/actions/pager.py
index 2c008eb..ec68f96 100755
--- a/content/lib/pyswitch/clients/local/actions/pager.py
+++ b/content/lib/pyswitch/clients/local/actions/pager.py
@@ -95,10 +95,16 @@ class PagerAction(Callback, Action):
     # Must be called before usage
     def init(self, appl, switch):
         Action.init(self, appl, switch)
+        Callback.init(self, appl)
 
         self.current_page_index = 0
         self.current_page_id = self.pages[self.current_page_index]["id"] if len(self.pages) > 0 else None
 
+    # Called regularly: Request the mappings, and look for changes of the enabled state
+    def update(self):
+        Callback.update(self)
+        Action.update(self)
+
     # Called when the switch is pushed down
     def push(self):
         if not len(self.pages):
-- 
2.43.0


From e2707b2c1efdc6a4e0daec6c38fda9a2e0eda6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:53 +0000
Subject: [PATCH 11/47] fix: emulator MIDI input does not drop messages which
 do not fit into the read buffer

---
 web/htdocs/python/wrappers/wrap_adafruit_midi.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/web/htdocs/python/wrappers/wrap_adafruit_midi.py b/web/htdocs/python/wrappers/wrap_adafruit_midi.py
index d5c6a66..ca059d9 100644
--- a/web/htdocs/python/wrappers/wrap_adafruit_midi.py
+++ b/web/htdocs/python/wrappers/wrap_adafruit_midi.py
@@ -1,23 +1,23 @@
 from js import externalRefs
 
 class WrapMidiInput:
+    def __init__(self):
+        self.__remaining = []      # Bytes which did not fit into the last read
+
     def read(self, num_bytes):
         if not "midiWrapper" in externalRefs.to_py() or not externalRefs.midiWrapper:
             return None
         
-        cnt = 0
-        buf = []
-        while len(externalRefs.midiWrapper.messageQueue) > 0:
+        buf = self.__remaining
+        while len(buf) < num_bytes and len(externalRefs.midiWrapper.messageQueue) > 0:
             m = externalRefs.midiWrapper.messageQueue.pop(0)
             msg = list(m)
 
-            if cnt + len(msg) > num_bytes:
-                return buf
-            
             self._monitor(msg)
-            buf += msg
+            buf = buf + msg
 
-        return buf
+        self.__remaining = buf[num_bytes:]
+        return buf[:num_bytes]
             
     def _monitor(self, msg):
         if not "midiMonitor" in externalRefs.to_py():
-- 
2.43.0


From d036fba3f2d5a2b06e129318ff5d0c03f6fb3a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:42 +0000
Subject: [PATCH 12/47] fix: MIDI messages of a source routed to both the
 application and other targets reach all of them

---
 content/lib/pyswitch/controller/midi.py | 35 +++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/content/lib/pyswitch/controller/midi.py b/content/lib/pyswitch/controller/midi.py
index 9a36f32..a386f5b 100755
--- a/content/lib/pyswitch/controller/midi.py
+++ b/content/lib/pyswitch/controller/midi.py
@@ -61,6 +61,10 @@ class MidiController:
         self.__routings_to_appl = [x for x in routings if x.target == MidiRouting.APPLICATION]
         self.__routings_external = [x for x in routings if x.source != MidiRouting.APPLICATION and x.target != MidiRouting.APPLICATION]
 
+        # Messages for the application which have already been read by the external routings (these
+        # come from sources which are routed to both the application and external targets)
+        self.__pending = []
+
     def send(self, midi_message):
         # Send to all routings which have APPLICATION as source
         for r in self.__routings_from_appl:    
@@ -70,8 +74,16 @@ class MidiController:
         # Process routings without APPLICATION involved 
         self.__process_external_routings()
 
+        # Messages already read by the external routings first
+        if self.__pending:
+            return self.__pending.pop(0)
+
         # Process routings targeting APPLICATION
         for r in self.__routings_to_appl:
+            if self.__is_external_source(r.source):
+                # Has been read already
+                continue
+
             msg = r.source.receive()
 
             if msg:
@@ -87,14 +99,25 @@ class MidiController:
         # Get all sources messages
         sources = []
         results = []
+        backlog = len(self.__pending) > 0
 
         for r in routings:
             if r.source in sources:
                 continue
 
+            shared = self.__is_appl_source(r.source)
+            if shared and backlog:
+                # Let the application catch up first
+                continue
+
+            msg = r.source.receive()
+
             sources.append(r.source)
-            results.append(r.source.receive())
-            
+            results.append(msg)
+
+            if shared and msg:
+                self.__pending.append(msg)
+
         # Distribute messages
         for r in routings:
             for i in range(len(sources)):
@@ -115,3 +138,11 @@ class MidiController:
                 r.target.send(msg)
 
                 break
+
+    # Returns if the source is routed to the application
+    def __is_appl_source(self, source):
+        return any(r.source == source for r in self.__routings_to_appl)
+
+    # Returns if the source is routed to external targets
+    def __is_external_source(self, source):
+        return any(r.source == source for r in self.__routings_external)
-- 
2.43.0


From 336ea6d6d9ce2b9c02e07d8853e540d52acdf9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:15 +0000
Subject: [PATCH 13/47] fix: do not lose encoder steps at position -1

---
 content/lib/pyswitch/controller/actions/EncoderAction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/content/lib/pyswitch/controller/actions/EncoderAction.py b/content/lib/pyswitch/controller/actions/EncoderAction.py
index f63896f..4005e32 100755
--- a/content/lib/pyswitch/controller/actions/EncoderAction.py
+++ b/content/lib/pyswitch/controller/actions/EncoderAction.py
@@ -47,7 +47,7 @@ class EncoderAction(Updateable):
         self.__max_value = max_value
         self.__step_width = step_width
 
-        self.__last_pos = -1
+        self.__last_pos = None
         self._last_value = -1
         self.__convert_value = convert_value
 
@@ -114,7 +114,7 @@ class EncoderAction(Updateable):
         position = int(position * self.__step_width)
 
         # Initialize
-        if self.__last_pos == -1:
+        if self.__last_pos == None:
             self.__last_pos = position
 
         # Reset preview if the reset mapping had a value change
-- 
2.43.0


From 77c4b750cf1c1a33322ebc583019d7a2e928504c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:50 +0000
Subject: [PATCH 14/47] fix: send encoder values again when the device changed
 the value meanwhile

---
 content/lib/pyswitch/controller/actions/EncoderAction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/content/lib/pyswitch/controller/actions/EncoderAction.py b/content/lib/pyswitch/controller/actions/EncoderAction.py
index 4005e32..28aa50b 100755
--- a/content/lib/pyswitch/controller/actions/EncoderAction.py
+++ b/content/lib/pyswitch/controller/actions/EncoderAction.py
@@ -154,8 +154,8 @@ class EncoderAction(Updateable):
         if v > self.__max_value:
             v = self.__max_value
 
-        # If changed, set or preview the value
-        if self._last_value != v:
+        # If changed, set or preview the value (the device might have changed the value meanwhile)
+        if self._last_value != v or (not self.__preselect and self._get_value() != v):
             self._last_value = v
             
             if not self.__preselect:
-- 
2.43.0


From 6a6d205046cae36ad44937971cddc441bf3615c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:44 +0000
Subject: [PATCH 15/47] fix: empty effect slots were shown enabled, and enabled
 effects disabled afterwards, when the state value was received before the
 type

---
 .../pyswitch/controller/callbacks/effect_enable.py    | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/content/lib/pyswitch/controller/callbacks/effect_enable.py b/content/lib/pyswitch/controller/callbacks/effect_enable.py
index 2eba1e8..cf9c315 100644
--- a/content/lib/pyswitch/controller/callbacks/effect_enable.py
+++ b/content/lib/pyswitch/controller/callbacks/effect_enable.py
@@ -33,10 +33,14 @@ class EffectEnableCallback(BinaryParameterCallback):
         self.__current_kpp_type = None
 
     def update_displays(self):
+        last_category = self.__effect_category
         self.__effect_category = self.get_effect_category(self.mapping_fxtype.value) if self.mapping_fxtype.value != None else self.CATEGORY_NONE
         
         if self.__effect_category == self.CATEGORY_NONE:
             self.action.feedback_state(False)
+        elif last_category == self.CATEGORY_NONE:
+            # The state has been ignored while the slot was empty, so it has to be evaluated again
+            self.evaluate_value(self.mapping.value)
 
         if self.__current_kpp_type == self.mapping_fxtype.value:
             super().update_displays()
@@ -50,6 +54,13 @@ class EffectEnableCallback(BinaryParameterCallback):
 
         super().update_displays()
 
+    # An empty slot is never shown as enabled, regardless of the state value
+    def evaluate_value(self, value):
+        if self.__effect_category == self.CATEGORY_NONE:
+            self.action.feedback_state(False)
+        else:
+            super().evaluate_value(value)
+
     # Must return the effect category for a mapping value
     def get_effect_category(self, kpp_effect_type):
         pass                                           # pragma: no cover
-- 
2.43.0


From 2e60d35df0f393d4a8f7e4a6c706c7fa95bcbc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:44 +0000
Subject: [PATCH 16/47] fix: effect type 137 (Dual Chromatic) was shown as an
 empty slot

---
 content/lib/pyswitch/clients/kemper/actions/effect_state.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/effect_state.py b/content/lib/pyswitch/clients/kemper/actions/effect_state.py
index 8052702..384f589 100755
--- a/content/lib/pyswitch/clients/kemper/actions/effect_state.py
+++ b/content/lib/pyswitch/clients/kemper/actions/effect_state.py
@@ -224,9 +224,9 @@ class KemperEffectEnableCallback(EffectEnableCallback):
         elif 129 <= kpp_effect_type <= 132:
             return self.CATEGORY_PITCH
 
-        # --- Dual / Pitch+Delay hybrids (MSB=1, decoded 138-140) ---
-        # 138=Dual Harmonic, 139=Dual Crystal, 140=Dual Loop Pitch
-        elif 138 <= kpp_effect_type <= 140:
+        # --- Dual / Pitch+Delay hybrids (MSB=1, decoded 137-140) ---
+        # 137=Dual Chromatic, 138=Dual Harmonic, 139=Dual Crystal, 140=Dual Loop Pitch
+        elif 137 <= kpp_effect_type <= 140:
             return self.CATEGORY_DUAL
 
         # --- Delay (MSB=1, decoded 145-166) ---
-- 
2.43.0


From 55e099c8051a697a9d41443914f78573cbb62185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:44 +0000
Subject: [PATCH 17/47] fix: name of the Flanger Oneway effect (type 91) was
 listed under type 90

---
 .../clients/kemper/actions/effect_state_extended_names.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/effect_state_extended_names.py b/content/lib/pyswitch/clients/kemper/actions/effect_state_extended_names.py
index 357d1da..f31476f 100644
--- a/content/lib/pyswitch/clients/kemper/actions/effect_state_extended_names.py
+++ b/content/lib/pyswitch/clients/kemper/actions/effect_state_extended_names.py
@@ -78,7 +78,7 @@ _EFFECT_TYPE_NAMES = {
     82: "Vibe",
     83: "Ph 1way",
     89: "Flanger",
-    90: "Fl 1way",
+    91: "Fl 1way",
  
     97: "Graphic",
     98: "StudioEQ",
-- 
2.43.0


From 6686058ec60d3e0c090f59392be5c71c0bd131a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:18 +0000
Subject: [PATCH 18/47] fix: a switch with hold actions ran them on the next
 press when its release was overridden (e.g. tuner opened while held)

---
 content/lib/pyswitch/controller/inputs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/content/lib/pyswitch/controller/inputs.py b/content/lib/pyswitch/controller/inputs.py
index b9dc1a4..6f9dd9b 100755
--- a/content/lib/pyswitch/controller/inputs.py
+++ b/content/lib/pyswitch/controller/inputs.py
@@ -105,6 +105,10 @@ class SwitchController:
                 if self.override_action:
                     if self.override_action.release():
                         release()
+                    else:
+                        # If the press was not overridden yet, its hold state must not leak into the next press
+                        self.__hold_active = False
+                        self.__hold_was_active = False
                 else:
                     release()
 
-- 
2.43.0


From 7c16b468d3bd42bb81340dd0214a58fd05ec8d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:35 +0000
Subject: [PATCH 19/47] fix: bank preselection blinking of disabled bank and
 rig actions must not change labels

---
 content/lib/pyswitch/clients/kemper/actions/bank_select.py  | 4 +++-
 content/lib/pyswitch/clients/kemper/actions/bank_up_down.py | 3 ++-
 content/lib/pyswitch/clients/kemper/actions/rig_select.py   | 4 +++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_select.py b/content/lib/pyswitch/clients/kemper/actions/bank_select.py
index c0469df..00a6b39 100755
--- a/content/lib/pyswitch/clients/kemper/actions/bank_select.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_select.py
@@ -108,7 +108,9 @@ class KemperBankSelectCallback(Callback):
 
         if self.__preselect and "preselectedBank" in self.__appl.shared and self.__appl.shared["preselectedBank"] == self.__bank - 1 and self.__preselect_blink_period.exceeded:
             self.__appl.shared["preselectBlinkState"] = not self.__appl.shared["preselectBlinkState"]
-            self.update_displays()
+
+            if self.action.enabled:
+                self.update_displays()
 
     def push(self):
         if self.__mapping.value == None:
diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py b/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
index d890e40..4ae88a8 100755
--- a/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
@@ -165,7 +165,8 @@ class KemperBankChangeCallback(Callback):
         if self.__preselect and "preselectedBank" in self.__appl.shared and self.__appl.shared["preselectCallback"] == self and self.__preselect_blink_period.exceeded:
             self.__appl.shared["preselectBlinkState"] = not self.__appl.shared["preselectBlinkState"]
             
-            self.update_displays()
+            if self.action.enabled:
+                self.update_displays()
 
     def reset(self):
         # TODO this should not be necessary: Normally this just resets the memory, which this class doesnt have.
diff --git a/content/lib/pyswitch/clients/kemper/actions/rig_select.py b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
index 47c9984..781e110 100755
--- a/content/lib/pyswitch/clients/kemper/actions/rig_select.py
+++ b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
@@ -215,7 +215,9 @@ class _KemperRigSelectCallback(Callback):
     
             if self.__last_blink_state != bs:
                 self.__last_blink_state = bs
-                self.update_displays()
+
+                if self.action.enabled:
+                    self.update_displays()
 
 
     def update_displays(self):
-- 
2.43.0


From 3cd55abc0916d3927d676c683d65de456a383b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:35 +0000
Subject: [PATCH 20/47] fix: disabled effect button must not redraw its label
 on rig changes

---
 content/lib/pyswitch/clients/kemper/actions/effect_button.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/effect_button.py b/content/lib/pyswitch/clients/kemper/actions/effect_button.py
index e996010..6302c53 100755
--- a/content/lib/pyswitch/clients/kemper/actions/effect_button.py
+++ b/content/lib/pyswitch/clients/kemper/actions/effect_button.py
@@ -71,7 +71,9 @@ class _KemperEffectButtonCallback(BinaryParameterCallback):
 
         if self.action.state:
             self.action.feedback_state(False)
-            self.update_displays()
+
+            if self.action.enabled:
+                self.update_displays()
 
 
 
-- 
2.43.0


From 97ff3c9d6296a8d07c88743dcb94165d92245dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:35 +0000
Subject: [PATCH 21/47] fix: a held parameter up/down action stops repeating
 when it gets disabled

---
 content/lib/pyswitch/clients/local/actions/param_change.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/content/lib/pyswitch/clients/local/actions/param_change.py b/content/lib/pyswitch/clients/local/actions/param_change.py
index 2654a69..32e1052 100755
--- a/content/lib/pyswitch/clients/local/actions/param_change.py
+++ b/content/lib/pyswitch/clients/local/actions/param_change.py
@@ -100,6 +100,10 @@ class _ParameterChangeCallback(Callback):
         if self.__preview:
             self.__preview.update()
 
+        # When disabled while being held (by paging for example), the release is not received anymore
+        if self.__pushed and not self.action.enabled:
+            self.__pushed = False
+
         if self.__pushed and self.__repeat_period and self.__repeat_period.exceeded:
             self.push()
 
-- 
2.43.0


From 41fc20edafa324fa1c2f6265676c5bf278135d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:33 +0000
Subject: [PATCH 22/47] fix: page buttons of a pager which is disabled itself
 show the selected page

---
 content/lib/pyswitch/clients/local/actions/pager.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/content/lib/pyswitch/clients/local/actions/pager.py b/content/lib/pyswitch/clients/local/actions/pager.py
index ec68f96..28bd82b 100755
--- a/content/lib/pyswitch/clients/local/actions/pager.py
+++ b/content/lib/pyswitch/clients/local/actions/pager.py
@@ -134,6 +134,10 @@ class PagerAction(Callback, Action):
         if self.current_page_index < 0:
             return 
         
+        # Update all proxies (also if the pager itself is disabled: The proxies check this for themselves)
+        for proxy in self.__proxies:
+            proxy.update_displays()
+
         if not self.enabled:
             return
         
@@ -169,8 +173,4 @@ class PagerAction(Callback, Action):
                     self.label.back_color = page_current["color"]
                 else:
                     self.label.back_color = (255, 255, 255)
-        
-        # Update all proxies, too
-        for proxy in self.__proxies:
-            proxy.update_displays()
 
-- 
2.43.0


From 4be7ed6e9eed4c751628d4f5c1045b4eaddc86e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:10 +0000
Subject: [PATCH 23/47] fix: labels without callback return to their normal
 text after a value preview

---
 content/lib/pyswitch/ui/elements.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/content/lib/pyswitch/ui/elements.py b/content/lib/pyswitch/ui/elements.py
index 08dfdc6..5a1600e 100755
--- a/content/lib/pyswitch/ui/elements.py
+++ b/content/lib/pyswitch/ui/elements.py
@@ -64,12 +64,26 @@ class DisplayLabel(DisplayElement):
         self.__label = None
 
         self.override_text = None
+
+        # Only used for labels without callback: Override text currently shown, and the text to return to
+        self.__override_shown = None
+        self.__normal_text = None
         
     def update_label(self):
         if self.override_text:
+            if not self.callback and self.text != self.__override_shown:
+                self.__normal_text = self.text
+
             self.text = self.override_text
+            self.__override_shown = self.text
         elif self.callback:
             self.callback.update_label(self)
+        elif self.__override_shown != None:
+            # Return to the normal text, if no other text has been set in between
+            if self.text == self.__override_shown:
+                self.text = self.__normal_text
+
+            self.__override_shown = None
 
     # Adds the slot to the splash
     def init(self, ui, appl):
-- 
2.43.0


From 98aa3b7f7bb843be164a32e9577e4e4579f77d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:51 +0000
Subject: [PATCH 24/47] fix: RIG_SELECT with automatic off rig remembers bank
 and rig together

---
 .../pyswitch/clients/kemper/actions/rig_select.py   | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/rig_select.py b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
index 781e110..1090402 100755
--- a/content/lib/pyswitch/clients/kemper/actions/rig_select.py
+++ b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
@@ -237,12 +237,13 @@ class _KemperRigSelectCallback(Callback):
         if self.__mapping.value != self.__current_value:
             self.__current_value = self.__mapping.value
 
-            # Auto rig off: If we are not on the "on" rig, set the current rig as "off" rig
-            if (not self.__auto_exclude_rigs or (curr_rig + 1) not in self.__auto_exclude_rigs) and self.__rig_off_auto and self.__rig != None and curr_rig != self.__rig - 1:
-                self.__rig_off = curr_rig + 1
-                
-            if self.__bank_off_auto and curr_bank != self.__bank - 1:
-                self.__bank_off = curr_bank + 1
+            # Auto rig/bank off: If we are not on the "on" rig, set the current rig and bank as "off" rig
+            if not self.state:
+                if self.__rig_off_auto and (not self.__auto_exclude_rigs or (curr_rig + 1) not in self.__auto_exclude_rigs):
+                    self.__rig_off = curr_rig + 1
+
+                if self.__bank_off_auto and (self.__rig_off != None or curr_bank != self.__bank - 1):
+                    self.__bank_off = curr_bank + 1
 
         is_current = self.state
             
-- 
2.43.0


From 6a5fc75138889448545e437590e76d687f4e68a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:56 +0000
Subject: [PATCH 25/47] fix: rig up/down ends a bank preselection like every
 other rig selection

---
 content/lib/pyswitch/clients/kemper/actions/rig_up_down.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/content/lib/pyswitch/clients/kemper/actions/rig_up_down.py b/content/lib/pyswitch/clients/kemper/actions/rig_up_down.py
index aa915f2..0b1fe92 100755
--- a/content/lib/pyswitch/clients/kemper/actions/rig_up_down.py
+++ b/content/lib/pyswitch/clients/kemper/actions/rig_up_down.py
@@ -130,6 +130,10 @@ class _KemperRigChangeCallback(Callback):
         
         self.__appl.shared["morphStateOverride"] = 0
 
+        # The rig selection also applies a preselected bank, if any
+        if "preselectedBank" in self.__appl.shared:
+            del self.__appl.shared["preselectedBank"]
+
     def release(self):
         # Send release (0) value if necessary
         if not self.__sent_rig_mapping:
-- 
2.43.0


From a2b94129ce9a3b7e58bdec845a3801c62bc60931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:56 +0000
Subject: [PATCH 26/47] fix: rig select shows the bank it toggles to when only
 an off bank is given

---
 content/lib/pyswitch/clients/kemper/actions/rig_select.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/rig_select.py b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
index 1090402..8051a9f 100755
--- a/content/lib/pyswitch/clients/kemper/actions/rig_select.py
+++ b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
@@ -266,8 +266,8 @@ class _KemperRigSelectCallback(Callback):
                     self.action.label.back_color = bank_color if is_current else dim_color(bank_color, self.__default_dim_factor_off) 
 
                     if self.__bank != None:
-                        if is_current and self.__rig_off != None and self.__bank_off != None:
-                            self.action.label.text = self.__get_text(self.__bank_off - 1, self.__rig_off - 1)
+                        if is_current and self.__bank_off != None:
+                            self.action.label.text = self.__get_text(self.__bank_off - 1, (self.__rig_off if self.__rig_off != None else self.__rig) - 1)
                         elif self.__rig != None:
                             self.action.label.text = self.__get_text(self.__bank - 1, self.__rig - 1)
                         else:
-- 
2.43.0


From f2124616eca27ddd3c9234e9cafa98a72daf1b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:35 +0000
Subject: [PATCH 27/47] fix: a release whose push has been swallowed by an
 override action is not passed to the actions

---
 content/lib/pyswitch/controller/inputs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/controller/inputs.py b/content/lib/pyswitch/controller/inputs.py
index 6f9dd9b..bd79d5c 100755
--- a/content/lib/pyswitch/controller/inputs.py
+++ b/content/lib/pyswitch/controller/inputs.py
@@ -34,6 +34,7 @@ class SwitchController:
 
         self.__appl = appl
         self.__pushed_state = False
+        self.__push_swallowed = False       # True if the last push has not been passed to the actions (see override_action)
 
         self.__colors = [(0, 0, 0) for i in range(len(self.pixels))]
         self.__brightnesses = array('f', (0 for i in range(len(self.pixels))))
@@ -109,7 +110,7 @@ class SwitchController:
                         # If the press was not overridden yet, its hold state must not leak into the next press
                         self.__hold_active = False
                         self.__hold_was_active = False
-                else:
+                elif not self.__push_swallowed:
                     release()
 
             return
@@ -122,9 +123,11 @@ class SwitchController:
         
         # Mark as pushed (prevents redundant messages in the following ticks, when the switch can still be down)
         self.__pushed_state = True
+        self.__push_swallowed = False
 
         if self.override_action:
             if not self.override_action.push():
+                self.__push_swallowed = True
                 return
 
         # Process all push actions assigned to the switch     
-- 
2.43.0


From 4a75c87b4682ab4ef2972193626e1986918789fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:35 +0000
Subject: [PATCH 28/47] fix: a switch held when the tuner is switched off by
 the device made the next tuner switch off at once

---
 content/lib/pyswitch/clients/kemper/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/content/lib/pyswitch/clients/kemper/__init__.py b/content/lib/pyswitch/clients/kemper/__init__.py
index 6737b30..db6e1a8 100755
--- a/content/lib/pyswitch/clients/kemper/__init__.py
+++ b/content/lib/pyswitch/clients/kemper/__init__.py
@@ -229,6 +229,8 @@ class TunerDisplayCallback(Callback):
                         input.brightness = 0
         else:
             # Tuner off
+            self.__pushed_before = False
+
             for input in self.__appl.inputs:
                 if hasattr(input, "pixels"):
                     input.override_action = None
-- 
2.43.0


From 3a3201089e49e8357fe4b1559aac4219a61fe0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:29 +0000
Subject: [PATCH 29/47] fix: the tuner deviance marker left its display by one
 pixel

---
 content/lib/pyswitch/ui/elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/ui/elements.py b/content/lib/pyswitch/ui/elements.py
index 5a1600e..b0b1e40 100755
--- a/content/lib/pyswitch/ui/elements.py
+++ b/content/lib/pyswitch/ui/elements.py
@@ -304,7 +304,7 @@ class TunerDisplay(DisplayElement):
         def set(self, value):
             value_scaled = value
             if self.__zoom != 1:
-                value_scaled = max(-8192, min(int((value - 8192) * self.__zoom), 8192)) + 8191
+                value_scaled = max(-8192, min(int((value - 8192) * self.__zoom), 8191)) + 8192
 
             self.__marker.x = int(self.bounds.x + (self.bounds.width - self.width) * value_scaled / 16384)
 
-- 
2.43.0


From 8b5dcd70bcf6b714f32c47d2c21925349774f848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:35 +0000
Subject: [PATCH 30/47] fix: keep LED brightness and label color of
 PARAMETER_UP_DOWN in range for values above max_value

---
 content/lib/pyswitch/clients/local/actions/param_change.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/clients/local/actions/param_change.py b/content/lib/pyswitch/clients/local/actions/param_change.py
index 32e1052..19c4cc6 100755
--- a/content/lib/pyswitch/clients/local/actions/param_change.py
+++ b/content/lib/pyswitch/clients/local/actions/param_change.py
@@ -142,7 +142,8 @@ class _ParameterChangeCallback(Callback):
         
         self.__last_value = self._mapping.value
         
-        dim_factor = (self._mapping.value / self._max_value) if self._mapping.value != None else 0
+        # The client can report values higher than the maximum set here
+        dim_factor = min(self._mapping.value / self._max_value, 1) if self._mapping.value != None else 0
         if self._offset < 0:
             dim_factor = 1 - dim_factor
 
-- 
2.43.0


From f95f84807066f4aa5440b1700c931717353903b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:17 +0000
Subject: [PATCH 31/47] fix: a parameter up/down action stops repeating when
 its release has been lost (e.g. switch released while the tuner is shown)

---
 content/lib/pyswitch/clients/local/actions/param_change.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/content/lib/pyswitch/clients/local/actions/param_change.py b/content/lib/pyswitch/clients/local/actions/param_change.py
index 19c4cc6..2d2e071 100755
--- a/content/lib/pyswitch/clients/local/actions/param_change.py
+++ b/content/lib/pyswitch/clients/local/actions/param_change.py
@@ -100,8 +100,8 @@ class _ParameterChangeCallback(Callback):
         if self.__preview:
             self.__preview.update()
 
-        # When disabled while being held (by paging for example), the release is not received anymore
-        if self.__pushed and not self.action.enabled:
+        # When disabled (by paging for example) or overridden (by the tuner) while being held, the release is not received anymore
+        if self.__pushed and not (self.action.enabled and getattr(self.action.switch, "pushed", True)):
             self.__pushed = False
 
         if self.__pushed and self.__repeat_period and self.__repeat_period.exceeded:
-- 
2.43.0


From 560093581c1ecd1474419eab3811cdf5ef3adb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:00 +0000
Subject: [PATCH 32/47] fix: labels with a multi color background crashed
 determining text color and fill color

---
 README.md                           |  4 ++--
 content/lib/pyswitch/ui/elements.py | 15 +++++++++++----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/README.md b/README.md
index f6fa8c3..9e08a64 100755
--- a/README.md
+++ b/README.md
@@ -669,8 +669,8 @@ example_layout = {
     # color automatically)
     "textColor": (255, 120, 0),                               
 
-    # Background color (default is None) Can be a tuple also to 
-    # show a rainbow background with multiple colors, 
+    # Background color (default is None) Can be a tuple of 
+    # multiple colors also (the middle one is shown), 
     # for example (Colors.GREEN, Colors.YELLOW, Colors.RED)
     "backColor": (30, 30, 30), 
                                 
diff --git a/content/lib/pyswitch/ui/elements.py b/content/lib/pyswitch/ui/elements.py
index b0b1e40..78e8943 100755
--- a/content/lib/pyswitch/ui/elements.py
+++ b/content/lib/pyswitch/ui/elements.py
@@ -20,7 +20,7 @@ class DisplayLabelLayout:
     #     "maxTextWidth": Maximum text width in pixels (default: 220) optional
     #     "lineSpacing": Line spacing (optional), float (default: 1)
     #     "textColor": Text color (default is auto)
-    #     "backColor": Background color (default is none) Can be a tuple also to show a rainbow background
+    #     "backColor": Background color (default is none) Can be a tuple of multiple colors also (the middle one is shown)
     #     "text": Initial text (default is none)
     #     "stroke": Amount of pixels to reduce from the background (fake frame, default: 0)
     # }
@@ -112,7 +112,7 @@ class DisplayLabel(DisplayElement):
                 y = self.bounds.y + self.__layout.stroke,
                 width = self.bounds.width - self.__layout.stroke * 2, 
                 height = self.bounds.height - self.__layout.stroke * 2, 
-                fill = self.__layout.back_color
+                fill = self.__get_fill_color()
             )
             ui.splash.append(self.__background)
 
@@ -168,11 +168,17 @@ class DisplayLabel(DisplayElement):
         self.__layout.back_color = color
 
         if self.__background:
-            self.__background.fill = color
+            self.__background.fill = self.__get_fill_color()
 
         # Update text color, too (might change when no initial color has been set)
         self.text_color = self.__initial_text_color
 
+    # Color to fill the background with. Multi color backgrounds show their middle color.
+    def __get_fill_color(self):
+        color = self.__layout.back_color
+        
+        return color[len(color) // 2] if isinstance(color[0], (tuple, list)) else color
+
     @property
     def text_color(self):
         return self.__layout.text_color
@@ -233,7 +239,8 @@ class DisplayLabel(DisplayElement):
         if not self.back_color:
             return Colors.WHITE
         
-        luminance = self.back_color[0] * 0.2126 + self.back_color[1] * 0.7151 + self.back_color[2] * 0.0721
+        back_color = self.__get_fill_color()
+        luminance = back_color[0] * 0.2126 + back_color[1] * 0.7151 + back_color[2] * 0.0721
 
         if luminance < 140:
             return Colors.WHITE
-- 
2.43.0


From 6765462cac5d80d6a70c4098a2580a034cb78fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:03 +0000
Subject: [PATCH 33/47] fix: split containers did not place the children passed
 to their constructor

---
 content/lib/pyswitch/ui/DisplaySplitContainer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/ui/DisplaySplitContainer.py b/content/lib/pyswitch/ui/DisplaySplitContainer.py
index 9da85e9..d38e1e0 100755
--- a/content/lib/pyswitch/ui/DisplaySplitContainer.py
+++ b/content/lib/pyswitch/ui/DisplaySplitContainer.py
@@ -10,7 +10,10 @@ class DisplaySplitContainer(DisplayElement):
     def __init__(self, direction = 0, bounds = DisplayBounds(), name = "", id = 0, children = None):
         DisplayElement.__init__(self, bounds = bounds, name = name, id = id, children = children)
 
-        self.direction = direction        
+        self.direction = direction
+
+        # Place the children passed, if any
+        self.update_bounds()
     
     # Add a child element
     def add(self, child):
-- 
2.43.0


From ca4bb4dcbda3a2a51a0a1f57450c7ac7fcac72e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:23 +0000
Subject: [PATCH 34/47] fix: virtual Kemper: answer requests for unknown string
 parameters with a string

The default for string parameters created the requested parameter with the numeric value 0, so the
request was answered with the function code of numeric parameters, which the requesting mapping (for
example the cabinet name or rig comment) does not accept.
---
 .../clients/kemper/virtual/VirtualKemperParameterDefault.js | 4 ++--
 .../clients/kemper/virtual/VirtualKemperParameters.js       | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/web/htdocs/clients/kemper/virtual/VirtualKemperParameterDefault.js b/web/htdocs/clients/kemper/virtual/VirtualKemperParameterDefault.js
index 37f9b05..8e9a9b5 100644
--- a/web/htdocs/clients/kemper/virtual/VirtualKemperParameterDefault.js
+++ b/web/htdocs/clients/kemper/virtual/VirtualKemperParameterDefault.js
@@ -19,7 +19,7 @@ class VirtualKemperParameterDefault extends VirtualKemperParameter {
         )) return false;
 
         // Requested an unknown parameter: Create it
-        const newParam = this.client.parameters.get(new NRPNKey(message.slice(8, 10)));
+        const newParam = this.client.parameters.get(new NRPNKey(message.slice(8, 10)), this.value);
 
         // Send parameter value
         newParam.send();
@@ -35,7 +35,7 @@ class VirtualKemperParameterDefault extends VirtualKemperParameter {
         )) return false;
 
         // Set an unknown parameter: Create it
-        const newParam = this.client.parameters.get(new NRPNKey(message.slice(8, 10)));
+        const newParam = this.client.parameters.get(new NRPNKey(message.slice(8, 10)), this.value);
         if (!newParam.parse(message)) throw new Error("Failed to create parameter for message: ", message);
 
         return true;
diff --git a/web/htdocs/clients/kemper/virtual/VirtualKemperParameters.js b/web/htdocs/clients/kemper/virtual/VirtualKemperParameters.js
index 92f811e..e081e91 100644
--- a/web/htdocs/clients/kemper/virtual/VirtualKemperParameters.js
+++ b/web/htdocs/clients/kemper/virtual/VirtualKemperParameters.js
@@ -79,15 +79,15 @@ class VirtualKemperParameters {
     }
 
     /**
-     * Returns the entry of the parameter (if known). Will be created if not present.
+     * Returns the entry of the parameter (if known). Will be created with the default value if not present.
      */
-    get(key) {
+    get(key, defaultValue = 0) {
         const jsonKey = key.getId();
 
         if (!this.#data.has(jsonKey)) {
             return this.init({ 
                 keys: new VirtualKemperParameterKeys({ send: key }), 
-                value: 0,
+                value: defaultValue,
                 // initiator: "auto"
             });
         }
-- 
2.43.0


From 0597061a86c509319d798241648f05fd9e6cc77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:24 +0000
Subject: [PATCH 35/47] fix: config editor: assignments to tuples, attributes
 or subscripts no longer crash the parser, and statements joined by a
 semicolon are found

---
 .../parser/misc/AddAssignmentTransformer.py   | 15 ++++++-------
 .../python/parser/misc/AssignmentExtractor.py | 19 +++++++++-------
 .../parser/misc/AssignmentNameExtractor.py    | 17 ++++++++------
 .../python/parser/misc/CodeExtractor.py       | 22 ++++++-------------
 .../misc/ReplaceAssignmentTransformer.py      |  3 ++-
 5 files changed, 37 insertions(+), 39 deletions(-)

diff --git a/web/htdocs/python/parser/misc/AddAssignmentTransformer.py b/web/htdocs/python/parser/misc/AddAssignmentTransformer.py
index e5cced1..f4978dd 100644
--- a/web/htdocs/python/parser/misc/AddAssignmentTransformer.py
+++ b/web/htdocs/python/parser/misc/AddAssignmentTransformer.py
@@ -28,14 +28,13 @@ class AddAssignmentTransformer(TransformerWithStack):
             return updated_node
         
         if self.insert_before_assign:
-            if not isinstance(updated_node.body[0], libcst.Assign):
-                return updated_node
-            
-            assign = updated_node.body[0]
-            
-            for target in assign.targets:
-                if target.target.value == self.insert_before_assign:                
-                    return libcst.FlattenSentinel([self._generate_statement(), updated_node])
+            for assign in updated_node.body:
+                if not isinstance(assign, libcst.Assign):
+                    continue
+
+                for target in assign.targets:
+                    if isinstance(target.target, libcst.Name) and target.target.value == self.insert_before_assign:
+                        return libcst.FlattenSentinel([self._generate_statement(), updated_node])
         else:
             if not self.cst:
                 raise Exception("You have to provide a CST to add a statement as last statement")
diff --git a/web/htdocs/python/parser/misc/AssignmentExtractor.py b/web/htdocs/python/parser/misc/AssignmentExtractor.py
index d191771..8a05de4 100644
--- a/web/htdocs/python/parser/misc/AssignmentExtractor.py
+++ b/web/htdocs/python/parser/misc/AssignmentExtractor.py
@@ -15,15 +15,18 @@ class AssignmentExtractor:
             if not isinstance(statement, libcst.SimpleStatementLine):
                 continue
 
-            if not isinstance(statement.body[0], libcst.Assign):
-                continue
+            for assign in statement.body:
+                if not isinstance(assign, libcst.Assign):
+                    continue
 
-            assign = statement.body[0]
+                for target in assign.targets:
+                    # Only plain names are regarded (no tuples, attributes or subscripts)
+                    if not isinstance(target.target, libcst.Name):
+                        continue
 
-            for target in assign.targets:
-                ret.append({
-                    "name": target.target.value,
-                    "node": assign.value
-                })
+                    ret.append({
+                        "name": target.target.value,
+                        "node": assign.value
+                    })
 
         return ret
\ No newline at end of file
diff --git a/web/htdocs/python/parser/misc/AssignmentNameExtractor.py b/web/htdocs/python/parser/misc/AssignmentNameExtractor.py
index f4fa4b3..f029c66 100644
--- a/web/htdocs/python/parser/misc/AssignmentNameExtractor.py
+++ b/web/htdocs/python/parser/misc/AssignmentNameExtractor.py
@@ -11,15 +11,18 @@ class AssignmentNameExtractor:
             if not isinstance(statement, libcst.SimpleStatementLine):
                 continue
 
-            if not isinstance(statement.body[0], libcst.Assign):
-                continue
+            for assign in statement.body:
+                if not isinstance(assign, libcst.Assign):
+                    continue
 
-            assign = statement.body[0]
+                for target in assign.targets:
+                    # Only plain names are regarded (no tuples, attributes or subscripts)
+                    if not isinstance(target.target, libcst.Name):
+                        continue
 
-            for target in assign.targets:
-                if target.target.value.startswith("_"):
-                    continue
+                    if target.target.value.startswith("_"):
+                        continue
 
-                ret.append(target.target.value)
+                    ret.append(target.target.value)
 
         return ret
diff --git a/web/htdocs/python/parser/misc/CodeExtractor.py b/web/htdocs/python/parser/misc/CodeExtractor.py
index e88be3f..b7eb714 100644
--- a/web/htdocs/python/parser/misc/CodeExtractor.py
+++ b/web/htdocs/python/parser/misc/CodeExtractor.py
@@ -18,24 +18,16 @@ class CodeExtractor:
     #############################################################################
 
     def get(self, assign_name):
-        for statement in self.cst.body:
-            if not isinstance(statement, libcst.SimpleStatementLine):
+        for assign in AssignmentExtractor().get(self.cst):
+            if assign["name"] != assign_name:
                 continue
 
-            if not isinstance(statement.body[0], libcst.Assign):
-                continue
-
-            assign = statement.body[0]
-            for target in assign.targets:
-                if target.target.value != assign_name:
-                    continue
+            ret = self._parse_node(assign["node"])
 
-                ret = self._parse_node(assign.value)
-
-                if isinstance(ret, dict):
-                    ret["assign"] = target.target.value                
-                
-                return ret
+            if isinstance(ret, dict):
+                ret["assign"] = assign_name
+            
+            return ret
 
         return None
     
diff --git a/web/htdocs/python/parser/misc/ReplaceAssignmentTransformer.py b/web/htdocs/python/parser/misc/ReplaceAssignmentTransformer.py
index b07ff59..d620bd5 100644
--- a/web/htdocs/python/parser/misc/ReplaceAssignmentTransformer.py
+++ b/web/htdocs/python/parser/misc/ReplaceAssignmentTransformer.py
@@ -1,3 +1,4 @@
+import libcst
 from .VisitorsWithStack import TransformerWithStack
 
 class ReplaceAssignmentTransformer(TransformerWithStack):
@@ -12,7 +13,7 @@ class ReplaceAssignmentTransformer(TransformerWithStack):
             return updated_node
         
         for target in updated_node.targets:
-            if target.target.value == self.name:
+            if isinstance(target.target, libcst.Name) and target.target.value == self.name:
                 self.replaced = True
                 return updated_node.with_changes(
                     value = self.node
-- 
2.43.0


From df28c370d3a9496430d1d8da2de7874216784c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:54 +0000
Subject: [PATCH 36/47] fix: config editor: single quoted keys, other dict keys
 and starred elements are kept when saving

---
 web/htdocs/python/parser/misc/CodeExtractor.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/web/htdocs/python/parser/misc/CodeExtractor.py b/web/htdocs/python/parser/misc/CodeExtractor.py
index b7eb714..c9e42a9 100644
--- a/web/htdocs/python/parser/misc/CodeExtractor.py
+++ b/web/htdocs/python/parser/misc/CodeExtractor.py
@@ -36,18 +36,26 @@ class CodeExtractor:
         if isinstance(node, libcst.Name):
             return self._parse_assigned(node)
         
-        elif isinstance(node, libcst.Call):
+        elif isinstance(node, libcst.Call) and not any(argument.star for argument in node.args):
             return self._parse_call(node)
         
-        elif isinstance(node, libcst.Dict):
+        elif isinstance(node, libcst.Dict) and all(self._is_plain_dict_element(element) for element in node.elements):
             return self._parse_dict(node)
         
-        elif isinstance(node, libcst.List):
+        elif isinstance(node, libcst.List) and all(isinstance(element, libcst.Element) for element in node.elements):
             return self._parse_list(node)
 
-        # Simple statement
+        # Simple statement (or one with elements which can not be represented in the data, like starred ones)
         return libcst.parse_module("").code_for_node(node)
 
+    # Only string keys without prefix can be represented in the data. The names are output in double quotes again.
+    def _is_plain_dict_element(self, element):
+        if not isinstance(element, libcst.DictElement) or not isinstance(element.key, libcst.SimpleString):
+            return False
+        
+        key = element.key
+        return not key.prefix and (key.quote == '"' or (key.quote == "'" and not '"' in key.raw_value))
+
     def _parse_call(self, call_node):
         new_value = {
             "name": libcst.parse_module("").code_for_node(call_node.func),
@@ -89,7 +97,7 @@ class CodeExtractor:
         }
 
         for dict_element in dict_node.elements:
-            key = dict_element.key.value.strip('\"')
+            key = dict_element.key.raw_value
             value = self._parse_node(dict_element.value)
             
             new_value["arguments"].append({
-- 
2.43.0


From c602e1d5dc5797b6462082b7714c6cb25e0c96f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:11 +0000
Subject: [PATCH 37/47] fix: config editor: configurations with plain splashes
 or without splashes can be saved

---
 web/htdocs/python/parser/PySwitchParser.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/web/htdocs/python/parser/PySwitchParser.py b/web/htdocs/python/parser/PySwitchParser.py
index 8e3e8bd..d778da0 100644
--- a/web/htdocs/python/parser/PySwitchParser.py
+++ b/web/htdocs/python/parser/PySwitchParser.py
@@ -69,8 +69,11 @@ class PySwitchParser:
             raise Exception("No data loaded")
         
         # Remove first assign as this can lead to endless recursion and is not relevant anyway
-        inputs_py = inputs.to_py()
-        if "assign" in inputs_py: 
+        inputs_py = self._to_py(inputs)
+        if inputs_py is None:
+            return
+        
+        if isinstance(inputs_py, dict) and "assign" in inputs_py: 
             inputs_py["assign"] = None
 
         inputs_node = CodeGenerator(
@@ -82,6 +85,10 @@ class PySwitchParser:
         
         self.set_assignment("Inputs", inputs_node, "inputs_py")
 
+    # Converts data from JS to python. Strings are already converted, and there might be no data at all.
+    def _to_py(self, data):
+        return data.to_py() if hasattr(data, "to_py") else data
+
     # Searches for an Assign with the given name and returns its node, or None if not found
     def get_assignment(self, name, file_id):
         assignments = AssignmentExtractor().get(self.__csts[file_id])
@@ -115,8 +122,11 @@ class PySwitchParser:
             raise Exception("No data loaded")
 
         # Remove first assign as this can lead to endless recursion and is not relevant anyway
-        splashes_py = splashes.to_py()
-        if "assign" in splashes_py: 
+        splashes_py = self._to_py(splashes)
+        if splashes_py is None:
+            return
+        
+        if isinstance(splashes_py, dict) and "assign" in splashes_py: 
             splashes_py["assign"] = None
 
         splashes_node = CodeGenerator(
-- 
2.43.0


From 5d1060400d4a3815df1765a0c07910ab82869940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:11 +0000
Subject: [PATCH 38/47] fix: config editor: variables holding an empty list can
 be saved

---
 web/htdocs/python/parser/misc/CodeGenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/htdocs/python/parser/misc/CodeGenerator.py b/web/htdocs/python/parser/misc/CodeGenerator.py
index cd737cd..1f5f9e7 100644
--- a/web/htdocs/python/parser/misc/CodeGenerator.py
+++ b/web/htdocs/python/parser/misc/CodeGenerator.py
@@ -29,7 +29,7 @@ class CodeGenerator:
             
             if "assign" in data and data["assign"]:
                 return self._resolve_assign(
-                    node = self._generate(data["value"], self.initial_level) if "value" in data and data["value"] else None, 
+                    node = self._generate(data["value"], self.initial_level) if "value" in data and data["value"] is not None else None, 
                     data = data
                 )                
             
-- 
2.43.0


From 2cc2f3a32f4af7ff9d3c9d4b9a91819407dde354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:11 +0000
Subject: [PATCH 39/47] fix: config editor: expressions spanning several lines
 can be saved

---
 web/htdocs/python/parser/misc/CodeExtractor.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/web/htdocs/python/parser/misc/CodeExtractor.py b/web/htdocs/python/parser/misc/CodeExtractor.py
index c9e42a9..1832d87 100644
--- a/web/htdocs/python/parser/misc/CodeExtractor.py
+++ b/web/htdocs/python/parser/misc/CodeExtractor.py
@@ -46,7 +46,13 @@ class CodeExtractor:
             return self._parse_list(node)
 
         # Simple statement (or one with elements which can not be represented in the data, like starred ones)
-        return libcst.parse_module("").code_for_node(node)
+        code = libcst.parse_module("").code_for_node(node)
+
+        # Expressions which are only valid inside of the brackets around them need their own ones
+        if not node.lpar and ("\n" in code or isinstance(node, libcst.GeneratorExp)):
+            code = "(" + code + ")"
+
+        return code
 
     # Only string keys without prefix can be represented in the data. The names are output in double quotes again.
     def _is_plain_dict_element(self, element):
-- 
2.43.0


From be9f381be406344f4f149d839f1137afc9552f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:45 +0000
Subject: [PATCH 40/47] fix: config editor: variables which are assigned
 several times keep their values

---
 .../python/parser/misc/CodeExtractor.py       | 12 ++++----
 .../misc/ReplaceAssignmentTransformer.py      | 29 +++++++++++++------
 2 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/web/htdocs/python/parser/misc/CodeExtractor.py b/web/htdocs/python/parser/misc/CodeExtractor.py
index 1832d87..d2a6a0f 100644
--- a/web/htdocs/python/parser/misc/CodeExtractor.py
+++ b/web/htdocs/python/parser/misc/CodeExtractor.py
@@ -18,7 +18,8 @@ class CodeExtractor:
     #############################################################################
 
     def get(self, assign_name):
-        for assign in AssignmentExtractor().get(self.cst):
+        # If there are several assignments, the last one is the one in effect
+        for assign in reversed(AssignmentExtractor().get(self.cst)):
             if assign["name"] != assign_name:
                 continue
 
@@ -143,12 +144,9 @@ class CodeExtractor:
         return value
     
     # Searches for an Assign with the given name and returns its node, or None if not found
+    # (or if there are several ones, because then the value depends on where the name is used)
     def _get_assignment(self, name):
-        assignments = AssignmentExtractor().get(self.cst)
+        nodes = [a["node"] for a in AssignmentExtractor().get(self.cst) if a["name"] == name]
         
-        for a in assignments:
-            if a["name"] == name:
-                return a["node"]
-            
-        return None
+        return nodes[0] if len(nodes) == 1 else None
     
diff --git a/web/htdocs/python/parser/misc/ReplaceAssignmentTransformer.py b/web/htdocs/python/parser/misc/ReplaceAssignmentTransformer.py
index d620bd5..5c252c6 100644
--- a/web/htdocs/python/parser/misc/ReplaceAssignmentTransformer.py
+++ b/web/htdocs/python/parser/misc/ReplaceAssignmentTransformer.py
@@ -7,19 +7,30 @@ class ReplaceAssignmentTransformer(TransformerWithStack):
         self.name = name
         self.node = node
         self.replaced = False
+        self._last = None
+
+    def visit_Module(self, node):
+        # If there are several assignments on module level, only the last one (which is the one in effect) is replaced 
+        for statement in node.body:
+            if not isinstance(statement, libcst.SimpleStatementLine):
+                continue
+
+            for assign in statement.body:
+                if not isinstance(assign, libcst.Assign):
+                    continue
+
+                for target in assign.targets:
+                    if isinstance(target.target, libcst.Name) and target.target.value == self.name:
+                        self._last = assign
 
     def leave_Assign(self, original_node, updated_node):
-        if len(self.stack) != 2:
+        if original_node is not self._last:
             return updated_node
         
-        for target in updated_node.targets:
-            if isinstance(target.target, libcst.Name) and target.target.value == self.name:
-                self.replaced = True
-                return updated_node.with_changes(
-                    value = self.node
-                )
-            
-        return updated_node
+        self.replaced = True
+        return updated_node.with_changes(
+            value = self.node
+        )
 
 
     
-- 
2.43.0


From 3fee3fec9b98132811d132e66eed381931ac00ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:17 +0000
Subject: [PATCH 41/47] fix: config editor: new variables are also added to
 files with compound statements or without inputs, and only once

---
 .../parser/misc/AddAssignmentTransformer.py   | 50 ++++++++-----------
 1 file changed, 21 insertions(+), 29 deletions(-)

diff --git a/web/htdocs/python/parser/misc/AddAssignmentTransformer.py b/web/htdocs/python/parser/misc/AddAssignmentTransformer.py
index f4978dd..913e8ea 100644
--- a/web/htdocs/python/parser/misc/AddAssignmentTransformer.py
+++ b/web/htdocs/python/parser/misc/AddAssignmentTransformer.py
@@ -5,46 +5,38 @@ class AddAssignmentTransformer(TransformerWithStack):
     def __init__(self, name, call_node, insert_before_assign = None, cst = None):
         super().__init__()
         self.cst = cst
-        self._count = 0
-        
         self.name = name
         self.insert_before_assign = insert_before_assign
         
         self.call_node = call_node
 
     def leave_Module(self, original_node, updated_node):
-        if not self.cst or len(self.cst.body) > 0:
-            return updated_node
-        
-        # In case there is no body, the leave_SimpleStatementLine method is never called
+        body = list(updated_node.body)
+
+        # If there is no such assignment, add it as last statement
+        index = len(body)
+
+        for i, statement in enumerate(body):
+            if self.insert_before_assign and self._is_assign(statement, self.insert_before_assign):
+                index = i
+
         return updated_node.with_changes(
-            body = [
-                self._generate_statement()
-            ]
+            body = body[:index] + [self._generate_statement()] + body[index:]
         )
 
-    def leave_SimpleStatementLine(self, original_node, updated_node):
-        if len(self.stack) != 1:
-            return updated_node
-        
-        if self.insert_before_assign:
-            for assign in updated_node.body:
-                if not isinstance(assign, libcst.Assign):
-                    continue
+    def _is_assign(self, statement, name):
+        if not isinstance(statement, libcst.SimpleStatementLine):
+            return False
 
-                for target in assign.targets:
-                    if isinstance(target.target, libcst.Name) and target.target.value == self.insert_before_assign:
-                        return libcst.FlattenSentinel([self._generate_statement(), updated_node])
-        else:
-            if not self.cst:
-                raise Exception("You have to provide a CST to add a statement as last statement")
-            
-            self._count += 1
+        for assign in statement.body:
+            if not isinstance(assign, libcst.Assign):
+                continue
 
-            if self._count == len(self.cst.body):
-                return libcst.FlattenSentinel([updated_node, self._generate_statement()])
-            
-        return updated_node        
+            for target in assign.targets:
+                if isinstance(target.target, libcst.Name) and target.target.value == name:
+                    return True
+                
+        return False
 
     def _generate_statement(self):
         return libcst.SimpleStatementLine(
-- 
2.43.0


From 6e79a2a8bcece2b6aab181a425418a4d2ae98c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:07 +0000
Subject: [PATCH 42/47] fix: config editor: new variables needed by existing
 ones are placed before them

---
 web/htdocs/python/parser/misc/CodeGenerator.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/web/htdocs/python/parser/misc/CodeGenerator.py b/web/htdocs/python/parser/misc/CodeGenerator.py
index 1f5f9e7..c8fbdb6 100644
--- a/web/htdocs/python/parser/misc/CodeGenerator.py
+++ b/web/htdocs/python/parser/misc/CodeGenerator.py
@@ -17,6 +17,19 @@ class CodeGenerator:
 
     # Implementation for generate()
     def _generate(self, data, level):
+        insert_before_assign = self.insert_before_assign
+
+        # New assignments needed by an existing one have to be placed before it
+        if self.parser and self.file_id and isinstance(data, dict) and data.get("assign") and self.parser.get_assignment(data["assign"], self.file_id):
+            self.insert_before_assign = data["assign"]
+
+        try:
+            return self._generate_node(data, level)
+        
+        finally:
+            self.insert_before_assign = insert_before_assign
+
+    def _generate_node(self, data, level):
         if isinstance(data, list):
             return self._generate_list_node(data, level)
         
-- 
2.43.0


From 651910387a0a0404714b93228bc4080685d370ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:00 +0000
Subject: [PATCH 43/47] fix: config editor: saving keeps the imports of the
 user and puts new ones on module level

---
 .../parser/misc/AddImportsTransformer.py      | 45 ++++++++++++++-----
 .../misc/RemoveUnusedImportTransformer.py     |  5 +--
 2 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/web/htdocs/python/parser/misc/AddImportsTransformer.py b/web/htdocs/python/parser/misc/AddImportsTransformer.py
index 63d8377..604a435 100644
--- a/web/htdocs/python/parser/misc/AddImportsTransformer.py
+++ b/web/htdocs/python/parser/misc/AddImportsTransformer.py
@@ -4,18 +4,39 @@ class AddImportsTransformer(libcst.CSTTransformer):
     
     def __init__(self, import_paths):
         self.import_paths = import_paths
-        self.__done = False
+        self.__names = set()
 
-    def leave_SimpleStatementLine(self, original_node, updated_node):
-        if self.__done:
-            return updated_node
-        
-        self.__done = True
+    # Collect the names already imported on module level (also in conditional code): These keep their own imports
+    def visit_FunctionDef(self, node):
+        return False
+
+    def visit_ClassDef(self, node):
+        return False
+
+    def visit_Import(self, node):
+        self._collect_names(node)
+
+    def visit_ImportFrom(self, node):
+        self._collect_names(node)
+
+    def _collect_names(self, node):
+        if isinstance(node.names, libcst.ImportStar):
+            return
         
-        new_statements = [
-            libcst.parse_statement("from " + definition["importPath"] + " import " + (definition["importName"] if "importName" in definition else definition["name"]) + "\n")
-            for definition in self.import_paths
-        ]
+        for name in node.names:
+            self.__names.add(name.asname.name.value if name.asname is not None else name.name.value)
+
+    def leave_Module(self, original_node, updated_node):
+        new_statements = []
+
+        for definition in self.import_paths:
+            name = definition["importName"] if "importName" in definition else definition["name"]
+            if name in self.__names:
+                continue
+
+            self.__names.add(name)
+            new_statements.append(libcst.parse_statement("from " + definition["importPath"] + " import " + name + "\n"))
 
-        return libcst.FlattenSentinel(new_statements + [updated_node])
-        
\ No newline at end of file
+        return updated_node.with_changes(
+            body = new_statements + list(updated_node.body)
+        )
diff --git a/web/htdocs/python/parser/misc/RemoveUnusedImportTransformer.py b/web/htdocs/python/parser/misc/RemoveUnusedImportTransformer.py
index 35b466a..697ec0c 100644
--- a/web/htdocs/python/parser/misc/RemoveUnusedImportTransformer.py
+++ b/web/htdocs/python/parser/misc/RemoveUnusedImportTransformer.py
@@ -8,16 +8,13 @@ class RemoveUnusedImportTransformer(libcst.CSTTransformer):
 
         self.unused_imports = defaultdict(set)
         
-        imported = []
         for scope in scopes:
             for assignment in scope.assignments:
                 node = assignment.node
 
                 if isinstance(assignment, libcst.metadata.Assignment) and isinstance(node, (libcst.Import, libcst.ImportFrom)):                    
-                    if len(assignment.references) == 0 or assignment.name in imported:                        
+                    if len(assignment.references) == 0:
                         self.unused_imports[node].add(assignment.name)
-                    else:
-                        imported.append(assignment.name)
 
     def _leave_import_alike(self, original_node, updated_node):
         if original_node not in self.unused_imports:
-- 
2.43.0


From b0bd83de362e6e9c0f0b2ce88b3c383754f55662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:58 +0000
Subject: [PATCH 44/47] fix: config editor lost the inputs when they are held
 by another variable

---
 web/htdocs/python/parser/PySwitchParser.py    | 14 +++++++----
 .../python/parser/misc/AssignmentExtractor.py | 24 ++++++++++++++++++-
 .../python/parser/misc/CodeExtractor.py       |  5 +++-
 3 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/web/htdocs/python/parser/PySwitchParser.py b/web/htdocs/python/parser/PySwitchParser.py
index d778da0..d715321 100644
--- a/web/htdocs/python/parser/PySwitchParser.py
+++ b/web/htdocs/python/parser/PySwitchParser.py
@@ -76,14 +76,17 @@ class PySwitchParser:
         if isinstance(inputs_py, dict) and "assign" in inputs_py: 
             inputs_py["assign"] = None
 
+        # The value can also be held by another variable
+        name = AssignmentExtractor().resolve(self.__csts["inputs_py"], "Inputs")
+
         inputs_node = CodeGenerator(
             parser = self, 
             file_id = "inputs_py", 
-            insert_before_assign = "Inputs",
+            insert_before_assign = name,
             format = True
         ).generate(inputs_py)
         
-        self.set_assignment("Inputs", inputs_node, "inputs_py")
+        self.set_assignment(name, inputs_node, "inputs_py")
 
     # Converts data from JS to python. Strings are already converted, and there might be no data at all.
     def _to_py(self, data):
@@ -129,14 +132,17 @@ class PySwitchParser:
         if isinstance(splashes_py, dict) and "assign" in splashes_py: 
             splashes_py["assign"] = None
 
+        # The value can also be held by another variable
+        name = AssignmentExtractor().resolve(self.__csts["display_py"], "Splashes")
+
         splashes_node = CodeGenerator(
             parser = self, 
             file_id = "display_py", 
-            insert_before_assign = "Splashes",
+            insert_before_assign = name,
             format = True
         ).generate(splashes_py)
         
-        self.set_assignment("Splashes", splashes_node, "display_py")
+        self.set_assignment(name, splashes_node, "display_py")
 
     ########################################################################################
         
diff --git a/web/htdocs/python/parser/misc/AssignmentExtractor.py b/web/htdocs/python/parser/misc/AssignmentExtractor.py
index 8a05de4..969e730 100644
--- a/web/htdocs/python/parser/misc/AssignmentExtractor.py
+++ b/web/htdocs/python/parser/misc/AssignmentExtractor.py
@@ -29,4 +29,26 @@ class AssignmentExtractor:
                         "node": assign.value
                     })
 
-        return ret
\ No newline at end of file
+        return ret
+
+    # If the variable with the passed name is just assigned another variable, the name of that one 
+    # is returned (recursively, as long as the other one is only assigned once). All other names 
+    # are returned unchanged.
+    def resolve(self, cst, name):
+        assignments = self.get(cst)
+        visited = []
+
+        while name not in visited:
+            visited.append(name)
+            nodes = [a["node"] for a in assignments if a["name"] == name]
+
+            if not nodes or not isinstance(nodes[-1], libcst.Name):
+                break
+
+            target = nodes[-1].value
+            if len([a for a in assignments if a["name"] == target]) != 1:
+                break
+
+            name = target
+
+        return name
diff --git a/web/htdocs/python/parser/misc/CodeExtractor.py b/web/htdocs/python/parser/misc/CodeExtractor.py
index d2a6a0f..fd7c811 100644
--- a/web/htdocs/python/parser/misc/CodeExtractor.py
+++ b/web/htdocs/python/parser/misc/CodeExtractor.py
@@ -18,9 +18,12 @@ class CodeExtractor:
     #############################################################################
 
     def get(self, assign_name):
+        # The value can also be held by another variable
+        value_name = AssignmentExtractor().resolve(self.cst, assign_name)
+
         # If there are several assignments, the last one is the one in effect
         for assign in reversed(AssignmentExtractor().get(self.cst)):
-            if assign["name"] != assign_name:
+            if assign["name"] != value_name:
                 continue
 
             ret = self._parse_node(assign["node"])
-- 
2.43.0


From 7dcc69bfa70d956cb24080595de00eb4bdbc7d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:17 +0000
Subject: [PATCH 45/47] fix: tempo display did not show LEDs and text again
 after page changes

---
 .../lib/pyswitch/clients/kemper/actions/tempo.py   | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/tempo.py b/content/lib/pyswitch/clients/kemper/actions/tempo.py
index 1cb6e39..6d63116 100755
--- a/content/lib/pyswitch/clients/kemper/actions/tempo.py
+++ b/content/lib/pyswitch/clients/kemper/actions/tempo.py
@@ -98,6 +98,7 @@ class _KemperShowTempoCallback(Callback):
         self.__current_value = None
         self.__last_bpm = None
         self.__last_rig = None
+        self.__redraw = False
 
     def push(self):
         pass
@@ -111,6 +112,11 @@ class _KemperShowTempoCallback(Callback):
         if self.__preview:
             self.__preview.update()
 
+    # Show everything again at the next update (the LEDs and label could have been used by others meanwhile)
+    def reset(self):
+        self.__current_value = None
+        self.__redraw = True
+
     def update_displays(self):
         # Tuner mode: Do nothing
         if self.__tuner_mapping.value == 1:
@@ -127,20 +133,22 @@ class _KemperShowTempoCallback(Callback):
         # Text to show
         text = None
         if self.__bpm_mapping and self.__bpm_mapping.value != None:
-            if self.__bpm_mapping.value != self.__last_bpm:
+            changed = self.__bpm_mapping.value != self.__last_bpm
+            if changed or self.__redraw:
                 bpm = convert_bpm(self.__bpm_mapping.value)
                 text = self._text.replace('{bpm}', bpm)
 
                 # Show in preview display? Dont do this for the first value that comes in.
-                if self.__preview and self.__last_bpm != None and self.__rig_id_mapping.value == self.__last_rig:
+                if changed and self.__preview and self.__last_bpm != None and self.__rig_id_mapping.value == self.__last_rig:
                     self.__preview.preview(
                         text = text, 
                         timeout_millis = self.__change_timeout_millis
                     )
 
                 self.__last_bpm = self.__bpm_mapping.value
+                self.__redraw = False
 
-                if self.__preview:
+                if changed and self.__preview:
                     self.__last_rig = self.__rig_id_mapping.value
 
         if self.action.label:
-- 
2.43.0


From 3c93638530259d3dfea125132ad85cd0043b84f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:08 +0000
Subject: [PATCH 46/47] fix: config editor replaced variables which are
 assigned another variable by copies of its value

---
 .../python/parser/misc/CodeExtractor.py       |  4 +++
 .../python/parser/misc/CodeGenerator.py       | 25 +++++++++++++------
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/web/htdocs/python/parser/misc/CodeExtractor.py b/web/htdocs/python/parser/misc/CodeExtractor.py
index fd7c811..fb517aa 100644
--- a/web/htdocs/python/parser/misc/CodeExtractor.py
+++ b/web/htdocs/python/parser/misc/CodeExtractor.py
@@ -143,6 +143,10 @@ class CodeExtractor:
                 "assign": assign
             }
         
+        # Variable which is just assigned another variable: Also remember the name of that one
+        if "assign" in value:
+            value["aliases"] = value.get("aliases", []) + [value["assign"]]
+
         value["assign"] = assign
         return value
     
diff --git a/web/htdocs/python/parser/misc/CodeGenerator.py b/web/htdocs/python/parser/misc/CodeGenerator.py
index c8fbdb6..fbe7a7a 100644
--- a/web/htdocs/python/parser/misc/CodeGenerator.py
+++ b/web/htdocs/python/parser/misc/CodeGenerator.py
@@ -20,8 +20,11 @@ class CodeGenerator:
         insert_before_assign = self.insert_before_assign
 
         # New assignments needed by an existing one have to be placed before it
-        if self.parser and self.file_id and isinstance(data, dict) and data.get("assign") and self.parser.get_assignment(data["assign"], self.file_id):
-            self.insert_before_assign = data["assign"]
+        if self.parser and self.file_id and isinstance(data, dict) and data.get("assign"):
+            name = (data.get("aliases", []) + [data["assign"]])[0]
+
+            if self.parser.get_assignment(name, self.file_id):
+                self.insert_before_assign = name
 
         try:
             return self._generate_node(data, level)
@@ -128,12 +131,18 @@ class CodeGenerator:
                 if not node:
                     raise Exception("You can only omit the value field when no parser is connected")
                 
-                self.parser.set_assignment(
-                    data["assign"],
-                    node,
-                    self.file_id, 
-                    insert_before_assign = self.insert_before_assign
-                )
+                # If there are aliases, these hold the value, and the variable is assigned the last one of them
+                for name in data.get("aliases", []) + [data["assign"]]:
+                    self.parser.set_assignment(
+                        name,
+                        node,
+                        self.file_id, 
+                        insert_before_assign = self.insert_before_assign
+                    )
+
+                    node = libcst.Name(
+                        value = name
+                    )
 
             return libcst.Name(
                 value = data["assign"]
-- 
2.43.0


From 87062ab6a02b4906cf38c15b5d26bf7dc7d09e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:33:49 +0000
Subject: [PATCH 47/47] fix: MIDI bridge corrupted characters at chunk borders,
 dropped byte order marks and never finished empty files

---
 web/htdocs/lib/jsmidibridge/JsMidiBridge.js | 38 ++++++++++++++-------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/web/htdocs/lib/jsmidibridge/JsMidiBridge.js b/web/htdocs/lib/jsmidibridge/JsMidiBridge.js
index adf6c05..f820f50 100755
--- a/web/htdocs/lib/jsmidibridge/JsMidiBridge.js
+++ b/web/htdocs/lib/jsmidibridge/JsMidiBridge.js
@@ -241,9 +241,7 @@ class JsMidiBridge {
 
         await this.#startSendTransmission({
             path: path, 
-            amountChunks: Math.ceil(data.length / chunkSize),
-            chunkSize: chunkSize, 
-            message: data,
+            chunks: this.#splitChunks(data, chunkSize),
             type: JMB_TRANSMISSION_TYPE_FILE
         });
     }
@@ -263,19 +261,39 @@ class JsMidiBridge {
 
         await this.#startSendTransmission({
             path: path, 
-            amountChunks: Math.ceil(message.length / chunkSize),
-            chunkSize: chunkSize,             
-            message: message,
+            chunks: this.#splitChunks(message, chunkSize),
             type: transmission_type
         });
     }
 
 
+    /**
+     * Splits the message into chunks of (at most) the given length. Characters which consist of two code units 
+     * (emojis for example) must not be split, because the chunks are encoded separately.
+     */
+    #splitChunks(message, chunkSize) {
+        const chunks = [];
+        let chunk = "";
+
+        for (const char of message) {
+            if (chunk.length > 0 && chunk.length + char.length > chunkSize) {
+                chunks.push(chunk);
+                chunk = "";
+            }
+            chunk += char;
+        }
+        chunks.push(chunk);
+
+        return chunks;
+    }
+
+
     /**
      * Adds a send transmission definition and sends the start message
      */
     async #startSendTransmission(transmission) {
         transmission.nextChunk = 0;
+        transmission.amountChunks = transmission.chunks.length;
         transmission.id = this.generateTransmissionId();
 
         this.#cleanupTransmissions();
@@ -294,11 +312,7 @@ class JsMidiBridge {
      * Send next chunk for the passed transmission
      */
     async #sendNextChunk(transmission) {
-        // Read data        
-        const chunk = transmission.message.slice(0, transmission.chunkSize);
-        transmission.message = transmission.message.slice(transmission.chunkSize);
-        
-        await this.#sendChunk(transmission, chunk);
+        await this.#sendChunk(transmission, transmission.chunks[transmission.nextChunk]);
 
         transmission.nextChunk += 1;
 
@@ -785,7 +799,7 @@ class JsMidiBridge {
 	 */ 
     bytes2string(data) {
 		const bytes = this.unpackBytes(data);
-		let utf8Decode = new TextDecoder();
+		let utf8Decode = new TextDecoder("utf-8", { ignoreBOM: true });
 		return utf8Decode.decode(new Uint8Array(bytes));
     }    
 
-- 
2.43.0

