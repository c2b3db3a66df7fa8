"""demo helper: imports the firmware from /repo (current working directory) with the repository's own mocks"""
import os, sys
from unittest.mock import patch
REPO = os.environ.get("VERIF_REPO") or os.getcwd()
sys.dont_write_bytecode = True
sys.path[:0] = [REPO, os.path.join(REPO, "test", "pyswitch"), os.path.join(REPO, "content")]
import mocks_lib as ml


class _Any(object):
    pass


def mocks():
    return patch.dict(sys.modules, {
        "micropython": ml.MockMicropython, "displayio": ml.MockDisplayIO(), "adafruit_display_text": ml.MockAdafruitDisplayText(), "usb_midi": ml.MockUsbMidi(),
        "adafruit_midi": ml.MockAdafruitMIDI(),
        "adafruit_midi.control_change": ml.MockAdafruitMIDIControlChange(), "adafruit_midi.system_exclusive": ml.MockAdafruitMIDISystemExclusive(),
        "adafruit_midi.midi_message": ml.MockAdafruitMIDIMessage(), "adafruit_midi.program_change": ml.MockAdafruitMIDIProgramChange(),
        "adafruit_display_shapes.rect": ml.MockDisplayShapes().rect(), "gc": ml.MockGC()})


class Client:
    """records what is sent"""
    def __init__(self):
        self.sets = []
        self.requests = []
        self.listeners = []
    def register(self, mapping, listener=None):
        self.listeners.append((mapping, listener))
    def request(self, mapping, listener=None):
        self.requests.append(mapping)
    def set(self, mapping, value):
        self.sets.append((mapping.name if hasattr(mapping, "name") else mapping, value))
    def notify_connection_lost(self):
        pass


class Appl:
    def __init__(self, config=None, inputs=None):
        self.config = config or {}
        self.client = Client()
        self.shared = {}
        self.inputs = inputs or []
        self.updateables = []
    def add_updateable(self, u):
        self.updateables.append(u)


class Switch:
    def __init__(self, n=1, actions=()):
        self.pixels = tuple(range(n))
        self.colors = [(0, 0, 0)] * n
        self.brightnesses = [0] * n
        self.actions = list(actions)
        self.id = "S"
    color = property(lambda s: s.colors[0], lambda s, v: s.colors.__setitem__(slice(None), [v] * len(s.colors)))
    brightness = property(lambda s: s.brightnesses[0], lambda s, v: s.brightnesses.__setitem__(slice(None), [v] * len(s.brightnesses)))


class Label:
    def __init__(self):
        self.text = ""
        self.back_color = None
        self.text_color = None
        self.override_text = None
        self.id = "L"
    def update_label(self):
        pass


def expect(what, got, want):
    if got != want:
        print("FAIL %s: %r, expected %r" % (what, got, want))
        sys.exit(1)
