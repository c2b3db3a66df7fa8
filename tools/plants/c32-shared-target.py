"""
property: C32
needs: a configuration whose list of actions is an empty list held by a variable that is used as an argument
breaks: saving fails for empty values of arguments
@@ web/htdocs/python/parser/misc/CodeGenerator.py
<<<<
        if "value" in element and element["value"] != None:
====
        if element.get("value"):
>>>>
"""
import os, sys
if not os.path.exists("web/htdocs/python/parser"):
    sys.exit(2)
try:
    import libcst
except ImportError:
    os.execv("/opt/veriftools/pyvenv/bin/python", ["/opt/veriftools/pyvenv/bin/python", os.path.abspath(__file__)])
import json, tempfile
R = os.getcwd()
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(R, "web/htdocs/python"))
from parser.PySwitchParser import PySwitchParser
class P:
    def __init__(self, d):
        self.d = d
    def to_py(self):
        return self.d
with tempfile.TemporaryDirectory() as d:
    os.symlink(os.path.join(R, "web/htdocs/definitions"), d + "/definitions")
    os.symlink(os.path.join(R, "content/lib/pyswitch"), d + "/pyswitch")
    os.chdir(d)
    try:
        p = PySwitchParser("x", '["kemper"]')
        p.from_source('from a import A\nInputs = [{"assignment": A, "actions": [], "actionsHold": [A]}]\n', "Splashes = None\n")
        p.set_inputs(P(json.loads(p.inputs())))
        out = p.to_source()["inputs_py"]
        ns = {}
        exec(out.replace("from a import A", "A = 1"), ns)
        ok = ns["Inputs"] == [{"assignment": 1, "actions": [], "actionsHold": [1]}]
    except Exception as ex:
        print(repr(ex))
        ok = False
    os.chdir(R)
sys.exit(0 if ok else 1)
