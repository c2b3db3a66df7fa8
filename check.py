#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: decides one property from /repo's current source."""
import importlib
import os
import sys
import threading

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def go(out):
    from sa import report
    pid = sys.argv[1].upper()
    mod = importlib.import_module("checks." + pid.lower())
    out.append(report.main(pid, mod.run, getattr(mod, "LEVEL", "other")))


if __name__ == "__main__":
    if "--selftest" in sys.argv:
        from sa.model import firmware
        print("%d firmware modules parsed" % len(firmware().modules))
        sys.exit(0)
    threading.stack_size(512 * 1024 * 1024)
    res = []
    t = threading.Thread(target=go, args=(res,))
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(res[0] if res else 3)
