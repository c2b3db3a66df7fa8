"""The firmware on CircuitPython: import simulation over all modules and entry points, and a construct lint for what the target interpreter lacks."""
import ast
import io
import os
import tokenize

from sa.model import Module, Program, REPO
from checks.common import *
from checks.c28 import exists
from checks.c29 import directories, loads, bound_names, order, FILES, CONTENT
import sa.model as M

# modules built into CircuitPython 9 for the supported boards, with the names they define (None: not enumerated)
BUILTIN = {
    "micropython": {"const", "heap_lock", "heap_unlock", "kbd_intr", "mem_info", "opt_level", "qstr_info", "schedule", "stack_use"},
    "gc": {"collect", "disable", "enable", "isenabled", "mem_alloc", "mem_free", "threshold"},
    "time": {"monotonic", "monotonic_ns", "sleep", "struct_time", "time", "localtime", "mktime"},
    "math": {"e", "pi", "acos", "asin", "atan", "atan2", "ceil", "copysign", "cos", "degrees", "exp", "fabs", "floor", "fmod", "frexp", "isfinite", "isinf", "isnan", "ldexp", "log", "modf", "pow", "radians", "sin", "sqrt", "tan", "trunc", "inf", "nan", "tau", "acosh", "asinh", "atanh", "cosh", "erf", "erfc", "expm1", "gamma", "lgamma", "log10", "log2", "sinh", "tanh", "isclose", "factorial"},
    "array": {"array"},
    "struct": {"calcsize", "pack", "pack_into", "unpack", "unpack_from"},
    "collections": {"namedtuple", "OrderedDict", "deque"},
    "random": {"seed", "getrandbits", "randrange", "randint", "choice", "random", "uniform"},
    "json": {"dump", "dumps", "load", "loads"},
    "binascii": {"a2b_base64", "a2b_hex", "b2a_base64", "b2a_hex", "crc32", "hexlify", "unhexlify"},
    "re": {"match", "search", "sub", "compile"},
    "io": {"BytesIO", "StringIO", "open"},
    "errno": None,
    "os": {"chdir", "getcwd", "getenv", "listdir", "mkdir", "remove", "rename", "rmdir", "sep", "stat", "statvfs", "sync", "uname", "unlink", "urandom", "utime"},
    "sys": {"argv", "byteorder", "exit", "implementation", "maxsize", "modules", "path", "platform", "print_exception", "stderr", "stdin", "stdout", "version", "version_info"},
    "traceback": {"format_exception", "print_exception", "print_tb"},
    "supervisor": {"disable_autoreload", "reload", "runtime", "set_next_code_file", "status_bar", "ticks_ms", "get_previous_traceback", "get_setting", "set_usb_identification", "reset_terminal", "RunReason", "Runtime", "StatusBar"},
    "storage": {"disable_usb_drive", "enable_usb_drive", "erase_filesystem", "getmount", "mount", "remount", "umount", "VfsFat"},
    "microcontroller": None,
    "board": None,
    "digitalio": {"DigitalInOut", "Direction", "DriveMode", "Pull"},
    "analogio": {"AnalogIn", "AnalogOut"},
    "busio": {"I2C", "OneWire", "SPI", "UART"},
    "rotaryio": {"IncrementalEncoder"},
    "usb_midi": {"PortIn", "PortOut", "disable", "enable", "ports"},
    "usb_hid": {"Device", "devices", "disable", "enable", "get_boot_device", "set_interface_name"},
    "usb_cdc": None,
    "displayio": {"FourWire", "Bitmap", "ColorConverter", "Colorspace", "CIRCUITPYTHON_TERMINAL", "Group", "OnDiskBitmap", "Palette", "TileGrid", "release_displays"},
    "busdisplay": {"BusDisplay"},
    "fourwire": {"FourWire"},
    "terminalio": {"FONT", "Terminal"},
    "fontio": {"BuiltinFont", "FontProtocol", "Glyph"},
    "vectorio": {"Circle", "Polygon", "Rectangle"},
    "neopixel_write": {"neopixel_write"},
    "pwmio": {"PWMOut"},
    "keypad": None, "bitmaptools": None, "countio": None, "pulseio": None, "alarm": None, "atexit": None, "nvm": None, "watchdog": None, "select": None, "builtins": None, "ulab": None, "zlib": None, "warnings": None, "locale": None, "rainbowio": None, "getpass": None, "framebufferio": None, "paralleldisplaybus": None, "i2cdisplaybus": None, "synthio": None, "audiocore": None, "touchio": None, "rtc": None, "rp2pio": None, "audiobusio": None, "audiopwmio": None, "audiomixer": None, "adafruit_bus_device": None, "adafruit_pixelbuf": {"PixelBuf"}, "codeop": None, "cyw43": None, "msgpack": None, "onewireio": None, "sharpdisplay": None, "floppyio": None, "imagecapture": None, "bitbangio": None, "bitops": None, "canio": None, "gifio": None, "jpegio": None, "memorymap": None, "aesio": None, "usb_host": None, "usb_video": None, "qrio": None, "tilepalettemapper": None, "is31fl3741": None,
}

NO_BUILTIN = {"ascii", "breakpoint", "vars", "format", "aiter", "anext", "copyright", "credits", "license", "ExceptionGroup", "BaseExceptionGroup", "RecursionError", "ModuleNotFoundError", "FileNotFoundError", "PermissionError", "InterruptedError", "ProcessLookupError", "NotADirectoryError", "IsADirectoryError"}
NO_METHOD = {"removeprefix", "removesuffix", "ljust", "rjust", "zfill", "title", "capitalize", "isalnum", "isdecimal", "isidentifier", "isprintable", "istitle", "swapcase", "casefold", "expandtabs", "translate", "maketrans", "format_map", "bit_length", "bit_count", "as_integer_ratio", "is_integer", "fromhex", "isascii", "isnumeric"}


def sources():
    """[(Program, Module)] all Python sources that run on the device"""
    fw = M.firmware()
    base = Program([])
    base.modules = dict(fw.modules)
    lib = os.path.join(CONTENT, "lib")
    for dp, dn, fn in os.walk(lib):
        dn[:] = sorted(x for x in dn if x not in ("pyswitch", "__pycache__"))
        for f in sorted(fn):
            if f.endswith(".py"):
                n = os.path.relpath(os.path.join(dp, f), lib)[:-3].replace(os.sep, ".")
                pkg = n.endswith(".__init__")
                n = n[:-9] if pkg else n
                base.modules[n] = Module(base, n, os.path.join(dp, f), pkg)
    for f in sorted(os.listdir(CONTENT)):
        if f.endswith(".py"):
            base.modules[f[:-3]] = Module(base, f[:-3], os.path.join(CONTENT, f), False)
    return base


def run(chk):
    chk.rule("modules", "every imported module is part of the firmware, shipped with it, or built into CircuitPython")
    chk.rule("names", "every imported name is defined by the module it is imported from")
    chk.rule("cycles", "whatever module is imported first, no import reads a name before it is defined")
    chk.rule("order", "no name is used at import time before it is defined, and no function uses a name that is never defined")
    chk.rule("syntax", "no syntax is used that the target interpreter does not support")
    chk.rule("builtins", "no built-in function, method or exception is used that the target interpreter lacks")
    chk.rule("library", "attributes read from built-in modules exist in CircuitPython")
    p = sources()
    mods = sorted(p.modules)
    extra = []
    for d in directories():
        for n in FILES:
            f = os.path.join(d, n + ".py")
            if d != CONTENT and os.path.exists(f):
                extra.append(f)
    for n in mods:
        one(chk, p, p.modules[n])
    for f in extra:
        q = Program([])
        q.modules = p.modules
        m = Module(q, os.path.basename(f)[:-3], f, False)
        lint(chk, m)
    for n in mods:
        entry(chk, p, n)
    chk.notes["modules"] = len(mods)
    chk.notes["configuration_files"] = len(extra)
    for r, n in (("modules", 150), ("names", 400), ("cycles", 90), ("order", 90), ("syntax", 190), ("builtins", 190), ("library", 20)):
        chk.floor(r, n)


def one(chk, p, mod):
    soft = optional(mod.tree)
    for s in ast.walk(mod.tree):
        where = "%s:%d" % (mod.rel, getattr(s, "lineno", 0))
        if s in soft:
            chk.ob("modules", "%s optional import, line %d" % (mod.name, s.lineno), True)
        elif isinstance(s, ast.ImportFrom):
            m = mod._abs(s)
            if not chk.ob("modules", "%s imports %s" % (mod.name, m), m in p.modules or known(m), "module %s does not exist on the device" % m, where):
                continue
            for a in s.names:
                if a.name == "*":
                    continue
                if m in p.modules:
                    r = p.lookup_from(m, a.name)
                    good = r is not None and r[0] != "missing"
                    if not good:
                        good = submodule(m, a.name)
                else:
                    good = defines(m, a.name)
                chk.ob("names", "%s imports %s.%s" % (mod.name, m, a.name), good, "%s is not defined by %s" % (a.name, m), where)
        elif isinstance(s, ast.Import):
            for a in s.names:
                chk.ob("modules", "%s imports %s" % (mod.name, a.name), a.name in p.modules or known(a.name), "module %s does not exist on the device" % a.name, where)
    bad = [x for x in order(mod)]
    chk.ob("order", mod.name, not bad, "%s is used before it is defined, or never defined" % (bad[0][0] if bad else ""), "%s:%d" % (mod.rel, bad[0][1] if bad else 0))
    library(chk, p, mod)
    lint(chk, mod)


def optional(tree):
    """imports in try blocks that handle ImportError"""
    out = set()
    for t in ast.walk(tree):
        if isinstance(t, ast.Try) and any(h.type is None or any(isinstance(x, ast.Name) and x.id in ("ImportError", "Exception") for x in ast.walk(h.type)) for h in t.handlers):
            for b in t.body:
                out |= {x for x in ast.walk(b) if isinstance(x, (ast.Import, ast.ImportFrom))}
    return out


def known(m):
    return m in BUILTIN or shipped(m) is not None


def shipped(m):
    b = os.path.join(CONTENT, "lib", *m.split("."))
    for x in (".mpy", ".py", os.sep + "__init__.mpy", os.sep + "__init__.py"):
        if os.path.exists(b + x):
            return b + x
    return b if os.path.isdir(b) else None


def submodule(m, n):
    return shipped(m + "." + n) is not None


def defines(m, n):
    if m in BUILTIN:
        return BUILTIN[m] is None or n in BUILTIN[m]
    if submodule(m, n):
        return True
    f = shipped(m)
    if f and f.endswith(".mpy"):
        with open(f, "rb") as h:
            return n.encode() in h.read()
    return False


def library(chk, p, mod):
    """attributes of built-in modules"""
    mods = {}
    for s in ast.walk(mod.tree):
        if isinstance(s, ast.Import):
            for a in s.names:
                if BUILTIN.get(a.name.split(".")[0]) is not None:
                    mods[a.asname or a.name.split(".")[0]] = a.name
        elif isinstance(s, ast.ImportFrom):
            m = mod._abs(s)
            if m in p.modules or m not in BUILTIN:
                continue
            chk.ob("library", "%s uses %s" % (mod.name, m), True)
    for s in ast.walk(mod.tree):
        if isinstance(s, ast.Attribute) and isinstance(s.value, ast.Name) and s.value.id in mods:
            m = mods[s.value.id]
            chk.ob("library", "%s uses %s.%s" % (mod.name, m, s.attr), s.attr in BUILTIN[m.split(".")[0]], "%s has no %s in CircuitPython" % (m, s.attr), "%s:%d" % (mod.rel, s.lineno))


class Failed(Exception):
    pass


def entry(chk, p, first):
    """simulates the imports that happen when `first` is imported first"""
    space = {}
    busy = []

    def load(n, mod, line):
        if n not in p.modules:
            return
        parts = n.split(".")
        for i in range(1, len(parts)):
            par = ".".join(parts[:i])
            if par in p.modules and par not in space:
                load(par, mod, line)
        if n in space:
            return
        space[n] = set()
        busy.append(n)
        body(p.modules[n], p.modules[n].tree.body, space[n])
        busy.remove(n)
        if len(parts) > 1 and ".".join(parts[:-1]) in space:
            space[".".join(parts[:-1])].add(parts[-1])

    def body(mod, stmts, ns):
        for s in stmts:
            if isinstance(s, ast.Import):
                for a in s.names:
                    load(a.name, mod, s.lineno)
                    ns.add(a.asname or a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                m = mod._abs(s)
                load(m, mod, s.lineno)
                for a in s.names:
                    if m in p.modules:
                        if a.name == "*":
                            ns |= space[m]
                            continue
                        if a.name not in space[m] and m + "." + a.name in p.modules:
                            load(m + "." + a.name, mod, s.lineno)
                        elif a.name not in space[m] and m in busy:
                            raise Failed("%s is imported from %s while that module is still being imported and has not defined it" % (a.name, m), "%s:%d" % (mod.rel, s.lineno))
                    ns.add(a.asname or a.name)
            elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                ns.add(s.name)
            elif isinstance(s, (ast.If, ast.For, ast.While, ast.Try, ast.With)):
                if isinstance(s, ast.For):
                    bound_names(s.target, ns)
                for f in ("body", "handlers", "orelse", "finalbody"):
                    for q in getattr(s, f, []) or []:
                        body(mod, q.body if isinstance(q, ast.ExceptHandler) else [q], ns)
            else:
                bound_names(s, ns)
    try:
        load(first, p.modules[first], 0)
        chk.ob("cycles", first, True)
    except Failed as x:
        chk.ob("cycles", first, False, x.args[0], x.args[1])


def lint(chk, mod):
    bad, miss = [], []
    for x in ast.walk(mod.tree):
        n = type(x).__name__
        line = getattr(x, "lineno", 0)
        if n in ("Match", "TryStar", "TypeAlias"):
            bad.append((line, "%s statement" % n))
        elif isinstance(x, (ast.List, ast.Tuple, ast.Set)) and isinstance(getattr(x, "ctx", ast.Load()), ast.Load) and any(isinstance(e, ast.Starred) for e in x.elts):
            bad.append((line, "unpacking in a display"))
        elif isinstance(x, ast.Dict) and any(k is None for k in x.keys):
            bad.append((line, "unpacking in a dictionary"))
        elif isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) and x.args.posonlyargs:
            bad.append((line, "positional-only parameters"))
        elif isinstance(x, (ast.FunctionDef, ast.ClassDef)) and getattr(x, "type_params", None):
            bad.append((line, "type parameters"))
        elif isinstance(x, ast.ClassDef) and x.keywords:
            bad.append((line, "class keyword arguments"))
        elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in NO_BUILTIN and x.id not in mod.bind:
            miss.append((line, "the built-in %s" % x.id))
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in NO_METHOD and not defined_method(mod, x.func.attr):
            miss.append((line, "the method %s" % x.func.attr))
    bad += fstrings(mod)
    chk.ob("syntax", mod.rel, not bad, "%s is not supported on the device" % (bad[0][1] if bad else ""), "%s:%d" % (mod.rel, bad[0][0] if bad else 0))
    chk.ob("builtins", mod.rel, not miss, "%s does not exist on the device" % (miss[0][1] if miss else ""), "%s:%d" % (mod.rel, miss[0][0] if miss else 0))


_methods = set()


def defined_method(mod, n):
    if not _methods:
        for m in M.firmware().modules.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.FunctionDef):
                    _methods.add(x.name)
    return n in _methods


def fstrings(mod):
    """f-strings nested in f-strings, or with comments in replacement fields. (Reused quotes are fine: MicroPython copies a field up to its closing brace)"""
    out = []
    if not hasattr(tokenize, "FSTRING_START"):
        return out
    depth = 0
    for t in tokenize.generate_tokens(io.StringIO(mod.src).readline):
        if t.type == tokenize.FSTRING_START:
            if depth:
                out.append((t.start[0], "nested f-string"))
            depth += 1
        elif t.type == tokenize.FSTRING_END:
            depth -= 1
        elif depth and t.type == tokenize.COMMENT:
            out.append((t.start[0], "a comment inside of an f-string"))
    return out
