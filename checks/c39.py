"""The MIDI bridge of the editor, lowered from JavaScript, against a second instance of itself: transfers of texts of all kinds and chunk sizes, requests, errors, lost, repeated and damaged messages."""
import os

from sa import js
from sa.model import Program, REPO
from checks.common import *

F = os.path.join(REPO, "web/htdocs/lib/jsmidibridge/JsMidiBridge.js")
CLASS = "JsMidiBridge"
BASE = []


def units(s):
    """text as JavaScript sees it: UTF-16 units"""
    return s.encode("utf-16-le", "surrogatepass").decode("utf-16-le", "surrogatepass") if all(ord(x) < 0x10000 for x in s) else "".join(chr(int.from_bytes(b, "little")) for b in (lambda d: [d[i:i + 2] for i in range(0, len(d), 2)])(s.encode("utf-16-le", "surrogatepass")))


def utf8(s):
    """TextEncoder: pairs of surrogates are one character, single ones are replaced"""
    return s.encode("utf-16-le", "surrogatepass").decode("utf-16-le", "replace").encode("utf-8")


def text(b, keep):
    """TextDecoder: a byte order mark at the start is dropped by default"""
    t = b.decode("utf-8", "replace")
    return units(t[1:] if t.startswith("\ufeff") and not keep else t)


def program():
    if not BASE:
        p = Program([])
        p.js = js.load(p, [F])
        if CLASS not in p.js:
            raise AnalysisBroken("class %s not found" % CLASS)
        BASE.append(p)
    return BASE[0]


class Broken(Exception):
    pass


def shown(t, n=24):
    return ascii(t if len(t) <= n else t[:n] + "..." + str(len(t)))


class Pair:
    """two bridges connected to each other; everything is concrete, so there is one path"""

    def __init__(self, n=2):
        self.lab = lab = Lab(program(), volatile_period=False)
        e = lab.e
        e.no_merge = True
        e.opaque_raises = False
        self.rt = js.Runtime(lab)
        self.st = lab.st

        def known(v, t, what, eng, ctx, node):
            if v[0] == "c" and isinstance(v[2], t):
                return v[2]
            raise AnalysisBroken("%s of an unknown value: %s" % (what, eng.where(ctx, node)))

        def u8(eng, st, a, k, ctx, node):
            v = a[0] if a else c(b"")
            if v[0] == "c" and isinstance(v[2], bytes):
                return [(st, v)]
            x = plain(lab, v, st)
            if isinstance(x, int):
                return [(st, c(bytes(x)))]
            if not isinstance(x, (list, tuple)) or not all(isinstance(i, int) for i in x):
                raise AnalysisBroken("bytes of unknown values: %s" % eng.where(ctx, node))
            return [(st, c(bytes(i & 255 for i in x)))]
        for n_, h in (("js_u8", u8), ("js_utf8", lambda eng, st, a, k, ctx, node: [(st, c(utf8(known(a[0], str, "UTF-8 bytes", eng, ctx, node))))]),
                      ("js_text", lambda eng, st, a, k, ctx, node: [(st, c(text(known(a[0], bytes, "text", eng, ctx, node), a[1] == TRUE)))]),
                      ("js_chars", lambda eng, st, a, k, ctx, node: [(st, tup(*[c(units(x)) for x in known(a[0], str, "characters", eng, ctx, node).encode("utf-16-le", "surrogatepass").decode("utf-16-le", "replace")]))])):
            e.hooks["js_prelude." + n_] = h
        e.attr_hooks.insert(0, lambda eng, st, b, n, ctx, node: [(st, c("error: %s" % b[1]))] if b[0] == "exc" and n == "message" else None)
        self.files, self.got, self.errors, self.queue, self.acked, self.progress, self.started = {}, [], [], [], [], [], []
        self.side = []
        ci = lab.p.cls(lab.p.js[CLASS], CLASS)
        for i in range(n):
            o = self.do(lab.new(ci, [], st=self.st), "the constructor")
            self.side.append(o)
            for name, f in (("sendSysex", self.out), ("getFile", self.file), ("onReceiveFinish", self.finish), ("onError", self.error), ("onReceiveAck", self.ack), ("onReceiveStart", self.start), ("onReceiveProgress", self.step), ("onSendProgress", self.none)):
                cb = lab.bound("%s of %d" % (name, i), st=self.st, open=False)
                e.call_hooks.insert(0, lambda eng, f_, args, kwargs, st, ctx, node, cb=cb, f=f, i=i: [(st, f(i, eng, st, args))] if f_ == cb else None)
                self.do(lab.set(o, name, cb, st=self.st), name)

    # -- callbacks
    def out(self, i, eng, st, a):
        m, d = [plain(self.lab, x, st) for x in a]
        self.queue.append((i, list(m), list(d)))
        return NONE

    def file(self, i, eng, st, a):
        return c(units(self.files[a[0][2]])) if a[0][0] == "c" and a[0][2] in self.files else NONE

    def data(self, st, v):
        return {k: plain(self.lab, x, st) for k, x in self.lab.e.h(st, v).attrs.items()}

    def finish(self, i, eng, st, a):
        d = self.data(st, a[0])
        self.got.append((i, d.get("path"), d.get("data")))
        return NONE

    def error(self, i, eng, st, a):
        self.errors.append((i, plain(self.lab, a[0], st)))
        return NONE

    def ack(self, i, eng, st, a):
        self.acked.append(i)
        return NONE

    def start(self, i, eng, st, a):
        self.started.append((i, self.data(st, a[0])))
        return NONE

    def step(self, i, eng, st, a):
        self.progress.append((i, self.data(st, a[0])))
        return NONE

    def none(self, i, eng, st, a):
        return NONE

    # -- actions
    def do(self, results, what):
        rs = list(results)
        if len(rs) != 1:
            raise AnalysisBroken("%s: %d paths" % (what, len(rs)))
        self.st, v = rs[0]
        if isinstance(v, Raise):
            raise Broken("%s raises %s %s (%s)" % (what, v.exc, v.msg, v.where))
        return v

    def js(self, i, name, *args):
        return self.do(self.lab.method(self.side[i], name, [build(self.lab, a, self.st) for a in args], st=self.st), name)

    def deliver(self, msg, to=None):
        i, m, d = msg
        o = self.rt.obj(self.st, {"manufacturerId": build(self.lab, m, self.st), "data": build(self.lab, d, self.st)})
        return self.do(self.lab.method(self.side[1 - i if to is None else to], "receive", [o], st=self.st), "receive")

    def run(self, limit=400, each=None):
        n = 0
        while self.queue and n < limit:
            m = self.queue.pop(0)
            n += 1
            if each is not None and each(n, m):
                continue
            self.deliver(m)
        if self.queue:
            raise Broken("the transfer does not come to an end")
        return n


TEXTS = [
    "A", "ab", "abcdefg", "abcdefgh", "0123456789abcdef", "\n", "\x00\x01\x7f", "line 1\nline 2\r\n\tx = '\"\\'", "\u00e4\u00f6\u00fc\u20ac\u4e2d", "\xff" * 5, " " * 9,
    "g\U0001F3B8h", "\U0001F3B8\U0001F3B8\U0001F3B8", "x\ufeffy", "\ufeffz",
]


def run(chk):
    chk.rule("transfer", "a text arrives at the other side exactly once and exactly as it has been sent, with its path; the sender is told")
    chk.rule("midi", "everything sent consists of MIDI data bytes and is addressed to the bridge")
    chk.rule("flow", "a chunk is sent only after the one before has been acknowledged; the receiver learns about the start and each chunk in order")
    chk.rule("request", "a requested file is sent completely; a file which does not exist leads to an error at the requesting side")
    chk.rule("damage", "a damaged message never changes what arrives: it is answered with an error")
    chk.rule("order", "lost or repeated chunks never lead to a changed file: the file arrives as it has been sent or not at all")
    chk.rule("parallel", "transfers in both directions and several at once do not disturb each other")
    chk.rule("number", "numbers and bytes keep their value when they are coded for MIDI")
    items = []
    for t in TEXTS:
        for size in ((1, 2, 3, 7) if chk.thorough or len(t) < 10 else (1, 3, len(t) - 1)) + (len(t), 100):
            items.append(("transfer", t, size))
    items += [("transfer", "x" * 64 + "\U0001F3B8" + "y" * 4, 65), ("transfer", "0123456789" * 13, 65), ("transfer", "ab" * 20, 1), ("transfer", "e" * 100, 100)]
    items += [("request", n, t) for n in (1, 5, 100) for t in ("f", "hello world", "\u00e4" * 11, None)]
    items += [("request", n, "") for n in (1, 100)]
    items += [("damage", k, x) for k in range(3) for x in ((1, 1), (2, 64), (3, 2), (4, 8), (5, 64), (8, 1), (9, 32), (12, 4), (-1, 64), (-2, 1))]
    items += [("order", k, how) for k in range(1, 7) for how in ("lost", "twice", "again")]
    items += [("parallel", "same", 0), ("parallel", "both", 0), ("parallel", "id", 0)]
    items += [("number", n, b) for n in (0, 1, 127, 128, 255, 256, 16383, 65535) for b in (2, 3)] + [("number", n, 3) for n in (65536, 2097151, 16777215)] + [("bytes", n, 0) for n in range(0, 10)]
    parallel(chk, one, items)
    for r, k in (("transfer", 60), ("midi", 60), ("flow", 60), ("request", 10), ("damage", 9), ("order", 15), ("parallel", 3), ("number", 20)):
        chk.floor(r, k)


def one(chk, kind, a, b):
    cons = {"transfer": lambda: "text %s in chunks of %d" % (shown(a), b), "request": lambda: "request in chunks of %d: %s" % (a, "no file" if b is None else shown(b)), "damage": lambda: "message %d with bits %d of byte %d changed" % (a, b[1], b[0]),
            "order": lambda: "message %d %s" % (a, b), "parallel": lambda: a, "number": lambda: "%d in %d bytes" % (a, b), "bytes": lambda: "%d bytes" % a}[kind]()
    rule = "number" if kind == "bytes" else kind
    p = Pair()
    try:
        globals()["k_" + kind](chk, p, cons, a, b)
    except Broken as ex:
        chk.ob(rule, cons, False, str(ex), F)
    chk.analysed(p.lab.e)


def k_transfer(chk, p, cons, t, size):
    u = units(t)
    want = [(1, "/dir/a.py", u)]
    log = []

    def each(n, m):
        log.append(m)
        return False
    p.js(0, "sendString", "/dir/a.py", u, size)
    ahead = len(p.queue)
    p.run(each=each)
    chk.ob("transfer", cons, p.got == want and not p.errors, "arrived: %s errors: %s" % ([shown(x[2]) for x in p.got], p.errors[:2]), F)
    chk.ob("transfer", cons + " is confirmed", p.acked == [0], "confirmed: %s" % p.acked, F)
    bad = [m for m in log if not all(isinstance(x, int) and 0 <= x < 128 for x in m[1] + m[2]) or m[1] != [0, 124, 125]]
    chk.ob("midi", cons, not bad, "%s" % bad[:1], F)
    ks = [d.get("chunk") for i, d in p.progress]
    n = p.started[0][1].get("numChunks") if p.started else None
    chk.ob("flow", cons, ahead == 2 and len(p.started) == 1 and p.started[0][0] == 1 and ks == list(range(n)) and all(d.get("numChunks") == n for _, d in p.progress), "messages at once: %d, started %s, chunks %s" % (ahead, p.started, ks), F)
    sides = [m[0] for m in log]
    chk.ob("flow", cons + " turns", sides == [0, 0] + [1, 0] * (n - 1) + [1], "messages from %s" % sides, F)


def k_request(chk, p, cons, size, t):
    if t is not None:
        p.files["/x/y.py"] = t
    p.js(1, "request", "/x/y.py", size)
    p.run()
    if not t and not p.got:
        chk.ob("request", cons, not p.got and [i for i, _ in p.errors] == [1], "arrived %s, errors %s" % (p.got, p.errors), F)
    else:
        chk.ob("request", cons, p.got == [(1, "/x/y.py", units(t))] and not p.errors, "arrived %s, errors %s" % (p.got, p.errors), F)


def k_damage(chk, p, cons, k, x):
    """message k of a transfer (start, first chunk, second chunk): one bit of its content differs"""
    t = "some text"
    seen = []

    def each(n, m):
        if m[0] == 0:
            seen.append(m)
            if len(seen) == k + 1:
                m[2][x[0] % len(m[2])] ^= x[1]
        return False
    p.js(0, "sendString", "/a", t, 6)
    p.run(each=each)
    chk.ob("damage", cons, not p.got, "arrived: %s" % p.got, F)
    chk.ob("damage", cons + " error", any("hecksum" in str(e) for _, e in p.errors), "errors: %s" % p.errors, F)


def k_order(chk, p, cons, k, how):
    t = "0123456789"
    first = []

    def each(n, m):
        first.append(m)
        if n != k:
            return False
        if how == "lost":
            return True
        if how == "twice":
            p.deliver(m)
            return False
        p.queue.append(first[max(0, n - 3)])
        return False
    p.js(0, "sendString", "/a", t, 3)
    p.run(each=each)
    chk.ob("order", cons, all(g == (1, "/a", t) for g in p.got) and len(p.got) <= 1, "arrived: %s" % p.got, F)


def k_parallel(chk, p, cons, how, _):
    if how == "same":
        p.js(0, "sendString", "/a", "first text", 3)
        p.js(0, "sendString", "/b", "another one", 2)
        want = [(1, "/a", "first text"), (1, "/b", "another one")]
    elif how == "both":
        p.js(0, "sendString", "/a", "first text", 3)
        p.js(1, "sendString", "/b", "another one", 4)
        want = [(0, "/b", "another one"), (1, "/a", "first text")]
    else:
        ids = [plain(p.lab, p.js(i, "generateTransmissionId"), p.st) for i in (0, 1, 0, 0, 1)]
        chk.ob("parallel", "transmission ids", len(set(ids)) == 5 and all(len(x) == 4 and max(x) < 128 for x in ids), "ids %s" % ids, F)
        return
    p.run()
    chk.ob("parallel", cons, sorted(p.got) == sorted(want) and not p.errors, "arrived %s, errors %s" % (p.got, p.errors), F)


def k_number(chk, p, cons, n, size):
    b = p.js(0, "number2bytes", n, size)
    v = plain(p.lab, b, p.st)
    r = plain(p.lab, p.js(0, "bytes2number", b), p.st)
    chk.ob("number", cons, r == n and isinstance(v, bytes) and max(v) < 128 and len(v) == -(-size * 8 // 7), "coded as %s, read as %s" % (v, r), F)


def k_bytes(chk, p, cons, n, _):
    for d in (bytes(range(250, 256))[:n] + bytes(range(max(0, n - 6))), b"\xff" * n, bytes(n), b"\x80" * n, b"\x01" * n):
        b = p.js(0, "packBytes", c(d))
        v = plain(p.lab, b, p.st)
        r = plain(p.lab, p.js(0, "unpackBytes", b), p.st)
        chk.ob("number", "%s %s" % (cons, d.hex()), isinstance(v, bytes) and all(x < 128 for x in v) and r == d, "packed %s, unpacked %s" % (v, r), F)
