"""Parameter registry: names of all mapping factories pairwise against their messages, and the registry itself."""
from checks.common import *
from checks.c06 import message
from checks.mappings import all_definitions


def run(chk):
    chk.rule("unique", "two definitions with the same name have the same messages")
    chk.rule("named", "every parameter has a non-empty text name")
    chk.rule("arguments", "different arguments which lead to different messages lead to different names")
    chk.rule("registry", "asking twice for a name yields the same object with its messages unchanged, other names yield other objects with the given messages")
    lab, defs = all_definitions(chk, "named")
    by = {}
    for label_, args, name, d, where in defs:
        cons = label_ + ("(%s)" % ", ".join("%s=%s" % x for x in args.items()) if args else "")
        chk.ob("named", cons, isinstance(name, str) and bool(name), "the name is %r" % (name,), where)
        by.setdefault(name, []).append((cons, label_, d, where))
    for name, xs in by.items():
        for cons, label_, d, where in xs[1:]:
            chk.ob("unique" if label_ != xs[0][1] else "arguments", "%s / %s" % (xs[0][0], cons), d == xs[0][2], "both are named %r but differ: %s" % (name, {k: (d[k], xs[0][2][k]) for k in d if d[k] != xs[0][2][k]}), where)
    groups = {}
    for label_, args, name, d, where in defs:
        groups.setdefault(label_, []).append((args, name, d, where))
    for label_, xs in groups.items():
        for i, (a, n, d, w) in enumerate(xs):
            for a2, n2, d2, w2 in xs[:i]:
                if d != d2:
                    chk.ob("arguments", "%s %s / %s" % (label_, a2, a), n != n2, "both are named %r" % (n,), w)
    # any two different definitions
    allnames = [(n, label_, args, d, w) for label_, args, n, d, w in defs]
    for i, (n, l1, a1, d, w) in enumerate(allnames):
        clash = [(l2, a2) for n2, l2, a2, d2, _ in allnames if n2 == n and d2 != d]
        chk.ob("unique", "%s%s" % (l1, a1 or ""), not clash, "the name %r is also used by %s" % (n, clash), w)
    registry(chk)
    for r, k in (("unique", 80), ("arguments", 50), ("registry", 20)):
        chk.floor(r, k)


def registry(chk):
    for first in ("ClientParameterMapping", "ClientTwoPartParameterMapping"):
        for second, NA, NB in [(x, a_, b_) for x in ("ClientParameterMapping", "ClientTwoPartParameterMapping") for a_, b_ in (("one", "two"), ("Slot Type DLY", "Slot Type DLYns"), ("Slot Type DLYns", "Slot Type DLY"), ("Rig", "rig"), ("x Rig", "Rig"))]:
            lab = Lab()
            e, st = lab.e, lab.st

            def get(s, cn, name, **kw):
                fi = lab.cls(CLI, cn).find("get")
                return lab.e.call(e.fv(fi), [], dict({"name": c(name)}, **kw), s, None, None)

            def msgs(i):
                return {"set": message(lab, st, CC, 10 + i, 0), "request": message(lab, st, SX, [0, 1, 2], [i] * 6), "response": e.mklist(st, [message(lab, st, CC, 20 + i, 0), message(lab, st, CC, 30 + i, 0)]) if True else None,
                        "type": c(i % 2), "depends": c("dep%d" % i), "value": c(i)}
            a, b = msgs(1), msgs(2)
            for s1, x in ok(chk, "registry", first, get(st, first, NA, **a)):
                for s2, y in ok(chk, "registry", second, get(s1, second, NB, **b)):
                    for s3, z in ok(chk, "registry", "again", get(s2, first, NA, **b)):
                        for s4, z2 in ok(chk, "registry", "again", get(s3, second, NB, **a)):
                            cons = "%s then %s" % (first, second)
                            chk.ob("registry", cons + " same", z == x and z2 == y, "asking again for a name yields another object")
                            chk.ob("registry", cons + " different", x != y, "two names share one object")
                            for o, m, n in ((x, a, NA), (y, b, NB)):
                                for k, v in list(m.items()) + [("name", c(n))]:
                                    chk.ob("registry", cons + " " + k, hget(lab, s4, o, k) == v, "%s of %r is %s" % (k, n, e.describe(hget(lab, s4, o, k) or NONE, s4)))
                                ci = e.class_of(o, s4)
                                chk.ob("registry", cons + " class", ci is not None and ci.name == (first if n == NA else second), "%r is a %s" % (n, ci.name if ci else None))
            chk.analysed(e)
