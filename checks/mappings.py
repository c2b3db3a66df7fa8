"""enumerates every parameter mapping factory of the firmware with all its arguments (constant evaluation of the source)"""
from checks.common import *
from checks.c06 import message

ARGS = {"slot_id": range(10), "rig": range(5), "num": range(1, 5)}


def factories(lab):
    """[(label, function value, args)] of every public mapping factory"""
    e = lab.e
    out = []
    for name, mod in sorted(lab.p.modules.items()):
        if not (name.startswith("pyswitch.clients.") and ".mappings." in name):
            continue
        for fn, fi in sorted((x.name, x) for x in mod.functions):
            if fn.startswith("MAPPING_"):
                out.append((name.split("clients.")[1] + "." + fn, e.fv(fi), fi))
    ci = lab.cls(KEM, "KemperMappings")
    for fn, fi in sorted(ci.methods.items()):
        if fn.isupper():
            out.append(("kemper.KemperMappings." + fn, e.fv(fi), fi))
    return out


def instances(lab, variants=ARGS):
    import itertools
    for label_, f, fi in factories(lab):
        a = fi.node.args
        params = [x.arg for x in a.args]
        unknown = [p for p in params if p not in variants]
        if unknown:
            raise AnalysisBroken("mapping factory %s has an unknown argument %s" % (label_, unknown))
        for combo in itertools.product(*[variants[p] for p in params]):
            yield label_, dict(zip(params, combo)), f, fi


def msgdata(lab, st, v):
    """message -> comparable python data"""
    e = lab.e
    if v is None or v == NONE:
        return None
    if v[0] == "o":
        o = e.h(st, v)
        if o.kind == "list":
            return [msgdata(lab, st, x) for x in o.items]
        cn = o.cls.qual if isinstance(o.cls, ClassInfo) else o.cls
        kind = e.ext_name(o.cls) if isinstance(o.cls, ClassInfo) else cn
        kind = str(kind).split(".")[-1]
        at = o.attrs
        if "manufacturer_id" in at:
            return ("SysEx", tuple(num(lab, st, at["manufacturer_id"])), tuple(num(lab, st, at["data"])))
        if "control" in at:
            return ("CC", num(lab, st, at["control"]), num(lab, st, at.get("value", NONE)))
        if "patch" in at:
            return ("PC", num(lab, st, at["patch"]))
        return (kind,)
    return ("?", v)


def num(lab, st, v):
    r = plain(lab, v, st)
    if isinstance(r, (bytes, bytearray)):
        return list(r)
    if isinstance(r, (list, tuple)) and not (r and isinstance(r[0], str)):
        return list(r)
    return r


def definition(lab, f, args, cons):
    """arguments the factory hands to the registry: (name, class, set, request, response, type, depends)"""
    st = rebase(lab.st)
    rec = []
    (s, v), = must(lab, lab.call(f, kwargs={k: c(x) for k, x in args.items()}, st=st), cons)
    ev = events(s, "mapping")
    return s, v, ev


def stub_get(lab):
    for cn in ("ClientParameterMapping", "ClientTwoPartParameterMapping"):
        fi = lab.cls(CLI, cn).find("get")
        if fi is None:
            raise AnalysisBroken("%s.get not found" % cn)
        a = fi.node.args
        params = [x.arg for x in a.args]

        def h(eng, s, args, kwargs, ctx, node, cn=cn, params=params):
            d = dict(zip(params, args))
            d.update(kwargs)
            bad = [k for k in d if k not in params]
            if bad:
                return [(s, Raise("TypeError", eng.where(ctx, node) if ctx else "", True, "get() got an unexpected argument %s" % bad))]
            d["<class>"] = c(cn)
            s.emit("mapping", None, cn, (), d, None, s.facts, eng.where(ctx, node) if ctx and node is not None else "")
            return [(s, eng.sym("mapping %s" % (d.get("name", NONE)[2] if d.get("name", NONE)[0] == "c" else "?"), cls=cn))]
        lab.e.hooks[fi.qual] = h


def all_definitions(chk, rule):
    """[(label, args, name, {class,set,request,response,type,depends}, where)]"""
    lab = Lab()
    e = lab.e
    stub_get(lab)
    out = []
    for label_, args, f, fi in instances(lab):
        cons = label_ + ("(%s)" % ", ".join("%s=%s" % x for x in args.items()) if args else "")
        res = lab.call(f, kwargs={k: c(x) for k, x in args.items()}, st=rebase(lab.st))
        if len(res) != 1 or isinstance(res[0][1], Raise):
            chk.ob(rule, cons, False, "the factory raises %r" % (res[0][1] if res else None), fi.where)
            continue
        s, v = res[0]
        evs = events(s, "mapping")
        if not evs:
            raise AnalysisBroken("%s creates no mapping" % cons)
        x = evs[-1]
        d = x.kwargs
        dd = {"class": d["<class>"][2]}
        for k in ("set", "request", "response"):
            dd[k] = msgdata(lab, s, d.get(k, NONE))
        dd["type"] = num(lab, s, d.get("type", c(0)))
        dd["depends"] = e.describe(d.get("depends", NONE), s)
        nm = d.get("name", NONE)
        out.append((label_, args, nm[2] if nm[0] == "c" else None, dd, fi.where))
    chk.analysed(e)
    return lab, out
