"""State that outlives a conversion: module globals, class attributes,
mutable defaults, entries of the mapping tables.  Every value is recorded
when it first exists; a later difference is a change."""
from .values import *  # noqa


def fp(v, seen=None, depth=0):
    """structural description of an abstract value"""
    v = norm(v)
    seen = seen if seen is not None else set()
    if v is None or isinstance(v, (bool, int, float, complex, str, bytes)):
        return repr(v)
    if isinstance(v, tuple):
        return "(" + ",".join(fp(x, seen, depth + 1) for x in v) + ")"
    if isinstance(v, ATable):
        return "table " + v.name
    if isinstance(v, (AList, ADict, Obj)):
        if v.uid in seen or depth > 12:
            return "..."
        seen = seen | {v.uid}
    if isinstance(v, AList):
        if len(v.items) > 400:
            return "%s of %d" % (type(v).__name__, len(v.items))
        xs = [fp(x, seen, depth + 1) for x in v.items]
        if isinstance(v, ASet):
            xs.sort()
        return "[" + ",".join(xs) + ("" if v.tail is None else ",~") + "]"
    if isinstance(v, ADict):
        if len(v.d) > 400:
            return "dict of %d" % len(v.d)
        return "{" + ",".join("%s:%s" % (fp(k, seen, depth + 1), fp(x, seen, depth + 1)) for k, x in v.d.values()) + "}"
    if isinstance(v, Obj):
        return "%s<%s>" % (v.cls.name if v.cls else v.kind, ",".join("%s=%s" % (k, fp(x, seen, depth + 1)) for k, x in sorted(v.attrs.items(), key=lambda t: str(t[0]))))
    if isinstance(v, (FuncVal, ClassVal, ModVal)):
        return "def " + getattr(v.info, "qual", getattr(v.info, "name", "?"))
    if isinstance(v, Ext):
        return v.path
    if isinstance(v, AStr):
        return "str(%s)" % "".join(x if isinstance(x, str) else "<%s>" % x.label for x in v.parts)
    return "%s %s" % (type(v).__name__, getattr(v, "label", ""))


def now(e):
    out = {}
    for k, v in e.mod_globals.items():
        out[("global",) + k] = fp(v)
    for k, v in e.class_attrs.items():
        out[("class",) + k] = fp(v)
    for k, v in e.table_entries.items():
        out[("entry",) + k] = fp(v)
    for k, v in e.memo.items():
        if isinstance(k, tuple) and k and k[0] == "default" and isinstance(v, (AList, ADict, Obj)):
            out[("default", e.default_name.get(k[1], "?"), k[1])] = fp(v)
    return out


def value(e, k):
    if k[0] == "global":
        return e.mod_globals.get(k[1:])
    if k[0] == "class":
        return e.class_attrs.get(k[1:])
    if k[0] == "entry":
        return e.table_entries.get(k[1:])
    return e.memo.get(("default", k[2]))


def changed(e):
    """{(kind, name...): (before, after)} of the state that is no longer what
    it was when it came into being"""
    out = {}
    for k, v in now(e).items():
        b = e.state0.get(k)
        if b != v:
            out[k] = (b, v)
    for kind, kw in e.events:
        if kind == "table_write":
            out[("table", kw["table"])] = ("", "key %s written at %s" % (show(kw["key"]), kw["loc"]))
        if kind == "ext_write":
            out[("module", kw["path"])] = ("", "attribute %s written at %s" % (kw["attr"], kw["loc"]))
    return out
