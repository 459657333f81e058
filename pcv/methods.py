"""Transfer functions for methods of builtin types."""
import string as _string

from .engine import Gap, RaiseEx, parts_of, _tname
from .values import *  # noqa

BASE = 0xE000


def enc(*vals):
    """encode texts with holes as native strings (one private-use char per hole)"""
    holes = []
    out = []
    for v in vals:
        s = ""
        for p in parts_of(v):
            if isinstance(p, str):
                s += p
            else:
                if p not in holes:
                    holes.append(p)
                s += chr(BASE + holes.index(p))
        out.append(s)
    return out, holes


def dec(s, holes):
    parts = []
    cur = ""
    for ch in s:
        i = ord(ch) - BASE
        if 0 <= i < len(holes):
            if cur:
                parts.append(cur)
                cur = ""
            parts.append(holes[i])
        else:
            cur += ch
    if cur:
        parts.append(cur)
    return norm(AStr(parts))


def call_method(e, o, name, args, kwargs):
    if isinstance(o, (str, AStr)):
        return str_method(e, o, name, args, kwargs)
    if isinstance(o, ASet):
        return set_method(e, o, name, args, kwargs)
    if isinstance(o, AList):
        return list_method(e, o, name, args, kwargs)
    if isinstance(o, ADict):
        return dict_method(e, o, name, args, kwargs)
    if isinstance(o, ATable):
        return table_method(e, o, name, args, kwargs)
    if isinstance(o, tuple):
        if name == "index" or name == "count":
            return e.fresh(name, o)
        raise Gap("tuple." + name)
    if isinstance(o, SuperVal):
        return super_method(e, o, name, args, kwargs)
    if isinstance(o, Obj):
        if o.cls is not None and any(
            isinstance(c, str) and c.endswith(("NodeTransformer", "NodeVisitor"))
            for c in e.prog.mro(o.cls)
        ):
            return super_method(e, SuperVal(None, o), name, args, kwargs)
        if o.kind in e.obj_hooks:
            return e.obj_hooks[o.kind](e, o, name, args, kwargs)
        e.event("obj_call", obj=o, method=name, args=args)
        return e.fresh("%s.%s(...)" % (o.kind or "obj", name), *args)
    if isinstance(o, ANode):
        raise Gap("method %s of node" % name)
    if isinstance(o, Top):
        e.event("call_top", fn=o, method=name, args=args, kwargs=kwargs)
        return e.fresh("%s.%s(...)" % (o.label, name), o, *args)
    if isinstance(o, (int, float, bool, bytes)):
        try:
            return getattr(o, name)(*args)
        except Exception:
            return e.fresh(name, *args)
    if o is None:
        e.raise_("AttributeError", "'NoneType' object has no attribute '%s'" % name)
    raise Gap("method %s of %s" % (name, show(o)))


def super_method(e, o, name, args, kwargs):
    h = e.ext_hooks.get("super." + name)
    if h is not None:
        return h(e, [o] + list(args), kwargs)
    if name == "__new__":
        c = args[0]
        return Obj(c.info) if isinstance(c, ClassVal) else Obj(None, kind="new")
    if name in ("__init__", "__setattr__", "__init_subclass__"):
        return None
    # NodeTransformer methods not defined in the package (visit_X): default generic
    if name.startswith("visit_") and "super.generic_visit" in e.ext_hooks:
        return e.ext_hooks["super.generic_visit"](e, [o] + list(args), kwargs)
    e.raise_("AttributeError", "'super' object has no attribute '%s'" % name)


# ------------------------------------------------------------------- strings
def fmt(e, tmpl, args, kwargs):
    (s,), holes = enc(tmpl)
    out = []
    auto = 0
    try:
        items = list(_string.Formatter().parse(s))
    except ValueError as ex:
        e.raise_("ValueError", "format string: %s" % ex)
    for lit, field, spec, conv in items:
        if lit:
            out.extend(parts_of(dec(lit, holes)))
        if field is None:
            continue
        import re

        m = re.match(r"^([^.\[]*)(.*)$", field)
        base, rest = m.group(1), m.group(2)
        if base == "":
            if auto >= len(args):
                e.raise_(
                    "IndexError",
                    "Replacement index %d out of range for positional args tuple" % auto,
                )
            v = args[auto]
            auto += 1
        elif base.isdigit():
            if int(base) >= len(args):
                e.raise_("IndexError", "Replacement index %s out of range" % base)
            v = args[int(base)]
        else:
            if base not in kwargs:
                e.raise_("KeyError", repr(base))
            v = kwargs[base]
        if rest:
            for m in re.finditer(r"\.(\w+)|\[([^\]]+)\]", rest):
                if m.group(1):
                    v = e.get_attr(v, m.group(1))
                else:
                    k = m.group(2)
                    v = e.getitem(v, int(k) if k.isdigit() else k)
        if conv == "r":
            out.extend(e.repr_parts(v))
        else:
            out.extend(e.to_parts(v, spec or ""))
    if auto and auto < len(args):
        e.event("format_extra", used=auto, given=len(args))
    return norm(AStr(out))


def str_method(e, o, name, args, kwargs):
    args = [norm(a) for a in args]
    if name == "format":
        return fmt(e, o, args, kwargs)
    if name == "join":
        out = []
        first = True
        for x in e.iterate(args[0]):
            if not first:
                out.extend(parts_of(o))
            first = False
            x = norm(x)
            if x is None or isinstance(x, (int, float, bool, AList, ADict, tuple)):
                e.raise_("TypeError", "sequence item: expected str instance, %s found" % _tname(x))
            out.extend(e.to_parts(x))
        return norm(AStr(out))
    allconst = isinstance(o, str) and all(
        isinstance(a, (str, int, bool, type(None))) or (isinstance(a, tuple) and all(isinstance(x, str) for x in a))
        for a in args
    ) and all(isinstance(v, (str, int, bool, type(None))) for v in kwargs.values())
    if allconst:
        try:
            return e.lift(getattr(o, name)(*args, **kwargs))
        except Exception as ex:
            e.raise_(type(ex).__name__, str(ex))
    for a in args:
        if a is None and name in ("startswith", "endswith", "replace", "find", "rfind", "count", "index"):
            e.raise_("TypeError", "%s argument must be str, not None" % name)
    if name in ("startswith", "endswith"):
        pats = args[0]
        pats = list(pats) if isinstance(pats, tuple) else [pats]
        maybe = []
        for p in pats:
            r = _prefix(e, o, p, name)
            if r is True:
                return True
            if r is not False:
                maybe.append(r)
        if not maybe:
            return False
        if len(maybe) == 1:
            return maybe[0]
        for r in maybe:
            if e.truth(r):
                return True
        return False
    if name in ("strip", "lstrip", "rstrip"):
        chars = args[0] if args else None
        (s, c), holes = enc(o, chars if isinstance(chars, (str, AStr)) else "")
        if isinstance(chars, AStr):
            return e.fresh("%s.%s" % (show(o), name), o, chars, typ="str")
        r = dec(getattr(s, name)(chars) if chars is not None else getattr(s, name)(), holes)
        # holes may themselves begin or end with stripped characters
        ws = chars is None or not chars.strip()
        if isinstance(r, AStr) and not ws:
            ps = r.parts
            out = list(ps)
            for i, side in ((0, "l"), (len(ps) - 1, "r")):
                if side == "l" and name == "rstrip" or side == "r" and name == "lstrip":
                    continue
                p = out[i]
                if not isinstance(p, str) and p.kind != "ident":
                    key = ("strip", p.uid, name, chars)
                    if key not in e.memo:
                        e.memo[key] = Hole("%s.%s(%r)" % (p.label, name, chars), p.prov, p.kind if p.kind == "text" else "text", root=p)
                    out[i] = e.memo[key]
            return norm(AStr(out))
        return r
    if name == "replace":
        if isinstance(o, AStr) or isinstance(args[0], AStr) or isinstance(args[1], AStr):
            if isinstance(args[0], Top) or isinstance(args[1], Top):
                return e.fresh("%s.replace" % show(o), o, *args, typ="str")
            (s, a, b), holes = enc(o, args[0], args[1])
            r = dec(s.replace(a, b, *[x for x in args[2:] if isinstance(x, int)]), holes)
            out = []
            for p in parts_of(r):
                if isinstance(p, Hole) and p.kind != "ident" and isinstance(o, AStr) and p in o.holes():
                    key = ("repl", p.uid, a, b)
                    if key not in e.memo:
                        e.memo[key] = Hole("%s.replace(%r,%r)" % (p.label, a, show(args[1])), p.prov, p.kind, p.node, root=p)
                    p = e.memo[key]
                out.append(p)
            return norm(AStr(out))
    if name in ("split", "rsplit", "splitlines", "partition", "rpartition"):
        if isinstance(o, AStr):
            if name == "split" and args and isinstance(args[0], str) and len(args) == 1 and all(
                isinstance(p, str) or p.kind == "ident" for p in o.parts
            ):
                (s,), holes = enc(o)
                return AList([dec(x, holes) for x in s.split(args[0])])
            if name == "splitlines" and len(o.parts) == 1 and isinstance(o.parts[0], Hole) and getattr(e, "sources", None):
                f = [x[5:] for x in o.parts[0].prov if isinstance(x, str) and x.startswith("file:")]
                if len(f) == 1 and f[0] in e.sources:
                    return AList([_derived(e, o, "line", fresh=True) for _ in e.sources[f[0]].splitlines()])
            if name == "splitlines" and not args and all(isinstance(p, str) or p.kind == "ident" for p in o.parts):
                (s,), holes = enc(o)
                return AList([dec(x, holes) for x in s.splitlines()])
            if name in ("partition", "rpartition"):
                return tuple(_derived(e, o, "%s[%d]" % (name, i)) for i in range(3))
            lab = "%s.%s(%s)" % (o.show(), name, ", ".join(show(a) for a in args))
            first = _derived(e, o, name + ".0")
            return AList([first], tail=lambda: _derived(e, o, name + ".n", fresh=True), label=lab)
        return AList([], tail=lambda: e.fresh("part", o, *args, typ="str"), label="split")
    if name in ("lower", "upper", "title", "capitalize", "casefold", "expandtabs", "zfill", "ljust",
                "rjust", "center", "removeprefix", "removesuffix", "swapcase", "translate"):
        if isinstance(o, AStr):
            if name in ("removeprefix", "removesuffix") and isinstance(args[0], str):
                ps = o.parts
                edge = ps[0] if name == "removeprefix" else ps[-1]
                if isinstance(edge, str):
                    if name == "removeprefix" and edge.startswith(args[0]):
                        return norm(AStr([edge[len(args[0]):]] + ps[1:]))
                    if name == "removesuffix" and edge.endswith(args[0]):
                        return norm(AStr(ps[:-1] + [edge[: -len(args[0])]]))
            return _derived(e, o, name + (str(args[0]) if args and isinstance(args[0], (str, int)) else ""))
        return e.fresh("%s.%s" % (show(o), name), o, *args, typ="str")
    if name in ("isdigit", "isalpha", "isidentifier", "isspace", "isnumeric", "isalnum", "isupper", "islower", "isdecimal"):
        return Pred(("strpred", name, canon(o)), "%s.%s()" % (show(o), name), prov=prov_of(o))
    if name in ("find", "rfind", "index", "rindex") and len(args) == 1 and isinstance(args[0], str) and args[0]:
        (t,), hs = enc(o)
        i = getattr(t, "rfind" if name[0] == "r" else "find")(args[0])
        if i >= 0:
            seg = t[i + len(args[0]):] if name[0] == "r" else t[:i]
            if not any(0 <= ord(ch) - BASE < len(hs) for ch in seg):
                return StrPos(o, i)
    if name in ("find", "rfind", "index", "rindex", "count"):
        key = ("strnum", name, canon(o), tuple(canon(a) for a in args))
        if key not in e.memo:
            e.memo[key] = Top("%s.%s(%s)" % (show(o), name, ", ".join(show(a) for a in args)), prov_of(o), "int")
        return e.memo[key]
    if name == "encode":
        return e.fresh("bytes", o)
    if name == "format_map":
        if isinstance(args[0], ADict):
            return fmt(e, o, [], {k: v for k, v in args[0].d.values() if isinstance(k, str)})
        return e.fresh("format_map", o, *args, typ="str")
    if not hasattr(str, name):
        e.raise_("AttributeError", "'str' object has no attribute '%s'" % name)
    return e.fresh("str.%s" % name, o, *args)


def _derived(e, o, what, fresh=False):
    key = ("derived", canon(o), what)
    if fresh or key not in e.memo:
        h = Hole("%s.%s" % (show(o), what), prov_of(o), "text", root=o)
        if fresh:
            return AStr([h])
        e.memo[key] = h
    return AStr([e.memo[key]])


def _prefix(e, o, p, name):
    """True/False/Pred for o.startswith(p) / o.endswith(p)"""
    if not isinstance(p, (str, AStr)):
        return Pred((name, canon(o), canon(p)), "%s.%s(%s)" % (show(o), name, show(p)), prov=prov_of(o) | prov_of(p))
    po, pp = parts_of(o), parts_of(p)
    if name == "endswith":
        po, pp = po[::-1], pp[::-1]
    i = 0
    po = list(po)
    pp = list(pp)
    while pp:
        if not po:
            return False
        a, b = po[0], pp[0]
        if isinstance(a, str) and isinstance(b, str):
            if name == "startswith":
                if a.startswith(b):
                    po[0] = a[len(b):]
                    pp.pop(0)
                elif b.startswith(a):
                    pp[0] = b[len(a):]
                    po.pop(0)
                else:
                    return False
            else:
                if a.endswith(b):
                    po[0] = a[: len(a) - len(b)]
                    pp.pop(0)
                elif b.endswith(a):
                    pp[0] = b[: len(b) - len(a)]
                    po.pop(0)
                else:
                    return False
            if po and po[0] == "":
                po.pop(0)
            continue
        if a is b:
            po.pop(0)
            pp.pop(0)
            continue
        if isinstance(a, Hole) and isinstance(b, str) and a.kind == "ident":
            edge = b[0] if name == "startswith" else b[-1]
            if not (edge.isalnum() or edge == "_"):
                return False
        if isinstance(a, Hole) and isinstance(b, str) and a.root is None and a.label.startswith("name:"):
            pass
        return Pred((name, canon(o), canon(p)), "%s.%s(%s)" % (show(o), name, show(p)), prov=prov_of(o) | prov_of(p))
    return True


# --------------------------------------------------------------------- lists
def list_method(e, o, name, args, kwargs):
    if name == "append":
        o.items.append(args[0])
        e.event("list_append", lst=o, value=args[0])
        return None
    if name == "extend":
        src = args[0]
        if isinstance(src, AList) and src.tail is not None:
            o.items.extend(src.items)
            o.tail = o.tail or src.tail
            return None
        for x in e.iterate(src):
            o.items.append(x)
        return None
    if name == "insert":
        if isinstance(args[0], int):
            o.items.insert(args[0], args[1])
        else:
            o.items.append(args[1])
        e.event("list_insert", lst=o, index=args[0], value=args[1])
        return None
    if name == "pop":
        if args and not isinstance(args[0], int):
            return e.fresh("popped", o)
        i = args[0] if args else -1
        if i >= 0 or o.tail is None:
            n = e.resolve_len(o, i if i >= 0 else 0)
            if not (-n <= i < n):
                e.raise_("IndexError", "pop from empty list" if n == 0 else "pop index out of range")
            return o.items.pop(i)
        return o.tail()
    if name == "remove":
        for i, x in enumerate(o.items):
            r = e.eq(x, args[0])
            if r is True or (r is not False and e.truth(r)):
                o.items.pop(i)
                e.event("list_remove", lst=o, value=args[0])
                return None
        if o.tail is not None:
            e.event("list_remove", lst=o, value=args[0])
            return None
        e.raise_("ValueError", "list.remove(x): x not in list")
    if name == "copy":
        return AList(list(o.items), o.tail, o.label)
    if name == "reverse":
        o.items.reverse()
        return None
    if name == "sort":
        _sort(e, o, kwargs)
        return None
    if name == "clear":
        o.items.clear()
        o.tail = None
        return None
    if name == "index":
        for i, x in enumerate(o.items):
            r = e.eq(x, args[0])
            if r is True or (r is not False and e.truth(r)):
                return i
        if o.tail is not None:
            return e.fresh("index", o, typ="int")
        e.raise_("ValueError", "not in list")
    if name == "count":
        if o.tail is None:
            return sum(1 for x in o.items if e.truth(e.eq(x, args[0])))
        return e.fresh("count", o, typ="int")
    if name in ("__len__",):
        return LenVal(o)
    if name in ("__iter__",):
        return o
    if name == "__contains__":
        return e.contains(o, args[0])
    if name == "__getitem__":
        return e.getitem(o, args[0])
    e.raise_("AttributeError", "'list' object has no attribute '%s'" % name)


def _sort(e, o, kwargs):
    if o.tail is None and all(isinstance(x, (int, str, float)) for x in o.items) and "key" not in kwargs:
        try:
            o.items.sort(reverse=bool(kwargs.get("reverse")) if not isinstance(kwargs.get("reverse"), Pred) else False)
        except TypeError:
            pass
        return
    if "key" in kwargs and o.tail is None:
        ks = []
        ok = True
        for x in o.items:
            k = e.call(kwargs["key"], [x], {})
            k = norm(k)
            if isinstance(k, LenVal) and k.of.tail is None:
                k = len(k.of.items) + k.off
            if not isinstance(k, (int, str, float)):
                ok = False
                break
            ks.append(k)
        if ok:
            try:
                order = sorted(range(len(ks)), key=lambda i: ks[i], reverse=kwargs.get("reverse") is True)
                o.items[:] = [o.items[i] for i in order]
            except TypeError:
                pass


def set_method(e, o, name, args, kwargs):
    if name == "add":
        e.set_add(o, args[0])
        e.event("set_add", set=o, value=args[0])
        return None
    if name in ("update", "union"):
        t = o if name == "update" else ASet(list(o.items), o.tail, o.label)
        for a in args:
            if isinstance(a, AList) and a.tail is not None:
                t.tail = t.tail or a.tail
                for x in a.items:
                    e.set_add(t, x)
            else:
                for x in e.iterate(a):
                    e.set_add(t, x)
        e.event("set_update", set=o, value=args)
        return None if name == "update" else t
    if name in ("discard", "remove"):
        c = canon(args[0])
        for i, x in enumerate(o.items):
            if canon(x) == c:
                o.items.pop(i)
                return None
        if name == "remove" and o.tail is None:
            e.raise_("KeyError", show(args[0]))
        return None
    if name == "clear":
        o.items.clear()
        o.tail = None
        return None
    if name == "copy":
        return ASet(list(o.items), o.tail, o.label)
    if name == "pop":
        if o.items:
            return o.items.pop()
        return e.fresh("popped", o)
    if name in ("intersection", "difference", "symmetric_difference"):
        if o.tail is None and all(not isinstance(a, (Top, AStr)) and getattr(a, "tail", None) is None for a in args):
            other = {canon(x) for a in args for x in e.iterate(a)}
            if name == "difference":
                return ASet([x for x in o.items if canon(x) not in other])
            if name == "intersection" and len(args) == 1:
                return ASet([x for x in o.items if canon(x) in other])
        return ASet([], tail=lambda: e.fresh("elem", o))
    if name in ("issubset", "issuperset", "isdisjoint"):
        return Pred((name, o.uid, canon(args[0])), "set." + name)
    e.raise_("AttributeError", "'set' object has no attribute '%s'" % name)


def dict_method(e, o, name, args, kwargs):
    if name == "get":
        return e.dict_get(o, args[0], args[1] if len(args) > 1 else kwargs.get("default"), raising=False)
    if name == "keys":
        return AList([k for k, _ in o.d.values()], _tailkeys(e, o), label=o.label)
    if name == "values":
        return AList([v for _, v in o.d.values()], _tailkeys(e, o), label=o.label)
    if name == "items":
        t = None
        if o.tail is not None:
            t = lambda: (Top("key of %s" % o.label), Top("value of %s" % o.label))
        return AList([(k, v) for k, v in o.d.values()], t, label=o.label)
    if name == "pop":
        k = canon(args[0])
        if k in o.d:
            v = o.d.pop(k)[1]
            o.absent.add(k)
            o.log.append(("pop", norm(args[0]), v))
            return v
        if o.tail is not None and k not in o.absent and e.dict_probe(o, args[0]):
            v = o.d.pop(k)[1]
            o.absent.add(k)
            return v
        if len(args) > 1:
            return args[1]
        e.raise_("KeyError", show(args[0]))
    if name == "setdefault":
        if e.truth(e.contains(o, args[0])):
            return e.dict_get(o, args[0])
        v = args[1] if len(args) > 1 else None
        e.dict_set(o, args[0], v)
        return v
    if name == "update":
        for a in args:
            e.dict_update(o, a)
        for k, v in kwargs.items():
            e.dict_set(o, k, v)
        return None
    if name == "copy":
        d = ADict(list(o.d.values()), o.tail, o.factory, o.label)
        d.absent = set(o.absent)
        return d
    if name == "clear":
        o.d.clear()
        o.tail = None
        o.log.append(("clear", None, None))
        return None
    if name == "popitem":
        if o.d:
            k = next(reversed(o.d))
            return o.d.pop(k)
        e.raise_("KeyError", "popitem(): dictionary is empty")
    if name in ("__contains__",):
        return e.contains(o, args[0])
    if name == "__getitem__":
        return e.dict_get(o, args[0])
    if name == "__setitem__":
        e.setitem(o, args[0], args[1])
        return None
    if name == "__len__":
        return len(o.d)
    e.raise_("AttributeError", "'dict' object has no attribute '%s'" % name)


def _tailkeys(e, o):
    if o.tail is None:
        return None
    return lambda: Top("key of %s" % o.label)


def table_method(e, o, name, args, kwargs):
    if name == "get":
        return e.dict_get(o, args[0], args[1] if len(args) > 1 else None, raising=False)
    if name in ("keys", "values", "items"):
        if len(o.data) <= 40 or e.exact_tables:
            if name == "keys":
                return AList([e.lift(k) for k in o.data])
            if name == "values":
                return AList([e.lift(v) for v in o.data.values()])
            return AList([(k, e.lift(v)) for k, v in o.data.items()])
        lab = "%s.%s()" % (o.name, name)
        if name == "items":
            return AList([], lambda: (Top("key of " + o.name, typ="str"), Top("value of " + o.name)), lab)
        return AList([], lambda: Top("elem of " + lab, typ="str" if name == "keys" else None), lab)
    if name in ("pop", "update", "clear", "setdefault", "popitem"):
        e.event("table_write", table=o.name, key=args[0] if args else None)
        return e.fresh("table." + name)
    if name == "copy":
        return ATable(o.name, dict(o.data))
    e.raise_("AttributeError", "'dict' object has no attribute '%s'" % name)
