"""Abstract domains of the analysis."""
import ast
import itertools
import re

_uid = itertools.count(1)


class Hole:
    """An unknown, non-empty piece of text with provenance.

    kind: 'expr'  source text of one expression
          'ident' an identifier, 'text' anything
    `bound` is set when the analysis refined the hole to one literal;
    `neq` collects literals it was found different from.
    """

    __slots__ = ("label", "prov", "kind", "bound", "neq", "uid", "node", "root", "empty", "raw")

    def __init__(self, label, prov=None, kind="text", node=None, root=None):
        self.label = label
        self.prov = frozenset(prov if prov is not None else [label])
        self.kind = kind
        self.bound = None
        self.neq = set()
        self.uid = next(_uid)
        self.node = node
        self.root = root  # the hole this one is derived from
        self.empty = False
        self.raw = False

    def __repr__(self):
        if self.bound is not None:
            return "<%s:=%r>" % (self.label, self.bound)
        return "<%s>" % self.label


class AStr:
    """Text made of literal pieces and holes."""

    __slots__ = ("_parts",)

    def __init__(self, parts):
        self._parts = list(parts)

    @property
    def parts(self):
        out = []
        for p in self._parts:
            if isinstance(p, Hole):
                if p.bound is not None:
                    p = p.bound
                else:
                    out.append(p)
                    continue
            if p == "":
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        return out

    def holes(self):
        return [p for p in self._parts if isinstance(p, Hole)]

    def prov(self):
        s = frozenset()
        for p in self._parts:
            if isinstance(p, Hole):
                s |= p.prov
        return s

    def show(self):
        return "".join(p if isinstance(p, str) else "<%s>" % p.label for p in self.parts)

    def __repr__(self):
        return "AStr(%s)" % self.show()


def norm(v):
    """AStr with only literal pieces -> str."""
    if isinstance(v, AStr):
        ps = v.parts
        if not ps:
            return ""
        if len(ps) == 1 and isinstance(ps[0], str):
            return ps[0]
    return v


class Top:
    """Unknown value; remembers where it came from."""

    __slots__ = ("label", "prov", "uid", "attrs", "typ", "truth", "neq", "bound")

    def __init__(self, label="?", prov=None, typ=None):
        self.label = label
        self.prov = frozenset(prov if prov is not None else [])
        self.uid = next(_uid)
        self.attrs = {}
        self.typ = typ
        self.truth = None
        self.neq = set()
        self.bound = NotImplemented

    def __repr__(self):
        return "Top(%s)" % self.label


class AList:
    __slots__ = ("items", "tail", "uid", "label", "frozen")

    def __init__(self, items=(), tail=None, label=""):
        self.items = list(items)
        self.tail = tail  # None: exactly items; else callable -> fresh element
        self.uid = next(_uid)
        self.label = label
        self.frozen = None

    def __repr__(self):
        return "AList(%r%s)" % (self.items, ", ..." if self.tail else "")


class ASet(AList):
    __slots__ = ()

    def __repr__(self):
        return "ASet(%r%s)" % (self.items, ", ..." if self.tail else "")


class ADict:
    """Ordered dict. `tail(key)` materialises an entry the analysis knows
    nothing about (returns (present, value)); None means closed."""

    __slots__ = ("d", "tail", "factory", "uid", "label", "absent", "log")

    def __init__(self, pairs=(), tail=None, factory=None, label=""):
        self.d = {}
        self.tail = tail
        self.factory = factory
        self.uid = next(_uid)
        self.label = label
        self.absent = set()
        self.log = []
        for k, v in pairs:
            self.d[canon(k)] = (k, v)

    def __repr__(self):
        return "ADict{%s%s}" % (
            ", ".join("%r: %r" % kv for kv in self.d.values()),
            ", ..." if self.tail else "",
        )


class ATable:
    """A big constant table (one of the JSON mappings). With a constant key it
    is exact; with an unknown key it answers 'unknown'."""

    __slots__ = ("name", "data", "uid")

    def __init__(self, name, data):
        self.name = name
        self.data = data
        self.uid = next(_uid)

    def __repr__(self):
        return "ATable(%s)" % self.name


class Obj:
    __slots__ = ("cls", "attrs", "uid", "kind", "open")

    def __init__(self, cls, attrs=None, kind=None, open_=False):
        self.cls = cls
        self.attrs = attrs or {}
        self.uid = next(_uid)
        self.kind = kind
        self.open = open_

    def __repr__(self):
        return "Obj(%s)" % (self.cls.name if self.cls else self.kind)


class FuncVal:
    __slots__ = ("info", "self", "env", "uid", "cls")

    def __init__(self, info, self_=None, env=None, cls=None):
        self.info = info
        self.self = self_
        self.env = env
        self.uid = next(_uid)
        self.cls = cls

    def __repr__(self):
        return "FuncVal(%s)" % self.info.qual


class ClassVal:
    __slots__ = ("info", "uid")

    def __init__(self, info):
        self.info = info
        self.uid = id(info)

    def __repr__(self):
        return "ClassVal(%s)" % self.info.name


class ModVal:
    __slots__ = ("info", "uid")

    def __init__(self, info):
        self.info = info
        self.uid = id(info)


class Ext:
    """Something defined outside the analysed package, by dotted path."""

    __slots__ = ("path", "uid")

    def __init__(self, path):
        self.path = path
        self.uid = path

    def __repr__(self):
        return "Ext(%s)" % self.path


class Bound:
    """method of a builtin-like abstract value, fetched but not yet called"""

    __slots__ = ("recv", "name", "uid")

    def __init__(self, recv, name):
        self.recv = recv
        self.name = name
        self.uid = next(_uid)


class SuperVal:
    __slots__ = ("cls", "obj", "uid")

    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj
        self.uid = next(_uid)


class LenVal:
    __slots__ = ("of", "off", "uid")

    def __init__(self, of, off=0):
        self.of = of
        self.off = off
        self.uid = ("len", of.uid, off)


class StrPos:
    """Position inside one particular text with holes: `pos` indexes the text
    encoded with one character per hole."""

    __slots__ = ("of", "pos", "uid")

    def __init__(self, of, pos):
        self.of = of
        self.pos = pos
        self.uid = ("strpos", canon(of), pos)


class Pred:
    """Unknown boolean with a stable identity."""

    __slots__ = ("key", "desc", "neg", "uid", "prov", "on")

    def __init__(self, key, desc, neg=False, prov=frozenset(), on=None):
        self.key = key
        self.desc = desc
        self.neg = neg
        self.uid = ("pred", key, neg)
        self.prov = prov
        self.on = on  # callback(engine, outcome)

    def __repr__(self):
        return "Pred(%s%s)" % ("not " if self.neg else "", self.desc)


# --------------------------------------------------------------- python AST
GRAMMAR = {}  # class name -> [(type, name, mult)]
SUMS = {}  # sum type -> set of class names


def _build_grammar():
    for nm in dir(ast):
        c = getattr(ast, nm)
        if not (isinstance(c, type) and issubclass(c, ast.AST)):
            continue
        if c in (ast.AST,) or nm in (
            "slice", "Index", "ExtSlice", "Suite", "AugLoad", "AugStore", "Param",
            "Num", "Str", "Bytes", "NameConstant", "Ellipsis",
        ):
            continue
        doc = (c.__doc__ or "").strip()
        m = re.match(r"^(\w+)\((.*)\)$", doc, re.S)
        subs = [s for s in c.__subclasses__() if s.__name__ not in
                ("Num", "Str", "Bytes", "NameConstant", "Ellipsis", "Index", "ExtSlice",
                 "AugLoad", "AugStore", "Param", "Suite")]
        if subs:
            SUMS[nm] = {s.__name__ for s in subs}
            continue
        fields = []
        if m and m.group(2).strip():
            for f in m.group(2).replace("\n", " ").split(","):
                f = f.strip()
                t, n = f.rsplit(" ", 1)
                mult = ""
                if t[-1] in "?*":
                    mult = t[-1]
                    t = t[:-1]
                fields.append((t, n, mult))
        GRAMMAR[nm] = fields


_build_grammar()
ALL_EXPR = frozenset(SUMS["expr"])
ALL_STMT = frozenset(SUMS["stmt"])
ALL_NODES = frozenset(GRAMMAR)


def node_class_set(name):
    """class names denoted by ast.<name>"""
    if name == "AST":
        return ALL_NODES
    if name in SUMS:
        return frozenset(SUMS[name])
    if name in GRAMMAR:
        return frozenset([name])
    if name in ("Num", "Str", "Bytes", "NameConstant", "Ellipsis"):
        return frozenset(["Constant"])
    return frozenset()


class ANode:
    """Abstract syntax-tree node: a set of possible classes, fields created on
    demand. `real` nodes come from parsing a template and are exact."""

    __slots__ = ("types", "fields", "label", "prov", "uid", "origin", "tags", "real", "absentf")

    def __init__(self, types, label="node", prov=None, fields=None, origin=None, real=None):
        self.types = frozenset([types]) if isinstance(types, str) else frozenset(types)
        self.fields = fields if fields is not None else {}
        self.label = label
        self.prov = frozenset(prov if prov is not None else [])
        self.uid = next(_uid)
        self.origin = origin
        self.tags = set()
        self.real = real
        self.absentf = set()

    @property
    def one(self):
        return next(iter(self.types)) if len(self.types) == 1 else None

    def __repr__(self):
        t = self.one or ("%d types" % len(self.types))
        return "ANode(%s:%s)" % (self.label, t)


def canon(v):
    v = norm(v)
    if v is None or isinstance(v, (bool, int, float, complex, str, bytes)) or v is Ellipsis:
        return ("c", type(v).__name__, v)
    if isinstance(v, tuple):
        return ("t",) + tuple(canon(x) for x in v)
    if isinstance(v, AStr):
        return ("s",) + tuple(p if isinstance(p, str) else ("h", p.uid) for p in v.parts)
    return ("o", getattr(v, "uid", id(v)))


def prov_of(v, depth=0):
    if isinstance(v, AStr):
        return v.prov()
    if isinstance(v, (Top, ANode, Hole)):
        return v.prov
    if isinstance(v, Pred):
        return v.prov
    if depth < 4:
        if isinstance(v, tuple):
            return frozenset().union(*[prov_of(x, depth + 1) for x in v]) if v else frozenset()
        if isinstance(v, AList):
            return (
                frozenset().union(*[prov_of(x, depth + 1) for x in v.items])
                if v.items
                else frozenset()
            )
        if isinstance(v, ADict):
            s = frozenset()
            for k, x in v.d.values():
                s |= prov_of(k, depth + 1) | prov_of(x, depth + 1)
            return s
    return frozenset()


def show(v):
    v = norm(v)
    if isinstance(v, AStr):
        return v.show()
    if isinstance(v, tuple):
        return "(" + ", ".join(show(x) for x in v) + ")"
    if isinstance(v, AList):
        return "[" + ", ".join(show(x) for x in v.items) + (", ..." if v.tail else "") + "]"
    if isinstance(v, ADict):
        return "{" + ", ".join(show(k) + ": " + show(x) for k, x in v.d.values()) + "}"
    if isinstance(v, (Top, ANode)):
        return "<%s>" % v.label
    return repr(v)
