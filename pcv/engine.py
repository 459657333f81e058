"""Path-sensitive abstract interpreter for the Python subset used in PaConvert.

It evaluates the *source* over the abstract domains in values.py: literal
constants are exact, text is a sequence of literals and provenance-carrying
holes, containers may have unknown tails, syntax-tree nodes carry the set of
classes they may have.  Whenever a test is not decided by the abstract state the
analysis continues with both outcomes (a disjunctive / power-set domain); loops
over unknown collections are unrolled up to `loop_k` fresh elements and calls
that recurse deeper than `rec_k` return an unknown value.
"""
import ast
import builtins
import os
import string as _string

from .program import ClassInfo, FuncInfo
from .values import *  # noqa
from .values import ADict, AList, ANode, ASet, AStr, ATable, Hole, Top


DEBUG = bool(os.environ.get("PCV_DEBUG"))


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class RaiseEx(Exception):
    """an exception of the analysed program"""

    def __init__(self, name, msg="", loc=None, definite=True, value=None):
        self.name = name
        self.msg = msg
        self.loc = loc
        self.definite = definite
        self.value = value

    def __str__(self):
        return "%s(%s) at %s" % (self.name, self.msg, self.loc)


class Gap(Exception):
    """construct outside the analysed subset: the path is undecided"""


class Prune(Exception):
    """path abandoned (infeasible or already covered)"""


class Budget(Exception):
    pass


class Oracle:
    def __init__(self):
        self.prefix = []
        self.trace = []  # (choice, n)

    def start(self):
        self.trace = []

    def choose(self, n):
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            c = n - 1
        self.trace.append((c, n))
        return c

    def advance(self):
        t = self.trace
        while t and t[-1][0] + 1 >= t[-1][1]:
            t = t[:-1]
        if not t:
            return False
        self.prefix = [c for c, _ in t[:-1]] + [t[-1][0] + 1]
        return True


class Frame:
    __slots__ = ("vars", "info", "module", "cls", "outer", "globals_", "nonlocals", "yields", "node")

    def __init__(self, info, module, cls=None, outer=None):
        self.vars = {}
        self.info = info
        self.module = module
        self.cls = cls
        self.outer = outer
        self.globals_ = set()
        self.nonlocals = set()
        self.yields = None
        self.node = None


EXC_BASES = {
    "JSONDecodeError": ["JSONDecodeError", "ValueError", "Exception", "BaseException"],
    "ExternalError": ["ExternalError", "Exception", "BaseException"],
}


def exc_bases(name):
    if name in EXC_BASES:
        return EXC_BASES[name]
    c = getattr(builtins, name, None)
    if isinstance(c, type) and issubclass(c, BaseException):
        return [x.__name__ for x in c.__mro__ if x is not object]
    return [name, "Exception", "BaseException"]


BUILTIN_NAMES = set(dir(builtins))


class Engine:
    loop_k = 2
    rec_k = 2
    max_frames = 60
    exact_tables = False
    max_steps = 60000
    track_state = False
    file_root = None  # where the analysed package is installed in the modelled file system
    world = 0  # 1: every unordered collection and every system source yields something else

    def __init__(self, prog, oracle):
        self.prog = prog
        self.oracle = oracle
        self.events = []
        self.memo = {}
        self.decisions = []
        self.frames = []
        self.mod_globals = {}
        self.class_attrs = {}
        self.ext_hooks = {}
        self.ext_consts = {}
        self.repo_hooks = {}  # qualname -> fn(engine, fval, args, kwargs)
        self.obj_hooks = {}  # kind -> fn(engine, obj, method, args, kwargs)
        self.attr_hooks = {}  # kind -> fn(engine, obj, attr)
        self.may_raise = {}
        self.steps = 0
        self.gaps = []
        self.rec_limit = {}
        self.rec_raise = False
        self.covered = set()
        self.node_of_expr = {}
        self.state0 = {} if self.track_state else None  # see state.py
        self.table_entries = {}
        self.default_name = {}
        install_default_hooks(self)

    # ------------------------------------------------------------- utilities
    @property
    def frame(self):
        return self.frames[-1]

    def loc(self):
        for f in reversed(self.frames):
            if f.node is not None:
                return (
                    f.module.rel,
                    getattr(f.node, "lineno", 0),
                    f.info.qual if f.info else "<module>",
                )
        return ("?", 0, "?")

    def event(self, kind, **kw):
        kw["loc"] = self.loc()
        self.events.append((kind, kw))

    def decide(self, key, desc, on=None, n=2):
        """boolean (n==2) or n-way choice, memoised on key"""
        if key is not None and key in self.memo:
            return self.memo[key]
        c = self.oracle.choose(n)
        # first alternative is False for booleans
        r = bool(c) if n == 2 else c
        if key is not None:
            self.memo[key] = r
        self.decisions.append((desc, r, self.loc()))
        return r

    def raise_(self, name, msg="", definite=True, value=None):
        raise RaiseEx(name, msg, self.loc(), definite, value)

    def fresh(self, label, *deps, typ=None):
        p = frozenset()
        for d in deps:
            p |= prov_of(d)
        return Top(label, p, typ)

    # ---------------------------------------------------------------- truth
    def truth(self, v):
        v = norm(v)
        if isinstance(v, Top) and v.bound is not NotImplemented:
            return bool(v.bound)
        if isinstance(v, StrPos):
            return self.decide(("truth", v.uid), "position is non-zero")
        if v is None or isinstance(v, (bool, int, float, complex, str, bytes, tuple)):
            return bool(v)
        if isinstance(v, Pred):
            r = self.decide(v.key, v.desc)
            if v.on:
                on, v.on = v.on, None
                on(self, r)
            return r != v.neg
        if isinstance(v, AStr):
            if any(isinstance(p, str) for p in v.parts):
                return True
            if any(h.kind in ("expr", "ident") for h in v.parts):
                return True
            return self.decide(("truth", canon(v)), "%s is non-empty" % v.show())
        if isinstance(v, ASet) or isinstance(v, AList):
            return self.resolve_len(v, 0) > 0
        if isinstance(v, LenVal):
            return self.resolve_len(v.of, -v.off) + v.off != 0
        if isinstance(v, ADict):
            if v.d:
                return True
            if v.tail is None:
                return False
            return self.decide(("truth", v.uid), "%s non-empty" % (v.label or "mapping"))
        if isinstance(v, ATable):
            return bool(v.data)
        if isinstance(v, Top):
            if v.truth is None:
                v.truth = self.decide(("truth", v.uid), "%s is truthy" % v.label)
            return v.truth
        return True

    def resolve_len(self, L, c):
        """make len(L) comparable with every integer <= c"""
        while L.tail is not None and len(L.items) <= c:
            if self.decide(None, "%s has an element %d" % (L.label or "list", len(L.items))):
                L.items.append(L.tail())
            else:
                L.tail = None
        return len(L.items)

    # ------------------------------------------------------------- equality
    def eq(self, a, b):
        """True / False / Pred"""
        a, b = norm(a), norm(b)
        if a is b:
            return True
        ca, cb = canon(a), canon(b)
        if ca == cb and ca[0] in ("c", "s"):
            return True
        sa, sb = isinstance(a, (str, AStr)), isinstance(b, (str, AStr))
        if sa and sb:
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            if isinstance(a, str):
                a, b = b, a
            return self._str_eq(a, b)
        const = (bool, int, float, complex, str, bytes, type(None))
        if isinstance(a, const) and isinstance(b, const):
            return a == b
        if isinstance(a, LenVal) or isinstance(b, LenVal):
            return self.compare_num(ast.Eq, a, b)
        if isinstance(a, Top) or isinstance(b, Top):
            if not isinstance(a, Top):
                a, b = b, a
            if a.typ == "str" and not isinstance(b, (str, AStr, Top)):
                return False
            if a.typ in ("str", "int", "list", "dict") and b is None:
                return False
            if isinstance(b, const) and any(type(x) is type(b) and x == b for x in a.neq):
                return False
            if isinstance(b, const) and a.bound is not NotImplemented:
                return type(a.bound) is type(b) and a.bound == b or (
                    isinstance(b, (int, float)) and isinstance(a.bound, (int, float)) and a.bound == b)

            def on(e, r, a=a, b=b):
                if not r and isinstance(b, const):
                    a.neq.add(b)
                elif r and isinstance(b, const):
                    a.bound = b

            return Pred(
                ("eq", a.uid, canon(b)),
                "%s == %s" % (show(a), show(b)),
                prov=prov_of(a) | prov_of(b),
                on=on,
            )
        if isinstance(a, Pred) or isinstance(b, Pred):
            ta, tb = self.truth(a), self.truth(b)
            return ta == tb
        if isinstance(a, ANode) and isinstance(b, ANode):
            if not (a.types & b.types):
                return False
            if a.real is not None or b.real is not None or "distinct" in a.tags or "distinct" in b.tags:
                return False
            k = tuple(sorted((a.uid, b.uid)))
            return Pred(("same",) + k, "%s is %s" % (a.label, b.label))
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            for x, y in zip(a, b):
                r = self.eq(x, y)
                if r is False:
                    return False
                if r is not True and not self.truth(r):
                    return False
            return True
        if isinstance(a, AList) and isinstance(b, AList) and type(a) is type(b):
            if a.tail is None and b.tail is None:
                return self.eq(tuple(a.items), tuple(b.items))
            for x, y in ((a, b), (b, a)):
                if x.tail is None and len(x.items) == 0:
                    return self.resolve_len(y, 0) == 0
            return Pred(("eq", a.uid, b.uid), "list equality")
        if isinstance(a, ADict) and isinstance(b, ADict):
            if a.tail is None and b.tail is None:
                if set(a.d) != set(b.d):
                    return False
                for k in a.d:
                    if not self.truth(self.eq(a.d[k][1], b.d[k][1])):
                        return False
                return True
            return Pred(("eq", a.uid, b.uid), "dict equality")
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a.path == b.path
        if isinstance(a, ClassVal) and isinstance(b, ClassVal):
            return a.info is b.info
        return False

    def _str_eq(self, a, b):
        """a: AStr with holes; b: str or AStr"""
        pa = a.parts
        if isinstance(b, str):
            if len(pa) == 1:
                h = pa[0]
                if b in h.neq:
                    return False
                if b == "" and h.kind in ("expr", "ident"):
                    return False
                if h.kind == "ident" and not b.isidentifier():
                    return False
                if h.kind == "expr" and not _is_expr(b):
                    return False

                def on(e, r, h=h, b=b):
                    if r:
                        e.bind(h, b)
                    else:
                        h.neq.add(b)

                return Pred(
                    ("eq", h.uid, b), "%s == %r" % (h.label, b), prov=h.prov, on=on
                )
            pre = pa[0] if isinstance(pa[0], str) else ""
            suf = pa[-1] if isinstance(pa[-1], str) else ""
            if not b.startswith(pre) or not b.endswith(suf) or len(b) < len(pre) + len(suf):
                return False
            return Pred(
                ("eq", canon(a), b), "%s == %r" % (a.show(), b), prov=a.prov()
            )
        pb = b.parts
        l = min(len(pa), len(pb))
        if isinstance(pa[0], str) and isinstance(pb[0], str):
            x, y = pa[0], pb[0]
            if not (x.startswith(y) or y.startswith(x)):
                return False
        if isinstance(pa[-1], str) and isinstance(pb[-1], str):
            x, y = pa[-1], pb[-1]
            if not (x.endswith(y) or y.endswith(x)):
                return False
        return Pred(
            ("eq",) + tuple(sorted([repr(canon(a)), repr(canon(b))])),
            "%s == %s" % (a.show(), b.show()),
            prov=a.prov() | b.prov(),
        )

    def bind(self, h, text):
        h.bound = text

    # ------------------------------------------------------------ comparison
    def compare_num(self, op, a, b):
        import operator

        ops = {
            ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt,
            ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge,
        }
        f = ops[op]
        if isinstance(a, LenVal) and isinstance(b, (int, float)):
            n = self.resolve_len(a.of, int(b) - a.off) + a.off
            return f(n, b)
        if isinstance(b, LenVal) and isinstance(a, (int, float)):
            n = self.resolve_len(b.of, int(a) - b.off) + b.off
            return f(a, n)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return f(a, b)
        sym = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[op]
        neg = {ast.NotEq: ast.Eq, ast.GtE: ast.Lt, ast.LtE: ast.Gt}
        base, inv = op, False
        if op in neg:
            base, inv = neg[op], True
        return Pred(
            ("cmp", base.__name__, canon(a), canon(b)),
            "%s %s %s" % (show(a), sym, show(b)),
            neg=inv,
            prov=prov_of(a) | prov_of(b),
        )

    def compare(self, op, a, b):
        a, b = norm(a), norm(b)
        t = type(op)
        if t in (ast.Is, ast.IsNot):
            r = self.is_(a, b)
            return self.not_(r) if t is ast.IsNot else r
        if t is ast.Eq:
            return self.eq(a, b)
        if t is ast.NotEq:
            return self.not_(self.eq(a, b))
        if t is ast.In:
            return self.contains(b, a)
        if t is ast.NotIn:
            return self.not_(self.contains(b, a))
        if isinstance(a, (ASet,)) and isinstance(b, ASet):
            return Pred(("setcmp", t.__name__, a.uid, b.uid), "set comparison")
        if a is None or b is None:
            self.raise_("TypeError", "ordering comparison with None")
        if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)):
            import operator

            return {
                ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge
            }[t](a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and all(
            isinstance(x, (int, str, float)) for x in a + b
        ):
            import operator

            return {
                ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge
            }[t](a, b)
        return self.compare_num(t, a, b)

    def is_(self, a, b):
        if a is None or b is None:
            o = b if a is None else a
            if o is None:
                return True
            if isinstance(o, Top) and o.typ is None:
                return self.eq(o, None)
            return False
        if isinstance(a, bool) or isinstance(b, bool):
            return self.eq(a, b) if type(a) == type(b) or isinstance(a, (Top, Pred)) or isinstance(b, (Top, Pred)) else False
        return self.eq(a, b)

    def not_(self, r):
        if r is True:
            return False
        if r is False:
            return True
        if isinstance(r, Pred):
            return Pred(r.key, r.desc, not r.neg, r.prov, _flip(r))
        return not self.truth(r)

    def contains(self, cont, x):
        cont, x = norm(cont), norm(x)
        if isinstance(cont, str):
            if isinstance(x, str):
                return x in cont
            if isinstance(x, AStr):
                for p in x.parts:
                    if isinstance(p, str) and p not in cont:
                        return False
                return Pred(("in", canon(x), cont), "%s in %r" % (x.show(), cont), prov=x.prov())
            if x is None:
                self.raise_("TypeError", "'in <string>' requires string")
            return Pred(("in", canon(x), cont), "%s in %r" % (show(x), cont), prov=prov_of(x))
        if isinstance(cont, AStr):
            if isinstance(x, str):
                for p in cont.parts:
                    if isinstance(p, str) and x in p:
                        return True
            if x is None:
                self.raise_("TypeError", "'in <string>' requires string")
            return Pred(
                ("in", canon(x), canon(cont)), "%s in %s" % (show(x), cont.show()), prov=cont.prov() | prov_of(x)
            )
        if isinstance(cont, (tuple, AList)):
            items = list(cont) if isinstance(cont, tuple) else cont.items
            maybe = []
            for it in items:
                r = self.eq(it, x)
                if r is True:
                    return True
                if r is not False:
                    maybe.append(r)
            for r in maybe:
                if self.truth(r):
                    return True
            if isinstance(cont, AList) and cont.tail is not None:
                def on(e, r, cont=cont, x=x):
                    if r:
                        cont.items.append(x)
                return Pred(("in", canon(x), cont.uid), "%s in %s" % (show(x), cont.label or "list"),
                            prov=prov_of(x), on=on)
            return False
        if isinstance(cont, ADict):
            k = canon(x)
            if k in cont.d:
                return True
            if k in cont.absent:
                return False
            if k[0] != "c":
                maybe = []
                for kk, (key, _) in list(cont.d.items()):
                    r = self.eq(key, x)
                    if r is True:
                        return True
                    if r is not False:
                        maybe.append(r)
                for r in maybe:
                    if self.truth(r):
                        return True
            if cont.tail is None:
                return False
            return self.dict_probe(cont, x)
        if isinstance(cont, ATable):
            if isinstance(x, str):
                return x in cont.data
            if x is None or isinstance(x, (int, bool, float)):
                return False
            return Pred(("intab", cont.name, canon(x)), "%s in %s" % (show(x), cont.name), prov=prov_of(x))
        if isinstance(cont, Top):
            return Pred(("in", canon(x), cont.uid), "%s in %s" % (show(x), cont.label), prov=prov_of(x) | cont.prov)
        if cont is None:
            self.raise_("TypeError", "argument of type 'NoneType' is not iterable")
        if isinstance(cont, Obj):
            m = self.get_attr(cont, "__contains__", default=None)
            if m is not None:
                return self.call(m, [x], {})
            return Pred(("in", canon(x), cont.uid), "%s in object" % show(x))
        if isinstance(cont, (bool, int, float)):
            self.raise_("TypeError", "argument is not iterable")
        return Pred(("in", canon(x), canon(cont)), "%s in %s" % (show(x), show(cont)))

    def dict_probe(self, d, x):
        """is x a key of the partly unknown dict d? materialises the entry"""
        k = canon(x)
        if k in d.d:
            return True
        if k in d.absent:
            return False
        present, val = d.tail(x)
        if present is None:
            present = self.decide(None, "%s has key %s" % (d.label or "mapping", show(x)))
        if present:
            d.d[k] = (x, val() if callable(val) else val)
        else:
            d.absent.add(k)
        return present

    def born(self, key, v):
        if self.state0 is not None:
            from . import state

            self.state0[key] = state.fp(v)

    # -------------------------------------------------------------- dict ops
    def dict_get(self, d, x, default=None, raising=True):
        x = norm(x)
        if isinstance(d, ATable):
            if isinstance(x, str):
                if x in d.data:
                    k = (d.name, x)
                    if k not in self.table_entries:
                        self.table_entries[k] = self.lift(d.data[x])
                        self.born(("entry",) + k, self.table_entries[k])
                    return self.table_entries[k]
                if raising:
                    self.raise_("KeyError", show(x))
                return default
            if not raising:
                if not self.truth(self.contains(d, x)):
                    return default
            return Top("%s[%s]" % (d.name, show(x)), prov_of(x))
        k = canon(x)
        if k in d.d:
            return d.d[k][1]
        if k[0] != "c":
            for kk, (key, val) in list(d.d.items()):
                r = self.eq(key, x)
                if r is True or (r is not False and self.truth(r)):
                    return val
        if k not in d.absent and d.tail is not None and self.dict_probe(d, x):
            return d.d[k][1]
        if raising:
            if d.factory is not None:
                v = self.call(d.factory, [], {})
                d.d[k] = (x, v)
                d.absent.discard(k)
                return v
            self.raise_("KeyError", show(x))
        return default

    def dict_set(self, d, x, v):
        k = canon(x)
        d.d[k] = (norm(x), v)
        d.absent.discard(k)
        d.log.append(("set", norm(x), v))

    def lift(self, v):
        """python constant data -> abstract value"""
        if isinstance(v, dict):
            return ADict([(k, self.lift(x)) for k, x in v.items()])
        if isinstance(v, list):
            return AList([self.lift(x) for x in v])
        if isinstance(v, tuple):
            return tuple(self.lift(x) for x in v)
        if isinstance(v, (set, frozenset)):
            return ASet([self.lift(x) for x in sorted(v, key=repr, reverse=bool(self.world))])
        return v

    # ------------------------------------------------------------- iteration
    def iterate(self, v):
        v = norm(v)
        if hasattr(v, "gen"):  # model-provided lazy generator
            yield from v.gen
            return
        if isinstance(v, (tuple, str, bytes)):
            yield from list(v)
            return
        if isinstance(v, ASet) and v.tail is None:
            yield from list(v.items)
            return
        if isinstance(v, AList):
            i = 0
            fresh = 0
            while True:
                if i < len(v.items):
                    yield v.items[i]
                    i += 1
                    continue
                if v.tail is None:
                    return
                if fresh >= self.loop_k:
                    return
                if not self.decide(None, "%s has another element" % (v.label or "collection")):
                    v.tail = None
                    return
                fresh += 1
                v.items.append(v.tail())
        elif isinstance(v, ADict):
            for kk in list(v.d):
                if kk in v.d:
                    yield v.d[kk][0]
            if v.tail is not None and v.label:
                n = 0
                while n < self.loop_k and self.decide(None, "%s has another entry" % v.label):
                    n += 1
                    yield Top("key of %s" % v.label, typ=None)
        elif isinstance(v, ATable):
            if self.exact_tables or len(v.data) <= 40:
                yield from list(v.data)
                return
            if self.decide(("iter", v.name), "%s iterated" % v.name):
                yield Top("key of %s" % v.name, typ="str")
        elif isinstance(v, AStr):
            n = 0
            while n < self.loop_k and self.decide(None, "another character"):
                n += 1
                yield Top("char", v.prov(), "str")
        elif isinstance(v, (Top, Pred)):
            n = 0
            while n < self.loop_k and self.decide(None, "%s has another element" % show(v)):
                n += 1
                yield Top("elem of %s" % show(v), prov_of(v))
        elif v is None or isinstance(v, (int, float, bool)):
            self.raise_("TypeError", "%s is not iterable" % show(v))
        elif isinstance(v, Obj) and v.cls is not None:
            m = self.prog.find_method(v.cls, "__iter__")
            if m:
                yield from self.iterate(self.call(FuncVal(m, v), [], {}))
                return
            raise Gap("iterate object")
        elif isinstance(v, Obj):
            n = 0
            while n < self.loop_k and self.decide(None, "%s has another element" % v.kind):
                n += 1
                yield Top("elem of %s" % v.kind)
        else:
            raise Gap("iterate %r" % (v,))

    # ---------------------------------------------------------------- attrs
    def get_attr(self, o, name, default=RaiseEx):
        o = norm(o)
        if isinstance(o, Obj):
            if name in o.attrs:
                return o.attrs[name]
            if o.kind in self.attr_hooks:
                r = self.attr_hooks[o.kind](self, o, name)
                if r is not NotImplemented:
                    return r
            if o.cls is not None:
                m = self.prog.find_method(o.cls, name)
                if m is not None:
                    if m.is_property:
                        return self.call(FuncVal(m, o), [], {})
                    if m.is_static:
                        return FuncVal(m)
                    if m.is_class:
                        return FuncVal(m, ClassVal(o.cls))
                    return FuncVal(m, o)
                v = self.class_attr(o.cls, name)
                if v is not NotImplemented:
                    if isinstance(v, FuncVal) and v.self is None and not v.info.is_static:
                        return FuncVal(v.info, o, v.env, v.cls)
                    return v
                if name == "__class__":
                    return ClassVal(o.cls)
                if name == "__dict__":
                    return ADict([(k, v) for k, v in o.attrs.items()])
                if any(isinstance(c, str) and c not in ("ext:object",) for c in self.prog.mro(o.cls)):
                    return Bound(o, name)
                if o.open:
                    o.attrs[name] = Top("%s.%s" % (o.cls.name, name))
                    return o.attrs[name]
                if default is not RaiseEx:
                    return default
                self.raise_("AttributeError", "'%s' object has no attribute '%s'" % (o.cls.name, name))
            if o.kind in self.obj_hooks:
                return Bound(o, name)
            o.attrs[name] = Top("%s.%s" % (o.kind, name))
            return o.attrs[name]
        if isinstance(o, ANode):
            return self.node_field(o, name, default)
        if isinstance(o, tuple) and name in (getattr(o, "_fields", ()) or ()) + (("exact_type",) if hasattr(o, "exact_type") else ()):
            return getattr(o, name)
        if isinstance(o, Top):
            if name not in o.attrs:
                o.attrs[name] = Top("%s.%s" % (o.label, name), o.prov)
            return o.attrs[name]
        if isinstance(o, Ext):
            p = o.path + "." + name
            if p in self.ext_consts:
                return self.ext_consts[p]
            return Ext(p)
        if isinstance(o, ModVal):
            r = self.global_value(o.info, name)
            if r is NotImplemented:
                return Top("%s.%s" % (o.info.name, name))
            return r
        if isinstance(o, ClassVal):
            m = self.prog.find_method(o.info, name)
            if (o.info.name, name) not in self.class_attrs and m is not None:
                if m.is_class:
                    return FuncVal(m, o)
                return FuncVal(m)
            v = self.class_attr(o.info, name)
            if v is not NotImplemented:
                return v
            if name == "__name__":
                return o.info.name
            if default is not RaiseEx:
                return default
            return Top("%s.%s" % (o.info.name, name))
        if isinstance(o, SuperVal):
            m = self.prog.find_method(o.obj.cls, name, after=o.cls) if isinstance(o.obj, Obj) else (
                self.prog.find_method(o.obj.info, name, after=o.cls))
            if m is not None:
                if m.is_static:
                    return FuncVal(m)
                if m.is_property:
                    return self.call(FuncVal(m, o.obj), [], {})
                return FuncVal(m, o.obj)
            return Bound(o, name)
        if o is None:
            if name in ("__class__", "__doc__"):
                return Top("None." + name)
            if default is not RaiseEx:
                return default
            self.raise_("AttributeError", "'NoneType' object has no attribute '%s'" % name)
        if isinstance(o, FuncVal):
            if name == "__name__":
                return o.info.name
            return Top("%s.%s" % (o.info.qual, name))
        py = (
            str if isinstance(o, (str, AStr)) else
            set if isinstance(o, ASet) else
            list if isinstance(o, AList) else
            dict if isinstance(o, (ADict, ATable)) else
            tuple if isinstance(o, tuple) else
            type(o) if isinstance(o, (int, bool, float, bytes)) else None
        )
        if py is not None and not hasattr(py, name):
            if default is not RaiseEx:
                return default
            self.raise_("AttributeError", "'%s' object has no attribute '%s'" % (py.__name__, name))
        return Bound(o, name)

    def class_attr(self, cls, name):
        for c in self.prog.mro(cls):
            if isinstance(c, ClassInfo) and (c.name, name) in self.class_attrs:
                return self.class_attrs[(c.name, name)]
        r = self.prog.find_class_assign(cls, name)
        if r is None:
            return NotImplemented
        c, expr = r
        v = self.eval_in_module(c.module, expr, cls=c)
        self.class_attrs[(c.name, name)] = v
        self.born(("class", c.name, name), v)
        return v

    def set_attr(self, o, name, v):
        o = norm(o)
        if isinstance(o, Obj):
            if o.cls is not None and self.setattr_watch is not None:
                self.setattr_watch(o, name, v)
            o.attrs[name] = v
        elif isinstance(o, ANode):
            o.fields[name] = v
            self.event("setfield", node=o, field=name, value=v)
        elif isinstance(o, ClassVal):
            self.class_attrs[(o.info.name, name)] = v
            self.event("class_write", cls=o.info.name, attr=name, value=v)
        elif isinstance(o, Top):
            o.attrs[name] = v
        elif isinstance(o, ModVal):
            self.mod_globals[(o.info.name, name)] = v
            self.event("global_write", module=o.info.name, name=name)
        elif isinstance(o, (Ext, FuncVal)):
            self.event("ext_write", path=getattr(o, "path", "?"), attr=name)
        else:
            self.raise_("AttributeError", "cannot set %s on %s" % (name, show(o)))

    setattr_watch = None

    def node_field(self, n, name, default=RaiseEx):
        if name in n.fields:
            return n.fields[name]
        if name in ("lineno", "col_offset", "end_lineno", "end_col_offset"):
            n.fields[name] = Top("%s.%s" % (n.label, name), typ="int")
            return n.fields[name]
        if name == "_fields":
            t = self.node_one(n)
            return tuple(f[1] for f in GRAMMAR[t])
        if name == "__class__":
            return Ext("ast." + self.node_one(n))
        if name in ("_attributes",):
            return ("lineno", "col_offset", "end_lineno", "end_col_offset")
        have = frozenset(t for t in n.types if any(f[1] == name for f in GRAMMAR[t]))
        lack = n.types - have
        if have and lack:
            if self.decide(None, "%s is one of the node kinds with field '%s'" % (n.label, name)):
                n.types = have
            else:
                n.types = lack
                have = frozenset()
        if not have or name in n.absentf:
            if default is not RaiseEx:
                return default
            self.raise_(
                "AttributeError",
                "%s: '%s' node has no attribute '%s'"
                % (n.label, "/".join(sorted(n.types)[:3]), name),
            )
        # create
        kinds = {next(f for f in GRAMMAR[t] if f[1] == name) for t in have}
        if len(kinds) > 1:
            # e.g. Name.id vs others: pick by field signature
            ks = sorted(kinds)
            i = self.decide(None, "%s.%s kind" % (n.label, name), n=len(ks))
            kinds = {ks[int(i)]}
            n.types = frozenset(
                t for t in have if next(f for f in GRAMMAR[t] if f[1] == name) in kinds
            )
        typ, _, mult = next(iter(kinds))
        v = self.make_field(n, typ, name, mult)
        n.fields[name] = v
        return v

    def make_field(self, n, typ, name, mult):
        lab = "%s.%s" % (n.label, name)
        prov = n.prov

        def one():
            if typ == "identifier":
                return AStr([Hole(lab, prov | {lab}, "ident")])
            if typ == "string":
                return AStr([Hole(lab, prov | {lab}, "text")])
            if typ == "int":
                return Top(lab, prov, "int")
            if typ == "constant":
                return Top(lab, prov | {lab})
            if typ in SUMS:
                return ANode(SUMS[typ], lab, prov)
            return ANode([typ], lab, prov)

        if mult == "*":
            return AList([], tail=one, label=lab)
        if mult == "?":
            if not self.decide(None, "%s is present" % lab):
                return None
            return one()
        return one()

    def node_one(self, n):
        """force a single class"""
        if len(n.types) == 1:
            return next(iter(n.types))
        ts = sorted(n.types)
        i = self.decide(None, "class of %s" % n.label, n=len(ts))
        if i is True or i is False:
            i = int(i)
        n.types = frozenset([ts[i]])
        return ts[i]

    def node_isinstance(self, n, classes):
        inn = n.types & classes
        out = n.types - classes
        if not inn:
            return False
        if not out:
            return True

        def on(e, r, n=n, inn=inn, out=out):
            n.types = inn if r else out

        names = "/".join(sorted(classes)[:4])
        return Pred(
            ("isinst", n.uid, tuple(sorted(inn)), tuple(sorted(out))),
            "%s is %s" % (n.label, names),
            prov=n.prov,
            on=on,
        )

    # ---------------------------------------------------------------- names
    def global_value(self, module, name):
        key = (module.name, name)
        if key in self.mod_globals:
            return self.mod_globals[key]
        r = self.prog.resolve_global(module, name)
        if r is None:
            return NotImplemented
        if isinstance(r, ClassInfo):
            return ClassVal(r)
        if isinstance(r, FuncInfo):
            return FuncVal(r)
        if r[0] == "assign":
            _, m, nm, expr = r
            k2 = (m.name, nm)
            if k2 in self.mod_globals:
                return self.mod_globals[k2]
            v = self.eval_in_module(m, expr)
            self.mod_globals[k2] = v
            self.born(("global",) + k2, v)
            self.event("global_init", module=m.name, name=nm)
            return v
        if r[0] == "module":
            return ModVal(r[1])
        return Ext(r[1])

    def eval_in_module(self, module, expr, cls=None):
        f = Frame(None, module, cls)
        self.frames.append(f)
        try:
            return self.eval(expr)
        finally:
            self.frames.pop()

    def load(self, name):
        f = self.frame
        g = f
        while g is not None:
            if name in g.globals_:
                break
            if name in g.vars:
                return g.vars[name]
            g = g.outer
        r = self.global_value(f.module, name)
        if r is not NotImplemented:
            return r
        if f.info is None and f.cls is not None:
            r = self.class_attr(f.cls, name)
            if r is not NotImplemented:
                return r
            if name in f.cls.methods:
                return FuncVal(f.cls.methods[name])
        if name in BUILTIN_NAMES:
            if name in ("True", "False", "None"):
                return {"True": True, "False": False, "None": None}[name]
            return Ext("builtins." + name)
        if name == "__file__" and self.file_root:
            return self.file_root + self.frame.module.rel
        if name in ("__name__", "__file__", "__doc__"):
            return Top(name, typ="str")
        if f.info is not None and name in _locals_of(f.info.node):
            self.raise_("UnboundLocalError", name)
        self.raise_("NameError", "name '%s' is not defined" % name)

    def store(self, name, v):
        f = self.frame
        if name in f.globals_:
            self.mod_globals[(f.module.name, name)] = v
            self.event("global_write", module=f.module.name, name=name)
            return
        if name in f.nonlocals:
            g = f.outer
            while g is not None:
                if name in g.vars:
                    g.vars[name] = v
                    return
                g = g.outer
        f.vars[name] = v

    # ----------------------------------------------------------------- eval
    def eval(self, n):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget()
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Gap("expression %s" % type(n).__name__)
        f = self.frames[-1]
        old = f.node
        f.node = n if hasattr(n, "lineno") else old
        try:
            return norm(m(n))
        finally:
            f.node = old

    def e_Constant(self, n):
        return n.value

    def e_Name(self, n):
        return self.load(n.id)

    def e_Attribute(self, n):
        return self.get_attr(self.eval(n.value), n.attr)

    def e_Tuple(self, n):
        return tuple(self._elts(n.elts))

    def e_List(self, n):
        return AList(self._elts(n.elts))

    def e_Set(self, n):
        return self.mkset(self._elts(n.elts))

    def mkset(self, items):
        s = ASet()
        for x in items:
            self.set_add(s, x)
        return s

    def set_add(self, s, x):
        c = canon(x)
        if not any(canon(y) == c for y in s.items):
            # the order of a set is the choice of the hash seed
            s.items.insert(0 if self.world else len(s.items), x)

    def _elts(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.eval(e.value)))
            else:
                out.append(self.eval(e))
        return out

    def e_Dict(self, n):
        d = ADict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                src = self.eval(v)
                self.dict_update(d, src)
            else:
                kk = self.eval(k)
                self.dict_set(d, kk, self.eval(v))
        return d

    def dict_update(self, d, src):
        src = norm(src)
        if isinstance(src, ADict):
            for k, v in list(src.d.values()):
                self.dict_set(d, k, v)
            if src.tail is not None and d.tail is None:
                d.tail = src.tail
        elif isinstance(src, AList) or isinstance(src, tuple):
            for kv in self.iterate(src):
                a, b = self.unpack(kv, 2)
                self.dict_set(d, a, b)
        elif src is None:
            self.raise_("TypeError", "'NoneType' object is not a mapping")
        elif isinstance(src, (Top, Obj)):
            if d.tail is None:
                d.tail = lambda key, s=src: (None, lambda: Top("entry", prov_of(s)))
        elif isinstance(src, ATable):
            raise Gap("update from table")
        else:
            raise Gap("dict update from %s" % show(src))

    def unpack(self, v, n):
        v = norm(v)
        if isinstance(v, tuple):
            if len(v) != n:
                self.raise_("ValueError", "cannot unpack %d values into %d" % (len(v), n))
            return list(v)
        if isinstance(v, AList):
            if v.tail is not None:
                while len(v.items) < n:
                    v.items.append(v.tail())
                v.tail = None
            if len(v.items) != n:
                self.raise_("ValueError", "cannot unpack %d values into %d" % (len(v.items), n))
            return list(v.items)
        if v is None:
            self.raise_("TypeError", "cannot unpack NoneType")
        if isinstance(v, (Top, AStr, Obj)):
            return [Top("unpacked", prov_of(v)) for _ in range(n)]
        if isinstance(v, ADict):
            return self.unpack(tuple(k for k, _ in v.d.values()), n)
        raise Gap("unpack %s" % show(v))

    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, e in enumerate(n.values):
            v = self.eval(e)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, Pred) else False
            if not isand and t:
                return v if not isinstance(v, Pred) else True
        return v

    def e_UnaryOp(self, n):
        v = self.eval(n.operand)
        if isinstance(n.op, ast.Not):
            if isinstance(v, (Pred, bool)):
                return self.not_(v)
            return not self.truth(v)
        if isinstance(v, (int, float)) :
            if isinstance(n.op, ast.USub):
                return -v
            if isinstance(n.op, ast.UAdd):
                return +v
            return ~v
        return self.fresh("unary", v)

    def e_IfExp(self, n):
        return self.eval(n.body) if self.truth(self.eval(n.test)) else self.eval(n.orelse)

    def e_Compare(self, n):
        left = self.eval(n.left)
        r = True
        for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
            right = self.eval(c)
            r = self.compare(op, left, right)
            if i < len(n.ops) - 1:
                if not self.truth(r):
                    return False
            left = right
        return r

    def e_BinOp(self, n):
        return self.binop(n.op, self.eval(n.left), self.eval(n.right))

    def binop(self, op, a, b):
        a, b = norm(a), norm(b)
        num = (int, float, complex)
        if isinstance(a, num) and isinstance(b, num):
            try:
                return _native_binop(op, a, b)
            except ZeroDivisionError:
                self.raise_("ZeroDivisionError", "division by zero")
        if isinstance(op, ast.Add):
            if isinstance(a, (str, AStr)) or isinstance(b, (str, AStr)):
                if isinstance(a, (str, AStr)) and isinstance(b, (str, AStr)):
                    return norm(AStr(parts_of(a) + parts_of(b)))
                if isinstance(a, Top) or isinstance(b, Top):
                    return norm(AStr(parts_of(a) + parts_of(b)))
                bad = b if isinstance(a, (str, AStr)) else a
                self.raise_("TypeError", "cannot concatenate str and %s" % _tname(bad))
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, AList) and isinstance(b, AList):
                r = AList(a.items + b.items, a.tail or b.tail)
                return r
            if isinstance(a, LenVal) and isinstance(b, int):
                return LenVal(a.of, a.off + b)
            if isinstance(b, LenVal) and isinstance(a, int):
                return LenVal(b.of, b.off + a)
            if isinstance(a, LenVal) and isinstance(b, LenVal):
                if a.of.tail is None:
                    return LenVal(b.of, b.off + a.off + len(a.of.items))
                if b.of.tail is None:
                    return LenVal(a.of, a.off + b.off + len(b.of.items))
            if (a is None or b is None) :
                self.raise_("TypeError", "unsupported operand type(s) for +: NoneType")
            if isinstance(a, AList) and isinstance(b, (int, float, tuple, ADict)):
                self.raise_("TypeError", "can only concatenate list")
            if isinstance(a, AList) or isinstance(b, AList):
                items = (a.items if isinstance(a, AList) else []) + (b.items if isinstance(b, AList) else [])
                o = b if isinstance(a, AList) else a
                return AList(items, lambda: Top("elem", prov_of(o)))
        if isinstance(a, StrPos) and isinstance(b, int) and isinstance(op, (ast.Add, ast.Sub)):
            return StrPos(a.of, a.pos + (b if isinstance(op, ast.Add) else -b))
        if isinstance(op, ast.Sub):
            if isinstance(a, LenVal) and isinstance(b, int):
                return LenVal(a.of, a.off - b)
            if isinstance(a, ASet) and isinstance(b, ASet):
                if a.tail is None and b.tail is None:
                    bs = {canon(x) for x in b.items}
                    return ASet([x for x in a.items if canon(x) not in bs])
                return ASet([], a.tail or (lambda: Top("elem")))
        if isinstance(op, ast.Mod) and isinstance(a, (str, AStr)):
            return self.percent(a, b)
        if isinstance(op, ast.Mult):
            if isinstance(a, str) and isinstance(b, int):
                return a * b
            if isinstance(b, str) and isinstance(a, int):
                return a * b
            if isinstance(a, AList) and isinstance(b, int):
                return AList(a.items * b, a.tail)
            if isinstance(a, tuple) and isinstance(b, int):
                return a * b
            if isinstance(b, AList) and isinstance(a, int):
                return AList(b.items * a, b.tail)
        if isinstance(op, ast.BitOr):
            if isinstance(a, ASet) and isinstance(b, ASet):
                s = ASet(list(a.items), a.tail or b.tail)
                for x in b.items:
                    self.set_add(s, x)
                return s
            if isinstance(a, ADict) and isinstance(b, ADict):
                d = ADict(list(a.d.values()), a.tail)
                self.dict_update(d, b)
                return d
        if isinstance(op, ast.Div) and isinstance(a, Obj) and a.kind == "path":
            h = self.obj_hooks.get("path")
            return h(self, a, "joinpath", [b], {})
        return self.fresh("(%s op %s)" % (show(a), show(b)), a, b)

    def percent(self, fmt, arg):
        args = list(arg) if isinstance(arg, tuple) else [arg]
        out = []
        i = 0
        if isinstance(arg, ADict):
            return self.fresh("%-format", fmt, arg, typ="str")
        for p in parts_of(fmt):
            if not isinstance(p, str):
                out.append(p)
                continue
            pos = 0
            import re as _re

            for m in _re.finditer(r"%(?:[-+ #0]*\d*(?:\.\d+)?)([a-zA-Z%])", p):
                out.append(p[pos : m.start()])
                pos = m.end()
                if m.group(1) == "%":
                    out.append("%")
                    continue
                if i >= len(args):
                    self.raise_("TypeError", "not enough arguments for format string")
                out.extend(self.to_parts(args[i]))
                i += 1
            out.append(p[pos:])
        if i < len(args) and not any(isinstance(x, Top) for x in args):
            self.raise_("TypeError", "not all arguments converted during string formatting")
        return norm(AStr(out))

    def to_parts(self, v, spec=""):
        v = norm(v)
        if isinstance(v, (str, AStr)):
            if spec and isinstance(v, str):
                try:
                    return [format(v, spec)]
                except ValueError:
                    self.raise_("ValueError", "Unknown format code")
            return parts_of(v)
        if isinstance(v, (int, float, bool, complex, type(None), bytes)) or v is Ellipsis:
            if spec:
                try:
                    return [format(v, spec)]
                except Exception:
                    pass
            return [str(v)]
        if isinstance(v, (AList, tuple)):
            return self.repr_parts(v)
        if isinstance(v, ADict):
            return self.repr_parts(v)
        if isinstance(v, Top):
            if "str" not in v.attrs:
                v.attrs["str"] = Hole(v.label, v.prov | {v.label}, "text")
            return [v.attrs["str"]]
        return [Hole("str(%s)" % show(v), prov_of(v), "text")]

    def repr_parts(self, v):
        v = norm(v)
        if isinstance(v, str):
            return [repr(v)]
        if isinstance(v, AStr):
            return ["'"] + parts_of(v) + ["'"]
        if isinstance(v, (tuple, AList)):
            o, c = ("(", ")") if isinstance(v, tuple) else ("{", "}") if isinstance(v, ASet) else ("[", "]")
            out = [o]
            items = list(v) if isinstance(v, tuple) else v.items
            for i, x in enumerate(items):
                if i:
                    out.append(", ")
                out.extend(self.repr_parts(x))
            if isinstance(v, tuple) and len(v) == 1:
                out.append(",")
            if isinstance(v, AList) and v.tail is not None:
                out.append(Hole("more", kind="text"))
            out.append(c)
            return out
        if isinstance(v, ADict):
            out = ["{"]
            for i, (k, x) in enumerate(v.d.values()):
                if i:
                    out.append(", ")
                out.extend(self.repr_parts(k))
                out.append(": ")
                out.extend(self.repr_parts(x))
            out.append("}")
            return out
        return self.to_parts(v)

    def e_JoinedStr(self, n):
        out = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                x = self.eval(v.value)
                spec = ""
                if v.format_spec is not None:
                    s = self.eval(v.format_spec)
                    spec = s if isinstance(s, str) else ""
                if v.conversion == 114:
                    out.extend(self.repr_parts(x))
                else:
                    out.extend(self.to_parts(x, spec))
        return norm(AStr(out))

    def e_FormattedValue(self, n):
        return norm(AStr(self.to_parts(self.eval(n.value))))

    def e_NamedExpr(self, n):
        v = self.eval(n.value)
        self.store(n.target.id, v)
        return v

    def e_Lambda(self, n):
        fi = FuncInfo(n, self.frame.module, self.frame.cls)
        return FuncVal(fi, None, self.frame)

    def e_Starred(self, n):
        return self.eval(n.value)

    def e_Await(self, n):
        return self.eval(n.value)

    def e_Yield(self, n):
        v = self.eval(n.value) if n.value else None
        self.frame.yields.items.append(v)
        return None

    def e_YieldFrom(self, n):
        for x in self.iterate(self.eval(n.value)):
            self.frame.yields.items.append(x)
        return None

    def e_Slice(self, n):
        return ("slice", self.eval(n.lower) if n.lower else None,
                self.eval(n.upper) if n.upper else None,
                self.eval(n.step) if n.step else None)

    def e_Subscript(self, n):
        o = self.eval(n.value)
        if isinstance(n.slice, ast.Slice):
            return self.slice(o, self.eval(n.slice))
        return self.getitem(o, self.eval(n.slice))

    def slice(self, o, s):
        o = norm(o)
        _, a, b, c = s
        plain = all(x is None or isinstance(x, int) for x in (a, b, c))
        if isinstance(o, (str, tuple, bytes)) and plain:
            return o[slice(a, b, c)]
        if isinstance(o, AList):
            if plain and o.tail is None:
                r = type(o)(o.items[slice(a, b, c)])
                return r
            if plain and c in (None, 1) and (a is None or a >= 0) and b is None:
                need = a or 0
                self.resolve_len(o, need - 1)
                return AList(o.items[need:], o.tail, o.label)
            if plain and c in (None, 1) and (a is None or a >= 0) and b is not None and b >= 0:
                self.resolve_len(o, b - 1)
                return AList(o.items[slice(a, b, c)])
            if plain and b == -1 and a in (None, 0) and c is None:
                n = self.resolve_len(o, 0)
                if o.tail is None:
                    return AList(o.items[:-1])
                return AList(o.items[:-1], o.tail, o.label)
            if plain and a is None and b is None and c == -1:
                return AList(o.items[::-1], o.tail, o.label)
            return AList([], lambda: Top("elem", prov_of(o)), o.label)
        if isinstance(o, AStr) and c is None and (isinstance(a, StrPos) or isinstance(b, StrPos)) and all(
            x is None or x == 0 and isinstance(x, int) or isinstance(x, StrPos) and canon(x.of) == canon(o) for x in (a, b)
        ):
            from .methods import enc, dec

            (t,), holes = enc(o)
            return dec(t[(a.pos if isinstance(a, StrPos) else 0):(b.pos if isinstance(b, StrPos) else len(t))], holes)
        if isinstance(o, AStr):
            if plain:
                ps = o.parts
                # dropping a literal prefix / suffix
                if isinstance(ps[0], str) and a is not None and a >= 0 and b is None and c is None and len(ps[0]) >= a:
                    return norm(AStr([ps[0][a:]] + ps[1:]))
                if isinstance(ps[-1], str) and b is not None and b < 0 and a in (None, 0) and c is None and len(ps[-1]) >= -b:
                    return norm(AStr(ps[:-1] + [ps[-1][:b]]))
            lab = "%s[%s:%s]" % (o.show(), "" if a is None else show(a), "" if b is None else show(b))
            key = ("slice", canon(o), canon(a), canon(b), canon(c))
            if key not in self.memo:
                self.memo[key] = Hole(lab, o.prov(), "text", root=o)
            return AStr([self.memo[key]])
        if isinstance(o, Top):
            return self.fresh("%s[:]" % o.label, o, typ=o.typ)
        if o is None:
            self.raise_("TypeError", "'NoneType' object is not subscriptable")
        if isinstance(o, (str, bytes)):
            return self.fresh("%s[:]" % o, a, b, typ="str")
        if isinstance(o, tuple):
            return AList([], lambda: Top("elem", prov_of(o)))
        raise Gap("slice of %s" % show(o))

    def getitem(self, o, k):
        o, k = norm(o), norm(k)
        if isinstance(o, (ADict, ATable)):
            return self.dict_get(o, k)
        if isinstance(o, (str, tuple, bytes)) and isinstance(k, int):
            try:
                return o[k]
            except IndexError:
                self.raise_("IndexError", "index out of range")
        if isinstance(o, AList):
            if isinstance(o, ASet):
                self.raise_("TypeError", "'set' object is not subscriptable")
            if isinstance(k, int):
                if k >= 0:
                    n = self.resolve_len(o, k)
                    if k >= n:
                        self.raise_("IndexError", "list index out of range (%s[%d])" % (o.label or "list", k))
                    return o.items[k]
                if o.tail is not None:
                    # from the end of a partly unknown list
                    if not o.items and not self.decide(None, "%s has an element" % (o.label or "list")):
                        o.tail = None
                        self.raise_("IndexError", "list index out of range")
                    key = ("end", o.uid, k)
                    if key not in self.memo:
                        self.memo[key] = o.tail()
                    return self.memo[key]
                if -k > len(o.items):
                    self.raise_("IndexError", "list index out of range (%s[%d])" % (o.label or "list", k))
                return o.items[k]
            if isinstance(k, (str, AStr)) or k is None:
                self.raise_("TypeError", "list indices must be integers")
            return self.fresh("item", o, k) if not o.items else self._any_item(o, k)
        if isinstance(o, AStr):
            key = ("idx", canon(o), canon(k))
            if key not in self.memo:
                if isinstance(k, int):
                    ps = o.parts
                    if isinstance(ps[0], str) and 0 <= k < len(ps[0]):
                        return ps[0][k]
                    if isinstance(ps[-1], str) and k < 0 and -k <= len(ps[-1]):
                        return ps[-1][k]
                self.memo[key] = Hole("%s[%s]" % (o.show(), show(k)), o.prov(), "text", root=o)
            return AStr([self.memo[key]])
        if isinstance(o, Top):
            if k is None or isinstance(k, (str, int)):
                kk = "[%r]" % (k,)
                if kk not in o.attrs:
                    o.attrs[kk] = Top("%s[%r]" % (o.label, k), o.prov)
                return o.attrs[kk]
            kk = ("[]", canon(k))
            if kk not in o.attrs:
                o.attrs[kk] = self.fresh("%s[%s]" % (o.label, show(k)), o, k)
            return o.attrs[kk]
        if o is None:
            self.raise_("TypeError", "'NoneType' object is not subscriptable")
        if isinstance(o, Obj):
            if o.kind in self.obj_hooks:
                return self.obj_hooks[o.kind](self, o, "__getitem__", [k], {})
            m = self.prog.find_method(o.cls, "__getitem__") if o.cls else None
            if m:
                return self.call(FuncVal(m, o), [k], {})
            return Top("item")
        if isinstance(o, Ext):
            return Ext(o.path + "[]")
        if isinstance(o, (int, float, bool)):
            self.raise_("TypeError", "'%s' object is not subscriptable" % type(o).__name__)
        if isinstance(o, tuple):
            return self.fresh("item", o, k)
        if isinstance(o, str):
            return self.fresh("char", k, typ="str")
        raise Gap("getitem %s" % show(o))

    def _any_item(self, o, k):
        if isinstance(k, Top) and len(o.items) > 1 and o.tail is None:
            i = self.decide(("idx", o.uid, canon(k)), "index %s" % show(k), n=len(o.items))
            return o.items[int(i)]
        if len(o.items) == 1 and o.tail is None:
            return o.items[0]
        return self.fresh("item", o, k)

    def setitem(self, o, k, v):
        o, k = norm(o), norm(k)
        if isinstance(o, ADict):
            if self.dict_watch:
                self.dict_watch(o, k, v)
            self.dict_set(o, k, v)
        elif isinstance(o, AList):
            if isinstance(k, int):
                if k >= 0 and o.tail is not None:
                    self.resolve_len(o, k)
                if -len(o.items) <= k < len(o.items):
                    o.items[k] = v
                elif o.tail is None:
                    self.raise_("IndexError", "list assignment index out of range")
            elif isinstance(k, tuple) and k and k[0] == "slice":
                if k[1] is None and k[2] is None:
                    o.items = list(self.iterate(v))
                    o.tail = None
                else:
                    o.tail = lambda: Top("elem", prov_of(v))
            else:
                self.event("list_set", lst=o, key=k, value=v)
        elif isinstance(o, Top):
            self.event("top_setitem", obj=o, key=k, value=v)
            if isinstance(k, (str, int)):
                o.attrs["[%r]" % (k,)] = v
            else:
                o.attrs[("[]", canon(k))] = v
        elif o is None:
            self.raise_("TypeError", "'NoneType' object does not support item assignment")
        elif isinstance(o, Obj) and o.kind in self.obj_hooks:
            self.obj_hooks[o.kind](self, o, "__setitem__", [k, v], {})
        elif isinstance(o, ATable):
            self.event("table_write", table=o.name, key=k)
        elif isinstance(o, (str, AStr, int, float, tuple)):
            self.raise_("TypeError", "object does not support item assignment")
        else:
            raise Gap("setitem %s" % show(o))

    dict_watch = None

    # ------------------------------------------------------- comprehensions
    def _comp(self, n, emit):
        f = Frame(self.frame.info, self.frame.module, self.frame.cls, self.frame)
        f.node = n
        self.frames.append(f)

        def rec(i):
            if i == len(n.generators):
                emit()
                return
            g = n.generators[i]
            for x in self.iterate(self.eval(g.iter)):
                self.assign(g.target, x)
                if all(self.truth(self.eval(c)) for c in g.ifs):
                    rec(i + 1)

        try:
            rec(0)
        finally:
            self.frames.pop()

    def e_ListComp(self, n):
        r = AList()
        self._comp(n, lambda: r.items.append(self.eval(n.elt)))
        return r

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n):
        r = ASet()
        self._comp(n, lambda: self.set_add(r, self.eval(n.elt)))
        return r

    def e_DictComp(self, n):
        r = ADict()

        def emit():
            k = self.eval(n.key)
            self.dict_set(r, k, self.eval(n.value))

        self._comp(n, emit)
        return r

    # ----------------------------------------------------------------- calls
    def e_Call(self, n):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not self._shadowed("super"):
            if n.args:
                a = [self.eval(x) for x in n.args]
                c = a[0].info if isinstance(a[0], ClassVal) else self.frame.cls
                return SuperVal(c, a[1] if len(a) > 1 else None)
            f = self.frame
            while f is not None and f.info is None:
                f = f.outer
            selfname = f.info.node.args.args[0].arg if f.info.node.args.args else None
            return SuperVal(f.cls, f.vars.get(selfname))
        fn = self.eval(n.func)
        args, kwargs, unknown = [], {}, False
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                if isinstance(v, (tuple, AList)) and not (isinstance(v, AList) and v.tail):
                    args.extend(list(v) if isinstance(v, tuple) else v.items)
                elif isinstance(v, ADict):
                    args.extend(k for k, _ in v.d.values())
                else:
                    args.extend(self.iterate(v))
            else:
                args.append(self.eval(a))
        for k in n.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                if isinstance(v, ADict):
                    for kk, vv in v.d.values():
                        if isinstance(kk, str):
                            kwargs[kk] = vv
                elif v is None:
                    self.raise_("TypeError", "argument after ** must be a mapping")
                else:
                    unknown = True
            else:
                kwargs[k.arg] = v
        return self.call(fn, args, kwargs, n)

    def _shadowed(self, name):
        g = self.frame
        while g is not None:
            if name in g.vars:
                return True
            g = g.outer
        return False

    def call(self, fn, args, kwargs, node=None):
        fn = norm(fn)
        if isinstance(fn, FuncVal):
            return self.call_func(fn, args, kwargs)
        if isinstance(fn, ClassVal):
            return self.instantiate(fn, args, kwargs)
        if isinstance(fn, Ext):
            return self.call_ext(fn.path, args, kwargs)
        if isinstance(fn, Bound):
            return self.call_method(fn.recv, fn.name, args, kwargs)
        if isinstance(fn, Top):
            self.event("call_top", fn=fn, args=args, kwargs=kwargs)
            return self.fresh("%s(...)" % fn.label, fn, *args, *kwargs.values())
        if fn is None:
            self.raise_("TypeError", "'NoneType' object is not callable")
        if isinstance(fn, Obj):
            if fn.cls is not None:
                m = self.prog.find_method(fn.cls, "__call__")
                if m:
                    return self.call_func(FuncVal(m, fn), args, kwargs)
            if fn.kind in self.obj_hooks:
                return self.obj_hooks[fn.kind](self, fn, "__call__", args, kwargs)
            return self.fresh("call", *args)
        if isinstance(fn, (str, int, float, AStr, AList, ADict, tuple)):
            self.raise_("TypeError", "'%s' object is not callable" % _tname(fn))
        if callable(fn):
            return fn(self, args, kwargs)
        raise Gap("call of %s" % show(fn))

    def instantiate(self, cv, args, kwargs):
        hook = self.repo_hooks.get(cv.info.name)
        if hook is not None:
            r = hook(self, cv, args, kwargs)
            if r is not NotImplemented:
                return r
        if any(
            isinstance(c, str) and c.split(".")[-1].split(":")[-1].endswith(("Exception", "Error"))
            for c in self.prog.mro(cv.info)
        ):
            return Obj(cv.info, {"args": tuple(args)})
        new = self.prog.find_method(cv.info, "__new__")
        if new is not None:
            o = self.call_func(FuncVal(new), [cv] + list(args), kwargs)
            if not (isinstance(o, Obj) and o.cls is cv.info):
                return o
        else:
            o = Obj(cv.info)
        init = self.prog.find_method(cv.info, "__init__")
        if init is not None:
            self.call_func(FuncVal(init, o), args, kwargs)
        elif args or kwargs:
            # dataclass-like / NamedTuple: bind class annotations in order
            names = [
                st.target.id for st in cv.info.node.body
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name)
            ]
            for nm, a in zip(names, args):
                o.attrs[nm] = a
            for k, a in kwargs.items():
                o.attrs[k] = a
        return o

    def call_func(self, fv, args, kwargs):
        fi = fv.info
        hook = self.repo_hooks.get(fi.qual)
        if hook is not None:
            r = hook(self, fv, args, kwargs)
            if r is not NotImplemented:
                return r
        if not isinstance(fi.node, ast.Lambda):
            for d in fi.decorators:
                if d not in ("staticmethod", "classmethod", "property") and not d.endswith(
                    ("lru_cache", "cache", "cached_property", "wraps", "contextmanager")
                ) and "lru_cache" not in d and "wraps" not in d:
                    self.event("decorated", func=fi.qual, deco=d)
                if "lru_cache" in d or d in ("cache", "functools.cache"):
                    key = ("lru", fi.qual, fi.module.name, canon(fv.self), tuple(canon(a) for a in args), tuple(sorted((k, canon(a)) for k, a in kwargs.items())))
                    if key not in self.memo:
                        self.memo[key] = self.call_plain(fv, args, kwargs)
                    return self.memo[key]
        return self.call_plain(fv, args, kwargs)

    def call_plain(self, fv, args, kwargs):
        fi = fv.info
        depth = sum(1 for f in self.frames if f.info is fi)
        if depth > self.rec_limit.get(fi.qual, self.rec_k):
            if self.rec_raise:
                self.raise_("RecursionError", fi.qual)
            return self.fresh("rec:%s" % fi.qual, *args)
        if len(self.frames) > self.max_frames:
            return self.fresh("deep:%s" % fi.qual, *args)
        f = Frame(fi, fi.module, fi.cls, fv.env)
        if fv.self is not None:
            args = [fv.self] + list(args)
        self.frames.append(f)
        try:
            self.bind_args(fi, f, list(args), dict(kwargs))
            self.covered.add((fi.module.rel, fi.qual))
            if isinstance(fi.node, ast.Lambda):
                return self.eval(fi.node.body)
            if fi.is_generator:
                f.yields = AList(label="generator")
                try:
                    self.exec_block(fi.node.body)
                except ReturnEx:
                    pass
                return f.yields
            try:
                self.exec_block(fi.node.body)
            except ReturnEx as r:
                return r.v
            return None
        finally:
            self.frames.pop()

    def bind_args(self, fi, f, args, kwargs):
        a = fi.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        defaults = a.defaults
        nd = len(pos) - len(defaults)
        v = f.vars
        for i, nm in enumerate(pos):
            if i < len(args):
                if nm in kwargs and nm not in [x.arg for x in a.posonlyargs]:
                    self.raise_("TypeError", "%s() got multiple values for argument '%s'" % (fi.qual, nm))
                v[nm] = args[i]
            elif nm in kwargs:
                v[nm] = kwargs.pop(nm)
            elif i >= nd:
                v[nm] = self.default_of(fi, defaults[i - nd])
            else:
                self.raise_("TypeError", "%s() missing required argument '%s'" % (fi.qual, nm))
        extra = args[len(pos):]
        if a.vararg:
            v[a.vararg.arg] = tuple(extra)
        elif extra:
            self.raise_(
                "TypeError",
                "%s() takes %d positional arguments but %d were given" % (fi.qual, len(pos), len(args)),
            )
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kwargs:
                v[x.arg] = kwargs.pop(x.arg)
            elif d is not None:
                v[x.arg] = self.default_of(fi, d)
            else:
                self.raise_("TypeError", "%s() missing keyword-only argument '%s'" % (fi.qual, x.arg))
        if a.kwarg:
            v[a.kwarg.arg] = ADict(list(kwargs.items()))
        elif kwargs:
            self.raise_("TypeError", "%s() got an unexpected keyword argument '%s'" % (fi.qual, next(iter(kwargs))))

    def default_of(self, fi, expr):
        key = ("default", id(expr))
        if key not in self.memo:
            self.memo[key] = self.eval_in_module(fi.module, expr, fi.cls)
            self.default_name[id(expr)] = fi.qual
            self.born(("default", fi.qual, id(expr)), self.memo[key])
        return self.memo[key]

    def call_ext(self, path, args, kwargs):
        h = self.ext_hooks.get(path)
        if h is None:
            # methods of a class fetched through an alias: try the last two parts
            tail = path.split(".")
            h = self.ext_hooks.get("*." + tail[-1])
        self.event("ext", path=path, args=args, kwargs=kwargs)
        if path in self.may_raise:
            if self.decide(None, "%s raises" % path):
                self.raise_(self.may_raise[path], "raised by %s" % path, definite=False)
        if h is not None:
            r = h(self, args, kwargs)
            if r is not NotImplemented:
                return norm(r)
        if path.startswith("builtins."):
            nm = path[9:]
            c = getattr(builtins, nm, None)
            if isinstance(c, type) and issubclass(c, BaseException):
                return Obj(None, {"args": tuple(args), "name": nm}, kind="exc")
        if path.startswith("ast.") and path[4:] in GRAMMAR:
            nm = path[4:]
            flds = {}
            for (t, fn, m), a in zip(GRAMMAR[nm], args):
                flds[fn] = a
            flds.update(kwargs)
            for t, fn, m in GRAMMAR[nm]:
                if fn not in flds:
                    flds[fn] = AList() if m == "*" else None
            p = frozenset()
            for a in flds.values():
                p |= prov_of(a)
            nd = ANode([nm], "new:" + nm, p, flds, origin=("built", self.loc()))
            nd.tags.add("distinct")
            return nd
        return self.fresh("%s(...)" % path, *args, *kwargs.values())

    # ------------------------------------------------------- builtin methods
    def call_method(self, o, name, args, kwargs):
        o = norm(o)
        from . import methods

        return norm(methods.call_method(self, o, name, args, kwargs))

    # ------------------------------------------------------------ statements
    def exec_block(self, body):
        for st in body:
            self.exec(st)

    def exec(self, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget()
        f = self.frames[-1]
        f.node = st
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Gap("statement %s" % type(st).__name__)
        m(st)

    def s_Expr(self, st):
        self.eval(st.value)

    def s_Pass(self, st):
        pass

    def s_Return(self, st):
        v = self.eval(st.value) if st.value is not None else None
        raise ReturnEx(v)

    def s_Break(self, st):
        raise BreakEx()

    def s_Continue(self, st):
        raise ContinueEx()

    def s_Global(self, st):
        self.frame.globals_.update(st.names)

    def s_Nonlocal(self, st):
        self.frame.nonlocals.update(st.names)

    def need(self, name):
        """an import of a module that is not installed fails"""
        have = getattr(self, "installed", None)
        if have is not None and name and name.split(".")[0] not in have:
            self.raise_("ModuleNotFoundError", "No module named %r" % name.split(".")[0])

    def s_Import(self, st):
        for a in st.names:
            if a.name not in self.prog.modules:
                self.need(a.name)
            if a.name in self.prog.modules:
                v = ModVal(self.prog.modules[a.name])
            else:
                v = Ext(a.name if a.asname else a.name.split(".")[0])
            self.store(a.asname or a.name.split(".")[0], v)

    def s_ImportFrom(self, st):
        if st.module not in self.prog.modules and not st.level:
            self.need(st.module)
        for a in st.names:
            if st.module in self.prog.modules:
                v = self.global_value(self.prog.modules[st.module], a.name)
                if v is NotImplemented:
                    v = Top(a.name)
            else:
                v = Ext("%s.%s" % (st.module, a.name))
            self.store(a.asname or a.name, v)

    def s_FunctionDef(self, st):
        fi = FuncInfo(st, self.frame.module, self.frame.cls)
        fi.outer = self.frame.info
        self.store(st.name, FuncVal(fi, None, self.frame))

    def s_ClassDef(self, st):
        ci = ClassInfo(st, self.frame.module)
        self.store(st.name, ClassVal(ci))

    def s_Assign(self, st):
        v = self.eval(st.value)
        for t in st.targets:
            self.assign(t, v)

    def s_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value))

    def s_AugAssign(self, st):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.load(t.id)
            v = self.eval(st.value)
            if isinstance(cur, AList) and isinstance(st.op, ast.Add):
                for x in self.iterate(v):
                    cur.items.append(x)
                return
            if isinstance(cur, ASet) and isinstance(st.op, ast.BitOr):
                for x in self.iterate(v):
                    self.set_add(cur, x)
                return
            self.store(t.id, self.binop(st.op, cur, v))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            cur = self.get_attr(o, t.attr)
            v = self.eval(st.value)
            if isinstance(cur, AList) and isinstance(st.op, ast.Add) and not isinstance(cur, ASet):
                for x in self.iterate(v):
                    cur.items.append(x)
                return
            self.set_attr(o, t.attr, self.binop(st.op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.eval(t.slice)
            cur = self.getitem(o, k)
            v = self.eval(st.value)
            self.setitem(o, k, self.binop(st.op, cur, v))
        else:
            raise Gap("augassign target")

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.store(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.set_attr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            if isinstance(t.slice, ast.Slice):
                self.setitem(o, self.eval(t.slice), v)
            else:
                self.setitem(o, self.eval(t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                items = list(self.iterate(v))
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    if isinstance(v, (tuple, AList)):
                        self.raise_("ValueError", "not enough values to unpack")
                    items = [self.fresh("u", v) for _ in t.elts]
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x)
                self.assign(t.elts[i].value, AList(items[i : len(items) - after]))
                for e, x in zip(t.elts[i + 1 :], items[len(items) - after :]):
                    self.assign(e, x)
            else:
                for e, x in zip(t.elts, self.unpack(v, len(t.elts))):
                    self.assign(e, x)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Gap("assign target")

    def s_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Name):
                if t.id in self.frame.vars:
                    del self.frame.vars[t.id]
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value)
                if isinstance(t.slice, ast.Slice):
                    if isinstance(o, AList):
                        s = self.eval(t.slice)
                        if all(x is None or isinstance(x, int) for x in s[1:]):
                            del o.items[slice(*s[1:])]
                    continue
                k = self.eval(t.slice)
                self.delitem(o, k)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value)
                if isinstance(o, Obj):
                    o.attrs.pop(t.attr, None)
                elif isinstance(o, ANode):
                    o.fields.pop(t.attr, None)
                    o.absentf.add(t.attr)
            else:
                raise Gap("del target")

    def delitem(self, o, k):
        o, k = norm(o), norm(k)
        if isinstance(o, ADict):
            kk = canon(k)
            if kk in o.d:
                del o.d[kk]
                o.absent.add(kk)
                o.log.append(("del", k, None))
                return
            if o.tail is not None and kk not in o.absent and self.dict_probe(o, k):
                del o.d[kk]
                o.absent.add(kk)
                o.log.append(("del", k, None))
                return
            self.raise_("KeyError", show(k))
        elif isinstance(o, AList) and isinstance(k, int):
            if o.tail is None and not (-len(o.items) <= k < len(o.items)):
                self.raise_("IndexError", "list index out of range")
            if -len(o.items) <= k < len(o.items):
                del o.items[k]
        elif isinstance(o, ATable):
            self.event("table_write", table=o.name, key=k)
        elif isinstance(o, Top):
            self.event("top_delitem", obj=o, key=k)
        elif isinstance(o, Obj) and o.kind in self.obj_hooks:
            self.obj_hooks[o.kind](self, o, "__delitem__", [k], {})
        else:
            raise Gap("del item of %s" % show(o))

    def s_If(self, st):
        if self.truth(self.eval(st.test)):
            self.exec_block(st.body)
        else:
            self.exec_block(st.orelse)

    def s_Assert(self, st):
        if not self.truth(self.eval(st.test)):
            msg = ""
            if st.msg is not None:
                m = self.eval(st.msg)
                msg = show(m)
            self.raise_("AssertionError", msg)

    def s_Raise(self, st):
        if st.exc is None:
            cur = getattr(self, "_handling", None)
            if cur:
                raise cur[-1]
            self.raise_("RuntimeError", "No active exception to reraise")
        v = self.eval(st.exc)
        name = None
        if isinstance(v, Ext):
            name = v.path.split(".")[-1]
        elif isinstance(v, Obj) and v.kind == "exc":
            name = v.attrs.get("name")
        elif isinstance(v, ClassVal):
            name = v.info.name
        elif isinstance(v, Obj) and v.cls is not None:
            name = v.cls.name
        msg = ""
        if isinstance(v, Obj):
            a = v.attrs.get("args")
            if isinstance(a, tuple) and a:
                msg = show(a[0])
        self.raise_(name or "Exception", msg, definite=True, value=v)

    def exc_matches(self, h, ex):
        if h is None:
            return True
        v = self.eval(h)
        names = []
        for x in (list(v) if isinstance(v, tuple) else [v]):
            if isinstance(x, Ext):
                names.append(x.path.split(".")[-1])
            elif isinstance(x, ClassVal):
                names.append(x.info.name)
            else:
                return self.decide(None, "handler matches")
        bases = list(exc_bases(ex.name))
        c = self.prog.find_class(ex.name)
        if c is not None:
            for b in self.prog.mro(c):
                bases.append(b.name if isinstance(b, ClassInfo) else b.split(":")[1])
                if isinstance(b, str):
                    bases.extend(exc_bases(b.split(":")[1]))
        if "IOError" in names or "EnvironmentError" in names:
            names.append("OSError")
        return any(nm in bases for nm in names)

    def s_Try(self, st):
        try:
            try:
                self.exec_block(st.body)
            except RaiseEx as ex:
                nf = self.frames[-1]
                for h in st.handlers:
                    if self.exc_matches(h.type, ex):
                        self.event("caught", exc=ex.name, msg=ex.msg, at=ex.loc)
                        if h.name:
                            self.store(h.name, Obj(None, {"args": (ex.msg,), "name": ex.name}, kind="exc"))
                        if not hasattr(self, "_handling"):
                            self._handling = []
                        self._handling.append(ex)
                        try:
                            self.exec_block(h.body)
                        finally:
                            self._handling.pop()
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse)
        except (RaiseEx, ReturnEx, BreakEx, ContinueEx) as c:
            self.exec_block(st.finalbody)
            raise c
        else:
            self.exec_block(st.finalbody)

    def s_With(self, st):
        suppress = []
        for it in st.items:
            v = self.eval(it.context_expr)
            if isinstance(v, Obj) and v.kind == "suppress":
                suppress.extend(v.attrs["names"])
            bound = v
            if isinstance(v, Obj) and v.cls is not None:
                m = self.prog.find_method(v.cls, "__enter__")
                if m:
                    bound = self.call_func(FuncVal(m, v), [], {})
            elif isinstance(v, AList) and v.label == "generator":
                bound = v.items[0] if v.items else None
            if it.optional_vars is not None:
                self.assign(it.optional_vars, bound)
        if suppress:
            try:
                self.exec_block(st.body)
            except RaiseEx as ex:
                if not any(nm in exc_bases(ex.name) for nm in suppress):
                    raise
        else:
            self.exec_block(st.body)

    s_AsyncWith = s_With

    def s_For(self, st):
        broke = False
        for x in self.iterate(self.eval(st.iter)):
            self.frame.node = st
            self.assign(st.target, x)
            try:
                self.exec_block(st.body)
            except BreakEx:
                broke = True
                break
            except ContinueEx:
                continue
        if not broke:
            self.exec_block(st.orelse)

    s_AsyncFor = s_For

    def s_While(self, st):
        n = 0
        lim = self.while_limit
        while self.truth(self.eval(st.test)):
            n += 1
            try:
                self.exec_block(st.body)
            except BreakEx:
                return
            except ContinueEx:
                pass
            if n > lim:
                raise Prune("loop bound")
        self.exec_block(st.orelse)

    while_limit = 40

    def s_Match(self, st):
        v = self.eval(st.subject)
        for c in st.cases:
            if self.match_pattern(c.pattern, v):
                if c.guard is not None and not self.truth(self.eval(c.guard)):
                    continue
                self.exec_block(c.body)
                return

    def match_pattern(self, p, v):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.eq(v, self.eval(p.value)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.is_(v, p.value))
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pattern(p.pattern, v):
                return False
            if p.name:
                self.store(p.name, v)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match_pattern(x, v) for x in p.patterns)
        if isinstance(p, ast.MatchClass):
            c = self.eval(p.cls)
            if not self.truth(self.ext_hooks["builtins.isinstance"](self, [v, c], {})):
                return False
            for a, sp in zip(p.kwd_attrs, p.kwd_patterns):
                if not self.match_pattern(sp, self.get_attr(v, a)):
                    return False
            if p.patterns:
                raise Gap("positional class pattern")
            return True
        raise Gap("match pattern")


def _flip(p):
    if p.on is None:
        return None
    on = p.on
    return on


def parts_of(v):
    v = norm(v)
    if isinstance(v, str):
        return [v] if v else []
    if isinstance(v, AStr):
        return v.parts
    if isinstance(v, Top):
        if "str" not in v.attrs:
            v.attrs["str"] = Hole(v.label, v.prov | {v.label}, "text")
        return [v.attrs["str"]]
    return [str(v)]


def _tname(v):
    if v is None:
        return "NoneType"
    if isinstance(v, (str, AStr)):
        return "str"
    if isinstance(v, ASet):
        return "set"
    if isinstance(v, AList):
        return "list"
    if isinstance(v, ADict):
        return "dict"
    return type(v).__name__


_expr_cache = {}


def _is_expr(text):
    if text not in _expr_cache:
        try:
            ast.parse(text, mode="eval")
            _expr_cache[text] = True
        except Exception:
            _expr_cache[text] = False
    return _expr_cache[text]


def _native_binop(op, a, b):
    import operator

    return {
        ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
        ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod,
        ast.Pow: operator.pow, ast.BitOr: operator.or_, ast.BitAnd: operator.and_,
        ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift,
    }[type(op)](a, b)


_loc_cache = {}


def _locals_of(fn):
    k = id(fn)
    if k not in _loc_cache:
        s = set()
        if not isinstance(fn, ast.Lambda):
            for n in ast.walk(fn):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    s.add(n.id)
        _loc_cache[k] = (fn, s)
    return _loc_cache[k][1]


def install_default_hooks(e):
    from . import hooks

    hooks.install(e)


class Path:
    """result of one abstract path"""

    __slots__ = ("kind", "value", "exc", "decisions", "events", "engine", "extra")

    def __init__(self, kind, value, exc, engine, extra=None):
        self.kind = kind  # return | raise | gap | budget
        self.value = value
        self.exc = exc
        self.decisions = engine.decisions
        self.events = engine.events
        self.engine = engine
        self.extra = extra


class Stats:
    def __init__(self):
        self.paths = 0
        self.gaps = 0
        self.gap_reasons = {}
        self.capped = 0
        self.steps = 0
        self.funcs = set()
        self.pruned = 0


def explore(prog, run, setup=None, max_paths=4000, stats=None, loop_k=None, rec_k=None, max_steps=None):
    """enumerate abstract paths; `run(engine)` performs one analysis run"""
    orc = Oracle()
    n = 0
    while True:
        orc.start()
        e = Engine(prog, orc)
        if loop_k is not None:
            e.loop_k = loop_k
        if rec_k is not None:
            e.rec_k = rec_k
        if max_steps is not None:
            e.max_steps = max_steps
        if setup:
            setup(e)
        p = None
        try:
            v = run(e)
            p = Path("return", v, None, e)
        except RaiseEx as ex:
            p = Path("raise", None, ex, e)
        except ReturnEx as r:
            p = Path("return", r.v, None, e)
        except Prune:
            if stats:
                stats.pruned += 1
        except (Gap, Budget) as g:
            p = Path("gap", None, g, e)
            if stats:
                stats.gaps += 1
                k = "%s: %s" % (type(g).__name__, g)
                stats.gap_reasons[k] = stats.gap_reasons.get(k, 0) + 1
        except RecursionError as g:
            p = Path("gap", None, g, e)
            if stats:
                stats.gaps += 1
                stats.gap_reasons["RecursionError"] = stats.gap_reasons.get("RecursionError", 0) + 1
        except Exception as g:  # an unmodelled corner of the interpreter itself
            if DEBUG:
                raise
            p = Path("gap", None, g, e)
            if stats:
                stats.gaps += 1
                k = "internal %s: %s" % (type(g).__name__, g)
                stats.gap_reasons[k] = stats.gap_reasons.get(k, 0) + 1
        if stats:
            stats.paths += 1
            stats.steps += e.steps
            stats.funcs |= e.covered
        if p is not None:
            yield p
        n += 1
        if n >= max_paths:
            if stats:
                stats.capped += 1
            return
        if not orc.advance():
            return
