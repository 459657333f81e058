"""Transfer functions for builtins and library calls."""
import ast
import io as _io
import re as _re
import token as _token
import tokenize as _tokenize
import textwrap as _tw

from .engine import Gap, RaiseEx, parts_of, _tname
from .methods import dec, enc
from .values import *  # noqa


def text_of(v):
    """AStr -> (python text with placeholder names, {placeholder: hole})"""
    table = {}
    out = ""
    for p in parts_of(v):
        if isinstance(p, str):
            out += p
        else:
            nm = "__h%d__" % p.uid
            table[nm] = p
            out += nm
    return out, table


def wrap_real(n, table, label="tmpl"):
    """exact node from a parsed template (placeholders keep their provenance)"""
    provs = frozenset()
    for x in ast.walk(n):
        nm = getattr(x, "id", None) or getattr(x, "arg", None) or getattr(x, "attr", None) or getattr(x, "name", None)
        if isinstance(nm, str) and "__h" in nm:
            for m in _re.findall(r"__h\d+__", nm):
                if m in table:
                    provs |= table[m].prov
        if isinstance(x, ast.Constant) and isinstance(x.value, str) and "__h" in x.value:
            for m in _re.findall(r"__h\d+__", x.value):
                if m in table:
                    provs |= table[m].prov
    fields = {}
    for f in n._fields:
        v = getattr(n, f, None)
        fields[f] = _wrap_val(v, table, label)
    for f in ("lineno", "col_offset"):
        if hasattr(n, f):
            fields[f] = getattr(n, f)
    nd = ANode([type(n).__name__], label, provs, fields, origin="template", real=n)
    nd.tags.add("distinct")
    return nd


def _wrap_val(v, table, label):
    if isinstance(v, ast.AST):
        return wrap_real(v, table, label)
    if isinstance(v, list):
        return AList([_wrap_val(x, table, label) for x in v])
    if isinstance(v, str) and "__h" in v:
        parts = []
        pos = 0
        for m in _re.finditer(r"__h\d+__", v):
            if m.group(0) in table:
                parts.append(v[pos:m.start()])
                parts.append(table[m.group(0)])
                pos = m.end()
        parts.append(v[pos:])
        return norm(AStr(parts))
    return v


def to_real(e, n):
    """abstract node -> python ast with placeholder names for unknown parts"""
    if getattr(e, "opaque_labels", False) and "opaque" in n.tags and n.types <= ALL_EXPR:
        return ast.Name(n.label, ast.Load())
    cls = getattr(ast, n.one) if n.one else None
    opaque = n.real is None and not (isinstance(n.origin, tuple) and n.origin and n.origin[0] == "built")
    if cls is None or (opaque and not _complete(n)):
        key = ("src", n.uid)
        if key not in e.memo:
            kind = "expr" if n.types <= ALL_EXPR and n.types != frozenset(["Starred"]) else "text"
            e.memo[key] = Hole(n.label, n.prov or [n.label], kind, n)
        h = e.memo[key]
        if h.bound is not None:
            try:
                return ast.parse(h.bound.strip(), mode="eval").body
            except SyntaxError:
                pass
        reg_hole(e, h)
        nm = ast.Name("__h%d__" % h.uid, ast.Load())
        if n.types <= ALL_STMT:
            return ast.Expr(nm)
        return nm
    kw = {}
    for t, f, mult in GRAMMAR[n.one]:
        v = n.fields.get(f)
        kw[f] = _real_val(e, v)
    r = cls(**kw)
    r.lineno = 1
    r.col_offset = 0
    return r


def _complete(n):
    for t, f, mult in GRAMMAR[n.one]:
        if f not in n.fields:
            if t == "expr_context" or mult == "?" or f in ("type_comment", "kind", "type_params", "type_ignores"):
                continue
            return False
        v = n.fields[f]
        if isinstance(v, AList) and v.tail is not None:
            return False
        if isinstance(v, Top):
            return False
    return True


def _real_val(e, v):
    v = norm(v)
    if isinstance(v, ANode):
        return to_real(e, v)
    if isinstance(v, AList):
        return [_real_val(e, x) for x in v.items]
    if isinstance(v, AStr):
        out = ""
        for p in v.parts:
            if isinstance(p, str):
                out += p
            else:
                reg_hole(e, p)
                out += "__h%d__" % p.uid
        return out
    if isinstance(v, Top):
        if v.bound is not NotImplemented:
            return v.bound
        raise Gap("unknown node field " + v.label)
    return v


def reg_hole(e, h):
    if not hasattr(e, "hole_by_uid"):
        e.hole_by_uid = {}
    e.hole_by_uid[h.uid] = h


def fill_holes(e, s):
    out = []
    pos = 0
    for m in _re.finditer(r"__h(\d+)__", s):
        out.append(s[pos:m.start()])
        h = e.hole_by_uid.get(int(m.group(1))) if hasattr(e, "hole_by_uid") else None
        out.append(h if h is not None else m.group(0))
        pos = m.end()
    out.append(s[pos:])
    return out


def node_source(e, n):
    """text of a node (astor.to_source / ast.unparse)"""
    n = norm(n)
    if isinstance(n, ANode):
        if n.one == "Constant" and "value" in n.fields:
            v = n.fields["value"]
            if isinstance(v, Top) and v.bound is not NotImplemented:
                v = v.bound
            if v is None:
                return "None\n"
            if isinstance(v, (bool, int, float)):
                return "(%r)\n" % (v,)
            if isinstance(v, str) and all(c.isprintable() or c == "\n" for c in v) and "__h" not in v:
                # astor prints a lone string like a docstring
                t = v.replace("\\", "\\\\").replace('"""', '""\\"')
                if t.endswith('"'):
                    t = t[:-1] + '\\"'
                return '"""%s"""\n' % t
        if n.one == "Name" and "id" in n.fields:
            return norm(AStr(parts_of(n.fields["id"]) + ["\n"]))
        if n.one == "Starred":
            inner = n.fields.get("value")
            if inner is not None:
                return norm(AStr(["*"] + _strip_tail(parts_of(node_source(e, inner))) + ["\n"]))
        if n.real is not None or n.one is not None:
            try:
                r = to_real(e, n)
                s = ast.unparse(r)
            except Gap:
                raise
            except Exception:
                return AStr([Hole("src(%s)" % n.label, n.prov, "expr", n)])
            if n.one in ("BinOp", "BoolOp", "Compare", "IfExp", "Lambda", "UnaryOp", "Tuple", "Await", "Yield", "NamedExpr") and not s.startswith("("):
                s = "(" + s + ")"
            return norm(AStr(fill_holes(e, s) + ["\n"]))
        key = ("src", n.uid)
        if key not in e.memo:
            kind = "expr" if n.types <= ALL_EXPR and n.types != frozenset(["Starred"]) else "text"
            e.memo[key] = Hole(n.label, n.prov or [n.label], kind, n)
        return AStr([e.memo[key], "\n"])
    if n is None:
        e.raise_("AttributeError", "to_source(None)")
    if isinstance(n, (AList,)):
        return AStr([Hole("src(list)", prov_of(n), "text")])
    if isinstance(n, (str, AStr)):
        e.raise_("AttributeError", "to_source(str)")
    return AStr([Hole("src(%s)" % show(n), prov_of(n), "expr")])


def raw_source(e, n):
    """text of a node as ast.unparse writes it: no parentheses around a bare
    operator expression, so the text is only safe where any expression is"""
    n = norm(n)
    if isinstance(n, ANode):
        if n.one == "Constant" and "value" in n.fields:
            v = n.fields["value"]
            if isinstance(v, Top) and v.bound is not NotImplemented:
                v = v.bound
            if not isinstance(v, Top):
                return repr(v)
        if n.one not in ("Name", "Starred"):
            if n.real is not None or (n.one is not None and n.one not in ALL_EXPR) or (n.one is not None and _complete(n)):
                r = to_real(e, n)
                return norm(AStr(fill_holes(e, ast.unparse(ast.fix_missing_locations(r)))))
            key = ("usrc", n.uid)
            if key not in e.memo:
                h = Hole(n.label, n.prov or [n.label], "expr", n)
                h.raw = True
                e.memo[key] = h
            return AStr([e.memo[key]])
    return node_source(e, n)


def _strip_tail(ps):
    ps = list(ps)
    if ps and isinstance(ps[-1], str):
        ps[-1] = ps[-1].rstrip("\n")
    return ps


def h_parse(e, args, kwargs):
    t = norm(args[0])
    if isinstance(t, ANode):  # ast.parse accepts a tree and hands it back
        return t
    mode = kwargs.get("mode", args[2] if len(args) > 2 else "exec")
    if t is None or isinstance(t, (int, AList, ADict, tuple)):
        e.raise_("TypeError", "ast.parse() of %s" % _tname(t))
    if isinstance(t, Top):
        n = ANode(["Module"], "parse(%s)" % t.label, t.prov)
        n.tags.add("parsed")
        e.event("parse_unknown", value=t)
        return n
    if isinstance(t, AStr):
        # text that is one opaque hole of unknown kind: nothing to check
        ps = t.parts
        if len(ps) == 1 and ps[0].kind == "text":
            n = ANode(["Module"], "parse(%s)" % ps[0].label, ps[0].prov)
            n.tags.add("parsed")
            e.event("parse_unknown", value=t)
            return n
    text, table = text_of(t)
    if not hasattr(e, "hole_by_uid"):
        e.hole_by_uid = {}
    for nm, h in table.items():
        e.hole_by_uid[h.uid] = h
    try:
        tree = ast.parse(text, mode=mode if mode in ("exec", "eval") else "exec")
    except SyntaxError as ex:
        e.event("bad_template", text=show(t), err=str(ex))
        e.raise_("SyntaxError", "generated code does not parse: %r" % show(t)[:200])
    except ValueError as ex:
        e.raise_("ValueError", str(ex))
    for n in ast.walk(tree):
        # an arbitrary expression of the user in a place that is assigned to
        if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load) and n.id in table:
            h = table[n.id]
            if h.kind == "expr" and h.root is None and isinstance(h.node, ANode):
                if not e.truth(e.node_isinstance(h.node, frozenset(["Name", "Attribute", "Subscript", "List", "Tuple", "Starred"]))):
                    e.raise_("SyntaxError", "generated code assigns to an expression: %r" % show(t)[:200])
    e.event("parsed", text=show(t), value=t)
    return wrap_real(tree, table)


def h_isinstance(e, args, kwargs):
    v, c = norm(args[0]), args[1]
    cl = []

    def flat(x):
        x = norm(x)
        if isinstance(x, (tuple, AList)):
            for y in x if isinstance(x, tuple) else x.items:
                flat(y)
        else:
            cl.append(x)

    flat(c)
    if isinstance(v, ANode):
        names = frozenset()
        for x in cl:
            if isinstance(x, Ext) and x.path.startswith(("ast.", "_ast.")):
                names |= node_class_set(x.path.split(".")[-1])
            elif isinstance(x, Ext) and x.path == "builtins.object":
                return True
        return e.node_isinstance(v, names)
    res = []
    for x in cl:
        if isinstance(x, Ext):
            p = x.path
            nm = p.split(".")[-1]
            if isinstance(v, (Top, Pred)):
                if isinstance(v, Pred):
                    res.append(nm in ("bool", "int"))
                    continue
                if v.typ:
                    res.append(v.typ == nm)
                    continue
                res.append(Pred(("isinst", v.uid, p), "%s is %s" % (v.label, nm), prov=v.prov))
                continue
            ok = {
                "str": isinstance(v, (str, AStr)),
                "list": isinstance(v, AList) and not isinstance(v, ASet),
                "set": isinstance(v, ASet),
                "tuple": isinstance(v, tuple),
                "dict": isinstance(v, (ADict, ATable)),
                "int": isinstance(v, int) or isinstance(v, LenVal),
                "float": isinstance(v, float),
                "bool": isinstance(v, bool),
                "NoneType": v is None,
                "object": True,
                "bytes": isinstance(v, bytes),
                "Iterable": isinstance(v, (AList, tuple, ADict, str, AStr)),
                "Sequence": isinstance(v, (AList, tuple, str, AStr)) and not isinstance(v, ASet),
                "Mapping": isinstance(v, ADict),
                "type": isinstance(v, (ClassVal, Ext)),
            }.get(nm, False)
            res.append(ok)
        elif isinstance(x, ClassVal):
            if isinstance(v, Obj) and v.cls is not None:
                res.append(x.info in e.prog.mro(v.cls))
            elif isinstance(v, Top):
                res.append(Pred(("isinst", v.uid, x.info.name), "%s is %s" % (v.label, x.info.name), prov=v.prov))
            else:
                res.append(False)
        else:
            res.append(Pred(("isinst", canon(v), canon(x)), "isinstance", prov=prov_of(v)))
    if True in res:
        return True
    res = [r for r in res if r is not False]
    if not res:
        return False
    if len(res) == 1:
        return res[0]
    return any(e.truth(r) for r in res)


def h_len(e, args, kwargs):
    v = norm(args[0])
    if isinstance(v, (str, tuple, bytes)):
        return len(v)
    if isinstance(v, AList):
        return len(v.items) if v.tail is None else LenVal(v)
    if isinstance(v, ADict):
        if v.tail is None:
            return len(v.d)
        key = ("dlen", v.uid, len(v.d))
        if key not in e.memo:
            e.memo[key] = Top("len(%s)" % (v.label or "mapping"), typ="int")
        return e.memo[key]
    if isinstance(v, ATable):
        return len(v.data)
    if v is None or isinstance(v, (int, float)):
        e.raise_("TypeError", "object of type '%s' has no len()" % _tname(v))
    key = ("len", canon(v))
    if key not in e.memo:
        e.memo[key] = e.fresh("len(%s)" % show(v), v, typ="int")
    return e.memo[key]


def h_getattr(e, args, kwargs):
    o, name = args[0], norm(args[1])
    if not isinstance(name, str):
        if isinstance(o, ANode) and isinstance(name, (AStr, Top)):
            return e.fresh("getattr", o)
        return e.fresh("getattr(%s)" % show(name), o)
    if len(args) > 2:
        return e.get_attr(o, name, default=args[2])
    return e.get_attr(o, name)


def h_hasattr(e, args, kwargs):
    o, name = norm(args[0]), norm(args[1])
    if not isinstance(name, str):
        return Pred(("hasattr", canon(o), canon(name)), "hasattr")
    if isinstance(o, Obj):
        if name in o.attrs:
            return True
        if o.cls is not None:
            if e.prog.find_method(o.cls, name) is not None or e.class_attr(o.cls, name) is not NotImplemented:
                return True
            if o.open:
                return Pred(("hasattr", o.uid, name), "hasattr(%s)" % name)
            return False
        return Pred(("hasattr", o.uid, name), "hasattr(%s)" % name)
    if isinstance(o, ANode):
        if name in o.fields:
            return True
        have = frozenset(t for t in o.types if any(f[1] == name for f in GRAMMAR[t]))
        if not have:
            return name in ("lineno", "col_offset", "_fields") and name not in o.absentf
        if have == o.types:
            return True
        return e.node_isinstance(o, have)
    if isinstance(o, Top):
        return Pred(("hasattr", o.uid, name), "hasattr(%s, %s)" % (o.label, name))
    r = e.get_attr(o, name, default=NotImplemented)
    return r is not NotImplemented


def h_setattr(e, args, kwargs):
    name = norm(args[1])
    if isinstance(name, str):
        e.set_attr(args[0], name, args[2])
    elif isinstance(args[0], ANode):
        e.event("setfield", node=args[0], field=name, value=args[2])
    return None


def h_str(e, args, kwargs):
    if not args:
        return ""
    return norm(AStr(e.to_parts(args[0])))


def h_int(e, args, kwargs):
    if not args:
        return 0
    v = norm(args[0])
    if isinstance(v, (int, float, str)):
        try:
            return int(v)
        except ValueError:
            e.raise_("ValueError", "int(%r)" % (v,))
    if v is None or isinstance(v, (AList, ADict, tuple)):
        e.raise_("TypeError", "int() argument of type %s" % _tname(v))
    if isinstance(v, Pred):
        return int(e.truth(v))
    key = ("int", canon(v))
    if key not in e.memo:
        e.memo[key] = e.fresh("int(%s)" % show(v), v, typ="int")
    return e.memo[key]


def seq(e, v):
    v = norm(v)
    if isinstance(v, AList):
        return list(v.items), v.tail
    if isinstance(v, (tuple, str)):
        return list(v), None
    if isinstance(v, ADict):
        return [k for k, _ in v.d.values()], (None if v.tail is None else (lambda: Top("key of %s" % v.label)))
    if isinstance(v, ATable):
        if len(v.data) <= 40 or e.exact_tables:
            return list(v.data), None
        return [], (lambda: Top("key of " + v.name, typ="str"))
    if v is None or isinstance(v, (int, float)):
        e.raise_("TypeError", "'%s' object is not iterable" % _tname(v))
    return [], (lambda: e.fresh("elem of %s" % show(v), v))


def h_list(e, args, kwargs):
    if not args:
        return AList()
    i, t = seq(e, args[0])
    lab = getattr(norm(args[0]), "label", "") or ""
    return AList(i, t, lab)


def h_tuple(e, args, kwargs):
    if not args:
        return ()
    i, t = seq(e, args[0])
    if t is not None:
        return AList(i, t)
    return tuple(i)


def h_set(e, args, kwargs):
    if not args:
        return ASet()
    i, t = seq(e, args[0])
    s = e.mkset(i)
    s.tail = t
    return s


def h_dict(e, args, kwargs):
    d = ADict()
    for a in args:
        e.dict_update(d, a)
    for k, v in kwargs.items():
        e.dict_set(d, k, v)
    return d


def h_sorted(e, args, kwargs):
    from .methods import _sort

    i, t = seq(e, args[0])
    lab = getattr(norm(args[0]), "label", "")
    r = AList(i, t, lab)
    e.event("sorted", value=args[0])
    _sort(e, r, kwargs)
    return r


def h_reversed(e, args, kwargs):
    i, t = seq(e, args[0])
    return AList(i[::-1], t)


def h_enumerate(e, args, kwargs):
    start = args[1] if len(args) > 1 else kwargs.get("start", 0)
    src = norm(args[0])
    i, t = seq(e, src)
    st = start if isinstance(start, int) else 0
    tail = None
    if t is not None:
        cnt = [len(i)]

        def tail():
            k = cnt[0]
            cnt[0] += 1
            # keep the element inside the underlying list as well
            x = t()
            if isinstance(src, AList):
                src.items.append(x)
            return (st + k, x)

    return AList([(st + k, x) for k, x in enumerate(i)], tail, getattr(src, "label", ""))


def h_zip(e, args, kwargs):
    cols = [seq(e, a) for a in args]
    n = min([len(i) for i, t in cols if t is None] or [max([len(i) for i, _ in cols] or [0])])
    rows = []
    for k in range(n):
        rows.append(tuple((i[k] if k < len(i) else t()) for i, t in cols))
    tail = None
    if cols and all(t is not None for _, t in cols):
        tail = lambda: tuple(t() for _, t in cols)
    return AList(rows, tail)


def h_range(e, args, kwargs):
    if all(isinstance(a, int) for a in args):
        r = range(*args)
        if len(r) <= 200:
            return AList(list(r))
    vals = []
    for a in args:
        if isinstance(a, LenVal) and a.of.tail is None:
            a = len(a.of.items) + a.off
        vals.append(a)
    if all(isinstance(a, int) for a in vals):
        return AList(list(range(*vals)))
    if len(args) == 1 and isinstance(args[0], LenVal):
        L = args[0].of
        cnt = [0]

        def tail():
            k = cnt[0]
            cnt[0] += 1
            return k

        return AList([], tail, "range(len)")
    return AList([], lambda: e.fresh("i", *args, typ="int"), "range")


def h_anyall(which):
    def h(e, args, kwargs):
        for x in e.iterate(args[0]):
            t = e.truth(x)
            if which == "any" and t:
                return True
            if which == "all" and not t:
                return False
        return which == "all"

    return h


def h_map(e, args, kwargs):
    i, t = seq(e, args[1])
    if len(args) > 2:
        raise Gap("map with several iterables")
    out = [e.call(args[0], [x], {}) for x in i]
    tail = (lambda: e.call(args[0], [t()], {})) if t is not None else None
    return AList(out, tail)


def h_filter(e, args, kwargs):
    out = []
    for x in e.iterate(args[1]):
        r = x if args[0] is None else e.call(args[0], [x], {})
        if e.truth(r):
            out.append(x)
    return AList(out)


def h_minmax(which):
    def h(e, args, kwargs):
        vals = args
        if len(args) == 1:
            i, t = seq(e, args[0])
            if t is not None:
                return e.fresh(which, *args)
            vals = i
        if all(isinstance(v, (int, float, str)) for v in vals) and vals and "key" not in kwargs:
            return (min if which == "min" else max)(vals)
        if not vals:
            if "default" in kwargs:
                return kwargs["default"]
            e.raise_("ValueError", "%s() arg is an empty sequence" % which)
        return e.fresh(which, *vals)

    return h


def h_sum(e, args, kwargs):
    i, t = seq(e, args[0])
    if t is None and all(isinstance(x, (int, float)) for x in i):
        return sum(i)
    return e.fresh("sum", *i, typ="int")


def h_type(e, args, kwargs):
    if len(args) != 1:
        return e.fresh("type")
    v = norm(args[0])
    if isinstance(v, Obj) and v.cls is not None:
        return ClassVal(v.cls)
    if isinstance(v, ANode):
        return Ext("ast." + e.node_one(v))
    if isinstance(v, (Top, Pred)):
        return e.fresh("type(%s)" % show(v), v)
    return Ext("builtins." + _tname(v))


def h_bool(e, args, kwargs):
    if not args:
        return False
    v = args[0]
    if isinstance(v, (Pred, bool)):
        return v
    return e.truth(v)


def h_dedent(e, args, kwargs):
    t = norm(args[0])
    if isinstance(t, str):
        return _tw.dedent(t)
    if isinstance(t, AStr):
        (s,), holes = enc(t)
        return dec(_tw.dedent(s), holes)
    return e.fresh("dedent", t, typ="str")


def h_indent(e, args, kwargs):
    t = norm(args[0])
    if isinstance(t, str) and isinstance(args[1], str):
        return _tw.indent(t, args[1])
    if isinstance(t, AStr) and isinstance(args[1], str):
        (s,), holes = enc(t)
        return dec(_tw.indent(s, args[1]), holes)
    return e.fresh("indent", t, typ="str")


def h_resub(e, args, kwargs):
    args = list(args)
    for nm, i in (("pattern", 0), ("repl", 1), ("string", 2)):
        if len(args) == i and nm in kwargs:
            args.append(kwargs[nm])
    pat, repl, s = norm(args[0]), norm(args[1]), norm(args[2])
    fl = norm(kwargs.get("flags", 0))
    if isinstance(pat, Obj) and pat.kind == "regex":
        pat, fl = pat.attrs["pat"], pat.attrs["flags"]
    if isinstance(repl, (FuncVal, Bound)) and isinstance(pat, str) and isinstance(s, str) and isinstance(fl, int):
        out, at = [], 0
        for m in _re.finditer(pat, s, fl):
            out.append(s[at : m.start()])
            out.extend(e.to_parts(e.call(repl, [Obj(None, {"m": m}, kind="match")], {})))
            at = m.end()
        return norm(AStr(out + [s[at:]]))
    if isinstance(fl, int) and fl and isinstance(pat, str) and isinstance(repl, str) and isinstance(s, str):
        return _re.sub(pat, repl, s, flags=fl)
    if isinstance(pat, str) and isinstance(repl, str) and isinstance(s, str):
        try:
            return _re.sub(pat, repl, s)
        except _re.error as ex:
            e.raise_("error", str(ex))
    if isinstance(pat, str) and isinstance(repl, (str, AStr)) and isinstance(s, (str, AStr)):
        (r, t), holes = enc(repl, s)
        try:
            out = _re.sub(pat, (lambda m: m.expand(r)) if "\\" in r else (lambda m: r), t)
        except (_re.error, IndexError) as ex:
            e.raise_("error", str(ex))
        return dec(out, holes)
    return e.fresh("re.sub", *args, typ="str")


def h_reescape(e, args, kwargs):
    s = norm(args[0])
    if isinstance(s, str):
        return _re.escape(s)
    if isinstance(s, AStr):
        return norm(AStr([_re.escape(p) if isinstance(p, str) else p for p in s.parts]))
    return e.fresh("re.escape", s, typ="str")


def h_rematch(fn):
    def h(e, args, kwargs):
        pat, s = norm(args[0]), norm(args[1])
        fl = norm(args[2]) if len(args) > 2 else norm(kwargs.get("flags", 0))
        if isinstance(pat, Obj) and pat.kind == "regex":
            pat, fl = pat.attrs["pat"], pat.attrs["flags"]
        if s is None:
            e.raise_("TypeError", "expected string or bytes-like object, got 'NoneType'")
        if isinstance(pat, str) and isinstance(s, str) and isinstance(fl, int):
            try:
                m = getattr(_re, fn)(pat, s, fl)
            except _re.error as ex:
                e.raise_("error", str(ex))
            return Obj(None, {"m": m}, kind="match") if m else None
        key = ("re", fn, canon(pat), canon(s))
        desc = "re.%s(%s, %s)" % (fn, show(pat), show(s))
        if e.decide(key, desc):
            t = Top("match", prov_of(s))
            t.truth = True
            return t
        return None

    return h


def match_method(e, o, name, args, kwargs):
    m = o.attrs.get("m")
    if m is None:
        return e.fresh("match." + name)
    args = [norm(a) for a in args]
    if name == "groups":
        return tuple(m.groups())
    if name == "groupdict":
        return e.lift(m.groupdict())
    if name == "__getitem__":
        name = "group"
    return getattr(m, name)(*args)


def h_recompile(e, args, kwargs):
    pat = norm(args[0])
    if isinstance(pat, Obj):
        return pat
    fl = norm(args[1]) if len(args) > 1 else norm(kwargs.get("flags", 0))
    if isinstance(pat, str):
        try:
            _re.compile(pat, fl if isinstance(fl, int) else 0)
        except _re.error as ex:
            e.raise_("error", str(ex))
    return Obj(None, {"pat": pat, "flags": fl, "pattern": pat}, kind="regex")


def regex_method(e, o, name, args, kwargs):
    if name in ("match", "search", "fullmatch"):
        return e.ext_hooks["re." + name](e, [o.attrs["pat"], args[0], o.attrs["flags"]], {})
    if name in ("sub", "split", "findall", "finditer"):
        return e.ext_hooks["re." + name](e, [o.attrs["pat"]] + list(args), dict(kwargs, flags=o.attrs["flags"]))
    return e.fresh("regex." + name)


def h_refind(fn):
    def h(e, args, kwargs):
        pat, s = norm(args[0]), norm(args[1])
        fl = norm(kwargs.get("flags", args[2] if len(args) > 2 else 0))
        if isinstance(pat, Obj) and pat.kind == "regex":
            pat, fl = pat.attrs["pat"], pat.attrs["flags"]
        if isinstance(pat, str) and isinstance(s, str) and isinstance(fl, int):
            if fn == "findall":
                return e.lift([x if isinstance(x, str) else tuple(x) for x in _re.findall(pat, s, fl)])
            if fn == "split":
                return e.lift(_re.split(pat, s, flags=fl))
            return AList([Obj(None, {"m": m}, kind="match") for m in _re.finditer(pat, s, fl)])
        return AList([], tail=lambda: e.fresh("re." + fn, s, typ="str"), label="re." + fn)

    return h


def _truthy(m):
    return True


def h_next(e, args, kwargs):
    for x in e.iterate(args[0]):
        return x
    if len(args) > 1:
        return args[1]
    e.raise_("StopIteration", "")


def h_groupby(e, args, kwargs):
    keyf = args[1] if len(args) > 1 else kwargs.get("key")
    i, t = seq(e, args[0])
    groups = []
    for x in i:
        k = e.call(keyf, [x], {}) if keyf is not None else x
        if isinstance(k, Pred):
            k = e.truth(k)
        if groups and e.truth(e.eq(groups[-1][0], k)):
            groups[-1][1].items.append(x)
        else:
            groups.append((k, AList([x])))
    if t is not None:
        raise Gap("groupby of unknown list")
    return AList([(k, g) for k, g in groups])


def h_chain(e, args, kwargs):
    out, tail = [], None
    for a in args:
        i, t = seq(e, a)
        out += i
        tail = tail or t
    return AList(out, tail)


def h_defaultdict(e, args, kwargs):
    return ADict(factory=args[0] if args else None)


def h_suppress(e, args, kwargs):
    names = []
    for a in args:
        names.append(a.path.split(".")[-1] if isinstance(a, Ext) else getattr(getattr(a, "info", None), "name", "?"))
    return Obj(None, {"names": names}, kind="suppress")


def h_dump(e, args, kwargs):
    n = args[0]
    key = ("dump", canon(n))
    if isinstance(n, ANode) and not kwargs and len(args) == 1 and n.one and (
        n.real is not None or n.origin == "schema" or (isinstance(n.origin, tuple) and n.origin and n.origin[0] == "built")
    ):
        try:
            return norm(AStr(fill_holes(e, ast.dump(to_real(e, n)))))
        except Exception:
            pass
    if key not in e.memo:
        e.memo[key] = Hole("dump(%s)" % show(n), prov_of(n), "text")
    return AStr([e.memo[key]])


def h_iterfields(e, args, kwargs):
    n = args[0]
    if isinstance(n, ANode):
        t = e.node_one(n)
        return AList([(f[1], e.node_field(n, f[1])) for f in GRAMMAR[t]])
    return AList([], lambda: (Top("field", typ="str"), Top("value")), "iter_fields")


def h_walk(e, args, kwargs):
    n = args[0]
    if isinstance(n, ANode) and exact(n):
        out, todo = [], [n]
        while todo:
            x = todo.pop(0)
            if n.one == "Module" and "opaque" in x.tags:
                continue  # user parts of a schematic module hold no construct a scan of the module looks for
            out.append(x)
            todo += children(x)
        return AList(out)
    return AList([n], lambda: ANode(ALL_NODES, "descendant of %s" % show(n), prov_of(n)), "walk")


def exact(n):
    """a node whose fields are all known (schema / template / built)"""
    return n.one is not None and (
        n.real is not None or n.origin == "schema" or (isinstance(n.origin, tuple) and n.origin and n.origin[0] == "built")
    )


def children(n):
    """child nodes in field order; none for an opaque user part"""
    if not exact(n):
        return []
    out = []
    for t, f, mult in GRAMMAR[n.one]:
        v = norm(n.fields.get(f))
        if isinstance(v, ANode):
            out.append(v)
        elif isinstance(v, AList):
            out += [x for x in v.items if isinstance(x, ANode)]
    return out


def h_iterchild(e, args, kwargs):
    n = args[0]
    if isinstance(n, ANode) and exact(n):
        return AList(children(n))
    return AList([], lambda: ANode(ALL_NODES, "child of %s" % show(n), prov_of(n)), "children")


def h_eval(e, args, kwargs):
    """eval of a constant expression: evaluated in the caller's module"""
    t = norm(args[0])
    if isinstance(t, str):
        try:
            x = ast.parse(t.strip(), mode="eval").body
        except SyntaxError:
            e.raise_("SyntaxError", "eval(%r)" % t)
        return e.eval(x)
    return Top("builtins.eval(...)", prov_of(t))


def h_globals(e, args, kwargs):
    mod = e.frame.module

    def tail(k):
        k = norm(k)
        if isinstance(k, str):
            v = e.global_value(mod, k)
            if v is NotImplemented:
                return False, None
            return True, v
        return True, Top("globals()[%s]" % show(k))

    return ADict(tail=tail, label="globals()")


def h_setpassthrough(e, args, kwargs):
    return args[0] if args else None


def h_none(e, args, kwargs):
    return None


def install(e):
    h = e.ext_hooks
    b = "builtins."
    h[b + "isinstance"] = h_isinstance
    h[b + "eval"] = h_eval
    h[b + "globals"] = h_globals
    h[b + "len"] = h_len
    h[b + "getattr"] = h_getattr
    h[b + "hasattr"] = h_hasattr
    h[b + "setattr"] = h_setattr
    h[b + "str"] = h_str
    h[b + "repr"] = lambda e, a, k: norm(AStr(e.repr_parts(a[0])))
    h[b + "int"] = h_int
    h[b + "bool"] = h_bool
    h[b + "list"] = h_list
    h[b + "tuple"] = h_tuple
    h[b + "set"] = h_set
    h[b + "frozenset"] = h_set
    h[b + "dict"] = h_dict
    h[b + "sorted"] = h_sorted
    h[b + "reversed"] = h_reversed
    h[b + "enumerate"] = h_enumerate
    h[b + "zip"] = h_zip
    h[b + "range"] = h_range
    h[b + "any"] = h_anyall("any")
    h[b + "all"] = h_anyall("all")
    h[b + "map"] = h_map
    h[b + "filter"] = h_filter
    h[b + "min"] = h_minmax("min")
    h[b + "max"] = h_minmax("max")
    h[b + "sum"] = h_sum
    h[b + "type"] = h_type
    h[b + "next"] = h_next
    h[b + "iter"] = lambda e, a, k: a[0]
    h[b + "print"] = h_none
    h[b + "callable"] = lambda e, a, k: isinstance(a[0], (FuncVal, ClassVal, Ext, Bound)) or (
        Pred(("callable", canon(a[0])), "callable") if isinstance(a[0], Top) else False
    )
    h[b + "id"] = lambda e, a, k: Top("id(%s)" % show(a[0]), typ="int")
    h[b + "hash"] = lambda e, a, k: _hash(e, a[0])
    h[b + "object"] = lambda e, a, k: Obj(None, kind="object")
    h[b + "slice"] = lambda e, a, k: ("slice",) + tuple((list(a) + [None, None, None])[:3])
    h["textwrap.dedent"] = h_dedent
    h["textwrap.indent"] = h_indent
    h["re.sub"] = h_resub
    h["re.escape"] = h_reescape
    for f in ("match", "search", "fullmatch"):
        h["re." + f] = h_rematch(f)
    h["re.compile"] = h_recompile
    for f in ("findall", "split", "finditer"):
        h["re." + f] = h_refind(f)
    for f in ("DOTALL", "MULTILINE", "IGNORECASE", "VERBOSE", "S", "M", "I", "X"):
        e.ext_consts["re." + f] = int(getattr(_re, f))
    e.obj_hooks["match"] = match_method
    e.obj_hooks["regex"] = regex_method
    h["ast.parse"] = h_parse
    h["ast.dump"] = h_dump
    h["ast.iter_fields"] = h_iterfields
    h["ast.walk"] = h_walk
    h["ast.iter_child_nodes"] = h_iterchild
    h["ast.copy_location"] = h_setpassthrough
    h["ast.fix_missing_locations"] = h_setpassthrough
    h["ast.unparse"] = lambda e, a, k: _strip_nl(raw_source(e, a[0]))
    h["astor.to_source"] = lambda e, a, k: node_source(e, a[0])
    h["astor.code_gen.to_source"] = h["astor.to_source"]
    h["itertools.groupby"] = h_groupby
    h["itertools.chain"] = h_chain
    h["collections.defaultdict"] = h_defaultdict
    h["collections.OrderedDict"] = h_dict
    h["collections.Counter"] = lambda e, a, k: ADict(factory=Ext("builtins.int"))
    h["contextlib.suppress"] = h_suppress
    h["copy.copy"] = h_copy
    h["copy.deepcopy"] = h_copy
    h["functools.partial"] = h_partial
    h["io.StringIO"] = h_stringio
    e.obj_hooks["stringio"] = stringio_method
    h["tokenize.generate_tokens"] = h_tokens
    for m in (_token, _tokenize):
        for k, v in vars(m).items():
            if k.isupper() and isinstance(v, int):
                e.ext_consts["%s.%s" % (m.__name__, k)] = v
        e.ext_consts[m.__name__ + ".tok_name"] = ADict(list(_token.tok_name.items()))
    h["operator.itemgetter"] = h_itemgetter


def h_stringio(e, args, kwargs):
    t = args[0] if args else kwargs.get("initial_value", "")
    return Obj(None, {"text": norm(t), "pos": 0}, kind="stringio")


def stringio_method(e, o, name, args, kwargs):
    t = norm(o.attrs["text"])
    if name == "__enter__":
        return o
    if name in ("__exit__", "close", "flush"):
        return None
    if name == "getvalue":
        return t
    if name == "write":
        o.attrs["text"] = norm(e.binop("+", t, args[0])) if not isinstance(t, str) or not isinstance(norm(args[0]), str) else t + norm(args[0])
        return e.fresh("stringio.write", typ="int")
    if not isinstance(t, str):
        return e.fresh("stringio." + name, t, typ="str" if name.startswith("read") else None)
    rest = t[o.attrs["pos"]:]
    if name == "readline":
        k = rest.find("\n")
        r = rest if k < 0 else rest[: k + 1]
    elif name == "read":
        r = rest
    elif name in ("readlines", "__iter__"):
        o.attrs["pos"] = len(t)
        return AList(_io.StringIO(rest).readlines())
    elif name == "seek":
        o.attrs["pos"] = norm(args[0]) if isinstance(norm(args[0]), int) else 0
        return o.attrs["pos"]
    else:
        return e.fresh("stringio." + name)
    o.attrs["pos"] += len(r)
    return r


def h_tokens(e, args, kwargs):
    """tokens of a constant text (the readline of a StringIO over it)"""
    rl = args[0] if args else kwargs.get("readline")
    t = None
    if isinstance(rl, Bound) and isinstance(rl.recv, Obj) and rl.recv.kind == "stringio" and rl.name == "readline":
        t = norm(rl.recv.attrs["text"])
    if not isinstance(t, str):
        return AList([], tail=lambda: e.fresh("token"), label="tokenize.generate_tokens(...)")
    try:
        return AList(list(_tokenize.generate_tokens(_io.StringIO(t).readline)))
    except _tokenize.TokenError as ex:
        e.raise_("TokenError", str(ex))
    except IndentationError as ex:
        e.raise_("IndentationError", str(ex))
    except SyntaxError as ex:
        e.raise_("SyntaxError", str(ex))


def _strip_nl(v):
    from .methods import str_method
    from .engine import Engine

    v = norm(v)
    if isinstance(v, AStr):
        ps = v.parts
        if isinstance(ps[-1], str) and ps[-1].endswith("\n"):
            return norm(AStr(ps[:-1] + [ps[-1][:-1]]))
    elif isinstance(v, str):
        return v.rstrip("\n")
    return v


def _hash(e, v):
    key = ("hash", canon(v))
    if key not in e.memo:
        e.memo[key] = Top("hash(%s)" % show(v)[:20], prov_of(v), "int")
    return e.memo[key]


def h_copy(e, args, kwargs):
    v = args[0]
    if isinstance(v, ASet):
        return ASet(list(v.items), v.tail, v.label)
    if isinstance(v, AList):
        return AList(list(v.items), v.tail, v.label)
    if isinstance(v, ADict):
        d = ADict(list(v.d.values()), v.tail, v.factory, v.label)
        d.absent = set(v.absent)
        return d
    if isinstance(v, ANode):
        n = ANode(v.types, v.label, v.prov, dict(v.fields), origin=v.origin, real=v.real)
        n.tags = set(v.tags) | {"copy"}
        return n
    return v


def h_partial(e, args, kwargs):
    fn, pa, pk = args[0], list(args[1:]), dict(kwargs)

    def call(eng, a, k):
        kk = dict(pk)
        kk.update(k)
        return eng.call(fn, pa + list(a), kk)

    return call


def h_itemgetter(e, args, kwargs):
    k = args[0]
    return lambda eng, a, kk: eng.getitem(a[0], k)
