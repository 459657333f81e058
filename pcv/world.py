"""Abstract interpretation of the transformers themselves on schematic syntax
trees (trees whose user-written parts are opaque)."""
import ast

from . import sweep, hooks
from .engine import Gap, explore
from .values import *  # noqa


# ------------------------------------------------- ast.NodeVisitor semantics
def _visit(e, args, kwargs):
    sup, n = args[0], args[1]
    self = sup.obj
    if isinstance(n, ANode):
        e.event("visit", node=n, obj=self)
        if "opaque" in n.tags:
            return n
        cls = e.node_one(n)
        m = "visit_" + cls
        meth = e.prog.find_method(self.cls, m)
        if meth is not None or e.prog.find_class_assign(self.cls, m) is not None:
            return e.call(e.get_attr(self, m), [n], {})
        if m in self.attrs:
            return e.call(self.attrs[m], [n], {})
        return e.call(e.get_attr(self, "generic_visit"), [n], {})
    if n is None or isinstance(n, (str, AStr, int, AList)):
        e.raise_("AttributeError", "visit of a non-node")
    return n


def _generic_visit(e, args, kwargs):
    sup, n = args[0], args[1]
    self = sup.obj
    if not isinstance(n, ANode):
        e.raise_("AttributeError", "generic_visit of a non-node")
    if "opaque" in n.tags:
        return n
    cls = e.node_one(n)
    visit = e.get_attr(self, "visit")
    for t, f, mult in GRAMMAR[cls]:
        if f not in n.fields and (n.real is not None or n.origin == "schema" or "opaque_fields" in n.tags
                                  or (isinstance(n.origin, tuple))):
            continue
        old = e.node_field(n, f) if f in n.fields or f not in n.absentf else None
        if isinstance(old, AList):
            if old.tail is not None:
                continue
            new = []
            i = 0
            while i < len(old.items):
                v = old.items[i]
                i += 1
                if isinstance(v, ANode):
                    r = e.call(visit, [v], {})
                    if r is None:
                        continue
                    if isinstance(r, AList):
                        new.extend(r.items)
                        continue
                    if isinstance(r, tuple):
                        new.extend(r)
                        continue
                    v = r
                new.append(v)
            old.items[:] = new
        elif isinstance(old, ANode):
            r = e.call(visit, [old], {})
            if r is None:
                n.fields.pop(f, None)
                n.absentf.add(f)
            else:
                n.fields[f] = r
    return n


def install(e):
    e.ext_hooks["super.visit"] = _visit
    e.ext_hooks["super.generic_visit"] = _generic_visit


# --------------------------------------------------------- schematic trees
def opaque(label, types=None, prov=None):
    n = ANode(types or ALL_EXPR - {"Starred", "Slice"}, label, prov or [label])
    n.tags |= {"opaque", "distinct"}
    return n


def schema(src, table=None, label="src", fresh=True):
    """source text -> abstract tree; Name ids in `table` become the given
    nodes (opaque user expressions / statements)"""
    tree = ast.parse(src) if isinstance(src, str) else src
    table = table or {}

    def wrap(n):
        if isinstance(n, ast.Name) and n.id in table:
            return table[n.id]
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Name) and n.value.id in table and table[n.value.id].types <= ALL_STMT:
            return table[n.value.id]
        nd = ANode([type(n).__name__], type(n).__name__, [], {}, origin="schema")
        nd.tags.add("distinct")
        for f in n._fields:
            v = getattr(n, f, None)
            nd.fields[f] = val(v)
        if hasattr(n, "lineno"):
            nd.fields["lineno"] = n.lineno
            nd.fields["col_offset"] = n.col_offset
        return nd

    def val(v):
        if isinstance(v, ast.AST):
            return wrap(v)
        if isinstance(v, list):
            return AList([val(x) for x in v])
        return v

    return wrap(tree)


def text(e, n):
    """readable source of an abstract tree"""
    try:
        if isinstance(n, AList):
            return "\n".join(text(e, x) for x in n.items)
        r = hooks.to_real(e, n)
        ast.fix_missing_locations(r)
        s = ast.unparse(r)
        return norm_text(AStr(hooks.fill_holes(e, s)))
    except Gap as g:
        return "<%s>" % g
    except Exception as ex:
        return "<unprintable: %s>" % ex


def norm_text(v):
    v = norm(v)
    return v if isinstance(v, str) else show(v)


# ------------------------------------------------------------- transformers
def imports_map(e, file="/in/a.py", torch=("torch",), other=(), may=(), names=None):
    per = ADict(label="imports_map[file]")
    e.dict_set(per, "other_packages", ASet(list(other)))
    e.dict_set(per, "torch_packages", ASet(list(torch)))
    e.dict_set(per, "may_torch_packages", ASet(list(may)))
    e.dict_set(per, "api_alias_name_map", ADict())
    for t in torch:
        e.dict_set(per, t, t)
    for k, v in (names or {}).items():
        e.dict_set(per, k, v)
    im = ADict(label="imports_map", factory=Ext("builtins.dict"))
    e.dict_set(im, file, per)
    return im


def setup(e):
    sweep.setup(e)
    install(e)
    from . import fsworld

    fsworld.nondet(e)
    e.max_steps = 400000
    e.rec_k = 60
    e.rec_raise = True


def make(e, clsname, root, mode="default", im=None, file="/in/a.py", node_stack=(), scope_stack=()):
    ci = e.prog.find_class(clsname)
    if ci is None:
        from .report import NoVerdict

        raise NoVerdict("class %s not found" % clsname)
    if im is None:
        im = imports_map(e, file)
    alla = ADict(label="all_api_map", factory=Ext("builtins.dict"))
    uns = ADict(label="unsupport_api_map", factory=Ext("builtins.int"))
    t = e.instantiate(
        ClassVal(ci), [root, file, mode, im, Obj(None, kind="logger"), alla, uns], {}
    )
    return t


def run_visit(e, tr, node):
    return e.call(e.get_attr(tr, "visit"), [node], {})
