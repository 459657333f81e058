"""Sweep over the mapping tables at the level a user sees: for every mapped
API and every legal way to write its use, the abstract interpreter runs the
transformer on `<statement using it>` with opaque arguments and hands the
resulting abstract tree to the rules."""
import ast

from . import hooks, spec, sweep, world
from .engine import explore
from .sweep import CLASS_PREFIXES, Shape
from .values import *  # noqa

TRANSFORMER = "BasicTransformer"


class Use:
    """one run: `api` written in `style` with `shape` inside `ctx`"""

    __slots__ = ("api", "table", "style", "shape", "ctx", "mode")

    def __init__(self, api, table, style, shape=None, ctx="assign", mode="default"):
        self.api, self.table, self.style, self.shape, self.ctx, self.mode = api, table, style, shape, ctx, mode

    def written(self):
        f = {"package": self.api, "static": self.api, "name": self.api,
             "method": "obj." + self.api.split(".")[-1],
             "selfmethod": "self." + self.api.split(".")[-1],
             "exprmethod": "(u + v)." + self.api.split(".")[-1],
             "attr": "obj." + self.api.split(".")[-1]}[self.style]
        return f + (repr(self.shape) if self.shape is not None else "")


class Rec:
    __slots__ = ("use", "path", "kind", "exc", "total", "success", "unsup", "apis", "outcome",
                 "expr", "inserts", "helpers", "root", "stmt", "call", "extra")


def is_class_api(api):
    return api.startswith(CLASS_PREFIXES)


def styles(prog, api, table):
    cls = is_class_api(api)
    if table == "attribute_mapping":
        return ["attr"] if cls else ["name"]
    if not cls:
        return ["package", "name"]
    meth = api.split(".")[-1]
    out = []
    for pre in CLASS_PREFIXES:
        if pre + meth in prog.tables["api_mapping"] or pre + meth in prog.tables.get("api_alias_mapping", {}):
            first = pre
            break
    else:
        first = None
    if api == (first or "") + meth:
        out += ["method", "exprmethod"]
    elif api.startswith("torch.nn.Module."):
        out.append("selfmethod")
    out += ["static", "name"]
    return out


def uses(prog, api, table, thorough=False, mode="default"):
    mapping = prog.tables[table][api]
    for st in styles(prog, api, table):
        if st in ("attr", "name"):
            yield Use(api, table, st, None, "assign", mode)
            continue
        shs = spec.legal_shapes(api, mapping, thorough)
        if st == "static":
            shs = [spec.with_receiver(x) for x in (shs if thorough else shs[:6])]
        if st == "exprmethod":
            shs = shs[:2]
        for sh in shs:
            yield Use(api, table, st, sh, "assign", mode)
        if st != "exprmethod":
            for sh in shs[:2]:
                yield Use(api, table, st, sh, "expr", mode)


def build(e, use):
    """the abstract module holding the use -> (root, stmt, call node)"""
    meth = use.api.split(".")[-1]
    base = {"package": use.api, "static": use.api, "name": use.api, "method": "obj." + meth,
            "selfmethod": "self." + meth, "exprmethod": "(u + v)." + meth, "attr": "obj." + meth}[use.style]
    src = base + ("()" if use.shape is not None else "")
    root = world.schema(("pcv_y = " if use.ctx == "assign" else "") + src)
    stmt = root.fields["body"].items[0]
    call = stmt.fields["value"]
    e.arg_nodes = {}
    if use.shape is not None:
        args, kws = use.shape.build()
        for n in args.items:
            n.tags.add("opaque")
            e.arg_nodes[n.label.lstrip("*")] = n.fields["value"] if n.one == "Starred" else n
            if n.one == "Starred":
                n.tags.discard("opaque")
                n.fields["value"].tags.add("opaque")
        for n in kws.items:
            n.fields["value"].tags.add("opaque")
            e.arg_nodes[n.label[3:]] = n.fields["value"]
        call.fields["args"] = args
        call.fields["keywords"] = kws
        for n in args.items + [k for k in kws.items] + [k.fields["value"] for k in kws.items]:
            n.fields.setdefault("lineno", 1)
    e.call_node = call
    return root, stmt, call


def run(e, use):
    root, stmt, call = build(e, use)
    pk = use.api.split(".")[0]
    im = world.imports_map(e, torch=tuple(sorted({"torch", pk})))
    t = world.make(e, TRANSFORMER, root, use.mode, im)
    e.events.append(("start", {}))
    e.call(e.get_attr(t, "transform"), [], {})
    return t, root, stmt, call


def num(v):
    v = norm(v)
    return v if isinstance(v, int) else None


def records(prog, api, table, thorough=False, stats=None, mode="default", only=None, max_paths=None):
    mapping = prog.tables[table][api]
    if not mapping.get("Matcher") or "disable" in mapping:
        return
    for use in uses(prog, api, table, thorough, mode):
        if only and not only(use):
            continue
        yield from run_use(prog, use, stats, max_paths or (3000 if thorough else 800))


def run_use(prog, use, stats, max_paths=800):
    for p in explore(prog, lambda e: run(e, use), world.setup, max_paths, stats):
        if spec.illegal(use, p.engine):
            continue
        r = Rec()
        r.use, r.path, r.kind = use, p, p.kind
        r.exc = p.exc if p.kind != "return" else None
        r.helpers = [kw["code"] for k, kw in p.events if k == "helper_code"]
        r.expr = r.root = r.stmt = r.call = None
        r.inserts = []
        r.outcome = p.kind
        if p.kind == "return":
            t, root, stmt, call = p.value
            r.root, r.stmt, r.call = root, stmt, call
            r.total = num(t.attrs.get("torch_api_count"))
            r.success = num(t.attrs.get("success_api_count"))
            r.unsup = t.attrs.get("unsupport_api_map")
            r.apis = t.attrs.get("all_api_map")
            body = root.fields["body"].items
            r.inserts = [s for s in body if s is not stmt]
            present = any(s is stmt for s in body)
            r.expr = stmt.fields.get("value") if present else None
            if r.total == 0:
                r.outcome = "withdrawn" if r.expr is call else "?"
            elif r.total == 1 and r.success == 1:
                if not present:
                    r.outcome = "deleted"
                elif r.expr is call:
                    r.outcome = "unchanged"
                else:
                    r.outcome = "converted"
            elif r.total == 1 and r.success == 0:
                r.outcome = "unsupported"
            else:
                r.outcome = "?"
        yield r


def text(r):
    e = r.path.engine
    if r.root is None:
        return "<%s %s>" % (r.kind, r.exc)
    return world.text(e, r.root)


def self_receiver(r):
    """the path has established that the first argument of a class API used
    through a method call is the bare name `self` (taken for the receiver)"""
    n = getattr(r.path.engine, "arg_nodes", {})
    for k, a in n.items():
        if a.one == "Name":
            i = norm(a.fields.get("id"))
            if isinstance(i, Top) and i.bound is not NotImplemented:
                i = i.bound
            if i == "self":
                return k
    return None
