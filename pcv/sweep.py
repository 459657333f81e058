"""Matcher sweep: abstractly interpret every mapping-table entry's matcher on
every call shape of the entry's declared signature."""
import ast
import itertools
import warnings

from .engine import Engine, Frame, Gap, Prune, RaiseEx, explore, Stats
from .values import *  # noqa
from . import hooks

warnings.filterwarnings("ignore", category=SyntaxWarning)


# ------------------------------------------------------------------ globals
def _concrete(v, depth=0):
    """abstract value -> plain python data (raises Gap if not constant)"""
    v = norm(v)
    if isinstance(v, ATable):
        return ("table", v.name, v.data)
    if v is None or isinstance(v, (bool, int, float, str, bytes)):
        return v
    if isinstance(v, tuple):
        return tuple(_concrete(x, depth + 1) for x in v)
    if isinstance(v, ASet):
        if v.tail is not None:
            raise Gap("open set")
        return {_concrete(x) for x in v.items}
    if isinstance(v, AList):
        if v.tail is not None:
            raise Gap("open list")
        return [_concrete(x) for x in v.items]
    if isinstance(v, ADict):
        if v.tail is not None:
            raise Gap("open dict")
        return {_concrete(k): _concrete(x) for k, x in v.d.values()}
    raise Gap("not constant: %s" % show(v))


def global_tables(prog):
    """class attributes of GlobalManager, by interpreting its class body once"""
    if getattr(prog, "_gm", None) is not None:
        return prog._gm
    gm = prog.find_class("GlobalManager")
    out = {}
    if gm is not None:
        from .engine import Oracle

        e = Engine(prog, Oracle())
        e.max_steps = 3_000_000
        e.exact_tables = True

        def h_open(e, a, k):
            t = show(a[0]) if not isinstance(norm(a[0]), str) else norm(a[0])
            return Obj(None, {"path": t}, kind="jsonfile")

        def h_load(e, a, k):
            p = a[0].attrs.get("path", "") if isinstance(a[0], Obj) else show(a[0])
            base = str(p).rstrip("'\")>").split("/")[-1].split("\\")[-1]
            for t in prog.tables:
                if base.endswith(t + ".json") and (base == t + ".json" or not base[-len(t) - 6].isalnum() and base[-len(t) - 6] != "_"):
                    return ATable(t, prog.tables[t])
            raise Gap("unknown json file %s" % p)

        e.ext_hooks["builtins.open"] = h_open
        e.ext_hooks["io.open"] = h_open
        e.ext_hooks["json.load"] = h_load
        e.ext_hooks["json.loads"] = h_load
        e.obj_hooks["jsonfile"] = lambda e, o, m, a, k: o
        f = Frame(None, gm.module, gm)
        e.frames.append(f)
        e.exec_block(gm.node.body)
        for k, v in f.vars.items():
            try:
                out[k] = _concrete(v)
            except Gap:
                pass
        prog._gm_missing = [k for k in f.vars if k not in out]
    prog._gm = out
    return out


def _lift(e, v):
    if isinstance(v, tuple) and len(v) == 3 and v[0] == "table":
        return ATable(v[1], v[2])
    return e.lift(v)


def install_globals(e):
    for k, v in global_tables(e.prog).items():
        e.class_attrs[("GlobalManager", k)] = _lift(e, v)
        e.born(("class", "GlobalManager", k), e.class_attrs[("GlobalManager", k)])


# -------------------------------------------------------------------- nodes
EXPRS = ALL_EXPR - {"Starred", "Yield", "YieldFrom", "Slice", "NamedExpr", "Await"}


def arg_node(name, starred=False):
    if starred:
        inner = ANode(EXPRS, name, [name])
        inner.tags.add("distinct")
        n = ANode(["Starred"], "*" + name, [name], {"value": inner, "ctx": ANode(["Load"], "Load", [], {}, origin="schema")})
        n.tags.add("distinct")
        return n
    n = ANode(EXPRS, name, [name])
    n.tags.add("distinct")
    return n


def kw_node(name, val=None, unpack=False):
    v = val if val is not None else arg_node(name)
    n = ANode(["keyword"], "kw:" + name, [name], {"arg": None if unpack else name, "value": v})
    n.tags.add("distinct")
    return n


class Shape:
    """a call shape: positional parameter names, keyword parameter names"""

    __slots__ = ("pos", "kw", "star", "dstar")

    def __init__(self, pos=(), kw=(), star=False, dstar=False):
        self.pos = tuple(pos)
        self.kw = tuple(kw)
        self.star = star
        self.dstar = dstar

    def __repr__(self):
        it = list(self.pos) + (["*star"] if self.star else []) + ["%s=%s" % (k, k) for k in self.kw]
        if self.dstar:
            it.append("**dstar")
        return "(" + ", ".join(it) + ")"

    def __eq__(self, o):
        return (self.pos, self.kw, self.star, self.dstar) == (o.pos, o.kw, o.star, o.dstar)

    def __hash__(self):
        return hash((self.pos, self.kw, self.star, self.dstar))

    def names(self):
        return list(self.pos) + list(self.kw)

    def build(self):
        args = [arg_node(n) for n in self.pos]
        if self.star:
            args.append(arg_node("star", True))
        kws = [kw_node(n) for n in self.kw]
        if self.dstar:
            kws.append(kw_node("dstar", unpack=True))
        return AList(args), AList(kws)


def shapes_for(mapping, thorough=False):
    al = list(mapping.get("args_list") or [])
    ov = list(mapping.get("overload_args_list") or [])
    mn = mapping.get("min_input_args") or 0
    if "*" in al:
        i = al.index("*")
        pos, kwo = al[:i], al[i + 1:]
    else:
        pos, kwo = al, []
    out = []

    def add(s):
        if s not in out:
            out.append(s)

    req = pos[:mn]
    opt = pos[mn:] + kwo
    add(Shape(req))  # minimal
    add(Shape((), req))
    add(Shape((), pos + kwo))
    add(Shape(pos))
    add(Shape(pos, kwo))
    for k in range(mn, len(pos) + 1):
        add(Shape(pos[:k]))
    for o in opt:
        add(Shape(req, [o]))
        add(Shape((), list(req) + [o]))
        add(Shape((), [x for x in pos + kwo if x != o]))
    pairs = list(itertools.combinations(opt, 2))
    if len(opt) <= 5:
        for r in range(2, len(opt)):
            for c in itertools.combinations(opt, r):
                add(Shape(req, c))
    elif thorough or len(pairs) <= 15:
        for c in pairs:
            add(Shape(req, c))
    # keyword arguments in another order
    add(Shape((), (pos + kwo)[::-1]))
    add(Shape(req, opt[::-1]))
    add(Shape(req, (), star=True))
    add(Shape((), (), star=True))
    add(Shape(req, (), dstar=True))
    add(Shape((), (), dstar=True))
    add(Shape((), ()))
    add(Shape(("extra0",)))
    if not al:
        add(Shape(("extra0", "extra1")))
        add(Shape(("extra0",), ("kwx",)))
    for o in ov:
        add(Shape(req[:1], [o]))
    return out


# ------------------------------------------------------------------ matchers
def make_transformer(e, mode="default"):
    """what a matcher can see of the transformer"""
    tr = Obj(None, kind="transformer", open_=True)
    tr.attrs["mode"] = mode
    tr.attrs["file_name"] = "input.py"
    tr.attrs["inserted"] = AList()

    return tr


def transformer_call(e, o, name, args, kwargs):
    if name == "insert_multi_node":
        e.event("insert", nodes=args[0])
        return None
    e.event("transformer_call", method=name, args=args)
    return e.fresh("transformer.%s()" % name)


def setup(e):
    install_globals(e)
    e.obj_hooks["transformer"] = transformer_call
    e.repo_hooks["log_debug"] = lambda e, f, a, k: None
    e.repo_hooks["log_info"] = lambda e, f, a, k: None
    e.repo_hooks["log_warning"] = lambda e, f, a, k: None

    cnt = itertools.count()

    def uniq(e, f, a, k):
        n = a[0] if a else "v"
        h = Hole("unique(%s)#%d" % (show(n), next(cnt)), ["<unique>"], "ident")
        return norm(AStr([n, "_", h]) if isinstance(n, str) else AStr([h]))

    e.repo_hooks["get_unique_name"] = uniq
    e.repo_hooks["UtilsFileHelper"] = lambda e, c, a, k: _utils_obj(e)
    e.obj_hooks["utils"] = utils_call


def _utils_obj(e):
    if "utils_obj" not in e.memo:
        o = Obj(None, kind="utils")
        o.attrs["is_dir_mode"] = Pred(("dirmode",), "input is a directory")
        o.attrs["fileName"] = AStr([Hole("utils_dir", ["<utils>"], "text"), "/paddle_utils.py"])
        e.memo["utils_obj"] = o
    return e.memo["utils_obj"]


def utils_call(e, o, name, args, kwargs):
    if name == "add_code":
        e.event("helper_code", code=args[0])
        return None
    return e.fresh("utils." + name)


def func_node(api):
    """`recv.meth` as an Attribute node with an opaque receiver"""
    recv = ANode(EXPRS, "recv", ["self"])
    recv.tags.add("distinct")
    n = ANode(["Attribute"], "func", ["self"], {"value": recv, "attr": api.split(".")[-1]})
    n.tags.add("func")
    n.tags.add("distinct")
    return n


def run_matcher(e, cls, api, mapping, shape, style, mode="default"):
    tr = make_transformer(e, mode)
    m = e.instantiate(ClassVal(cls), [tr, api, api, e.lift(mapping), Obj(None, kind="logger")], {})
    e.events.append(("start", {}))
    pa = e.call(e.get_attr(m, "get_paddle_api"), [], {})
    if style == "package_attr":
        return ("api", pa)
    if style == "class_attr":
        r = e.call(e.get_attr(m, "get_paddle_class_attribute_nodes"), [func_node(api)], {})
        return ("nodes", r)
    args, kws = shape.build()
    e.arg_nodes = {}
    for n in args.items:
        e.arg_nodes[n.label] = n
    for n in kws.items:
        e.arg_nodes[n.label[3:]] = n.fields["value"]
    if style == "package":
        r = e.call(e.get_attr(m, "get_paddle_nodes"), [args, kws], {})
    else:
        r = e.call(e.get_attr(m, "get_paddle_class_nodes"), [func_node(api), args, kws], {})
    return ("nodes", r)


# -------------------------------------------------------------------- records
CLASS_PREFIXES = (
    "torch.Tensor.",
    "torch.nn.Module.",
    "torch.optim.Optimizer.",
    "torch.autograd.function.FunctionCtx.",
    "torch.distributions.distribution.Distribution.",
)


class Rec:
    """one abstract path of one matcher on one call shape"""

    __slots__ = ("api", "style", "shape", "kind", "outcome", "nodes", "texts", "inserts", "helpers",
                 "exc", "decisions", "arg", "holes", "used", "events", "path")


def known_literal(e, name):
    """did this path establish the argument to be one particular literal?"""
    n = getattr(e, "arg_nodes", {}).get(name)
    if n is None:
        return None
    for k in ("src", "usrc"):
        h = e.memo.get((k, n.uid))
        if isinstance(h, Hole) and h.bound is not None:
            return h.bound
    if n.one == "Constant" and "value" in n.fields:
        v = n.fields["value"]
        if isinstance(v, Top) and v.bound is not NotImplemented:
            return repr(v.bound)
    return None


def all_holes_in(text_parts, out):
    for p in text_parts:
        if isinstance(p, Hole):
            out.append(p)


def roots(h, seen=None):
    """the holes a (possibly derived) hole comes from"""
    seen = seen if seen is not None else set()
    if h.uid in seen:
        return []
    seen.add(h.uid)
    if h.root is None:
        return [h]
    r = h.root
    if isinstance(r, Hole):
        return roots(r, seen)
    if isinstance(r, AStr):
        out = []
        for p in r._parts:
            if isinstance(p, Hole):
                out.extend(roots(p, seen))
        return out
    return [h]


def holes_of_value(e, v, out, depth=0):
    v = norm(v)
    if isinstance(v, AStr):
        for p in v.parts:
            if isinstance(p, Hole):
                out.append(p)
    elif isinstance(v, ANode):
        if v.real is not None or v.one is not None:
            if v.real is None and "src:" + str(v.uid) not in ():
                pass
        if v.fields and (v.real is not None or (isinstance(v.origin, tuple) and v.origin[0] == "built")):
            for x in v.fields.values():
                holes_of_value(e, x, out, depth + 1)
        else:
            # an opaque user node placed in the output as it is
            key = ("src", v.uid)
            h = e.memo.get(key) if hasattr(e, "memo") else None
            if not isinstance(h, Hole):
                h = Hole(v.label, v.prov or [v.label], "expr", v)
            out.append(h)
    elif isinstance(v, (AList, tuple)):
        for x in v.items if isinstance(v, AList) else v:
            holes_of_value(e, x, out, depth + 1)
    elif isinstance(v, Top):
        out.append(Hole("?" + v.label, v.prov, "text", root=None))


def styles_for(api, mapping, is_attr):
    if is_attr:
        return ["class_attr"] if api.startswith(CLASS_PREFIXES) else ["package_attr"]
    out = []
    if api.startswith(CLASS_PREFIXES):
        out.append("method")
    out.append("package")
    return out


def matcher_class(prog, name):
    mod = prog.modules.get("paconvert.transformer.basic_transformer")
    c = None
    if mod is not None and name and name.isidentifier():
        c = prog.resolve_global(mod, name)
    from .program import ClassInfo

    return c if isinstance(c, ClassInfo) else None


def records(prog, api, table, thorough=False, stats=None, shapes=None, styles=None, max_paths=None, mode="default"):
    mapping = prog.tables[table][api]
    is_attr = table == "attribute_mapping"
    mname = mapping.get("Matcher")
    cls = matcher_class(prog, mname) if mname else None
    if cls is None or "disable" in mapping:
        return
    for style in styles or styles_for(api, mapping, is_attr):
        if style.endswith("_attr"):
            shs = [Shape()]
        elif shapes is not None:
            shs = shapes
        else:
            from . import spec

            shs = spec.legal_shapes(api, mapping, thorough)
            if style == "package" and spec.is_class_api(api):
                shs = [spec.with_receiver(x) for x in shs]
        for sh in shs:
            for p in explore(
                prog,
                lambda e: run_matcher(e, cls, api, mapping, sh, style, mode),
                setup,
                max_paths or (2000 if thorough else 600),
                stats,
            ):
                r = Rec()
                r.api, r.style, r.shape, r.path = api, style, sh, p
                r.decisions = p.decisions
                r.events = p.events
                r.exc = None
                r.nodes = None
                r.inserts = [kw["nodes"] for k, kw in p.events if k == "insert"]
                r.helpers = [kw["code"] for k, kw in p.events if k == "helper_code"]
                if p.kind == "raise":
                    r.kind, r.outcome, r.exc = "raise", "raise", p.exc
                elif p.kind == "gap":
                    r.kind, r.outcome, r.exc = "gap", "gap", p.exc
                else:
                    tag, v = p.value
                    v = norm(v)
                    r.kind = "return"
                    if v is None:
                        r.outcome = "none"
                    elif isinstance(v, str) and v in ("misidentify", "delete", "unchange"):
                        r.outcome = v
                    elif isinstance(v, (str, AStr)):
                        r.outcome = "text"
                        r.nodes = v
                    elif isinstance(v, AList):
                        r.outcome = "nodes" if (v.items or v.tail) else "none"
                        r.nodes = v
                    else:
                        r.outcome = "unknown"
                        r.nodes = v
                    hs = []
                    if r.nodes is not None:
                        holes_of_value(p.engine, r.nodes, hs)
                    for n in r.inserts:
                        holes_of_value(p.engine, n, hs)
                    r.holes = hs
                yield r


def source_text(e, nodes):
    """readable text of the generated nodes"""
    nodes = norm(nodes)
    if isinstance(nodes, (str, AStr)):
        return show(nodes) if isinstance(nodes, AStr) else nodes
    out = []
    if isinstance(nodes, AList):
        for n in nodes.items:
            s = hooks.node_source(e, n) if isinstance(n, ANode) else n
            s = norm(s)
            out.append((s if isinstance(s, str) else show(s)).strip())
    else:
        out.append(show(nodes))
    return "; ".join(out)


# ------------------------------------------------------------ parallel driver
_WORK = {}


def _init(prog, fn, thorough):
    _WORK["prog"], _WORK["fn"], _WORK["thorough"] = prog, fn, thorough


def _run(job):
    st = Stats()
    try:
        out = _WORK["fn"](_WORK["prog"], job, _WORK["thorough"], st)
    except Exception as ex:  # never lose a job silently
        import traceback

        out = [("error", job, traceback.format_exc()[-600:])]
    return job, out, (st.paths, st.gaps, st.capped, st.steps, st.gap_reasons, st.funcs)


def parallel(prog, jobs, fn, thorough=False, procs=8):
    """fn(prog, job, thorough, stats) -> list of findings; merged in job order"""
    import multiprocessing as mp

    global_tables(prog)
    total = Stats()
    res = []
    ctx = mp.get_context("fork")
    _init(prog, fn, thorough)
    with ctx.Pool(procs, _init, (prog, fn, thorough)) as pool:
        for job, out, (a, b, c, d, g, f) in pool.imap(_run, jobs, chunksize=max(1, min(8, len(jobs) // (procs * 8) or 1))):
            total.paths += a
            total.gaps += b
            total.capped += c
            total.steps += d
            total.funcs |= f
            for k, n in g.items():
                total.gap_reasons[k] = total.gap_reasons.get(k, 0) + n
            res.append((job, out))
    return res, total


def all_jobs(prog):
    jobs = [(a, "api_mapping") for a in prog.tables["api_mapping"]]
    jobs += [(a, "attribute_mapping") for a in prog.tables["attribute_mapping"]]
    return jobs
