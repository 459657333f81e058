"""Abstract runs of the whole transformer pipeline (Converter.transfer_node)
on schematic modules, with probe APIs whose conversion outcome is known.

The probes are matcher classes the analysis adds to the parsed text of the
matcher module (nothing is written to /repo) and table entries that name
them; what is analysed is how the transformers treat each outcome a matcher
can have, in every syntactic position."""
import ast
import re

from . import fsworld, hooks, sweep, world
from .engine import Stats, explore
from .program import Program
from .report import NoVerdict
from .values import *  # noqa

PROBES = '''
class PcvHoistMatcher(BaseMatcher):
    def generate_code(self, kwargs):
        x, t = kwargs["x"], kwargs["y"]
        return "pcv_a_{} = paddle.pcv_f({})\\npcv_b_{} = paddle.pcv_g(pcv_a_{})\\npaddle.pcv_r(pcv_b_{})".format(t, x, t, t, t)


class PcvNoneMatcher(BaseMatcher):
    def generate_code(self, kwargs):
        return None


class PcvOneMatcher(BaseMatcher):
    def generate_code(self, kwargs):
        return "paddle.pcv_one({})".format(kwargs["x"])


class PcvStmtMatcher(BaseMatcher):
    def generate_code(self, kwargs):
        return "pcv_s = {}".format(kwargs["x"])


class PcvMisMatcher(BaseMatcher):
    def generate_code(self, kwargs):
        return "misidentify"


class PcvUnchangeMatcher(BaseMatcher):
    def generate_code(self, kwargs):
        return "unchange"

    def get_paddle_class_attribute_nodes(self, node):
        return "unchange"


class PcvDeleteMatcher(BaseMatcher):
    def get_paddle_api(self):
        return "delete"

    def get_paddle_nodes(self, args, kwargs):
        return "delete"

    def get_paddle_class_nodes(self, func, args, kwargs):
        return "delete"

    def get_paddle_class_attribute_nodes(self, node):
        return "delete"


class PcvAttrHoistMatcher(BaseMatcher):
    def get_paddle_class_attribute_nodes(self, node):
        self.parse_func(node)
        return ast.parse("pcv_a = paddle.pcv_f({})\\npcv_b = paddle.pcv_g(pcv_a)\\npaddle.pcv_r(pcv_b)".format(self.paddleClass)).body


class PcvAttrNoneMatcher(BaseMatcher):
    def get_paddle_class_attribute_nodes(self, node):
        return None


class PcvAttrMisMatcher(BaseMatcher):
    def get_paddle_api(self):
        return "misidentify"

    def get_paddle_class_attribute_nodes(self, node):
        return "misidentify"


class PcvAttrOneMatcher(BaseMatcher):
    def get_paddle_class_attribute_nodes(self, node):
        self.parse_func(node)
        return ast.parse("{}.pcv_done".format(self.paddleClass)).body


class PcvAttrUnchangeMatcher(BaseMatcher):
    def get_paddle_api(self):
        return "unchange"

    def get_paddle_class_attribute_nodes(self, node):
        return "unchange"
'''
# outcome of a call of torch.<name>(...) / anything.<name>(...)
CALL = {
    "pcv_hoist": ("PcvHoistMatcher", "hoist"),
    "pcv_none": ("PcvNoneMatcher", "unsupported"),
    "pcv_one": ("PcvOneMatcher", "converted"),
    "pcv_stmt": ("PcvStmtMatcher", "unsupported"),
    "pcv_mis": ("PcvMisMatcher", "withdrawn"),
    "pcv_same": ("PcvUnchangeMatcher", "unchanged"),
    "pcv_delete": ("PcvDeleteMatcher", "deleted"),
}
ATTR = {
    "pcv_ahoist": ("PcvAttrHoistMatcher", "hoist"),
    "pcv_anone": ("PcvAttrNoneMatcher", "unsupported"),
    "pcv_amis": ("PcvAttrMisMatcher", "withdrawn"),
    "pcv_aone": ("PcvAttrOneMatcher", "converted"),
    "pcv_asame": ("PcvAttrUnchangeMatcher", "unchanged"),
    "pcv_adelete": ("PcvDeleteMatcher", "deleted"),
}

PKG = {"pcv_pone": "converted", "pcv_pdelete": "deleted", "pcv_pmis": "withdrawn", "pcv_psame": "unchanged", "pcv_unmapped": "unsupported"}


def program():
    prog = Program(inject=("ChangePrefixMatcher", PROBES))
    if prog.find_class("PcvHoistMatcher") is None:
        raise NoVerdict("no module defines ChangePrefixMatcher")
    for n, (m, _) in CALL.items():
        for pre in ("torch.", "torch.Tensor."):
            prog.tables["api_mapping"][pre + n] = {
                "Matcher": m, "paddle_api": "paddle." + n, "min_input_args": 0, "args_list": ["x", "y"]}
    for n, (m, _) in ATTR.items():
        prog.tables["attribute_mapping"]["torch.Tensor." + n] = {"Matcher": m, "paddle_api": "paddle.Tensor." + n}
    for n, m, api in (("pcv_pone", "ChangePrefixMatcher", None), ("pcv_pdelete", "PcvDeleteMatcher", "delete"),
                      ("pcv_pmis", "PcvAttrMisMatcher", "misidentify"), ("pcv_psame", "PcvAttrUnchangeMatcher", "unchange")):
        prog.tables["attribute_mapping"]["torch." + n] = {"Matcher": m, **({"paddle_api": api} if api else {})}
    return prog


def setup(fs, real_names=False):
    def f(e):
        import copy

        sweep.setup(e)
        log = dict(e.repo_hooks)
        world.install(e)
        fsworld.install(e, copy.deepcopy(fs))
        e.repo_hooks.update(log)
        if real_names:
            e.repo_hooks.pop("get_unique_name", None)
        e.obj_hooks["utils"] = sweep.utils_call
        e.max_steps = 900000
        e.rec_k = 30
        e.max_frames = 400
        e.rec_raise = True

    return f


def convert(prog, src, table=None, mode="default", files=(), file="/in/a.py", stats=None, max_paths=300, ctor=None, real_names=False):
    """paths of transfer_node on the schematic module; p.value = (converter, root)"""
    ci = prog.find_class("Converter")
    if ci is None or prog.find_method(ci, "transfer_node") is None:
        raise NoVerdict("Converter.transfer_node not found")
    fs = fsworld.FS([file] + list(files), [], [], "/c")

    def run(e):
        t = table(e) if callable(table) else dict(table or {})
        root = world.schema(src, t)
        e.schema_root = root
        c = e.instantiate(ClassVal(ci), [], {"mode": mode, **(ctor or {})})
        e.events.append(("start", {}))
        e.call(e.get_attr(c, "transfer_node"), [root, file], {})
        return c, root

    yield from explore(prog, run, setup(fs, real_names), max_paths, stats if stats is not None else Stats())


def num(v):
    v = norm(v)
    return v if isinstance(v, int) else None


# ------------------------------------------------------- schema vs. result
def hide(src, names):
    """Name nodes (Load) of `names` become opaque user expressions, except as
    the receiver of an attribute or as a callee"""
    tree = ast.parse(src)
    keep = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Attribute):
            keep.add(id(n.value))
        elif isinstance(n, ast.Call):
            keep.add(id(n.func))
            if isinstance(n.func, ast.Name) or not (isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "torch"):
                keep |= {id(a) for a in n.args}
        elif isinstance(n, (ast.Assign, ast.Expr, ast.Starred)):
            keep.add(id(n.value))
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and n.id in names and isinstance(n.ctx, ast.Load) and id(n) not in keep:
            n.id = "__op_" + n.id
    return tree


def real_tree(e, root):
    e.opaque_labels = True
    try:
        r = hooks.to_real(e, root)
    finally:
        e.opaque_labels = False
    by = getattr(e, "hole_by_uid", {})
    for n in ast.walk(r):
        if isinstance(n, ast.Name):
            m = _H.fullmatch(str(n.id))
            if m and int(m.group(1)) in by:
                n.id = by[int(m.group(1))].label
    return r


_H = re.compile(r"__h(\d+)__")
USER = ["v%d" % i for i in range(1, 10)] + ["p", "q"]


def run_case(prog, src, stats, opaque=True, mode="default", max_paths=300, **kw):
    """-> [(kind, detail...)] deviations of the transformers from the oracle"""
    from . import oracle

    exp = oracle.Expect(src, CALL, ATTR, PKG)
    out = []

    def table(e):
        return {"__op_" + n: world.opaque(n) for n in USER}

    tree = hide(src, USER) if opaque else ast.parse(src)
    n = 0
    for p in convert(prog, tree, table=table, mode=mode, stats=stats, max_paths=max_paths, **kw):
        if p.kind == "gap":
            continue
        n += 1
        if p.kind != "return":
            out.append(("exc", src, str(p.exc)))
            continue
        c, root = p.value
        try:
            got = real_tree(p.engine, root)
            ann = oracle.annotations(got)
            got = oracle.canonical(got)
            txt = oracle.text(got)
            ast.parse(txt)
        except SyntaxError as ex:
            out.append(("syntax", src, str(ex) + ": " + txt))
            continue
        except Exception as ex:
            out.append(("print", src, "%s: %s" % (type(ex).__name__, ex)))
            continue
        best = [v for v in exp.variants if v.text == txt]
        if not best:
            out.append(("tree", src, exp.variants[0].text, txt))
        v = best[0] if best else exp.variants[0]
        tot, ok = num(c.attrs.get("torch_api_count")), num(c.attrs.get("success_api_count"))
        if tot is None or ok is None:
            out.append(("undecided", src, "counts are not constants"))
        elif (tot, ok) != (v.total, v.success):
            out.append(("count", src, "total/converted %s expected %s" % ((tot, ok), (v.total, v.success))))
        un = counts(p.engine, c.attrs.get("unsupport_api_map"))
        al = counts(p.engine, c.attrs.get("all_api_map"))
        if un is None or al is None:
            out.append(("undecided", src, "lists are not constant"))
        else:
            if un != v.unsupported:
                out.append(("unsup", src, "unsupported list %s expected %s" % (un, v.unsupported)))
            if al != v.apis:
                out.append(("apis", src, "API list %s expected %s" % (al, v.apis)))
        if best:
            want = sorted((a.split(".")[-1], oracle.text(s)) for s, apis in v.annotated for a in set(apis))
            have = sorted({(next((a for _, ap in v.annotated for a in (x.split(".")[-1] for x in ap) if a in t), "?"), oracle.text(s) if s is not None else "") for t, s in ann})
            if want != have:
                out.append(("ann", src, "annotations before %s, expected before %s" % (have, want)))
    out = list(dict.fromkeys(out))
    out.append(("n", n))
    return out


def counts(e, d):
    if not isinstance(d, ADict) or d.tail is not None:
        return None
    out = {}
    for k, v in d.d.values():
        k = norm(k)
        if isinstance(v, ADict):
            v = e.dict_get(v, "count", None) if "count" in [norm(x[0]) for x in v.d.values()] else None
        v = num(v)
        if not isinstance(k, str) or v is None:
            return None
        out[k] = v
    return out


# --------------------------------------------------------- whole conversions
def blank_after_annotation(tool, code):
    """a formatter may separate a leading string statement by a blank line"""
    if tool != "black":
        return code
    out = []
    for line in code.split("\n"):
        out.append(line)
        if oracle_mark in line:
            out.append("")
    return "\n".join(out)


oracle_mark = "Not Support auto convert"


def plain(tool, code):
    return code


def whole(prog, sources, inp, out="/o", ctor=None, stats=None, max_paths=60, formatter=plain, runs=None, files=(), reverse=False, cwd="/c", dirs=(), prepare=None):
    """paths of Converter(**ctor).run(inp, out) over the given modules, nothing
    summarised; p.value = list of (converter, returned) of `runs`
    (default: one run)"""
    ci = prog.find_class("Converter")
    if ci is None:
        raise NoVerdict("class Converter not found")
    fs = fsworld.FS(list(sources) + list(files), list(dirs), [], cwd)
    runs = runs or [(inp, out, ctor or {})]

    def run(e):
        e.real_print = formatter
        e.max_steps = 3000000
        e.rec_k = 30
        e.max_frames = 400
        e.world = reverse
        if prepare:
            prepare(e)
        res = []
        for i, o, c in runs:
            e.events.append(("start", {"inp": i}))
            conv = e.instantiate(ClassVal(ci), [], dict(c))
            res.append((conv, e.call(e.get_attr(conv, "run"), [i, o], {})))
        return res

    yield from explore(prog, run, fsworld.setup_driver(fs, sources=sources, summarise=False), max_paths, stats if stats is not None else Stats())


def written(p):
    """path -> final text of every file the run writes (None: not constant)"""
    out = {}
    for k, kw in p.events:
        if k in ("truncate", "openwrite"):
            out.setdefault(kw.get("path"), "")
        if k == "write":
            t = kw.get("content")
            t = norm(t)
            out[kw.get("path")] = t if isinstance(t, str) else None
    return out
