"""C12: import rewriting drops torch imports only and records every binding."""
import ast
import itertools

from pcv import lab, oracle, sweep
from pcv.engine import Stats
from pcv.report import NoVerdict
from pcv.values import *  # noqa

from ._lab import BLOCK, DOTTED, EXPR, anchors, put

RULE = ("of the names an import statement imports, exactly those of replaced packages go; the others stay in order and alias; "
        "a use of a removed name is spelled with the full path its import gave it; each replaced package yields one import of its "
        "replacement at a legal place before every other code of the module")
LOCAL = ("/in/datasets.py", "/in/localpkg/__init__.py", "/in/localpkg/torch.py", "/in/timm.py")

NAMES = ["torch", "torch.nn", "torch.nn as N1", "torch as T1", "torch.nn.functional as F1", "numpy", "numpy as np", "a1.torch", "torchx",
         "mytorch.nn as M1", "os", "os.path as P1", "torchvision", "torchaudio.x as A1", "transformers as TF", "torch_xla",
         "audiotools", "audiotools.ml", "audiotools as at", "audiotools.ml.audiotools as ml", "notaudiotools.x", "my.audiotools.ml as q1",
         "localpkg", "localpkg.torch as L1", "datasets as D1", "setuptools", "einops.layers as E1", "timm"]
FROMS = ["from torch import pcv_q", "from torch import pcv_q as Q1", "from torch import pcv_q, pcv_r as R1, pcv_t", "from torch.nn import pcv_q as Q1, pcv_r",
         "from torch.nn.functional import pcv_q", "from torchvision.transforms import pcv_q as Q1", "from transformers import pcv_q, pcv_r", "from os import path",
         "from os.path import join as J1, exists", "from numpy import abs as a1, cos, sin as s1", "from torchx import pcv_q", "from mytorch.torch import pcv_q as Q1",
         "from . import torch", "from .torch import pcv_q as Q1, pcv_r", "from .. import pcv_q", "from ..torch.nn import pcv_q", "from ... import torch as T9",
         "from audiotools import pcv_q", "from audiotools.ml.audiotools import pcv_q as Q1, pcv_r", "from notaudiotools import pcv_q", "from my.audiotools import pcv_q as Q1",
         "from localpkg import pcv_q", "from localpkg.torch import pcv_q as Q1", "from datasets import pcv_q", "from timm import pcv_q", "from timm.layers import pcv_q",
         "from numpy import *", "from .torch import *"]


class Tables:
    def __init__(self, prog):
        g = prog.find_class("GlobalManager")
        if g is None:
            raise NoVerdict("class GlobalManager not found")
        v = {}
        for st in g.node.body:
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                try:
                    v[st.targets[0].id] = ast.literal_eval(st.value)
                except ValueError:
                    pass
        try:
            self.torch, self.may, self.whole = v["TORCH_PACKAGE_MAPPING"], v["MAY_TORCH_PACKAGE_LIST"], v["IMPORT_PACKAGE_MAPPING"]
        except KeyError as ex:
            raise NoVerdict("GlobalManager.%s is not a literal" % ex)


def head(name, pkgs):
    return next((p for p in pkgs if name == p or name.startswith(p + ".")), None)


def local(name):
    p = "/in/" + name.replace(".", "/")
    return any(f == p + ".py" or f.startswith(p + "/") for f in LOCAL)


class Want(ast.NodeTransformer):
    def __init__(self, T):
        self.T, self.add, self.full = T, set(), {}

    def visit_Import(self, s):
        keep = []
        for a in s.names:
            if local(a.name):
                keep.append(a)
                continue
            t = head(a.name, list(self.T.torch) + list(self.T.may))
            if t:
                self.add.add(self.T.torch.get(t, t))
                if a.asname:
                    self.full[a.asname] = a.name
                continue
            w = head(a.name, self.T.whole)
            if w:
                new = self.T.whole[w]
                keep.append(ast.alias(new + a.name[len(w):], a.asname) if a.asname else ast.alias(new, w))
                continue
            keep.append(a)
        s.names = keep
        return s if keep else None

    def visit_ImportFrom(self, s):
        if s.level or local(s.module):
            return s
        t = head(s.module, list(self.T.torch) + list(self.T.may))
        if t:
            self.add.add(self.T.torch.get(t, t))
            for a in s.names:
                self.full[a.asname or a.name] = s.module + "." + a.name
            return None
        w = head(s.module, self.T.whole)
        if w:
            s.module = self.T.whole[w] + s.module[len(w):]
        return s


class Spell(ast.NodeTransformer):
    def __init__(self, full):
        self.full = full

    def visit_Name(self, n):
        if n.id in self.full and isinstance(n.ctx, ast.Load):
            return ast.parse(self.full[n.id], mode="eval").body
        return n


class Probe(ast.NodeTransformer):
    """torch.pcv_pone -> paddle.pcv_pone"""

    def visit_Attribute(self, n):
        if oracle.dotted(n) == ["torch", "pcv_pone"]:
            n.value.id = "paddle"
            return n
        return self.generic_visit(n)


def prefix(body):
    i = 0
    for s in body:
        if isinstance(s, ast.ImportFrom) and s.module == "__future__":
            i += 1
        elif i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str):
            i += 1
        else:
            break
    return i


def expected(src, T):
    w = Want(T)
    tree = w.visit(ast.parse(src))
    tree = Probe().visit(Spell(w.full).visit(tree))
    return oracle.text(oracle.canonical(tree)), w.add


def take(tree, add):
    """remove the imports of the replacements from the heading; -> complaint"""
    i = prefix(tree.body)
    left, out = sorted(add), []
    for s in list(tree.body[i:]):
        if not isinstance(s, (ast.Import, ast.ImportFrom)):
            break
        if isinstance(s, ast.Import) and len(s.names) == 1 and s.names[0].asname is None and s.names[0].name in left:
            left.remove(s.names[0].name)
            tree.body.remove(s)
    if left:
        return "no import of %s at the head of the module" % ", ".join(left)


def job(prog, j, thorough, st):
    key, src, extra = j
    T = Tables(prog)
    want, add = expected(src, T)
    out, n = [], 0
    for p in lab.convert(prog, ast.parse(src), stats=st, max_paths=20, files=LOCAL):
        if p.kind == "gap":
            continue
        n += 1
        if p.kind != "return":
            out.append(("exc", "the transformers raise %s" % p.exc))
            continue
        try:
            got = lab.real_tree(p.engine, p.value[1])
            oracle.annotations(got)
            whole = oracle.text(got)
            ast.parse(whole)
            got = ast.parse(whole)
        except SyntaxError as ex:
            out.append(("syntax", str(ex)))
            continue
        except Exception as ex:
            out.append(("print", "%s: %s" % (type(ex).__name__, ex)))
            continue
        if extra:  # a star import: the names it binds are not left behind
            if not any(isinstance(x, ast.ImportFrom) and x.names[0].name == "*" for x in ast.walk(got)) and any(isinstance(x, ast.Name) and x.id == "Linear" for x in ast.walk(got)):
                out.append(("star", whole))
            continue
        bad = take(got, add)
        if bad:
            out.append(("added", bad + ":\n" + whole))
            continue
        t = oracle.text(oracle.canonical(got))
        if t != want:
            out.append(("tree", "expected, besides import %s,\n%s\nbut the transformers give\n%s" % (", ".join(sorted(add)), want, t)))
    out = list(dict.fromkeys(out))
    out.append(("n", n))
    return out


def local_of(st):
    """uses for the names a statement binds"""
    s = ast.parse(st).body[0]
    out = []
    for a in s.names:
        if a.name == "*":
            continue
        if isinstance(s, ast.Import) and not a.asname:
            out += ["u1 = %s.pcv_unmapped(v1)" % a.name, "u2 = [%s.pcv_unmapped, v2]" % a.name]
        else:
            L = a.asname or a.name
            out += ["u1 = %s.pcv_unmapped(v1, k=%s.pcv_x)" % (L, L), "u2 = [%s, v2]" % L, "v3.f1(k1=%s)" % L, "def g9(a9: %s):\n    return %s" % (L, L)]
            if isinstance(s, ast.ImportFrom):
                out += ["u3 = %s(v1)" % L]
    return out


def cases(thorough):
    out = []
    for a in NAMES:
        st = "import " + a
        out.append(("import " + a, st + "\nv0()\n" + "\n".join(local_of(st)), 0))
    for a, b in itertools.permutations(NAMES, 2):
        st = "import %s, %s" % (a, b)
        u = local_of(st)
        out.append((st, st + "\nv0()\n" + "\n".join(u[:1] + u[-1:]), 0))
    tri = itertools.permutations(NAMES, 3) if thorough else [(NAMES[i], NAMES[j], NAMES[k]) for i, j, k in zip(range(0, 28), list(range(5, 28)) + list(range(5)), list(range(11, 28)) + list(range(11)))]
    for n, t in enumerate(tri):
        if thorough and n % 19:
            continue
        st = "import %s, %s, %s" % t
        out.append((st, st + "\nv0()", 0))
    for st in FROMS:
        out.append((st, st + "\nv0()\n" + "\n".join(local_of(st)), 0))
        for o in ("import numpy as np", "import torch", "from torch import pcv_z as Z1"):
            out.append((st + " after " + o, o + "\n" + st + "\nv0()\n" + "\n".join(local_of(st)[:2]), 0))
            out.append((st + " before " + o, st + "\n" + o + "\nv0()", 0))
    some = ["import torch", "import numpy, torch.nn as N1", "import torch, numpy as np, os", "from torch import pcv_q as Q1, pcv_r", "from . import torch", "from numpy import abs as a1",
            "import audiotools.ml", "from os import path", "import torchvision, torchaudio"]
    for b in BLOCK:
        for st in some:
            u = [x for x in local_of(st) if not x.startswith("def")]
            for nm, body in (("alone", st), ("before code", st + "\nv5()\n" + "\n".join(u[:1])), ("after code", "v5()\n" + st), ("twice", st + "\n" + st)):
                out.append(("%s, %s in %s" % (st, nm, b), put(BLOCK[b], "S", body), 0))
    heads = {"docstring": '"""doc"""\n', "future": "from __future__ import annotations\n", "both": '"""doc"""\nfrom __future__ import annotations\nfrom __future__ import division\n',
             "string statement": "v0()\n'text'\n", "two strings": '"""doc"""\n"""other"""\n', "code": "v0()\n", "class": "class C0:\n    pass\n"}
    for h, t in heads.items():
        for st in some + ["import transformers, torch"]:
            out.append(("%s under %s" % (st, h), t + st + "\nv6()", 0))
    for st in ("from torch import *", "from torch.nn import *"):
        out.append((st, st + "\nu1 = Linear(v1, v2)", 1))
    for pos in EXPR:
        if "torch." in EXPR[pos][0]:
            continue
        if pos in DOTTED:
            out.append(("imported name at " + pos, "from torch import nn as L0\n" + put(EXPR[pos][0], "P", "L0.pcv_unmapped"), 0))
            continue
        out.append(("imported name at " + pos, "from torch import pcv_pone as L0\n" + put(EXPR[pos][0], "P", "L0"), 0))
        out.append(("imported module at " + pos, "import torch as L0\n" + put(EXPR[pos][0], "P", "L0.pcv_pone"), 0))
    return out


WORD = {"exc": "the transformers raise", "syntax": "the output does not parse", "print": "the output cannot be printed", "added": "the replacement is not imported",
        "star": "a star import is removed and the names it binds are left",
        "tree": "imports or uses of imported names are wrong"}


def check(ctx):
    ctx.rule(RULE)
    ctx.assumptions += ["names not bound anywhere else in the file (a shadowed name may be left as it is)",
                        "project-local modules are modelled by four files next to the converted one"]
    prog = lab.program()
    cs = cases(ctx.thorough)
    res, st = sweep.parallel(prog, cs, job, ctx.thorough)
    ctx.coverage["import_schemata"] = len(cs)
    ctx.coverage["paths_with_gap"] = st.gaps
    ctx.analysed |= {"%s:%s" % f for f in st.funcs}
    for k, n in st.gap_reasons.items():
        ctx.undecide("gap: " + k, n)
    where = anchors(prog, "visit_Import", "visit_ImportFrom", "visit_Name", "visit_Module", "import_body_index")
    m = empty = 0
    for (key, src, _), out in res:
        n = 0
        for f in out:
            if f[0] == "error":
                raise NoVerdict("internal error on %s: %s" % (key, f[2]))
            if f[0] == "n":
                n = f[1]
            else:
                ctx.violation("%s|%s" % (key, f[0]), where, RULE, "%s: for the module\n%s\n%s" % (WORD[f[0]], src, f[1]))
        ctx.ob(n)
        m += n
        empty += not n
    if empty * 10 > len(cs):
        raise NoVerdict("%d of %d schemata could not be followed" % (empty, len(cs)))
    ctx.floor("import_runs", m, 1500)
