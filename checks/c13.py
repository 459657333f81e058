"""C13: code that does not use torch passes through unchanged."""
import ast
import builtins
import keyword
import re

from ._lab import BLOCK, DOTTED, EXPR, PROBE, at, inblock, put, run

RULE = ("for a module whose only torch uses are known probes, the tree the transformers leave must be the module "
        "with exactly the torch uses and torch imports replaced: every other node present, once, in place and order")
KINDS = {"tree": "the transformed tree is not the original with the torch uses replaced",
         "syntax": "the transformed tree is not legal Python", "print": "the transformed tree is not a legal tree",
         "exc": "the transformers raise"}
NAMES = ("visit", "visit_attribute_base", "visit_Attribute", "visit_Call", "visit_Expr", "visit_Import", "visit_ImportFrom", "fill_empty_block", "insert_scope")

# statements that use no torch
STMT = {
    "pass": "pass",
    "two passes": "pass\npass",
    "expression": "v7",
    "call": "v7(v8)",
    "method": "w7.pcv_user(v8)",
    "constant": "1",
    "ellipsis": "...",
    "string": "'torch.pcv_one'",
    "assign": "x7 = v8",
    "chained assign": "x7 = x6 = v8",
    "unpacking": "x7, *x6 = v8",
    "subscript store": "v7[v8] = v6",
    "attribute store": "w7.pcv_attr = v6",
    "aug": "x7 += v8",
    "annotated": "x7: v8 = v6",
    "annotation only": "x7: v8",
    "del": "del x7, x6",
    "assert": "assert v7, v8",
    "raise": "raise v7",
    "import": "import os7",
    "import as": "import os7.path as o7, sys7",
    "from import": "from os7 import path as o7, sep",
    "from dot": "from . import m7",
    "from dots": "from ..m7 import n7 as n6",
    "if": "if v7:\n    v8",
    "if else": "if v7:\n    v8\nelse:\n    v6",
    "elif": "if v7:\n    v8\nelif v6:\n    v5\nelse:\n    v4",
    "for": "for x7 in v7:\n    v8\nelse:\n    v6",
    "while": "while v7:\n    v8\nelse:\n    v6",
    "loop control": "while v7:\n    if v8:\n        break\n    else:\n        continue",
    "with": "with v7 as x7, v8:\n    v6",
    "try": "try:\n    v7\nexcept v8 as x7:\n    v6\nexcept:\n    raise\nelse:\n    v5\nfinally:\n    v4",
    "try finally": "try:\n    v7\nfinally:\n    v8",
    "def": "def f7(a, b=v7, *c, d=v8, **e):\n    'doc'\n    return v6",
    "decorated def": "@v7\n@w7.pcv_user(v8)\ndef f7():\n    v6",
    "generator": "def f7():\n    x7 = yield v7\n    yield from v8",
    "async def": "async def f7():\n    await v7\n    return [x7 async for x7 in v8]",
    "nested def": "def f7():\n    x7 = v7\n    def f6():\n        nonlocal x7\n        global x5\n        x7 = v8\n    return f6",
    "class": "class C7(v7, k=v8):\n    'doc'\n    x7 = v6\n    def f7(self):\n        return v5",
    "empty class": "class C7:\n    pass",
    "match": "match v7:\n    case [1, x7]:\n        v8\n    case {'a': x6, **x5}:\n        v6\n    case C7(a=2) | None:\n        v5\n    case _:\n        v4",
    "lambda": "x7 = lambda a, *b, c=v7, **d: v8",
    "comprehensions": "x7 = [x6 for x6 in v7 if v8], {x6 for x6 in v7}, {x6: x5 for x6, x5 in v7}, (x6 for x6 in v7)",
    "operators": "x7 = v7 + v8 * v6 - -v5 // v4 % v3 << v2 & ~v1",
    "compare": "x7 = v7 < v8 <= v6 is not v5 not in v4",
    "conditional": "x7 = v7 if v8 else v6 or v5 and not v4",
    "fstring": "x7 = f'a{v7!r:>{v8}}b{v6}'",
    "slices": "x7 = v7[v8:v6:v5, ..., None, v4:]",
    "starred call": "v7(*v8, **v6, k=v5)",
    "walrus": "v7(x7 := v8)",
    "bytes and numbers": "x7 = b'a', 1.5, 2j, True, None",
}
DIRECT = {"return": ("return v7", {"FunctionDef.body", "AsyncFunctionDef.body", "method", "async method", "with in try in function", "function in if", "loop in async function"})}

OTHER = {
    "no torch import": "x1 = w1.pcv_one(v1)\ntorch.pcv_one(v2)\nx3 = w3.pcv_aone\ntorch.pcv_pone",
    "docstring": "'''doc torch.pcv_one(x)'''\nimport torch\nx1 = torch.pcv_one(v1)",
    "docstring only": "'''doc'''\nimport torch",
    "future": "from __future__ import annotations\nimport torch\nx1 = torch.pcv_one(v1)",
    "docstring and future": "'''doc'''\nfrom __future__ import annotations\nfrom __future__ import division\nimport os7\nimport torch\nx1 = torch.pcv_one(v1)",
    "string first": "'a'\n'b'\nimport torch\nx1 = v1",
    "torch imported late": "x1 = v1\nimport os7\nx2 = v2\nimport torch\nx3 = torch.pcv_one(v3)\nx4 = v4",
    "look-alikes": "import torch\nimport torchy\nx1 = torchy.pcv_one(v1)\nx2 = torchy.pcv_pone",
    "look-alike attribute": "import torch\nx2 = w1.torch.pcv_pone",
    "globals": "import torch\nx1 = 1\ndef f1():\n    global x1\n    x1 = torch.pcv_one(v1)\n    def f2():\n        nonlocal v2\n        v2 = v3",
    "only imports": "import torch\nfrom torch import pcv_one\nimport torch.pcv as pcv",
    "doc in class": "import torch\nclass C1:\n    'doc'\n    import torch\n    def f1(self):\n        'doc'\n        import torch",
}


C = {"opaque": False}  # the parts of the schema that are not probes are plain names
OPQ = {"user name", "call, one expression"}  # they stand for any expression


def cases(thorough):
    out = []
    for b in BLOCK:
        for n, s in STMT.items():
            out.append(("statement %s in %s" % (n, b), inblock(b, "v8\n" + s + "\nx9 = torch.pcv_one(p)"), C))
        out.append(("only a torch import in %s" % b, inblock(b, "import torch"), C))
        out.append(("only torch imports in %s" % b, inblock(b, "import torch\nfrom torch import pcv_one as f8\nimport torch.pcv as t8"), C))
        out.append(("torch imports around a statement in %s" % b, inblock(b, "import torch\nv7(v8)\nfrom torch import pcv_one"), C))
        out.append(("mixed import in %s" % b, inblock(b, "import os7, torch as t8, sys7"), C))
        out.append(("deleted statement in %s" % b, inblock(b, "torch.pcv_delete(p)"), C))
        out.append(("deleted statements in %s" % b, inblock(b, "v7\ntorch.pcv_delete(p)\nv8\nw9.pcv_delete(p)\nv6\ntorch.pcv_pdelete\nv5"), C))
        for n, (s, bl) in DIRECT.items():
            if b in bl:
                out.append(("statement %s in %s" % (n, b), inblock(b, s), C))
    for pos in EXPR:
        for pr in ("user name", "user method", "user attribute", "call, one expression", "method, one expression",
                   "attribute, one expression", "package attribute, one expression", "call, unchanged",
                   "method, unchanged", "attribute, unchanged", "call, withdrawn", "method, withdrawn", "attribute, withdrawn"):
            if pr.startswith("package") and pos in DOTTED:
                continue
            out.append(("%s at %s" % (pr, pos), at(pos, PROBE[pr]), {} if pr in OPQ or thorough else C))
    for n, s in OTHER.items():
        out.append((n, s, {"opaque": False}))
    inner = [p for p in EXPR if EXPR[p][0].startswith("v1 = ") and "torch" not in EXPR[p][0] and not EXPR[p][0].startswith("v1 = v2 = ")]
    for i, a in enumerate(EXPR):
        for k, b in enumerate(inner):
            if not thorough and (i + k) % 7:
                continue
            e = re.sub(r"\bv(\d)", r"u\1", EXPR[b][0][5:])
            out.append(("%s inside %s" % (b, a), at(a, "(" + put(e, "P", "torch.pcv_one(p)") + ")"), C))
    return out


def words(prog):
    """identifiers the transformers use as strings (keys, markers): user
    code may use the same names"""
    out = set()
    for mi in prog.modules.values():
        if not re.search(r"transformer|base|converter", mi.rel):
            continue
        for n in ast.walk(mi.tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier() and not keyword.iskeyword(n.value) \
                    and not n.value.startswith("pcv"):
                out.add(n.value)
    return sorted(out - {"torch", "paddle"})


def packages(prog):
    """names of the packages the tool knows"""
    out = set()
    for mi in prog.modules.values():
        for ci in mi.classes.values():
            for n in ci.node.body:
                v = getattr(n, "value", None)
                if isinstance(n, ast.Assign) and isinstance(v, (ast.Dict, ast.List)) and "PACKAGE" in ast.unparse(n.targets[0]):
                    for k in (v.keys if isinstance(v, ast.Dict) else v.elts):
                        if isinstance(k, ast.Constant) and isinstance(k.value, str):
                            out.add(k.value.split(".")[0])
    return sorted(x for x in out if x.isidentifier() and x not in ("torch", "paddle"))


def check(ctx):
    ctx.rule(RULE)
    ctx.assumptions += ["the outcomes a matcher can have are represented by probe matchers added to the parsed text in memory",
                        "astor/ast print the tree they are given"]
    c = cases(ctx.thorough)
    W = words(ctx.prog)
    ctx.coverage["own_words_as_user_names"] = len(W)
    for w in W:
        c.append(("user name " + w, "import torch\nx1 = %s.pcv_x(v1)\nx2 = [%s, %s.pcv_y]\ndef f1(a1=%s):\n    return %s\n%s = v2" % ((w,) * 6), C))
    callee = [w for w in W if callable(getattr(builtins, w, None))] + ["getattr", "isinstance", "f7"]
    P = packages(ctx.prog)
    ctx.floor("known_packages", len(P), 20)
    for w in W + P:
        lines = ["x%d = %s(%s, 'a', v%d)" % (i, f, w, i) for i, f in enumerate(callee)]
        c.append(("user name %s as an argument" % w, "import torch\n" + "\n".join(lines), C))
    for w in P:
        c.append(("user name " + w, "import torch\nx1 = %s.pcv_x(v1)\nx2 = [%s, %s.pcv_y]\ndef f1(a1=%s):\n    return %s\n%s = v2" % ((w,) * 6), C))
        c.append(("user name %s, no torch" % w, "x1 = %s.pcv_x(v1)\nx2 = [%s, %s.pcv_y]\ndef f1(a1=%s):\n    return hasattr(%s, 'b')\n%s = v2" % ((w,) * 6), C))
    run(ctx, c, KINDS, RULE, NAMES, 1500)
