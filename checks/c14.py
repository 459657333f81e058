"""C14: hoisted statements run right before the use, in order, in the same block."""
import ast
import re

from pcv import apis, lab, oracle, sweep
from pcv.report import NoVerdict

from . import _sweep
from ._lab import BLOCK, EXPR, PROBE, at, inblock, put, run

RULE = ("a use whose conversion needs statements before it must leave them directly before its statement, in the same "
        "block and in the order produced, once per use, unless the use is evaluated conditionally, repeatedly or later "
        "than its statement, where it must be left as written and listed as not converted")
NAMERULE = "a variable that generated statements assign must have a name of its own: no other use may assign the same variable"
KINDS = {"tree": "hoisted statements are misplaced, lost or merged", "syntax": "the result is not legal Python",
         "print": "the result is not a legal tree", "exc": "the transformers raise",
         "count": "a use that was not converted is counted as converted, or the reverse", "unsup": "the unsupported list disagrees"}
NAMES = ("insert_multi_node", "scope_body_index", "record_scope", "insert_scope", "in_deferred_expr")
H, H2, H3 = "torch.pcv_hoist(p, t1)", "torch.pcv_hoist(q, t2)", "torch.pcv_hoist(v6, t3)"
C = {"opaque": False}

STMT = {
    "assign": "x9 = %s" % H,
    "expression": H,
    "between": "v7\nx9 = %s\nv8" % H,
    "last": "v7\nv6\nx9 = %s" % H,
    "in a call": "v7\nw8(v5, %s, k=v4)\nv8" % H,
    "aug": "v7\nx9 += %s" % H,
    "if test": "v7\nif %s:\n    v6\nelse:\n    v5\nv8" % H,
    "elif test": "v7\nif v5:\n    v6\nelif %s:\n    v4\nelse:\n    v3\nv8" % H,
    "for iter": "v7\nfor x9 in %s:\n    v6\nelse:\n    v5\nv8" % H,
    "while test": "v7\nwhile %s:\n    v6\nv8" % H,
    "with item": "v7\nwith %s as x9:\n    v6\nv8" % H,
    "with second item": "v7\nwith v6, %s:\n    v5\nv8" % H,
    "default": "v7\ndef f9(a=%s):\n    v6\nv8" % H,
    "decorator": "v7\n@v5\n@w8(%s)\ndef f9():\n    v6\nv8" % H,
    "async decorator": "v7\n@w8(%s)\nasync def f9():\n    v6\nv8" % H,
    "class decorator": "v7\n@w8(%s)\nclass C9:\n    v6\nv8" % H,
    "class base": "v7\nclass C9(w8(%s)):\n    v6\nv8" % H,
    "function body": "v7\ndef f9():\n    v6\n    return %s\nv8" % H,
    "class body": "v7\nclass C9:\n    v6\n    x9 = %s\nv8" % H,
    "handler type": "try:\n    v7\nexcept %s:\n    v6" % H,
    "match subject": "v7\nmatch %s:\n    case 1:\n        v6\nv8" % H,
    "match body": "v7\nmatch v6:\n    case 1:\n        v5\n        x9 = %s\n    case _:\n        v4\nv8" % H,
    "match guard": "v7\nmatch v6:\n    case x9 if %s:\n        v5\nv8" % H,
    "two in a statement": "v7\nx9 = w8(%s, %s)\nv8" % (H, H2),
    "three in a statement": "v7\nx9 = w8(%s, k=%s) + %s\nv8" % (H, H2, H3),
    "equal uses in a statement": "v7\nx9 = %s + %s\nv8" % (H, H),
    "consecutive statements": "v7\nx9 = %s\nx8 = %s\nv8\nx6 = %s" % (H, H2, H3),
    "equal consecutive statements": "v7\nx9 = %s\nx8 = %s\nv8" % (H, H),
    "nested uses": "v7\nx9 = torch.pcv_hoist(torch.pcv_hoist(p, t1), t2)\nv8",
    "nested in one": "v7\nx9 = torch.pcv_one(%s)\nv8" % H,
    "one nested": "v7\nx9 = torch.pcv_hoist(torch.pcv_one(p), t1)\nv8",
    "method": "v7\nx9 = w9.pcv_hoist(p, t1)\nv8",
    "method of a use": "v7\nx9 = %s.pcv_hoist(q, t2)\nv8" % H,
    "attribute": "v7\nx9 = w9.pcv_ahoist\nv8",
    "attribute of a use": "v7\nx9 = %s.pcv_user\nv8" % H,
    "after an import": "import torch\nx9 = %s\nv8" % H,
    "between imports": "v7\nimport torch\nx9 = %s\nfrom torch import pcv_one\nx8 = %s" % (H, H2),
    "after a deleted statement": "torch.pcv_delete(p)\nv7\nx9 = %s\nv8" % H,
    "before a deleted statement": "v7\nx9 = %s\ntorch.pcv_delete(p)\nv8" % H,
    "between deleted statements": "torch.pcv_delete(v6)\nx9 = %s\ntorch.pcv_delete(v6)\nx8 = %s\ntorch.pcv_delete(v6)" % (H, H2),
    "test and both branches": "v7\nif %s:\n    v6\n    x9 = %s\nelse:\n    v5\n    x8 = %s\nv8" % (H, H2, H3),
    "iter and body": "v7\nfor x9 in %s:\n    v6\n    x8 = %s\nelse:\n    x7 = %s\nv8" % (H, H2, H3),
    "try blocks": "try:\n    v7\n    x9 = %s\nexcept v6:\n    v5\n    x8 = %s\nelse:\n    v4\n    x7 = %s\nfinally:\n    v3" % (H, H2, H3),
    "try and finally": "try:\n    v7\n    x9 = %s\nexcept v6:\n    v5\nelse:\n    v4\nfinally:\n    v3\n    x7 = %s\nv8" % (H, H2),
    "two handlers": "try:\n    v7\nexcept v6:\n    v5\n    x9 = %s\nexcept v4:\n    v3\n    x8 = %s" % (H, H2),
    "lambda": "v7\nx9 = lambda a: %s\nv8" % H,
    "comprehension": "v7\nx9 = [%s for i1 in v6]\nv8" % H,
    "comprehension iter": "v7\nx9 = [i1 for i1 in %s]\nv8" % H,
    "short circuit": "v7\nx9 = v6 and %s\nv8" % H,
    "conditional branch": "v7\nx9 = %s if v6 else v5\nv8" % H,
    "inside and outside a lambda": "v7\nx9 = w8(%s, lambda: %s)\nv8" % (H, H2),
    "default in a nested function": "def f9():\n    v7\n    def f8(a=%s):\n        v6\n    return f8" % H,
    "not converted and hoisted": "v7\nx9 = w8(torch.pcv_none(v5), %s)\nv8" % H,
    "same in twin statements": "if v7:\n    x9 = %s\nif v6:\n    x9 = %s" % (H, H),
    "deep": "v7\nfor i1 in v6:\n    v5\n    while v4:\n        v3\n        if v2:\n            v1\n            x9 = %s\n    v8" % H,
}
BADIN = {"handler type"}


def cases(thorough):
    out = []
    for b in BLOCK:
        for n, s in STMT.items():
            out.append(("%s in %s" % (n, b), inblock(b, s), C))
    for pos in EXPR:
        for pr in ("call, hoisted statements", "method, hoisted statements", "attribute, hoisted statements"):
            out.append(("%s at %s" % (pr, pos), at(pos, PROBE[pr]), {} if pr.startswith("call") or thorough else C))
        out.append(("two at %s" % pos, at(pos, "w8(%s, %s)" % (H, H2)), C))
        if thorough:
            for b in BLOCK:
                if "async" in b.lower() or "async" not in EXPR[pos][0]:
                    out.append(("hoist at %s in %s" % (pos, b), inblock(b, "v7\n" + put(EXPR[pos][0], "P", H) + "\nv8"), C))
    for i, a in enumerate(BLOCK):
        for k, b in enumerate(BLOCK):
            if not thorough and (i + k) % 4:
                continue
            for n in STMT if thorough else ("between",):
                if n in ("between", "two in a statement", "decorator", "consecutive statements", "between imports", "test and both branches"):
                    out.append(("%s in %s in %s" % (n, b, a), inblock(a, "v7\n" + put(BLOCK[b], "S", STMT[n]) + "\nv8"), C))
    inner = [p for p in EXPR if EXPR[p][0].startswith("v1 = ") and "torch" not in EXPR[p][0] and not EXPR[p][0].startswith("v1 = v2 = ")]
    for i, a in enumerate(EXPR):
        for k, b in enumerate(inner):
            if not thorough and (i + k) % 9:
                continue
            e = re.sub(r"\bv(\d)", r"u\1", EXPR[b][0][5:])
            out.append(("%s inside %s" % (b, a), at(a, "(" + put(e, "P", H) + ")"), C))
    return out


def check(ctx):
    ctx.rule(RULE)
    ctx.assumptions += ["the outcomes a matcher can have are represented by probe matchers added to the parsed text in memory"]
    run(ctx, cases(ctx.thorough), KINDS, RULE, NAMES, 1500)
    check_names(ctx)


# ------------------------------------------------- names of temporaries
def find_multi(prog, j, thorough, st):
    """uses of an API whose conversion puts statements before the use"""
    out = set()
    for r in apis.records(prog, j[0], j[1], thorough, st, only=lambda u: thorough or u.ctx == "assign" and u.style in ("package", "method", "attr")):
        if r.outcome == "converted" and r.inserts and r.use.style in ("package", "method", "attr"):
            out.add(r.use.written())
    return [("use", w) for w in sorted(out)]


def stores(stmts, user):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in user:
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name not in user:
                out.add(n.name)
    return out


def two_uses(prog, j, thorough, st):
    api, w = j
    root = api.split(".")[0]
    out, n = [], 0
    src = "import %s\npcv_1 = %s\npcv_2 = %s\npcv_3 = pcv_f(%s, %s)" % (root, w, w, w, w)
    try:
        user = {x.id for x in ast.walk(ast.parse(src)) if isinstance(x, ast.Name)}
    except SyntaxError:
        return [("skip", w)]
    for p in lab.convert(prog, src, stats=st, max_paths=200, real_names=True):
        if p.kind != "return":
            continue
        c, tree = p.value
        got = lab.real_tree(p.engine, tree).body
        oracle.annotations(ast.Module(got, []))
        parts, cur = [], []
        for s in got:
            cur.append(s)
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id.startswith("pcv_"):
                parts.append(cur)
                cur = []
        if len(parts) != 3:
            out.append(("undecided", "the converted statements were not recognised"))
            continue
        n += 1
        a, b, c2 = (stores([s for s in q[:-1] if not isinstance(s, (ast.Import, ast.ImportFrom))], user) for q in parts)
        if a & b:
            out.append(("clash", w, "two uses of %s in different statements both assign %s" % (w, ", ".join(sorted(a & b)))))
        # the use that stands twice in one statement must assign twice as many names
        k = [sorted(x.id for s in parts[2][:-1] for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in user)]
        one = [x.id for s in parts[0][:-1] for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in user]
        if a and len(c2) < 2 * len(set(one)):
            out.append(("clash", w, "two uses of %s in one statement share names: %s" % (w, ", ".join(sorted(c2)))))
    out = list(dict.fromkeys(out))
    out.append(("n", n))
    return out


def check_names(ctx):
    ctx.rule(NAMERULE)
    jobs = []
    for (api, table), f in _sweep.run(ctx, find_multi):
        if f[0] == "use":
            jobs.append((api, f[1]))
    ctx.floor("uses_with_hoisted_statements", len(jobs), 60)
    res, st = sweep.parallel(ctx.prog, jobs, two_uses, ctx.thorough)
    done = 0
    for (api, w), out in res:
        for f in out:
            if f[0] == "error":
                raise NoVerdict("internal error on %s: %s" % (w, f[2]))
            if f[0] == "n":
                ctx.ob(f[1])
                done += bool(f[1])
            elif f[0] == "clash":
                ctx.violation("%s|temporaries" % api, _sweep.where(ctx.prog, api), NAMERULE, f[2])
            else:
                ctx.undecide("two uses: " + f[1])
    ctx.floor("pairs_of_uses_followed", done, 50)
