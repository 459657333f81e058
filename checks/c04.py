"""C04: an API that is not converted is left as written and flagged."""
import ast
import io
import tokenize

from pcv import lab, sweep
from pcv.report import NoVerdict
from pcv.values import *  # noqa

from ._lab import BLOCK, DOTTED, EXPR, PROBE, anchors, at, inblock, put, run

RULE = ("an unconverted use is printed as written; methods and attributes get an annotation directly before the statement "
        "that holds them")
MARK = ("the marker pass prepends >>>>>> to the line after an annotation and to every line that spells a torch package path "
        "outside string literals, and changes nothing else")
KINDS = {"tree": "not left as written", "ann": "wrong annotation", "syntax": "the output does not parse",
         "print": "the output cannot be printed", "exc": "the transformers raise"}
NAMES = ("visit_Attribute", "visit_Call", "trans_class_attribute", "trans_class_method", "insert_scope", "record_scope")
C = {"opaque": False}
UNSUP = [k for k in PROBE if "not converted" in k or "statement result" in k]
ANNOTATED = ("w9.pcv_none(p)", "w8.pcv_stmt(q)", "w7.pcv_anone")

MIX = {
    "two methods in one statement": "x1 = w1.pcv_none(p) + w2.pcv_none(q)",
    "method in a method": "x1 = w1.pcv_none(w2.pcv_none(q))",
    "method and attribute": "x1 = w1.pcv_none(p) + w2.pcv_anone",
    "method and hoist": "x1 = w1.pcv_none(p) + torch.pcv_hoist(q, t1)",
    "hoist and method": "x1 = torch.pcv_hoist(q, t1) + w1.pcv_none(p)",
    "hoist and attribute": "x1 = torch.pcv_hoist(q, t1) + w1.pcv_anone",
    "hoist of a method": "x1 = torch.pcv_hoist(w1.pcv_none(p), t1)",
    "method of a hoist": "x1 = w1.pcv_none(torch.pcv_hoist(p, t1))",
    "two statements": "x1 = w1.pcv_none(p)\nx2 = w1.pcv_none(q)",
    "call, then method": "x1 = torch.pcv_none(p)\nx2 = w1.pcv_none(q)",
    "method, then call": "x1 = w1.pcv_none(q)\nx2 = torch.pcv_none(p)",
    "call in a method": "x1 = w1.pcv_none(torch.pcv_none(p))",
    "method in a call": "x1 = torch.pcv_none(w1.pcv_none(p))",
    "converted around": "x1 = torch.pcv_one(w1.pcv_none(p))",
    "converted inside": "x1 = w1.pcv_none(torch.pcv_one(p))",
    "method of a converted": "x1 = torch.pcv_one(p).pcv_none(q)",
    "method of a call": "x1 = torch.pcv_none(p).pcv_none(q)",
    "deferred hoist": "x1 = lambda a: torch.pcv_hoist(a, t1)",
    "deferred hoist of a method": "x1 = [w1.pcv_hoist(a, t1) for a in p]",
    "deferred and not": "x1 = [torch.pcv_hoist(a, t1) for a in torch.pcv_hoist(p, t2)]",
    "unmapped package": "x1 = torch.pcv_unmapped.pcv_more(p)\nx2 = torch.pcv_unmapped",
    "not converted base class": "class C1(torch.pcv_unmapped):\n    x1 = w1.pcv_none(p)\n    def f1(self):\n        return self.x1.pcv_none(q)",
    "decorators": "@torch.pcv_none(p)\n@v1\ndef f1(a=w1.pcv_none(q)):\n    return a",
    "else branches": "if v1:\n    x1 = w1.pcv_none(p)\nelif w2.pcv_none(q):\n    x2 = v2\nelse:\n    x3 = w3.pcv_anone",
    "try clauses": "try:\n    x1 = w1.pcv_none(p)\nexcept v1:\n    x2 = w2.pcv_none(q)\nelse:\n    x3 = w3.pcv_none(p)\nfinally:\n    x4 = w4.pcv_anone",
    "loop heads": "for i1 in w1.pcv_none(p):\n    w2.pcv_none(i1)\nelse:\n    w3.pcv_anone\nwhile w4.pcv_none(q):\n    x1 = v1",
    "deleted before": "torch.pcv_delete(p)\nx1 = w1.pcv_none(q)",
    "import before": "import torch.nn\nx1 = w1.pcv_none(q)",
}


def cases(thorough):
    out = []
    for n, s in MIX.items():
        # (a receiver with user code in it may be taken for a non-tensor: see N02)
        for o in ({"opaque": False}, {}) if ").pcv" not in s else (C,):
            out.append((n + (", plain" if o else ""), "import torch\n" + s, o))
        out.append((n + ", in a method", "import torch\nclass C9:\n    def f9(self):\n        " + s.replace("\n", "\n        "), C))
        if thorough:
            for b in BLOCK:
                if "@" not in s:
                    out.append((n + ", in " + b, inblock(b, s), C))
    for pos in EXPR:
        for pr in UNSUP:
            if pr.startswith("package") and pos in DOTTED:
                continue
            out.append(("%s at %s" % (pr, pos), at(pos, PROBE[pr]), C))
        for s in ANNOTATED[:2 if thorough else 1]:
            out.append(("%s and a hoist at %s" % (s, pos), at(pos, "(%s, torch.pcv_hoist(p, t1))" % s), C))
    for b in BLOCK:
        for pr in UNSUP:
            out.append(("%s in %s" % (pr, b), inblock(b, "x9 = " + PROBE[pr]), C))
        out.append(("bare method in " + b, inblock(b, "w9.pcv_none(p)"), C))
        out.append(("two methods in " + b, inblock(b, "w9.pcv_none(p)\nx8 = w8.pcv_anone"), C))
    return out


# ------------------------------------------------------------- marker pass
def explode(tool, code):
    """a formatter may break lines inside brackets"""
    if tool != "black":
        return code
    out, fs = [], 0
    row = {}
    for t in tokenize.generate_tokens(io.StringIO(code).readline):
        n = tokenize.tok_name[t.type]
        fs += (n == "FSTRING_START") - (n == "FSTRING_END")
        if t.type == tokenize.OP and not fs and (t.string in "([{" or t.string == ","):
            row.setdefault(t.end[0], []).append((t.end[1], t.string))
    depth = 0
    for i, line in enumerate(code.split("\n"), 1):
        last = 0
        for c, s in row.get(i, ()):
            if s == "," and not depth:
                continue
            depth = 1
            out.append(line[last:c] + "\n    ")
            last = c
        depth = 0
        out.append(line[last:] + "\n")
    code2 = "".join(out)[:-1]
    try:
        ast.parse(code2)
    except SyntaxError:
        return code
    return code2


FORMAT = {"plain": lab.plain, "blank line after the annotation": lab.blank_after_annotation, "lines broken in brackets": explode}

LINES = {
    "double in single": "x1 = 'a\"' + torch.pcv_none('b')",
    "single in double": "x1 = \"it's\" + torch.pcv_none(\"b's\")",
    "odd quotes before": "x1 = f('\"', torch.pcv_none(p))",
    "odd quotes around": "x1 = f(\"'\", torch.pcv_none(p), \"'\")",
    "odd quotes around a name": "x1 = f('\"', v1, '\"')",
    "escaped quotes": "x1 = f('\\'', torch.pcv_none(p), '\\'')",
    "in a string": "x1 = 'torch.pcv_none(p)'",
    "in a double quoted string": "x1 = \"it's torch.pcv_none(p)\"",
    "in a string with both quotes": "x1 = 'say \" torch.a \\' torch.b'",
    "in bytes": "x1 = b'torch.pcv_none(p)'",
    "in a docstring": "def f1():\n    \"\"\"Uses torch.pcv_none(p)\n    and torch.abs(x)\n    \"\"\"\n    return v1",
    "in a multi-line string": "x1 = '''\ntorch.pcv_none(p)\n torch.b\n'''\nx2 = v1",
    "after a multi-line string": "x1 = f('''\ntorch.a\n''', torch.pcv_none(p))",
    "in an f-string": "x1 = f'{torch.pcv_none(p)}'",
    "in an f-string with text": "x1 = f'torch.a {torch.pcv_none(p)} torch.b'",
    "only text of an f-string": "x1 = f'torch.a {v1} torch.b'",
    "in a nested f-string": "x1 = f'{v1:{torch.pcv_none(p)}}'",
    "method in an f-string": "x1 = f'{w1.pcv_none(p)}'",
    "string in an f-string": "x1 = f'{f1(\"torch.a\")}'",
    "look-alikes": "x1 = model_torch.pcv_x\nx2 = mytorch.pcv_y(p)\nx3 = a1.torch.pcv_b\nx4 = torch1.pcv_c\nx5 = pytorch.abs(p)\nx6 = torch_.q",
    "look-alikes and a use": "x1 = model_torch.pcv_x + torch.pcv_none(p)",
    "no line start": "x1 = [torch.pcv_none(p)]\nx2 = -torch.pcv_none(p)\nx3 = not torch.pcv_none(p)\nx4 = v1 if torch.pcv_none(p) else v2",
    "line start": "torch.pcv_none(p)",
    "indented": "def f1():\n    torch.pcv_none(p)\n    if v1:\n        return torch.pcv_none(q)\n    x1 = v2",
    "unmapped": "torch.pcv_unmapped\nx1 = torch.pcv_unmapped.pcv_more\ntorch.pcv_unmapped.pcv_x = v1",
    "decorator": "@torch.pcv_none(p)\ndef f1():\n    return v1",
    "decorator, method": "@w1.pcv_none(p)\ndef f1():\n    return v1",
    "decorated function with a default": "@v1\ndef f1(a=w1.pcv_none(p)):\n    return v1",
    "class": "class C1(torch.pcv_unmapped):\n    x1 = torch.pcv_none(p)\n    x2 = w1.pcv_none(p)",
    "annotation": "def f1(a: torch.pcv_unmapped) -> torch.pcv_unmapped:\n    x1: torch.pcv_unmapped = v1",
    "string annotation": "def f1(a: 'torch.pcv_unmapped') -> 'torch.pcv_unmapped':\n    x1 = v1",
    "methods": "x1 = w1.pcv_none(p)\nx2 = w2.pcv_anone\nx3 = v1",
    "method in one line with strings": "x1 = w1.pcv_none('torch.a')\nx2 = v1",
    "method with a multi-line string": "x1 = w1.pcv_none('''a\ntorch.b\n''')\nx2 = v1",
    "method in a head": "with w1.pcv_none(p) as x1:\n    x2 = v1\nfor i1 in w2.pcv_none(q):\n    x3 = v1",
    "method in an elif": "if v1:\n    x1 = v1\nelif w2.pcv_none(q):\n    x2 = v2\nelse:\n    x3 = v3",
    "method of a torch call": "x1 = torch.pcv_one(p).pcv_none(q)",
    "method and call in one line": "x1 = w1.pcv_none(torch.pcv_none(p))\nx2 = v1",
    "two annotations": "x1 = w1.pcv_none(p) + w2.pcv_anone\nx2 = v1",
    "converted only": "x1 = torch.pcv_one(p)\nx2 = w1.pcv_aone\nx3 = 'torch.x'",
    "alias": "import torch.nn as NN\nfrom torch import pcv_none as PN\nx1 = NN.pcv_unmapped(p)\nx2 = PN(p)\nx3 = 'NN.x'",
    "other torch packages": "import torchvision\nimport transformers as TF\nx1 = torchvision.pcv_unmapped(p)\nx2 = TF.pcv_unmapped(q)\nx3 = paddleformers.transformers.pcv_x\nx4 = my.torchvision.x",
    "other torch packages, from": "from torchvision.transforms import pcv_unmapped\nfrom transformers import pcv_other\nx1 = pcv_unmapped(p)\nx2 = pcv_other(q)",
    "package not imported": "x1 = timm.pcv_unmapped(p)\nx2 = kornia.x",
    "walrus, lambda, star": "if (x1 := torch.pcv_none(p)):\n    x2 = lambda a: torch.pcv_none(a)\nf1(*torch.pcv_none(p), **torch.pcv_none(q))",
    "comprehension": "x1 = [torch.pcv_none(a) for a in v1]\nx2 = {a: w1.pcv_none(a) for a in v1}",
    "continuation": "x1 = (v1 +\n    torch.pcv_none(p) +\n    v2)",
    "blank string statement": "''\nx1 = w1.pcv_none(p)\n''\nx2 = v1",
    "raw and prefixed strings": "x1 = r'\\'\nx2 = torch.pcv_none(p)\nx3 = R\"torch.a\"\nx4 = rb'torch.a'\nx5 = u'torch.a'".replace("r'\\'\n", "r'\\\\'\n"),
    "brackets in strings": "x1 = '((('\nx2 = torch.pcv_none(p)\nx3 = ')'",
    "hash in a string": "x1 = '#' + torch.pcv_none(p)\nx2 = '# torch.a'",
    "percent and braces": "x1 = '%s torch.a' % torch.pcv_none(p)\nx2 = '{} torch.a'.format(v1)",
    "unicode": "x1 = 'torch.\u00e9' + torch.pcv_none(p)\nx\u00e9torch = v1\nx2 = \u00e9torch.pcv_x",
}


def expected(text, pkgs):
    """line numbers of `text` that have to carry the marker; second set: may"""
    must, may = set(), set()
    fdepth = 0
    prev = None
    toks = [t for t in tokenize.generate_tokens(io.StringIO(text).readline)]
    for a, b in zip(toks, toks[1:]):
        if a.type == tokenize.NAME and a.string in pkgs and not (prev and prev.string == "." and prev.type == tokenize.OP) \
                and b.type == tokenize.OP and b.string == ".":
            (must if a.end[0] == b.start[0] else may).add(a.start[0])
        prev = a
    lines = text.split("\n")
    after = set()
    i = 0
    while i < len(lines):
        if lab.oracle_mark in lines[i]:
            j = i + 1
            while j < len(lines) and (not lines[j].strip() or lab.oracle_mark in lines[j]):
                j += 1
            if j < len(lines):
                after.add(j + 1)
            must.discard(i + 1)
            i = j
            continue
        i += 1
    return must, may, after


def strip(text):
    out, marked = [], set()
    for i, line in enumerate(text.split("\n"), 1):
        if line.startswith(">>>>>>"):
            marked.add(i)
            line = line[6:]
        out.append(line)
    return "\n".join(out), marked


def mjob(prog, j, thorough, st):
    key, src, fname, ctor, pkgs = j
    out, n = [], 0
    for p in lab.whole(prog, {"/w/x.py": src}, "/w/x.py", "/o/y.py", ctor=ctor, stats=st, formatter=FORMAT[fname], max_paths=8):
        if p.kind == "gap":
            continue
        n += 1
        if p.kind != "return":
            out.append(("exc", "the run raises %s" % p.exc))
            continue
        w = lab.written(p).get("/o/y.py", NotImplemented)
        stages = [kw["text"] for k, kw in p.events if k == "stage"]
        if w is NotImplemented or not stages:
            out.append(("missing", "no output is written"))
            continue
        if w is None:
            out.append(("undecided", "written text is not a constant"))
            continue
        body, marked = strip(w)
        if body.rstrip("\n") != stages[-1].rstrip("\n"):
            out.append(("text", "the text without markers is\n%s\nthe formatted text is\n%s" % (body, stages[-1])))
            continue
        try:
            must, may, after = expected(body, pkgs)
        except (tokenize.TokenError, SyntaxError) as ex:
            out.append(("undecided", "printed text does not tokenize: %s" % ex))
            continue
        L = [""] + body.split("\n")
        if ctor.get("only_complete"):
            must, after = set(), set()
        for i in sorted((must | after) - marked):
            # an annotation before decorators may mark the decorated line
            if i in after and L[i].lstrip().startswith("@"):
                k = i
                while L[k].lstrip().startswith("@"):
                    k += 1
                if k in marked or i in marked:
                    continue
            out.append(("unmarked", "line %r is not marked in\n%s" % (L[i], w)))
        for i in sorted(marked - must - may - after):
            k = i
            while k > 1 and L[k - 1].lstrip().startswith("@"):
                k -= 1
            if k in after and k != i:
                continue
            out.append(("marked", "line %r is marked in\n%s" % (L[i], w)))
    out = list(dict.fromkeys(out))
    out.append(("n", n))
    return out


WORD = {"exc": "the run raises", "missing": "no output", "text": "the marker pass changes other text",
        "unmarked": "an unconverted use is not flagged", "marked": "a line without an unconverted use is flagged"}


def mcases(thorough):
    out = []
    for n, s in LINES.items():
        src = "import torch\n" + s + "\n"
        tree = ast.parse(src)
        pk = set()
        for nd in ast.walk(tree):
            for nm in ([a.name for a in nd.names] if isinstance(nd, ast.Import) else [nd.module] if isinstance(nd, ast.ImportFrom) else []):
                pk.add(nm.split(".")[0])
        pk &= {"torch", "torchvision", "transformers"}
        for f in FORMAT:
            out.append((n, src, f, {}, pk))
        out.append((n + ", not formatted", src, "plain", {"no_format": True}, pk))
        if thorough or n in ("line start", "methods", "decorator", "in an f-string", "class"):
            out.append((n + ", only_complete", src, "plain", {"only_complete": True}, pk))
        if "@" not in s and "'''" not in s and '"""' not in s and "import" not in s:
            ind = "import torch\ndef f9():\n    try:\n        " + s.replace("\n", "\n        ") + "\n    except v9:\n        pass\n"
            out.append((n + ", indented", ind, "plain", {}, pk))
            if thorough:
                out.append((n + ", indented", ind, "blank line after the annotation", {}, pk))
    return out


def check(ctx):
    ctx.rule(RULE)
    ctx.rule(MARK)
    ctx.assumptions += ["the outcomes a matcher can have are represented by probe matchers added to the parsed text in memory",
                        "the printer and the formatters are modelled by ast.unparse and three layouts (as printed, a blank line after an annotation, broken lines)"]
    run(ctx, cases(ctx.thorough), KINDS, RULE, NAMES, 800)
    prog = lab.program()
    cs = mcases(ctx.thorough)
    res, st = sweep.parallel(prog, cs, mjob, ctx.thorough)
    ctx.coverage["whole_conversions"] = len(cs)
    ctx.analysed |= {"%s:%s" % f for f in st.funcs}
    ctx.coverage["paths_with_gap"] = ctx.coverage.get("paths_with_gap", 0) + st.gaps
    for k, n in st.gap_reasons.items():
        ctx.undecide("gap: " + k, n)
    where = anchors(prog, "mark_unsupport", "transfer_file")
    m = empty = 0
    for (key, src, fname, ctor, pk), out in res:
        n = 0
        for f in out:
            if f[0] == "error":
                raise NoVerdict("internal error on %s: %s" % (key, f[2]))
            if f[0] == "n":
                n = f[1]
            elif f[0] == "undecided":
                ctx.undecide(f[1])
            else:
                ctx.violation("line|%s|%s|%s" % (key, fname, f[0]), where, MARK, "%s (%s): for the module\n%s\n%s" % (WORD[f[0]], fname, src, f[1]))
        ctx.ob(n)
        m += n
        empty += not n
    if empty * 5 > len(cs):
        raise NoVerdict("%d of %d whole conversions could not be followed" % (empty, len(cs)))
    ctx.floor("marker_runs", m, 150)
