"""C17: minimal mode leaves compatible APIs and imports as they are."""
import ast
import re

from pcv import lab, sweep
from pcv.report import NoVerdict

from . import _positions, _sweep

KEEP = "minimal mode: a use of an API that only needs a new prefix, and its import, stay as written and are not flagged"
SAME = "minimal mode: every other API is converted or flagged as in default mode"
NONE = "default mode: no torch import and no prefix-only API survives"
FAIL = "both modes complete"
PREFIX = "ChangePrefixMatcher"
MARK = ">>>>>>"
CLASS = sweep.CLASS_PREFIXES


class View:
    """statements of an output file, which of them are flagged, and its imports"""

    def __init__(self, text):
        # the annotation of a decorator is printed as a decorator of its own
        text = re.sub(r"(?m)^\s*@\n\s*'Not Support auto convert .*\n", "", text)
        lines = text.split("\n")
        self.flagged = [i + 1 for i, l in enumerate(lines) if l.startswith(MARK)]
        self.tree = ast.parse("\n".join(l[len(MARK):] if l.startswith(MARK) else l for l in lines))
        self.text = text

    def imports(self):
        """(module, name, asname) of every import, with multiplicity"""
        out = []
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Import):
                out += [(None, a.name, a.asname) for a in n.names]
            elif isinstance(n, ast.ImportFrom):
                out += [(n.module, a.name, a.asname) for a in n.names]
        return out

    def code(self, drop):
        """the tree without the imports drop() accepts"""

        class D(ast.NodeTransformer):
            def visit_Import(self, n):
                n.names = [a for a in n.names if not drop(None, a.name)]
                return n if n.names else None

            def visit_ImportFrom(self, n):
                return None if drop(n.module, n.names[0].name) else n

        t = D().visit(ast.parse(ast.unparse(self.tree)))
        for n in ast.walk(t):
            for f in ("body", "orelse", "finalbody"):
                b = getattr(n, f, None)
                if isinstance(b, list):
                    k = [s for s in b if not isinstance(s, ast.Pass)]
                    setattr(n, f, k)
        return re.sub(r"pcv_u\d+|\b(\w+_)[0-9a-f]{8,}\b", r"\1#", ast.dump(t))


def root(x):
    return (x or "").split(".")[0]


def convert(prog, srcs, mode, st):
    """name -> text of the converted file | None, or an exception text"""
    src = {"/w/%s" % k: v for k, v in srcs.items()}
    got = None
    for p in lab.whole(prog, src, "/w", "/o", {"mode": mode, "no_format": True}, stats=st, max_paths=20):
        if p.kind == "gap":
            continue
        if p.kind != "return":
            return str(p.exc)[:300]
        w = lab.written(p)
        d = {k: next((t for f, t in w.items() if str(f) == "/o/" + k), None) for k in srcs}
        if got is None:
            got = d
        else:
            got = {k: (v if d.get(k) == v else None) for k, v in got.items()}
    return got


def run_files(prog, srcs, mode, st):
    """like convert(), file by file where the whole folder does not complete"""
    r = convert(prog, srcs, mode, st)
    if isinstance(r, dict):
        return r
    if len(srcs) == 1:
        return {k: (None if r is None else Exception(r)) for k in srcs}
    ks = sorted(srcs)
    h = len(ks) // 2
    out = run_files(prog, {k: srcs[k] for k in ks[:h]}, mode, st)
    out.update(run_files(prog, {k: srcs[k] for k in ks[h:]}, mode, st))
    return out


def cheap(cases):
    """quick tier: the default mode is compared on every third program only"""
    return {k for i, (k, s, keep) in enumerate(cases) if i % 3 == 0}


def job(prog, cases, thorough, st):
    """cases: (file, source, is it only prefix-only APIs?)"""
    torch = set(prog.packages)
    srcs = {k: s for k, s, _ in cases}
    a = run_files(prog, srcs, "min", st)
    both = {k for k, s, keep in cases if thorough or keep is not True or k in cheap(cases)}
    b = run_files(prog, {k: srcs[k] for k in both}, "default", st) if both else {}
    out = []
    for k, src, keep in cases:
        x, y = a.get(k), b.get(k)
        n = 0
        for m, v in (("min", x), ("default", y)):
            if isinstance(v, Exception) and keep:
                out.append((k, FAIL, "%s mode raises %s" % (m, v)))
        try:
            x = View(x) if isinstance(x, str) else None
            y = View(y) if isinstance(y, str) else None
        except SyntaxError as e:
            out.append((k, FAIL, "the output does not parse: %s" % e))
            continue
        if x is None or y is None and k in both:
            if not isinstance(a.get(k), Exception):
                out.append((k, "undecided", ""))
            continue
        want = View(src)
        i1, i2 = want.imports(), x.imports()
        lost = [i for i in i1 if i not in i2 and root(i[0] or i[1]) in torch]
        if lost:
            out.append((k, KEEP, "the import of %s is lost" % (lost[0],)))
        surv = [i for i in (y.imports() if y else ()) if root(i[0] or i[1]) in torch]
        if surv:
            out.append((k, NONE, "the import of %s survives" % (surv[0],)))

        def added(m, name):
            return root(m or name) in prog.paddles and (m, name) not in {(p, q) for p, q, _ in i1}

        def anyimp(m, name):
            return True

        if keep:
            if x.flagged:
                out.append((k, KEEP, "line %r is flagged" % x.text.split("\n")[x.flagged[0] - 1]))
            elif x.code(added) != want.code(added):
                out.append((k, KEEP, "the code becomes %r" % x.text))
            if "from torch import torch\n" in src:
                y = None  # the name of the package stands for a name in it
            if y is not None and y.flagged:
                out.append((k, NONE, "line %r is flagged in default mode" % y.text.split("\n")[y.flagged[0] - 1]))
            for nd in ast.walk(y.tree) if y is not None else ():
                if isinstance(nd, ast.Name) and nd.id in torch and nd.id not in ("datasets",):
                    out.append((k, NONE, "%r still uses %s" % (y.text, nd.id)))
                    break
        elif keep is False:
            if [y.text.split("\n")[i - 1] for i in y.flagged] != [x.text.split("\n")[i - 1] for i in x.flagged]:
                out.append((k, SAME, "flagged in minimal mode %r, in default mode %r" % ([x.text.split("\n")[i - 1] for i in x.flagged], [y.text.split("\n")[i - 1] for i in y.flagged])))
            elif x.code(anyimp) != y.code(anyimp):
                out.append((k, SAME, "minimal mode gives %r, default mode %r" % (x.text, y.text)))
        out.append((k, "n", ""))
    return out


def kinds(prog):
    """api -> (table, prefix-only?) of everything the tables know"""
    T = prog.tables
    out = {}
    for t in ("api_mapping", "attribute_mapping"):
        for k, m in T[t].items():
            if not m.get("Matcher") or "disable" in m or k in out or "pcv_" in k:
                continue
            out[k] = (t, m["Matcher"] == PREFIX)
    for k, v in T.get("api_alias_mapping", {}).items():
        if k not in out and v in out:
            out[k] = (out[v][0], out[v][1])
    return out


def api_sources(prog, api, table, keep, thorough):
    """style -> source that uses the API"""
    m = prog.tables[table].get(prog.tables.get("api_alias_mapping", {}).get(api, api), {})
    n = m.get("min_input_args")
    n = max(n if isinstance(n, int) else 1, 1)
    args = ["z%d" % i for i in range(1, n + 1)]
    call = "(%s)" % ", ".join(args) if table == "api_mapping" else ""
    pk, last = api.rsplit(".", 1) if "." in api else ("", api)
    cls = api.startswith(CLASS)
    out = {}
    if cls:
        rest = "(%s)" % ", ".join(args[1:] if keep is False else args) if call else ""
        if api.startswith("torch.Tensor."):
            more = "w = z0.%s(z1, k1=z2)\nz0.%s()\n" % (last, last) if call and keep else ""
            out["method"] = "import torch\nq = z0.%s%s\n%s" % (last, rest, more)
        return out
    if not pk:
        return out
    rest = ""
    if keep:
        rest = "%s()\nw = %s(z1, k1=z2)\n" % (api, api) if call else ""
        rest += "r = v2(%s, v3)\n" % api
    out["full name"] = "import %s\nq = %s%s\n%s" % (root(api), api, call, rest)
    styles = [("module alias", "import %s as pcv_m\nq = pcv_m.%s%s\n" % (pk, last, call)),
              ("from", "from %s import %s\nq = %s%s\n" % (pk, last, last, call)),
              ("from as", "from %s import %s as pcv_n\nq = pcv_n%s\n" % (pk, last, call))]
    if "." in pk:
        a, b = pk.rsplit(".", 1)
        styles.append(("from package", "from %s import %s\nq = %s.%s%s\n" % (a, b, b, last, call)))
        styles.append(("package import", "import %s\nq = %s%s\n" % (pk, api, call)))
    n = sum(map(ord, api)) % len(styles)
    k = len(styles) if thorough else 2 if keep else 1
    out.update((styles + styles)[n:n + k])
    return out


def position_cases(prog, K, thorough):
    """(key, source, keep) of a prefix-only use in every position and block"""
    def pick(pred):
        for k in sorted(K):
            if K[k][1] and pred(k):
                return k
        raise NoVerdict("no suitable prefix-only API")

    f1 = pick(lambda k: K[k][0] == "api_mapping" and k == "torch.abs") if "torch.abs" in K and K["torch.abs"][1] else pick(lambda k: K[k][0] == "api_mapping" and k.count(".") == 1)
    f2 = pick(lambda k: K[k][0] == "api_mapping" and k.startswith("torch.nn.") and k.count(".") == 2 and k.split(".")[2][0].isupper())
    f3 = pick(lambda k: K[k][0] == "api_mapping" and k.startswith("torch.nn.functional."))
    at = pick(lambda k: K[k][0] == "attribute_mapping" and k.count(".") == 1 and "_" not in k)
    al = pick(lambda k: k in prog.tables.get("api_alias_mapping", {}) and K[k][0] == "api_mapping" and k.count(".") == 1 and not k.startswith(CLASS))
    n1, n2, n3, n4 = (x.rsplit(".", 1)[1] for x in (f1, f2, f3, at))
    forms = {
        "call": ("import torch", "%s(z9)" % f1),
        "class": ("import torch.nn as nn", "nn.%s" % n2),
        "class call": ("import torch.nn as nn", "nn.%s(z9)" % n2),
        "alias import": ("import torch as th", "th.%s(z9)" % n1),
        "from": ("from torch import %s" % n1, "%s(z9)" % n1),
        "from, value": ("from torch.nn import %s" % n2, n2),
        "from as": ("from torch.nn.functional import %s as pcv_n" % n3, "pcv_n(z9)"),
        "sub package": ("from torch.nn import functional as F", "F.%s(z9)" % n3),
        "full path": ("import torch.nn.functional", "%s(z9)" % f3),
        "value": ("import torch", f1),
        "attribute": ("import torch", at),
        "from attribute": ("from torch import %s" % n4, n4),
        "alias": ("import torch", "%s(z9)" % al),
        "nested": ("import torch\nimport torch.nn.functional as F", "%s(F.%s(z8), k1=th9[%s])" % (f1, n3, at)),
        "method": ("import torch", "z8.%s(z9)" % n1),
    }
    out = []
    for pos, (tpl, kind) in _positions.EXPR.items():
        if "torch." in tpl:
            continue
        for form, (imp, use) in forms.items():
            keep = True
            if "(" not in use and re.search(r"\bP\.", tpl) and (pos != "Assign.target.Attribute.value" or "attribute" in form):
                keep = None  # a longer name: another API
            if "attribute" in form and re.search(r"\bP\(", tpl) or form == "attribute" and keep is None:
                continue
            out.append(("%s|%s" % (form, pos), imp + "\n" + _positions.put(tpl, "P", use) + "\n", keep))
    for blk, tpl in _positions.BLOCK.items():
        for form, (imp, use) in forms.items():
            out.append(("%s|use in %s" % (form, blk), imp + "\n" + _positions.put(tpl, "S", "q1 = %s" % use) + "\n", True))
            out.append(("%s|import in %s" % (form, blk), _positions.put(tpl, "S", imp + "\nq1 = %s" % use) + "\n", True))
            out.append(("%s|import alone in %s" % (form, blk), _positions.put(tpl, "S", imp) + "\nq1 = %s\n" % use, True))
    # the other APIs, and both kinds together
    mixed = {
        "several imports": "import torch, numpy\nfrom torch import nn, optim as op\nq = %s(z1)\nw = nn.%s(z2)\n" % (f1, n2),
        "comment-like string": "import torch\nq = %s('torch.nosuch(1)')\n" % f1,
        "line break": "import torch\nq = (%s(z1)\n     .reshape(2))\n" % f1,
        "docstring": "'''torch.nosuch'''\nimport torch\nq = %s(z1)\n" % f1,
        "two names": "import torch\nq = %s(z1) + %s(z2)\n" % (f1, f3),
        "longer name": "import torch\nq = v1(torch_x.%s, %s)\n" % (n1, f1),
    }
    mixed.update({
        "own name": "import torch\nm1 = %s\nq = m1(z1)\n" % f1,
        "own name of an imported name": "from torch import %s\nm1 = %s\nq = m1(m1(z1))\n" % (n1, n1),
        "own name of a module": "import torch.nn.functional as F\nm1 = F.%s\nq = v1(m1(z1))\n" % n3,
        "partial": "import torch\nfrom functools import partial\nq = partial(%s, k1=z1)\nw = isinstance(z1, %s)\nhasattr(%s, 'x')\n" % (f1, at, f2),
    })
    for k, s in mixed.items():
        out.append(("mixed|" + k, s, True))
    for k, s in {
        "own name": "import torch\nm1 = torch.pcv_one\nq = m1(z1)\n",
        "own name of an imported name": "from torch import pcv_one\nm1 = pcv_one\nq = m1(m1(z1))\n",
        "own name, unmapped": "from torch import pcv_unmapped as u\nm1 = u\nq = m1(z1)\n",
    }.items():
        out.append(("mixed other|" + k, s, False))
    for pos, (tpl, kind) in _positions.EXPR.items():
        if "torch." in tpl:
            continue
        for form, imp, use in (("unmapped", "import torch", "torch.pcv_unmapped(z9)"), ("unmapped from", "from torch import pcv_unmapped as u", "u(z9)"),
                               ("converted", "import torch", "torch.pcv_one(z9)"), ("converted alias", "import torch as th", "th.pcv_one(z9)"),
                               ("unsupported method", "import torch", "z8.pcv_none(z9)")):
            out.append(("%s|%s" % (form, pos), imp + "\n" + _positions.put(tpl, "P", use) + "\n", False))
    return out, (f1, f3)


def mixed_line(prog, f1, f3, ctx, st):
    """a flagged API is flagged although a prefix-only one stands beside it"""
    cases = {
        "same line": ("import torch\nq = %s(torch.pcv_unmapped(z1))\n" % f1, [True]),
        "same line, after": ("import torch\nq = torch.pcv_unmapped(%s(z1))\n" % f1, [True]),
        "longer name": ("import torch\nq = %s_pcvx(z1)\nw = %s(z1)\n" % (f1, f1), [True, False]),
        "name in a longer path": ("import torch\nq = torch.pcvx.%s(z1)\nw = %s(z1)\n" % (f1, f1), [True, False]),
        "longer path": ("import torch\nq = %s.pcvx(z1)\nw = %s(z2)\n" % (f1, f1), None),
        "two lines": ("import torch\nq = %s(z1)\nw = torch.pcv_unmapped(z1)\n" % f1, [False, True]),
        "converted around": ("import torch\nq = torch.pcv_one(%s(z1))\n" % f1, [False]),
        "converted within": ("import torch\nq = %s(torch.pcv_one(z1))\n" % f1, [False]),
        "other file": ("import torch\nq = torch.nn.pcv_unmapped(z1)\n", [True]),
    }
    got = run_files(prog, {"m%d.py" % i: s for i, (s, w) in enumerate(cases.values())}, "min", st)
    for i, (k, (s, w)) in enumerate(cases.items()):
        t = got.get("m%d.py" % i)
        if not isinstance(t, str):
            ctx.undecide("mixed line " + k)
            continue
        ctx.ob(1)
        if w is None:
            continue
        ls = [l for l in t.split("\n") if re.match(r"(%s)?[qw] = " % MARK, l)]
        if [l.startswith(MARK) for l in ls] != w:
            ctx.violation("flag|" + k, ctx.pcv_where, SAME if any(w) else KEEP, "%r becomes %r" % (s, t))
        if "converted" in k and ("paddle.pcv_one" not in t or f1 not in t):
            ctx.violation("beside|" + k, ctx.pcv_where, KEEP, "%r becomes %r" % (s, t))


def check(ctx):
    for r in (KEEP, SAME, NONE, FAIL):
        ctx.rule(r)
    prog = lab.program()
    gm = prog.find_class("GlobalManager")
    prog.packages, prog.paddles = packages(prog, gm)
    K = kinds(prog)
    ctx.floor("known_apis", len(K), 1500)
    ctx.floor("prefix_only_apis", sum(1 for v in K.values() if v[1]), 500)
    c = prog.find_class("BaseTransformer")
    ctx.pcv_where = "%s:%d class %s" % (c.module.rel, c.node.lineno, c.name) if c else "paconvert"
    cases, names = [], {}
    for api in sorted(K):
        table, keep = K[api]
        for style, src in api_sources(prog, api, table, keep, ctx.thorough).items():
            cases.append(("%s|%s" % (api, style), src, keep))
    napi = len(cases)
    pos, (f1, f3) = position_cases(prog, K, ctx.thorough)
    cases += pos
    jobs, size = [], 24
    for i in range(0, len(cases), size):
        js = []
        for j, (key, src, keep) in enumerate(cases[i:i + size]):
            f = "f%05d.py" % (i + j)
            names[f] = key
            try:
                ast.parse(src)
            except SyntaxError:
                continue
            js.append((f, src, keep))
        jobs.append(tuple(js))
    srcs = {f: s for js in jobs for f, s, _ in js}
    res, st = sweep.parallel(prog, jobs, job, ctx.thorough)
    ctx.coverage["abstract_paths"] = st.paths
    ctx.coverage["programs"] = len(cases)
    ctx.analysed |= {"%s:%s" % f for f in st.funcs}
    for k, n in st.gap_reasons.items():
        ctx.undecide("gap: " + k, n)
    n = 0
    for _, out in res:
        for f in out:
            if f[0] == "error":
                raise NoVerdict("internal error: %s" % f[2])
            k, rule, why = f
            if rule == "n":
                n += 1
                ctx.ob(1)
            elif rule == "undecided":
                ctx.undecide("no constant output")
            else:
                key = names[k]
                api = key.split("|")[0]
                w = _sweep.where(prog, api, K[api][0]) if api in K else ctx.pcv_where
                ctx.violation("%s|%s" % (key, rule.split(":")[0]), w, rule, "%r: %s" % (srcs[k], why))
    ctx.floor("programs_decided", n, 5000)
    mixed_line(prog, f1, f3, ctx, st)


def packages(prog, gm):
    for n in gm.node.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "TORCH_PACKAGE_MAPPING":
            d = ast.literal_eval(n.value)
            return sorted(d), {root(v) for v in d.values()} | {"paddle"}
    raise NoVerdict("no table of torch packages")
