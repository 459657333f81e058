"""C15: UTF-8 in and out, written when complete, formatting can only help."""
import ast

from pcv import fsworld
from pcv.values import *  # noqa
from . import _driver
from ._driver import loc

RULE = ("every text-mode open of the package names UTF-8; in abstract runs (any formatter may fail, any file may not parse) an "
        "output file is opened for writing only after its text is complete, is written once with the text of the last step "
        "that succeeded (converted, formatted where formatting worked, marked), and nothing else is lost or written")
UTF8 = {"utf-8", "utf8", "utf_8", "u8"}
WORK = ("parse", "unparse", "transform", "format", "mark", "read")
FS_CALLS = {"open", "io.open", "codecs.open", "os.open", "os.fdopen"}


def is_utf8(v):
    return isinstance(v, str) and v.lower() in UTF8


def lint(ctx):
    """text opens of the whole package"""
    n = 0
    for m in ctx.prog.modules.values():
        for node in ast.walk(m.tree):
            if not isinstance(node, ast.Call):
                continue
            f = node.func
            name = f.id if isinstance(f, ast.Name) else (ast.unparse(f) if isinstance(f, ast.Attribute) else "")
            kw = {k.arg: k.value for k in node.keywords}
            if name in ("open", "io.open", "codecs.open"):
                mode = kw.get("mode", node.args[1] if len(node.args) > 1 else ast.Constant("r"))
                if isinstance(mode, ast.Constant) and isinstance(mode.value, str) and "b" in mode.value:
                    continue
                i = 2 if name == "codecs.open" else 3
                enc = kw.get("encoding", node.args[i] if len(node.args) > i else None)
                n += 1
            elif isinstance(f, ast.Attribute) and f.attr in ("read_text", "write_text"):
                i = 0 if f.attr == "read_text" else 1
                enc = kw.get("encoding", node.args[i] if len(node.args) > i else None)
                n += 1
            else:
                continue
            ctx.ob()
            if enc is None:
                bad = "no encoding: the locale decides"
            elif isinstance(enc, ast.Constant) and not is_utf8(enc.value):
                bad = "encoding %r" % (enc.value,)
            else:
                bad = None  # a computed encoding is judged by the abstract runs
            if bad:
                fn = enclosing(m.tree, node)
                ctx.violation("open|%s|%s" % (m.rel, fn), "%s:%d %s" % (m.rel, node.lineno, fn), "UTF-8", "%s opened with %s" % (ast.unparse(node)[:80], bad))
    ctx.floor("text_opens", n, 5)


def enclosing(tree, node):
    best = "<module>"
    for x in ast.walk(tree):
        if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)) and x.lineno <= node.lineno <= x.end_lineno:
            best = x.name
    return best


def check(ctx):
    ctx.rule(RULE)
    lint(ctx)
    V = ctx.violation
    S = [
        _driver.Sc("one file", "/w/x.py", "/o/y.py", ["/w/x.py"]),
        _driver.Sc("one file, not formatted", "/w/x.py", "/o/y.py", ["/w/x.py"], ctor={"no_format": True}),
        _driver.Sc("one file, minimal mode", "/w/x.py", "/o/y.py", ["/w/x.py"], ctor={"mode": "min"}),
        _driver.Sc("one file, completed only", "/w/x.py", "/o/y.py", ["/w/x.py"], ctor={"only_complete": True}),
        _driver.Sc("one file, speed", "/w/x.py", "/o/y.py", ["/w/x.py"], ctor={"calculate_speed": True}),
        _driver.Sc("folder", "/w/in", "/o", ["/w/in/a.py", "/w/in/b/c.py", "/w/in/requirements.txt", "/w/in/d.bin"]),
    ]
    n = 0
    for sc in S:
        for helpers in (False, True):
            for p in _driver.run_paths(ctx, sc, max_paths=1500 if ctx.thorough else 300, parse_may_fail=True, format_may_fail=True,
                                       helpers_used=helpers, atomic_text=True):
                if p.kind == "gap":
                    continue
                n += 1
                ctx.ob(3)
                one(ctx, sc, p, helpers)
    _driver.gap_guard(ctx)
    ctx.floor("driver_runs", n, 60)


def one(ctx, sc, p, helpers):
    V = ctx.violation
    trace = ["%s = %s" % (d[0], d[1]) for d in p.decisions]
    ev = p.events
    if p.kind == "raise" and p.exc.name != "SyntaxError":
        V("raises|%s" % p.exc.name, "%s:%s %s" % (p.exc.loc or ("?", 0, "?")), "formatting can only help", "%s: %s escapes" % (sc.name, p.exc), trace)
    openw = {}
    writes = {}
    for i, (k, kw) in enumerate(ev):
        if k in ("read", "truncate", "openwrite") and "b" not in str(kw.get("mode")) and kw.get("mode") != "copy":
            if not is_utf8(norm(kw.get("encoding"))):
                V("encoding|%s" % loc(kw).split(" ")[-1], loc(kw), "UTF-8", "%s: %s opened with encoding %s" % (sc.name, kw["path"], show(kw.get("encoding"))), trace)
        if k in ("truncate", "openwrite"):
            openw[kw["path"]] = i
            writes.setdefault(kw["path"], [])
        elif k == "write" and kw["mode"] not in ("copy", "rename"):
            q = kw["path"]
            writes.setdefault(q, []).append((i, kw))
            if q in openw:
                between = [x for x, y in ev[openw[q] + 1 : i] if x in WORK]
                if between:
                    V("early open|%s" % loc(kw).split(" ")[-1], loc(ev[openw[q]][1]), "written when complete",
                      "%s: %s is opened for writing before %s: a failure there leaves it truncated" % (sc.name, q, between[0]), trace)
    if p.kind == "raise":
        for q, i in openw.items():
            if not writes.get(q):
                V("truncated|%s" % sc.name, loc(ev[i][1]), "written when complete", "%s: %s is truncated and the conversion then fails (%s)" % (sc.name, q, p.exc), trace)
    # the text written
    fin = {}
    for q, ws in writes.items():
        for i, kw in ws:
            fin.setdefault(q, []).append((i, kw))
    for q, ws in fin.items():
        for i, kw in ws:
            pr = prov_of(kw["content"])
            if "helper" in pr or (q.endswith("paddle_utils.py")):
                hf = [(k, y) for k, y in ev[:i] if k in ("format", "format_failed") and "helper" in prov_of(y["code"])]
                if not any(x.startswith("conv:") for x in pr) and not q.endswith("paddle_utils.py"):
                    V("helper loses program", loc(kw), "converted program written", "%s: adding the helper code drops the converted text of %s" % (sc.name, q), trace)
                if "helper" not in pr:
                    V("helper lost", loc(kw), "helper text", "%s: the helper file is written without the helper code" % sc.name, trace)
                continue
            conv = [x for x in pr if x.startswith("conv:")]
            if not conv:
                continue
            src = conv[0][5:]
            worked = {}
            for k, y in ev[:i]:
                if k == "format" and conv[0] in prov_of(y["code"]) and "helper" not in prov_of(y["code"]):
                    worked[y["tool"]] = True
                if k == "format_failed" and conv[0] in prov_of(y["code"]) and "helper" not in prov_of(y["code"]):
                    worked[y["tool"]] = False
            for t, ok in worked.items():
                if ok and "fmt:" + t not in pr:
                    V("format lost|%s" % t, loc(kw), "formatting kept", "%s: the result of %s is thrown away" % (sc.name, t), trace)
            if sc.ctor.get("no_format") and worked:
                V("formatted anyway", loc(kw), "no_format", "%s: formatted although formatting is off" % sc.name, trace)
            if not sc.ctor.get("no_format") and set(worked) != {"black", "isort"}:
                V("not formatted|%s" % "+".join(sorted(worked)), loc(kw), "formatting", "%s: %s: only %s was tried" % (sc.name, src, sorted(worked)), trace)
            if not sc.ctor.get("only_complete") and "marked" not in pr:
                V("mark lost", loc(kw), "marks kept", "%s: the text of %s is written without its marks" % (sc.name, src), trace)
        prog_w = [kw for i, kw in ws if "helper" not in prov_of(kw["content"])]
        if len(prog_w) > 1:
            V("pieces|%s" % sc.name, loc(prog_w[1]), "written once", "%s: %s is written in %d pieces" % (sc.name, q, len(prog_w)), trace)
    if p.kind == "return":
        for k, y in ev:
            if k == "unparse":
                src = y["path"]
                if not any("conv:" + src in prov_of(kw["content"]) for ws in fin.values() for i, kw in ws):
                    V("not written|%s" % sc.name, "paconvert/converter.py", "converted program written", "%s: the converted text of %s is never written" % (sc.name, src), trace)
    if len(ctx.samples) < 6:
        ctx.sample({"scenario": sc.name, "decisions": trace[:6], "written": {q: show(ws[-1][1]["content"])[:80] for q, ws in fin.items() if ws}})
