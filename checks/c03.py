"""C03: every recognised torch API use is counted once and settled once."""
import re

from pcv import apis, lab
from pcv.engine import show
from pcv.report import NoVerdict
from pcv.values import *  # noqa

from . import _driver, _sweep
from ._lab import BLOCK, DOTTED, EXPR, PROBE, at, inblock, put, run

RULE = ("per use: total +1 and exactly one of converted +1 / unsupported list +1, or no trace at all for a withdrawn use; "
        "the API list holds the uses of each API")
SUM = "the counts of a run are the sums over all files and stages; it returns (converted, total - converted) and reports these and their rate"
KINDS = {"count": "wrong counts", "unsup": "wrong list of unsupported APIs", "apis": "wrong list of APIs", "exc": "the transformers raise"}
NAMES = ("visit_Attribute", "visit_Call", "trans_class_attribute", "trans_class_method", "remove_api_count")
C = {"opaque": False}


def one(prog, j, thorough, st):
    out, n = [], 0
    for r in apis.records(prog, j[0], j[1], thorough, st):
        if r.kind != "return":
            continue
        n += 1
        e = r.path.engine
        un, al = lab.counts(e, r.unsup), lab.counts(e, r.apis)
        if r.total is None or r.success is None or un is None or al is None:
            out.append(("undecided", "counts are not constants"))
            continue
        s, a = sum(un.values()), sum(al.values())
        if (r.total, r.success, s, a) in ((1, 1, 0, 1), (1, 0, 1, 1)):
            if r.success == 0 and r.expr is not r.call:
                out.append(("bad", r.use.written(), "is rewritten although it is counted as not converted"))
            continue
        if (r.total, r.success, s) == (0, 0, 0) and a == 0:
            if r.expr is not r.call:
                out.append(("bad", r.use.written(), "is rewritten although it is withdrawn from the counts"))
            continue
        out.append(("bad", r.use.written(), "total %s, converted %s, unsupported list %s, API list %s" % (r.total, r.success, un, al)))
    out = list(dict.fromkeys(out))
    out.append(("n", n))
    return out


MIX = {
    "same API twice": "x1 = torch.pcv_one(p)\nx2 = torch.pcv_one(q)",
    "same API, converted and not": "x1 = torch.pcv_hoist(p, t1)\nx2 = lambda: torch.pcv_hoist(q, t2)",
    "same API, not converted twice": "x1 = torch.pcv_none(p)\nx2 = torch.pcv_none(q)",
    "same method twice": "x1 = w1.pcv_none(p)\nx2 = w2.pcv_none(q)",
    "method and call": "x1 = w1.pcv_one(p)\nx2 = torch.pcv_one(q)",
    "method and call, not converted": "x1 = w1.pcv_none(p)\nx2 = torch.pcv_none(q)",
    "withdrawn and converted": "x1 = torch.pcv_mis(p)\nx2 = torch.pcv_one(q)\nx3 = torch.pcv_mis(p)",
    "withdrawn attribute and converted": "x1 = w1.pcv_amis\nx2 = w2.pcv_aone\nx3 = w3.pcv_amis",
    "withdrawn method and converted": "x1 = w1.pcv_mis(p)\nx2 = w2.pcv_one(p)\nx3 = w3.pcv_mis(p)",
    "withdrawn package attribute": "x1 = torch.pcv_pmis\nx2 = torch.pcv_pone\nx3 = torch.pcv_pmis",
    "nested": "x1 = torch.pcv_one(torch.pcv_one(torch.pcv_none(p)))",
    "nested methods": "x1 = w1.pcv_one(w2.pcv_one(w3.pcv_none(p)))",
    "not converted around converted": "x1 = torch.pcv_none(torch.pcv_one(p))",
    "withdrawn around converted": "x1 = torch.pcv_mis(torch.pcv_one(p))",
    "unchanged around converted": "x1 = torch.pcv_same(torch.pcv_one(p))",
    "hoist around not converted": "x1 = torch.pcv_hoist(torch.pcv_none(p), t1)",
    "deleted around converted": "torch.pcv_delete(v1)\nx1 = torch.pcv_one(p)",
    "deleted in an expression": "x1 = torch.pcv_delete(v1)\nx2 = w1.pcv_delete(v2)\nx3 = w2.pcv_adelete",
    "every call outcome": "\n".join("x%d = %s" % (i, s) for i, (k, s) in enumerate(PROBE.items()) if k.startswith("call")),
    "every method outcome": "\n".join("x%d = %s" % (i, s) for i, (k, s) in enumerate(PROBE.items()) if k.startswith("method")),
    "every attribute outcome": "\n".join("x%d = %s" % (i, s) for i, (k, s) in enumerate(PROBE.items()) if k.startswith("attr")),
    "every package attribute outcome": "\n".join("x%d = %s" % (i, s) for i, (k, s) in enumerate(PROBE.items()) if k.startswith("pack")),
    "every statement outcome": "\n".join(s for k, s in PROBE.items()),
    "chained methods": "x1 = w1.pcv_one(p).pcv_one(q)",
    "attribute of a call": "x1 = torch.pcv_one(p).pcv_aone",
    "method of an attribute": "x1 = w1.pcv_aone.pcv_user(p)",
    "call in a default": "def f1(a=torch.pcv_one(p), b=torch.pcv_pone):\n    return torch.pcv_none(a)",
    "class and methods": "class C1(torch.pcv_pone):\n    x1 = torch.pcv_none(p)\n    def f1(self):\n        return torch.pcv_one(self)",
}


def cases(thorough):
    out = []
    for n, s in MIX.items():
        out.append((n, "import torch\n" + s, C))
        if "x4" not in s or thorough:
            out.append((n + ", imported names", "from torch import pcv_one, pcv_none\nimport torch as T\n" + s.replace("torch.", "T."), C))
            out.append((n + ", in a function", "import torch\ndef f9():\n    " + s.replace("\n", "\n    "), C))
    for pos in EXPR:
        for pr, s in PROBE.items():
            if pr.startswith("user") or pr.startswith("package") and pos in DOTTED:
                continue
            if not thorough and pr in ("call, hoisted statements", "attribute, hoisted statements", "method, statement result") and False:
                continue
            out.append(("%s at %s" % (pr, pos), at(pos, s), C))
    for b in BLOCK:
        for pr, s in PROBE.items():
            if not pr.startswith("user"):
                out.append(("%s in %s" % (pr, b), inblock(b, s if "deleted" in pr else "x9 = " + s), C))
    return out


def driver(ctx):
    ctx.rule(SUM)
    S = [_driver.Sc("one file", "/w/x.py", "/o/y.py", ["/w/x.py"]),
         _driver.Sc("folder of files", "/w/in", "/o", _driver.tree("/w/in", ["a.py", "b/c.py", "b/d.py", "b/e/f.py", "z.txt"])),
         _driver.Sc("nothing to convert", "/w/in", "/o", ["/w/in/z.txt"])]
    more = []
    for s in S:
        for o in ({"log_markdown": True}, {"show_all_api": True}, {"no_format": True, "only_complete": True}, {"mode": "min"}):
            more.append(_driver.Sc(s.name + ", " + ", ".join(o), s.inp, s.out, list(p for p, k in s.fs.kind.items() if k == "file"), ctor=o))
    n = 0
    for sc in S + more:
        paths = _driver.run_paths(ctx, sc, weights=True)
        for p in paths:
            if p.kind == "gap":
                continue
            if p.kind != "return":
                ctx.violation("driver|%s|raises" % sc.name, "paconvert/converter.py Converter.run", SUM, "%s: the run raises %s" % (sc.name, p.exc))
                continue
            tot = sum(kw["weight"][0] for k, kw in p.events if k == "transform")
            ok = sum(kw["weight"][1] for k, kw in p.events if k == "transform")
            n += 1
            ctx.ob()
            v = norm(p.value)
            v = v.items if isinstance(v, AList) else v
            got = tuple(lab.num(x) for x in v) if isinstance(v, (tuple, list)) else None
            if got is None or None in got:
                ctx.undecide("returned value is not a constant pair")
            elif got != (ok, tot - ok):
                ctx.violation("driver|%s|returned" % sc.name, "paconvert/converter.py Converter.run", SUM,
                              "%s: returns %s, the stages counted converted %d of %d" % (sc.name, got, ok, tot))
            rate = ok / tot if tot else 0.0
            text = " ".join(show(kw["text"]) for k, kw in p.events if k == "msg" and kw["level"] == "log_warning")
            for what, want in (("total", str(tot)), ("converted", str(ok)), ("not converted", str(tot - ok)), ("rate", "%.2f%%" % (100 * rate))):
                if not re.search(r"(?<![\d.])" + re.escape(want) + r"(?![\d])", text):
                    ctx.violation("driver|%s|reported %s" % (sc.name, what), "paconvert/converter.py Converter.run", SUM,
                                  "%s: the summary does not report %s = %s" % (sc.name, what, want))
    ctx.floor("driver_runs", n, 10)


def check(ctx):
    ctx.rule(RULE)
    ctx.assumptions += ["the outcomes a matcher can have are represented by probe matchers added to the parsed text in memory"]
    driver(ctx)
    run(ctx, cases(ctx.thorough), KINDS, RULE, NAMES, 1500)
    m = 0
    for (api, table), f in _sweep.run(ctx, one):
        if f[0] == "n":
            ctx.ob(f[1])
            m += f[1]
        elif f[0] == "undecided":
            ctx.undecide(f[1])
        else:
            ctx.violation("%s|settled" % api, _sweep.where(ctx.prog, api, table), RULE, "%s %s" % (f[1], f[2]))
    ctx.floor("uses_settled", m, 20000)
