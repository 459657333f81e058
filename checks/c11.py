"""C11: conversion output is deterministic."""
from pcv import apis, cli, engine, lab, state, sweep
from pcv.report import NoVerdict
from pcv.values import *  # noqa

from . import _sweep, c10
from ._lab import anchors

RULE = "two runs over the same input that differ only in hash seed, directory enumeration order, clock, process and random values do the same"
SOURCES = "no file, count or message depends on a value of the clock, the process or a random source"

MULTI = ("import os\nimport einops\nimport torch\nimport torchvision\nimport torchaudio\nimport transformers\nimport audiotools\nfrom torch import nn, float32\nimport torch.nn.functional as F\n"
         "import numpy as np, collections, re\nx = F.relu(torch.abs(y).max(1))\nz = nn.Linear(1, 2, dtype=float32)\nu = torch.index_copy(x, 0, i, s)\n"
         "os.makedirs(p)\neinops.rearrange(x, q)\nv = torch.pcv_unmapped(torch.pcv_other(x.pcv_none()))\nnp.abs(x)\n")
TREE = {"b/z.py": "import torch\nx = torch.index_copy(x, 0, i, s)\nw = y.min(2)\n", "b/a.py": "import torch\nx = torch.index_copy(x, 0, i, s)\nw = y.max(2)\n",
        "a.py": MULTI, "z.txt": None, "c/k.py": "import torch as T\nu = T.pcv_unmapped(x.min(2))\nv = T.pcv_other(x)\n",
        "_h.py": "x = 1\n", "B.py": "import torch.nn as nn\nq = nn.functional.softmin(x)\n"}
RUNS = {
    "several packages": ({"a.py": MULTI}, {}),
    "several packages, minimal": ({"a.py": MULTI}, {"mode": "min"}),
    "a tree": (TREE, {}),
    "a tree, all reports": (TREE, {"show_all_api": True, "show_unalign_api": True, "show_unsupport_api": True}),
    "a tree, complete only": (TREE, {"only_complete": True}),
    "a tree, timed": (TREE, {"calculate_speed": True}),
}
CLI = {
    "folder": ["-i", "/w", "-o", "/o"],
    "folder, default output": ["-i", "/w"],
    "folder, reports": ["-i", "/w", "-o", "/o", "--show_all_api", "--show_unalign_api", "--show_unsupport_api"],
    "projects": ["-i", "/w", "-o", "/o", "--separate_convert"],
    "projects, reports": ["-i", "/w", "-o", "/o", "--separate_convert", "--show_unsupport_api"],
    "projects, excluded": ["-i", "/w", "-o", "/o", "--separate_convert", "-e", "z,B"],
}
PROJECTS = {"/w/%s/%s" % (p, f): t for p in ("p1", "p2", "q") for f, t in TREE.items() if t is not None}
PROJECTS["/w/p2/a.py"] = "import torch\nx = torch.pcv_p2(y)\n"
PROJECTS["/w/q/a.py"] = "x = 1\n"
PROJECTS["/w/single.py"] = "import torch\nx = torch.abs(y)\n"


def effects(p, timed):
    """everything the run does, in order"""
    files, msgs, order = {}, [], []
    for kind, kw in p.events:
        if kind in ("write", "truncate"):
            c = norm(kw.get("content", ""))
            f = str(norm(kw["path"]))
            files[f] = state.fp(c)
            order.append((kind, f))
        elif kind == "copyfile":
            files[str(norm(kw.get("dst")))] = "copy of %s" % show(norm(kw.get("src")))
        elif kind in ("msg", "print"):
            msgs.append(show(kw["text"]))
        elif kind in ("remove", "makedirs", "mkdir", "rmtree"):
            msgs.append("%s %s" % (kind, show(kw.get("path"))))
    if timed:
        msgs = ["%d messages" % len(msgs)] + [m for m in msgs if "peed" not in m]
    return ("run", tuple(sorted(files.items())), state.fp(p.value), tuple(msgs))


def ret(p):
    v = p.value
    if isinstance(v, list):
        return tuple(state.fp(x[1]) for x in v)
    return state.fp(v)


def job(prog, j, thorough, st):
    kind, name, w = j
    engine.Engine.world = 0
    out, n = [], 0
    if kind == "run":
        files, ctor = (RUNS.get(name) or c10.POOL[name])
        src = {"/w/" + k: v for k, v in files.items() if v is not None}
        paths = lab.whole(prog, src, "/w", "/o", ctor, st, 30, files=["/w/" + k for k, v in files.items() if v is None], reverse=w, dirs=["/o"])
    else:
        paths = cli.paths(prog, CLI[name], PROJECTS, files=["/w/p1/z.txt"], world=w, stats=st)
    for p in paths:
        if p.kind == "gap":
            continue
        n += 1
        if p.kind != "return":
            out.append(("exc", str(p.exc)[:300]))
            continue
        taint = sorted({x for k, kw in p.events if k in ("write", "truncate", "copyfile", "msg", "print") for v in kw.values() for x in prov(v)})
        for t in taint:
            out.append(("taint", t))
        if isinstance(p.value, list):
            p.value = [x[1] for x in p.value]
        out.append(effects(p, "timed" in name))
    return list(dict.fromkeys(out)) + [("n", n)]


def prov(v):
    try:
        return [x for x in prov_of(v) if isinstance(x, str) and x.startswith("<nondet")]
    except Exception:
        return []


def one(prog, j, thorough, st):
    """the texts each way of writing an API converts to, in both worlds"""
    got, k0 = [], [0]

    def some(u):
        k0[0] += 1
        return thorough or u.ctx == "assign" and k0[0] % 3 == 1

    for w in (0, 1):
        engine.Engine.world = w
        d = {}
        k0[0] = 0
        for r in apis.records(prog, j[0], j[1], thorough, st, only=some):
            for k, kw in r.path.events:
                if k == "helper_code" and prov(kw["code"]):
                    return [("bad", r.use.written(), "the helper code contains a system value")]
            d.setdefault(r.use.written() + " " + r.use.ctx, set()).add((r.outcome, apis.text(r), tuple(state.fp(h) for h in r.helpers)))
        got.append(d)
    engine.Engine.world = 0
    out = []
    for k in sorted(set(got[0]) | set(got[1])):
        a, b = got[0].get(k), got[1].get(k)
        if a != b:
            x, y = sorted((a or set()) - (b or set())), sorted((b or set()) - (a or set()))
            out.append(("bad", k.rsplit(" ", 1)[0], "%s / %s" % ((x or ["-"])[0], (y or ["-"])[0])))
    return out + [("n", len(got[0]))]


def check(ctx):
    ctx.rule(RULE)
    ctx.rule(SOURCES)
    ctx.assumptions += ["two orders of every unordered collection are compared: any dependence on the relative order of two elements shows",
                        "the environment variables and the working directory belong to the input", "black and isort are deterministic"]
    prog = lab.program()
    jobs = [("run", n, w) for n in list(RUNS) + list(c10.POOL) for w in (0, 1)] + [("cli", n, w) for n in CLI for w in (0, 1)]
    res, st = sweep.parallel(prog, jobs, job, ctx.thorough)
    ctx.coverage["runs_in_two_worlds"] = len(res) // 2
    ctx.analysed |= {"%s:%s" % f for f in st.funcs}
    for k, n in st.gap_reasons.items():
        ctx.undecide("gap: " + k, n)
    d = {}
    for j, out in res:
        for f in out:
            if f[0] == "error":
                raise NoVerdict("internal error on %s: %s" % (j, f[2]))
        d[j] = out
    where = anchors(prog, "run", "transfer_node")
    m = 0
    for kind, name in list(dict.fromkeys(j[:2] for j in d)):
        a, b = d[(kind, name, 0)], d[(kind, name, 1)]
        n = a[-1][1] + b[-1][1]
        ctx.ob(n)
        if not a[-1][1] or not b[-1][1]:
            raise NoVerdict("the run on %s could not be followed" % name)
        m += 1
        a, b = [f for f in a if f[0] != "n"], [f for f in b if f[0] != "n"]
        for f in a + b:
            if f[0] == "exc":
                ctx.violation("%s|%s|raises" % (kind, name), where, RULE, "%s raises %s" % (name, f[1]))
            if f[0] == "taint":
                ctx.violation("%s|%s|%s" % (kind, name, f[1]), where, SOURCES, "%s: what is written depends on %s" % (name, f[1]))
        a, b = [f for f in a if f[0] == "run"], [f for f in b if f[0] == "run"]
        if a != b and a and b:
            for what, why in c10.compare(a[0], b[0]):
                why = why.replace("after other runs", "in one order").replace("alone", "in another")
                ctx.violation("%s|%s|%s" % (kind, name, what), where, RULE, "%s: %s" % (name, why))
    ctx.floor("runs_compared", m, 25)
    m = 0
    for (api, table), f in _sweep.run(ctx, one):
        if f[0] == "n":
            ctx.ob(f[1])
            m += f[1]
        else:
            ctx.violation("%s|%s" % (api, f[1]), _sweep.where(ctx.prog, api, table), RULE, "%s gives %s" % (f[1], f[2]))
    ctx.floor("uses_compared", m, 3000)
