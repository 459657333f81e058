"""C10: conversions are independent of each other."""
import itertools
import re

from pcv import apis, engine, lab, state, sweep
from pcv.report import NoVerdict
from pcv.values import *  # noqa

from . import _sweep
from ._lab import anchors

RULE = "a run after any other run in the same process writes the same files, counts and reports as the same run alone"
STATE = "no conversion changes a mapping table, an entry of one or a package list"

OP = {"setup.py": ("from setuptools import setup\nfrom torch.utils.cpp_extension import BuildExtension, CppExtension\n"
                   "setup(name='my_op', ext_modules=[CppExtension('my_op', ['a.cc'])], cmdclass={'build_ext': BuildExtension})\n"),
      "use.py": "import torch\nimport my_op\nclass F(torch.autograd.Function):\n    @staticmethod\n    def forward(ctx, x):\n        return my_op.forward(x)\n    @staticmethod\n    def backward(ctx, g):\n        return my_op.backward(g)\ny = F.apply(z)\n",
      "use2.py": "import torch\nimport my_op as M\nx = M.forward(y)\n"}
# name -> (files, constructor options)
POOL = {
    "plain": ({"a.py": "import torch\nx = torch.abs(y)\n"}, {}),
    "unsupported": ({"a.py": "import torch\nx = torch.pcv_unmapped(y)\nz = w.pcv_none(x)\n"}, {}),
    "temporary names": ({"a.py": "import torch\nx = torch.pcv_hoist(y, t1)\nout = torch.index_copy(x, d, i, s)\nz = x.narrow_copy(1, 2, 3)\nu = torch.adjoint(x)\nv = torch.special.expit(f(x))\n"}, {}),
    "helper code": ({"a.py": "import torch\nx = y.max(1)\nz = torch.nn.functional.softmin(y)\nw = y.min(d)\nv = torch.cuda.device(k)\n"}, {}),
    "other helper code": ({"a.py": "import torch\nw = torch.Tensor.reshape(y, k)\nz = y.view(q)\nv = y.min(2)\n"}, {}),
    "no torch": ({"a.py": "import my_op\nx = my_op.forward(y)\nclass F(G):\n    pass\nF.apply(x)\n"}, {}),
    "extension use": ({"a.py": "import torch\nimport my_op\nimport my_op as M\nimport numpy\nx = my_op.forward(y)\nfrom my_op import forward\nz = forward(x)\nu = F.apply(x)\n"}, {}),
    "extension import": ({"a.py": "import torch\nimport my_op\nfrom ops import F, G\nu = F.apply(torch.abs(x))\n"}, {}),
    "layer over an extension": ({"setup.py": OP["setup.py"], "t.py": "import torch\nimport my_op\nclass F(paddle.autograd.PyLayer):\n    def forward(ctx, x):\n        return my_op.forward(x)\n"}, {}),
    "custom op": (OP, {}),
    "loaded extension": ({"a.py": "import torch\nfrom torch.utils.cpp_extension import load\nmy_op = load(name='my_op', sources=['a.cc'])\nx = my_op.forward(y)\n"}, {}),
    "two files": ({"b.py": "import torch\nx = torch.index_copy(x, 0, i, s)\nz = x.max(1)\n", "c/d.py": "import torch as T\nfrom b import x\nu = T.pcv_unmapped(x.min(2))\n"}, {}),
    "minimal mode": ({"a.py": "import torch\nx = torch.abs(y)\nz = torch.index_copy(x, 0, i, s)\n"}, {"mode": "min"}),
    "complete only": ({"a.py": "import torch.nn as nn\nx = nn.Linear(1, 2)\n"}, {"only_complete": True}),
    "aliases": ({"a.py": "import torch as T\nfrom torch.nn import functional as F\nx = F.relu(T.abs(y))\nmy_add = T.add\nmy_add(x, y)\n"}, {}),
    "alias names as user names": ({"a.py": "import torch\nx = F.relu(T.abs(y))\nmy_add(x, y)\nnn.Linear(1)\n"}, {}),
    "reports": ({"a.py": "import torch\nx = torch.abs(torch.pcv_unmapped(y))\n"}, {"show_all_api": True, "show_unalign_api": True, "show_unsupport_api": True, "log_markdown": True}),
    "not formatted": ({"a.py": "import torch\nx = torch.abs(y)\nz = x.pcv_none(1)\n"}, {"no_format": True}),
}


def place(i, name):
    """(sources, input, output) of a pool entry used as the i-th run"""
    files, ctor = POOL[name]
    if len(files) == 1:
        return {"/w%d/a.py" % i: files["a.py"]}, "/w%d/a.py" % i, "/o%d/out.py" % i, ctor
    return {"/w%d/%s" % (i, k): v for k, v in files.items()}, "/w%d" % i, "/o%d" % i, ctor


def folder(i, name):
    files, ctor = POOL[name]
    return {"/w%d/%s" % (i, k): v for k, v in files.items()}, "/w%d" % i, "/o%d" % i, ctor


LAYOUT = {"file": place, "folder": folder}


def outcome(p, i, n):
    """what run i of n did: files written, value returned, messages"""
    seg, k = [], -1
    for ev in p.events:
        if ev[0] == "start":
            k += 1
        elif k == i:
            seg.append(ev)
    files = {}
    for kind, kw in seg:
        if kind in ("write", "truncate"):
            c = norm(kw.get("content", ""))
            files[str(norm(kw["path"]))] = state.fp(c)
        elif kind == "copyfile":
            files[str(norm(kw.get("dst")))] = "copy"
    msgs = [show(kw["text"]) for kind, kw in seg if kind == "msg"]
    ret = state.fp(p.value[i][1])
    return files, ret, msgs


def job(prog, j, thorough, st):
    engine.Engine.track_state = True
    lay, names = j
    sources, runs = {}, []
    for i, nm in enumerate(names):
        if nm == "<nothing>":
            runs.append(("/empty", "/oe", {}))
            continue
        s, a, b, c = LAYOUT[lay](i, nm) if i < len(names) - 1 else LAYOUT[lay](9, nm)
        sources.update(s)
        runs.append((a, b, c))
    out = []
    n = 0
    for p in lab.whole(prog, sources, None, runs=runs, stats=st, max_paths=30, dirs=["/empty"] + ["/o%d" % i for i in range(10)]):
        if p.kind == "gap":
            continue
        n += 1
        if p.kind != "return":
            out.append(("exc", str(p.exc)))
            continue
        if names[-1] == "<nothing>":
            out.append(("state", tuple(sorted((k[:3], str(v[1])[:300]) for k, v in state.changed(p.engine).items() if tables(k)))))
        else:
            f, r, m = outcome(p, len(runs) - 1, len(runs))
            out.append(("run", tuple(sorted(f.items())), r, tuple(m)))
    out = list(dict.fromkeys(out))
    out.append(("n", n))
    return out


def tables(k):
    return k[0] in ("entry", "table") or k[:2] == ("class", "GlobalManager")


def one(prog, j, thorough, st):
    engine.Engine.track_state = True
    out, n = [], 0
    for r in apis.records(prog, j[0], j[1], thorough, st, only=lambda u: thorough or u.ctx == "assign"):
        n += 1
        for k, (b, a) in state.changed(r.path.engine).items():
            if tables(k):
                out.append(("bad", " ".join(map(str, k[:3])), "%s: %s becomes %s" % (r.use.written(), b, a)))
            else:
                out.append(("dirty", k[:3]))
    out = list(dict.fromkeys(out))
    out.append(("n", n))
    return out


def runs_of(thorough):
    P = list(POOL)
    solo, pair, rest = [], [], []
    for lay in LAYOUT:
        for b in P:
            solo.append((lay, (b,)))
            for a in P:
                if thorough or lay == "folder" or (P.index(a) + P.index(b)) % 3 == 0:
                    pair.append((lay, (a, b)))
        for a in P:
            rest.append((lay, (a, "<nothing>")))
        rest.append((lay, ("<nothing>",)))
        tri = itertools.permutations(P, 3)
        for i, t in enumerate(tri):
            if not i % (23 if thorough else 331):
                pair.append((lay, t))
    return solo, pair, rest


def first(diff):
    return "; ".join(diff)[:1200]


def compare(got, want):
    """differences between what two runs did"""
    out = []
    _, f1, r1, m1 = got
    _, f2, r2, m2 = want
    f1, f2 = dict(f1), dict(f2)
    for k in sorted(set(f1) | set(f2)):
        if f1.get(k) != f2.get(k):
            out.append(("files", "%s: after other runs %s, alone %s" % (k, f1.get(k), f2.get(k))))
    if r1 != r2:
        out.append(("counts", "returns %s after other runs, %s alone" % (r1, r2)))
    if m1 != m2:
        out.append(("report", "messages differ: %s" % first([a + " / " + b for a, b in zip(m1, m2) if a != b] or ["number of messages %d / %d" % (len(m1), len(m2))])))
    return out


def check(ctx):
    ctx.rule(RULE)
    ctx.rule(STATE)
    ctx.assumptions += ["conversions of one process run one after another in one thread", "process-wide state of third-party libraries (logging, astor, black) is not modelled"]
    prog = lab.program()
    solo, pair, rest = runs_of(ctx.thorough)
    res, st = sweep.parallel(prog, solo + pair + rest, job, ctx.thorough)
    ctx.coverage["run_sequences"] = len(res)
    ctx.coverage["paths_with_gap"] = st.gaps
    ctx.analysed |= {"%s:%s" % f for f in st.funcs}
    for k, n in st.gap_reasons.items():
        ctx.undecide("gap: " + k, n)
    where = anchors(prog, "run", "transfer_node")
    alone, base, empty = {}, {}, 0
    for (lay, names), out in res:
        for f in out:
            if f[0] == "error":
                raise NoVerdict("internal error on %s: %s" % (names, f[2]))
        facts = [f for f in out if f[0] != "n"]
        if len(names) == 1:
            (base if names[0] == "<nothing>" else alone)[(lay, names[0])] = facts
    m = 0
    for (lay, names), out in res:
        facts = [f for f in out if f[0] != "n"]
        n = [f for f in out if f[0] == "n"][0][1]
        empty += not n
        m += n
        ctx.ob(n)
        want = (base if names[-1] == "<nothing>" else alone)[(lay, names[-1])]
        if len(names) == 1:
            if not want:
                raise NoVerdict("the run on %s could not be followed" % names[0])
            for f in facts:
                if f[0] == "exc":
                    ctx.violation("%s|%s|raises" % (lay, names[0]), where, RULE, "converting %s alone raises %s" % (names[0], f[1]))
            continue
        for f in facts:
            if f in want or f[0] == "exc" and any(w[0] == "exc" for w in want):
                continue
            label = " then ".join(names)
            if f[0] == "exc":
                ctx.violation("%s|%s|raises" % (lay, label), where, RULE, "%s raises %s" % (label, f[1]))
            elif f[0] == "state":
                for k, v in set(f[1]) - set(want[0][1] if want else ()):
                    ctx.violation("%s|%s|state %s" % (lay, label, " ".join(map(str, k))), where, STATE, "after %s, %s is %s" % (label, " ".join(map(str, k)), v))
            else:
                for kind, why in compare(f, want[0]):
                    ctx.violation("%s|%s|%s" % (lay, label, kind), where, RULE, "%s: %s" % (label, why))
    if empty * 10 > len(res):
        raise NoVerdict("%d of %d sequences of runs could not be followed" % (empty, len(res)))
    ctx.floor("followed_sequences", m, 400)
    dirty = set()
    m = 0
    for (api, table), f in _sweep.run(ctx, one):
        if f[0] == "n":
            ctx.ob(f[1])
            m += f[1]
        elif f[0] == "dirty":
            dirty.add(f[1])
        else:
            ctx.violation("%s|%s" % (api, f[1]), _sweep.where(ctx.prog, api, table), STATE, "a mapping table is changed: " + f[2])
    ctx.coverage["state_changed_by_matchers"] = sorted(" ".join(map(str, d)) for d in dirty)
    ctx.floor("uses_followed", m, 20000)
