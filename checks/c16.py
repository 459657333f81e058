"""C16: every command-line option reaches the behaviour it documents."""
import collections
import itertools
import os
import random

from pcv import cli, lab, state, sweep
from pcv.program import REPO
from pcv.report import NoVerdict
from pcv.values import *  # noqa

RULE = "an option changes exactly the behaviour it documents"
FREE = "options do not influence each other: what a combination does is what its options do"
MODES = "the separate-project mode does for each project what a run on that project does"
FAIL = "no combination of options makes the tool fail"

SRC = {
    "/w/a.py": "import torch\nx = torch.abs(torch.pcv_unmapped(y))\nz = x.max(1)\nu = torch.pcv_unmapped(y)\nv = torch.index_copy(x, 0, i, s)\nw = x.pcv_none(v)\n",
    "/w/b/c.py": "import torch.nn as nn\nq = nn.Linear(1, 2)\nk = torch.abs(q)\nimport torch\n",
    "/w/b/skip.py": "import torch\nt = torch.abs(y)\n",
    "/w/tv.py": "import torchvision\nimport transformers as tf\nm = torchvision.models.pcv_net(z)\nn = tf.PcvConfig(m)\n",
}
FILES = ["/w/b/data.txt"]
# option -> (arguments, documented effect is on: files | messages)
F_OPTS = {
    "min": ["-m", "min"],
    "exclude": ["-e", "skip,pcv_no_such"],
    "exclude_packages": ["--exclude_packages", "torchvision,transformers"],
    "no_format": ["--no_format"],
    "only_complete": ["--only_complete"],
    "default output": [],
}
R_OPTS = {
    "show_all_api": ["--show_all_api"],
    "show_unalign_api": ["--show_unalign_api"],
    "show_unsupport_api": ["--show_unsupport_api"],
    "calculate_speed": ["--calculate_speed"],
    "log_markdown": ["--log_markdown"],
    "log_dir": ["--log_dir", "/l.txt"],
    "WARNING": ["--log_level", "WARNING"],
    "DEBUG": ["--log_level", "DEBUG"],
}
LEVEL = {"log_debug": 10, "log_info": 20, "log_warning": 30, "log_error": 40, "log_critical": 50}
NAMES = {"DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40, "CRITICAL": 50}


def argv(opts, inp="/w"):
    out = ["-i", inp]
    if "default output" not in opts:
        out += ["-o", "/o"]
    for o in list(F_OPTS) + list(R_OPTS):
        if o in opts:
            out += F_OPTS.get(o) or R_OPTS.get(o) or []
    return out + (["--separate_convert"] if "separate" in opts else [])


def mark(tool, code):
    """each formatter leaves a visible trace"""
    return code + "# %s\n" % tool


def observe(p):
    files, msgs, prints, stages, reports, logs = {}, [], [], [], [], []
    for kind, kw in p.events:
        if kind in ("write", "truncate"):
            f = str(norm(kw["path"]))
            if kind == "truncate" or f not in files:
                files[f] = ""
            if kind == "write":
                files[f] += state.fp(kw["content"])
        elif kind == "copyfile":
            files[str(norm(kw.get("dst")))] = "copy"
        elif kind == "remove":
            files.pop(str(norm(kw.get("path"))), None)
        elif kind == "msg":
            lim = norm(kw["limit"])
            lim = NAMES.get(lim, 0) if isinstance(lim, str) else lim
            to = tuple(sorted(kw["to"]))
            msgs.append((kw["level"], show(kw["text"]), to if LEVEL[kw["level"]] >= lim else ()))
        elif kind == "print":
            prints.append(show(kw["text"]))
        elif kind == "report":
            reports.append((show(kw["path"]), state.fp(kw["data"])))
        elif kind == "logfile":
            logs.append(show(kw["path"]))
    return {"files": files, "msgs": msgs, "prints": prints, "reports": reports, "logs": logs}


def job(prog, j, thorough, st):
    opts, inp = j
    out, n = [], 0
    for p in cli.paths(prog, argv(opts, inp), SRC, files=FILES, dirs=["/o"], stats=st, formatter=mark):
        if p.kind == "gap":
            continue
        n += 1
        out.append(("exc", str(p.exc)[:400]) if p.kind != "return" else ("obs", observe(p)))
    return out + [("n", n)]


def check(ctx):
    for r in (RULE, FREE, MODES, FAIL):
        ctx.rule(r)
    ctx.assumptions += ["argparse does with the declared arguments what the standard library documents (it is used as a library on the declarations found in main())",
                        "logging delivers a message to every handler of its logger if the level suffices"]
    prog = lab.program()
    F, R = list(F_OPTS), list(R_OPTS)
    fsets = [frozenset(c) for k in range(len(F) + 1) for c in itertools.combinations(F, k)]
    jobs = {}
    for f in fsets:
        jobs[(f, "/w")] = 1
        for r in R:
            if ctx.thorough or len(f) <= 2:
                jobs[(f | {r}, "/w")] = 1
    rnd = random.Random(16)
    full = [frozenset(c) for k in range(2, len(R) + 1) for c in itertools.combinations(R, k) if not {"WARNING", "DEBUG"} <= set(c)]
    for i in range(1500 if ctx.thorough else 120):
        f = rnd.choice([x for x in fsets if ctx.thorough or len(x) <= 2])
        jobs[(f | rnd.choice(full), "/w")] = 1
    for f in fsets:
        if len(f) <= (6 if ctx.thorough else 1):
            for r in [None] + R:
                s = f | ({r} if r else set())
                jobs[(s | {"separate"}, "/w")] = 1
                for d in projects():
                    jobs[(s, d)] = 1
    # a job is described by sorted tuples so that the order is stable
    js = sorted((tuple(sorted(o)), d) for o, d in jobs)
    res, st = sweep.parallel(prog, js, job, ctx.thorough)
    ctx.analysed |= {"%s:%s" % f for f in st.funcs}
    for k, n in st.gap_reasons.items():
        ctx.undecide("gap: " + k, n)
    ctx.coverage["option_combinations"] = len(js)
    md, fn = cli.entry(prog)
    where = "%s:%d main" % (md.rel, fn.lineno)
    got = {}
    for (o, d), out in res:
        for f in out:
            if f[0] == "error":
                raise NoVerdict("internal error on %s: %s" % (o, f[2]))
        n = out[-1][1]
        ctx.ob(max(n, 1))
        for f in out:
            if f[0] == "exc":
                ctx.violation("%s|raises" % "+".join(o), where, FAIL, "%s raises %s" % (" ".join(argv(o, d)), f[1]))
        obs = [f[1] for f in out if f[0] == "obs"]
        if len(obs) > 1:
            ctx.undecide("several outcomes", len(obs) - 1)
        if obs:
            got[(frozenset(o), d)] = obs[0]
    ctx.floor("combinations_followed", len(got), 400)

    def bad(o, d, what, rule, why):
        ctx.violation("%s|%s|%s" % ("+".join(sorted(o)) or "none", d, what), where, rule, "paconvert %s: %s" % (" ".join(argv(o, d)), why))

    done = collections.Counter()
    for (o, d), ob in sorted(got.items(), key=lambda t: (len(t[0][0]), sorted(t[0][0]), t[0][1])):
        if "separate" in o:
            separate(o, ob, got, bad, ctx)
            done["separate"] += 1
            continue
        for what, rule, why in single(o, d, ob, got):
            bad(o, d, what, rule, why)
        done["single"] += 1
    ctx.coverage["checked"] = dict(done)
    ctx.floor("separate_combinations", done["separate"], 20)
    run_check(ctx, prog, where)
    plain_install(ctx, prog, where, got)


def projects():
    return sorted({"/w/" + f[3:].split("/")[0] for f in SRC})


def delta(a, b):
    """signed difference of two message streams"""
    c = collections.Counter(a)
    c.subtract(b)
    return {k: v for k, v in c.items() if v}


def texts(ob):
    return [(l, t) for l, t, to in ob["msgs"]]


def out_of(o):
    return "/c/paddle_project" if "default output" in o else "/o"


def single(o, d, ob, got):
    """violations of one combination"""
    f = frozenset(x for x in o if x in F_OPTS)
    r = [x for x in o if x in R_OPTS]
    base = got.get((f, d))
    if base is None:
        return
    if r:
        if ob["files"] != base["files"]:
            k = sorted(x for x in set(ob["files"]) | set(base["files"]) if ob["files"].get(x) != base["files"].get(x))
            yield "files", FREE, "%s changes what is written to %s" % (" ".join(r), ", ".join(k))
        if ob["prints"] != base["prints"]:
            yield "prints", FREE, "%s changes what is printed" % " ".join(r)
        # messages: the sum of what each option adds and removes
        want = collections.Counter()
        known = True
        for x in r:
            one = got.get((f | {x}, d))
            if one is None:
                known = False
                break
            for k, v in delta(strip(one), strip(base)).items():
                want[k] += v
        if known and len(r) > 1:
            have = delta(strip(ob), strip(base))
            want = {k: v for k, v in want.items() if v}
            if have != want:
                e = sorted(set(have.items()) ^ set(want.items()))[:2]
                yield "messages", FREE, "the messages are not those of the single options: %s" % e
        if known:
            rep = sorted(sum((got[(f | {x}, d)]["reports"] for x in r), []))
            if sorted(ob["reports"]) != rep:
                yield "reports", FREE, "the report files are not those of the single options"
    # where messages go
    tos = {t for l, x, t in ob["msgs"]} - {()}
    want = ("file '/l.txt'",) if "log_dir" in o else ("terminal",)
    if any(t != want for t in tos):
        yield "log target", RULE, "messages go to %s, not to %s" % (sorted(t for t in tos if t != want)[0], want)
    lim = 30 if "WARNING" in o else 10 if "DEBUG" in o else 20
    for l, x, t in ob["msgs"]:
        if bool(t) != (LEVEL[l] >= lim):
            yield "log level", RULE, "message %s of level %s is %s" % (x[:60], l, "shown" if t else "not shown")
            break
    if "log_dir" not in o and ob["logs"]:
        yield "log file", RULE, "a log file is created"
    if len(r) > 1 or d != "/w":
        return
    yield from files_of(f, ob, got)
    # what a single report option adds
    add = [t for (l, t), v in delta(strip(ob), strip(base)).items() if v > 0]
    rem = [t for (l, t), v in delta(strip(ob), strip(base)).items() if v < 0]
    body = " ".join(add)
    x = r[0] if r else None
    comp = "only_complete" in f
    if x == "show_all_api" and not comp:
        for api, n in (("torch.abs", None), ("torch.pcv_unmapped", 2), ("torch.index_copy", 1)):
            if not any(listed(t, api, n) for t in add):
                yield "listing " + api, RULE, "%s is not listed with its count" % api
        if not ob["reports"]:
            yield "listing file", RULE, "no listing file is written"
    if x == "show_unsupport_api" and not comp:
        if not any(listed(t, "torch.pcv_unmapped", 2) for t in add):
            yield "listing", RULE, "torch.pcv_unmapped is not listed with its count"
        for api in ("torch.abs", "torch.index_copy"):
            if any(listed(t, api, None) for t in add):
                yield "listing " + api, RULE, "%s is listed as unsupported" % api
    if x == "show_unalign_api" and not comp:
        if not any(listed(t, "torch.pcv_unmapped", 2) for t in add) or any(listed(t, "torch.abs", None) for t in add):
            yield "listing", RULE, "the listing is not that of the APIs that need more than a new prefix"
    if x in ("show_all_api", "show_unsupport_api") and not comp:
        tot, suc = counts(base)
        rows = rows_of(ob, base)
        want = tot if x == "show_all_api" else tot - suc if tot is not None else None
        if want is not None and sum(n for a, n in rows) != want:
            yield "listing total", RULE, "the listed counts add up to %d, the summary says %d" % (sum(n for a, n in rows), want)
        if len({a for a, n in rows}) != len(rows):
            yield "listing twice", RULE, "an API is listed twice"
    if x == "show_unalign_api" and not comp and (f | {"show_all_api"}, "/w") in got:
        every = rows_of(got[(f | {"show_all_api"}, "/w")], base)
        for a, n in rows_of(ob, base):
            if (a, n) not in every:
                yield "listing row", RULE, "%s (%d) is not among all APIs" % (a, n)
    if x in ("show_all_api", "show_unsupport_api", "show_unalign_api") and (rem or not add):
        yield "listing", RULE, "no listing is added" if not add else "messages are missing: %s" % rem[:1]
    if x == "calculate_speed":
        lines = sum(len(t.splitlines()) for p, t in SRC.items() if not ("exclude" in f and "skip" in p))
        if rem or len(add) != 1 or " %d," % lines not in add[0].replace(".", ","):
            yield "speed", RULE, "expected one message with the number of lines (%d), got %s" % (lines, [a[:100] for a in add])
    if x == "log_markdown":
        s, n = counts(base)
        if not add or str(s) not in body or str(n) not in body:
            yield "markdown", RULE, "the summary does not give the counts"
    if x in ("log_dir", "WARNING", "DEBUG") and (add or rem):
        yield "messages", RULE, "%s changes the messages: %s" % (x, (add + rem)[0][:100])
    if x is None:
        if ob["reports"] or any(" List:" in t for l, t in texts(ob)):
            yield "listing", RULE, "a listing is made although none was asked for"


def listed(t, api, n):
    w = t.strip("'").split()
    return bool(w) and w[0] == api and (n is None or str(n) in w[1:])


def rows_of(ob, base):
    """(API, count) of every line a listing adds"""
    import re

    out = []
    for (l, t), v in delta(strip(ob), strip(base)).items():
        m = re.match(r"'?((?:\*|[A-Za-z_]\w*)(?:\.\w+)+)\s.*?(\d+)\s*'?$", t)
        if m and v > 0:
            out += [(m.group(1), int(m.group(2)))] * v
    return sorted(out)


def strip(ob):
    """messages without the time a run took"""
    out = []
    for l, t in texts(ob):
        if "Convert Speed" in t or "lines per second" in t:
            t = t.split(", The total conversion time")[0] + ","
        out.append((l, t))
    return out


def counts(ob):
    """(total, converted) as the summary of a run states them"""
    import re

    tot = [int(m.group(1)) for l, t in texts(ob) for m in [re.search(r"There are (\d+) Pytorch", t)] if m]
    suc = [int(m.group(1)) for l, t in texts(ob) for m in [re.search(r"(\d+)  Pytorch APIs have been converted", t)] if m]
    return (tot or [None])[0], (suc or [None])[0]


def files_of(f, ob, got):
    """what the file-affecting options do to the output"""
    out = out_of(f)
    base = got[(frozenset(), "/w")]["files"]
    have = ob["files"]
    rel = {k[len(out):]: v for k, v in have.items() if k.startswith(out + "/")}
    for k in have:
        if not k.startswith(out + "/"):
            yield "output folder", RULE, "%s is written outside %s" % (k, out)
    want = {k[2:] for k in list(SRC) + FILES}
    if "exclude" in f:
        want.discard("/b/skip.py")
    miss = sorted(want - set(rel)), sorted(set(rel) - want - {"/paddle_utils.py"})
    if miss[0] or miss[1]:
        yield "files", RULE, "not written: %s; written in addition: %s" % miss
        return
    fmt = not ({"no_format", "min"} & f)
    for k, v in rel.items():
        if not k.endswith(".py") or k == "/paddle_utils.py":
            continue
        if ("# black" in v or "# isort" in v) != fmt or ("# black" in v) != ("# isort" in v):
            yield "format " + k, RULE, "%s is %sformatted" % (k, "not " if fmt else "")
    # one file option against the run without it
    tv = rel["/tv.py"]
    if "exclude_packages" in f:
        if "torchvision.models.pcv_net" not in tv or "import torchvision" not in tv or "transformers as tf" not in tv or ">>>" in tv or "paddle" in tv:
            yield "exclude_packages", RULE, "a file that uses excluded packages only is changed: %s" % tv[:150]
    elif "only_complete" in f:
        pass
    elif ">>>>>>m = torchvision" not in tv or ">>>>>>n = transformers" not in tv:
        yield "packages", RULE, "uses of known packages are not recognised: %s" % tv[:150]
    a = rel["/a.py"]
    if "only_complete" in f:
        if "paddle." in a or "torch.index_copy" not in a or "torch.abs" not in a:
            yield "only_complete", RULE, "the code is converted: %s" % a[:150]
        if "torch.nn.Linear" not in rel["/b/c.py"]:
            yield "only_complete", RULE, "names are not completed: %s" % rel["/b/c.py"][:150]
    else:
        if "paddle.scatter" not in a and "torch.index_copy" in a:
            yield "conversion", RULE, "torch.index_copy is not converted: %s" % a[:200]
        if ("torch.abs(" in a) != ("min" in f):
            yield "mode", RULE, "torch.abs is %s" % ("left" if "torch.abs(" in a else "changed")


def separate(o, ob, got, bad, ctx):
    o = set(o) - {"separate"}
    parts = [got.get((frozenset(o), d)) for d in projects()]
    if any(p is None for p in parts):
        ctx.undecide("separate mode without reference")
        return
    files = {}
    for p in parts:
        for k, v in p["files"].items():
            files[k] = v
    have = dict(ob["files"])
    key = o | {"separate"}
    if have != files:
        k = sorted(x for x in set(have) | set(files) if have.get(x) != files.get(x))
        bad(key, "/w", "files", MODES, "%s differ from what the runs on the single projects write" % ", ".join(k))
    m1 = [x for p in parts for x in strip2(p)]
    m2 = strip2(ob)
    if m1 != m2:
        i = next((i for i, (a, b) in enumerate(zip(m1, m2)) if a != b), min(len(m1), len(m2)))
        bad(key, "/w", "messages", MODES, "message %d is %s, the run on the project says %s" % (i, m2[i:i + 1], m1[i:i + 1]))
    if ob["logs"] != [x for p in parts for x in p["logs"]]:
        bad(key, "/w", "log file", MODES, "other log files are opened")
    rates = [counts(p) for p in parts]
    text = "\n".join(ob["prints"])
    for d, (n, s) in zip(projects(), rates):
        if n is None:
            continue
        r = "{:.2%}".format(s / n if n else 0)
        if not any(d[3:] + ":" in x and r in x for x in ob["prints"]):
            bad(key, "/w", "rate of " + d, RULE, "the summary does not give the rate of %s (%s)" % (d, r))


def strip2(ob):
    return [(l, t, to) for (l, t), (_, _, to) in zip(strip(ob), ob["msgs"])]


def installed():
    """top-level modules a plain installation of the package has"""
    import re
    import sys

    have = set(sys.stdlib_module_names) | {"paconvert"}
    f = os.path.join(REPO, "requirements.txt")
    if not os.path.exists(f):
        raise NoVerdict("no requirements.txt")
    for line in open(f, encoding="utf-8"):
        m = re.match(r"\s*([A-Za-z0-9_.-]+)", line)
        if m:
            have.add(m.group(1).replace("-", "_").lower())
    return have


def plain_install(ctx, prog, where, got):
    """nothing that is used needs more than what is installed with the package"""
    import ast

    have = installed()
    for md in prog.modules.values():
        todo = list(md.tree.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Try)):
                continue
            todo += [c for c in ast.iter_child_nodes(n) if isinstance(c, ast.stmt)]
            names = [a.name for a in n.names] if isinstance(n, ast.Import) else [n.module] if isinstance(n, ast.ImportFrom) and not n.level else []
            for x in names:
                ctx.ob(1)
                if x.split(".")[0] not in have:
                    ctx.violation("import|%s|%s" % (md.rel, x), "%s:%d" % (md.rel, n.lineno), FAIL, "%s imports %s, which is not installed with the package" % (md.rel, x))
    base = [frozenset()] + [frozenset({r}) for r in R_OPTS] + [frozenset(R_OPTS) - {"DEBUG"}, frozenset({"only_complete"}), frozenset({"min"})]
    n = 0
    for o in base + [b | {"separate"} for b in base]:
        for p in cli.paths(prog, argv(o), SRC, files=FILES, dirs=["/o"], formatter=mark, prepare=lambda e: setattr(e, "installed", have)):
            if p.kind == "gap":
                ctx.undecide("gap: " + str(p.exc))
                continue
            n += 1
            ctx.ob(1)
            key = "+".join(sorted(o)) or "none"
            if p.kind != "return":
                ctx.violation("plain install|%s" % key, where, FAIL, "paconvert %s fails where only requirements.txt is installed: %s" % (" ".join(argv(o)), str(p.exc)[:200]))
                continue
            ref = got.get((o, "/w"))
            if ref is None:
                continue
            ob = observe(p)
            lost = [t for (l, t), v in delta(strip(ob), strip(ref)).items() if v < 0]
            if ob["files"] != ref["files"] or lost or not set(ref["prints"]) <= set(ob["prints"]):
                ctx.violation("plain install|%s|result" % key, where, FREE, "paconvert %s does something else where only requirements.txt is installed: %s" % (" ".join(argv(o)), lost[:1]))
    ctx.floor("plain_install_runs", n, 10)


def run_check(ctx, prog, where):
    """--run_check converts the example file that is shipped"""
    root = "/pcv_pkg/"
    src = {}
    pkg = os.path.dirname(cli.entry(prog)[0].path)
    for n in os.listdir(pkg):
        if n.endswith(".py"):
            src[root + os.path.relpath(os.path.join(pkg, n), REPO)] = "import torch\nx = torch.abs(y)\n"
    if not src:
        raise NoVerdict("no example file")
    for extra in ([], ["--no_format"], ["-m", "min"]):
        n = 0
        for p in cli.paths(prog, ["--run_check"] + extra, src, prepare=lambda e: setattr(e, "file_root", root)):
            if p.kind == "gap":
                ctx.undecide("gap: " + str(p.exc))
                continue
            n += 1
            ctx.ob(1)
            if p.kind != "return":
                ctx.violation("run_check%s|raises" % "".join(extra), where, FAIL, "paconvert --run_check raises %s" % p.exc)
                continue
            w = [k for k in observe(p)["files"]]
            if not any(k.endswith("example_code.py") for k in w) or any(k in src for k in w):
                ctx.violation("run_check%s|output" % "".join(extra), where, RULE, "paconvert --run_check writes %s" % w)
        if not n:
            raise NoVerdict("--run_check could not be followed")
