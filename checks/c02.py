"""C02: every non-excluded input file yields exactly one mirrored output file."""
import posixpath as pp
import re

from pcv.values import *  # noqa
from . import _driver
from ._driver import loc

RULE = ("abstract runs of Converter.run over modelled file systems: the set of output files written equals the mirror image of "
        "the non-hidden input files not matched by a pattern, each written once with text derived from its own source (converted "
        "tree for .py, torch renamed for requirements.txt, unaltered copy otherwise); opaque exclude patterns are followed "
        "through every outcome of every test")


def expected(sc, p):
    """[(input, output, kind)] the property calls for on this path, or None when some test is missing; yields problems"""
    memo = p.engine.memo
    if sc.exclude is None:
        pats = []
    else:
        pats = [show(AStr([h])) for h in sc.exclude.holes()]
    probs, out = [], []

    def excluded(path):
        """True/False/None=never tested"""
        if re.search("__pycache__", path):
            return True
        r = [memo.get(("rx", "search", q, path)) for q in pats]
        if any(x is True for x in r):
            return True
        if any(x is None for x in r):
            return None
        return False

    if sc.is_file():
        x = excluded(sc.abs_in)
        if x is False or x is None:
            out.append((sc.abs_in, sc.target(), x))
        return out
    root = sc.abs_in

    def go(d):
        for n in sc.fs.ls(d):
            q = pp.join(d, n)
            if n.startswith(".") or (q == sc.abs_out):
                continue
            x = excluded(q)
            if x is True:
                continue
            if sc.fs.kind[q] == "dir":
                go(q)
            elif sc.fs.kind[q] == "file":
                out.append((q, pp.join(sc.abs_out, pp.relpath(q, root)), x))

    go(root)
    return out


def check(ctx):
    ctx.rule(RULE)
    n = nf = 0
    V = ctx.violation
    for sc in _driver.scenarios():
        if sc.refuse:
            continue
        for p in _driver.run_paths(ctx, sc):
            if p.kind == "gap":
                continue
            n += 1
            if p.kind == "raise":
                ctx.ob()
                V("raises|%s|%s" % (sc.name, p.exc.name), "%s:%s %s" % (p.exc.loc or ("?", 0, "?")), "conversion completes",
                  "%s (in=%s out=%s cwd=%s): %s" % (sc.name, sc.inp, sc.out, sc.fs.cwd, p.exc))
                continue
            writes = {}
            for k, kw in p.events:
                if k == "write":
                    writes.setdefault(kw["path"], []).append(kw)
            helper = {q for q, ws in writes.items() if any("helper" in prov_of(w["content"]) for w in ws)}
            exp = expected(sc, p)
            seen = set()
            for src, dst, x in exp:
                nf += 1
                ctx.ob()
                seen.add(dst)
                ws = [w for w in writes.get(dst, []) if not ("helper" in prov_of(w["content"]))]
                if not ws:
                    if x is None:
                        continue  # skipped without a test: covered by the fork in which the pattern does not match
                    V("missing|%s|%s" % (sc.name, pp.relpath(src, sc.abs_in)), "paconvert/converter.py Converter.transfer_dir", "every file mirrored",
                      "%s: %s produces no %s" % (sc.name, src, dst), ["%s = %s" % (d[0], d[1]) for d in p.decisions])
                    continue
                if x is None:
                    V("exclude untested|%s" % sc.name, loc(ws[0]), "exclude patterns", "%s: %s is written although one of the exclude patterns was never tested against %s"
                      % (sc.name, dst, src), ["%s = %s" % (d[0], d[1]) for d in p.decisions])
                if len(ws) > 1:
                    V("twice|%s|%s" % (sc.name, pp.relpath(src, sc.abs_in)), loc(ws[1]), "written once", "%s: %s is written %d times" % (sc.name, dst, len(ws)))
                w = ws[0]
                pr = prov_of(w["content"])
                files = {q[5:] for q in pr if q.startswith("file:")}
                if files != {src}:
                    V("source|%s|%s" % (sc.name, pp.relpath(src, sc.abs_in)), loc(w), "own source", "%s: %s is written with text from %s" % (sc.name, dst, sorted(files)))
                    continue
                base = pp.basename(src)
                txt = show(w["content"])
                if src.endswith(".py"):
                    if "conv:" + src not in pr:
                        V("unconverted|.py", loc(w), ".py converted", "%s: %s is written without being converted" % (sc.name, dst))
                elif base.endswith("requirements.txt"):
                    raw = norm(w["content"])
                    if "replace" not in txt and "re.sub" not in txt:
                        V("requirement|not renamed", loc(w), "requirement", "%s: %s keeps its torch requirement (%s)" % (sc.name, dst, txt))
                    elif "paddlepaddle" not in txt and "re.sub" not in txt:
                        V("requirement|renamed", loc(w), "requirement", "%s: torch becomes %s" % (sc.name, txt))
                else:
                    if txt != "<text of %s>" % src:
                        V("copy|altered", loc(w), "unaltered copy", "%s: %s is written as %s" % (sc.name, dst, txt))
                    elif w["mode"] != "copy" and "b" not in str(w["mode"]):
                        V("copy|text mode", loc(w), "unaltered copy", "%s: %s is copied in text mode" % (sc.name, dst))
            for q, ws in writes.items():
                ctx.ob()
                if q in seen or q in helper:
                    continue
                V("extra|%s|%s" % (sc.name, q), loc(ws[0]), "nothing else written", "%s: %s is written, but no input calls for it" % (sc.name, q),
                  ["%s = %s" % (d[0], d[1]) for d in p.decisions])
            if len(ctx.samples) < 8:
                ctx.sample({"scenario": sc.name, "in": sc.inp, "out": sc.out, "expected": [d for s, d, x in exp][:10]})
    _driver.gap_guard(ctx)
    ctx.floor("driver_runs", n, 30)
    ctx.floor("files_followed", nf, 200)
    # the helper file must not land on a mirrored file
    sc = _driver.Sc("project with its own paddle_utils.py", "/w/in", "/o", ["/w/in/a.py", "/w/in/paddle_utils.py"])
    for p in _driver.run_paths(ctx, sc):
        if p.kind != "return":
            continue
        ctx.ob()
        last = [kw for k, kw in p.events if k == "write" and kw["path"] == "/o/paddle_utils.py"]
        if last and not any("file:/w/in/paddle_utils.py" in prov_of(w["content"]) for w in last[-1:]):
            V("clobbered|paddle_utils.py", loc(last[-1]), "every file mirrored", "the helper file overwrites the converted paddle_utils.py of the project")
    ctx.assumptions.append("directory listings and file kinds are those of the modelled trees; broken links are skipped")
