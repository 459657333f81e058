"""C01: a conversion never modifies or deletes the input."""
from . import _driver
from ._driver import loc

RULE = ("abstract runs of Converter.run over modelled file systems (file/folder input; output apart, equal, above, inside, "
        "beneath, defaulted; exclude patterns opaque): no truncating open, write, copy, rename or removal event hits an input "
        "entry, all of them lie in the output location, and outputs naming the input are refused before any such event")


def check(ctx):
    ctx.rule(RULE)
    n = 0
    for sc in _driver.scenarios():
        ins = sc.inputs()
        single = sc.is_file()
        for p in _driver.run_paths(ctx, sc):
            if p.kind == "gap":
                continue
            n += 1
            ctx.ob()
            first = None
            for k, kw in p.events:
                if k not in _driver.WRITES and k != "mkdir":
                    continue
                q = kw["path"]
                if k == "mkdir":
                    continue
                first = first or (k, q)
                hit = q in ins or (k == "remove" and any(i.startswith(q + "/") for i in ins))
                if hit:
                    ctx.violation("%s|%s" % (loc(kw).split(" ")[-1], "input %s" % ("removed" if k == "remove" else "overwritten")), loc(kw), "input untouched",
                                  "%s: %s of %s, which belongs to the input (in=%s out=%s cwd=%s)" % (sc.name, k, q, sc.inp, sc.out, sc.fs.cwd),
                                  ["%s = %s" % (d[0], d[1]) for d in p.decisions])
                    continue
                o = sc.target() if single else sc.abs_out
                ok = q == o or q.startswith(o + "/") or (k == "remove" and o.startswith(q + "/"))
                if not ok:
                    ctx.violation("%s|outside the output" % loc(kw).split(" ")[-1], loc(kw), "writes go to the output",
                                  "%s: %s of %s, outside the output %s" % (sc.name, k, q, o))
            if sc.refuse:
                if p.kind != "raise":
                    ctx.violation("not refused|%s" % sc.name, "paconvert/converter.py Converter.run", "refusal",
                                  "%s (in=%s out=%s cwd=%s) is not refused" % (sc.name, sc.inp, sc.out, sc.fs.cwd))
                elif first:
                    ctx.violation("late refusal|%s" % sc.name, "paconvert/converter.py Converter.run", "refusal",
                                  "%s: refused only after %s of %s" % ((sc.name,) + first))
            if len(ctx.samples) < 8:
                ctx.sample({"scenario": sc.name, "in": sc.inp, "out": sc.out, "result": p.kind,
                            "writes": [kw["path"] for k, kw in p.events if k in _driver.WRITES][:8]})
    _driver.gap_guard(ctx)
    ctx.floor("driver_runs", n, 40)
    ctx.assumptions.append("paths are compared after abspath; symbolic links that alias input and output are not modelled")
    ctx.assumptions.append("the transformers and the marking pass are summarised: they do not touch the file system (checked by C15's lint of file-system calls)")
