"""C08: no legal use of a mapped API makes the conversion raise."""
from pcv import apis
from . import _sweep

RULE = "every abstract path of the transformer over a legal use must return normally"


def job(prog, j, thorough, st):
    out = []
    n = 0
    for r in apis.records(prog, j[0], j[1], thorough, st):
        if r.kind == "gap":
            continue
        n += 1
        if r.kind == "raise":
            out.append(("raise", r.use.style, r.use.written(), str(r.exc), list(r.path.trace())[-6:] if hasattr(r.path, "trace") else []))
    out.append(("n", n))
    return out


def check(ctx):
    ctx.rule(RULE)
    uses = 0
    for (api, table), f in _sweep.run(ctx, job):
        if f[0] == "n":
            ctx.ob(f[1])
            uses += f[1]
            continue
        _, style, written, exc, tr = f
        et = exc.split(":")[0].split("(")[0]
        ctx.violation("%s|%s|%s" % (api, style, et), _sweep.where(ctx.prog, api, table), RULE,
                      "converting %s raises %s" % (written, exc[:200]), tr)
        ctx.sample({"use": written, "raises": exc[:120]})
    ctx.floor("uses_followed_to_the_end", uses, 20000)
