"""C19: constant arguments of generated calls are the reviewed ones."""
from pcv import apis, facts, routing
from . import _sweep

RULE = ("every call argument the conversion adds by itself (one holding nothing the user wrote) must be one the reviewed "
        "reference has for that API and call shape, and each one the reference has on all paths must be on every path")


def job(prog, j, thorough, st):
    out, n, sample = [], 0, None
    api, table = j
    for r in apis.records(prog, api, table, thorough, st):
        if r.outcome not in ("converted", "deleted"):
            continue
        if r.use.style in ("method", "exprmethod", "selfmethod") and apis.self_receiver(r):
            continue
        f = facts.facts(r)
        if "gap" in f:
            out.append(("gap", f["gap"]))
            continue
        ref, prof, exact = routing.lookup(table, api, facts.shape_key(r.use))
        if ref is None:
            continue
        w = r.use.written()
        c = set(f["consts"])
        n += 1 + len(c)
        for x in sorted(c - prof.may):
            out.append(("bad", x, "added" if not any(y[:2] == x[:2] for y in prof.may) else "value", w, f["show"]))
        if exact:
            have = {y[:2] for y in c}
            for x in sorted(prof.must - c):
                if x[:2] not in have:
                    out.append(("bad", x, "missing", w, f["show"]))
        if sample is None and c:
            sample = (w, sorted(c), f["show"][:200])
    out.append(("n", n, sample))
    return out


TEXT = {"added": "the conversion adds `%s`, which the reviewed reference does not call for",
        "value": "the conversion supplies `%s`, not the reviewed default",
        "missing": "the conversion no longer supplies `%s`"}


def check(ctx):
    ctx.rule(RULE)
    tot = 0
    for (api, table), f in _sweep.run(ctx, job):
        if f[0] == "n":
            ctx.ob(f[1])
            tot += f[1]
            if f[2]:
                ctx.sample({"use": f[2][0], "constants": f[2][1], "generated": f[2][2]})
        elif f[0] == "gap":
            ctx.undecide(f[1])
        else:
            _, x, what, written, show = f
            ctx.violation("%s|%s|%s|%s" % (api, x[0], x[1], what), _sweep.where(ctx.prog, api, table), "constant argument",
                          "%s: %s; generated: %s" % (written, TEXT[what] % ("%s(%s=%s)" % x), show[:300]))
    ctx.floor("constant_arguments_and_paths", tot, 30000)
