"""C18: arguments reach the right parameter of the right replacement."""
import re

from pcv import apis, facts, routing
from . import _sweep

RULE = ("the slot (callee, parameter, operand position) every user expression fills in the generated code, its number of "
        "occurrences and the generated callees must be among those of the reviewed reference for that API and call shape; "
        "an argument must reach the same keyword however it was passed; no two arguments fill one slot")
KW = re.compile(r"^([^<]*)\(([A-Za-z_]\w*)\)$")


def job(prog, j, thorough, st):
    out, n, sample = [], 0, None
    api, table = j
    kws = {}
    for r in apis.records(prog, api, table, thorough, st):
        if r.outcome not in ("converted", "deleted"):
            continue
        if r.use.style in ("method", "exprmethod", "selfmethod") and apis.self_receiver(r):
            continue
        f = facts.facts(r)
        if "gap" in f:
            out.append(("gap", f["gap"]))
            continue
        key = facts.shape_key(r.use)
        ref, prof, exact = routing.lookup(table, api, key)
        w = r.use.written()
        n += 1
        seen = {}
        for a, (state, d, slots) in f["args"].items():
            for s in slots:
                m = KW.match(s)
                if m:
                    kws.setdefault((a, m.group(1)), {}).setdefault(key, set()).add(m.group(2))
                if m and not m.group(2).startswith("_") and f["show"].count(m.group(1) + "(") == 1 and m.group(1):
                    o = seen.setdefault(s, a)
                    if o != a:
                        out.append(("bad", "%s+%s" % (o, a), "two arguments merged into %s" % s, w, f["show"]))
        if ref is None:
            continue
        if exact and prof.outcomes and r.outcome not in prof.outcomes and not ({"converted", "deleted"} & prof.outcomes):
            out.append(("bad", "", "converted although the reviewed reference does not convert this call", w, f["show"]))
            continue
        new = set(f["calls"]) - ref.calls
        if new:
            out.append(("bad", "callee", "generated code uses %s, which the reference does not assign to this API" % ", ".join(sorted(new)), w, f["show"]))
        for a, (state, d, slots) in f["args"].items():
            extra = set(slots) - prof.slots.get(a, set())
            if extra and not new:
                out.append(("bad", a, "argument `%s` is put into %s (reviewed: %s)" % (a, sorted(extra), sorted(prof.slots.get(a, ()))), w, f["show"]))
            if len(slots) > max(prof.mult.get(a, 1), 1):
                out.append(("bad", a, "argument `%s` is duplicated: %d occurrences (reviewed: %d)" % (a, len(slots), prof.mult.get(a, 1)), w, f["show"]))
        if sample is None and f["args"]:
            sample = (w, {a: x[2] for a, x in f["args"].items()}, f["show"][:200])
    for (a, callee), by in kws.items():
        if len({frozenset(v) for v in by.values()}) > 1:
            ks = sorted({k for v in by.values() for k in v})
            out.append(("bad", a, "argument `%s` reaches %s through different keywords (%s) depending on how it is passed" % (a, callee, ", ".join(ks)),
                        min(by, key=len), " / ".join("%s -> %s" % (k, sorted(v)) for k, v in sorted(by.items())[:4])))
    out.append(("n", n, sample))
    return out


def check(ctx):
    ctx.rule(RULE)
    tot = 0
    for (api, table), f in _sweep.run(ctx, job):
        if f[0] == "n":
            ctx.ob(f[1])
            tot += f[1]
            if f[2]:
                ctx.sample({"use": f[2][0], "slots": f[2][1], "generated": f[2][2]})
        elif f[0] == "gap":
            ctx.undecide(f[1])
        else:
            _, a, what, written, show = f
            ctx.violation("%s|%s|%s" % (api, a, re.sub(r"[^a-z ]", "", what.split("`")[-1])[:40].strip()), _sweep.where(ctx.prog, api, table),
                          "routing", "%s: %s; generated: %s" % (written, what, show[:300]))
    ctx.floor("converting_paths", tot, 20000)
