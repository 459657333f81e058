"""C20: exactly the supported calls are converted."""
import json

from pcv import apis, facts, routing, spec, sweep
from pcv.report import NoVerdict
from . import _sweep

RULE = ("for every mapped API and call shape the abstract outcome (converted / deleted / unchanged / not converted / withdrawn) "
        "must be one the reviewed reference has for that shape; every API of the reference is still mapped; a use through an "
        "alias has the same outcomes and generates the same code as the same use of the API it stands for")


def alias_job(prog, j, st):
    """the same use written with the alias and with the target"""
    alias, target, table = j
    out = []
    n = 0
    m = prog.tables[table][target]
    if not m.get("Matcher") or "disable" in m:
        return []
    cls = apis.is_class_api(target)
    if apis.is_class_api(alias) != cls:
        sts = ["static"] if table == "api_mapping" else ["name"]
    else:
        sts = apis.styles(prog, target, table)
    for s in sts:
        if s in ("exprmethod",):
            continue
        if s in ("name", "attr"):
            shs = [None]
        else:
            shs = spec.legal_shapes(target, m, False)[:3]
            if s == "static":
                shs = [spec.with_receiver(x) for x in shs] if cls else shs
        for sh in shs:
            got = []
            for a in (alias, target):
                rs = []
                for r in apis.run_use(prog, apis.Use(a, table, s if a == target or s != "static" or cls else "package", sh), st, 300):
                    t = apis.text(r) if r.outcome in ("converted", "deleted") else ""
                    rs.append((r.outcome, t))
                got.append(set(rs))
            n += 1
            if got[0] != got[1]:
                d = sorted(got[0] ^ got[1])[:2]
                out.append(("alias", alias, target, "%s%s" % (s, sh), str(d)[:300]))
    out.append(("n", n, None))
    return out


def job(prog, j, thorough, st):
    if len(j) == 3:
        return alias_job(prog, j, st)
    out, n, sample = [], 0, None
    api, table = j
    by = {}
    for r in apis.records(prog, api, table, thorough, st):
        if r.kind != "return":
            continue
        if r.use.style in ("method", "exprmethod", "selfmethod") and apis.self_receiver(r):
            continue
        ref, prof, exact = routing.lookup(table, api, facts.shape_key(r.use))
        if ref is None or not exact:
            continue
        n += 1
        by.setdefault(r.use.written(), set()).add(r.outcome)
        if r.outcome not in prof.outcomes and prof.outcomes:
            out.append(("bad", "%s instead of %s" % (r.outcome, "/".join(sorted(prof.outcomes))), r.use.written(), [str(d) for d in r.path.decisions][:6] if hasattr(r.path, "decisions") else []))
    if by and not sample:
        w = min(by, key=len)
        sample = (w, sorted(by[w]))
    out.append(("n", n, sample))
    return out


def check(ctx):
    ctx.rule(RULE)
    prog = ctx.prog
    ref = spec.load("routing.json")["apis"]
    A, T = prog.tables["api_mapping"], prog.tables["attribute_mapping"]
    L, W = prog.tables["api_alias_mapping"], prog.tables["api_wildcard_mapping"]
    for key in ref:
        table, api = key.split(":", 1)
        ctx.ob()
        if api not in prog.tables.get(table, {}) and api not in L and api not in A and api not in T:
            ctx.violation("%s|vanished" % api, "paconvert/%s.json" % table, "supported APIs", "%s is not mapped any more: its uses are left as torch" % api)
    for a in spec.load("aliases.json"):
        ctx.ob()
        if a not in L and a not in A and a not in T:
            ctx.violation("%s|vanished alias" % a, "paconvert/api_alias_mapping.json", "supported APIs", "alias %s is gone: its uses are left as torch" % a)
    jobs = []
    for a, t in L.items():
        for tb in ("api_mapping", "attribute_mapping"):
            if t in prog.tables[tb]:
                jobs.append((a, t, tb))
    res, st = sweep.parallel(prog, jobs, job, ctx.thorough)
    na = 0
    for j, fs in res:
        for f in fs:
            if f[0] == "error":
                raise NoVerdict("internal error on %s: %s" % (j, f[2]))
            if f[0] == "n":
                na += f[1]
                ctx.ob(f[1])
            else:
                ctx.violation("alias|%s|%s" % (f[1], f[3].split("(")[0]), "paconvert/api_alias_mapping.json %s" % f[1], "alias",
                              "%s is an alias of %s, but the same use (%s) is converted differently: %s" % (f[1], f[2], f[3], f[4]))
    ctx.floor("alias_uses_compared", na, 200)
    tot = 0
    for (api, table), f in _sweep.run(ctx, job):
        if f[0] == "n":
            ctx.ob(f[1])
            tot += f[1]
            if f[2]:
                ctx.sample({"use": f[2][0], "outcomes": f[2][1]})
        else:
            _, what, written, dec = f
            ctx.violation("%s|%s|%s" % (api, written, what.split(" ")[0]), _sweep.where(prog, api, table), "outcome",
                          "%s: %s" % (written, what), dec)
    ctx.floor("paths_compared", tot, 20000)
