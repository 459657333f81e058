"""C05: every argument expression survives the conversion of its call."""
from pcv import apis, facts, routing, sweep
from pcv.report import NoVerdict
from . import _sweep

RULE = ("each user argument expression must occur whole in the generated code of every converting path; "
        "exceptions: arguments the reviewed reference drops for that API, and paths that established the argument to be one literal")
GENERIC = {"layout", "device", "memory_format", "inplace", "generator", "non_blocking", "async"}


def job(prog, j, thorough, st):
    out, n, first = [], 0, None
    for r in apis.records(prog, j[0], j[1], thorough, st):
        if r.use.shape is None or r.outcome not in ("converted", "deleted"):
            continue
        if r.use.style in ("method", "exprmethod", "selfmethod") and apis.self_receiver(r):
            continue
        f = facts.facts(r)
        if "gap" in f:
            out.append(("gap", f["gap"]))
            continue
        ref, prof, exact = routing.lookup(j[1], j[0], facts.shape_key(r.use))
        for a, (state, d, slots) in f["args"].items():
            n += 1
            if state in ("whole", "literal"):
                continue
            if prof is None:
                ok = a in GENERIC
            else:
                ok = state in prof.drops.get(a, ()) or (state == "lost" and "altered" in prof.drops.get(a, ()))
            if not ok:
                out.append(("bad", a, state, r.use.written(), f["show"], str(d or ""), list(map(str, r.path.trace()))[-5:] if hasattr(r.path, "trace") else []))
            elif first is None:
                first = (r.use.written(), a, state, f["show"][:200])
    out.append(("n", n, first))
    return out


# keywords the tool drops from every prefix-only call ("paddle does not support now")
PREFIX_DROPS = {"layout", "generator", "memory_format", "sparse_grad", "foreach"}


def mentioned(prog, cls):
    """identifiers the matcher's own code (and what it inherits) spells as strings"""
    import ast

    out = set()
    for c in prog.mro(cls):
        for n in ast.walk(c.node) if hasattr(c, "node") else ():
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier() and len(n.value) < 40:
                out.add(n.value)
    return out


def kw_jobs(prog):
    """matchers of entries that declare no argument list see arbitrary keywords: try every one their code could treat specially"""
    by = {}
    for a, m in prog.tables["api_mapping"].items():
        if m.get("Matcher") and "disable" not in m and not m.get("args_list"):
            by.setdefault((m["Matcher"], apis.is_class_api(a)), []).append(a)
    jobs = []
    for (name, cls), lst in sorted(by.items()):
        c = sweep.matcher_class(prog, name)
        if c is None:
            continue
        ks = sorted(mentioned(prog, c) | {"anything"})
        for a in sorted({lst[0], lst[len(lst) // 2], lst[-1]}):
            jobs.append((a, "api_mapping", tuple(ks)))
    return jobs


def kw_job(prog, j, thorough, st):
    api, table, ks = j
    out, n = [], 0
    ref = routing.ref(table, api)
    allowed = PREFIX_DROPS | set(ref.drops if ref is not None else ())
    for k in ks:
        style = apis.styles(prog, api, table)[0]
        use = apis.Use(api, table, style, sweep.Shape(("extra0",), (k,)))
        for r in apis.run_use(prog, use, st, 100):
            if r.outcome not in ("converted", "deleted"):
                continue
            if style in ("method", "exprmethod", "selfmethod") and apis.self_receiver(r):
                continue
            f = facts.facts(r)
            if "gap" in f:
                continue
            n += 1
            for a, (state, d, slots) in f["args"].items():
                if state not in ("whole", "literal") and a not in allowed:
                    out.append(("bad", a, state, r.use.written(), f["show"], str(d or ""), []))
    out.append(("n", n, None))
    return out


def check(ctx):
    ctx.rule(RULE)
    ctx.rule("For entries without a declared argument list, the same for every keyword that the matcher's code spells out.")
    jobs = kw_jobs(ctx.prog)
    res, st = sweep.parallel(ctx.prog, jobs, kw_job, ctx.thorough)
    nk = 0
    for j, fs in res:
        for f in fs:
            if f[0] == "error":
                raise NoVerdict("internal error on %s: %s" % (j[0], f[2]))
            if f[0] == "n":
                nk += f[1]
                ctx.ob(f[1])
            else:
                ctx.violation("keyword|%s|%s" % (f[1], f[2]), _sweep.where(ctx.prog, j[0]), "argument " + f[2],
                              "%s: the expression passed as `%s` is %s in the generated code: %s" % (f[3], f[1], f[2], f[4][:300]))
    ctx.floor("keyword_probes", nk, 200)
    tot = 0
    for (api, table), f in _sweep.run(ctx, job):
        if f[0] == "n":
            ctx.ob(f[1])
            tot += f[1]
            if f[2]:
                ctx.sample({"use": f[2][0], "argument": f[2][1], "reviewed": f[2][2], "generated": f[2][3]})
        elif f[0] == "gap":
            ctx.undecide(f[1])
        else:
            _, a, state, written, show, d, tr = f
            ctx.violation("%s|%s|%s" % (api, a, state), _sweep.where(ctx.prog, api, table), "argument " + state,
                          "%s: the expression passed as `%s` is %s in the generated code: %s %s" % (written, a, state, show[:300], d), tr)
    ctx.floor("argument_expressions_traced", tot, 40000)
