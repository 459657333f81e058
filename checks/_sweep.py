"""Driver shared by the checks that look at every mapped API."""
from pcv import apis, spec, sweep
from pcv.report import NoVerdict


def where(prog, api, table="api_mapping"):
    m = prog.tables[table].get(api, {})
    c = sweep.matcher_class(prog, m.get("Matcher") or "")
    if c is None:
        return "paconvert/%s.json:%s" % (table, api)
    return "%s:%d class %s; paconvert/%s.json:%s" % (c.module.rel, c.node.lineno, c.name, table, api)


def run(ctx, fn, floor_paths=20000, mode_note=""):
    """fn(prog, (api, table), thorough, stats) -> list of facts"""
    prog = ctx.prog
    jobs = sweep.all_jobs(prog)
    ctx.floor("mapping_entries", len(jobs), 1500)
    res, st = sweep.parallel(prog, jobs, fn, ctx.thorough)
    ctx.coverage["abstract_paths"] = st.paths
    ctx.coverage["interpreted_steps"] = st.steps
    ctx.coverage["paths_with_gap"] = st.gaps
    ctx.coverage["searches_cut_off"] = st.capped
    ctx.analysed |= {"%s:%s" % f for f in st.funcs}
    for k, n in st.gap_reasons.items():
        ctx.undecide("gap: " + k, n)
    out = []
    for job, facts in res:
        for f in facts:
            if f and f[0] == "error":
                raise NoVerdict("internal error on %s: %s" % (job, f[2]))
            out.append((job, f))
    if st.paths < floor_paths:
        raise NoVerdict("only %d abstract paths (expected at least %d)" % (st.paths, floor_paths))
    if st.gaps > st.paths // 5:
        raise NoVerdict("%d of %d paths could not be interpreted" % (st.gaps, st.paths))
    return out
