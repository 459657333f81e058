"""Driver of the checks that follow the whole transformer pipeline over
schematic modules (see pcv/lab.py for the runs, pcv/oracle.py for the
expectation)."""
from pcv import lab, sweep
from pcv.report import NoVerdict

from ._positions import BLOCK, EXPR, put

PROBE = {
    "call, one expression": "torch.pcv_one(p)",
    "call, hoisted statements": "torch.pcv_hoist(p, t1)",
    "call, not converted": "torch.pcv_none(p)",
    "call, statement result": "torch.pcv_stmt(p)",
    "call, withdrawn": "torch.pcv_mis(p)",
    "call, unchanged": "torch.pcv_same(p)",
    "call, deleted": "torch.pcv_delete(p)",
    "method, one expression": "w9.pcv_one(p)",
    "method, hoisted statements": "w9.pcv_hoist(p, t1)",
    "method, not converted": "w9.pcv_none(p)",
    "method, statement result": "w9.pcv_stmt(p)",
    "method, withdrawn": "w9.pcv_mis(p)",
    "method, unchanged": "w9.pcv_same(p)",
    "method, deleted": "w9.pcv_delete(p)",
    "attribute, one expression": "w9.pcv_aone",
    "attribute, hoisted statements": "w9.pcv_ahoist",
    "attribute, not converted": "w9.pcv_anone",
    "attribute, withdrawn": "w9.pcv_amis",
    "attribute, unchanged": "w9.pcv_asame",
    "attribute, deleted": "w9.pcv_adelete",
    "package attribute, one expression": "torch.pcv_pone",
    "package attribute, not converted": "torch.pcv_unmapped",
    "package attribute, withdrawn": "torch.pcv_pmis",
    "package attribute, unchanged": "torch.pcv_psame",
    "package attribute, deleted": "torch.pcv_pdelete",
    "user name": "v9",
    "user method": "w9.pcv_user(v9)",
    "user attribute": "w9.pcv_attr",
}
# positions where the probe is the head of a longer dotted path, which makes
# it another API
DOTTED = {n for n, (t, _) in EXPR.items() if "P." in t or "P(" in t}


def anchors(prog, *names):
    """file:line of the functions that decide the rule (as far as they exist
    under these names; the verdict does not depend on them)"""
    out = []
    for nm in names:
        for mi in prog.modules.values():
            for ci in mi.classes.values():
                m = ci.methods.get(nm)
                if m is not None and not ci.name.endswith("Matcher"):
                    out.append("%s:%d %s.%s" % (mi.rel, m.node.lineno, ci.name, nm))
    return "; ".join(out[:6]) or "paconvert/transformer (%s)" % ", ".join(names)


def job(prog, j, thorough, st):
    key, src, kw = j
    return [("case", key, f) for f in lab.run_case(prog, src, st, **kw)]


def run(ctx, cases, kinds, rule, names, floor):
    """cases: [(key, source, kwargs)]; kinds: fact kind -> wording"""
    prog = lab.program()
    seen = {}
    for k, s, kw in cases:
        seen.setdefault((s, repr(sorted(kw.items()))), (k, s, kw))
    cases = list(seen.values())
    res, st = sweep.parallel(prog, cases, job, ctx.thorough)
    ctx.coverage["schematic_modules"] = ctx.coverage.get("schematic_modules", 0) + len(cases)
    ctx.coverage["abstract_paths"] = ctx.coverage.get("abstract_paths", 0) + st.paths
    ctx.coverage["paths_with_gap"] = ctx.coverage.get("paths_with_gap", 0) + st.gaps
    ctx.coverage["searches_cut_off"] = ctx.coverage.get("searches_cut_off", 0) + st.capped
    ctx.analysed |= {"%s:%s" % f for f in st.funcs}
    for k, n in st.gap_reasons.items():
        ctx.undecide("gap: " + k, n)
    empty = 0
    at = anchors(prog, *names)
    for (key, src, kw), out in res:
        n = 0
        for f in out:
            if f[0] == "error":
                raise NoVerdict("internal error on %s: %s" % (key, f[2]))
            f = f[2]
            if f[0] == "n":
                n = f[1]
                ctx.ob(n)
            elif f[0] == "undecided":
                ctx.undecide(f[2])
            elif f[0] in kinds:
                why = " | ".join(str(x) for x in f[2:])
                if f[0] == "tree":
                    why = "expected\n%s\nbut the transformers give\n%s" % (f[2], f[3])
                ctx.violation("%s|%s" % (key, f[0]), at, rule, "%s: for the module\n%s\n%s" % (kinds[f[0]], src, why))
        empty += not n
    if empty:
        ctx.undecide("no path of the module could be followed to its end", empty)
    if len(cases) < floor:
        raise NoVerdict("only %d schematic modules" % len(cases))
    if empty * 10 > len(cases):
        raise NoVerdict("%d of %d schematic modules could not be followed" % (empty, len(cases)))
    return res


def at(pos, text, pre="import torch\n"):
    return pre + put(EXPR[pos][0], "P", text)


def inblock(blk, text, pre="import torch\n"):
    return pre + put(BLOCK[blk], "S", text)
