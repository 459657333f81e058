"""C07: generated code parses, is self-contained and mentions no torch."""
import ast

from pcv import apis, emit, names, sweep
from pcv.emit import HOLE
from pcv.values import ANode, Hole, norm
from . import _sweep

RULE = ("generated code must parse; every free name must be a builtin, the user's, a root package the import rewriting "
        "provides, bound earlier by the same generated code, or defined by helper code shipped with it; no dotted name may "
        "start with a replaced package; no `{}` placeholder may be left in it; the replacing node must be an expression")
USER = {"obj", "u", "v", "self", "pcv_y"}


def helper_defs(r):
    """names bound at top level by the helper code shipped on this path"""
    out = set()
    for code in r.helpers:
        t = helper_tree(r, code)
        if t is None:
            return None
        for s in t.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                out.add(s.name)
            else:
                out |= names.locals_of([s])
    return out


def helper_tree(r, code):
    from pcv.hooks import text_of

    code = norm(code)
    if isinstance(code, str):
        txt = code
    else:
        try:
            txt, table = text_of(code)
        except Exception:
            return None
    try:
        return ast.parse(txt)
    except SyntaxError as ex:
        return ex


def roots(prog):
    g = sweep.global_tables(prog)
    m = g.get("TORCH_PACKAGE_MAPPING") or {}
    return m, set(g.get("MAY_TORCH_PACKAGE_LIST") or ())


def analyse(prog, r):
    """-> list of (what, detail)"""
    bad = []
    if r.kind == "raise":
        if r.exc is not None and "SyntaxError" in str(r.exc):
            bad.append(("does not parse", str(r.exc)))
        return bad
    if r.outcome not in ("converted", "deleted"):
        return bad
    em = emit.Emission(r)
    if em.gap:
        return [("gap", em.gap)]
    mapping, may = roots(prog)
    pk = r.use.api.split(".")[0]
    ok_roots = {mapping[pk]} if pk in mapping else set(mapping.values())
    ok_roots = {x.split(".")[0] for x in ok_roots}
    f = names.Free(USER)
    for k, t in em.trees:
        f.visit(t)
    defs = None
    for n, node in f.free:
        m = HOLE.fullmatch(n)
        if m and emit.hole(em.e, m.group(1)) is not None and "<unique>" not in emit.hole(em.e, m.group(1)).prov:
            continue
        if n in ok_roots:
            continue
        if defs is None:
            defs = helper_defs(r)
            if defs is None:
                bad.append(("gap", "helper text not constant"))
                defs = set()
        if n in defs:
            continue
        un = [h for h in HOLE.findall(n) if emit.hole(em.e, h) is not None and "<unique>" in emit.hole(em.e, h).prov]
        nm = HOLE.sub("?", n)
        if n in mapping:
            bad.append(("refers to %s" % nm, em.show()))
        else:
            bad.append(("undefined name %s" % nm, em.show()))
    for v, pl in em.consts:
        if isinstance(v, str) and "{}" in v and v not in str(prog.tables[r.use.table].get(r.use.api, {}).get("paddle_api")):
            bad.append(("placeholder left", em.show()))
    for k, t in em.trees:
        for x in ast.walk(t):
            if isinstance(x, ast.Dict) and not x.keys:
                bad.append(("placeholder left", em.show()))
            if isinstance(x, ast.Set) and all(isinstance(y, ast.Name) for y in x.elts):
                bad.append(("placeholder left", em.show()))
    if r.expr is not None and isinstance(r.expr, ANode):
        k = r.expr.types
        from pcv.values import ALL_STMT

        if k <= ALL_STMT and not (k <= {"Assert"} and r.use.ctx == "expr"):
            bad.append(("statement used as an expression", em.show()))
    return bad


def job(prog, j, thorough, st):
    out, n, s = [], 0, None
    for r in apis.records(prog, j[0], j[1], thorough, st):
        if r.kind == "gap":
            continue
        n += 1
        for what, d in analyse(prog, r):
            out.append(("bad", what, r.use.written(), d))
        if s is None and r.outcome == "converted":
            s = (r.use.written(), apis.text(r)[:200])
    out.append(("n", n, s))
    return out


def check(ctx):
    ctx.rule(RULE)
    tot = 0
    for (api, table), f in _sweep.run(ctx, job):
        if f[0] == "n":
            ctx.ob(f[1])
            tot += f[1]
            if f[2]:
                ctx.sample({"use": f[2][0], "generated": f[2][1]})
        elif f[1] == "gap":
            ctx.undecide(f[3])
        else:
            ctx.violation("%s|%s" % (api, f[1]), _sweep.where(ctx.prog, api, table), "generated code",
                          "%s: %s: %s" % (f[2], f[1], str(f[3])[:300]))
    ctx.floor("generated_programs", tot, 20000)
