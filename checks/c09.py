"""C09: helpers are shipped, complete and importable."""
import ast
import hashlib

from pcv import apis, emit, names, spec, sweep
from pcv.emit import HOLE
from pcv.values import *  # noqa
from . import _sweep
from .c07 import USER, helper_tree, roots

RULE = ("on every converting path: helper code handed over must parse and all its own names must be bound; every helper "
        "name and every patched method the generated code uses must be defined by helper code handed over on that path, "
        "with a signature the generated call fits, under a name `import *` exports (folder input) and with that import "
        "inserted; no two helpers share a name with different bodies")


def top_defs(t):
    out = {}
    for s in t.body:
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            out[s.name] = s
        else:
            for n in names.locals_of([s]):
                out.setdefault(n, s)
    return out


def patched(t):
    """method names put on a class by the helper: setattr(C, 'm', f) / C.m = f"""
    out = set()
    for n in ast.walk(t):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3:
            if isinstance(n.args[1], ast.Constant):
                out.add(str(n.args[1].value))
        elif isinstance(n, ast.Assign):
            for x in n.targets:
                if isinstance(x, ast.Attribute):
                    out.add(x.attr)
    return out


def fits(call, fn):
    """does the generated call fit the helper's signature?"""
    if not isinstance(fn, (ast.FunctionDef, ast.ClassDef)):
        return None
    skip = 0
    if isinstance(fn, ast.ClassDef):
        init = [s for s in fn.body if isinstance(s, ast.FunctionDef) and s.name == "__init__"]
        if not init:
            return None
        fn, skip = init[0], 1
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    npos = sum(not isinstance(x, ast.Starred) for x in call.args)
    if npos > len(pos) and not a.vararg:
        return "takes %d positional arguments, %d given" % (len(pos), npos)
    kwo = [x.arg for x in a.kwonlyargs]
    given = [k.arg for k in call.keywords if k.arg]
    if any(HOLE.search(g) for g in given):
        return None
    for g in given:
        if g not in pos + kwo and not a.kwarg:
            return "has no parameter %s" % g
        if g in pos[:npos]:
            return "gets %s twice" % g
    if not star and not dstar:
        req = pos[: len(pos) - len(a.defaults)] if a.defaults else pos
        for i, p in enumerate(req):
            if i >= npos and p not in given:
                return "misses %s" % p
        for x, d in zip(kwo, a.kw_defaults):
            if d is None and x not in given:
                return "misses %s" % x
    return None


def analyse(prog, r, bodies):
    bad = []
    if r.kind != "return":
        return bad, 0
    mapping, may = roots(prog)
    pk = r.use.api.split(".")[0]
    ok_roots = {(mapping[pk] if pk in mapping else "paddle").split(".")[0], "paddle"}
    defs, patches, obs = {}, set(), 0
    for code in r.helpers:
        obs += 1
        t = helper_tree(r, code)
        if t is None:
            return [("gap", "helper text not constant")], obs
        if isinstance(t, SyntaxError):
            bad.append(("helper does not parse", str(t)))
            continue
        f = names.Free(set())
        pre = set()
        for s in t.body:  # functions may use names bound later at top level
            pre |= names.locals_of([s]) if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) else {s.name}
        for s in t.body:
            f2 = names.Free(pre)
            f2.visit(s)
            f.free += f2.free
        for n, node in f.free:
            m = HOLE.fullmatch(n)
            if m:
                continue
            if n not in ok_roots:
                bad.append(("helper uses the undefined name %s" % n, ast.unparse(t)[:200]))
        d = top_defs(t)
        for k, v in d.items():
            dump = ast.dump(v) if not isinstance(v, (ast.Import, ast.ImportFrom)) else "import"
            bodies.setdefault(k, {}).setdefault(hashlib.md5(dump.encode()).hexdigest(), r.use.written())
        defs.update(d)
        patches |= patched(t)
    if r.outcome not in ("converted", "unchanged", "deleted"):
        return bad, obs
    if r.outcome == "unchanged":
        if r.helpers and isinstance(r.call, ANode) and r.call.one == "Call":
            pass
        trees = []
    em = emit.Emission(r)
    if em.gap:
        return bad + [("gap", em.gap)], obs
    dirmode = None
    for d in r.path.decisions:
        if "directory" in str(d[0]):
            dirmode = bool(d[1])
    f = names.Free(USER)
    for k, t in em.trees:
        f.visit(t)
    used = set()
    for n, node in f.free:
        if HOLE.search(n) or n in ok_roots or n in mapping.values():
            continue
        used.add(n)
        obs += 1
        if n not in defs:
            bad.append(("helper %s is used but not shipped" % n, em.show()))
        elif dirmode and n.startswith("_"):
            bad.append(("helper %s is not exported by `import *`" % n, em.show()))
    for node, callee, pl in em.calls:
        if callee in defs:
            obs += 1
            w = fits(node, defs[callee])
            if w and not (w.startswith("misses") and r.use.api not in spec.load("calls.json")):
                bad.append(("helper %s %s" % (callee, w), em.show()))
    # patched methods: an underscore attribute on something that is not a package
    for k, t in em.trees:
        for n in ast.walk(t):
            if isinstance(n, ast.Attribute) and n.attr.startswith("_") and not n.attr.startswith("__"):
                if emit.dotted(n).split(".")[0] in ok_roots:
                    continue
                if HOLE.search(n.attr):
                    continue
                pa = str(prog.tables[r.use.table].get(r.use.api, {}).get("paddle_api") or "")
                if n.attr in (r.use.api.split(".")[-1], pa.split(".")[-1]):
                    continue  # the user's own attribute, or paddle's
                obs += 1
                used.add(n.attr)
                if n.attr not in patches:
                    bad.append(("method %s is used but not shipped" % n.attr, em.show()))
    if r.helpers and dirmode:
        obs += 1
        imps = [t for k, t in em.trees if isinstance(t, ast.ImportFrom)]
        if not any(any(a.name == "*" for a in t.names) or {a.name for a in t.names} >= set(defs) for t in imps):
            bad.append(("the import of the helper file is missing", em.show()))
    return bad, obs


def job(prog, j, thorough, st):
    out, n, s, bodies = [], 0, None, {}
    for r in apis.records(prog, j[0], j[1], thorough, st):
        if r.kind == "gap" or (r.use.style in ("method", "exprmethod", "selfmethod") and apis.self_receiver(r)):
            continue
        bad, k = analyse(prog, r, bodies)
        n += k
        for what, d in bad:
            out.append(("bad", what, r.use.written(), d))
        if s is None and r.helpers:
            s = (r.use.written(), apis.text(r)[:200], str(show(norm(r.helpers[0])))[:200])
    out.append(("n", n, s, bodies))
    return out


def check(ctx):
    ctx.rule(RULE)
    tot = 0
    allb = {}
    for (api, table), f in _sweep.run(ctx, job):
        if f[0] == "n":
            ctx.ob(f[1])
            tot += f[1]
            if f[2]:
                ctx.sample({"use": f[2][0], "generated": f[2][1], "helper": f[2][2]})
            for k, v in f[3].items():
                for h, w in v.items():
                    allb.setdefault(k, {}).setdefault(h, (api, table, w))
        elif f[1] == "gap":
            ctx.undecide(f[3])
        else:
            ctx.violation("%s|%s" % (api, f[1]), _sweep.where(ctx.prog, api, table), "helper code",
                          "%s: %s: %s" % (f[2], f[1], str(f[3])[:300]))
    for k, v in sorted(allb.items()):
        ctx.ob()
        if len(v) > 1:
            ex = sorted(v.values())[:2]
            ctx.violation("collision|%s" % k, "; ".join(_sweep.where(ctx.prog, a, t) for a, t, w in ex), "helper code",
                          "helper %s has %d different definitions (%s): the later one replaces the earlier" % (k, len(v), ", ".join(w for a, t, w in ex)))
    ctx.floor("distinct_helpers", len(allb), 40)
    ctx.floor("helper_obligations", tot, 1000)
