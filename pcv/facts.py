"""What one abstract conversion says about argument routing: which slot of the
generated code each user expression fills, which constant arguments the
generated calls carry and which calls are generated."""
import ast

from . import apis, emit, sweep
from .emit import HOLE, dotted

ALIAS_STYLE = {"exprmethod": "method", "selfmethod": "method"}


def clean(s):
    return HOLE.sub("?", s)


def _op(n):
    o = getattr(n, "op", None)
    return type(o).__name__ if o is not None else ""


def slot_text(pl):
    """the path from the leaf out to the innermost call argument"""
    out = []
    for n, role in pl.chain:
        if isinstance(n, ast.Call):
            if role == "func":
                out.append("<receiver of .%s()>" % (clean(n.func.attr) if isinstance(n.func, ast.Attribute) else ""))
            else:
                out.append("%s(%s)" % (clean(dotted(n.func)), role))
            break
        if isinstance(n, (ast.Expr, ast.Module)):
            continue
        if isinstance(n, ast.Attribute):
            out.append(".%s" % clean(n.attr))
            continue
        if isinstance(n, ast.stmt):
            out.append("%s.%s" % (type(n).__name__, str(role).split("#")[0]))
            break
        op = _op(n)
        out.append("%s%s.%s" % (type(n).__name__, ":" + op if op else "", role))
    return " < ".join(out)


def user_hole(h, args):
    return any(a in h.prov for a in args) or "self" in h.prov


def const_args(em, args):
    """(callee, role, text) of call arguments holding nothing of the user's"""
    out = []
    for n, callee, pl in em.calls:
        items = [(i, a) for i, a in enumerate(n.args) if not isinstance(a, ast.Starred)]
        items += [(k.arg, k.value) for k in n.keywords if k.arg is not None]
        for role, v in items:
            t = ast.unparse(v)
            if any(m and emit.hole(em.e, m.group(1)) is not None for m in HOLE.finditer(t)):
                continue
            if any(isinstance(x, ast.Name) and x.id in ("obj", "u", "v", "self") for x in ast.walk(v)):
                continue
            if len(t) > 80:
                t = t[:80]
            out.append((clean(callee), str(role), clean(t)))
    return out


def facts(r):
    """dict for a converted/deleted use; None when nothing is to be said"""
    if r.outcome not in ("converted", "deleted"):
        return None
    em = emit.Emission(r)
    if em.gap:
        return {"gap": em.gap}
    args = emit.user_args(r)
    out = {"args": {}, "consts": sorted(set(const_args(em, args))),
           "calls": sorted({clean(c) for n, c, pl in em.calls} | _names(em)), "show": em.show()}
    for a in args:
        st, d = emit.arg_state(r, em, a)
        slots = [slot_text(pl) for h, pl, whole in em.leaves if a in h.prov]
        out["args"][a] = (st, d, slots)
    return out


def _names(em):
    """dotted names in the generated code that are not called"""
    out = set()

    def walk(n):
        if isinstance(n, ast.Attribute):
            t = dotted(n)
            if "<" not in t and "(" not in t and "[" not in t:
                out.add(clean(t))
                return
        for c in ast.iter_child_nodes(n):
            walk(c)

    for k, t in em.trees:
        walk(t)
    return out


def shape_key(use):
    st = ALIAS_STYLE.get(use.style, use.style)
    return "%s%s" % (st, repr(use.shape) if use.shape is not None else "")
