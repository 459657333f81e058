"""Frozen reference data under /verif/spec (never regenerated by a check)."""
import itertools
import json
import os

from .sweep import Shape, CLASS_PREFIXES, shapes_for

ROOT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
_cache = {}


def load(name):
    if name not in _cache:
        with open(os.path.join(ROOT, name), encoding="utf-8") as f:
            _cache[name] = json.load(f)
    return _cache[name]


def overload_shapes(o, thorough=False):
    pos, kw, req = list(o["pos"]), list(o["kw"]), list(o["req"])
    out = []
    posonly = set(pos) if o.get("posonly") else ()

    def add(s):
        if s not in out and not any(k in posonly for k in s.kw):
            out.append(s)

    nreq = 0
    for i, p in enumerate(pos):
        if p in req:
            nreq = i + 1
    rpos = pos[:nreq]
    rkw = [k for k in kw if k in req]
    opt = [p for p in pos[nreq:]] + [k for k in kw if k not in req]
    # parameters before a required one can only be left out by keyword passing
    allp = pos + kw
    add(Shape(rpos, rkw))
    add(Shape((), [x for x in allp if x in req]))
    add(Shape((), allp))
    add(Shape(pos, kw))
    add(Shape(pos, rkw))
    for k in range(nreq, len(pos) + 1):
        add(Shape(pos[:k], rkw))
    for x in opt:
        add(Shape(rpos, rkw + [x]))
        add(Shape((), [y for y in allp if y in req] + [x]))
    for x in opt:
        add(Shape((), [y for y in allp if y != x]))
    if len(opt) <= (7 if thorough else 5):
        for r in range(2, len(opt)):
            for c in itertools.combinations(opt, r):
                add(Shape(rpos, rkw + list(c)))
    else:
        for c in itertools.combinations(opt, 2):
            if thorough or len(opt) <= 6:
                add(Shape(rpos, rkw + list(c)))
    add(Shape((), allp[::-1]))
    add(Shape(rpos, (rkw + opt)[::-1]))
    if o.get("var"):
        add(Shape(pos + ["extra0"], rkw))
        add(Shape(pos + ["extra0", "extra1"], rkw))
        add(Shape(pos + ["extra0", "extra1", "extra2"], kw))
    add(Shape(rpos, rkw, star=True))
    add(Shape((), rkw, star=True))
    add(Shape(rpos, rkw, dstar=True))
    add(Shape((), (), dstar=True))
    add(Shape((), (), star=True, dstar=True))
    return out


def legal_shapes(api, mapping, thorough=False):
    """call shapes the source library accepts for this API"""
    ovs = load("calls.json").get(api)
    if ovs is None:
        return shapes_for(mapping, thorough)
    out = []
    for o in ovs:
        for s in overload_shapes(o, thorough):
            if s not in out:
                out.append(s)
    return out


def is_class_api(api):
    return api.startswith(CLASS_PREFIXES)


def with_receiver(shape):
    return Shape(("obj0",) + shape.pos, shape.kw, shape.star, shape.dstar)


# calls the source library itself rejects, on paths where an argument is known
# to be a particular literal: api -> (argument, literal, needed instead)
ILLEGAL = {"torch.optim.lr_scheduler.OneCycleLR": ("total_steps", "None", ("epochs", "steps_per_epoch"))}


def illegal(use, e):
    r = ILLEGAL.get(use.api)
    if r is None or use.shape is None:
        return False
    from .sweep import known_literal

    lit = known_literal(e, r[0])
    names = use.shape.names()
    return (
        lit is not None
        and str(lit).strip("() ") == r[1]
        and not use.shape.dstar
        and not all(x in names for x in r[2])
    )
