"""What a conversion emitted: user expressions, constants, names and calls of
the generated code, each with the place it ends up in."""
import ast
import builtins
import re

from . import hooks
from .engine import Gap
from .sweep import known_literal, roots
from .values import *  # noqa

HOLE = re.compile(r"__h(\d+)__")
WHOLE = re.compile(r"^__h(\d+)__$")
BUILTINS = set(dir(builtins)) | {"__file__", "__name__"}


def real(e, node):
    r = hooks.to_real(e, node)
    ast.fix_missing_locations(r)
    return r


def hole(e, uid):
    return getattr(e, "hole_by_uid", {}).get(int(uid))


def dotted(n):
    """callee as text; the part before an opaque/other receiver is '<>'"""
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        return dotted(n.value) + "." + n.attr
    if isinstance(n, ast.Call):
        return dotted(n.func) + "()"
    if isinstance(n, ast.Subscript):
        return dotted(n.value) + "[]"
    if isinstance(n, (ast.BinOp, ast.UnaryOp)):
        return "<>"
    return "<%s>" % type(n).__name__


class Place:
    """where a leaf sits: chain of (construct, role) from the leaf outwards"""

    __slots__ = ("chain",)

    def __init__(self, chain):
        self.chain = chain

    def nearest_call(self):
        for i, (n, role) in enumerate(self.chain):
            if isinstance(n, ast.Call) and role != "func":
                return dotted(n.func), role, i == 0
        return None

    def slot(self):
        """(callee, role, direct?) of the innermost call argument it is in"""
        c = self.nearest_call()
        if c is None:
            return ("", "", True)
        return c


class Emission:
    def __init__(self, rec):
        e = rec.path.engine
        self.e, self.rec = e, rec
        self.gap = None
        self.leaves = []  # (hole, Place, whole?)
        self.consts = []  # (value, Place)
        self.names = []  # (name, Place)
        self.calls = []  # (Call node, callee)
        self.trees = []
        try:
            for s in rec.inserts:
                self.trees.append(("insert", real(e, s)))
            if rec.expr is not None and rec.expr is not rec.call:
                self.trees.append(("expr", real(e, rec.expr)))
        except Gap as g:
            self.gap = str(g)
            return
        for kind, t in self.trees:
            self._walk(t, [])

    def _walk(self, n, chain):
        if isinstance(n, ast.Name):
            m = WHOLE.match(n.id)
            if m and hole(self.e, m.group(1)) is not None:
                self.leaves.append((hole(self.e, m.group(1)), Place(chain), True))
                return
            self._parts(n.id, chain)
            self.names.append((n.id, Place(chain), n))
            return
        if isinstance(n, ast.Constant):
            if isinstance(n.value, str):
                self._parts(n.value, chain)
            self.consts.append((n.value, Place(chain)))
            return
        if isinstance(n, ast.Call):
            self.calls.append((n, dotted(n.func), Place(chain)))
            self._walk(n.func, [(n, "func")] + chain)
            star = False
            for i, a in enumerate(n.args):
                if isinstance(a, ast.Starred):
                    self._walk(a.value, [(n, "*")] + chain)
                    star = True
                else:
                    self._walk(a, [(n, i if not star else "after*")] + chain)
            for k in n.keywords:
                if k.arg is not None:
                    self._parts(k.arg, chain)
                self._walk(k.value, [(n, k.arg if k.arg is not None else "**")] + chain)
            return
        for f, v in ast.iter_fields(n):
            if isinstance(v, ast.AST):
                self._walk(v, [(n, f)] + chain)
            elif isinstance(v, list):
                many = f in ("elts", "values", "keys", "comparators", "targets", "args", "items")
                for i, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        self._walk(x, [(n, "%s#%d" % (f, i) if many else f)] + chain)
                    elif isinstance(x, str):
                        self._parts(x, chain)
            elif isinstance(v, str) and f not in ("kind",):
                self._parts(v, chain)

    def _parts(self, s, chain):
        for m in HOLE.finditer(s):
            h = hole(self.e, m.group(1))
            if h is not None:
                self.leaves.append((h, Place(chain), False))

    # ---------------------------------------------------------------- text
    def show(self):
        out = []
        for k, t in self.trees:
            out.append(HOLE.sub(lambda m: "<%s>" % hole(self.e, m.group(1)).label if hole(self.e, m.group(1)) else m.group(0), ast.unparse(t)))
        return "; ".join(out)


OPERAND = {
    (ast.BinOp, "left"), (ast.BinOp, "right"), (ast.UnaryOp, "operand"), (ast.BoolOp, "values"),
    (ast.Compare, "left"), (ast.Compare, "comparators"), (ast.Attribute, "value"), (ast.Subscript, "value"),
    (ast.Call, "func"), (ast.Await, "value"), (ast.IfExp, "test"), (ast.IfExp, "body"), (ast.Starred, "value"),
}


def raw_in_operand(pl):
    if not pl.chain:
        return False
    n, role = pl.chain[0]
    role = str(role).split('#')[0]
    return any(isinstance(n, c) and role == f for c, f in OPERAND)


def user_args(rec):
    """names of the expressions the user wrote in the call"""
    sh = rec.use.shape
    if sh is None:
        return []
    out = list(sh.pos) + list(sh.kw)
    if sh.star:
        out.append("star")
    if sh.dstar:
        out.append("dstar")
    return out


def arg_state(rec, em, a):
    """-> 'whole' | 'literal' | 'altered' | 'lost'"""
    e = rec.path.engine
    lit = known_literal(e, a)
    altered = None
    for h, pl, whole in em.leaves:
        if a not in h.prov:
            continue
        if h.root is None:
            if h.raw and raw_in_operand(pl):
                altered = "text without parentheses next to an operator"
                continue
            return "whole", None
        altered = altered or "only a derived part of its text is used: %s" % h.label
    if lit is not None:
        return "literal", lit
    n = getattr(e, "arg_nodes", {}).get(a)
    if n is not None and n.one == "Name":
        i = norm(n.fields.get("id"))
        if isinstance(i, Top) and i.bound is not NotImplemented:
            i = i.bound
        if isinstance(i, str):  # the path knows it is this very name
            if any(nm == i for nm, pl, x in em.names):
                return "whole", None
            return "lost", "the name %s" % i
    if altered:
        return "altered", altered
    return "lost", None
