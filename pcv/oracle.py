"""What the transformers must make of a schematic module: an independent
statement of the rewriting contract, computed on the plain syntax tree of the
schema (no code of /repo is involved).

A schema uses the probe APIs of lab.py; every other name is user code."""
import ast
import copy
import itertools

MARK = "Not Support auto convert"
COND = object()
FREE = object()


class Use:
    def __init__(self, node, api, kind, outcome, stmt, timing, parent_expr, deco):
        self.node, self.api, self.kind, self.outcome = node, api, kind, outcome
        self.stmt, self.timing, self.parent_expr, self.deco = stmt, timing, parent_expr, deco
        self.final = None


def dotted(n):
    p = []
    while isinstance(n, ast.Attribute):
        p.append(n.attr)
        n = n.value
    if isinstance(n, ast.Name):
        p.append(n.id)
        return p[::-1]
    return None


def bindings(tree, roots=("torch",)):
    """local name -> torch path, for the imports of the schema"""
    b = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.name.split(".")[0] in roots:
                    b[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and n.level == 0 and n.module and n.module.split(".")[0] in roots:
            for a in n.names:
                b[a.asname or a.name] = n.module + "." + a.name
    return b


def _timing(parent, field, index):
    """how a child relates to the evaluation of its parent: None = with it"""
    if isinstance(parent, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
        return None if field == "generators" and index == 0 else COND
    if isinstance(parent, ast.comprehension):
        return None if field == "iter" else COND
    if isinstance(parent, ast.Lambda):
        return None if field == "args" else COND
    if isinstance(parent, ast.BoolOp):
        return None if index == 0 else COND
    if isinstance(parent, (ast.IfExp, ast.Assert)):
        return None if field == "test" else COND
    if isinstance(parent, (ast.For, ast.AsyncFor)) and field == "target":
        return COND
    if isinstance(parent, ast.While) and field == "test":
        return COND
    if isinstance(parent, (ast.With, ast.AsyncWith)) and field == "items" and index > 0:
        return COND
    if isinstance(parent, ast.withitem):
        return None if field == "context_expr" else COND
    if isinstance(parent, ast.ExceptHandler) and field == "type":
        return COND
    if isinstance(parent, ast.match_case) and field in ("guard", "pattern"):
        return COND
    if isinstance(parent, ast.Compare) and field == "comparators" and index > 0:
        return FREE
    if field in ("annotation", "returns"):
        return FREE
    return None


def other_names(tree, roots=("torch",)):
    """local names bound by imports of anything else: not tensors"""
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            out |= {a.asname or a.name for a in n.names if a.name.split(".")[0] not in roots}
        elif isinstance(n, ast.ImportFrom) and (n.level or (n.module or "").split(".")[0] not in roots):
            out |= {a.asname or a.name for a in n.names}
    return out


class Reader:
    """finds the probe uses, in evaluation (post) order"""

    def __init__(self, tree, CALL, ATTR, PKG):
        self.tree, self.CALL, self.ATTR, self.PKG = tree, CALL, ATTR, PKG
        self.b = bindings(tree)
        self.others = other_names(tree)
        self.uses = []
        if self.b:
            self.walk(tree, None, None, None, (), None, False)

    def path(self, n):
        d = dotted(n)
        if d is None:
            return None
        if d[0] in self.b:
            return self.b[d[0]] + "." + ".".join(d[1:]) if d[1:] else self.b[d[0]]
        return ".".join(d)

    def walk(self, n, parent, field, stmt, timing, pexpr, deco):
        if isinstance(n, ast.stmt):
            stmt, timing, deco = n, (), False
        for f, v in ast.iter_fields(n):
            if isinstance(v, ast.AST):
                self.child(v, n, f, 0, stmt, timing, deco)
            elif isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        self.child(x, n, f, i, stmt, timing, deco)
        self.use(n, parent, field, stmt, timing, deco)

    def child(self, c, n, f, i, stmt, timing, deco):
        t = _timing(n, f, i)
        self.walk(c, n, f, stmt, timing + ((t,) if t is not None else ()), n, deco or f == "decorator_list")

    def add(self, n, api, kind, outcome, parent, stmt, timing, deco):
        t = COND if COND in timing else FREE if FREE in timing else None
        self.uses.append(Use(n, api, kind, outcome, stmt, t, parent, deco))

    def use(self, n, parent, field, stmt, timing, deco):
        f = n.func if isinstance(n, ast.Call) else n
        while isinstance(f, ast.Attribute):
            f = f.value
        if isinstance(f, ast.Name) and f.id in self.others:
            return
        a = (parent, stmt, timing, deco)
        if isinstance(n, ast.Call):
            p = self.path(n.func)
            name = p.split(".")[-1] if p else n.func.attr if isinstance(n.func, ast.Attribute) else None
            if name in self.CALL:
                if p and p.startswith("torch."):
                    self.add(n, p, "call", self.CALL[name][1], *a)
                elif isinstance(n.func, ast.Attribute):
                    self.add(n, "torch.Tensor." + name, "method", self.CALL[name][1], *a)
        elif isinstance(n, ast.Attribute):
            if isinstance(parent, ast.Call) and field == "func" or isinstance(parent, ast.Attribute) and dotted(n):
                return
            p = self.path(n)
            if p and p.startswith("torch.") and n.attr in self.PKG:
                self.add(n, p, "package", self.PKG[n.attr], *a)
            elif n.attr in self.ATTR:
                self.add(n, "torch.Tensor." + n.attr, "attr", self.ATTR[n.attr][1], *a)


def replacement(u, n):
    """(hoisted statements, expression) of a converted use; n is the use with
    its inner uses already replaced"""
    src = ast.unparse
    name = u.api.split(".")[-1]
    if u.kind in ("call", "method"):
        arg = {}
        for i, x in enumerate(n.args):
            arg["xy"[i]] = x
        for k in n.keywords:
            arg[k.arg] = k.value
        x = src(arg["x"])
        if u.outcome == "hoist":
            t = src(arg["y"])
            h = ast.parse("pcv_a_%s = paddle.pcv_f(%s)\npcv_b_%s = paddle.pcv_g(pcv_a_%s)" % (t, x, t, t)).body
            return h, ast.parse("paddle.pcv_r(pcv_b_%s)" % t, mode="eval").body
        if u.outcome == "converted":
            return [], ast.parse("paddle.pcv_one(%s)" % x, mode="eval").body
    if u.kind == "attr":
        r = src(n.value)
        if u.outcome == "hoist":
            return (ast.parse("pcv_a = paddle.pcv_f(%s)\npcv_b = paddle.pcv_g(pcv_a)" % r).body,
                    ast.parse("paddle.pcv_r(pcv_b)", mode="eval").body)
        if u.outcome == "converted":
            return [], ast.parse("%s.pcv_done" % r, mode="eval").body
    if u.kind == "package":
        return [], ast.parse(u.api.replace("torch", "paddle", 1), mode="eval").body
    raise AssertionError((u.api, u.outcome))


class Rewriter(ast.NodeTransformer):
    def __init__(self, uses, resolve):
        self.by = {id(u.node): u for u in uses}
        self.hoists = {}
        self.resolve = resolve
        self.gone = set()

    def visit(self, n):
        u = self.by.get(id(n))
        n2 = self.generic_visit(n)
        if isinstance(n, ast.stmt) and (n in self.gone):
            pass
        if u is None:
            return self.named(n2)
        if u.final in ("unsupported", "withdrawn", "unchanged"):
            return self.named(n2)
        if u.final == "deleted":
            if u.deco and isinstance(u.parent_expr, DEFS):
                u.parent_expr.decorator_list = [d for d in u.parent_expr.decorator_list if d is not n]
            else:
                self.gone.add(u.stmt)
            return n2
        hs, ex = replacement(u, n2)
        self.hoists.setdefault(id(u.stmt), []).extend(hs)
        return ex

    def named(self, n):
        """a torch path that stays is spelled in full"""
        return n


def _blocks(n):
    for f in ("body", "orelse", "finalbody"):
        v = getattr(n, f, None)
        if isinstance(v, list):
            yield f, v


DEFS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)


def open_choice(u):
    """uses the contract lets the tool convert or report, as it likes"""
    if u.outcome == "hoist":
        return u.timing is FREE
    return u.outcome == "deleted" and u.kind == "package" and u.deco and isinstance(u.parent_expr, DEFS[1:])


def settle(u, free):
    """final outcome of a use under the timing rule"""
    o = u.outcome
    if o == "hoist":
        if u.timing is COND or (u.timing is FREE and not free):
            return "unsupported"
        return "converted"
    if o == "deleted" and not isinstance(u.parent_expr, ast.Expr):
        if not (u.kind == "package" and u.deco and isinstance(u.parent_expr, DEFS)) or not free:
            return "unsupported"
    return o


class Expect:
    """acceptable results for a schema"""

    def __init__(self, src, CALL, ATTR, PKG):
        self.src = src
        self.variants = []
        n = len([u for u in Reader(ast.parse(src), CALL, ATTR, PKG).uses if open_choice(u)])
        for free in itertools.product((True, False), repeat=n):
            tree = ast.parse(src)
            rd = Reader(tree, CALL, ATTR, PKG)
            it = iter(free)
            for u in rd.uses:
                u.final = settle(u, next(it) if open_choice(u) else True)
            self.variants.append(self.build(tree, rd))

    def build(self, tree, rd):
        V = Variant()
        V.uses = rd.uses
        V.total = sum(1 for u in rd.uses if u.final != "withdrawn")
        V.success = sum(1 for u in rd.uses if u.final in ("converted", "deleted", "unchanged"))
        V.apis = {}
        V.unsupported = {}
        for u in rd.uses:
            if u.final != "withdrawn":
                V.apis[u.api] = V.apis.get(u.api, 0) + 1
            if u.final == "unsupported":
                k = u.api if u.kind != "method" else "*." + u.api.split(".")[-1]
                V.unsupported[k] = V.unsupported.get(k, 0) + 1
        stm = {}
        for u in rd.uses:
            if u.final == "unsupported" and u.kind in ("method", "attr"):
                stm.setdefault(id(u.stmt), []).append(u)
        rw = Rewriter(rd.uses, rd.path)
        order = [n for n in ast.walk(tree) if isinstance(n, ast.stmt)]
        tree = rw.visit(tree)
        V.annotated = []
        packages = set()
        for n in ast.walk(tree):
            for f, L in _blocks(n):
                new = []
                for s in L:
                    if isinstance(s, ast.Import):
                        keep = [a for a in s.names if a.name.split(".")[0] != "torch"]
                        if len(keep) != len(s.names):
                            packages.add("paddle")
                            if not keep:
                                continue
                            s.names = keep
                    elif isinstance(s, ast.ImportFrom) and s.level == 0 and s.module and s.module.split(".")[0] == "torch":
                        packages.add("paddle")
                        continue
                    if s in rw.gone:
                        continue
                    new += rw.hoists.get(id(s), [])
                    if id(s) in stm:
                        V.annotated.append((s, [u.api for u in stm[id(s)]]))
                    new.append(s)
                L[:] = new
        i = 0
        for s in tree.body:
            if isinstance(s, ast.ImportFrom) and s.module == "__future__":
                i += 1
            elif i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str):
                i += 1
            else:
                break
        tree.body[i:i] = [ast.parse("import " + p).body[0] for p in sorted(packages)]
        full = {k: v for k, v in rd.b.items() if k != v}
        if full:
            class Q(ast.NodeTransformer):
                def visit_Name(self, n):
                    if n.id in full and isinstance(n.ctx, ast.Load):
                        return ast.copy_location(ast.parse(full[n.id], mode="eval").body, n)
                    return n
            tree = Q().visit(tree)
        V.tree = canonical(tree)
        V.text = text(V.tree)
        return V


class Variant:
    pass


def canonical(tree):
    """drop what carries no meaning: pass in a non-empty block; fill empty ones"""
    for n in ast.walk(tree):
        for f, L in _blocks(n):
            if isinstance(n, (ast.Lambda, ast.IfExp)):
                continue
            if len(L) > 1:
                k = [s for s in L if not isinstance(s, ast.Pass)]
                L[:] = k or L[:1]
            if f in ("orelse", "finalbody") and len(L) == 1 and isinstance(L[0], ast.Pass) and (
                    f == "orelse" or getattr(n, "handlers", None)):
                L[:] = []
            if f == "body" and not L and not isinstance(n, ast.Module):
                L.append(ast.Pass())
        if isinstance(n, (ast.Try, ast.TryStar)) and not n.handlers and not n.finalbody:
            n.finalbody.append(ast.Pass())
    return tree


def text(tree):
    ast.fix_missing_locations(tree)
    return ast.unparse(tree)


def annotations(tree):
    """take the annotation statements out of a result tree; returns
    [(text, statement that follows, in a decorator list)]"""
    out = []
    for n in ast.walk(tree):
        for f in ("body", "orelse", "finalbody", "decorator_list"):
            L = getattr(n, f, None)
            if not isinstance(L, list):
                continue
            new, wait = [], []
            for s in L:
                v = s.value if isinstance(s, ast.Expr) else s
                if isinstance(v, ast.Constant) and isinstance(v.value, str) and MARK in v.value:
                    wait.append(v.value)
                    continue
                for w in wait:
                    out.append((w, n if f == "decorator_list" else s))
                wait = []
                new.append(s)
            for w in wait:
                out.append((w, None))
            L[:] = new
    return out
