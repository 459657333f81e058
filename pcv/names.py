"""Free names of generated code."""
import ast
import builtins

from .emit import HOLE

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__"}


class Free(ast.NodeVisitor):
    """free names of a statement list executed in order; .bound after it"""

    def __init__(self, bound=()):
        self.bound = set(bound)
        self.free = []  # (name, node)
        self.scopes = []

    def known(self, n):
        return n in self.bound or any(n in s for s in self.scopes)

    def use(self, n, node):
        if not self.known(n) and n not in BUILTINS:
            self.free.append((n, node))

    def bind(self, n):
        if self.scopes:
            self.scopes[-1].add(n)
        else:
            self.bound.add(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            self.use(n.id, n)
        else:
            self.bind(n.id)

    def visit_AugAssign(self, n):
        self.visit(n.value)
        if isinstance(n.target, ast.Name):
            self.use(n.target.id, n)
        else:
            self.visit(n.target)

    def visit_Assign(self, n):
        self.visit(n.value)
        for t in n.targets:
            self.visit(t)

    def visit_AnnAssign(self, n):
        if n.value:
            self.visit(n.value)
        self.visit(n.target)

    def visit_Import(self, n):
        for a in n.names:
            self.bind((a.asname or a.name).split(".")[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.bind(a.asname or a.name)

    def _args(self, a):
        s = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        for x in (a.vararg, a.kwarg):
            if x:
                s.add(x.arg)
        for d in a.defaults + [k for k in a.kw_defaults if k]:
            self.visit(d)
        return s

    def visit_Lambda(self, n):
        self.scopes.append(self._args(n.args))
        self.visit(n.body)
        self.scopes.pop()

    def _comp(self, n):
        self.scopes.append(set())
        for g in n.generators:
            self.visit(g.iter)
            self.visit(g.target)
            for i in g.ifs:
                self.visit(i)
        if isinstance(n, ast.DictComp):
            self.visit(n.key)
            self.visit(n.value)
        else:
            self.visit(n.elt)
        self.scopes.pop()

    visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = _comp

    def visit_For(self, n):
        self.visit(n.iter)
        self.visit(n.target)
        for s in n.body + n.orelse:
            self.visit(s)

    def visit_ExceptHandler(self, n):
        if n.type:
            self.visit(n.type)
        if n.name:
            self.bind(n.name)
        for s in n.body:
            self.visit(s)

    def visit_FunctionDef(self, n):
        for d in n.decorator_list:
            self.visit(d)
        self.bind(n.name)
        s = self._args(n.args)
        s |= locals_of(n.body)
        self.scopes.append(s)
        for x in n.body:
            self.visit(x)
        self.scopes.pop()

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
            self.visit(d)
        self.bind(n.name)
        self.scopes.append({"__class__"})
        for x in n.body:
            self.visit(x)
        self.scopes.pop()


def locals_of(body):
    """names a function body binds anywhere (function scope is flow-insensitive)"""
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                out.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    out.add((a.asname or a.name).split(".")[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
    return out
