"""Source model of /repo/paconvert: parsed modules, classes, functions, tables.

Nothing in here imports or executes the analysed package; it is read as text.
"""
import ast
import json
import os
import warnings

REPO = os.environ.get("PCV_REPO", "/repo")
PKG = "paconvert"


class FuncInfo:
    def __init__(self, node, module, cls=None, outer=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.outer = outer
        self.name = node.name if hasattr(node, "name") else "<lambda>"
        self.decorators = [ast.unparse(d) for d in getattr(node, "decorator_list", [])]
        self.is_static = "staticmethod" in self.decorators
        self.is_class = "classmethod" in self.decorators
        self.is_property = any(
            d == "property" or d.endswith("cached_property") for d in self.decorators
        )
        self._gen = None

    @property
    def is_generator(self):
        if self._gen is None:
            self._gen = False
            if not isinstance(self.node, ast.Lambda):
                stack = list(self.node.body)
                while stack:
                    n = stack.pop()
                    if isinstance(n, (ast.Yield, ast.YieldFrom)):
                        self._gen = True
                        break
                    if isinstance(
                        n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)
                    ):
                        continue
                    stack.extend(ast.iter_child_nodes(n))
        return self._gen

    @property
    def qual(self):
        return (self.cls.name + "." if self.cls else "") + self.name

    def __repr__(self):
        return "<func %s:%s>" % (self.module.name, self.qual)


class ClassInfo:
    def __init__(self, node, module):
        self.node = node
        self.name = node.name
        self.module = module
        self.methods = {}
        self.assigns = []  # (name, value expr)
        self.base_exprs = node.bases
        self._mro = None
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[st.name] = FuncInfo(st, module, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        if isinstance(st.value, ast.Name) and st.value.id in self.methods:
                            # visit_AsyncFor = visit_For
                            self.methods[t.id] = self.methods[st.value.id]
                            continue
                        self.methods.pop(t.id, None)
                        self.assigns.append((t.id, st.value))
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                if isinstance(st.target, ast.Name):
                    self.assigns.append((st.target.id, st.value))

    def __repr__(self):
        return "<class %s>" % self.name


class ModuleInfo:
    def __init__(self, name, path, src):
        self.name = name
        self.path = path
        self.rel = os.path.relpath(path, REPO)
        self.src = src
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.tree = ast.parse(src)
        self.classes = {}
        self.functions = {}
        self.assigns = {}
        self.imports = {}  # local name -> ("mod", modname) | ("from", modname, attr)
        self.stars = []
        self._collect(self.tree.body)

    def _collect(self, body):
        for st in body:
            if isinstance(st, ast.ClassDef):
                self.classes[st.name] = ClassInfo(st, self)
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[st.name] = FuncInfo(st, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                if isinstance(st.target, ast.Name):
                    self.assigns[st.target.id] = st.value
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.imports[a.asname] = ("mod", a.name)
                    else:
                        self.imports[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ""
                if st.level:
                    parts = self.name.split(".")
                    # module's package
                    pk = parts if self.path.endswith("__init__.py") else parts[:-1]
                    pk = pk[: len(pk) - (st.level - 1)]
                    base = ".".join(pk + ([st.module] if st.module else []))
                for a in st.names:
                    if a.name == "*":
                        self.stars.append(base)
                    else:
                        self.imports[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(st, ast.Try):
                self._collect(st.body)
                for h in st.handlers:
                    self._collect(h.body)
                self._collect(st.orelse)
                self._collect(st.finalbody)
            elif isinstance(st, (ast.If, ast.With)):
                self._collect(st.body)
                self._collect(getattr(st, "orelse", []))


class DupKey(Exception):
    pass


def load_json_dups(path):
    """json text -> (object, list of duplicated keys)"""
    dups = []

    def hook(pairs):
        seen = {}
        for k, v in pairs:
            if k in seen:
                dups.append(k)
            seen[k] = v
        return seen

    with open(path, "r", encoding="UTF-8") as f:
        obj = json.load(f, object_pairs_hook=hook)
    return obj, dups


class Program:
    def __init__(self, repo=None, inject=None):
        """inject: (name of a class of the target module, source text): extra
        probe classes the analysis adds to that module's parsed text"""
        self.repo = repo or REPO
        self.modules = {}
        base = os.path.join(self.repo, PKG)
        for root, dirs, files in os.walk(base):
            dirs[:] = sorted(d for d in dirs if d != "__pycache__" and not d.startswith("."))
            for fn in sorted(files):
                if not fn.endswith(".py") or fn in ("example_code.py",):
                    continue
                p = os.path.join(root, fn)
                rel = os.path.relpath(p, self.repo)[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"):
                    rel = rel[: -len(".__init__")]
                with open(p, encoding="UTF-8") as f:
                    src = f.read()
                if inject and ("class %s(" % inject[0]) in src:
                    src += "\n\n" + inject[1]
                try:
                    self.modules[rel] = ModuleInfo(rel, p, src)
                except SyntaxError:
                    if rel.split(".")[-1] in ("version",):
                        continue
                    raise
        self.tables = {}
        self.dups = {}
        self.table_paths = {}
        for t in (
            "api_mapping",
            "attribute_mapping",
            "api_alias_mapping",
            "api_wildcard_mapping",
        ):
            p = os.path.join(base, t + ".json")
            if os.path.exists(p):
                self.table_paths[t] = p
                self.tables[t], self.dups[t] = load_json_dups(p)

    # --- lookup -----------------------------------------------------------
    def resolve_global(self, module, name, seen=None):
        """-> ClassInfo | FuncInfo | ("assign", module, expr) | ("ext", path) | None"""
        seen = seen or set()
        if (module.name, name) in seen:
            return None
        seen.add((module.name, name))
        if name in module.classes:
            return module.classes[name]
        if name in module.functions:
            return module.functions[name]
        if name in module.assigns:
            return ("assign", module, name, module.assigns[name])
        if name in module.imports:
            imp = module.imports[name]
            if imp[0] == "mod":
                if imp[1] in self.modules:
                    return ("module", self.modules[imp[1]])
                return ("ext", imp[1])
            _, base, attr = imp
            if base in self.modules:
                r = self.resolve_global(self.modules[base], attr, seen)
                if r is not None:
                    return r
                if base + "." + attr in self.modules:
                    return ("module", self.modules[base + "." + attr])
                return None
            if base + "." + attr in self.modules:
                return ("module", self.modules[base + "." + attr])
            return ("ext", (base + "." if base else "") + attr)
        for st in module.stars:
            if st in self.modules:
                r = self.resolve_global(self.modules[st], name, seen)
                if r is not None:
                    return r
        return None

    def find_class(self, name, module=None):
        if module is not None:
            r = self.resolve_global(module, name)
            if isinstance(r, ClassInfo):
                return r
        for m in self.modules.values():
            if name in m.classes:
                return m.classes[name]
        return None

    def class_bases(self, cls):
        out = []
        for b in cls.base_exprs:
            if isinstance(b, ast.Name):
                r = self.resolve_global(cls.module, b.id)
                if isinstance(r, ClassInfo):
                    out.append(r)
                elif isinstance(r, tuple) and r[0] == "ext":
                    out.append("ext:" + r[1])
                else:
                    out.append("ext:" + b.id)
            else:
                txt = ast.unparse(b)
                root = txt.split(".")[0]
                r = self.resolve_global(cls.module, root)
                if isinstance(r, tuple) and r[0] == "module":
                    sub = r[1].classes.get(txt.split(".")[-1])
                    if sub:
                        out.append(sub)
                        continue
                out.append("ext:" + txt)
        return out

    def mro(self, cls):
        if cls._mro is None:
            # C3 linearisation over repository classes; external bases at the end
            def lin(c):
                if isinstance(c, str):
                    return [c]
                bases = self.class_bases(c)
                seqs = [lin(b) for b in bases] + [list(bases)]
                out = [c]
                while True:
                    seqs = [s for s in seqs if s]
                    if not seqs:
                        return out
                    for s in seqs:
                        h = s[0]
                        if not any(h in t[1:] for t in seqs):
                            break
                    else:
                        h = seqs[0][0]
                    out.append(h)
                    for s in seqs:
                        if s and s[0] == h:
                            s.pop(0)
                        elif h in s:
                            s.remove(h)

            cls._mro = lin(cls)
        return cls._mro

    def find_method(self, cls, name, after=None):
        mro = self.mro(cls)
        start = 0
        if after is not None:
            if after in mro:
                start = mro.index(after) + 1
        for c in mro[start:]:
            if isinstance(c, ClassInfo) and name in c.methods:
                return c.methods[name]
        return None

    def find_class_assign(self, cls, name):
        for c in self.mro(cls):
            if isinstance(c, ClassInfo):
                for n, v in reversed(c.assigns):
                    if n == name:
                        return c, v
        return None

    def subclass_of(self, cls, basename):
        return any(
            (c.name if isinstance(c, ClassInfo) else c.split(":")[1].split(".")[-1])
            == basename
            for c in self.mro(cls)
        )
