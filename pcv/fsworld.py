"""Abstract interpretation of the driver (Converter.run, main) over a model of
the file system: paths are concrete, file contents are opaque texts whose
provenance is followed from the read to the write."""
import os
import ast
import posixpath as pp

from . import hooks, sweep, world
from .engine import Gap, explore
from .values import *  # noqa

DIR = "dir"


class FS:
    def __init__(self, files=(), dirs=(), links=(), cwd="/w"):
        self.kind = {"/": DIR}
        for d in list(dirs) + [cwd]:
            self.mkdirs(d)
        for f in files:
            self.mkdirs(pp.dirname(f))
            self.kind[f] = "file"
        for f in links:
            self.mkdirs(pp.dirname(f))
            self.kind[f] = "link"
        self.cwd = cwd
        self.content = {}

    def mkdirs(self, d):
        while d not in self.kind:
            self.kind[d] = DIR
            d = pp.dirname(d)

    def abs(self, p):
        return pp.normpath(pp.join(self.cwd, p))

    def ls(self, p):
        return sorted(pp.basename(x) for x in self.kind if x != "/" and pp.dirname(x) == p)


def lit(e, v, what="path"):
    v = norm(v)
    if isinstance(v, Obj) and v.kind == "path":
        return v.attrs["p"]
    if not isinstance(v, str):
        raise Gap("%s not resolved: %s" % (what, show(v)))
    return v


def content_of(e, path):
    fs = e.fs
    if path not in fs.content:
        fs.content[path] = AStr([Hole("text of %s" % path, ["file:" + path], "text")])
    return fs.content[path]


# ------------------------------------------------------------------- hooks
def install(e, fs):
    e.fs = fs
    h = e.ext_hooks
    P = lambda a: fs.abs(lit(e, a))

    def path1(f):
        return lambda e, a, k: f(lit(e, a[0]))

    h["os.path.abspath"] = lambda e, a, k: P(a[0])
    h["os.path.realpath"] = lambda e, a, k: P(a[0])
    h["os.path.normpath"] = path1(pp.normpath)
    h["os.path.expanduser"] = path1(lambda p: p)
    h["os.path.dirname"] = path1(pp.dirname)
    h["os.path.basename"] = path1(pp.basename)
    h["os.path.split"] = path1(pp.split)
    h["os.path.splitext"] = path1(pp.splitext)
    h["os.path.isabs"] = path1(pp.isabs)
    h["os.path.join"] = lambda e, a, k: pp.join(*[lit(e, x) for x in a])
    h["os.path.relpath"] = lambda e, a, k: pp.relpath(P(a[0]), P(a[1]) if len(a) > 1 else fs.cwd)
    h["os.path.commonpath"] = lambda e, a, k: pp.commonpath([lit(e, x) for x in e.iterate(a[0])])
    h["os.path.commonprefix"] = lambda e, a, k: pp.commonprefix([lit(e, x) for x in e.iterate(a[0])])
    h["os.path.exists"] = lambda e, a, k: fs.kind.get(P(a[0])) in (DIR, "file")
    h["os.path.lexists"] = lambda e, a, k: P(a[0]) in fs.kind
    h["os.path.isfile"] = lambda e, a, k: fs.kind.get(P(a[0])) == "file"
    h["os.path.isdir"] = lambda e, a, k: fs.kind.get(P(a[0])) == DIR
    h["os.path.islink"] = lambda e, a, k: fs.kind.get(P(a[0])) == "link"
    h["os.path.samefile"] = lambda e, a, k: P(a[0]) == P(a[1])
    h["os.path.getsize"] = lambda e, a, k: Top("size", typ="int")
    e.ext_consts.update({"os.sep": "/", "os.path.sep": "/", "os.altsep": None, "os.path.altsep": None, "os.linesep": "\n", "os.curdir": ".", "os.pardir": "..", "os.extsep": ".", "os.path.curdir": ".", "os.path.pardir": ".."})
    h["os.getcwd"] = lambda e, a, k: fs.cwd
    h["os.fspath"] = lambda e, a, k: lit(e, a[0])

    def listdir(e, a, k):
        p = P(a[0]) if a else fs.cwd
        e.event("list", path=p)
        if fs.kind.get(p) != DIR:
            e.raise_("NotADirectoryError", p)
        names = fs.ls(p)
        if e.world:
            names = names[::-1]
        return AList(names)

    h["os.listdir"] = listdir

    def scandir(e, a, k):
        p = lit(e, a[0]) if a else "."
        out = []
        for n in listdir(e, a, k).items:
            full = pp.join(p, n)
            o = Obj(None, {"name": n, "path": full}, kind="direntry")
            out.append(o)
        return AList(out)

    def direntry(e, o, name, args, kwargs):
        kd = fs.kind.get(fs.abs(o.attrs["path"]))
        return {"is_dir": kd == DIR, "is_file": kd == "file", "is_symlink": kd == "link"}[name]

    h["os.scandir"] = scandir
    e.obj_hooks["direntry"] = direntry

    def walk(e, a, k):
        out = []

        def go(p):
            ds, fl = AList(), AList()
            for n in listdir(e, [p], {}).items:
                (ds if fs.kind[fs.abs(pp.join(p, n))] == DIR else fl).items.append(n)
            return p, ds, fl

        top = lit(e, a[0])

        def gen():
            stack = [top]
            while stack:
                p, ds, fl = go(stack.pop(0))
                yield (p, ds, fl)
                stack[0:0] = [pp.join(p, lit(e, d)) for d in ds.items]

        return LazyIter(gen())

    h["os.walk"] = walk

    def mk(e, a, k):
        p = P(a[0])
        e.event("mkdir", path=p)
        ok = norm(k.get("exist_ok", a[2] if len(a) > 2 else False))
        q = p
        while q not in fs.kind:
            q = pp.dirname(q)
        if fs.kind[q] != DIR:
            e.raise_("FileExistsError" if q == p else "NotADirectoryError", p)
        if p in fs.kind and not ok:
            e.raise_("FileExistsError", p)
        fs.mkdirs(p)
        return None

    h["os.makedirs"] = mk
    h["os.mkdir"] = mk

    def rm(kind):
        def f(e, a, k):
            p = P(a[0])
            e.event("remove", path=p, how=kind)
            for x in list(fs.kind):
                if x == p or x.startswith(p + "/"):
                    del fs.kind[x]
            return None

        return f

    for n in ("os.remove", "os.unlink", "os.rmdir", "os.removedirs", "shutil.rmtree"):
        h[n] = rm(n)

    def ren(e, a, k):
        p, q = P(a[0]), P(a[1])
        e.event("remove", path=p, how="rename")
        e.event("write", path=q, content=content_of(e, p), mode="rename", encoding=None)
        fs.kind[q] = fs.kind.pop(p, "file")
        fs.content[q] = fs.content.pop(p, content_of(e, p))
        return None

    for n in ("os.rename", "os.replace", "os.renames", "shutil.move"):
        h[n] = ren

    def cp(e, a, k):
        p = P(a[0] if a else k["src"])
        q = P(a[1] if len(a) > 1 else k["dst"])
        if fs.kind.get(p) != "file":
            e.raise_("FileNotFoundError", p)
        if fs.kind.get(q) == DIR:
            if e.copy_into:
                q = pp.join(q, pp.basename(p))
            else:
                e.raise_("IsADirectoryError", q)
        if fs.kind.get(pp.dirname(q)) != DIR:
            e.raise_("FileNotFoundError", q)
        if p == q:
            e.raise_("shutil.SameFileError", q)
        c = content_of(e, p)
        e.event("read", path=p, mode="rb", encoding=None)
        e.event("write", path=q, content=c, mode="copy", encoding=None)
        fs.kind[q] = "file"
        fs.content[q] = c
        return q

    e.copy_into = False
    h["shutil.copyfile"] = cp

    def cp2(e, a, k):
        e.copy_into = True
        try:
            return cp(e, a, k)
        finally:
            e.copy_into = False

    h["shutil.copy"] = cp2
    h["shutil.copy2"] = cp2
    h["shutil.copytree"] = lambda e, a, k: (_ for _ in ()).throw(Gap("copytree"))

    def h_open(e, a, k):
        p = P(a[0] if a else k["file"])
        mode = norm(a[1] if len(a) > 1 else k.get("mode", "r"))
        enc = norm(a[3] if len(a) > 3 else k.get("encoding"))
        if not isinstance(mode, str):
            raise Gap("open mode")
        o = Obj(None, {"p": p, "mode": mode, "enc": enc}, kind="file")
        if any(c in mode for c in "wax+"):
            if fs.kind.get(p) == DIR:
                e.raise_("IsADirectoryError", p)
            if fs.kind.get(pp.dirname(p)) != DIR:
                e.raise_("FileNotFoundError", p)
            e.event("truncate" if "w" in mode else "openwrite", path=p, mode=mode, encoding=enc)
            if "a" in mode and p in fs.kind:
                content_of(e, p)
            else:
                fs.content[p] = ""
            fs.kind[p] = "file"
        else:
            if fs.kind.get(p) != "file":
                e.raise_("FileNotFoundError", p)
            e.event("read", path=p, mode=mode, encoding=enc)
        return o

    h["builtins.open"] = h_open
    h["io.open"] = h_open
    h["codecs.open"] = lambda e, a, k: h_open(e, a[:2], {"encoding": a[2] if len(a) > 2 else k.get("encoding", "utf-8")})

    def filem(e, o, name, args, kwargs):
        p = o.attrs["p"]
        if name == "read":
            c = content_of(e, p)
            return c
        if name == "readlines":
            return hooks_call_split(e, content_of(e, p))
        if name == "write":
            old = fs.content.get(p, "")
            fs.content[p] = norm(AStr(parts(old) + parts(args[0])))
            e.event("write", path=p, content=args[0], mode=o.attrs["mode"], encoding=o.attrs["enc"])
            return Top("n", typ="int")
        if name == "writelines":
            for x in e.iterate(args[0]):
                filem(e, o, "write", [x], {})
            return None
        if name in ("close", "flush", "__enter__", "__exit__"):
            return o if name == "__enter__" else None
        raise Gap("file." + name)

    e.obj_hooks["file"] = filem

    # pathlib, as far as a driver needs it
    def mkpath(p):
        o = Obj(None, {"p": p, "name": pp.basename(p), "suffix": pp.splitext(p)[1], "stem": pp.splitext(pp.basename(p))[0]}, kind="path")
        return o

    def h_path(e, a, k):
        return mkpath(pp.join(*[lit(e, x) for x in a]) if a else ".")

    h["pathlib.Path"] = h_path
    h["pathlib.PurePath"] = h_path

    def pathattr(e, o, name):
        if name == "parent":
            return mkpath(pp.dirname(o.attrs["p"]))
        if name == "parents":
            out, q = [], o.attrs["p"]
            while pp.dirname(q) != q:
                q = pp.dirname(q)
                out.append(mkpath(q))
            return AList(out)
        return NotImplemented

    def pathm(e, o, name, args, kwargs):
        p = o.attrs["p"]
        if name in ("exists", "is_file", "is_dir", "is_symlink"):
            return h["os.path." + {"exists": "exists", "is_file": "isfile", "is_dir": "isdir", "is_symlink": "islink"}[name]](e, [p], {})
        if name in ("resolve", "absolute"):
            return mkpath(fs.abs(p))
        if name == "mkdir":
            return mk(e, [p, 0, kwargs.get("exist_ok", False)], {})
        if name == "iterdir":
            return AList([mkpath(pp.join(p, n)) for n in listdir(e, [p], {}).items])
        if name == "open":
            return h_open(e, [p] + list(args), kwargs)
        if name == "read_text":
            return filem(e, h_open(e, [p, "r"], kwargs), "read", [], {})
        if name == "write_text":
            return filem(e, h_open(e, [p, "w"], kwargs), "write", args[:1], {})
        if name == "unlink":
            return rm("unlink")(e, [p], {})
        if name in ("joinpath", "__truediv__"):
            return mkpath(pp.join(p, *[lit(e, x) for x in args]))
        if name in ("as_posix", "__str__", "__fspath__"):
            return p
        if name == "relative_to":
            return mkpath(pp.relpath(p, lit(e, args[0])))
        raise Gap("Path." + name)

    e.attr_hooks["path"] = pathattr
    e.obj_hooks["path"] = pathm

    # logging and reports
    def getlogger(e, a, k):
        name = a[0] if a else k.get("name")
        _ev(e, "getLogger", name=name)
        t = e.memo.setdefault("loggers", {})
        c = canon(norm(name))
        if c not in t:
            t[c] = Obj(None, {"handlers": AList(), "name": name, "level": "WARNING"}, kind="logger")
        return t[c]

    h["logging.getLogger"] = getlogger

    def lg(e, o, name, args, kwargs):
        if name in ("debug", "info", "warning", "warn", "error", "critical", "exception", "log"):
            t = args[1] if name == "log" else args[0]
            lvl = {10: "debug", 20: "info", 30: "warning", 40: "error", 50: "critical"}.get(norm(args[0]), "info") if name == "log" else {"warn": "warning", "exception": "error"}.get(name, name)
            rest = args[2:] if name == "log" else args[1:]
            if rest:
                t = e.percent(t, tuple(rest))
            to = []
            for x in o.attrs["handlers"].items:
                if isinstance(x, Obj):
                    to.append("file " + show(x.attrs.get("path")) if x.kind == "filehandler" else "terminal")
            lim = norm(o.attrs["level"])
            e.event("msg", level="log_" + lvl, text=norm(AStr(e.to_parts(t))), to=to, limit=lim)
            return None
        e.event("log", method=name, args=args)
        hs = o.attrs["handlers"].items
        if name == "addHandler":
            hs.append(args[0])
        elif name == "removeHandler":
            hs[:] = [x for x in hs if x is not args[0]]
        elif name == "setLevel":
            o.attrs["level"] = args[0]
        elif name == "hasHandlers":
            return bool(hs)
        return None

    e.obj_hooks["logger"] = lg
    h["logging.StreamHandler"] = lambda e, a, k: Obj(None, {"args": a}, kind="streamhandler")

    def fh(e, a, k):
        p = a[0] if a else k.get("filename")
        e.event("logfile", path=p, mode=norm(k.get("mode", a[1] if len(a) > 1 else "a")))
        return Obj(None, {"path": p}, kind="filehandler")

    h["logging.FileHandler"] = fh
    for n, v in (("DEBUG", 10), ("INFO", 20), ("WARNING", 30), ("ERROR", 40), ("CRITICAL", 50)):
        e.ext_consts["logging." + n] = v
    h["logging.disable"] = lambda e, a, k: _ev(e, "logdisable", args=a)
    nondet(e)

    def df(e, a, k):
        return Obj(None, {"data": a[0] if a else None}, kind="frame")

    h["pandas.DataFrame"] = df
    h["pandas.DataFrame.from_dict"] = df

    def dfm(e, o, name, args, kwargs):
        if name in ("to_excel", "to_csv"):
            if name == "to_excel":
                e.need("openpyxl")
            e.event("report", path=args[0] if args else None, data=o.attrs["data"])
        return None

    e.obj_hooks["frame"] = dfm

    # formatting may fail; the result keeps the provenance of its input
    def fmt(name):
        def f(e, a, k):
            e.event("format", tool=name, code=a[0])
            if e.real_print and isinstance(norm(a[0]), str):
                r = e.real_print(name, norm(a[0]))
                e.event("stage", tool=name, text=r)
                return r
            if e.format_may_fail and e.decide(None, "%s fails" % name):
                e.event("format_failed", tool=name, code=a[0])
                e.raise_("Exception", "%s failed" % name, definite=False)
            hh = Hole("%s(%s)" % (name, show(a[0])[:40]), prov_of(a[0]) | {"fmt:" + name}, "text")
            return AStr([hh])

        return f

    h["black.format_str"] = fmt("black")
    h["black.format_file_contents"] = fmt("black")
    h["isort.code"] = fmt("isort")
    h["black.Mode"] = lambda e, a, k: Obj(None, kind="mode")
    h["black.FileMode"] = h["black.Mode"]

    parse0 = h["ast.parse"]

    def h_parse(e, a, k):
        v = norm(a[0])
        if isinstance(v, AStr):
            pr = [x for x in v.prov() if x.startswith("file:")]
            if pr and len(v.parts) == 1:
                e.event("parse", path=pr[0][5:])
                if e.parse_may_fail and e.decide(("syntax", pr[0]), "%s is not Python" % pr[0]):
                    e.raise_("SyntaxError", "bad input", definite=False)
                src = e.sources.get(pr[0][5:], "")
                root = world.schema(src)
                root.prov = frozenset(["tree:" + pr[0][5:]]) | frozenset(root.prov)
                e.tree_of[id(root)] = pr[0][5:]
                e.keep.append(root)
                return root
        return parse0(e, a, k)

    src0 = h["astor.to_source"]

    def h_src(e, a, k):
        n = a[0]
        if isinstance(n, ANode) and id(n) in e.tree_of:
            f = e.tree_of[id(n)]
            e.event("unparse", path=f)
            if e.real_print:
                from . import lab

                t = lab.real_tree(e, n)
                r = ast.unparse(ast.fix_missing_locations(t)) + "\n"
                e.event("printed", path=f, tree=t)
                e.event("stage", tool="printer", text=r)
                return r
            return AStr([Hole("converted %s" % f, ["conv:" + f, "file:" + f], "text")])
        return src0(e, a, k)

    h["ast.parse"] = h_parse
    h["astor.to_source"] = h_src
    h["astor.code_gen.to_source"] = h_src
    up0 = h["ast.unparse"]
    h["ast.unparse"] = lambda e, a, k: h_src(e, a, k) if isinstance(a[0], ANode) and id(a[0]) in e.tree_of else up0(e, a, k)
    e.sources = {}
    e.tree_of = {}
    e.keep = []
    e.parse_may_fail = False
    e.format_may_fail = False
    e.count_weights = False
    e.real_print = None
    e.atomic_text = False

    def h_hash(e, a, k):
        # hashes of different texts are taken to differ (the collision loop is analysed with the helper file)
        t = e.memo.setdefault("hashes", {})
        return t.setdefault(canon(norm(a[0])), 7919 - len(t) if e.world else 7919 + len(t))

    h["builtins.hash"] = h_hash

    # opaque exclude patterns
    s0 = {f: h["re." + f] for f in ("search", "match", "fullmatch")}

    def rx(f):
        def g(e, a, k):
            pat, txt = norm(a[0]), norm(a[1])
            if isinstance(pat, AStr) and isinstance(txt, str):
                r = e.decide(("rx", f, show(pat), txt), "%s matches %s" % (show(pat), txt))
                e.event("exclude", pat=show(pat), path=txt, hit=r, how=f)
                return Obj(None, kind="match") if r else None
            return s0[f](e, a, k)

        return g

    for f in s0:
        h["re." + f] = rx(f)


def hooks_call_split(e, v):
    from . import methods

    return methods.str_method(e, v, "split", ["\n"], {})


def parts(v):
    from .engine import parts_of

    return list(parts_of(norm(v)))


def _ev(e, kind, **kw):
    e.event(kind, **kw)
    return None


class LazyIter:
    """a generator whose consumer may change what it will yield"""

    def __init__(self, gen):
        self.gen = gen


def setup_driver(fs, sources=None, summarise=True, helpers_used=True, parse_may_fail=False, format_may_fail=False, atomic_text=False, weights=False):
    """engine set-up: transformers and the marking pass are summarised by their
    effect on the driver (unless summarise is False)"""

    def setup(e):
        sweep.install_globals(e)
        world.install(e)
        import copy

        install(e, copy.deepcopy(fs))
        e.max_steps = 300000
        e.rec_k = 14
        e.rec_raise = True
        e.sources = dict(sources or {})
        e.parse_may_fail = parse_may_fail
        e.format_may_fail = format_may_fail
        e.atomic_text = atomic_text
        e.count_weights = weights
        if not summarise:
            return
        cls = {c for c in transformer_classes(e.prog)}

        def mk(e, cv, args, kwargs):
            names = ["root", "file", "mode", "imports_map", "logger", "all_api_map", "unsupport_api_map"]
            d = dict(zip(names, args))
            d.update(kwargs)
            root = d.get("root")
            f = e.tree_of.get(id(root))
            o = Obj(None, dict(d), kind="transformer_stub")
            o.attrs["cls"] = cv.info.name
            i = e.memo.setdefault("n_transformers", 0)
            e.memo["n_transformers"] = i + 1
            o.attrs["pcv_weight"] = (3 * 10**i, 10**i) if e.count_weights else (0, 0)
            o.attrs["torch_api_count"], o.attrs["success_api_count"] = o.attrs["pcv_weight"]
            o.attrs["change_prefix_api_map"] = ADict(factory=Ext("builtins.set"))
            e.event("transformer", cls=cv.info.name, file=d.get("file"), tree=f, args=d)
            return o

        for c in cls:
            e.repo_hooks[c] = mk

        def stub(e, o, name, args, kwargs):
            if name == "transform":
                e.event("transform", cls=o.attrs["cls"], tree=e.tree_of.get(id(o.attrs.get("root"))), weight=o.attrs["pcv_weight"])
                if helpers_used and o.attrs["cls"] == "BasicTransformer":
                    ci = e.prog.find_class("UtilsFileHelper")
                    if ci is not None:
                        u = e.instantiate(ClassVal(ci), [], {})
                        code = AStr([Hole("helper code", ["helper"], "text")])
                        e.call(e.get_attr(u, "add_code"), [code], {})
                return None
            raise Gap("transformer.%s" % name)

        e.obj_hooks["transformer_stub"] = stub

        def isinst(e, a, k):
            o = a[0]
            if isinstance(o, Obj) and o.kind == "transformer_stub":
                cs = a[1] if isinstance(a[1], (tuple,)) else [a[1]]
                for c in cs:
                    if isinstance(c, ClassVal):
                        me = e.prog.find_class(o.attrs["cls"])
                        if c.info in e.prog.mro(me):
                            return True
                return False
            return hooks.h_isinstance(e, a, k)

        e.ext_hooks["builtins.isinstance"] = isinst

        def mark(e, fv, args, kwargs):
            e.event("mark", args=args)
            c = args[0] if args else None
            return AStr([Hole("marked(%s)" % show(c)[:60], prov_of(c) | {"marked"}, "ident" if e.atomic_text else "text")])

        e.repo_hooks["Converter.mark_unsupport"] = mark
    return setup


def nondet(e):
    """sources whose value is not a function of the input: another value in the
    other world"""
    h = e.ext_hooks
    n = [0]

    def num(base):
        def f(e, a, k):
            n[0] += 1
            return (base * 3 - n[0] * 0.5 if e.world else base + n[0] * 0.25) if isinstance(base, float) else (base * 3 - n[0] if e.world else base + n[0])

        return f

    def text(word):
        def f(e, a, k):
            n[0] += 1
            return "%s%s%d" % (word, "z" if e.world else "a", n[0])

        return f

    for m in ("time", "perf_counter", "monotonic", "process_time", "thread_time"):
        h["time." + m] = num(1000.0)
        h["time.%s_ns" % m] = num(1000)
    for m in ("ctime", "asctime", "strftime"):
        h["time." + m] = text("time")
    for m in ("now", "utcnow", "today"):
        h["datetime.datetime." + m] = h["datetime.date." + m] = lambda e, a, k: Top("now", ["<nondet time>"], None)
    for m in ("time.localtime", "time.gmtime"):
        h[m] = lambda e, a, k: Top("now", ["<nondet time>"], None)
    for m in ("random.random", "random.uniform", "random.gauss"):
        h[m] = num(10.0)
    for m in ("random.randint", "random.randrange", "random.getrandbits", "secrets.randbelow", "secrets.randbits", "os.getpid", "os.getppid", "threading.get_ident", "os.path.getmtime", "os.path.getctime", "os.path.getatime"):
        h[m] = num(40)
    for m in ("secrets.token_hex", "secrets.token_urlsafe", "tempfile.mktemp", "tempfile.mkdtemp", "tempfile.gettempprefix", "platform.node", "socket.gethostname", "getpass.getuser", "os.getlogin"):
        h[m] = text(m.split(".")[0])

    def ident(e, a, k):
        t = e.memo.setdefault("ids", {})
        c = getattr(a[0], "uid", None) or id(a[0])
        t.setdefault(("keep", c), a[0])
        return t.setdefault(c, 90000 - len(t) if e.world else 90000 + len(t))

    h["builtins.id"] = ident

    def items(e, v):
        return list(e.iterate(v))

    h["random.choice"] = h["secrets.choice"] = lambda e, a, k: (lambda x: x[-1] if e.world else x[0])(items(e, a[0]))

    def order(e, a, k):
        x = items(e, a[0])
        return AList(x[::-1] if e.world else x)

    h["random.sample"] = lambda e, a, k: AList(order(e, a, k).items[: a[1] if len(a) > 1 else k["k"]])

    def shuffle(e, a, k):
        if e.world and isinstance(a[0], AList):
            a[0].items.reverse()

    h["random.shuffle"] = shuffle
    h["random.seed"] = lambda e, a, k: None

    def uuid(e, a, k):
        n[0] += 1
        s = "%s%07d-0000-4000-8000-000000000000" % ("f" if e.world else "0", n[0])
        return Obj(None, {"hex": s.replace("-", ""), "int": n[0] + 99 * e.world, "urn": "urn:uuid:" + s, "text": s}, kind="uuid")

    h["uuid.uuid4"] = h["uuid.uuid1"] = uuid


def transformer_classes(prog):
    base = prog.find_class("BaseTransformer")
    out = []
    for m in prog.modules.values():
        for c in m.classes.values():
            if c is not base and base in prog.mro(c):
                out.append(c.name)
    return out
