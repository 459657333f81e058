"""Abstract runs of Converter.run over modelled file systems."""
import posixpath as pp
import re

from pcv import fsworld
from pcv.engine import Stats, explore
from pcv.report import NoVerdict
from pcv.values import *  # noqa

FS = fsworld.FS


class Sc:
    def __init__(self, name, inp, out, files, dirs=(), links=(), cwd="/c", exclude=None, refuse=False, ctor=None, note=""):
        self.name, self.inp, self.out, self.exclude, self.refuse = name, inp, out, exclude, refuse
        self.fs = FS(files, dirs, links, cwd)
        self.ctor = ctor or {}
        self.note = note
        self.abs_in = self.fs.abs(inp)
        self.abs_out = self.fs.abs(out) if out is not None else pp.join(cwd, "paddle_project")

    def is_file(self):
        return self.fs.kind.get(self.abs_in) == "file"

    def target(self):
        """where the output of a single input file goes"""
        d = self.abs_out
        if self.fs.kind.get(d) == "dir" or self.out is None:
            return pp.join(d, pp.basename(self.abs_in))
        return d

    def inputs(self):
        """initial input entries that are not part of the output location"""
        i = self.abs_in
        out = set()
        for p in self.fs.kind:
            if p == i or p.startswith(i + "/"):
                if not self.is_file() and (p == self.abs_out or p.startswith(self.abs_out + "/")) and self.abs_out.startswith(i + "/"):
                    continue
                out.add(p)
        return out


TREE = ["a.py", "requirements.txt.lock", "script.py.txt", "tool.py/x.bin", "requirements.txt.d/y.bin", "torchreq.txt", "requirements.txt", "dev-requirements.txt", "data.bin", "torch.txt", "x.pyi", "py", "pkg/__init__.py",
        "pkg/sub/c.py", "pkg/sub/d.json", "pkg/requirements.txt", ".hidden.py", ".git/config", "pkg/.x",
        "__pycache__/a.pyc", "pkg/__pycache__/b.pyc", "out/keep.py", "out2/e.py"]


def tree(root, names=TREE):
    return [pp.join(root, n) for n in names]


def pat(*names):
    ps = []
    for n in names:
        if ps:
            ps.append(",")
        ps.append(Hole(n, ["exclude"], "ident"))
    return AStr(ps)


def scenarios():
    S = []
    add = lambda *a, **k: S.append(Sc(*a, **k))
    x = ["/w/x.py"]
    # one file
    add("file to a new file", "/w/x.py", "/o/p/y.py", x)
    add("file to an existing folder", "/w/x.py", "/w/out", x, dirs=["/w/out"])
    add("file to an existing file", "/w/x.py", "/w/y.py", x + ["/w/y.py"])
    add("file, no output given", "/w/x.py", None, x)
    add("file, no output given, from its folder", "x.py", None, x, cwd="/w")
    add("file, relative paths", "x.py", "o/y.py", x, cwd="/w")
    add("file to a path below another file", "/w/x.py", "/q/f/y.py", x + ["/q/f"])
    add("requirement file", "/w/requirements.txt", "/o/r.txt", ["/w/requirements.txt"])
    add("data file", "/w/data.bin", "/o", ["/w/data.bin"], dirs=["/o"])
    add("excluded file", "/w/x.py", "/o/y.py", x, exclude=pat("P", "Q"))
    add("file onto itself", "/w/x.py", "/w/x.py", x, refuse=True)
    add("file onto itself, other spelling", "x.py", "../w/./x.py", x, cwd="/w", refuse=True)
    add("file to the folder holding it", "/w/x.py", "/w", x, refuse=True)
    add("file to the folder holding it, relative", "x.py", ".", x, cwd="/w", refuse=True)
    add("file to a path below itself", "/w/x.py", "/w/x.py/y.py", x, refuse=True)
    add("file in the default output folder", "/c/paddle_project/x.py", None, ["/c/paddle_project/x.py"], refuse=True)
    add("data file to the folder holding it", "/w/data.bin", "/w", ["/w/data.bin"], refuse=True)
    add("file to a sibling whose name extends its own", "/w/x.py", "/w/x.py2", x)
    # folders
    t = tree("/w/in")
    add("folder to a new folder", "/w/in", "/o/new", t, dirs=["/w/in/empty"], links=["/w/in/broken"])
    add("folder to an existing folder", "/w/in", "/w/out", t + ["/w/out/old.py", "/w/out/a.py"])
    add("folder, no output given", "/w/in", None, t)
    add("folder, run from inside it without output", ".", None, t, cwd="/w/in")
    add("folder, run again from inside it", ".", None, t + ["/w/in/paddle_project/a.py"], cwd="/w/in")
    add("folder, relative paths", "in/", "./res", t, cwd="/w")
    add("output inside the input", "/w/in", "/w/in/out", t)
    add("output deep inside the input", "/w/in", "/w/in/pkg/sub/res", t)
    add("output inside the input, special characters", "/w/i+n", "/w/i+n/o(u)t", tree("/w/i+n", ["a.py", "b/c.py", "out/d.py"]))
    add("input inside the output", "/w/q/in", "/w/q", tree("/w/q/in") + ["/w/q/other.py"])
    add("names extending each other", "/w/in", "/w/in2", t)
    add("names extending each other, reversed", "/w/in2", "/w/in", tree("/w/in2"))
    add("excluded entries", "/w/in", "/o", tree("/w/in", ["a.py", "b/c.py", "b/d.txt"]), exclude=pat("P", "Q"))
    add("excluded entries, one pattern", "/w/in", "/o", tree("/w/in", ["a.py", "b/c.py"]), exclude=pat("P"))
    add("folder onto itself", "/w/in", "/w/in", t, refuse=True)
    add("folder onto itself, other spelling", "in", "../w/in/", t, cwd="/w", refuse=True)
    add("output above the input, same-named subfolder", "/w/in", "/w", t + ["/w/in/in/a.py"], refuse=True)
    add("output two levels above the input, same path inside", "/w/q/in", "/w", tree("/w/q/in") + ["/w/q/in/q/in/a.py"], refuse=True)
    return S


def run_paths(ctx, sc, max_paths=400, **kw):
    prog = ctx.prog
    conv = prog.find_class("Converter")
    if conv is None:
        raise NoVerdict("class Converter not found")

    def run(e):
        c = e.instantiate(ClassVal(conv), [], dict(sc.ctor))
        e.converter = c
        args = [sc.inp, sc.out]
        if sc.exclude is not None:
            args.append(sc.exclude)
        return e.call(e.get_attr(c, "run"), args, {})

    kw.setdefault("atomic_text", True)
    st = Stats()
    out = []
    for p in explore(prog, run, fsworld.setup_driver(sc.fs, **kw), max_paths, st):
        out.append(p)
    ctx.analysed |= {"%s:%s" % f for f in st.funcs}
    for k, n in st.gap_reasons.items():
        ctx.undecide("%s: %s" % (sc.name, k), n)
    ctx.coverage["driver_paths"] = ctx.coverage.get("driver_paths", 0) + st.paths
    ctx.coverage["driver_gaps"] = ctx.coverage.get("driver_gaps", 0) + st.gaps
    return out


def gap_guard(ctx):
    if ctx.coverage.get("driver_gaps", 0) * 4 > ctx.coverage.get("driver_paths", 0):
        raise NoVerdict("most abstract runs of the driver could not be interpreted: %s" % list(ctx.undecided_why)[:3])


WRITES = ("truncate", "openwrite", "write", "remove")


def loc(kw):
    l = kw.get("loc") or ("?", 0, "?")
    return "%s:%d %s" % l
