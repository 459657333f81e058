"""The command-line entry point: main() interpreted on given arguments."""
import argparse
import io
import contextlib

from . import fsworld
from .engine import Stats, explore
from .report import NoVerdict
from .values import *  # noqa


class Options:
    """what main() tells argparse"""

    def __init__(self):
        self.specs = []
        self.kw = {}


def setup(e, argv):
    h = e.ext_hooks

    def mk(e, a, k):
        return Obj(None, {"spec": Options()}, kind="argparser")

    for n in ("ArgumentParser",):
        h["argparse." + n] = mk

    def method(e, o, name, args, kwargs):
        sp = o.attrs["spec"]
        if name == "add_argument":
            sp.specs.append(([norm(a) for a in args], {k: norm(v) for k, v in kwargs.items()}))
            return None
        if name in ("add_argument_group", "add_mutually_exclusive_group"):
            return o
        if name == "set_defaults":
            sp.kw.update(kwargs)
            return None
        if name in ("parse_args", "parse_known_args"):
            ns = parse(e, sp, argv if not args else [norm(x) for x in e.iterate(args[0])])
            e.event("args", values=dict(ns))
            r = Obj(None, dict(ns), kind="namespace")
            return r if name == "parse_args" else (r, AList())
        if name in ("print_help", "print_usage"):
            return None
        if name in ("error", "exit"):
            e.raise_("SystemExit", show(args[-1]) if args else "")
        raise Gap("ArgumentParser." + name)

    e.obj_hooks["argparser"] = method
    e.ext_consts["sys.version_info"] = (3, 12, 3)
    e.ext_consts["sys.argv"] = AList(["paconvert"] + list(argv))
    e.ext_consts["argparse.SUPPRESS"] = argparse.SUPPRESS

    def vars_(e, a, k):
        if isinstance(a[0], Obj) and a[0].kind == "namespace":
            return ADict(list(a[0].attrs.items()))
        raise Gap("vars()")

    h["builtins.vars"] = vars_

    def pr(e, a, k):
        e.event("print", text=norm(AStr([p for i, x in enumerate(a) for p in (([" "] if i else []) + list(e.to_parts(x)))])))

    h["builtins.print"] = pr
    h["sys.exit"] = lambda e, a, k: e.raise_("SystemExit", show(a[0]) if a else "")


def parse(e, sp, argv):
    """the namespace argparse builds for these declarations (the library itself
    is used for that; main() is not run)"""
    p = argparse.ArgumentParser(prog="paconvert", add_help=True)
    post = []
    for a, k in sp.specs:
        k = dict(k)
        for key, v in list(k.items()):
            if isinstance(v, AList):
                k[key] = list(v.items)
            if isinstance(v, (AStr, Top)):
                k[key] = show(v)
        t = k.get("type")
        fn = None
        if isinstance(t, Ext):
            k["type"] = {"builtins.str": str, "builtins.int": int, "builtins.float": float, "builtins.bool": bool}.get(t.path, str)
        elif t is not None:
            k["type"] = str
            fn = t
        act = k.get("action")
        if isinstance(act, Ext):
            k["action"] = getattr(argparse, act.path.split(".")[-1])
        k.pop("help", None)
        act = p.add_argument(*a, **k)
        if fn is not None:
            post.append((act.dest, fn))
    p.set_defaults(**sp.kw)
    err = io.StringIO()
    try:
        with contextlib.redirect_stderr(err), contextlib.redirect_stdout(err):
            ns = vars(p.parse_args(list(argv)))
    except SystemExit:
        e.raise_("SystemExit", err.getvalue()[-200:])
    for d, fn in post:
        if isinstance(ns.get(d), str):
            ns[d] = e.call(fn, [ns[d]], {})
    return {k: e.lift(v) for k, v in ns.items()}


def entry(prog):
    """the function the console script runs"""
    for m, md in prog.modules.items():
        if m.split(".")[-1] == "main":
            for n in md.tree.body:
                if getattr(n, "name", None) == "main":
                    return md, n
    raise NoVerdict("no main() in a module named main")


def paths(prog, argv, sources, files=(), dirs=(), world=0, cwd="/c", formatter=None, stats=None, max_paths=20, prepare=None):
    """paths of main() with the given arguments over the given modules"""
    from .lab import plain

    fs = fsworld.FS(list(sources) + list(files), list(dirs), [], cwd)
    md, _ = entry(prog)

    def run(e):
        e.real_print = formatter or plain
        e.max_steps = 6000000
        e.rec_k = 30
        e.max_frames = 400
        e.world = world
        setup(e, argv)
        if prepare:
            prepare(e)
        return e.call(e.global_value(md, "main"), [], {})

    yield from explore(prog, run, fsworld.setup_driver(fs, sources=sources, summarise=False), max_paths, stats if stats is not None else Stats())
