"""Authoring-time only (not run by any check): freeze the call signatures of
the source libraries (torch, torchvision ...) named by the mapping tables.

usage: /opt/venv/bin/python gen_torch_sigs.py OUT.json
An overload is {"pos": [[name, required]], "kw": [[name, required]],
"var": bool, "varkw": bool}.
"""
import ast, importlib, inspect, json, re, sys, warnings, os
warnings.filterwarnings("ignore")
import torch
SP = os.path.dirname(os.path.dirname(torch.__file__))

def from_args(a, drop_self):
    allp = a.posonlyargs + a.args
    nd = len(a.defaults)
    dv = [None] * (len(allp) - nd) + [ast.unparse(d) for d in a.defaults]
    pos = [[p.arg, i < len(allp) - nd, dv[i]] for i, p in enumerate(allp)]
    if drop_self and pos:
        pos = pos[1:]
    kw = [[p.arg, d is None, d and ast.unparse(d)] for p, d in zip(a.kwonlyargs, a.kw_defaults)]
    return {"pos": pos, "kw": kw, "var": a.vararg is not None, "varkw": a.kwarg is not None}

def pyi_funcs(path, cls=None):
    t = ast.parse(open(path).read())
    body = t.body
    if cls:
        body = [n for n in t.body if isinstance(n, ast.ClassDef) and n.name == cls][0].body
    out = {}
    for n in body:
        if isinstance(n, ast.FunctionDef):
            static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in n.decorator_list)
            out.setdefault(n.name, []).append(from_args(n.args, bool(cls) and not static))
    return out

VF = pyi_funcs(SP + "/torch/_C/_VariableFunctions.pyi")
TB = pyi_funcs(SP + "/torch/_C/__init__.pyi", "TensorBase")

def rep(v):
    if v is None or isinstance(v, (bool, int, float, str, complex)):
        return repr(v)
    if isinstance(v, (tuple, list)) and all(rep(x)[:1] != "<" for x in v):
        return repr(v)
    return "<" + str(v) + ">"


def from_sig(o, drop_self=False):
    s = inspect.signature(o)
    pos, kw, var, vk = [], [], False, False
    for p in s.parameters.values():
        req = p.default is p.empty
        if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD):
            pos.append([p.name, req, None if req else rep(p.default)])
        elif p.kind == p.KEYWORD_ONLY:
            kw.append([p.name, req, None if req else rep(p.default)])
        elif p.kind == p.VAR_POSITIONAL:
            var = True
        else:
            vk = True
    if drop_self and pos:
        pos = pos[1:]
    return {"pos": pos, "kw": kw, "var": var, "varkw": vk}

def from_doc(o, name):
    d = inspect.getdoc(o) or ""
    out = []
    for l in d.split("\n")[:60]:
        m = re.match(r"^\s*(?:.. function:: |.. method:: )?(?:torch\.)?(?:\w+\.)*" + re.escape(name) + r"\((.*)\)\s*(->.*)?$", l)
        if m:
            try:
                f = ast.parse("def f(%s): pass" % m.group(1)).body[0]
            except SyntaxError:
                continue
            out.append(from_args(f.args, False))
    return out

def resolve(api):
    parts = api.split(".")
    for i in range(len(parts), 0, -1):
        try:
            o = importlib.import_module(".".join(parts[:i]))
        except Exception:
            continue
        par = None
        ok = True
        for p in parts[i:]:
            par = o
            try:
                o = getattr(o, p)
            except Exception:
                ok = False
                break
        if ok:
            return o, par
    return None, None

def sigs(api):
    name = api.split(".")[-1]
    o, par = resolve(api)
    is_m = False
    if par is not None and inspect.isclass(par):
        is_m = True
    if api.startswith("torch.Tensor."):
        if name in TB:
            return "stub", TB[name]
    if o is None:
        return None, []
    mod = getattr(o, "__module__", None)
    if name in VF and re.match(r"^torch\.\w+$", api) and not inspect.isclass(o) and not inspect.isfunction(o):
        return "stub", VF[name]
    if inspect.isclass(o):
        try:
            return "inspect", [from_sig(o)]
        except Exception:
            pass
    else:
        try:
            st = is_m and isinstance(inspect.getattr_static(par, name), (staticmethod, classmethod))
            s = from_sig(o, drop_self=is_m and not st)
            if not (s["var"] and s["varkw"] and not s["pos"]):
                return "inspect", [s]
        except Exception:
            pass
    d = from_doc(o, name)
    if d:
        return "doc", d
    if name in VF and not inspect.isclass(o):
        return "stub?", VF[name]
    return None, []

if __name__ == "__main__":
    m = json.load(open("/repo/paconvert/api_mapping.json"))
    out = {}
    miss = []
    for a in m:
        src, s = sigs(a)
        if s:
            u = []
            for x in s:
                if x not in u: u.append(x)
            out[a] = {"src": src, "overloads": u}
        else:
            miss.append(a)
    json.dump(out, open(sys.argv[1], "w"), indent=0, sort_keys=True)
    import collections
    print(len(out), len(miss), collections.Counter(v["src"] for v in out.values()))
    print("\n".join(miss))
