"""C06: the mapping tables resolve and agree with each other."""
import ast
import json
import os
import re

from pcv import apis, sweep
from pcv.engine import Stats
from pcv.report import NoVerdict
from . import _sweep

TABLES = ["api_mapping", "attribute_mapping", "api_alias_mapping", "api_wildcard_mapping"]
TYPES = {"Matcher": str, "paddle_api": str, "min_input_args": int, "args_list": list, "kwargs_change": dict,
         "unsupport_args": list, "paddle_default_kwargs": dict, "overload_args_list": list, "convert_tensor": list,
         "abstract": bool, "disable": bool, "enable_utils_code": bool}
# aliases reviewed as leading to an API that is not supported (reported, not converted)
UNSUPPORTED = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "alias_unsupported.json")))
RULE = ("every entry of the four JSON tables: keys unique, matcher class resolvable, instantiable and its get_paddle_api "
        "total, aliases one step, tables exclusive, wildcards compile and (when enabled) match no exact entry, argument "
        "references declared, no two arguments renamed into one target, paddle_api parses")


def locate(prog, table, key):
    p = prog.table_paths.get(table)
    if not p:
        return table
    for i, l in enumerate(open(p, encoding="utf-8"), 1):
        if l.lstrip().startswith(json.dumps(key) + ":"):
            return "paconvert/%s.json:%d %s" % (table, i, key)
    return "paconvert/%s.json %s" % (table, key)


def job(prog, j, thorough, st):
    """instantiate the matcher and ask for its replacement name"""
    api, table = j
    out = []
    seen = set()
    for use in apis.uses(prog, api, table):
        if use.style in seen:
            continue
        seen.add(use.style)
        for r in apis.run_use(prog, use, st, 200):
            if r.kind == "raise" and any(x in str(r.exc) for x in ("AssertionError", "KeyError", "AttributeError", "NameError")):
                out.append(("raise", use.written(), str(r.exc)))
    out.append(("n", 1))
    return out


def check(ctx):
    prog = ctx.prog
    ctx.rule(RULE)
    V = ctx.violation
    data = {}
    for t in TABLES:
        p = prog.table_paths.get(t)
        if not p or not os.path.exists(p):
            raise NoVerdict("table %s not found" % t)
        dup = []

        def hook(pairs, dup=dup):
            seen = {}
            for k, v in pairs:
                if k in seen:
                    dup.append(k)
                seen[k] = v
            return seen

        data[t] = json.loads(open(p, encoding="utf-8").read(), object_pairs_hook=hook)
        ctx.ob(len(data[t]))
        for k in dup:
            V("%s|dup|%s" % (t, k), locate(prog, t, k), "unique keys", "key %s is given twice; the later one silently wins" % k)
    A, T, L, W = (data[t] for t in TABLES)
    ctx.floor("api_entries", len(A), 1500)
    ctx.floor("attribute_entries", len(T), 20)
    ctx.floor("alias_entries", len(L), 50)
    ctx.coverage["wildcards"] = len(W)
    g = sweep.global_tables(prog)
    # the tables the program loads are these
    for name, t in (("API_MAPPING", A), ("ATTRIBUTE_MAPPING", T), ("ALIAS_MAPPING", L), ("API_WILDCARD_MAPPING", W)):
        ctx.ob()
        v = g.get(name)
        if v is None:
            ctx.undecide("GlobalManager.%s not found" % name)
            continue
        v = v[2] if isinstance(v, tuple) and v[0] == "table" else v
        if v != t:
            V("global|%s" % name, "paconvert/global_var.py GlobalManager.%s" % name, "tables loaded", "GlobalManager.%s is not the content of its table" % name)
    for k in A:
        ctx.ob()
        if k in T:
            V("both|%s" % k, locate(prog, "api_mapping", k), "exclusive", "%s is in api_mapping and attribute_mapping" % k)
    for k, v in L.items():
        ctx.ob(3)
        if k in A or k in T:
            V("alias-key|%s" % k, locate(prog, "api_alias_mapping", k), "exclusive", "%s is an alias and has an entry of its own: the converter asserts it has not" % k)
        if not isinstance(v, str) or not v:
            V("alias-type|%s" % k, locate(prog, "api_alias_mapping", k), "alias", "target is %r" % (v,))
        elif v in L:
            V("alias-chain|%s" % k, locate(prog, "api_alias_mapping", k), "alias", "%s -> %s, itself an alias" % (k, v))
        elif v not in A and v not in T and [k, v] not in UNSUPPORTED:
            V("alias-dangling|%s" % k, locate(prog, "api_alias_mapping", k), "alias", "%s -> %s, which has no entry" % (k, v))
    for w, m in W.items():
        ctx.ob()
        try:
            rx = re.compile(w)
        except re.error as ex:
            V("wildcard|%s" % w, locate(prog, "api_wildcard_mapping", w), "wildcard", "does not compile: %s" % ex)
            continue
        if "disable" not in m:
            for k in list(A) + list(T) + list(L):
                if rx.match(k):
                    V("wildcard-overlap|%s|%s" % (w, k), locate(prog, "api_wildcard_mapping", w), "wildcard", "matches the exact entry %s" % k)
    pk = g.get("TORCH_PACKAGE_MAPPING") or {}
    may = set(g.get("MAY_TORCH_PACKAGE_LIST") or ())
    base = prog.find_class("BaseMatcher")
    for t in ("api_mapping", "attribute_mapping", "api_wildcard_mapping"):
        for k, m in data[t].items():
            entry(ctx, prog, t, k, m, pk, may, base)
    for (api, table), f in _sweep.run(ctx, job, floor_paths=3000):
        if f[0] == "n":
            ctx.ob()
        else:
            V("unusable|%s|%s" % (api, f[2].split("(")[0]), locate(prog, table, api), "matcher usable", "converting %s raises %s" % (f[1], f[2][:200]))
    ctx.sample({"entry": "torch.abs", "content": A.get("torch.abs")})


def entry(ctx, prog, t, k, m, pk, may, base):
    V, where = ctx.violation, locate
    loc = "paconvert/%s.json %s" % (t, k)

    def bad(kind, what):
        V("%s|%s" % (kind, k), where(prog, t, k), kind, "%s: %s" % (k, what))

    ctx.ob(8)
    if not isinstance(m, dict):
        return bad("entry", "not an object")
    for f, v in m.items():
        if f not in TYPES:
            bad("unknown-field", "field %s is read by nobody" % f)
        elif not isinstance(v, TYPES[f]) and not (TYPES[f] is bool and isinstance(v, (bool, int, str))):
            bad("field-type", "field %s is %s" % (f, type(v).__name__))
    root = k.split(".")[0]
    if pk and root not in pk and root not in may and "*" not in root:
        bad("unreachable", "root package %s is neither replaced nor watched" % root)
    if "disable" in m:
        return
    mn = m.get("Matcher")
    if not mn:  # recognised, always reported as unsupported
        return
    c = sweep.matcher_class(prog, mn)
    if c is None:
        return bad("matcher", "matcher class %s does not resolve in the transformer" % mn)
    if base is not None and base not in prog.mro(c):
        bad("matcher", "%s is not a matcher" % mn)
    pa = m.get("paddle_api")
    if isinstance(pa, str):
        try:
            tr = ast.parse(pa).body
            if len(tr) != 1 or not isinstance(tr[0], ast.Expr):
                bad("paddle_api", "%r is not one expression" % pa)
        except SyntaxError as ex:
            bad("paddle_api", "%r does not parse" % pa)
    al = list(m.get("args_list") or [])
    names = [x.lstrip("*") for x in al if x != "*"]
    star = al.index("*") if "*" in al else len(al)
    for part in (al[:star], al[star + 1 :]):  # an overload may repeat an argument across the `*`
        if len(set(part)) != len(part):
            bad("args_list", "an argument is declared twice")
    if al.count("*") > 1:
        bad("args_list", "more than one `*`")
    pos = al[: al.index("*")] if "*" in al else al
    mi = m.get("min_input_args")
    if isinstance(mi, int) and "args_list" in m and mi > len(pos):
        bad("min_input_args", "%d required, %d positional arguments declared: no call can be converted" % (mi, len(pos)))
    decl = set(names) | set(m.get("overload_args_list") or [])
    kc = m.get("kwargs_change") or {}
    if "args_list" in m and not any(x.startswith("**") for x in al):
        for x in kc:
            if x not in decl:
                bad("kwargs_change", "renames %s, which is not declared" % x)
        for x in m.get("unsupport_args") or []:
            if x not in decl:
                bad("unsupport_args", "%s is not declared: it is not what gets refused" % x)
        for x in m.get("convert_tensor") or []:
            if x not in decl and x not in kc.values():
                bad("convert_tensor", "%s is not declared" % x)
    tgt = {}
    for x in names:
        y = kc.get(x, x)
        for z in y if isinstance(y, list) else [y]:
            if z == "" or z is None:
                continue
            if x in (m.get("unsupport_args") or []):
                continue
            if z in tgt and tgt[z] != x:
                bad("merged", "%s and %s are both renamed to %s" % (tgt[z], x, z))
            tgt[z] = x
    for x in m.get("paddle_default_kwargs") or {}:
        v = m["paddle_default_kwargs"][x]
        if not isinstance(v, (str, int, float, bool, list, type(None))):
            bad("paddle_default_kwargs", "%s has a %s default" % (x, type(v).__name__))
