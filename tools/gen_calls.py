"""Authoring-time only: combine spec/torch_sigs.json (signatures of the source
libraries) with the argument lists of the mapping table as they were reviewed,
into spec/calls.json, the reference call signatures the sweep enumerates."""
import json
m = json.load(open("/repo/paconvert/api_mapping.json"))
S = json.load(open("/verif/spec/torch_sigs.json"))

def fit(p, k, o):
    if o["var"]:
        return False
    op = [x[0] for x in o["pos"]]
    ok = [x[0] for x in o["kw"]]
    n = min(len(p), len(op))
    if p[:n] != op[:n]:
        return False
    if len(op) > len(p) and any(x[1] for x in o["pos"][len(p):]):
        return False
    return all(x[0] in p + k for x in o["pos"] + o["kw"] if x[1])

out = {}
for a, e in m.items():
    al = [x for x in e.get("args_list") or [] if not (x.startswith("*") and len(x) > 1)]
    ovs = []
    sig = S.get(a)
    if al:
        i = al.index("*") if "*" in al else len(al)
        p, k = al[:i], al[i + 1:]
        k = [x for x in k if x not in p]
        reqs = []
        if sig:
            for o in sig["overloads"]:
                if fit(p, k, o):
                    op = [x[0] for x in o["pos"]]
                    ok = [x[0] for x in o["kw"]]
                    r = [x[0] for x in o["pos"] + o["kw"] if x[1]]
                    ent = {"pos": [x for x in p if x in op], "kw": [x for x in p + k if x in ok or x not in op],
                           "req": r, "src": sig["src"]}
                    if len(sig["overloads"]) > 1:
                        # an overload takes its own parameters only
                        ent["kw"] = [x for x in ent["kw"] if x in ok]
                    if ent not in ovs:
                        ovs.append(ent)
                elif not o["var"] and o["pos"] and all(x[0] in al for x in o["pos"]) and sig["src"] == "stub":
                    ent = {"pos": [x[0] for x in o["pos"]], "kw": [x[0] for x in o["kw"] if x[0] in al],
                           "req": [x[0] for x in o["pos"] if x[1]], "src": "stub"}
                    if ent not in ovs:
                        ovs.append(ent)
        if not ovs:
            ovs = [{"pos": p, "kw": k, "req": p[: e.get("min_input_args", 0)], "src": "table"}]
    elif sig:
        for o in sig["overloads"][:6]:
            ent = {"pos": [x[0] for x in o["pos"]], "kw": [x[0] for x in o["kw"]],
                   "req": [x[0] for x in o["pos"] + o["kw"] if x[1]], "src": sig["src"]}
            if o["var"]:
                ent["var"] = True
            if ent not in ovs:
                ovs.append(ent)
    else:
        ovs = [{"pos": [], "kw": [], "req": [], "src": "none", "var": True}]
    out[a] = ovs
# libraries that are not installed here, or signatures the stubs do not give
out["flash_attn.flash_attn_interface.flash_attn_unpadded_func"][0]["req"] = ["q", "k", "v", "cu_seqlens_q", "cu_seqlens_k", "max_seqlen_q", "max_seqlen_k"]
out["fairscale.nn.model_parallel.layers.ParallelEmbedding"][0]["req"] = ["num_embeddings", "embedding_dim"]
out["torch.onnx.export"][0]["req"] = ["model", "args", "f"]
o = out["torch.optim.lr_scheduler.OneCycleLR"][0]
o2 = dict(o, pos=["optimizer", "max_lr"], kw=[x for x in o["pos"][2:] if x != "total_steps"],
          req=["optimizer", "max_lr", "epochs", "steps_per_epoch"])
o["req"] = ["optimizer", "max_lr", "total_steps"]
out["torch.optim.lr_scheduler.OneCycleLR"].append(o2)
mt = ["dtype", "device", "low", "high", "requires_grad", "noncontiguous", "exclude_zero", "memory_format"]
out["torch.testing.make_tensor"] = [
    {"pos": ["shape"], "kw": mt, "req": ["shape", "dtype", "device"], "src": "manual"},
    {"pos": ["size0", "size1"], "kw": mt, "req": ["size0", "size1", "dtype", "device"], "posonly": True, "src": "manual"},
]
out["torch.chain_matmul"] = [{"pos": ["mat0", "mat1", "mat2"], "kw": ["out"], "req": ["mat0", "mat1"], "posonly": True, "src": "manual"}]
out["flash_attn.layers.rotary.apply_rotary_emb_func"][0].update(req=["x", "cos", "sin"], src="manual")
st = out["setuptools.setup"][0]
out["setuptools.setup"] = [{"pos": [], "kw": st["pos"], "req": [], "src": "manual"}]
with open("/verif/spec/calls.json", "w") as f:
    f.write("{\n" + ",\n".join("%s: %s" % (json.dumps(a), json.dumps(out[a])) for a in sorted(out)) + "\n}\n")
import collections
print(len(out), collections.Counter(o["src"] for v in out.values() for o in v))
