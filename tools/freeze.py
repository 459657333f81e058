"""Writes spec/routing.json: the reviewed reference of argument routing, from a
tree that has been reviewed.  Run by hand only; no check calls it."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
import warnings
warnings.filterwarnings("ignore")
from pcv import apis, facts, sweep
from pcv.program import Program

# genuine defects of the reviewed tree: kept out of the reference, so that the
# checks report them (they are listed in known_findings.txt)
NOT_A_DROP = {("torch.scalar_tensor", "pin_memory"), ("torch.sparse_csr_tensor", "pin_memory"),
              ("torch.set_printoptions", "profile"), ("torch.cpu.set_device", "device")}

THOROUGH = "--thorough" in sys.argv


def job(prog, j, th, st):
    out = []
    for r in apis.records(prog, j[0], j[1], th, st):
        key = facts.shape_key(r.use)
        if apis.self_receiver(r) and r.use.style in ("method", "exprmethod", "selfmethod"):
            continue
        f = facts.facts(r)
        if f is None:
            out.append((key, r.outcome, None))
        elif "gap" in f:
            print("gap", j, f)
        else:
            out.append((key, r.outcome, f))
    return [out]


if __name__ == "__main__":
    prog = Program()
    jobs = sweep.all_jobs(prog)
    if len(sys.argv) > 1 and not sys.argv[-1].startswith("-"):
        jobs = [j for j in jobs if sys.argv[-1] in j[0]]
    res, st = sweep.parallel(prog, jobs, job, THOROUGH)
    strs, idx = [], {}

    def I(s):
        if s not in idx:
            idx[s] = len(strs)
            strs.append(s)
        return idx[s]

    out = {}
    for (api, table), outs in res:
        if outs and outs[0] and outs[0][0] == "error":
            print(api, outs[0])
            continue
        shapes = {}
        drops = {}
        calls = set()
        for key, outcome, f in outs[0] if outs else []:
            s = shapes.setdefault(key, {"o": set(), "a": {}, "may": set(), "must": None, "mult": {}, "d": {}})
            s["o"].add(outcome)
            if f is None:
                continue
            calls |= set(f["calls"])
            for a, (stt, d, slots) in f["args"].items():
                s["a"].setdefault(a, set()).update(slots)
                s["mult"][a] = max(s["mult"].get(a, 0), len(slots))
                if stt in ("lost", "altered") and (api, a) not in NOT_A_DROP:
                    s["d"].setdefault(a, set()).add(stt)
                    drops.setdefault(a, set()).add(stt)
            c = set(f["consts"])
            s["may"] |= c
            s["must"] = c if s["must"] is None else s["must"] & c
        profs, pidx, smap = [], {}, {}
        for key, s in shapes.items():
            pr = {
                "o": sorted(s["o"]),
                "a": {a: sorted(I(x) for x in v) for a, v in sorted(s["a"].items())},
                "d": {a: sorted(x) for a, x in sorted(s["d"].items())},
                "n": {a: n for a, n in s["mult"].items() if n > 1},
                "may": sorted(I("\x1f".join(x)) for x in s["may"]),
                "must": sorted(I("\x1f".join(x)) for x in (s["must"] or ())),
            }
            pr = {k: v for k, v in pr.items() if v}
            t = json.dumps(pr, sort_keys=True)
            if t not in pidx:
                pidx[t] = len(profs)
                profs.append(pr)
            smap[key] = pidx[t]
        out[table + ":" + api] = {"drops": {a: sorted(v) for a, v in sorted(drops.items())},
                                  "calls": sorted(I(c) for c in calls), "p": profs, "s": smap}
    dst = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "routing.json")
    if len(sys.argv) > 1 and not sys.argv[-1].startswith("-"):
        dst = "/tmp/s/routing.json"
    with open(dst, "w") as fh:
        fh.write('{"strings": %s,\n"apis": {\n' % json.dumps(strs))
        fh.write(",\n".join("%s: %s" % (json.dumps(k), json.dumps(v, separators=(",", ":"))) for k, v in sorted(out.items())))
        fh.write("\n}}\n")
    print(len(out), st.paths, st.gaps, os.path.getsize(dst), len(strs))
