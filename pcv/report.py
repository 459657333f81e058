"""Findings, known findings, evidence."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class NoVerdict(Exception):
    pass


class Finding:
    def __init__(self, key, where, rule, detail, trace=()):
        self.key = key  # stable identity: no line numbers
        self.where = where  # file:line function
        self.rule = rule
        self.detail = detail
        self.trace = list(trace)


def load_known(pid):
    """known_findings.txt: lines
    KNOWN property=C01 key=<key> :: description
    fixed: property=C01 <commit> <what failed>         (suppresses nothing)
    """
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.rstrip("\n")
            if line.startswith("KNOWN property=%s key=" % pid):
                rest = line.split(" key=", 1)[1]
                key, _, desc = rest.partition(" :: ")
                out[key.strip()] = desc.strip()
    return out


class Ctx:
    def __init__(self, pid, tier, prog):
        self.pid = pid
        self.tier = tier
        self.thorough = tier == "thorough"
        self.prog = prog
        self.findings = {}
        self.coverage = {}
        self.samples = []
        self.rules = []
        self.assumptions = []
        self.obligations = 0
        self.undecided = 0
        self.undecided_why = {}
        self.analysed = set()

    # -- obligations
    def ob(self, n=1):
        self.obligations += n

    def undecide(self, why, n=1):
        self.undecided += n
        why = str(why)[:160]
        self.undecided_why[why] = self.undecided_why.get(why, 0) + n

    def violation(self, key, where, rule, detail, trace=()):
        key = key.replace("\n", " ")
        if key not in self.findings:
            self.findings[key] = Finding(key, where, rule, detail, trace)

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def floor(self, name, n, least):
        """vacuity guard: the analysis must have found its subject"""
        self.coverage[name] = n
        if n < least:
            raise NoVerdict("analysed only %d %s (expected at least %d): the analysis lost its subject" % (n, name, least))

    def finish(self, wall):
        known = load_known(self.pid)
        new, old = [], []
        for f in self.findings.values():
            (old if f.key in known else new).append(f)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        replay = os.path.join("evidence", "%s.violations.txt" % self.pid)
        rp = os.path.join(HERE, replay)
        if new:
            with open(rp, "w", encoding="utf-8") as fh:
                for f in new:
                    fh.write("key:    %s\nwhere:  %s\nrule:   %s\ndetail: %s\n" % (f.key, f.where, f.rule, f.detail))
                    for t in f.trace:
                        fh.write("   | %s\n" % t)
                    fh.write("\n")
        elif os.path.exists(rp):
            os.remove(rp)
        cov = dict(self.coverage)
        cov["obligations"] = self.obligations
        cov["discharged"] = self.obligations - len(self.findings) - self.undecided
        cov["undecided"] = self.undecided
        if self.undecided_why:
            cov["undecided_reasons"] = dict(sorted(self.undecided_why.items(), key=lambda x: -x[1])[:10])
        cov["functions_analysed"] = len(self.analysed)
        cov["functions_sample"] = sorted(self.analysed)[:15]
        cov["explanation"] = " ".join(self.rules)
        cov["samples"] = self.samples
        cov["known_findings"] = [f.key for f in old]
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
            "level": "other",
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(wall, 3),
            "violations": len(new),
        }
        with open(os.path.join(HERE, "evidence", self.pid + ".json"), "w", encoding="utf-8") as fh:
            json.dump(ev, fh, indent=1, ensure_ascii=False)
        for f in old:
            print("KNOWN-FINDING: property=%s %s (%s)" % (self.pid, f.key, known[f.key]))
        for f in new[:15]:
            print("  %s: %s [%s] %s" % (f.where, f.rule, f.key, f.detail))
        if new:
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        print(
            "OK property=%s obligations=%d undecided=%d known=%d wall=%.1fs"
            % (self.pid, self.obligations, self.undecided, len(old), wall)
        )
        return 0
