"""Access to the reviewed routing reference (spec/routing.json)."""
from . import spec


class Ref:
    """reference for one mapping entry"""

    def __init__(self, d, strs):
        self.d, self.S = d, strs
        self.drops = {a: set(v) for a, v in d["drops"].items()}
        self.calls = {strs[i] for i in d["calls"]}
        self._u = None

    def profile(self, key):
        i = self.d["s"].get(key)
        return None if i is None else Prof(self.d["p"][i], self.S)

    def union(self):
        if self._u is None:
            u = Prof({}, self.S)
            for p in self.d["p"]:
                q = Prof(p, self.S)
                u.outcomes |= q.outcomes
                u.may |= q.may
                for a, x in q.slots.items():
                    u.slots.setdefault(a, set()).update(x)
                for a, x in q.drops.items():
                    u.drops.setdefault(a, set()).update(x)
                for a, n in q.mult.items():
                    u.mult[a] = max(u.mult.get(a, 1), n)
            self._u = u
        return self._u


class Prof:
    def __init__(self, p, S):
        self.outcomes = set(p.get("o", ()))
        self.slots = {a: {S[i] for i in x} for a, x in p.get("a", {}).items()}
        self.drops = {a: set(x) for a, x in p.get("d", {}).items()}
        self.mult = dict(p.get("n", {}))
        self.may = {tuple(S[i].split("\x1f")) for i in p.get("may", ())}
        self.must = {tuple(S[i].split("\x1f")) for i in p.get("must", ())}


def ref(table, api):
    d = spec.load("routing.json")
    x = d["apis"].get(table + ":" + api)
    return None if x is None else Ref(x, d["strings"])


def lookup(table, api, key):
    """-> (Ref, Prof, exact?) ; (None, None, False) for an entry unknown to the review"""
    r = ref(table, api)
    if r is None:
        return None, None, False
    p = r.profile(key)
    if p is not None:
        return r, p, True
    return r, r.union(), False
