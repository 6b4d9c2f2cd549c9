"""Shared generation helpers (no heavy imports)."""
METHODS = ["", "constant", "log", "log_r"]


def res_int(n):
    return dict(k="int", n=n)


def rand_res(rng, nmax=8, lists=True, endpoints=True):
    r = rng.random()
    if r < 0.12:
        return dict(k="none")
    if r < 0.75 or not lists:
        return dict(k="int", n=rng.randint(1, nmax))
    k = rng.randint(0, 3)
    inner = rng.sample([125000, 250000, 375000, 500000, 625000, 750000, 875000], k)
    v = [0, *inner, 1000000] if endpoints else sorted(rng.sample([0, 125000, 250000, 500000, 625000, 875000, 1000000], k + 2))
    if rng.random() < 0.6:
        rng.shuffle(v)
    return dict(k="list", v=v)


def rand_method(rng, res):
    return "" if res["k"] == "list" else rng.choice(METHODS)


def real_res(res):
    import numpy as np
    if res["k"] == "none":
        return None
    if res["k"] == "int":
        return res["n"]
    if res["k"] == "list":
        v = [x / 1.0e6 for x in res["v"]]
        return np.array(v) if res.get("np") else v
    return [[0.0, 0.5], [0.5, 1.0]]


def real_m(m):
    return m if m else None


def spread(rng, n, *gens):
    """n cases out of several generators, evenly."""
    out = []
    for i in range(n):
        out.append(gens[i % len(gens)](rng))
    return out


class Suite:
    trace = ""

    def models(self, prop, tier):
        return []

    def cases(self, prop, rng, tier, beh):
        raise NotImplementedError

    def run(self, case):
        raise NotImplementedError


ALIASES = [{"a": "a ", "b": "A", "c": "a"}, {"a": "b", "b": "B", "G1": " b"}, {"a": "0", "b": "1", "c": "2"}, {"a": "1", "b": "0", "G1": "x~y"},
           {"a": "two words", "b": "two  words", "G1": "None"}, {"b": "default", "a": "Default"}, {"a": "all", "G1": "nan", "b": "é"}]


def rename(v, m):
    """a case with other names for its groups"""
    if isinstance(v, str):
        return m.get(v, v)
    if isinstance(v, list):
        return [rename(x, m) for x in v]
    if isinstance(v, dict):
        return {k: rename(x, m) for k, x in v.items()}
    return v


def alias_names(rng, cases, p=0.3):
    return [rename(c, rng.choice(ALIASES)) if rng.random() < p else c for c in cases]
