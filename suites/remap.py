"""C22: remapping categorical data."""
from harness.util import *

LAB = ["a", "b", "c", "rock", "7", "Sand stone", "é"]


def entries(rng, vals, labs, merge):
    """one mapping: keyed by label or value, each value at most once"""
    out = []
    univ = list(dict.fromkeys(vals + list(labs.values()) + [11]))
    rng.shuffle(univ)
    free = list(range(-2, 14))
    rng.shuffle(free)
    name = {v: k for k, v in labs.items()}
    for v in univ[:rng.randint(0, len(univ))]:
        to = rng.choice(univ + free[:2]) if merge else free.pop()
        by = v in name and rng.random() < 0.6
        out.append(dict(lab=name[v] if by else "", val=v, to=to))
    if rng.random() < 0.3 and len(univ) >= 2:      # permute present values
        perm = univ[:]
        rng.shuffle(perm)
        out = [dict(lab=name[v] if v in name and rng.random() < 0.5 else "", val=v, to=t) for v, t in zip(univ, perm)]
    return out


class S(Suite):
    trace = "Trace_Remap"

    def models(self, prop, tier):
        return [dict(module="MC_Remap", cfg="MC_Remap.cfg", name="remap")]

    def cases(self, prop, rng, tier, beh):
        n = 2 if tier == "quick" else 10
        out = []
        B = beh["remap"]
        for x in rng.sample(B, min(len(B), 400 * n)):
            d = list(x["d"].values()) if isinstance(x["d"], dict) else list(x["d"])
            out.append(dict(data=d, labs={k: v for k, v in x["t"]}, pref=rng.choice(["cell", "point"]), steps=[dict(mp=[dict(m) for m in x["mp"]], inplace=rng.random() < 0.5, bad="")]))
        for _ in range(400 * n):
            data = [rng.choice([0, 1, 2, 3, 5, -1]) for _ in range(rng.randint(1, 8))]
            k = rng.randint(0, 5)
            labs = dict(zip(rng.sample(LAB, k), rng.sample([0, 1, 2, 3, 5, -1, 9, 10], k)))
            steps = []
            d, t = list(data), dict(labs)
            for _ in range(rng.randint(1, 4)):
                mp = entries(rng, sorted(set(d)), t, rng.random() < 0.3)
                bad = rng.choice(["", "", "", "", "", "", "float", "pref"]) if rng.random() < 0.3 else ""
                if rng.random() < 0.07:
                    mp.append(dict(lab="nosuch", val=0, to=1))
                steps.append(dict(mp=mp, inplace=rng.random() < 0.5, bad=bad))
                if not bad and not any(m["lab"] == "nosuch" for m in mp):
                    new = {(t[m["lab"]] if m["lab"] else m["val"]): m["to"] for m in mp}
                    t = {k: new.get(v, v) for k, v in t.items() if v in d}
                    d = [new.get(v, v) for v in d]
                    if len(set(t.values())) < len(t):   # ambiguous from here on
                        break
            out.append(dict(data=data, labs=labs, pref=rng.choice(["cell", "point"]), steps=steps))
        return out

    def run(self, c):
        import numpy as np, pyvista as pv, pvgridder as pvg
        from harness.proj import attempt, ints
        n = len(c["data"])
        pref = c["pref"]
        me = pv.ImageData(dimensions=(n + 1, 2, 1)) if pref == "cell" else pv.PolyData(np.arange(3.0 * n).reshape((n, 3)))
        if pref == "cell" and n % 2:
            me = me.cast_to_unstructured_grid()
        attr = lambda m: m.cell_data if pref == "cell" else m.point_data
        attr(me)["cat"] = np.array(c["data"])
        attr(me)["flt"] = np.arange(n) * 0.5
        attr(me)["oth"] = np.arange(n)
        if pref == "cell":
            me.point_data["cat"] = np.arange(me.n_points) % 3
        if c["labs"]:
            me.user_dict["cat"] = dict(c["labs"])
        me.user_dict["keep"] = {"x": 1}
        tab = lambda m: [[k, int(v)] for k, v in dict(m.user_dict["cat"]).items()] if "cat" in m.user_dict else []
        names = lambda m: [str(x) for x in pvg.get_cell_group(m, "cat")] if pref == "cell" and len(dict(m.user_dict["cat"]) if "cat" in m.user_dict else {}) >= len(set(ints(attr(m)["cat"]))) and set(ints(attr(m)["cat"])) <= {v for _, v in tab(m)} else []
        out = [dict(ev="init", data=ints(attr(me)["cat"]), tab=tab(me))]
        for s in c["steps"]:
            mp = {(m["lab"] or m["val"]): m["to"] for m in s["mp"]}
            n0 = names(me)
            kw = dict(preference=pref if s["bad"] != "pref" else "field", inplace=s["inplace"])
            r, exc = attempt(lambda: pvg.remap_categorical_data(me, "flt" if s["bad"] == "float" else "cat", mp, **kw))
            e = dict(ev="remap", mp=s["mp"], inplace=s["inplace"], bad=s["bad"], exc=exc, data=ints(attr(me)["cat"]), tab=tab(me), rdata=[], rtab=[], names=[], names0=n0, isnone=r is None, other=True)
            if not exc:
                res = me if s["inplace"] else r
                if res is not None:
                    e["rdata"], e["rtab"] = ints(attr(res)["cat"]), tab(res)
                    e["names"] = names(res) if n0 else []
                    e["other"] = ints(attr(res)["oth"]) == list(range(n)) and dict(res.user_dict["keep"]) == {"x": 1} and (pref == "point" or ints(res.point_data["cat"]) == [i % 3 for i in range(res.n_points)])
                    me = res
            out.append(e)
        return out


SUITE = S()
