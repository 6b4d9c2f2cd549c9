"""Leaving an argument out means the same as giving its documented default (harness/defaults.json).
Calls made by the suites are rewritten on the fly: arguments that equal their documented default are left out half of the time."""
import functools, inspect, json, random, sys
from pathlib import Path

RNG = random.Random(0)


def same(a, d):
    if d is None or isinstance(d, (bool, str)):
        return a is None if d is None else type(a) is type(d) and a == d
    return isinstance(a, (int, float)) and not isinstance(a, bool) and a == d


def wrap(f, dflt):
    ps = inspect.signature(f).parameters.values()
    names = [p.name for p in ps if p.kind is p.POSITIONAL_OR_KEYWORD]
    if any(p.kind in (p.VAR_POSITIONAL, p.POSITIONAL_ONLY) for p in ps):
        return f

    @functools.wraps(f)
    def g(*args, **kw):
        if not sys._getframe(1).f_globals.get("__name__", "").startswith("suites.") or len(args) > len(names):
            return f(*args, **kw)
        out = {n for n, v in [*zip(names, args), *kw.items()] if n in dflt and same(v, dflt[n]) and RNG.random() < 0.5}
        if not out:
            return f(*args, **kw)
        k = next((i for i, n in enumerate(names[:len(args)]) if n in out), len(args))
        rest = {n: v for n, v in zip(names[k:], args[k:]) if n not in out}
        return f(*args[:k], **rest, **{n: v for n, v in kw.items() if n not in out})
    return g


def install():
    import pvgridder as pvg
    for name, d in json.loads((Path(__file__).parent / "defaults.json").read_text()).items():
        owner, attr = (inspect.unwrap(getattr(pvg, name.split(".")[0], None)), name.split(".")[1]) if "." in name else (pvg, name)
        f = owner.__dict__.get(attr) if owner is not None else None
        if inspect.isfunction(f):
            setattr(owner, attr, wrap(f, d))
        elif "." in name and owner is not None and inspect.isfunction(getattr(owner, attr, None)):
            # inherited: wrapped once on the class that has it
            o = next(c for c in owner.__mro__ if attr in c.__dict__)
            if not getattr(o.__dict__[attr], "_omit", False):
                w = wrap(o.__dict__[attr], d)
                w._omit = True
                setattr(o, attr, w)
