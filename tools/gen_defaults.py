"""Development aid: writes harness/defaults.json, the documented default values of the public interface (part of the specification:
leaving an argument out means the same as giving its default value)."""
import inspect, json, sys
sys.path.insert(0, "/repo")
import pvgridder as pvg
out = {}
def table(f):
    d = {}
    for k, p in inspect.signature(f).parameters.items():
        if p.default is not inspect.Parameter.empty and (p.default is None or isinstance(p.default, (bool, int, float, str))):
            d[k] = p.default
    return d
for name in sorted(dir(pvg)):
    x = getattr(pvg, name)
    x = inspect.unwrap(x) if callable(x) else x      # (a class may be decorated)
    if name.startswith("_") or not callable(x) or not getattr(x, "__module__", "").startswith("pvgridder"):
        continue
    if inspect.isclass(x):
        if x is not getattr(pvg, name):
            out[name] = table(x.__init__)
        for m, f in inspect.getmembers(x, inspect.isfunction):
            if (not m.startswith("_") or m == "__init__") and table(f):
                out[f"{name}.{m}"] = table(f)
    elif table(x):
        out[name] = table(x)
open("/verif/harness/defaults.json", "w").write(json.dumps(out, indent=1, sort_keys=True) + "\n")
