"""MANIFEST.json from the registry (claimed properties) and properties.jsonl."""
import json, pathlib
R=pathlib.Path(__file__).resolve().parent.parent
reg=json.loads((R/'harness/registry.json').read_text())
props=[json.loads(l) for l in (R/'properties.jsonl').read_text().splitlines()]
checks=[];na=[]
for p in props:
    i=p['id']
    if i in reg:
        r=reg[i]
        checks.append(dict(property=i,quick_cmd=f"python3 run.py {i} quick",thorough_cmd=f"python3 run.py {i} thorough",
            technique="TLA+ specification checked with TLC; TLC-generated and seeded behaviours replayed in the real code; recorded traces validated by TLC against the specification",
            level="model_checking",
            level_note=r.get("note","The specification is model-checked exhaustively within small constants; every explored execution of the real code is decided by TLC against it. Trusted: the projection of meshes to integers (coordinates at 1e-4), TLC, and that the explored inputs are representative of the quantified ones.")))
    else:
        na.append(dict(property=i,reason="check not built yet"))
m=dict(version=1,setup_cmd="python3 tools/setup.py",checks=checks,not_applicable=na,
  notes="No hooks in /repo are needed: the public API exposes the abstract state. See DESIGN.md.")
(R/'MANIFEST.json').write_text(json.dumps(m,indent=1)+'\n')
