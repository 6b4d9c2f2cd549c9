import json, sys
p='/verif/harness/registry.json'
r=json.load(open(p))
for a in sys.argv[1:]:
    i,s=a.split('='); r[i]=dict(r.get(i,{}),suites=[{"suite":x} for x in s.split(',')])
open(p,'w').write("{\n"+",\n".join(f' "{k}": {json.dumps(v)}' for k,v in sorted(r.items()))+"\n}\n")
