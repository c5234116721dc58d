#!/usr/bin/env python3
# Regenerates MANIFEST.json from properties.jsonl, the harness annotations and
# scripts/levels.json (level notes; not_applicable reasons).
import json,re,glob,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
claimed={}
for f in glob.glob(root+'/harness/pkg/**/*.go',recursive=True):
    for m in re.finditer(r'//zkv:prop ([A-Z0-9, ]+)',open(f).read()):
        for p in m.group(1).split(','): claimed.setdefault(p.strip(),0); claimed[p.strip()]+=1
notes=json.load(open(root+'/scripts/levels.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in claimed and i not in notes['na']:
        checks.append({"property":i,"quick_cmd":"VERIF_TIER=quick ./check.sh "+i,"thorough_cmd":"VERIF_TIER=thorough ./check.sh "+i,
          "technique":"symbolic execution of go/ssa of the real code + z3 (bounded model checking), counterexamples replayed natively",
          "level":"model_checking","level_note":notes['notes'].get(i,notes['default'])})
    else:
        na.append({"property":i,"reason":notes['na'].get(i,"no check yet")})
m={"version":1,"setup_cmd":"cd engine && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0 GOWORK=off go build -o ../bin/zkverif .","checks":checks,"not_applicable":na,
 "notes":"No hooks in /repo: harnesses and environment models are put in by a build overlay."}
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1); open(root+'/MANIFEST.json','a').write('\n')
print(len(checks),"checks",len(na),"not applicable")
