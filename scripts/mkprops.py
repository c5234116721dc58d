#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl from the table below (single source).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None,hook=None):
    d={"id":id,"title":title,"statement":statement,
       "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech]}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    if obs: d["anchors"]["observe_at"]=obs
    d["anchors"]["hook_needed"]=hook
    P.append(d)

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'props_table.py')).read())
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for d in P:
        assert len(d['title'])<=80,(d['id'],len(d['title']))
        f.write(json.dumps(d)+"\n")
print(len(P),"properties")
