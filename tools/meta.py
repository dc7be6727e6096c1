#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from this table.
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T="contract-based deductive verification of the real Go functions (gover: SSA symbolic execution, loop invariants, SMT)"
P=[]  # (id,title,statement,over,quant,why,files,[(name,where)],level_note)
NA=[]
def p(id,title,statement,over,quant,why,files,mech,note): P.append((id,title,statement,over,quant,why,files,mech,note))
def na(id,title,statement,over,quant,why,files,mech,reason): P.append((id,title,statement,over,quant,why,files,mech,None)); NA.append((id,reason))
exec(open(V+"/tools/props.py").read())
with open(V+"/properties.jsonl","w") as f:
    for id,title,st,over,q,why,files,mech,note in P:
        assert len(title)<=80,id
        f.write(json.dumps({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}},ensure_ascii=False)+"\n")
m={"version":1,"setup_cmd":"/verif/check.sh setup","checks":[{"property":x[0],"quick_cmd":"/verif/check.sh %s quick"%x[0],"thorough_cmd":"/verif/check.sh %s thorough"%x[0],"technique":T,"level":"proof","level_note":x[8]} for x in P if x[8]],"not_applicable":[{"property":i,"reason":r} for i,r in NA]}
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1,ensure_ascii=False); open(V+"/MANIFEST.json","a").write("\n")
