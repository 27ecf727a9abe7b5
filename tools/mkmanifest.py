import json, os, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V+'/checks')
import scen
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
NOTES={}
NA={}
exec(open(V+'/tools/notes.py').read())
checks=[]; na=[]
for p in props:
    i=p['id']
    if i in NA: na.append({'property':i,'reason':NA[i]}); continue
    if not scen.scenarios(i,'quick'): na.append({'property':i,'reason':'check not built yet'}); continue
    checks.append({'property':i,'quick_cmd':'python3 check.py %s --tier quick'%i,'thorough_cmd':'python3 check.py %s --tier thorough'%i,
      'technique':'bounded symbolic execution of the LLVM IR with symbolic schedules, decided by SAT/SMT(QF_BV)',
      'level':'model_checking','level_note':NOTES.get(i,'')+' '+COMMON})
json.dump({'version':1,'setup_cmd':'bash engine/build.sh','checks':checks,'not_applicable':na},open(V+'/MANIFEST.json','w'),indent=1)
print(len(checks),'claimed',len(na),'not')
