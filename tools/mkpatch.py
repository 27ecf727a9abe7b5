# mkpatch.py ID PROP FILE  <<< python expr list ; helper used interactively
import sys,subprocess,json
def seed(id,prop,edits,needs,breaks):
    subprocess.check_call('git -C /tmp/sw checkout -q -- . && git -C /tmp/sw fetch -q /repo HEAD && git -C /tmp/sw reset -q --hard FETCH_HEAD',shell=True)
    for f,a,b in edits:
        p='/tmp/sw/'+f; s=open(p,newline='').read(); a2=a if a in s else a.replace('\n','\r\n'); b2=b if a in s else b.replace('\n','\r\n')
        assert s.count(a2)==1,(f,s.count(a2),a); open(p,'w',newline='').write(s.replace(a2,b2))
    d=subprocess.check_output('git -C /tmp/sw diff',shell=True); open('/verif/seeded/%s/patch.diff'%id,'wb').write(d)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open('/verif/seeded/%s/meta.json'%id,'w'),indent=1)
    subprocess.check_call('git -C /tmp/sw checkout -q -- .',shell=True)
