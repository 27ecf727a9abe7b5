import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open(sys.argv[1]))
p=set(t['passed']); miss=[x for x in b if x not in p]
print('stable %d, missing %d'%(len(b),len(miss)), miss[:10]); sys.exit(1 if miss else 0)
