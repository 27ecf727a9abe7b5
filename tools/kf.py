#!/usr/bin/env python3
# kf.py fixed PROP COMMIT TEXT: append an entry to known_findings.json
import json,sys,os
f=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'known_findings.json'); l=json.load(open(f)); _,st,p,c,t=sys.argv
l.append({'status':st,'property':p,'commit':c,'what':'%s: property=%s %s %s'%(st,p,c,t)}); json.dump(l,open(f,'w'),indent=1)
