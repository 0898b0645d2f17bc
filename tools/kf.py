#!/usr/bin/env python3
"""dev helper: kf.py fixed PROP COMMIT TEXT | kf.py find PROP KEY TEXT"""
import json,sys,os
p=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'known_findings.json')
d=json.load(open(p)); a=sys.argv
if a[1]=='fixed': d['fixed'].append('fixed: property=%s %s %s'%(a[2],a[3],a[4]))
else: d['findings'].append(dict(property=a[2],key=a[3],what=a[4]))
json.dump(d,open(p,'w'),indent=1); open(p,'a').write('\n')
