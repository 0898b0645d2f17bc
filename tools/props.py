#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json.
Run: python3 tools/props.py   (rewrites both files, deterministically)"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
def P(id, title, statement, over, quant, why, files, mech, state=(), observe=(),
      level=None, technique=None, note=None, na=None):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over,
        quant=' '.join(quant.split()), why=' '.join(why.split()), files=files, mech=mech,
        state=state, observe=observe, level=level, technique=technique,
        note=' '.join((note or '').split()), na=na))
T='core/lib/TimeHandling/'; U='core/lib/Utilities/'; E='core/lib/GNSSEph/'; F='core/lib/FileHandling/'
X='ext/lib/'
exec(open(os.path.join(V,'tools','props_data.py')).read())
def S(id, **kw):
    p=[q for q in PROPS if q['id']==id][0]
    for k,v in kw.items():
        if k in('statement','quant','why','note'): v=' '.join(v.split())
        if k=='addfiles': p['files']=p['files']+v
        else: p[k]=v
    assert len(p['title'])<=80
exec(open(os.path.join(V,'tools','props_refine.py')).read())

def main():
    with open(os.path.join(V,'properties.jsonl'),'w') as f:
        for p in sorted(PROPS,key=lambda p:p['id']):
            d=dict(id=p['id'],title=p['title'],statement=p['statement'],
              quantifier=dict(over=p['over'],text=p['quant']),why_tests_cant=p['why'],
              anchors=dict(files=p['files'],
                state=[dict(name=a,meaning=b,where=c) for a,b,c in p['state']],
                mechanism=[dict(name=a,where=b) for a,b in p['mech']],
                observe_at=list(p['observe']),hook_needed=None))
            f.write(json.dumps(d)+'\n')
    checks=[];na=[]
    for p in sorted(PROPS,key=lambda p:p['id']):
        if p['level'] and os.path.exists(os.path.join(V,'harness',p['id']+'.cpp')):
            checks.append(dict(property=p['id'],
              quick_cmd='python3 run_check.py %s'%p['id'],
              thorough_cmd='VERIF_TIER=thorough python3 run_check.py %s'%p['id'],
              evidence_file='evidence/%s.json'%p['id'],
              technique=p['technique'],level=p['level'],level_note=p['note']))
        else:
            na.append(dict(property=p['id'],reason=p['na'] or 'model checking applies (see DESIGN.md) but no sound check was finished in the time available'))
    m=dict(version=1,setup_cmd='python3 run_check.py --setup',checks=checks,not_applicable=na,
       notes='No hooks in /repo are needed: every check drives public APIs of the library, compiled from /repo\'s working tree by run_check.py. Known findings: known_findings.json.')
    with open(os.path.join(V,'MANIFEST.json'),'w') as f: f.write(json.dumps(m,indent=1)+'\n')
    print(len(PROPS),'properties',len(checks),'checks')
if __name__=='__main__': main()
