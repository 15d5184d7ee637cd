#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the properties that have a check in mc/props."""
import json,os,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
have=set()
for f in os.listdir(root+'/mc/props'):
    have|=set(re.findall(r'register\(&Prop\{ID: "(C\d+)"',open(root+'/mc/props/'+f).read()))
EXTRA={
 'C15':('exhaustive enumeration of all goroutine schedules up to a preemption bound on the real code under a controlled scheduler (stateless model checking), plus a race-detector pass',
        'All interleavings at the granularity of statements, locks and pool operations within the preemption bound and request set; memory is assumed sequentially consistent, the race-detector pass over free-running schedules covers unsynchronised accesses.'),
}
DEF=('bounded exhaustive state-space exploration of the real code (stateless model checking), every execution compared with a reference model',
     'Every execution of the real code within the stated alphabets and bounds is enumerated and compared step by step with an independent reference model; nothing is sampled. Assumes the bounds (small scope) and trusts the Go standard library and third-party decoders.')
checks=[];na=[]
for p in props:
    i=p['id']
    if i in have:
        t,n=EXTRA.get(i,DEF)
        checks.append(dict(property=i,quick_cmd=f'./run.sh {i} quick',thorough_cmd=f'./run.sh {i} thorough',evidence_file=f'evidence/{i}.json',technique=t,level='model_checking',level_note=n))
    else:
        na.append(dict(property=i,reason='no check has been built yet'))
m=dict(version=1,setup_cmd='./run.sh --build-only',checks=checks,not_applicable=na,
 notes='No hooks are committed in /repo: scheduling points and wrappers for sync and time are inserted into a copy of the sources at build time (go build -overlay). See DESIGN.md.')
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'unclaimed')
