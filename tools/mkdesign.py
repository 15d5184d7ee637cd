#!/usr/bin/env python3
"""Composes DESIGN.md from tools/design_head.md, properties.jsonl, tools/design_notes.json, the scope list and seeded/."""
import json,os,sys,subprocess
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
scopes={}
for l in open(sys.argv[1]):
    i,n,t,d=l.rstrip('\n').split('\t')
    scopes.setdefault(i,[]).append((n,t=='true',d))
notes=json.load(open(root+'/tools/design_notes.json')) if os.path.exists(root+'/tools/design_notes.json') else {}
o=[open(root+'/tools/design_head.md').read()]
for p in props:
    i=p['id']
    o.append(f"### {i} {p['title']}\n")
    o.append(f"Enumerated: {p['quantifier']['text']}. Why tests cannot settle it: {p['why_tests_cant']}\n")
    if i in notes: o.append(notes[i]+"\n")
    if i in scopes:
        o.append("\n".join(f"* `{n}`{' (thorough)' if t else ''}: {d}" for n,t,d in scopes[i])+"\n")
    else: o.append("* no check yet\n")
sd=root+'/seeded'
rows=[]
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    f=f'{sd}/{d}/meta.json'
    if os.path.exists(f):
        m=json.load(open(f)); rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m.get('caught','')} |")
if rows:
    o.append("## Planted bugs and which check catches them\n\n| id | property | what it breaks | caught by |\n|---|---|---|---|\n"+"\n".join(rows)+"\n")
t=root+'/tools/design_tail.md'
if os.path.exists(t): o.append(open(t).read())
open(root+'/DESIGN.md','w').write("\n".join(o))
