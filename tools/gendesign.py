#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md and what it is about."""
import json,re,glob,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t=open(here+'/tools/design.md').read()
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
notes=json.load(open(here+'/tools/design_notes.json'))
H={}
for f in sorted(glob.glob(here+'/harness/*.go')):
    s=open(f).read()
    for m in re.finditer(r'((?:^//[^\n]*\n)+)func (H_(C\d+)_\w+)\(',s,re.M):
        doc=[l[2:].strip() for l in m.group(1).splitlines()]
        b=[l[6:].strip() for l in doc if l.startswith('bound:')]
        what=' '.join(l for l in doc if l and not re.match(r'(bound|covers|tier|repeat|seconds):',l))
        what=re.sub(r'^H_\w+ ','',what)
        th=any(l.startswith('tier: thorough') for l in doc)
        H.setdefault(m.group(3),[]).append((m.group(2),what,b[0] if b else '',th))
out=[]
for p in props:
    i=p['id'];n=notes[i]
    out.append(f"### {i} {p['title']}\n\n{p['statement']}\n")
    out.append(f"*Decided by:* {n['how']}\n\n*Oracle:* {n['oracle']}\n\n*Beyond the tests:* {p['tests_cant'] if 'tests_cant' in p else p['why_tests_cant']}\n\n*Cost (quick, 8 cores):* {n['cost']}\n")
    out.append("| harness | what | bound |\n|---|---|---|")
    for h,w,b,th in H.get(i,[]):
        out.append(f"| {h[2:]}{' (thorough only)' if th else ''} | {w.replace('|','/')} | {b.replace('|','/')} |")
    out.append('')
t=t.replace('<!--PROPS-->','\n'.join(out))
fx=json.load(open(here+'/known_findings.json'))
t=t.replace('<!--FIXES-->','\n'.join(f"* {x['property']} `{x['commit']}` {x['what'].split(' ',3)[3]}" for x in fx if x['kind']=='fixed'))
try: caught=json.load(open(here+'/tools/caught.json'))
except FileNotFoundError: caught={}
rows=["| bug | needs | found by |","|---|---|---|"]
for d in sorted(glob.glob(here+'/seeded/*/')):
    i=d.rstrip('/').split('/')[-1];m=json.load(open(d+'meta.json'))
    rows.append(f"| {i} | {m['needs'].replace('|','/')} | {caught.get(i,'?')} |")
t=t.replace('<!--SEEDED-->','\n'.join(rows))
t=t.replace('<!--MISSES-->',notes.get('misses',''))
open(here+'/DESIGN.md','w').write(t)
