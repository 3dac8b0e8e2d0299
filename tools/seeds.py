#!/usr/bin/env python3
"""seeds.py RESULTS: writes the section on planted changes of DESIGN.md.

RESULTS has a line "ID PROP CAUGHT secs harness: message" per planted change."""
import json,re,sys,glob,os
V='/verif'
missed='''a01-auth-first a01-pointer-reuse e01-map-of-structs e02-pairs-key e03-float-fallback e04-null-unknown
e05-factory-cache e06-duration-float e07-close-drains e07-close-race g01-tags-of-error g01-verbatim-args
h01-second-status h02-do-error-500 o01-same-name-out r01-wrapped-eof w01-argument-reused w01-closed-stays w02-chunked
x02-gate-string x04-nested-timeout c02-nil-reloaded c03-ttl-before l01-flatten-share n01-conn-context x03-span-hex
s01-signal-lost y01-eager c01-invalidate-unordered h01-joined-status h01-call-partial e05-map-share
c02-panic-locked x01-number-text x04-past-timeout x03-long-suggestion g01-literal-format'''.split()
res={}
for l in open(sys.argv[1]):
    m=re.match(r'(\S+) (\S+) (CAUGHT|MISSED\S*(?: rc=\S+)?) \S+ *(.*)',l)
    if m: res[m[1]]=(m[3],m[4])
out=['## Planted changes and which checks catch them\n',
'Each is a folder of `seeded/`; all were confirmed to build, to pass the',
'repository\'s tests and to fail their own demonstration. "first missed" marks those the',
'checks did not catch when they were written; the harness named was added or',
'widened because of them.\n',
'| change | property | what it breaks | caught by |','|---|---|---|---|']
for d in sorted(os.listdir(V+'/seeded')):
    j=json.load(open(f'{V}/seeded/{d}/meta.json'))
    r,h=res.get(d,('not run in the last sweep',''))
    h=h.split(':')[0].split()[0] if h else ''
    w=j['what_it_breaks'].replace('|','\\|').replace('\n',' ')
    out.append(f"| {d} | {j['property']} | {w} | {h if r=='CAUGHT' else r}{' (first missed)' if d in missed else ''} |")
t=open(V+'/DESIGN.md').read()
head='## Planted changes and which checks catch them\n'
extra='## Hand mutants and neutral changes\n'
for x in (head,extra):
    if x in t:
        i=t.index(x); k=t.find('\n## ',i+3); t=t[:i].rstrip()+'\n'+(t[k:] if k>0 else '')
t=t.rstrip()+'\n\n'+'\n'.join(out)+'\n\n'+extra+open(V+'/tools/campaigns.md').read()
open(V+'/DESIGN.md','w').write(t)
