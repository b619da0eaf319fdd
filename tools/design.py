#!/usr/bin/env python3
"""Writes the per-property and the planted-bug sections of DESIGN.md (between the markers) from props.py, KNOWN_FINDINGS.jsonl and
tools/caught.json."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
import gen
kf = [json.loads(l) for l in open(os.path.join(ROOT, 'KNOWN_FINDINGS.jsonl'))]
caught = json.load(open(os.path.join(ROOT, 'tools/caught.json'))) if os.path.exists(os.path.join(ROOT, 'tools/caught.json')) else {}
out = []
na = dict(gen.NA)
for p in gen.PROPS:
    out.append('### %s — %s\n' % (p['id'], p['title']))
    out.append('*Holds for:* %s.\n' % p['text'])
    if p['id'] in na:
        out.append('*Not applicable:* %s\n' % na[p['id']])
        continue
    src = open(os.path.join(ROOT, 'harness', p['id'] + '.cc')).read()
    hs = re.findall(r'HARNESS\((\w+)\)', src)
    out.append('*Specified in* `harness/%s.cc`; %d contracts: %s.\n' % (p['id'], len(hs), ', '.join('`%s`' % h for h in hs)))
    out.append('*Code:* %s.\n' % '; '.join('%s — %s' % (n, w) for n, w in p['mech']))
    out.append('*Strength:* %s.\n' % p['note'])
    if p['bounds']:
        out.append('*Bounds:* %s.\n' % '; '.join(p['bounds']))
    if p['assumptions']:
        out.append('*Preconditions and assumptions:* %s.\n' % '; '.join(p['assumptions']))
    out.append('*Why tests cannot settle it:* %s\n' % p['why'])
    fx = [k for k in kf if k['property'] == p['id'] and k['status'] == 'fixed']
    if fx:
        out.append('*Defects found and repaired:* ' + '; '.join('%s (%s)' % (re.sub(r'^fixed: property=\w+ \w+ ', '', k['what']), k['commit']) for k in fx) + '.\n')
    kn = [k for k in kf if k['property'] == p['id'] and k['status'] == 'known']
    for k in kn:
        out.append('*Known finding (not repaired):* %s\n' % k['what'])
tab = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
for b in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    m = json.load(open(os.path.join(ROOT, 'seeded', b, 'meta.json')))
    tab.append('| %s | %s | %s | %s |' % (b, m['property'], m['needs'].replace('|', '/'), caught.get(b, '(not yet run)').replace('|', '/')))
d = open(os.path.join(ROOT, 'DESIGN.md')).read()
def put(d, name, text):
    a, b = '<!-- %s -->\n' % name, '<!-- /%s -->\n' % name
    i, j = d.index(a) + len(a), d.index(b)
    return d[:i] + text + d[j:]
d = put(d, 'properties', '\n'.join(out))
d = put(d, 'planted', '\n'.join(tab) + '\n')
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(d)
