#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and harness/<id>.json from the one list below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INPUTS, HIST, CONF, FAULT = 'inputs', 'histories', 'configurations', 'fault_sequences'
PROPS = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, level='proof', note='', bounds=(), assumptions=(), opts=None,
         weights=None, expect_undecided=(), state='', observe=''):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      level=level, note=note, bounds=list(bounds), assumptions=list(assumptions), opts=opts or {},
                      weights=weights or {}, expect_undecided=list(expect_undecided), state=state, observe=observe))


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech)
    NA.append((id, reason))


exec(open(os.path.join(ROOT, 'tools/props.py')).read())


def main():
    na_ids = {i for i, _ in NA}
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as o:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            anchors = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])
            if p['state']:
                anchors['state'] = p['state']
            if p['observe']:
                anchors['observe_at'] = p['observe']
            o.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                    quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                    anchors=anchors)) + '\n')
    checks = []
    for p in PROPS:
        if p['id'] in na_ids:
            continue
        checks.append(dict(
            property=p['id'], quick_cmd='./check.py %s' % p['id'], thorough_cmd='./check.py %s --tier thorough' % p['id'],
            technique='contract-based deductive verification of the real code (LLVM IR of /repo, path-wise forward '
                      'VC generation, z3); bounded native search only for obligations left undecided',
            level=p['level'], level_note=p['note']))
        cfg = dict(bounds=p['bounds'], assumptions=p['assumptions'], opts=p['opts'], weights=p['weights'],
                   expect_undecided=p['expect_undecided'], level=p['level'])
        with open(os.path.join(ROOT, 'harness', p['id'] + '.json'), 'w') as o:
            json.dump(cfg, o, indent=1)
            o.write('\n')
    man = dict(version=1, setup_cmd='true', checks=checks,
               not_applicable=[dict(property=i, reason=r) for i, r in NA],
               notes='No hooks in /repo: the verifier reads the LLVM IR of the unmodified sources. fix: commits are listed in '
                     'KNOWN_FINDINGS.jsonl.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as o:
        json.dump(man, o, indent=1)
        o.write('\n')
    import jsonschema
    jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
    sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(os.path.join(ROOT, 'properties.jsonl')):
        jsonschema.validate(json.loads(l), sch)
    print(len(PROPS), 'properties,', len(checks), 'checks')


main()
