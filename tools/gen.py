#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, observe=observe, technique=technique, note=note, state=state))

exec(open(os.path.join(ROOT, 'tools', 'properties.py')).read())

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        anchors = dict(files=p['files'],
                       mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                       observe_at=p['observe'], hook_needed=None)
        if p['state']:
            anchors['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in p['state']]
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
            anchors=anchors)) + '\n')

checks = [dict(property=p['id'], quick_cmd='./check %s quick' % p['id'],
               thorough_cmd='./check %s thorough' % p['id'],
               evidence_file='evidence/%s.json' % p['id'],
               technique=p['technique'], level='model_checking', level_note=p['note']) for p in P]
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(version=1, setup_cmd='make -j8 -s all', checks=checks, not_applicable=NOT_APPLICABLE,
                   notes='Explicit-state exploration of the compiled code under ASan/UBSan; see DESIGN.md.'), f, indent=1)
    f.write('\n')
