#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run it after editing."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, level='exploration', na=None, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique,
                  note=note, level=level, na=na, state=state, observe=observe))


exec(open(os.path.join(V, 'tools', 'props_data.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        if not p['na'] and not os.path.exists(os.path.join(V, 'checks', p['id'].lower() + '.py')): continue
        assert len(p['title']) <= 80, p['id']
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['state']: a['state'] = p['state']
        if p['observe']: a['observe_at'] = p['observe']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')

checks, na = [], []
for p in P:
    if p['na']: na.append({'property': p['id'], 'reason': p['na']}); continue
    if not os.path.exists(os.path.join(V, 'checks', p['id'].lower() + '.py')): continue
    checks.append({'property': p['id'], 'quick_cmd': 'python3 /verif/check.py %s --tier quick' % p['id'],
                   'thorough_cmd': 'python3 /verif/check.py %s --tier thorough' % p['id'], 'technique': p['technique'],
                   'level': p['level'], 'level_note': p['note'], 'evidence_file': 'evidence/%s.json' % p['id']})
m = {'version': 1, 'setup_cmd': 'python3 /verif/tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'Every check builds goeland (or an overlay test binary) from /repo/src into a scratch directory; see DESIGN.md. '
              'No hooks were added to /repo: the monitors observe the process boundary and exported APIs. '
              'known_findings.txt lists the defects repaired by fix: commits and the recorded findings.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
