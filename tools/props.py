#!/usr/bin/env python3
"""single source of properties.jsonl and MANIFEST.json: run from /verif to regenerate both"""
import json, os
L = 'libs/cmdr11/include/cmdr11/'
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over, qtext=' '.join(qtext.split()), why=' '.join(why.split()),
                  files=[L + f for f in files], mech=mech, state=state, observe=list(observe), technique=technique, note=note, na=na))


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'proplist.py')).read())

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': L + w} for n, w in p['mech']]}
        if p['state']:
            a['state'] = [{'name': n, 'meaning': me, 'where': L + w} for n, me, w in p['state']]
        if p['observe']:
            a['observe_at'] = p['observe']
        fh.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                             'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
man = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': []}
for p in P:
    built = os.path.exists(os.path.join(HERE, 'rules', p['id'].lower() + '.py'))
    if built:
        man['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
                              'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                              'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
    else:
        man['not_applicable'].append({'property': p['id'], 'reason': p['na'] or 'no check is registered for this property yet'})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
    json.dump(man, fh, indent=1)
    fh.write('\n')
print(len(man['checks']), 'checks;', [x['property'] for x in man['not_applicable']])
