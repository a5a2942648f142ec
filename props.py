#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
AI = ('abstract interpretation of the type-checked AST (own clang LibTooling extractor + gated value numbering over symbolic reals); ')
RI = 'equality of value graphs decided by graph identity, then random interpretation'
P = []


def prop(id, title, statement, over, q, why, files, mech, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, technique=technique, note=note, state=state))


exec(open(os.path.join(HERE, 'props_table.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['state']:
            a['state'] = [{'name': n, 'meaning': m} for n, m in p['state']]
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['q']},
                            'why_tests_cant': p['why'], 'anchors': a}) + '\n')
M = {'version': 1, 'setup_cmd': 'python3 an/facts.py',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                 'technique': p['technique'], 'level': 'other', 'level_note': p['note']} for p in P if p['technique']],
     'not_applicable': [{'property': p['id'], 'reason': p['note']} for p in P if not p['technique']],
     'notes': 'Every check dumps the type-checked AST of the current tree with tool/altafacts.cpp (cached by the hash of all sources under build/) and evaluates it abstractly; alta itself is never executed.'}
json.dump(M, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties')
