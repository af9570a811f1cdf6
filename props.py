#!/usr/bin/env python3
"""The properties, and what is claimed about each.  Writes properties.jsonl and MANIFEST.json."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
B = 'bitforge/'
P = []
NOTE = ('Static: every obligation compares the abstract result of a specification function with that of the analysed code in every partition of '
        'the abstract inputs; nothing of the code under analysis is executed and no solver is used. ')
TRUST = 'Trusted: the abstract semantics of Python and of the library calls in absint/, and the specification functions in spec/.'


def prop(id, title, statement, text, tests, files, mech, note, over=('inputs',), technique=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, text=text, tests=tests, files=files, mech=mech, note=note, over=list(over), technique=technique))


NA = {}
exec(open(os.path.join(HERE, 'props_text.py')).read())


def claimed():
    out = set()
    for f in sorted(os.listdir(os.path.join(HERE, 'checks'))):
        if f.endswith('.py') and f != '__init__.py':
            out |= set(importlib.import_module('checks.' + f[:-3]).OBL)
    return out


def main():
    have = claimed()
    ids = [p['id'] for p in P]
    assert len(set(ids)) == len(ids)
    assert have <= set(ids), have - set(ids)
    P.sort(key=lambda p: p['id'])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
        for p in P:
            fh.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['tests'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]},
            }) + '\n')
    man = {
        'version': 1, 'setup_cmd': 'true',
        'checks': [{
            'property': p['id'],
            'quick_cmd': 'python3 check.py %s quick' % p['id'],
            'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': p['technique'] or 'static analysis: trace-partitioned abstract interpretation of the source, compared with a specification',
            'level': 'proof',
            'level_note': NOTE + p['note'] + ' ' + TRUST,
        } for p in P if p['id'] in have],
        'not_applicable': [{'property': p['id'], 'reason': NA.get(p['id'], 'no check yet')} for p in P if p['id'] not in have],
        'notes': 'Pure static analysis with python3 only; see DESIGN.md.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump(man, fh, indent=1)
        fh.write('\n')
    print(len(P), 'properties,', len(man['checks']), 'claimed')


if __name__ == '__main__':
    main()
