#!/usr/bin/env python3
"""gen.py - writes properties.jsonl and MANIFEST.json from the table below (the only place where they are edited)."""
import json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []
TECH = 'exhaustive symbolic execution of the compiled LLVM IR (path conditions decided by Z3), native replay of every path'
NOTE = ('Within the bounds listed in the evidence (per case) every path of the real, compiled code is executed symbolically and the assertion is put to Z3 for all values of that path; nothing is claimed outside them. '
        'Trusts the IR interpreter, its stand-ins for CPython calls on symbolic objects (both cross-checked natively on one input per path), rustc and CPython.')


def prop(id, title, statement, over, text, why, files, mech, note=''):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                  anchors=dict(files=files.split(), mechanism=[dict(name=n, where=w) for n, w in mech])))
    assert len(title) <= 80, id
    P[-1]['_note'] = (NOTE + ' ' + note).strip()


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech)
    NA.append(dict(property=id, reason=reason))


exec(open(os.path.join(VERIF, 'tools', 'props_table.py')).read())

have = {f[:-3] for f in os.listdir(os.path.join(VERIF, 'props')) if f.startswith('C') and f.endswith('.py')}
nas = {n['property'] for n in NA}
with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for p in sorted(P, key=lambda p: p['id']):
        assert p['id'] in have or p['id'] in nas, p['id']
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
checks = [dict(property=p['id'], quick_cmd='./check ' + p['id'], thorough_cmd='./check %s thorough' % p['id'], evidence_file='evidence/%s.json' % p['id'], technique=TECH, level='model_checking', level_note=p['_note'])
          for p in sorted(P, key=lambda p: p['id']) if p['id'] not in nas]
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=sorted(NA, key=lambda n: n['property']),
               notes='No hooks in /repo: the engine reads the LLVM IR of the unmodified crate. known-findings.txt lists recorded and repaired findings.'),
          open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(NA), 'not applicable')
