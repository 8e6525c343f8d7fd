"""writes properties.jsonl and MANIFEST.json from one table"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d['anchors']['observe_at'] = observe
    P.append(d)


exec(open(os.path.join(HERE, 'tools', 'props.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for d in P:
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
man = {'version': 1, 'setup_cmd': 'python3-vt setup_check.py', 'checks': [], 'not_applicable': []}
import glob
for d in P:
    i = d['id']
    fs = glob.glob(os.path.join(HERE, 'contracts', i.lower() + '_*.py'))
    if fs and i not in NA:
        lv, note = LEVELS.get(i, ('proof', 'every obligation generated from the current source is discharged for all inputs within the stated preconditions'))
        man['checks'].append({'property': i, 'quick_cmd': 'python3-vt check.py %s' % i, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
                              'technique': TECH.get(i, 'contracts on the real Python 2 source, verification conditions by symbolic execution with inferred and checked loop invariants, z3'),
                              'level': lv, 'level_note': note})
    else:
        man['not_applicable'].append({'property': i, 'reason': NA.get(i, 'contract not built yet')})
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(man['checks']), 'checks')
