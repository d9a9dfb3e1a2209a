#!/usr/bin/env python3
"""writes MANIFEST.json: every property with a check in checks/ is claimed"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = 'Trusted: clang -O0/mem2reg lowering, the vf/ symbolic executor and its intrinsic models, z3/cvc5. Undecided obligations are listed in the evidence and printed as INCONCLUSIVE; they never count as held.'
T = {}


def t(id, technique, note, level='other'):
    T[id] = (technique, note, level)


exec(open(os.path.join(HERE, 'tools', 'techniques.py')).read())
NA = {}
exec(open(os.path.join(HERE, 'tools', 'notclaimed.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'notclaimed.py')) else None
checks, na = [], []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    i = json.loads(l)['id']
    if i in T and i not in NA and os.path.exists(os.path.join(HERE, 'checks', i + '.py')):
        te, no, lv = T[i]
        checks.append(dict(property=i, quick_cmd='./run.sh %s quick' % i, thorough_cmd='./run.sh %s thorough' % i,
                           technique=te, level=lv, level_note=no + ' ' + TRUST))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no solver-based check built yet for this property')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='No hooks in /repo: harnesses in /verif/harness are compiled together with the current sources. See DESIGN.md.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
