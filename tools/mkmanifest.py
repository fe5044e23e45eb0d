#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl, cpv/props.py and the reasons below"""
import json, sys
sys.path.insert(0, '/verif')
from cpv import props
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
NA = props.NOT_APPLICABLE
man = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3, cvc5, Cython"', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        man['checks'].append({'property': i, 'quick_cmd': './check.sh %s quick' % i, 'thorough_cmd': './check.sh %s thorough' % i,
                              'technique': 'contract-based deductive verification (contracts on the extracted source of /repo, symbolic verification conditions discharged by a normaliser, z3 and cvc5)',
                              'level': p.get('level', 'proof'), 'level_note': p['note'] + ' ' + props.NOTE})
    else:
        man['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no contract within reach yet')})
json.dump(man, open('/verif/MANIFEST.json', 'w'), indent=1)
