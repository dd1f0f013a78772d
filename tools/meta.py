#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json; run after editing."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from props_meta import PROPS, NOT_APPLICABLE, NOTES   # noqa: E402

TECH = 'symbolic execution of the repository source with z3, counterexamples replayed on the real code'
NOTE = ('Every path of the real functions inside the stated bounds is explored and each assertion discharged by '
        'z3 over integers and reals; one model per path is replayed against the unmodified code. Arithmetic is '
        'exact rather than float64 and sizes are bounded.')


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
            assert len(q['title']) <= 80, q['title']
            f.write(json.dumps(q) + '\n')
    checks = []
    na = []
    for p in PROPS:
        if p['id'] in NOT_APPLICABLE:
            na.append({'property': p['id'], 'reason': NOT_APPLICABLE[p['id']]})
            continue
        checks.append({
            'property': p['id'],
            'quick_cmd': './check %s' % p['id'],
            'thorough_cmd': './check %s --tier thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': TECH,
            'level': 'model_checking',
            'level_note': p.get('note', NOTE),
        })
    m = {'version': 1, 'setup_cmd': './check --selftest', 'checks': checks, 'not_applicable': na, 'notes': NOTES}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
