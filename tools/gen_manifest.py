#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a harness in props/, the others under not_applicable."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REASONS = {}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if os.path.exists(os.path.join(HERE, 'props', i + '.py')):
            checks.append(dict(
                property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
                technique='symbolic execution of the real Python functions (AST-instrumented from /repo at every run) with '
                          'z3 bit-vectors; every counterexample replayed on the unmodified code',
                level='model_checking',
                level_note='all values within the stated bounds on every feasible path; layouts, lengths and widths are a '
                           'finite list (evidence: bounds, per_obligation)'))
        else:
            na.append(dict(property=i, reason=REASONS.get(i, 'no check has been built for it yet')))
    m = dict(version=1, setup_cmd='python3 check.py --selftest', checks=checks, not_applicable=na)
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
