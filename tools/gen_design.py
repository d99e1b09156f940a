#!/usr/bin/env python3
"""Writes DESIGN.md from the general parts, the properties, the evidence of the last runs and the planted bugs."""
import glob
import json
import os
import textwrap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(HERE, 'tools')
THOROUGH = json.load(open(os.path.join(T, 'thorough_seconds.json')))


def wrap(s):
    return '\n'.join(textwrap.wrap(s, 118, break_long_words=False, break_on_hyphens=False))


def main():
    ns = {}
    exec(open(os.path.join(T, 'design_props.py')).read(), ns)
    out = [open(os.path.join(T, 'design_head.md')).read().rstrip(), '', '## 3. Property by property', '']
    for l in open(os.path.join(HERE, 'properties.jsonl')):
        p = json.loads(l)
        e = json.load(open(os.path.join(HERE, 'evidence', p['id'] + '.json')))
        c = e['coverage']
        out += ['### %s — %s' % (p['id'], p['title']), '', wrap(ns['HOW'][p['id']]), '',
                wrap('Bounds: ' + c['bounds'] + '.'), '',
                wrap('Cost: quick %d obligations, %d paths, %d assertions, about %d s (8 cores); thorough about %d s.  Encoded: '
                     '%d functions of /repo (evidence lists them).  Anchors: %s.'
                     % (c['obligations'], c['states'], c['assertions_decided'], round(e['wall_s']) or 1, THOROUGH.get(p['id'], 0),
                        len(c['functions_encoded']), ', '.join('`%s`' % f.replace('src/infi/instruct/', '') for f in p['anchors']['files']))), '']
    rows = ['| change | property | needs | caught by |', '|---|---|---|---|']
    n = 0
    for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        m = json.load(open(f))
        n += 1
        rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'].replace('|', '/'), m['property']))
    tail = open(os.path.join(T, 'design_tail.md')).read()
    tail = tail.replace('%(nseeds)d', str(n)).replace('%(seeds)s', '\n'.join(rows))
    tail = tail.replace('%(mutation)s', open(os.path.join(T, 'design_mutation.md')).read().strip())
    out.append(tail)
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out))


main()
