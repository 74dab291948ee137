#!/usr/bin/env python3
"""planted.py LOG: rewrite the table of planted changes at the end of DESIGN.md
from seeded/*/meta.json and the output of a run of every change's own check."""
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = {}
for l in open(sys.argv[1]):
    m = re.match(r'(\S+) (C\d\d) rc=(\d+) ?(.*)', l)
    if m:
        case = re.search(r'case(\d+)', m[4])
        log[m[1]] = 'case ' + case[1] if case else 'missed'
rows = []
for d in sorted(os.listdir(here + '/seeded')):
    meta = json.load(open('%s/seeded/%s/meta.json' % (here, d)))
    rows.append('| %s | %s | %s | %s |' % (d, meta['property'], meta['needs'].replace('|', '\\|'), log.get(d, '?')))
text = open(here + '/DESIGN.md').read()
head = text[:text.index('## Planted changes')]
open(here + '/DESIGN.md', 'w').write(head + '''## Planted changes

%d changes to hastur that compile and pass its tests (`seeded/`), written from
the properties and the code; the last column is the first failing case of the
quick check of the change's own property with seed 1.

| change | property | needs | caught by |
|--------|----------|-------|-----------|
%s
''' % (len(rows), '\n'.join(rows)))
