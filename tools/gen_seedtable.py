#!/usr/bin/env python3
# rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json
import json, glob, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
head = '## Planted changes and what catches them\n'
s = open('DESIGN.md').read()
s = s[:s.index(head)]
out = head + '''
Each of these was tried with `tools/seedtest.sh`: the demonstration passes on the clean tree and fails with the change, the stable tests pass with it, and
the quick check of the property named exits 1 with its VIOLATION line. Changes that the stable tests already expose were discarded
(most changes to the SIMD kernels' boundary and state handling are).

| change | caught by | needs |
|---|---|---|
'''
for f in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(f)); out += '| %s | %s | %s |\n' % (f.split('/')[1], m.get('caught_by', m['property']), m['needs'].replace('|', '\\|'))
open('DESIGN.md', 'w').write(s + out)
