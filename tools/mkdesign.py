#!/usr/bin/env python3
"""rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json"""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {'c11-null-find': 'at first missed: models of std::string::find and rfind on unknown strings were added',
          'c12-blank': 'at first missed: models of the blank-skipping members were added',
          'c16-schar': 'at first missed: call-graph routes per type were added to the witnesses',
          'c21-digit': 'at first missed: words not in use now count as uninitialised'}
MARK = '<!-- table of planted bugs -->'
t = open(os.path.join(HERE, 'DESIGN.md')).read()
head = t[:t.index(MARK) + len(MARK)]
rows = ['', '', '| planted bug | caught by | needs | breaks |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*'))):
    m = json.load(open(os.path.join(d, 'meta.json')))
    i = os.path.basename(d)
    rows.append('| %s | %s | %s | %s%s |' % (i, m['property'], m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/'),
                                             ' (' + MISSED[i] + ')' if i in MISSED else ''))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(head + '\n'.join(rows) + '\n')
