#!/usr/bin/env python3
# the table of section 8 of DESIGN.md, from seeded/*/meta.json (development only; no check reads seeded)
import json, glob, os
by = {}
for d in sorted(glob.glob(os.path.join(os.path.dirname(__file__), '..', 'seeded', '*'))):
    m = json.load(open(d + '/meta.json')); by.setdefault(m['property'], []).append((os.path.basename(d), m['needs']))
for p in sorted(by):
    print('- **%s**: ' % p + '; '.join('`%s` (%s)' % x for x in by[p]) + '.')
