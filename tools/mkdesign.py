#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json."""
import glob, json, os, re
rows = []
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append((m['property'], os.path.basename(os.path.dirname(f)), m['what_it_breaks'], m['needs']))
t = ['| caught by | change | what it breaks | needs |', '|---|---|---|---|']
t += ['| %s | `%s` | %s | %s |' % tuple(str(x).replace('|', '\\|').replace('\n', ' ') for x in r) for r in sorted(rows)]
s = open('/verif/DESIGN.md').read()
s = re.sub(r'(<!-- seeds -->\n).*?(<!-- /seeds -->)', lambda m: m.group(1) + '\n'.join(t) + '\n' + m.group(2), s, flags=re.S)
open('/verif/DESIGN.md', 'w').write(s)
