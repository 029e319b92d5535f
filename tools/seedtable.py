#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md. The last column lists the checks that were seen to catch the bug."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(f'{here}/tools/caught.json'))
rows = ['| planted bug | property | needs | what it breaks | caught by |', '|---|---|---|---|---|']
for f in sorted(glob.glob(f'{here}/seeded/*/meta.json')):
    i = f.split('/')[-2]
    m = json.load(open(f))
    rows.append('| ' + ' | '.join([i, m['property'], m['needs'], m['what_it_breaks'], ', '.join(caught.get(i, [])) or 'not caught']) + ' |')
d = open(f'{here}/DESIGN.md').read()
t = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
d = d.replace('@@SEEDS@@', t) if '@@SEEDS@@' in d else re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: t, d, flags=re.S)
open(f'{here}/DESIGN.md', 'w').write(d)
