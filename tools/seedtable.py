"""writes the table of planted bugs into DESIGN.md (between the markers)"""
import json, glob, os, re
rows = ['| bug | property = check that catches it | what it breaks | needs |', '|---|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['what_it_breaks'], m['needs']))
t = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
s = open('/verif/DESIGN.md').read()
s = s.replace('SEEDTABLE', t) if 'SEEDTABLE' in s else re.sub(r'<!-- seeds -->.*?<!-- /seeds -->', lambda _: t, s, flags=re.S)
open('/verif/DESIGN.md', 'w').write(s)
