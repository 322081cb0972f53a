"""seed.py SPEC.py : SPEC defines id, prop, edits=[(file, old, new[, nth])], demo (python text), needs, breaks, helpers=[files].
Applies the edits to /repo, then plant.sh does the rest."""
import sys, os, json, subprocess, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
d = '/verif/seeded/' + ns['id']
os.makedirs(d, exist_ok=True)
for e in ns['edits']:
    p = '/repo/' + e[0]; s = open(p).read()
    n = s.count(e[1]); nth = e[3] if len(e) > 3 else None
    if n == 0 or (n > 1 and nth is None): sys.exit('%s: %d occurrences of %r' % (e[0], n, e[1]))
    k = -1
    for _ in range((nth or 0) + 1): k = s.index(e[1], k + 1)
    open(p, 'w').write(s[:k] + e[2] + s[k + len(e[1]):])
open(d + '/demo.py', 'w').write(ns['demo'])
open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
os.chmod(d + '/demo.sh', 0o755)
for h in ns.get('helpers', []): shutil.copy(h, d)
json.dump({'property': ns['prop'], 'needs': ns['needs'], 'what_it_breaks': ns['breaks']}, open(d + '/meta.json', 'w'), indent=1)
sys.exit(subprocess.call(['bash', '/verif/tools/plant.sh', ns['id'], ns.get('checks', ns['prop'])]))
