"""seedp.py SPEC.py... : plants each spec in its own scratch copy of /repo and confirms it there.

SPEC defines id, prop, edits=[(file, old, new[, nth])], demo (python text), needs, breaks, helpers=[files], checks.  Confirms: builds, the
stable tests pass, the demo fails with the change and passes without it, the changed lines belong to the original repository.
Development aid only: no check uses it."""
import sys, os, json, subprocess, shutil, re
from concurrent.futures import ThreadPoolExecutor
BASE = os.environ.get('BASE') or subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout
fixes = [l.split()[0] for l in BASE.splitlines() if l.split(' ', 1)[1].startswith('fix:')]
PY = '/opt/venv/bin/python'


def one(spec):
    ns = {}
    exec(open(spec).read(), ns)
    out = ['=== %s (%s)' % (ns['id'], ns['prop'])]
    d = '/verif/seeded/' + ns['id']
    w = '/tmp/sx/seed_' + ns['id']
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs('/tmp/sx', exist_ok=True)
    subprocess.run(['cp', '-a', '/repo', w])
    subprocess.run(['git', '-C', w, 'checkout', '-q', '--', '.'])
    try:
        for e in ns['edits']:
            p = os.path.join(w, e[0]); s = open(p).read()
            n = s.count(e[1]); nth = e[3] if len(e) > 3 else None
            if n == 0 or (n > 1 and nth is None):
                return '\n'.join(out + ['%s: %d occurrences of %r' % (e[0], n, e[1])])
            k = -1
            for _ in range((nth or 0) + 1): k = s.index(e[1], k + 1)
            open(p, 'w').write(s[:k] + e[2] + s[k + len(e[1]):])
        diff = subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True).stdout
        # the lines taken away are the repository's own
        f = None
        for l in diff.splitlines():
            if l.startswith('--- a/'): f = l[6:]
            m = re.match(r'@@ -(\d+)(?:,(\d+))?', l)
            if m: n = int(m.group(1)) - 1; continue
            if l.startswith((' ', '-')) and not l.startswith('---'):
                n += 1
                if l.startswith('-'):
                    b = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-l', '-L', '%d,%d' % (n, n), 'HEAD', '--', f], capture_output=True, text=True).stdout
                    if b.split()[0].lstrip('^') in [x[:40] for x in fixes] or any(x.startswith(b.split()[0].lstrip('^')) for x in fixes):
                        out.append('!! line of a fix commit: %s' % l[:90])
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.py', 'w').write(ns['demo'])
        open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        for h in ns.get('helpers', []): shutil.copy(h, d)
        json.dump({'property': ns['prop'], 'needs': ns['needs'], 'what_it_breaks': ns['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        env = dict(os.environ, PYTHONPATH=w, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
        if any(e[0].endswith(('.pyx', '.pxd')) for e in ns['edits']):
            os.rename(w + '/pyproject.toml', w + '/pyproject.away')
            r = subprocess.run([PY, 'setup.py', 'build', '--build-base', w + '/build', 'build_ext', '--inplace', '--cython', '-j4'], cwd=w, capture_output=True, text=True, env=dict(env, CC='gcc'))
            os.rename(w + '/pyproject.away', w + '/pyproject.toml')
            if r.returncode:
                return '\n'.join(out + ['BUILD FAILS', r.stderr[-600:]])
        rep = os.path.join(w, 'r.xml')
        subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--junitxml=' + rep, 'qmeq/tests'], cwd=w, capture_output=True, env=env, timeout=900)
        x = open(rep).read()
        m = re.search(r'errors="(\d+)" failures="(\d+)".*?tests="(\d+)"', x)
        out.append('tests: errors %s failures %s of %s' % m.groups())
        r = subprocess.run(['bash', d + '/demo.sh'], cwd=w, capture_output=True, text=True, env=env, timeout=400)
        out.append('demo with the change: exit %d  %s' % (r.returncode, ' / '.join((r.stdout + r.stderr).strip().splitlines()[-2:])[:300]))
        r = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True, timeout=400, env=dict(os.environ, PYTHONPATH='/repo'))
        out.append('demo on the clean tree: exit %d  %s' % (r.returncode, ' / '.join((r.stdout + r.stderr).strip().splitlines()[-1:])[:200]))
        for c in ns.get('checks', ns['prop']).split():
            r = subprocess.run(['/verif/check', c], capture_output=True, text=True, env=dict(os.environ, QSA_REPO=w, QSA_EVIDENCE='/tmp/ev_' + ns['id'], QSA_JOBS='2'))
            ls = [l for l in r.stdout.splitlines() if not l.startswith((' ', 'VIOL', 'property'))]
            out.append('check %s: exit %d  %s' % (c, r.returncode, (ls or [''])[0][:220]))
    except Exception as ex:
        out.append('ERROR %s: %s' % (type(ex).__name__, ex))
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return '\n'.join(out)


with ThreadPoolExecutor(int(os.environ.get('W', '4'))) as ex:
    for r in ex.map(one, sys.argv[1:]):
        print(r, flush=True)
