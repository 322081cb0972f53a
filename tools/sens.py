"""sens.py CHECKS GLOB : for every patch matching GLOB, do the checks report it?  Development aid only."""
import sys, os, glob, subprocess, shutil, threading
from concurrent.futures import ThreadPoolExecutor
checks = sys.argv[1].split(',')
files = sorted(glob.glob(sys.argv[2]))
W = int(os.environ.get('W', '6')); slots = []; lock = threading.Lock()
tag = str(os.getpid())
for k in range(W):
    d = '/tmp/sens_%s_%d' % (tag, k); os.makedirs(d, exist_ok=True)
    subprocess.run('cd /repo && git archive HEAD | tar x -C %s && git -C %s init -q' % (d, d), shell=True, check=True)
    slots.append(d)

def run(f):
    with lock: s = slots.pop()
    try:
        if subprocess.run(['git', '-C', s, 'apply', f], capture_output=True).returncode: return f, 'NOAPPLY', ''
        res = []; txt = ''
        for c in checks:
            r = subprocess.run(['./check', c, 'quick'], cwd='/verif', capture_output=True, text=True,
                               env=dict(os.environ, QSA_REPO=s, QSA_EVIDENCE=s + '/ev'))
            res.append(r.returncode)
            txt += r.stdout
        subprocess.run(['git', '-C', s, 'apply', '-R', f])
        v = 'CAUGHT' if 1 in res else 'ERR' if any(x not in (0, 1) for x in res) else 'MISSED'
        if v != 'CAUGHT' and 'UNDECIDED' in txt: v += '(undecided)'
        return f, v, res
    finally:
        with lock: slots.append(s)

with ThreadPoolExecutor(W) as ex:
    out = list(ex.map(run, files))
from collections import Counter
print(Counter(o[1] for o in out))
for f, v, r in out:
    if v != 'CAUGHT':
        l = [x for x in open(f).read().split('\n') if x[:1] in '+-' and x[:3] not in ('+++', '---')]
        print(v, os.path.basename(f), ' || '.join(x.strip() for x in l)[:230])
for k in range(W): shutil.rmtree('/tmp/sens_%s_%d' % (tag, k), ignore_errors=True)
