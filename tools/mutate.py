"""mutate.py N SEED FILE...  random token mutants of FILEs; those that survive the stable tests are kept in /tmp/mut/*.diff.
Development aid only: no check uses it."""
import sys, os, re, json, random, subprocess, shutil, difflib
from concurrent.futures import ThreadPoolExecutor
import threading
REPO = '/repo'; OUT = '/tmp/mut'; PY = '/opt/venv/bin/python'
SUBS = [(r'(?<=[\w\)\]]) \+ (?=[\w\(])', ' - '), (r'(?<=[\w\)\]]) - (?=[\w\(])', ' + '), (r'\+=', '-='), (r'-=', '+='),
        (r'\.conjugate\(\)', ''), (r'\.imag\b', '.real'), (r'\.real\b', '.imag'), (r'\bTrue\b', 'False'), (r'\bFalse\b', 'True'),
        (r'\bbp\b', 'b'), (r'\bap\b', 'a'), (r'\bcp\b', 'c'), (r'\bb\b', 'bp'), (r'\ba\b', 'ap'), (r'\bc\b', 'cp'),
        (r'\bbppbp\b', 'bbp'), (r'\bbbp\b', 'bppbp'), (r'\bcba\b', 'bpa'), (r'\bba\b', 'ca'), (r'\bcb\b', 'cpb'),
        (r', 0\]', ', 1]'), (r', 1\]', ', 0]'), (r'bcharge\+1', 'bcharge-1'), (r'bcharge-1', 'bcharge+1'), (r'acharge', 'bcharge'),
        (r'ccharge', 'acharge'), (r' and ', ' or '), (r' not in ', ' in '), (r' > ', ' >= '), (r' < ', ' <= '), (r' == ', ' != '),
        (r' != ', ' == '), (r' is not ', ' is '), (r'\b1\b', '0'), (r'\b0\b', '1'), (r'\b2\b', '1'), (r'0\.5\*', ''), (r'\bE\[(\w+)\]-E\[(\w+)\]', r'E[\2]-E[\1]'),
        (r'(\w+)\[(\w+), (\w+), (\w+)\]', r'\1[\2, \4, \3]'), (r'(?<=\w)\*(?=\w)', '/'), (r'\bnpauli\b', 'ndm0'), (r'\bndm0r\b', 'ndm0'), (r'\bndm0\b', 'ndm0r'),
        (r'^(\s+)(self\.[\w\.]+\(.*\))$', r'\1pass'), (r'^(\s+)([\w\.\[\], ]+ (?:=|\+=|-=) .*)$', r'\1pass'), (r'\.copy\(\)', ''), (r'\bnsingle\b', 'nleads')]

def mutants(files, n, seed):
    rnd = random.Random(seed); cand = []
    for f in files:
        lines = open(os.path.join(REPO, f)).read().split('\n')
        doc = False
        for i, l in enumerate(lines):
            if l.count('"""') % 2: doc = not doc; continue
            s = l.strip()
            if doc or not s or s.startswith('#') or '"""' in l or s.startswith(('import', 'from', 'cdef', 'cimport', '@', 'ctypedef', 'def ', 'class ')): continue
            for k, (p, r) in enumerate(SUBS):
                for m in re.finditer(p, l):
                    new = l[:m.start()] + m.expand(r) + l[m.end():]
                    if new != l: cand.append((f, i, new))
    rnd.shuffle(cand)
    return cand[:n]

slots = []
lock = threading.Lock()

def run(job):
    idx, (f, i, new) = job
    with lock: slot = slots.pop()
    try:
        src = open(os.path.join(REPO, f)).read(); lines = src.split('\n'); old = lines[i]; lines[i] = new; dst = os.path.join(slot, f)
        mod = '\n'.join(lines); open(dst, 'w').write(mod)
        try:
            if f.endswith('.pyx'):
                r = subprocess.run([PY, 'setup.py', 'build_ext', '--inplace'], cwd=slot, capture_output=True, timeout=900)
                if r.returncode: return None
            rep = os.path.join(slot, 'r.xml')
            if os.path.exists(rep): os.remove(rep)
            try:
                subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-o', 'junit_family=xunit2', '--junitxml=' + rep, 'qmeq/tests'],
                               cwd=slot, capture_output=True, timeout=120, env=dict(os.environ, OMP_NUM_THREADS='1', PYTHONPATH=slot))
            except subprocess.TimeoutExpired:
                return None
            x = open(rep).read() if os.path.exists(rep) else '<failure'
            ok = '<failure' not in x and '<error' not in x and 'tests="' in x
        finally:
            open(dst, 'w').write(src)
        if ok:
            d = ''.join(difflib.unified_diff([x + '\n' for x in src.split('\n')[:-1]], [x + '\n' for x in mod.split('\n')[:-1]], 'a/' + f, 'b/' + f))
            name = os.path.join(OUT, '%s_%04d.diff' % (os.path.basename(f).replace('.', '_'), i + 1))
            k = 0
            while os.path.exists(name): k += 1; name = os.path.join(OUT, '%s_%04d_%d.diff' % (os.path.basename(f).replace('.', '_'), i + 1, k))
            open(name, 'w').write(d)
            print('SURVIVES', name, '|', old.strip()[:90], '->', new.strip()[:90], flush=True)
        return ok
    finally:
        with lock: slots.append(slot)

def main():
    n, seed, files = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3:]
    os.makedirs(OUT, exist_ok=True)
    W = int(os.environ.get('W', '6'))
    tag = os.environ.get('TAG', 'x')
    for k in range(W):
        d = '/tmp/mutw_%s_%d' % (tag, k)
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run(['cp', '-a', REPO, d], check=True)
        slots.append(d)
    jobs = list(enumerate(mutants(files, n, seed)))
    with ThreadPoolExecutor(W) as ex:
        res = list(ex.map(run, jobs))
    print('total', len(res), 'survive', sum(1 for r in res if r), 'nobuild', sum(1 for r in res if r is None))
    for k in range(W): shutil.rmtree('/tmp/mutw_%s_%d' % (tag, k), ignore_errors=True)
main()
