"""C21: energies and couplings in one eigenbasis.

Two parts: the matrix algebra of the rotation functions, read as words of matrices, and the provenance of Ea, Tba and Vbbp after sequences of calls."""
import ast
from ..frontend import AnchorMissing
from ..terms import Reader, TooMany, word
from ..heap import const, top, Cut
from .blocks import block_rules, Soft
from .history import Session, CONFIGS, NODE, label, part_ids

INDEXING = ('Lin', 'charge', 'sz', 'ssq')
S = ('p', 'si')
V = ('p', 'vecslst')


def fn_of(proj, mod, name):
    m = proj.modules.get(mod)
    if m is None or name not in m.functions:
        raise AnchorMissing('%s.%s' % (mod, name))
    return m.functions[name]


def rename(t, path, lists):
    """vecslst/valslst index path of a state list"""
    if t[0] == '[]' and t[1] in lists:
        return t[2]
    return None


def block_path(r):
    """the state list whose range is X[0] : X[-1]+1, as (list, index path)"""
    if r[0] != 'sl' or len(r) != 3 or r[1] is None or r[2] is None:
        return None
    lo, hi = r[1], r[2]
    if lo[0] != '[]' or lo[2][-1] != ('c', 0):
        return None
    if hi[0] != 'bin' or hi[1] != 'Add' or ('c', 1) not in hi[2:]:
        return None
    x = hi[2] if hi[3] == ('c', 1) else hi[3]
    if x[0] != '[]' or x[1] != lo[1] or x[2][-1] != ('c', -1) or x[2][:-1] != lo[2][:-1]:
        return None
    return lo[1], lo[2][:-1]


def eigvecs(rng, indexing):
    """the eigenvector block that belongs to a range of states"""
    p = block_path(rng)
    if p is None:
        return None
    lst = p[0]
    if lst[0] != '.' or lst[1] != S:
        return None
    v = ('[]', V, p[1])
    if indexing == 'ssq':
        return ('hcat', v)
    return v


def shortened(r, base):
    """range(base) or range(base - k) with another k than wanted"""
    if r[0] != 'call' or r[1] != 'range' or len(r[2]) != 1:
        return False
    a = r[2][0]
    return a == base or a[0] == 'bin' and a[1] == 'Sub' and a[2] == base and a[3][0] == 'c'


def rule_rotation(rep, proj, mod, name, source, count, upto):
    fn = fn_of(proj, mod, name)
    for indexing in INDEXING:
        what = '%s %s' % (name, indexing)
        rd = Reader(proj, atoms=('szrange', 'sz_to_ind', 'ssq_to_ind', 'ssqrange', 'construct_full_pmtr'))
        args = [('p', source), V, S, ('c', indexing), ('p', 'mtype')]
        try:
            ends = rd.read(fn, args)
        except TooMany as ex:
            rep.unknown(what, str(ex))
            continue
        rep.name('%s:%s' % (f.module.relpath, f.qualname) for f in rd.visited)
        result = {v for q, v in ends}
        blocks, bad, unclear = {}, [], []
        for s in rd.stores:
            if s.base not in result:
                continue
            rep.count('stores', 1)
            if s.idx is None or s.op != '=':
                bad.append((s, 'adds to what is there'))
                continue
            idx = [k for k in s.idx]
            lead, rows, cols = (idx + [('sl', None, None)] * 3)[:3]
            w = word(s.value)
            full = rows == ('sl', None, None) and cols == ('sl', None, None)
            # the mirror block
            if len(w) == 1 and w[0][0][0] == '[]' and w[0][0][1] in result:
                t, cj, tr = w[0]
                if t[2] == (lead, cols, rows) and cj and tr:
                    blocks[(lead, rows, cols)] = s
                elif t[2] == (lead, cols, rows):
                    bad.append((s, 'the mirror block is not the conjugate transpose'))
                else:
                    unclear.append((s, 'mirror of another block'))
                continue
            middle = ('[]', ('p', source), (lead,) if full else (lead, rows, cols))
            if full:
                left = right = ('call', 'construct_full_pmtr', (V, S, ('p', 'mtype')), ())
                alt = {x[0] for x in w if x[0][0] == 'call' and x[0][1] == 'construct_full_pmtr' and x[0][2][:2] == (V, S)}
                if len(alt) == 1:
                    left = right = alt.pop()
            else:
                left, right = eigvecs(rows, indexing), eigvecs(cols, indexing)
            if left is None or right is None:
                unclear.append((s, 'the block is not the range of a state list'))
                continue
            want = [(left, True, True), (middle, False, False), (right, False, False)]
            mid = [x for x in w if x[0] != left and x[0] != right]
            if len(mid) == 1 and mid[0] == (middle[:2] + ((lead, rows, cols),), False, False):
                mid, w = [want[1]], [want[1] if x == mid[0] else x for x in w]
            if upto is not None and not full:
                # the couplings are Hermitian, so the reversed block stands for this one
                rev = (('[]', ('p', source), (lead, cols, rows)), True, True)
                w = [want[1] if x == rev else x for x in w]
            if w == want:
                blocks[(lead, rows, cols)] = s
            elif all(x[0][0] in ('[]', 'hcat', 'call') for x in w):
                bad.append((s, 'is not (eigenvectors)^dagger . %s . (eigenvectors)' % source))
            else:
                unclear.append((s, 'value not recognised'))
        for s, why in bad:
            rep.finding('%s/%s' % (what, why), '%s with %s indexing: a block of the result %s' % (name, indexing, why), [s.where], '')
        for s, why in unclear:
            rep.unknown(what, '%s: %s' % (s.where, why))
        if not blocks and not bad and not unclear:
            rep.unknown(what, 'no block of the result recognised')
        for (l, r, c), s in blocks.items():
            if upto is not None and r != c and (l, c, r) not in blocks:
                rep.finding('%s/mirror' % what, '%s with %s indexing: the block of the reversed transition is not filled' % (name, indexing), [s.where], '')
                bad.append(s)
        loops = [i for s in blocks.values() for i in s.trail if i[0] == 'loop']
        need = [('call', 'range', (('.', S, count),), ())]
        if indexing != 'Lin':
            nc = ('.', S, 'ncharge')
            need.append(('call', 'range', (nc if not upto else ('bin', 'Sub', nc, ('c', upto)),), ()))
        rngs = [i[2] for i in loops]
        for x in need:
            if blocks and x not in rngs:
                base = x[2][0] if x[2][0][0] == '.' else nc
                other = [r for r in rngs if shortened(r, base)]
                if other:
                    rep.finding('%s/loop' % what, '%s with %s indexing does not run over all leads, baths or charges' % (name, indexing), [s.where for s in blocks.values()][:1], '')
                    bad.append(other)
                else:
                    rep.unknown(what, 'loop over %s not recognised' % (x,))
        if blocks and not bad and not unclear:
            rep.ok(what, '%d blocks' % len(blocks))


def rule_full(rep, proj):
    """construct_full_pmtr and construct_Ea_manybody put eigenvectors and eigenvalues where their states are"""
    VALS = ('p', 'valslst')
    for name, mod, src in (('construct_full_pmtr', 'qmeq.leadstun', V), ('construct_Ea_manybody', 'qmeq.qdot', VALS)):
        fn = fn_of(proj, mod, name)
        for indexing in INDEXING:
            what = '%s %s' % (name, indexing)
            rd = Reader(proj, atoms=('szrange', 'sz_to_ind', 'ssq_to_ind', 'ssqrange'), consts={('.', S, 'indexing'): indexing})
            ends = rd.read(fn, [src, S, ('p', 'mtype')][:len(fn.args)])
            rep.name('%s:%s' % (f.module.relpath, f.qualname) for f in rd.visited)
            result = {v for q, v in ends}
            st = [s for s in rd.stores if s.base in result]
            good = 0
            for s in st:
                v = s.value
                if v[0] != '[]' or v[1] != src or s.idx is None:
                    rep.unknown(what, '%s: value not recognised' % s.where)
                    continue
                path, inner = v[2][:-len(s.idx)], v[2][-len(s.idx):]
                msg = ''
                for k, (i, j) in enumerate(zip(s.idx, inner)):
                    if i[0] != '[]' or i[1][0] != '.' or i[1][1] != S:
                        msg = '?'
                        break
                    ipath, last = i[2][:-1], i[2][-1]
                    if last != j:
                        msg = 'puts component %d where another one belongs' % k
                    elif ipath != path and not (k == 0 and len(s.idx) == 2 and indexing == 'ssq' and ipath == path[:-1]):
                        msg = 'uses the states of another block'
                if msg == '?':
                    rep.unknown(what, '%s: index not recognised' % s.where)
                elif msg:
                    rep.finding('%s/%s' % (what, msg), '%s with %s indexing %s' % (name, indexing, msg), [s.where], '')
                else:
                    good += 1
            if good and good == len(st):
                rep.ok(what, '%d stores' % good)
            elif not st:
                rep.unknown(what, 'no store to the result recognised')


# ------------------------------------------------------------------------------------------------ provenance
TRACKED = ('QuantumDot', 'LeadsTunneling', 'PhononBaths')
NEEDS = {('qd', 'Ea'): [('qd', 'valslst')], ('qd', 'valslst'): [('qd', 'hamlst')], ('qd', 'vecslst'): [('qd', 'hamlst')],
         ('leads', 'Tba'): [('leads', 'Tba0'), ('qd', 'vecslst')], ('baths', 'Vbbp'): [('baths', 'Vbbp0'), ('qd', 'vecslst')]}


def changes(s, elph):
    u = s.user_dict
    yield 'no change', lambda: None
    for m in ('change', 'add'):
        yield '%s(hsingle)' % m, lambda m=m: s.call(m, (), {'hsingle': u('hsingle')})
        yield '%s(coulomb)' % m, lambda m=m: s.call(m, (), {'coulomb': u('coulomb')})
        yield '%s(tleads)' % m, lambda m=m: s.call(m, (), {'tleads': u('tleads')})
        if elph:
            yield '%s(velph)' % m, lambda m=m: s.call(m, (), {'velph': u('velph')})
    yield 'sort_eigenstates', lambda: s.call('sort_eigenstates', (), {'srt': top()})
    yield 'remove_states', lambda: s.call('remove_states', [top()])
    yield 'remove_fock_states', lambda: s.call('remove_fock_states', [top()])


def c21(rep, proj, tier):
    good = block_rules(rep, proj)
    soft = lambda name: Soft(rep) if good.get(name) else rep
    rep.guarded('rotate_Tba', rule_rotation, soft('rotate_Tba'), proj, 'qmeq.leadstun', 'rotate_Tba', 'Tba0', 'nleads', 1)
    rep.guarded('elph_rotate_Vbbp', rule_rotation, soft('elph_rotate_Vbbp'), proj, 'qmeq.baths', 'elph_rotate_Vbbp', 'Vbbp0', 'nbaths', 0)
    rep.guarded('construct_full_pmtr', rule_full, soft('construct_full_pmtr'), proj)
    jobs = []
    for cfg in CONFIGS:
        probe = ['no change', 'change(hsingle)', 'change(coulomb)', 'change(tleads)', 'add(hsingle)', 'add(coulomb)', 'add(tleads)', 'remove_states', 'remove_fock_states', 'sort_eigenstates']
        if cfg[1]:
            probe += ['change(velph)', 'add(velph)']
        for title in probe:
            for indexing in (('charge', 'sz', 'ssq', 'Lin') if cfg[0].endswith('Redfield') and title in ('no change', 'change(hsingle)', 'change(tleads)', 'change(velph)') else (None,)):
                jobs.append((cfg, title, ('indexing', indexing) if indexing else None))
        for opt in VARIANTS:
            if opt[0] != 'itype_ph' or cfg[1]:
                jobs.append((cfg, 'change(hsingle)', opt))
    rep.parallel(c21_case, jobs, proj)
    rep.count('functions interpreted', len(rep.distinct))


VARIANTS = (('itype', 2), ('itype_ph', 2), ('symq', False), ('mfreeq', 1))


def c21_case(rep, job, proj):
    cfg, title, opt = job
    what = '%s%s %s' % (label(cfg), ' %s=%s' % opt if opt else '', title)
    rep.guarded(what, c21_run, rep, proj, cfg, title, opt, what)


def c21_run(rep, proj, cfg, title, opt, what):
    s = Session(proj, cfg, {opt[0]: const(opt[1])} if opt else None, tracked=TRACKED)
    s.solve()
    s.enter()
    dict(changes(s, cfg[1]))[title]()
    s.solve()
    s.finish(rep)
    parts = part_ids(s)
    ids = {r: q for r in parts for q in parts[r]}
    vers = s.I.versions
    n = 0
    for (r, f), needs in sorted(NEEDS.items()):
        if r not in ids or r == 'baths' and not cfg[1]:
            continue
        q = ids[r]
        if f not in s.st.heap[q].fields:
            raise AnchorMissing('%s.%s' % (r, f))
        if vers.get((q, f), 0) == 0 and s.st.heap[q].fields[f][1] == 0:
            rep.finding('%s/%s.%s' % (what, r, f), '%s: %s.%s is not computed in a solve' % (what, r, f), [], '')
            n += 1
            continue
        # what the solve computed itself
        have = {t for t in s.I.direct.get((q, f), ()) if t[0] == 'f'}
        for p, g in needs:
            k = (ids[p], g)
            t = ('f',) + k + (vers.get(k, 0),)
            if t not in have:
                old = [x for x in have if x[1:3] == k]
                rep.finding('%s/%s.%s/%s' % (what, r, f, g), '%s: after the solve %s.%s %s' % (what, r, f, 'belongs to an earlier %s.%s' % (p, g) if old else 'does not come from %s.%s' % (p, g)), [], '')
                n += 1
    if not n:
        rep.ok(what, 'Ea, Tba%s come from one diagonalisation' % (' and Vbbp' if cfg[1] else ''))
