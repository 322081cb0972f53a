"""C23: what the labels of the many-body states mean and which states a selection keeps, over the exact finite domain of the index classes."""
from math import comb

from ..access import Interp, Obj, Raised, Stop
from ..frontend import AnchorMissing
from .tables import Tables, Unknown, coherences

CLASSES = ('StateIndexing', 'StateIndexingPauli', 'StateIndexingDM', 'StateIndexingDMc')


def num(x):
    return Tables.num(x)


def bits(x):
    if isinstance(x, str):
        return tuple(int(c) for c in x)
    if not isinstance(x, (list, tuple)):
        raise Unknown('a state')
    return tuple(num(c) for c in x)


class Labels(object):
    def __init__(self, proj, cname, nsingle, indexing):
        self.proj, self.n = proj, nsingle
        self.ip = Interp(proj)
        self.ip.case, self.ip.values = '%s %s %d' % (cname, indexing, nsingle), True
        self.ci = proj.find_class('qmeq.indexing', cname)
        self.si = self.ip.construct(self.ci, [nsingle, indexing, None, 2], {})
        self.indexing = self.si.attrs['indexing']

    def call(self, name, args, **kw):
        fn = self.proj.lookup(self.ci, name)
        if fn is None:
            raise AnchorMissing('%s.%s' % (self.ci.name, name))
        return self.ip.call_fn(fn, [self.si] + list(args), kw)

    def fock(self):
        """label -> occupations"""
        return {l: bits(self.call('get_state', [l])) for l in range(num(self.si.attrs['nmany']))}

    def wrong(self, gone=()):
        """what is wrong with the labels, or None"""
        n, a = self.n, self.si.attrs
        want = [tuple((k >> (n - 1 - j)) & 1 for j in range(n)) for k in range(2**n)]
        want = [s for k, s in enumerate(want) if k not in gone]
        if num(a['nmany']) != len(want):
            return 'nmany is %s for %d states' % (a['nmany'], len(want))
        fock = self.fock()
        if sorted(fock.values()) != sorted(want):
            return 'the labels do not stand for each Fock state once'
        for l, s in fock.items():
            if num(self.call('get_ind', [list(s)])) != l:
                return 'get_ind does not invert get_state for %s' % ''.join(map(str, s))
            if bits(self.call('get_state', [l], strq=True)) != s:
                return 'get_state gives another state as a string for label %d' % l
        for k in range(2**n):
            s = bits(self.call('get_state', [k], linq=True))
            if s != tuple((k >> (n - 1 - j)) & 1 for j in range(n)) or num(self.call('get_ind', [list(s)], linq=True)) != k:
                return 'the Lin index %d stands for the state %s' % (k, ''.join(map(str, s)))
        ch = [[num(x) for x in q] for q in a['chargelst']]
        seen = sorted(x for q in ch for x in q)
        if seen != list(range(len(want))) or len(ch) != n + 1:
            return 'chargelst does not hold every label once'
        for c, q in enumerate(ch):
            for l in q:
                if sum(fock[l]) != c:
                    return 'the state %s is listed with charge %d' % (''.join(map(str, fock[l])), c)
            if [num(x) for x in self.call('get_lst', [], charge=c)] != q:
                return 'get_lst gives other states of charge %d than chargelst' % c
        qn = {num(k): tuple(num(x) for x in v) for k, v in a['ind_qn'].items()}
        inv = {tuple(num(x) for x in k): num(v) for k, v in a['qn_ind'].items()}
        if sorted(qn) != seen or len(inv) != len(qn) or any(inv.get(v) != k for k, v in qn.items()):
            return 'ind_qn and qn_ind do not invert each other over all labels'
        for l, v in qn.items():
            if l not in ch[v[0]]:
                return 'label %d has charge %d in ind_qn' % (l, v[0])
        if self.indexing in ('sz', 'ssq'):
            h = n // 2
            for c in range(n + 1):
                m = min(c, n - c)
                got = []
                for sz in range(-m, m + 1, 2):
                    lst = [num(x) for x in self.call('get_lst', [], charge=c, sz=sz)]
                    got += lst
                    for l in lst:
                        if sum(fock[l][:h]) - sum(fock[l][h:]) != sz or sum(fock[l]) != c:
                            return 'the state %s is listed with charge %d and sz %d' % (''.join(map(str, fock[l])), c, sz)
                        if qn[l][:2] != (c, sz):
                            return 'label %d of charge %d and sz %d has the quantum numbers %s' % (l, c, sz, qn[l])
                    if self.indexing == 'ssq':
                        tot = []
                        for ssq in range(abs(sz), m + 1, 2):
                            sub = [num(x) for x in self.call('get_lst', [], charge=c, sz=sz, ssq=ssq)]
                            tot += sub
                            # number of multiplets of spin ssq/2 made by c electrons in h orbitals
                            mult = (ssq + 1) * comb(h + 1, (c - ssq) // 2) * comb(h + 1, (c + ssq) // 2 + 1) // (h + 1)
                            if len(sub) != mult:
                                return '%d states of charge %d, sz %d and ssq %d instead of %d' % (len(sub), c, sz, ssq, mult)
                            for k, l in enumerate(sub):
                                if qn.get(l) != (c, sz, ssq, k):
                                    return 'label %d of charge %d, sz %d and ssq %d has the quantum numbers %s' % (l, c, sz, ssq, qn.get(l))
                        if sorted(tot) != sorted(lst):
                            return 'the states of charge %d and sz %d are not each listed with one ssq' % (c, sz)
                if sorted(got) != sorted(ch[c]):
                    return 'the states of charge %d are not each listed with one sz' % c
        if 'statesdm' in a:
            if [sorted(num(x) for x in q) for q in a['statesdm'][:n + 1]] != [sorted(q) for q in ch]:
                return 'the considered states are not all states'
        if self.ip.unk:
            raise Unknown(str(next(iter(self.ip.unk))))
        return None


def strict(ip, fn):
    """an index outside of a table is an answer of its own"""
    try:
        m = fn()
    except (Unknown, Stop, TypeError, AttributeError):
        if not ip.bad or ip.unk:
            raise
        m = None
    if ip.unk:
        raise Unknown(str(next(iter(ip.unk))))
    if ip.bad:
        return next(iter(ip.bad.values()))[0]
    return m


def label_case(proj, cname, nsingle, indexing):
    s = Labels(proj, cname, nsingle, indexing)
    return strict(s.ip, lambda: labels(s, cname, nsingle, indexing))


def labels(s, cname, nsingle, indexing):
    m = s.wrong()
    if m or s.indexing == 'ssq' or nsingle < 2:
        return m
    top = 2**nsingle - 1
    gone = []
    for step in ([top], [1, top - 1], [0, 1]) if nsingle > 2 else ([top], [1]):
        gone += [x for x in step if x not in gone]
        s.call('remove_fock_states', [list(step)])
        m = s.wrong(gone)
        if m:
            return 'after the Fock states %s were removed %s' % (gone, m)
    return None


ENERGIES = [lambda k: .37 * k, lambda k: -.37 * k, lambda k: ((k * 7) % 5) * 1.01, lambda k: 3. + ((k * 3) % 7) * .5, lambda k: 0. * k, lambda k: -9. - ((k * 5) % 3)]
WITHIN = (1.3, 0.2, 100., 3.1, 0.)


def select_case(proj, bmod, bname, cname, indexing, nsingle, k):
    """removal of states by energy and back; the builder's own methods are interpreted"""
    bc = proj.find_class('qmeq.builder.' + bmod, bname)
    ip = Interp(proj)
    ip.case, ip.values = '%s %s %s' % (bname, cname, indexing), True
    ci = proj.find_class('qmeq.indexing', cname)
    si = ip.construct(ci, [nsingle, indexing, None, 2], {})
    n = num(si.attrs['nmany'])
    E = [float(ENERGIES[k](l)) for l in range(n)]
    attrs = {'si': si, 'qd': Obj(None, {'Ea': ip.new((n,), 'Ea', list(E))}, 'qd')}
    if 'ElPh' in bname:
        attrs['si_elph'] = ip.construct(proj.find_class('qmeq.indexing', 'StateIndexingDMc'), [nsingle, indexing, None, 2], {})
    me = Obj(bc, attrs, 'builder')
    ch = [[num(x) for x in q] for q in si.attrs['chargelst']]

    def check(want, what):
        for nm in ('si', 'si_elph'):
            if nm not in attrs:
                continue
            a = attrs[nm].attrs
            got = [sorted(num(x) for x in q) for q in a['statesdm'][:len(ch)]]
            if got != [sorted(q) for q in want]:
                d = [l for q, w in zip(got, want) for l in set(q) ^ set(w)]
                return '%s %s.statesdm %s state %d (energies %s)' % (what, nm, 'keeps' if any(d[0] in q for q in got) else 'lacks', d[0], ['%.2f' % x for x in E[:8]])
            if [sorted(num(x) for x in q) for q in a['chargelst']] != [sorted(q) for q in ch]:
                return '%s the list of all states %s.chargelst is changed' % (what, nm)
            if num(a['npauli_']) != sum(len(q) for q in want):
                return '%s %s counts %s states' % (what, nm, a['npauli_'])
        return None

    def do(name, *args):
        fn = proj.lookup(bc, name)
        if fn is None:
            raise AnchorMissing('%s.%s' % (bname, name))
        ip.call_fn(fn, [me] + list(args), {})

    return strict(ip, lambda: selection(ip, E, ch, do, check))


def selection(ip, E, ch, do, check):
    for dE in WITHIN:
        if any(abs(e - min(E) - dE) < 1e-6 for e in E):
            # whether the bound itself belongs to it is not laid down
            continue
        do('remove_states', dE)
        m = check([[l for l in q if E[l] < min(E) + dE] for q in ch], 'after remove_states(%s)' % dE)
        if m:
            return m
    do('use_all_states')
    m = check(ch, 'after use_all_states')
    if ip.unk:
        raise Unknown(str(next(iter(ip.unk))))
    return m


def one(args, fn, proj):
    try:
        return fn(proj, *args), None
    except Raised as ex:
        return 'raises %s' % ex, None
    except (Unknown, Stop) as ex:
        return None, str(ex)


def wh(x, name=None):
    x = x.methods.get(name, x) if name else x
    return x.where() if hasattr(x, 'where') else x.module.relpath if x is not None else ''


def family(rep, proj, what, key, fn, cases, where):
    seen, why, n = [], None, 0
    for args in cases:
        m, un = one(args, fn, proj)
        n += 1
        if m:
            seen.append((m, args))
        why = why or un
    for m, args in seen[:2]:
        rep.finding('C23/%s/%s' % (key, m[:40]), '%s: %s' % (what, m), [where], ', '.join(str(x) for x in args))
    if not seen and why:
        rep.unknown(what, why)
    elif not seen:
        rep.ok(what, '%d finite cases' % n)
    rep.count('finite cases', n)


def c23(rep, proj, tier):
    deep = tier != 'quick'
    for cname in CLASSES:
        ci = proj.find_class('qmeq.indexing', cname)
        for indexing in ('Lin', 'charge', 'sz', 'ssq'):
            sizes = ((2, 4) if indexing == 'ssq' or cname != 'StateIndexing' and not deep else (2, 4, 6)) if indexing in ('sz', 'ssq') else ((1, 2, 3, 4) if not deep else (1, 2, 3, 4, 5))
            rep.guarded('%s, indexing %s' % (cname, indexing), family, rep, proj, '%s, indexing %s: labels' % (cname, indexing), '%s/%s' % (cname, indexing), label_case,
                        [(cname, s, indexing) for s in sizes], wh(ci, '__init__'))
        rep.guarded('%s, odd sz' % cname, family, rep, proj, '%s, spin indexing of an odd number of states' % cname, cname + '/odd', label_case, [(cname, 3, 'sz'), (cname, 3, 'ssq')], wh(ci, '__init__'))
    for bmod, bname in (('builder', 'Builder'), ('builder_base', 'BuilderManyBody'), ('builder_elph', 'BuilderElPh'), ('builder_elph', 'BuilderManyBodyElPh')):
        bc = proj.find_class('qmeq.builder.' + bmod, bname)
        for cname in CLASSES[1:]:
            cases = [(bmod, bname, cname, ix, s, k) for ix, s in (('charge', 3), ('Lin', 3), ('sz', 4) if bname == 'Builder' else ('charge', 2)) for k in range(len(ENERGIES))]
            rep.guarded('%s, %s' % (bname, cname), family, rep, proj, '%s with %s: states removed by energy and restored' % (bname, cname), '%s/%s' % (bname, cname), select_case, cases, wh(proj.lookup(bc, 'remove_states')))
    rep.guarded('coherences removed by energy', coherences, rep, proj, 'C23')
