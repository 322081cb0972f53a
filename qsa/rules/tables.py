"""C16: what remove_coherences leaves in the index tables, evaluated table entry by table entry for small state spaces."""
from ..access import Interp, Obj, Arr, Raised, Stop
from ..frontend import AnchorMissing
from .bounds import subset

CASES = [('StateIndexingDM', 'charge', 4, 0), ('StateIndexingDM', 'Lin', 3, 0), ('StateIndexingDM', 'charge', 3, 2), ('StateIndexingDM', 'sz', 4, 0), ('StateIndexingDM', 'ssq', 4, 0),
         ('StateIndexingDMc', 'charge', 3, 0), ('StateIndexingDMc', 'Lin', 3, 2), ('StateIndexingDMc', 'sz', 4, 0), ('StateIndexingDMc', 'charge', 2, 20)]
# distances between the energies of states of a charge: (of the k-th level of a charge, removal bounds one after the other)
LEVELS = [((0., .1, 5., 5.1, 9., 9.2, 12., 12., 15.), (1.,)), ((5.1, 0., .1, 5., 9.2, 9., 12., 12., 15.), (1.,)), ((0., 0., 0., 0., 0., 0.), (.5,)), ((0., 2., 4., 6., 8., 10., 12.), (.5,)),
          ((0., .3, .6, .9, 1.2, 1.5, 1.8, 2.1), (.7, .4)), ((4., 3.9, 0., .2, 4., .2, 0., 3.9), (2., 0.))]


class Unknown(Exception):
    pass


class Tables(object):
    """the tables of an index object, read through its own index function"""

    def __init__(self, ip, si, proj, pairs, complex_):
        a = si.attrs
        get = proj.lookup(si.cls, 'get_ind_dm0')
        self.pair = {p: self.num(ip.call_fn(get, [si] + list(p), {'maptype': 1})) for p in pairs}
        self.uni = {p: bool(self.num(ip.call_fn(get, [si] + list(p), {'maptype': 2}))) for p in pairs}
        self.conj = {} if complex_ else {p: bool(self.num(ip.call_fn(get, [si] + list(p), {'maptype': 3}))) for p in pairs}
        self.ndm0, self.ndm0r, self.npauli = (self.num(a.get(n)) for n in ('ndm0', 'ndm0r' if 'ndm0r' in a else 'ndm0', 'npauli'))
        ind = a.get('inddm0')
        if not isinstance(ind, dict):
            raise Unknown('inddm0')
        self.ind = {self.num(k): tuple(self.num(x) for x in v) for k, v in ind.items()}
        ch = a.get('states_changed')
        self.changed = ch if isinstance(ch, bool) else None

    @staticmethod
    def num(x):
        if isinstance(x, Arr) and x.b.data is not None and x.ix.size == 1:
            x = x.content().reshape(-1)[0]
        if isinstance(x, (int, bool)) or hasattr(x, '__index__'):
            return int(x)
        if isinstance(x, float) and x == int(x):
            return int(x)
        raise Unknown('a table entry')


def wrong(old, new, far, complex_):
    """what is wrong with the tables after the removal, or None"""
    for p in old.pair:
        gone = old.pair[p] == -1 or far(p)
        if (new.pair[p] == -1) != gone:
            return 'the pair of states %d, %d %s' % (p[0], p[1], 'keeps its place although it was to be removed' if gone else 'loses its place although its energies are close enough')
    left = [p for p in old.pair if new.pair[p] != -1]
    a, b = {}, {}
    for p in left:
        if a.setdefault(old.pair[p], new.pair[p]) != new.pair[p]:
            return 'the pair of states %d, %d gets another place than the pairs it shares its matrix element with' % p[:2]
        if b.setdefault(new.pair[p], old.pair[p]) != old.pair[p]:
            return 'two different matrix elements get the place %d' % new.pair[p]
        if p[0] == p[1] and new.pair[p] != old.pair[p]:
            return 'the population of state %d changes its place' % p[0]
    if sorted(b) != list(range(len(b))):
        return 'the places are %s' % sorted(b)
    if new.npauli != old.npauli:
        return 'npauli changes'
    if new.ndm0 != len(b):
        return 'ndm0 is %d for %d matrix elements' % (new.ndm0, len(b))
    if not complex_ and new.ndm0r != 2 * len(b) - new.npauli:
        return 'ndm0r is %d for %d populations and %d coherences' % (new.ndm0r, new.npauli, len(b) - new.npauli)
    for p in old.pair:
        if new.uni[p] and new.pair[p] == -1:
            return 'the removed pair %d, %d stays the unique pair of a place' % p[:2]
        if new.pair[p] != -1 and new.uni[p] != old.uni[p]:
            return 'the pair %d, %d %s the unique pair of its place' % (p[0], p[1], 'becomes' if new.uni[p] else 'is no longer')
        if not complex_ and new.pair[p] != -1 and new.conj[p] != old.conj[p]:
            return 'the sign of the imaginary part of the pair %d, %d changes' % p[:2]
    home = {}
    for p in left:
        home.setdefault(new.pair[p], set()).add(p[:2])
    if sorted(new.ind) != sorted(home):
        return 'inddm0 knows the places %s, not %s' % (sorted(new.ind)[:12], sorted(home)[:12])
    for k, p in new.ind.items():
        if p not in home[k]:
            return 'inddm0 gives the pair %s for place %d' % (p, k)
    if new.changed is False:
        return 'states_changed is not set'
    return None


def case_run(proj, cname, indexing, nsingle, sub, levels, bounds):
    """(message or None); raises Unknown"""
    ip = Interp(proj)
    ip.case, ip.values = '%s %s' % (cname, indexing), True
    ci = proj.find_class('qmeq.indexing', cname)
    si = ip.construct(ci, [nsingle, indexing, None, 2], {})
    if sub:
        lst = subset(sub, [list(q) for q in si.attrs['chargelst']])
        ip.call_fn(proj.lookup(ci, 'set_statesdm'), [si, [list(q) for q in lst]], {})
    complex_ = cname.endswith('DMc')
    n = si.attrs['nmany']
    states = [[int(x) for x in q] for q in si.attrs['statesdm']]
    E = [0.] * n
    qn = si.attrs['ind_qn']
    fam = {}
    for c, q in enumerate(si.attrs['chargelst']):
        for b in q:
            # the states of a spin multiplet are degenerate
            key = (c, qn[b][2], qn[b][3]) if indexing == 'ssq' else (c, b)
            k = fam.setdefault(key, len([1 for x in fam if x[0] == c]))
            E[int(b)] = levels[k % len(levels)] + 20. * (k // len(levels)) + 3. * c
    pairs = [(b, bp, c) for c, q in enumerate(states) for b in q for bp in q]
    me = Obj(None, {'si': si, 'qd': Obj(None, {'Ea': ip.new((n,), 'Ea', list(E))}, 'qd')}, 'builder')
    fn = proj.find_func('qmeq.builder.various', 'remove_coherences')
    if fn is None:
        raise AnchorMissing('qmeq.builder.various.remove_coherences')
    for dE in bounds:
        old = Tables(ip, si, proj, pairs, complex_)
        ip.getattr_store(si, 'states_changed', False)
        ip.call_fn(fn, [me, dE], {})
        new = Tables(ip, si, proj, pairs, complex_)
        m = wrong(old, new, lambda p: abs(E[p[0]] - E[p[1]]) > dE, complex_)
        if ip.unk:
            raise Unknown(str(next(iter(ip.unk))))
        if m:
            return m
    return None


def coherences(rep, proj, prop='C16'):
    """after remove_coherences the tables hold the kept elements and nothing else"""
    n, why, seen = 0, None, {}
    fn = proj.find_func('qmeq.builder.various', 'remove_coherences')
    for cname, indexing, nsingle, sub in CASES:
        for k, (levels, bounds) in enumerate(LEVELS):
            what = '%s, indexing %s, %d single-particle states%s, energies %d' % (cname, indexing, nsingle, ', some states left out' if sub else '', k)
            try:
                m = case_run(proj, cname, indexing, nsingle, sub, levels, bounds)
                n += 1
            except Raised as ex:
                m = 'raises %s' % ex
            except (Unknown, Stop) as ex:
                why = '%s: %s' % (what, ex)
                continue
            if m:
                seen.setdefault(m.split(' ')[0] + m[-20:], (m, what))
    for m, what in list(seen.values())[:4]:
        rep.finding('%s/remove_coherences/%s' % (prop, m[:30]), 'after remove_coherences %s' % m, [fn.where()], what)
    if not seen and why:
        rep.unknown('tables after remove_coherences', why)
    elif not seen:
        rep.ok('tables after remove_coherences', '%d state spaces and sets of energies' % n)
    rep.count('state spaces with coherences removed', n)
