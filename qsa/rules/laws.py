"""C07-C09: conservation laws every master equation must obey, decided on the effect summary of one implementation at a time.

The kernel summary K[(b,b') <- (a,a')] is a formula in the tabulated rates; each law is an identity between such formulas, checked by
polynomial identity testing over random finite state spaces with random couplings (the summary is evaluated, not the program)."""
from ..engine import World, Engine, Effect, PathV, Loc, sym
from ..values import *
from .. import values as V
from ..model import Model, Unknown
from ..compare import names_of, effpoly, opaque_in, has_opaque, opaques
from .twins import FIRST, FIRST_ATOMS, tier_models

TOL = 1e-7
LEAVES = {'Tba', 'phi1fct', 'phi1fct_energy', 'paulifct', 'paulifct_elph', 'tLba', 'tLbbp', 'w1fct', 'Vbbp', 'Ea', 'mulst', 'phi0', 'statesdm',
          'all_bbp', 'all_ba', 'current', 'energy_current', 'phi1_phi0', 'e_phi1_phi0', 'TGT', 'ELT', 'SET', 'nleads', 'nbaths', 'ncharge',
          'ndm0', 'ndm1', 'ndm0r', 'npauli'}


def impls(project, elph=True):
    for sub in ('base', 'elph') if elph else ('base',):
        for py, cy, c in FIRST:
            for k, m in (('Python', py), ('compiled', cy)):
                yield '%s.%s (%s)' % (sub, c, k), 'qmeq.approach.%s.%s' % (sub, m), c


def extract(rep, world, mod, cls, entry, atoms=FIRST_ATOMS):
    e = Engine(world, world.proj.find_class(mod, cls), atoms=atoms)
    e.run(entry, [])
    rep.count('effects extracted', len(e.effects))
    rep.count('functions inlined', len(set(id(f) for f in e.inlined)))
    return e


class NotModelled(Exception):
    pass


def vet(effs, targets):
    """the law is judged only if every quantity in the summary is one it knows"""
    bad = opaque_in(effs)
    if bad:
        raise NotModelled(bad)
    sel = [e for e in effs if not isinstance(e.target, Loc) and e.target in targets]
    for t in {e.target for e in sel}:
        p = effpoly([e for e in sel if e.target == t], t)
        o = has_opaque(p) or sorted(opaques(p))
        if o:
            raise NotModelled('value not modelled: %s' % (o,))
        calls, leaves = names_of(p)
        for n in calls:
            if n not in ('dot',):
                raise NotModelled('function %s() is not interpreted' % n)
        for n in leaves - V.KNOWN_LEAVES:
            if n.split('.')[-1] not in LEAVES and n not in {t.split('.')[-1] for t in targets}:
                raise NotModelled('quantity %s is not interpreted' % n)
    return sel


KERN = ('kh.me', 'kh.pauli_m', 'kh.pauli_p')
ENER = ('kh.me_energy',)


def lead_only(l0, no_phonons=False):
    """every lead-resolved rate of the other leads vanishes"""
    arr = {'Tba', 'paulifct', 'tLba', 'phi1fct', 'phi1fct_energy', 'phi1_phi0', 'e_phi1_phi0'}

    def zero(path, idx):
        leaf = path.rstrip("'").split('.')[-1]
        if no_phonons and leaf in ('paulifct_elph', 'tLbbp', 'w1fct', 'Vbbp'):
            return True
        return leaf in arr and len(idx) > 0 and idx[0] != l0
    return zero


def wh(effs):
    return sorted({e.where for e in effs})[:8]


def conservation(rep, world, label, mod, cls, n):
    e = extract(rep, world, mod, cls, 'generate_kern')
    effs = vet(e.effects, KERN)
    if not effs:
        raise NotModelled('no kernel element is written')
    cells = 0
    for k in range(n):
        for full in (True, False):
            M = Model(5 + 13 * k, no_coherences=e.no_coherences, full_unique=full)
            M.budget = 8000000
            f = M.final(effs)
            col = {}
            for (b, bp, q, a, ap, qa), (o, v) in f.get('kh.me', {}).items():
                if b == bp:
                    col.setdefault((a, ap, qa), {})[(b, q)] = v
                    cells += 1
            for t, place in (('kh.pauli_m', 0), ('kh.pauli_p', 1)):
                for (bb, aa), (o, v) in f.get(t, {}).items():
                    d = col.setdefault((bb, aa)[place], {})
                    d[bb] = d.get(bb, 0) + v
                    cells += 1
            for c in sorted(col, key=repr):
                s, m = sum(col[c].values()), max(abs(x) for x in col[c].values())
                if abs(s) > TOL * (1 + m):
                    rep.finding('%s/conservation' % label.replace(' ', ''), '%s: the kernel does not conserve probability' % label, wh(effs),
                                'column %r of the kernel: gains and losses of the populations sum to %r (terms up to %.3g)' % (c, s, m))
                    return
    if cells < 8:
        raise NotModelled('only %d kernel cells were reached' % cells)
    rep.count('kernel cells evaluated', cells)
    rep.ok('%s: the population rows of every kernel column sum to zero' % label, '%d cells on %d random state spaces' % (cells, 2 * n))


def hermiticity(rep, world, label, mod, cls, n):
    e = extract(rep, world, mod, cls, 'generate_kern')
    effs = vet(e.effects, KERN + ENER)
    me = [x for x in effs if x.target == 'kh.me']
    if not me:
        # a population kernel: real rates
        for x in effs:
            if x.target.startswith('kh.pauli'):
                if subst_conj(x.val) != x.val.frozen():
                    rep.finding('%s/real' % label.replace(' ', ''), '%s: a population rate is not real' % label, [x.where], str(x.val)[:200])
                    return
        rep.ok('%s: population rates are real' % label)
        return
    cells = 0
    for k in range(n):
        M = Model(5 + 13 * k, no_coherences=e.no_coherences, full_unique=True)
        M.budget = 8000000
        f = M.final(effs)
        K = {c: v[1] for c, v in f['kh.me'].items()}
        big = max(abs(v) for v in K.values())
        for c in sorted(K, key=repr):
            b, bp, q, a, ap, qa = c
            w = K.get((bp, b, q, ap, a, qa), 0)
            cells += 1
            if abs(w + complex(K[c]).conjugate()) > TOL * (1 + big):
                rep.finding('%s/hermiticity' % label.replace(' ', ''), '%s: the kernel does not map Hermitian matrices to Hermitian matrices' % label,
                            wh(me), 'element %r is %r, its conjugate partner is %r' % (c, K[c], w))
                return
        E = {c: v[1] for c, v in f.get('kh.me_energy', {}).items()}
        for c in sorted(E, key=repr):
            b, bp, q = c
            cells += 1
            if abs(E[c] + E.get((bp, b, q), 0)) > TOL or abs(complex(E[c]).imag) > TOL:
                rep.finding('%s/hermiticity-energy' % label.replace(' ', ''), '%s: the coherent part of the kernel is not anti-Hermitian' % label,
                            wh([x for x in effs if x.target == 'kh.me_energy']), 'element %r is %r, partner %r' % (c, E[c], E.get((bp, b, q), 0)))
                return
    rep.count('kernel cells evaluated', cells)
    rep.ok('%s: K[b\'b <- a\'a] = -conj(K[bb\' <- aa\'])' % label, '%d cells on %d random state spaces' % (cells, n))


def subst_conj(p):
    from ..values import conj
    try:
        return conj(p).frozen()
    except Exception:
        return p.frozen()


class LawModel(Model):
    """phi0 by index and by element are the same density matrix; values after an update are available under the primed name"""
    def __init__(self, *a, **k):
        Model.__init__(self, *a, **k)
        self.done = {}

    def phi0_at(self, i):
        for q, r in enumerate(self.states):
            for x in r:
                for y in r:
                    if self.dm0(x, y, q) == i:
                        if x != y:
                            raise Unknown('coherence read by index')
                        return self.real('phi0el', x, y, q)
        raise Unknown('phi0 index')

    def ref(self, path, idx):
        leaf = path.split('.')[-1]
        if leaf == 'phi0' and len(idx) == 1 and not isinstance(idx[0], str):
            return self.phi0_at(self.int(idx[0]))
        if leaf.endswith("'") and leaf.rstrip("'") in self.done and len(idx) == 1:
            return self.done[leaf.rstrip("'")].get((self.int(idx[0]),), (0, 0))[1]
        return Model.ref(self, path, idx)


def current_law(rep, world, label, mod, cls, n, energy):
    ek = extract(rep, world, mod, cls, 'generate_kern')
    ec = extract(rep, world, mod, cls, 'generate_current')
    kern = vet(ek.effects, KERN)
    cur = vet(ec.effects, ('current', 'energy_current', 'heat_current'))
    if not kern or not cur:
        raise NotModelled('no kernel or no current')
    key = label.replace(' ', '')
    done = {'charge': 0, 'energy': 0, 'heat': 0}
    dead = set()
    for k in range(n):
        for l0 in range(2):
            M = LawModel(5 + 13 * k, no_coherences=ek.no_coherences or ec.no_coherences, full_unique=False, zero=lead_only(l0, energy), ncharge=3)
            M.drop, M.budget = set(), 8000000
            M.bbp = M.all_pairs()
            f = M.final(kern)
            flow = eflow = 0
            size = 1.0
            for (b, bp, q, a, ap, qa), (o, v) in f.get('kh.me', {}).items():
                if b == bp:
                    z = (v * M.call(None, 'phi0el', [a, ap, qa])).imag
                    flow += q * z
                    eflow += Ea(M, b) * z
                    size = max(size, abs(z))
            pop = {M.dm0(x, x, q): (x, q) for q, r in enumerate(M.states) for x in r}
            for t, place in (('kh.pauli_m', 0), ('kh.pauli_p', 1)):
                for (bb, aa), (o, v) in f.get(t, {}).items():
                    z = v * M.phi0_at((bb, aa)[place])
                    flow += pop[bb][1] * z
                    eflow += Ea(M, pop[bb][0]) * z
                    size = max(size, abs(z))
            M.begin()
            g = M.final([x for x in cur if x.target in ('current', 'energy_current')])
            c = g.get('current', {}).get((l0,), (0, 0))[1]
            if abs(c - flow) > TOL * size * 10:
                rep.finding('%s/current' % key, '%s: the current of a lead is not the charge its tunnelling moves' % label,
                            wh([x for x in cur if x.target == 'current']) + wh(kern),
                            'lead %d: current %r, charge flow of the kernel restricted to that lead %r' % (l0, c, flow))
                return
            done['charge'] += 1
            if energy:
                ce = g.get('energy_current', {}).get((l0,), (0, 0))[1]
                if abs(ce - eflow) > TOL * size * 10:
                    rep.finding('%s/energy_current' % key, '%s: the energy current of a lead is not the energy its tunnelling moves' % label,
                                wh([x for x in cur if x.target == 'energy_current']) + wh(kern),
                                'lead %d: energy current %r, energy flow of the kernel restricted to that lead %r' % (l0, ce, eflow))
                    return
                done['energy'] += 1
    for what, m in sorted(done.items()):
        if m:
            rep.ok('%s: %s current of each lead equals the %s flow of its part of the kernel' % (label, what, what), '%d random cases' % m)


SAME = {'phi1fct_energy': 'phi1fct', 'e_phi1_phi0': 'phi1_phi0'}


def weight_law(rep, world, label, mod, cls, n, atoms=FIRST_ATOMS, Mod=None):
    """the energy current is the current with every rate weighted by the energy it transfers: were all transferred energies 1, the two
    would be the same number"""
    Mod = Mod or LawModel
    ec = extract(rep, world, mod, cls, 'generate_current', atoms)
    cur = [x for x in vet(ec.effects, ('current', 'energy_current', 'heat_current')) if x.target in ('current', 'energy_current')]

    class W(Mod):
        def ref(self, path, idx):
            leaf = path.split('.')[-1].rstrip("'")
            if leaf in SAME:
                path = path.replace(leaf, SAME[leaf])
            return Mod.ref(self, path, idx)

        def z(self, kind, l, cb):
            return Mod.z(self, SAME.get(kind, kind), l, cb)
    cases = 0
    for k in range(n):
        M = W(5 + 13 * k, no_coherences=ec.no_coherences)
        M.budget = 8000000
        g = M.final(cur)
        for l in range(M.nleads):
            I = g.get('current', {}).get((l,), (0, 0))[1]
            J = g.get('energy_current', {}).get((l,), (0, 0))[1]
            cases += 1
            if abs(I - J) > TOL * 10 * (1 + abs(I) + abs(J)):
                rep.finding('%s/energy-weight' % label.replace(' ', ''), '%s: the energy current is not the energy-weighted counterpart of the current' % label,
                            wh(cur), 'lead %d, all transferred energies set to 1: current %r, energy current %r' % (l, I, J))
                return
    rep.ok('%s: the energy current is the energy-weighted current' % label, '%d random cases' % cases)


def heat_law(rep, world, label, mod, cls, n, atoms=FIRST_ATOMS):
    ec = extract(rep, world, mod, cls, 'generate_current', atoms)
    cur = vet(ec.effects, ('current', 'energy_current', 'heat_current'))
    if not [x for x in cur if x.target == 'heat_current']:
        raise NotModelled('no heat current')
    for k in range(n):
        M = LawModel(5 + 13 * k, no_coherences=ec.no_coherences)
        M.budget = 8000000
        g = M.final([x for x in cur if x.target in ('current', 'energy_current')])
        M.done = g
        M.begin()
        h = M.final([x for x in cur if x.target == 'heat_current']).get('heat_current', {})
        for l in range(M.nleads):
            I = g.get('current', {}).get((l,), (0, 0))[1]
            J = g.get('energy_current', {}).get((l,), (0, 0))[1]
            Q = h.get((l,), (0, 0))[1]
            mu = M.ref('leads.mulst', (l,))
            if abs(Q - (J - mu * I)) > TOL * (1 + abs(J) + abs(I)):
                rep.finding('%s/heat' % label.replace(' ', ''), '%s: the heat current is not energy current minus chemical potential times current' % label,
                            wh([x for x in cur if x.target == 'heat_current']), 'lead %d: %r instead of %r' % (l, Q, J - mu * I))
                return
            for nm, v in (('current', I), ('energy_current', J)):
                if abs(complex(v).imag) > TOL * (1 + abs(v)):
                    rep.finding('%s/%s-real' % (label.replace(' ', ''), nm), '%s: %s is not real' % (label, nm), wh(cur), 'lead %d: %r' % (l, v))
                    return
    rep.ok('%s: heat_current = energy_current - mulst*current; both real' % label, '%d random cases' % (n * 2))


def Ea(M, b):
    return M.ref('qd.Ea', (b,))


# --------------------------------------------------------------- second order von Neumann
class Law2(LawModel):
    """phi1_phi0[l, cb] stands for its product with phi0; its conjugate-transposed partner for the conjugate of that"""
    def z(self, kind, l, cb):
        if self.zero is not None and self.zero(kind, (l, cb)):
            return 0
        return self.cplx('z', kind, l, cb)

    def ref(self, path, idx):
        leaf = path.split('.')[-1].rstrip("'")
        if leaf in ('phi1_phi0', 'e_phi1_phi0') and len(idx) == 3:
            return self.z(leaf, self.int(idx[0]), self.int(idx[1]))
        return LawModel.ref(self, path, idx)

    def swap(self, a):
        """is this array the permutation that exchanges (b, b') with (b', b)?"""
        cells = {}
        for o, v in S(a)[1]:
            if o != '=':
                raise Unknown('matrix product with an accumulated array')
            for m, c in thaw(v).t.items():
                el = [x for x, k in m[2] if S(x)[0] == 'ref' and S(x)[1] == 'ELT']
                if len(el) != 1:
                    raise Unknown('array entry')
                rest = tuple((x, k) for x, k in m[2] if x != el[0] and not (S(x)[0] == 's' and S(x)[1] == 'SET'))
                for e in self.enum(m[0], {}, tuple(m[1])):
                    cells[tuple(self.int(self.ix(x, e)) for x in S(el[0])[2])] = self.coef(c) * self.prod(rest, e)
        cells = {k: v for k, v in cells.items() if v}
        want = {(self.dm0(x, y, q), self.dm0(y, x, q)): 1 for q, r in enumerate(self.states) for x in r for y in r if self.incl(x, y, q)}
        return cells == want

    def atom1(self, a, env):
        s = S(a)
        if s[0] == 'item' and S(s[1])[0] == 'call' and S(s[1])[1] == 'dot':
            args = list(S(s[1])[2])
            x = args[0] if isinstance(args[0], int) else None
            x = thaw(x).single_atom() if x is not None else None
            cj = False
            if x is not None and S(x)[0] == 'conj':
                x, cj = S(x)[1], True
            if x is None or S(x)[0] not in ('ref', 's'):
                raise Unknown('matrix product')
            leaf = S(x)[1].split('.')[-1].rstrip("'")
            y = thaw(args[1]).single_atom()
            if leaf not in ('phi1_phi0', 'e_phi1_phi0') or y is None or len(args) != 2:
                raise Unknown('matrix product')
            if cj:
                # conj(X) . swap . phi0 = conj(X . phi0) for a Hermitian density matrix
                if S(y)[0] != 'arr':
                    raise Unknown('matrix product with a conjugate')
                if not self.swap(y):
                    self.bad = 'the conjugated Phi[1] rows are not rearranged by the exchange of b and b\''
            elif S(y)[0] not in ('ref', 's') or S(y)[1].split('.')[-1].rstrip("'") != 'phi0':
                raise Unknown('matrix product with something else than phi0')
            idx = [i for i in (S(x)[2] if S(x)[0] == 'ref' else ())] + list(s[2])
            idx = [self.int(self.ix(i, env)) for i in idx if not isinstance(i, str)]
            if len(idx) != 2:
                raise Unknown('matrix product')
            v = self.z(leaf, idx[0], idx[1])
            return complex(v).conjugate() if cj else v
        return LawModel.atom1(self, a, env)

    bad = None


def laws_2vn(rep, world, n, what):
    label = '2vN (shared by both implementations)'
    mod, cls, at = 'qmeq.approach.base.neumann2', 'Approach2vN', {'get_phi1_phi0'}
    ek = extract(rep, world, mod, cls, 'generate_kern', at)
    kern = [e for e in vet(ek.effects, ('kern',)) if e.op == '+=']
    if not kern:
        raise NotModelled('no kernel row is written')
    for k in range(n):
        for l0 in (0, 1):
            M = Law2(5 + 13 * k, full_unique=True, zero=lead_only(l0))
            M.block = dict.fromkeys(M.block, 0)     # 2vN keeps every pair of states of equal charge
            M.bbp = M.all_pairs()
            M.budget = 8000000
            rows = {}
            for e in kern:
                cut = Effect(e.target, e.idx[:1], e.op, e.val, e.where)
                last = e.idx[1].single_atom() if not isinstance(e.idx[1], str) else None
                cut.binders = [(v, d if v != last else ('range', P0.frozen(), P1.frozen())) for v, d in e.binders]
                cut.guard = e.guard
                for c, (o, v) in M.final([cut]).get('kern', {}).items():
                    rows[c[0]] = rows.get(c[0], 0) + v
            if M.bad:
                rep.finding('2vN/shuffle', '2vN: %s' % M.bad, wh(kern), '')
                return
            tot = flow = 0
            size = 1.0
            for q, r in enumerate(M.states):
                for b in r:
                    v = -1j * rows.get(M.dm0(b, b, q), 0)
                    tot += v
                    flow += q * v
                    size = max(size, abs(v))
            if what == 'C07' and abs(tot) > TOL * size * 10:
                rep.finding('2vN/conservation', '2vN: the kernel does not conserve probability', wh(kern), 'populations change by %r' % tot)
                return
            if what == 'C09':
                ec = extract(rep, world, mod, cls, 'generate_current', at)
                cur = vet(ec.effects, ('current', 'energy_current'))
                M.begin()
                c = M.final(cur).get('current', {}).get((l0,), (0, 0))[1]
                if abs(c - flow) > TOL * size * 10:
                    rep.finding('2vN/current', '2vN: the current of a lead is not the charge its tunnelling moves', wh(kern) + wh(cur),
                                'lead %d: current %r, charge flow of the kernel %r' % (l0, c, flow))
                    return
    rep.ok('%s: %s' % (label, 'probability is conserved' if what == 'C07' else 'current equals charge flow'), '%d random cases' % (2 * n))


# ------------------------------------------------------------------------------------ checks
def safe(rep, name, fn, *args):
    def run():
        try:
            fn(*args)
        except (NotModelled, Unknown) as ex:
            rep.unknown(name, str(ex))
    rep.guarded(name, run)


def c07(rep, project, tier):
    w = World(project)
    n = tier_models(tier)
    for label, mod, cls in impls(project):
        safe(rep, label, conservation, rep, w, label, mod, cls, n)
    safe(rep, '2vN', laws_2vn, rep, w, n, 'C07')
    rep.assume('index maps and kernel handlers place each element where its arguments say (established by C05)')


def c08(rep, project, tier):
    w = World(project)
    n = tier_models(tier)
    for label, mod, cls in impls(project):
        safe(rep, label, hermiticity, rep, w, label, mod, cls, n)


def c09(rep, project, tier):
    w = World(project)
    n = tier_models(tier)
    for label, mod, cls in impls(project):
        safe(rep, label, current_law, rep, w, label, mod, cls, n, cls in ('ApproachPauli', 'ApproachLindblad'))
        safe(rep, label + ' heat', heat_law, rep, w, label, mod, cls, n)
        if cls not in ('ApproachPauli', 'ApproachLindblad'):
            safe(rep, label + ' energy weight', weight_law, rep, w, label, mod, cls, n)
    safe(rep, '2vN', laws_2vn, rep, w, n, 'C09')
    safe(rep, '2vN heat', heat_law, rep, w, '2vN', 'qmeq.approach.base.neumann2', 'Approach2vN', n, {'get_phi1_phi0'})
    safe(rep, '2vN energy weight', weight_law, rep, w, '2vN', 'qmeq.approach.base.neumann2', 'Approach2vN', n, {'get_phi1_phi0'}, Law2)
