"""C21, C15: energies, eigenvectors and operators block by block.

The blocks, their labels and their places are exact (they come from the index tables); the entries are generic numbers, so that two polynomial
expressions which differ anywhere differ here too (identity testing).  The functions are interpreted from their source, never called."""
import numpy as np

from ..access import Interp, Obj, Raised, Stop, Arr
from ..frontend import AnchorMissing
from .tables import Unknown, Tables
from .states import strict, one

num = Tables.num
CASES = [('Lin', 1), ('Lin', 3), ('charge', 2), ('charge', 3), ('sz', 2), ('sz', 4), ('ssq', 2), ('ssq', 4)]


def values(x):
    if not isinstance(x, Arr):
        raise Unknown('the result is not an array')
    c = x.content()
    if c is None or any(not (isinstance(y, (int, float, complex, np.number))) for y in c.reshape(-1)):
        raise Unknown('an entry of the result')
    return np.array(c.tolist(), dtype=complex).reshape(x.shape)


class World(object):
    def __init__(self, proj, indexing, nsingle, gone=(), nleads=2):
        self.proj, self.n = proj, nsingle
        self.rnd = np.random.RandomState(5 + nsingle)
        self.ip = Interp(proj)
        self.ip.case, self.ip.values = '%s %d' % (indexing, nsingle), True
        ci = proj.find_class('qmeq.indexing', 'StateIndexingDM')
        self.si = self.ip.construct(ci, [nsingle, indexing, None, nleads, 2], {})
        if gone:
            self.ip.call_fn(proj.lookup(ci, 'remove_fock_states'), [self.si, list(gone)], {})
        self.indexing, self.nleads = indexing, nleads
        a = self.si.attrs
        self.nmany = num(a['nmany'])
        a['nbaths'] = 3
        fock = [proj.lookup(ci, 'get_state')]
        self.bits = [tuple(num(x) for x in self.ip.call_fn(fock[0], [self.si, l], {})) for l in range(self.nmany)]
        # blocks: list of (rows, columns, path)
        self.blocks = []
        for c in range(nsingle + 1):
            if indexing in ('Lin', 'charge'):
                q = [num(x) for x in a['chargelst'][c]]
                self.blocks.append((q, q, (c,)))
            else:
                for k, z in enumerate(a['szlst'][c]):
                    rows = [num(x) for x in z]
                    if indexing == 'sz':
                        self.blocks.append((rows, rows, (c, k)))
                    else:
                        for s, q in enumerate(a['ssqlst'][c][k]):
                            self.blocks.append((rows, [num(x) for x in q], (c, k, s)))
        self.P = np.zeros((self.nmany, self.nmany), dtype=complex)
        self.E = np.zeros(self.nmany)
        self.vecs, self.vals = [], []
        for rows, cols, path in self.blocks:
            v = self.generic((len(rows), len(cols)))
            e = self.generic((len(cols),)).real
            for i, r in enumerate(rows):
                for j, q in enumerate(cols):
                    self.P[r, q] = v[i, j]
            for j, q in enumerate(cols):
                self.E[q] = e[j]
            self.put(self.vecs, path, self.arr(v, 'vecs'))
            self.put(self.vals, path, self.arr(e, 'vals'))

    def generic(self, shape):
        return self.rnd.uniform(.3, 1.7, shape) * np.exp(1j * self.rnd.uniform(0, 6, shape))

    def arr(self, x, name):
        return self.ip.new(x.shape, name, [complex(y) if np.iscomplexobj(x) else float(y) for y in x.reshape(-1)])

    @staticmethod
    def put(lst, path, v):
        for p in path[:-1]:
            while len(lst) <= p:
                lst.append([])
            lst = lst[p]
        assert len(lst) == path[-1]
        lst.append(v)

    def fn(self, mod, name):
        f = self.proj.find_func(mod, name)
        if f is None:
            raise AnchorMissing('%s.%s' % (mod, name))
        return f

    def call(self, mod, name, args, **kw):
        return self.ip.call_fn(self.fn(mod, name), args, kw)

    def tunnelling(self):
        """a generic operator of each lead which changes the charge by one and, with the spin indexing, the spin the lead stands for"""
        T = np.zeros((self.nleads, self.nmany, self.nmany), dtype=complex)
        h = self.n // 2
        for l in range(self.nleads):
            for x, s in enumerate(self.bits):
                for y, t in enumerate(self.bits):
                    if sum(t) != sum(s) + 1:
                        continue
                    if self.indexing in ('sz', 'ssq'):
                        up = l < self.nleads // 2
                        if sum(t[:h]) - sum(s[:h]) != (1 if up else 0) or sum(t[h:]) - sum(s[h:]) != (0 if up else 1):
                            continue
                    T[l, x, y] = self.generic(())
                    T[l, y, x] = T[l, x, y].conjugate()
        return T

    def coupling(self):
        V = np.zeros((3, self.nmany, self.nmany), dtype=complex)
        h = self.n // 2
        for l in range(3):
            for x, s in enumerate(self.bits):
                for y, t in enumerate(self.bits):
                    if sum(t) == sum(s) and (self.indexing not in ('sz', 'ssq') or sum(t[:h]) == sum(s[:h])):
                        V[l, x, y] = self.generic(())
        return V


def apart(got, want, bits, what):
    if got.shape != want.shape:
        return '%s has the shape %s' % (what, got.shape)
    d = abs(got - want)
    if d.max() <= 1e-9 * (1 + abs(want).max()):
        return None
    k = np.unravel_index(int(d.argmax()), d.shape)
    st = ' '.join(''.join(map(str, bits[i])) for i in k[-(2 if len(k) > 1 else 1):])
    return '%s: the element of the eigenstates in the place of %s is not that of the blocks they belong to' % (what, st)


def energies(proj, indexing, nsingle, gone):
    w = World(proj, indexing, nsingle, gone)
    return strict(w.ip, lambda: apart(values(w.call('qmeq.qdot', 'construct_Ea_manybody', [w.vals, w.si])).real, w.E, w.bits, 'construct_Ea_manybody'))


def full(proj, indexing, nsingle, gone):
    w = World(proj, indexing, nsingle, gone)
    return strict(w.ip, lambda: apart(values(w.call('qmeq.leadstun', 'construct_full_pmtr', [w.vecs, w.si])), w.P, w.bits, 'construct_full_pmtr'))


def rotated(proj, indexing, nsingle, gone, mod, name, kind):
    w = World(proj, indexing, nsingle, gone, 4 if kind == 'T' else 2)
    X = w.tunnelling() if kind == 'T' else w.coupling()
    want = np.array([w.P.conj().T @ x @ w.P for x in X])
    return strict(w.ip, lambda: apart(values(w.call(mod, name, [w.arr(X, 'X'), w.vecs, w.si])), want, w.bits, name))


def diagonal(proj, indexing, nsingle, gone):
    """diagonalise: each block of the Hamiltonian once, its eigenvalues and vectors at its own place"""
    w = World(proj, indexing, nsingle, gone)
    qc = proj.find_class('qmeq.qdot', 'QuantumDot')
    a, ham, ids, used = w.si.attrs, [], {}, []
    for k, (rows, cols, path) in enumerate(w.blocks):
        h = w.generic((len(rows), len(rows)))
        h = h + h.conj().T
        x = w.arr(h, 'ham')
        w.put(ham, path, x)
        ids[path] = h
    blank = lambda x: [blank(y) for y in x] if isinstance(x, list) else None
    me = Obj(qc, {'si': w.si, 'hamlst': ham, 'valslst': blank(w.vals), 'vecslst': blank(w.vecs), 'hsingle': {}, 'coulomb': {}, 'mtype': complex,
                  'Ea': w.ip.new((w.nmany,), 'Ea', [0.] * w.nmany)}, 'qd')

    def eigh(x):
        c = values(x)
        for (rows, cols, path), v, e in zip(w.blocks, flat(w.vecs), flat(w.vals)):
            if c.shape == ids[path].shape and c.size and abs(c - ids[path]).max() < 1e-12:
                used.append(path)
                return (w.ip.new(e.shape, 'vals', list(e.content().reshape(-1))), w.ip.new(v.shape, 'vecs', list(v.content().reshape(-1))))
        if not c.size:
            return (w.ip.new((0,), 'vals', []), w.ip.new((0, 0), 'vecs', []))
        raise Unknown('a matrix which is not a block of the Hamiltonian is diagonalised')
    w.ip.eigh = eigh

    def run():
        w.ip.call_fn(proj.lookup(qc, 'diagonalise'), [me], {})
        for (rows, cols, path), v, e in zip(w.blocks, flat(w.vecs), flat(w.vals)):
            if not rows:
                continue
            for nm, x in (('vecslst', v), ('valslst', e)):
                y = me.attrs[nm]
                for p in path:
                    y = y[p]
                if y is None:
                    return 'diagonalise: the block %s of the Hamiltonian is not diagonalised' % list(path)
                if values(y).shape != x.shape or abs(values(y) - values(x)).max() > 1e-12:
                    return 'diagonalise: %s%s does not belong to the block %s of the Hamiltonian' % (nm, list(path), list(path))
        return apart(values(me.attrs['Ea']).real, w.E, w.bits, 'diagonalise, Ea')
    return strict(w.ip, run)


def flat(x):
    return [z for y in x for z in flat(y)] if isinstance(x, list) else [x]


def spin_square(proj, nsingle, charge, sz):
    """the operator S^2 (in units in which a spin s has s(s+2)) among the states of a charge and S_z"""
    w = World(proj, 'ssq', nsingle)
    h = nsingle // 2
    lst = [l for l in range(w.nmany) if sum(w.bits[l]) == charge and sum(w.bits[l][:h]) - sum(w.bits[l][h:]) == sz]
    real = [num(x) for x in w.ip.call_fn(proj.lookup(w.si.cls, 'get_lst'), [w.si, charge, sz], {})]
    if sorted(real) != sorted(lst):
        return 'the states of charge %d and sz %d are listed wrongly' % (charge, sz)
    states = [w.bits[l] for l in real]

    def hop(s, i, j):
        """c+_i c_j"""
        if not s[j]:
            return None
        sign = (-1) ** sum(s[:j])
        s = s[:j] + (0,) + s[j + 1:]
        if s[i]:
            return None
        return s[:i] + (1,) + s[i + 1:], sign * (-1) ** sum(s[:i])

    def ladder(v, up):
        out = {}
        for s, x in v.items():
            for k in range(h):
                r = hop(s, k, h + k) if up else hop(s, h + k, k)
                if r:
                    out[r[0]] = out.get(r[0], 0) + r[1] * x
        return out
    want = np.zeros((len(states), len(states)))
    for j, s in enumerate(states):
        # 4 S^2 = 4 S- S+ + sz (sz + 2)
        v = ladder(ladder({s: 1}, True), False)
        for t, x in v.items():
            want[states.index(t), j] += 4 * x
        want[j, j] += sz * (sz + 2)

    def run():
        got = values(w.call('qmeq.qdot', 'operator_ssquare', [charge, sz, w.si])).real
        if got.shape != want.shape or abs(got - want).max() > 1e-9:
            return 'operator_ssquare is not S^2 for charge %d and sz %d of %d levels' % (charge, sz, nsingle)
        return None
    return strict(w.ip, run)


def family(rep, proj, what, key, fn, cases, where):
    seen, why, n = [], None, 0
    for args in cases:
        m, un = one(args, fn, proj)
        n += 1
        if m:
            seen.append((m, args))
        why = why or un
    for m, args in seen[:2]:
        rep.finding('%s/%s' % (key, m[:60]), m, [where], ', '.join(str(x) for x in args[:3]))
    if not seen and why:
        rep.unknown(what, why)
    elif not seen:
        rep.ok(what, '%d finite cases' % n)
    rep.count('finite cases', n)
    return not seen and not why


class Soft(object):
    """the general argument, where the blocks already agree: what it does not recognise is not wrong"""

    def __init__(self, rep):
        self.rep = rep

    def __getattr__(self, name):
        return getattr(self.rep, name)

    def finding(self, key, msg, *a, **k):
        self.rep.unknown(key, 'not recognised in general (the finite cases agree): %s' % msg)


def block_rules(rep, proj):
    """-> for each function, whether all finite cases agree"""
    good = {}
    for indexing, sizes in (('Lin', (1, 3)), ('charge', (2, 3)), ('sz', (2, 4)), ('ssq', (2, 4))):
        plain = [(indexing, n, ()) for n in sizes]
        cut = [] if indexing == 'ssq' else [(indexing, sizes[1], (2**sizes[1] - 1,)), (indexing, sizes[1], (1, 2**sizes[1] - 2))]
        jobs = [('construct_Ea_manybody', 'qmeq.qdot', energies, plain + cut), ('construct_full_pmtr', 'qmeq.leadstun', full, plain + cut)]
        for mod, name, kind in (('qmeq.leadstun', 'rotate_Tba', 'T'), ('qmeq.baths', 'elph_rotate_Vbbp', 'V')):
            jobs.append((name, mod, rotated, [c + (mod, name, kind) for c in plain + cut]))
        if indexing != 'ssq':
            jobs.append(('diagonalise', 'qmeq.qdot', diagonal, plain + cut))
        for name, mod, fn, cases in jobs:
            f = proj.find_func(mod, name) if name != 'diagonalise' else proj.lookup(proj.find_class(mod, 'QuantumDot'), name)
            good.setdefault(name, True)
            good[name] &= rep.guarded('%s, indexing %s, block by block' % (name, indexing), family, rep, proj, '%s, indexing %s, block by block' % (name, indexing),
                        'C21/%s/%s' % (name, indexing), fn, cases, f.where() if f is not None else mod) is True
    return good


def spin_rule(rep, proj):
    f = proj.find_func('qmeq.qdot', 'operator_ssquare')
    cases = [(n, c, sz) for n in (2, 4) for c in range(n + 1) for sz in range(-min(c, n - c), min(c, n - c) + 1, 2)]
    rep.guarded('operator_ssquare', family, rep, proj, 'operator_ssquare is the square of the spin', 'operator_ssquare', spin_square, cases, f.where() if f is not None else 'qmeq.qdot')
