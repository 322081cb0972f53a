"""C05, C06, C16: the index layout of the density matrix, and the objects that place kernel elements in it.

Every method is reduced to its effect summary; the summaries are evaluated over random finite layouts (several charge states, pairs excluded
by quantum numbers, multiplets sharing an index) and compared with each other (C05: Python against compiled; C06: matrix against matrix-free)
or with the invariants of a layout (C16)."""
import random
from .tables import coherences
from ..frontend import AnchorMissing
from ..engine import World, Engine, Effect, PathV, Loc, sym
from ..values import *
from .. import values as V
from ..model import Model, Unknown, Invalid, key
from ..compare import opaque_in, has_opaque, opaques, effpoly, names_of
from .laws import NotModelled, safe, wh
from .twins import tier_models

IDX = 'qmeq.indexing'
HPY = 'qmeq.approach.kernel_handler'
HCY = 'qmeq.approach.c_kernel_handler'
TABLES = {'lenlst', 'dictdm', 'shiftlst0', 'shiftlst1', 'mapdm0', 'booldm0', 'conjdm0', 'statesdm', 'statesdm_count', 'ind_qn', 'qn_ind'}


class LayoutModel(Model):
    """a random state space with its index tables, built from what the tables mean (not from the code)"""
    def __init__(self, seed, kind='DM', indexing='Lin', sorted_ids=False, no_coherences=False):
        rnd = random.Random(seed * 7919 + 13)
        Model.__init__(self, seed)
        self.kind, self.indexing = kind, indexing
        self.nocoh = no_coherences
        self.no_conjugates = kind != 'DMc'
        self.ncharge = 4
        rows, qn = [], {}
        ids = list(range(40))
        if not sorted_ids:
            rnd.shuffle(ids)
        for q in range(self.ncharge):
            row = []
            if indexing == 'ssq':
                fam = []
                for s in ([0], [1], [0, 2], [1])[q]:
                    for al in range(2 if rnd.random() < .7 else 1):
                        for sz in range(-s, s + 1, 2):
                            fam.append((sz, s, al))
                for sz, s, al in sorted(fam):
                    b = ids.pop(0)
                    row.append(b)
                    qn[b] = (q, sz, s, al)
            else:
                n = rnd.choice([1, 2, 3, 3]) if q not in (1, 2) else rnd.choice([2, 3])
                for i in range(n):
                    b = ids.pop(0)
                    row.append(b)
                    qn[b] = (q, rnd.choice([-1, 1]), i) if indexing == 'sz' else (q, i)
            rows.append(row)
        self.perm = list(range(40))
        rnd.shuffle(self.perm)
        self.rows = rows
        self.states = rows + [[]]
        self.qn = qn
        self.inv = {v: k for k, v in qn.items()}
        self.build()

    table = None
    kerntype = 'Redfield'

    def all_pairs(self):
        return Model.all_pairs(self) if self.table else []

    def sector(self, a, b):
        if self.kind == 'Pauli':
            return a == b
        if self.indexing == 'sz':
            return self.qn[a][1] == self.qn[b][1]
        if self.indexing == 'ssq':
            return self.qn[a][1:3] == self.qn[b][1:3]
        return True

    def fam(self, a, b):
        """pairs related by spin rotation carry the same matrix element"""
        if self.indexing == 'ssq':
            x, y = self.qn[a], self.qn[b]
            return (x[0], x[2], x[3], y[2], y[3])
        return (a, b)

    def build(self):
        pop, coh = {}, {}
        self.table = {}
        for q, r in enumerate(self.rows):
            for b in r:
                f = self.fam(b, b)
                new = f not in pop
                i = pop.setdefault(f, len(pop))
                self.table[(b, b, q)] = (i, new, True)
        n = len(pop)
        for q, r in enumerate(self.rows):
            for i, a in enumerate(r):
                for j, b in enumerate(r):
                    if i == j:
                        continue
                    if not self.sector(a, b):
                        self.table[(a, b, q)] = (-1, False, False)
                        continue
                    up = i < j
                    f = self.fam(a, b) if up or self.kind == 'DMc' else self.fam(b, a)
                    new = f not in coh
                    k = coh.setdefault(f, n + len(coh))
                    self.table[(a, b, q)] = (k, new and (up or self.kind == 'DMc'), up)
        self.npauli, self.ndm0 = n, n + len(coh)
        self.ndm0r = n + 2 * len(coh)
        self.ndm1 = sum(len(self.rows[q]) * len(self.rows[q + 1]) for q in range(self.ncharge - 1))
        self.lenlst = [len(r) for r in self.rows]
        w = (lambda x: x) if self.kind == 'Pauli' else (lambda x: x * x)
        self.shift0 = [sum(w(len(r)) for r in self.rows[:q]) for q in range(self.ncharge + 1)]
        self.shift1 = [sum(len(self.rows[k]) * len(self.rows[k + 1]) for k in range(q)) for q in range(self.ncharge)]
        self.charge = {b: q for q, r in enumerate(self.rows) for b in r}
        self.rank = {b: i for r in self.rows for i, b in enumerate(r)}
        self.flat = {self.dmflat(a, b, q): (a, b, q) for q, r in enumerate(self.rows) for a in r for b in (r if self.kind != 'Pauli' else [a])}
        self.bbp = [(a, b, q) for q, r in enumerate(self.rows) for i, a in enumerate(r) for b in (r[i:] if self.kind != 'DMc' else r)
                    if self.table[(a, b, q)][1] and not (self.nocoh and a != b)]
        self.ba = [(b, a, q) for q in range(self.ncharge - 1) for b in self.rows[q + 1] for a in self.rows[q]]

    def dmflat(self, a, b, q):
        if self.kind == 'Pauli':
            return self.rank[a] + self.shift0[q]
        return self.lenlst[q] * self.rank[a] + self.rank[b] + self.shift0[q]

    def get(self, a, b, q):
        if self.table is None:
            return (-1, False, False)
        if (a, b, q) not in self.table:
            return 7777, False, False       # a place of its own, which must not reach the result
        return self.table[(a, b, q)]

    def incl(self, a, b, q):
        return self.get(a, b, q)[0] >= 0

    def uniq(self, a, b, q):
        return self.get(a, b, q)[1]

    def dm0(self, a, b, q):
        return self.get(a, b, q)[0]

    SIZES = {'ncharge', 'npauli', 'ndm0', 'ndm0r', 'ndm1'}

    def symbol(self, n):
        leaf = n.split('.')[-1].rstrip("'")
        if leaf == 'kerntype':
            return 'str:' + self.kerntype
        if n == 'fn:__name__':
            return 'str:StateIndexing' + self.kind
        if n in self.force:
            return self.force[n]
        if leaf == 'indexing':
            return 'str:' + self.indexing
        if leaf in self.SIZES:
            return getattr(self, leaf)
        if leaf == 'ndm1_':
            return self.ndm1
        if leaf == 'ndm0_':
            return self.shift0[-1]
        if leaf == 'npauli_':
            return sum(self.lenlst)
        if leaf == 'nelements':
            return self.npauli if self.nocoh else self.ndm0
        if leaf in ('no_coherences', 'no_conjugates'):
            return int({'no_coherences': self.nocoh, 'no_conjugates': self.no_conjugates}[leaf])
        return Model.symbol(self, n)

    def bool_atom(self, a, env):
        s = S(a)
        if s[0] == 's':
            leaf = s[1].split('.')[-1]
            if leaf in ('no_coherences', 'no_conjugates') or leaf in self.SIZES:
                return bool(self.symbol(s[1]))
        if s[0] == 'call' and s[1] == 'isnone':
            return False
        return Model.bool_atom(self, a, env)

    def pick(self, t, i):
        i = self.int(i)
        if not 0 <= i < len(t):
            raise Invalid('index %d out of range' % i)
        return t[i]

    def ref(self, path, idx):
        leaf = path.split('.')[-1].rstrip("'")
        if leaf == 'states_order':
            return self.perm[self.int(idx[0])]
        if leaf not in TABLES or any(isinstance(i, str) for i in idx):
            return self.plain(path, idx)
        if leaf == 'ind_qn':
            q, i = self.qn[self.int(idx[0])], self.int(idx[1])
            return q[i] if 0 <= i < len(q) else int(4 * self.real('qn', q, i))
        if leaf == 'qn_ind':
            t = tuple(self.int(x) for x in (idx[0] if len(idx) == 1 and isinstance(idx[0], tuple) else idx))
            if t not in self.inv:
                raise Invalid('no such quantum numbers')
            return self.inv[t]
        if leaf == 'statesdm' and len(idx) == 2:
            return self.pick(self.row(idx[0]), idx[1])
        if leaf == 'statesdm_count':
            return len(self.pick(self.states, idx[0]))
        if leaf == 'dictdm':
            b = self.int(idx[0])
            if b not in self.rank:
                raise Invalid('state %d' % b)
            return self.rank[b]
        if leaf in ('lenlst', 'shiftlst0', 'shiftlst1'):
            return self.pick({'lenlst': self.lenlst, 'shiftlst0': self.shift0, 'shiftlst1': self.shift1}[leaf], idx[0])
        if leaf in ('mapdm0', 'booldm0', 'conjdm0'):
            i = self.int(idx[0])
            if i not in self.flat:
                raise Invalid('index %d out of range' % i)
            return int(self.table[self.flat[i]][('mapdm0', 'booldm0', 'conjdm0').index(leaf)])
        return self.plain(path, idx)

    def plain(self, path, idx):
        leaf = path.split('.')[-1].rstrip("'")
        if leaf == 'phi0' and len(idx) == 1:
            # an element outside of the array has a value of its own, so that it must not reach the result
            return self.real('phi0', self.int(idx[0]))
        return Model.ref(self, path, idx)

    def call(self, a, f, args):
        if f.endswith('.get_state'):
            return 1000 + self.int(args[0])
        if f == 'sum' and isinstance(args[0], int) and args[0] >= 1000:
            return self.charge[args[0] - 1000]
        if f == 'dmflat':
            return self.dmflat(*[self.int(x) for x in args])
        if f == 'conjd':
            return int(self.get(*[self.int(x) for x in args])[2])
        if f == 'dm1':
            c, b, q = [self.int(x) for x in args]
            if 0 <= q < self.ncharge - 1 and c in self.rows[q + 1] and b in self.rows[q]:
                return self.lenlst[q] * self.rank[c] + self.rank[b] + self.shift1[q]
            return 9999
        if f == 'phi0el':
            b, bp, q = [self.int(x) for x in args]
            i, u, cj = self.get(b, bp, q)
            if i == -1:
                return 0
            j = self.ndm0 + i - self.npauli
            if j < self.ndm0:
                return self.real('phi0', i)
            return complex(self.real('phi0', i), self.real('phi0', j) * (1 if cj else -1))
        return Model.call(self, a, f, args)


# -------------------------------------------------------------------------------- extraction
def summary(rep, world, mod, cls, meth, args, root='', no_inline=(), atoms=()):
    ci = world.proj.find_class(mod, cls)
    e = Engine(world, ci, atoms=set(atoms), no_inline=set(no_inline))
    r = e.run(meth, args, root=root)
    rep.count('methods summarised')
    if isinstance(r, PathV):
        r = e.readpath(r)
    if isinstance(r, Poly):
        e.effects.append(Effect('RET', (), '=', r, '%s.%s' % (cls, meth)))
    for nm, fn, where in sorted(set(e.undefined)):
        rep.finding('%s.%s/undefined/%s' % (cls, fn, nm), '%s.%s reads the name %s, which nothing defines' % (cls, fn, nm), [where], '')
    bad = opaque_in(e.effects)
    if bad:
        raise NotModelled(bad)
    return [x for x in e.effects if not isinstance(x.target, Loc)]


def known_names(effs, words):
    for t in sorted({e.target for e in effs}):
        p = effpoly([e for e in effs if e.target == t], t)
        o = has_opaque(p) or sorted(opaques(p))
        if o:
            raise NotModelled('%s: value not modelled: %s' % (t, o))
        calls, leaves = names_of(p)
        for n in calls:
            if n not in ('dmflat', 'isnone', 'dict'):
                raise NotModelled('function %s() is not interpreted' % n)
        for n in leaves:
            if n not in words and n not in V.KNOWN_LEAVES:
                raise NotModelled('quantity %s is not interpreted' % n)


def run_model(M, effs, force):
    M.force = force
    M.begin()
    M.work = 0
    return M.final(effs)


def norm(f, names=None):
    out = {}
    for t, cells in f.items():
        t = (names or {}).get(t, t)
        d = out.setdefault(t.split('.')[-1], {})
        for c, (o, v) in cells.items():
            if abs(v) > 1e-12 or o:
                d[c] = d.get(c, 0) + v
    return {t: {c: v for c, v in d.items()} for t, d in out.items() if d}


def differ(x, y):
    for t in sorted(set(x) | set(y)):
        a, b = x.get(t, {}), y.get(t, {})
        for c in sorted(set(a) | set(b), key=repr):
            u, w = a.get(c, 0), b.get(c, 0)
            if abs(u - w) > 1e-7 * (1 + abs(u) + abs(w)):
                return t, c, u, w
    return None


# ------------------------------------------------------------------------------ C05 methods
def cases(M, meth):
    """legal arguments of a handler method, as {parameter role: value}"""
    pairs = sorted(M.table)
    u = [p for p in pairs if M.table[p][1] and (p[0] == p[1] or M.table[p][2])]
    inc = [p for p in pairs if M.table[p][0] >= 0]
    rnd = random.Random(M.seed)
    if meth == 'set_energy':
        return [dict(energy=M.real('E', p), b=p[0], bp=p[1], bcharge=p[2]) for p in u if p[0] != p[1] or True]
    if meth == 'set_matrix_element':
        out = [dict(fct=M.cplx('f', p, r), b=p[0], bp=p[1], bcharge=p[2], a=r[0], ap=r[1], acharge=r[2]) for p in u for r in inc]
        return rnd.sample(out, min(len(out), 120))
    if meth == 'set_matrix_element_pauli':
        return [dict(fctm=M.real('m', i, j), fctp=M.real('p', i, j), bb=i, aa=j) for i in range(M.npauli) for j in range(M.npauli) if i != j][:40]
    if meth in ('get_phi0_element', 'is_included', 'is_unique', 'get_ind_dm0', 'get_ind_dm0_conj', 'get_ind_dm0_bool'):
        return [dict(b=p[0], bp=p[1], bcharge=p[2]) for p in pairs]
    if meth == 'get_ind_dm1':
        return [dict(b=b, a=a, acharge=q) for b, a, q in M.ba]
    if meth == 'set_matrix_element_dd':
        return [dict(l=l, fctm=M.real('m', i, j), fctp=M.real('p', i, j), bb=i, aa=j) for l in (0, 1) for i in range(M.npauli) for j in range(M.npauli) if i != j][:40]
    if meth == 'add_element_2nd_order':
        d = [p for p in inc if p[0] == p[1]]
        out = [dict(l=1, fct=M.real('f', i, j), indx0=i, indx1=j, a3=p[0], charge3=p[2], a4=r[0], charge4=r[2])
               for i in range(M.npauli) for j in range(M.npauli) for p in d for r in d]
        return rnd.sample(out, min(len(out), 60))
    if meth in ('dn', 'nd', 'nn'):
        d = [p for p in inc if p[0] == p[1]]
        n = [p for p in inc if p[0] != p[1]]
        out = [(p, r) for p in (d if meth == 'dn' else n) for r in (n if meth == 'dn' else d)] if meth != 'nn' else [(p, p) for p in n]
        out = [dict(fct=M.real('f', p, r), l=0 if meth == 'nn' else 1, b=p[0], bp=p[1], bcharge=p[2], a=r[0], ap=r[1], acharge=r[2]) for p, r in out]
        return rnd.sample(out, min(len(out), 80))
    return [{}]


WORDS = TABLES | {'phi0', 'kern', 'dphi0_dt', 'mats', 'Wdd', 'Wdd2', 'WE1', 'WE2', 'ReWdn', 'ImWdn', 'ReWnd', 'ImWnd', 'Lnn', 'npauli', 'ndm0',
                  'ndm0r', 'ndm1', 'ncharge', 'TGT', 'SET', 'no_coherences', 'no_conjugates', 'all_bbp', 'all_ba', 'nelements'}


def roles(fn, names):
    """symbols for the parameters, by position"""
    return [sym(n) for n in names]


SIG = {'set_energy': ['energy', 'b', 'bp', 'bcharge'], 'set_matrix_element': ['fct', 'b', 'bp', 'bcharge', 'a', 'ap', 'acharge'],
       'set_matrix_element_pauli': ['fctm', 'fctp', 'bb', 'aa'], 'get_phi0_element': ['b', 'bp', 'bcharge'], 'is_included': ['b', 'bp', 'bcharge'],
       'is_unique': ['b', 'bp', 'bcharge'], 'get_phi0_norm': []}


def twin(rep, world, cls, meth, n):
    name = '%s.%s' % (cls, meth)
    args = [sym(a) for a in SIG[meth]]
    p = summary(rep, world, HPY, cls, meth, args)
    c = summary(rep, world, HCY, cls, meth, args)
    compare(rep, name, p, c, meth, n)


def compare(rep, name, p, c, meth, n, names=(None, None), kinds=None, drop=None):
    known_names(p + c, WORDS)
    total = 0
    for k in range(n):
        for kind, indexing in (kinds or KINDS):
            M = LayoutModel(3 + k, kind, indexing, sorted_ids=(k % 2 == 1) or bool(drop))
            for f in cases(M, meth):
                x, y = Invalid, Invalid
                try:
                    x = norm(run_model(M, p, f), names[0])
                except Invalid as ex:
                    x = str(ex)
                try:
                    y = norm(run_model(M, c, f), names[1])
                except Invalid as ex:
                    y = str(ex)
                if drop:
                    x, y = drop(x), drop(y)
                total += 1
                bad = None
                if isinstance(x, str) or isinstance(y, str):
                    bad = 'Python: %s; compiled: %s' % (x, y)
                else:
                    d = differ(x, y)
                    if d:
                        bad = '%s%s is changed by %r in Python and by %r compiled' % (d[0], list(d[1]), d[2], d[3])
                if bad:
                    rep.finding('C05/%s' % name, '%s: the compiled and the Python version disagree' % name, wh(p) + wh(c),
                                'arguments %s of a %s layout (%s indexing): %s' % (sorted(f.items()), kind, indexing, bad[:600]))
                    return
    if not total:
        raise NotModelled('no legal arguments')
    rep.count('argument tuples', total)
    rep.ok(name, '%d argument tuples' % total)


KINDS = [('DM', 'Lin'), ('DM', 'sz'), ('DM', 'ssq')]
MATS = ['Wdd', 'WE1', 'WE2', 'ReWdn', 'ImWdn', 'ReWnd', 'ImWnd', 'Lnn']


def mats_order(rep, world):
    """the names listed by set_matrix_list"""
    import ast
    ci = world.proj.find_class(HPY, 'KernelHandlerRTD')
    f = world.proj.lookup(ci, 'set_matrix_list')
    if f is None:
        raise AnchorMissing('KernelHandlerRTD.set_matrix_list')
    for n in ast.walk(f.node):
        if isinstance(n, (ast.List, ast.Tuple)) and isinstance(n.ctx, ast.Load) and n.elts and all(isinstance(x, ast.Attribute) for x in n.elts):
            return [x.attr for x in n.elts]
    raise NotModelled('the list of matrices is not a list display')


def rtd(rep, world, n):
    order = mats_order(rep, world)
    ident = lambda k: (lambda c: c)

    def named(f, mi):
        # mats[mi][...] -> the matrix listed at that position
        out = {}
        if isinstance(f, str):
            return f
        for t, d in f.items():
            for c, v in d.items():
                tt, cc = t, c
                if t == 'mats':
                    tt, cc = order[c[0]], c[1:]
                if tt == 'Wdd2':
                    tt, cc = 'Wdd', cc[1:]
                if tt in ('ReWnd', 'ImWnd') and len(cc) == 3:
                    cc = cc[1:]            # not lead resolved in the compiled version
                if tt == 'Lnn' and len(cc) > 1:
                    cc = cc[-1:] if len(set(cc[-2:])) == 1 else cc
                out.setdefault(tt, {})
                out[tt][cc] = out[tt].get(cc, 0) + v
        return out
    for mi in range(3):
        a = [sym('l'), sym('fctm'), sym('fctp'), sym('bb'), sym('aa'), Poly.const(mi)]
        nm = 'KernelHandlerRTD.set_matrix_element_dd[%s]' % MATS[mi]
        safe(rep, nm, lambda a=a, nm=nm: compare(rep, nm, summary(rep, world, HPY, 'KernelHandlerRTD', 'set_matrix_element_dd', a),
                                                 summary(rep, world, HCY, 'KernelHandlerRTD', 'set_matrix_element_dd', a), 'set_matrix_element_dd', n,
                                                 drop=lambda f, mi=mi: named(f, mi)))
    for mi, what in ((3, 'dn'), (4, 'dn'), (5, 'nd'), (6, 'nd')):
        a = [sym(x) for x in ('fct', 'l', 'b', 'bp', 'bcharge', 'a', 'ap', 'acharge')] + [Poly.const(mi)]
        nm = 'KernelHandlerRTD.add_matrix_element[%s]' % MATS[mi]
        safe(rep, nm, lambda a=a, nm=nm, what=what, mi=mi: compare(
            rep, nm, summary(rep, world, HPY, 'KernelHandlerRTD', 'add_matrix_element', a),
            summary(rep, world, HCY, 'KernelHandlerRTD', 'add_matrix_element', a), what, n, drop=lambda f: named(f, mi)))
    a = [sym(x) for x in ('fct', 'l', 'b', 'bp', 'bcharge', 'a', 'ap', 'acharge')] + [Poly.const(7)]
    safe(rep, 'Lnn', lambda: compare(rep, 'KernelHandlerRTD.add_element_Lnn', summary(rep, world, HPY, 'KernelHandlerRTD', 'add_element_Lnn', [sym('b'), sym('bp'), sym('bcharge'), sym('fct')]),
                                     summary(rep, world, HCY, 'KernelHandlerRTD', 'add_matrix_element', a), 'nn', n, drop=lambda f: named(f, 7)))
    a = [sym(x) for x in ('l', 'fct', 'indx0', 'indx1', 'a3', 'charge3', 'a4', 'charge4')]
    safe(rep, 'second order', lambda: compare(rep, 'KernelHandlerRTD.add_element_2nd_order', summary(rep, world, HPY, 'KernelHandlerRTD', 'add_element_2nd_order', a),
                                              summary(rep, world, HCY, 'KernelHandlerRTD', 'add_element_2nd_order', [Poly.const(0)] + a), 'add_element_2nd_order', n, drop=lambda f: named(f, 0)))


def index_formulas(rep, world, n):
    """the compiled index functions and the Python ones name the same element"""
    for cls in ('StateIndexingDM', 'StateIndexingDMc'):
        kind = cls[len('StateIndexing'):]
        for meth, mt in (('get_ind_dm0', 1), ('get_ind_dm0_bool', 2), ('get_ind_dm0_conj', 3)):
            if kind == 'DMc' and mt == 3:
                continue

            def go(meth=meth, mt=mt, cls=cls, kind=kind):
                p = summary(rep, world, IDX, cls, 'get_ind_dm0', [sym('b'), sym('bp'), sym('bcharge'), Poly.const(mt)], root='si')
                c = summary(rep, world, HCY, 'KernelHandler', meth, [sym('b'), sym('bp'), sym('bcharge')])
                compare(rep, '%s.get_ind_dm0(maptype=%d) / KernelHandler.%s' % (cls, mt, meth), p, c, meth, n, kinds=[(kind, 'Lin'), (kind, 'sz'), (kind, 'ssq')])
            safe(rep, '%s %s' % (cls, meth), go)

        def go1(cls=cls, kind=kind):
            p = summary(rep, world, IDX, cls, 'get_ind_dm1', [sym('b'), sym('a'), sym('acharge')], root='si')
            c = summary(rep, world, HCY, 'KernelHandler', 'get_ind_dm1', [sym('b'), sym('a'), sym('acharge')])
            compare(rep, '%s.get_ind_dm1 / KernelHandler.get_ind_dm1' % cls, p, c, 'get_ind_dm1', n, kinds=[(kind, 'Lin')])
        safe(rep, '%s get_ind_dm1' % cls, go1)


def setter(rep, world, cls, meth, attr):
    """the array handed to the handler is the one its methods write"""
    for mod in (HPY, HCY):
        e = summary(rep, world, mod, cls, meth, [sym('SET')])
        M = LayoutModel(3)
        if {t: {c: v for c, (o, v) in d.items()} for t, d in run_model(M, e, {}).items()} != {attr: {(): M.symbol('SET')}}:
            rep.finding('C05/%s.%s' % (cls, meth), '%s.%s does not make the given array the one the handler works on' % (cls, meth), wh(e) or [mod], repr([(x.target, x.val) for x in e]))
            return
    rep.ok('%s.%s stores the array' % (cls, meth))


def tables(rep, world, n):
    """the compiled lists of elements name exactly the elements the Python loops visit"""
    def go():
        e1 = summary(rep, world, HCY, 'KernelHandler', 'set_all_bbp', [])
        e2 = summary(rep, world, HCY, 'KernelHandler', 'set_all_ba', [])
        known_names(e1 + e2, WORDS)
        tot = 0
        for k in range(n):
            for kind, indexing in KINDS + [('DMc', 'Lin'), ('DMc', 'sz')]:
                for nocoh in (False, True):
                    M = LayoutModel(3 + k, kind, indexing, no_coherences=nocoh)
                    for effs, t, want in ((e1, 'all_bbp', M.bbp), (e2, 'all_ba', M.ba)):
                        f = run_model(M, effs, {})
                        rows = {}
                        for tt, d in f.items():
                            if tt.split('.')[-1] == t:
                                for c, (o, v) in d.items():
                                    if c:
                                        rows.setdefault(c[0], {})[c[1]] = M.int(v)
                        got = [tuple(rows[i].get(j, 0) for j in range(3)) for i in sorted(rows)]
                        tot += len(want)
                        if sorted(rows) != list(range(len(rows))) or sorted(got) != sorted(want):
                            miss = [x for x in want if x not in got]
                            extra = [x for x in got if x not in want] or [x for x in got if got.count(x) > 1]
                            rep.finding('C05/%s' % t, 'KernelHandler.%s does not list exactly the elements the Python loops visit' % t, wh(effs),
                                        '%s layout, %s indexing: missing %s, superfluous or repeated %s, rows %s' % (kind, indexing, miss[:4], extra[:4], sorted(rows)[:12]))
                            return
        rep.count('table rows', tot)
        rep.ok('KernelHandler.all_bbp and all_ba list exactly the unique pairs and the neighbouring pairs', '%d rows' % tot)
    safe(rep, 'element lists', go)

    def go2():
        e = summary(rep, world, HCY, 'KernelHandler', 'set_statesdm', [PathV('si')])
        known_names(e, WORDS)
        for k in range(n):
            M = LayoutModel(3 + k, 'DM', 'Lin')
            M.force = {}
            f = norm(run_model(M, e, {}))
            for q, r in enumerate(M.states):
                got = [M.int(f.get('statesdm', {}).get((q, j), -7)) for j in range(len(r))]
                cnt = M.int(f.get('statesdm_count', {}).get((q,), 0))
                if got != r or cnt != len(r):
                    rep.finding('C05/statesdm', 'KernelHandler.statesdm is not a copy of the states of the index', wh(e), 'charge %d: %s (%d) instead of %s' % (q, got, cnt, r))
                    return
        rep.ok('KernelHandler.statesdm copies the states of the index')
    safe(rep, 'statesdm', go2)


def copies(rep, world):
    """every attribute the compiled handler copies from the index keeps its name and meaning"""
    import ast
    ci = world.proj.find_class(HCY, 'KernelHandler')
    f = world.proj.lookup(ci, '__init__')
    if f is None:
        raise AnchorMissing('KernelHandler.__init__')
    got = {}
    par = f.args[1]
    for s in ast.walk(f.node):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute) and isinstance(s.value, ast.Attribute) \
                and isinstance(s.value.value, ast.Name) and s.value.value.id == par:
            got[s.targets[0].attr] = (s.value.attr, s.lineno)
    if not got:
        raise NotModelled('no attribute is copied from the index')
    known = {'ndm0', 'ndm0r', 'ndm1', 'npauli', 'ncharge', 'lenlst', 'dictdm', 'shiftlst0', 'shiftlst1', 'mapdm0', 'booldm0', 'conjdm0', 'nmany', 'nleads', 'nbaths'}
    for a in sorted(known & set(got)):
        src, line = got[a]
        if src != a:
            rep.finding('C05/copy/%s' % a, 'KernelHandler.%s is not the %s of the index' % (a, a), ['%s:%d' % (f.module.relpath, line)], 'it is %s.%s' % (par, src))
        else:
            rep.ok('KernelHandler.%s is the index attribute of that name' % a)
    for mod, cls in ((HPY, 'KernelHandler'),):
        c2 = world.proj.find_class(mod, cls)
        f2 = world.proj.lookup(c2, '__init__')
        for s in ast.walk(f2.node):
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Attribute) and isinstance(s.value, ast.Attribute) and s.targets[0].attr in known \
                    and isinstance(s.value.value, ast.Name) and s.value.value.id == f2.args[1] and s.value.attr != s.targets[0].attr:
                rep.finding('C05/copy-python/%s' % s.targets[0].attr, 'Python KernelHandler.%s is not the attribute of the index' % s.targets[0].attr,
                            ['%s:%d' % (f2.module.relpath, s.lineno)], s.value.attr)


def attributes(rep, project, mod, cls, skip=()):
    """every attribute a handler reads is set when it is made"""
    import ast
    ci = project.find_class(mod, cls)
    made, read = set(), {}
    seen = set()

    def scan(fn):
        if fn in seen:
            return
        seen.add(fn)
        me = fn.args[0] if fn.args else 'self'
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
                if isinstance(n.ctx, ast.Store):
                    made.add(n.attr)
                elif n.attr not in read:
                    read[n.attr] = '%s:%d' % (fn.module.relpath, n.lineno)
    for c in project.mro(ci):
        for m in c.methods.values():
            scan(m)
        made |= set(c.methods) | set(c.cattrs)
    for m in project.modules.values():
        for f in list(m.functions.values()) + [f for c in m.classes.values() for f in c.methods.values()]:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and f.args and n.value.id == f.args[0]):
                    made.add(n.attr)           # set from outside, e.g. by the approach that owns the handler
    for a in sorted(set(read) - made - set(skip)):
        rep.finding('C05/%s.%s' % (cls, a), '%s reads the attribute %s, which nothing sets' % (cls, a), [read[a]], '')
    rep.ok('%s: every attribute read is set' % cls, '%d attributes' % len(read))


def c05(rep, project, tier):
    w = World(project)
    for mod in (HPY, HCY):
        for cls in ('KernelHandler', 'KernelHandlerMatrixFree', 'KernelHandlerRTD'):
            safe(rep, '%s %s attributes' % (mod, cls), attributes, rep, project, mod, cls)
    n = 2 if tier == 'quick' else 8
    for cls, meths in (('KernelHandler', ('set_energy', 'set_matrix_element', 'set_matrix_element_pauli', 'get_phi0_element', 'is_included', 'is_unique')),
                       ('KernelHandlerMatrixFree', ('set_energy', 'set_matrix_element', 'set_matrix_element_pauli', 'get_phi0_element', 'get_phi0_norm'))):
        for m in meths:
            safe(rep, '%s.%s' % (cls, m), twin, rep, w, cls, m, n)
    for cls, m, attr in (('KernelHandler', 'set_kern', 'kern'), ('KernelHandler', 'set_phi0', 'phi0'), ('KernelHandlerMatrixFree', 'set_dphi0_dt', 'dphi0_dt'),
                         ('KernelHandlerMatrixFree', 'set_phi0', 'phi0')):
        safe(rep, '%s.%s' % (cls, m), setter, rep, w, cls, m, attr)
    rtd(rep, w, n)
    index_formulas(rep, w, n)
    tables(rep, w, n)
    safe(rep, 'copied attributes', copies, rep, w)
    rep.assume('set_matrix_element and set_energy are called for unique pairs (b, b\') and included pairs (a, a\'), as the approaches guard them')
    rep.assume('RTD stores states of equal charge in increasing order of their index')


# -------------------------------------------------------------------------------------- C16
SIZES = ('npauli', 'ndm0', 'ndm0r', 'ndm1', 'npauli_', 'ndm0_', 'ndm1_')
W16 = TABLES | set(SIZES) | {'inddm0', 'states_changed', 'ncharge', 'indexing', 'chargelst', 'nmany', 'phi0', 'phi1', 'TGT', 'SET'}


class Broken(Exception):
    pass


def cells(f, name):
    return {c: v for t, d in f.items() if t.split('.')[-1] == name for c, (o, v) in d.items()}


def one(f, name):
    d = cells(f, name)
    if () not in d:
        raise Broken('%s is not set' % name)
    return d[()]


def check_layout(M, f):
    """the invariants of a layout; raises Broken"""
    mp, bo, cj, ind = (cells(f, x) for x in ('mapdm0', 'booldm0', 'conjdm0', 'inddm0'))
    for nm, d, v in (('mapdm0', mp, -1), ('booldm0', bo, 0)) + ((('conjdm0', cj, 0),) if M.kind == 'DM' else ()):
        if abs(d.get((), 7) - v) > 1e-9:
            raise Broken('%s does not start from an array filled with %d' % (nm, v))
    get = lambda d, p, dflt: M.int(d.get((M.dmflat(*p),), dflt))
    pairs = sorted(M.table, key=lambda p: M.dmflat(*p))
    if M.kind == 'Pauli':
        pairs = [p for p in pairs if p[0] == p[1]]
    for c in set(mp) | set(bo) | set(cj):
        if c and c[0] not in M.flat:
            raise Broken('element %s outside of the tables is written' % (c,))
    npauli, sizes = M.int(one(f, 'npauli')), {}
    idx = {p: get(mp, p, -1) for p in pairs}
    uni = {p: bool(get(bo, p, 0)) for p in pairs}
    conj = {p: bool(get(cj, p, 0)) for p in pairs}
    want = {p: M.table[p] for p in pairs}
    for p in pairs:
        if (idx[p] == -1) != (want[p][0] == -1):
            raise Broken('the pair %s, %s of charge %d is %s' % (p + ('left out' if idx[p] == -1 else 'given the place %d' % idx[p] + ', although its matrix element vanishes by symmetry',)))
        if idx[p] == -1 and uni[p]:
            raise Broken('the excluded pair %s is marked as unique' % (p,))
    inc = [p for p in pairs if idx[p] != -1]
    # same place exactly for the same matrix element
    a, b = {}, {}
    for p in inc:
        i, j = idx[p], want[p][0]
        if a.setdefault(i, j) != j or b.setdefault(j, i) != i:
            raise Broken('pair %s: the place %d is %s' % (p, i, 'shared with a different matrix element' if a[i] != j else 'different from that of the same matrix element'))
    diag = {idx[p] for p in inc if p[0] == p[1]}
    off = {idx[p] for p in inc if p[0] != p[1]}
    if diag != set(range(npauli)):
        raise Broken('the populations occupy %s, not 0..%d' % (sorted(diag), npauli - 1))
    if M.kind != 'Pauli':
        ndm0 = M.int(one(f, 'ndm0'))
        if off != set(range(npauli, ndm0)):
            raise Broken('the coherences occupy %s, not %d..%d' % (sorted(off), npauli, ndm0 - 1))
        if M.int(one(f, 'ndm0r')) != npauli + 2 * (ndm0 - npauli):
            raise Broken('ndm0r = %d for %d populations and %d coherences' % (M.int(one(f, 'ndm0r')), npauli, ndm0 - npauli))
        x = one(f, 'ndm1')
        if M.int(x) != M.ndm1:
            raise Broken('ndm1 = %s instead of %d' % (x, M.ndm1))
    reps = {}
    for p in inc:
        if uni[p]:
            if idx[p] in reps:
                raise Broken('place %d has two unique pairs %s and %s' % (idx[p], reps[idx[p]], p))
            reps[idx[p]] = p
    for i in diag | off:
        if i not in reps:
            raise Broken('place %d has no unique pair' % i)
    for i, p in reps.items():
        if M.kind == 'DM' and p[0] != p[1] and not M.table[p][2]:
            raise Broken('the unique pair %s is stored against the order of the state list' % (p,))
        if M.kind != 'Pauli' and (i,) not in ind:
            raise Broken('inddm0 does not know place %d' % i)
    if M.kind != 'Pauli':
        back = {}
        for p in inc:
            back.setdefault(idx[p], []).append(M.cplx('tuple', (p[0], p[1])))
        for c, v in ind.items():
            if c and not any(abs(x - v) < 1e-9 for x in back.get(c[0], ())):
                raise Broken('inddm0[%s] is not a pair stored there' % (c[0],))
    if M.kind == 'DM':
        for p in inc:
            q = (p[1], p[0], p[2])
            if p[0] == p[1]:
                continue
            if conj[p] == conj[q]:
                raise Broken('both orders of the pair %s are stored as %s' % (p, 'conjugated' if not conj[p] else 'themselves'))
        for i, p in reps.items():
            if not conj[p]:
                raise Broken('the imaginary part of the unique pair %s is stored negated' % (p,))
        # one orientation per family
        for p in inc:
            if p[0] != p[1] and M.fam(*p[:2]) == M.fam(*reps[idx[p]][:2]) and not conj[p]:
                raise Broken('pair %s has the sign of its conjugate' % (p,))


def check_tables(M, f):
    for nm, true, lo in (('shiftlst0', M.shift0, 1), ('shiftlst1', M.shift1, 1), ('lenlst', M.lenlst, 0)):
        if M.kind == 'Pauli' and nm != 'shiftlst0':
            continue
        d = cells(f, nm)
        got = {c[0]: M.int(v) for c, v in d.items() if c}
        for i in range(lo, len(true)):
            if i not in got:
                raise Broken('%s[%d] is not set' % (nm, i))
        for i, v in got.items():
            if not 0 <= i < len(true) or v != true[i]:
                raise Broken('%s[%d] = %d instead of %s' % (nm, i, v, true[i] if 0 <= i < len(true) else 'nothing'))
    got = {c[0]: M.int(v) for c, v in cells(f, 'dictdm').items() if c}
    if got != {b: i for b, i in M.rank.items()} and any(got.get(b, 0) != i for b, i in M.rank.items()):
        raise Broken('dictdm does not hold the position of every state')
    if M.int(one(f, 'npauli_')) != sum(M.lenlst):
        raise Broken('npauli_ is not the number of states')
    if M.kind != 'Pauli':
        if M.int(one(f, 'ndm0_')) != M.shift0[-1]:
            raise Broken('ndm0_ is not the number of pairs')
        if M.int(one(f, 'ndm1_')) != M.ndm1:
            raise Broken('ndm1_ is not the number of neighbouring pairs')


def summary16(rep, w, cls, meth, args, drop=('statesdm',)):
    e = summary(rep, w, IDX, cls, meth, args, root='si')
    return [x for x in e if x.target.split('.')[-1] not in drop]


def layout_one(rep, w, cls, n):
    kind = cls[len('StateIndexing'):]
    effs = summary16(rep, w, cls, 'set_statesdm', [PathV('si.statesdm')])
    known_names(effs, W16)
    tot = 0
    for k in range(n):
        for indexing in ('Lin', 'sz', 'ssq'):
            M = LayoutModel(11 + k, kind, indexing, sorted_ids=k % 2 == 1)
            try:
                f = run_model(M, effs, {})
                check_tables(M, f)
                check_layout(M, f)
            except (Broken, Invalid) as ex:
                rep.finding('C16/%s' % cls, '%s: the index tables of the density matrix are inconsistent' % cls, wh(effs),
                            '%s indexing, states per charge %s: %s' % (indexing, M.rows, ex))
                return
            tot += len(M.table)
    rep.count('pairs of states', tot)
    rep.ok('%s.set_statesdm/set_dictdm/set_mapdm establish a consistent layout' % cls, '%d pairs' % tot)


def index_one(rep, w, cls, n):
    kind = cls[len('StateIndexing'):]
    S3 = [sym('b'), sym('bp'), sym('bcharge')]
    for mt in range(4 if kind == 'DM' else 3):
        e = summary(rep, w, IDX, cls, 'get_ind_dm0', S3 + [Poly.const(mt)], root='si')
        known_names(e, W16)
        for k in range(n):
            M = LayoutModel(11 + k, kind, ('Lin', 'sz', 'ssq')[k % 3])
            for p in sorted(M.table):
                if kind == 'Pauli' and p[0] != p[1]:
                    continue
                want = M.dmflat(*p) if mt == 0 else int(M.table[p][mt - 1])
                try:
                    got = cells(run_model(M, e, dict(b=p[0], bp=p[1], bcharge=p[2])), 'RET').get((), 0)
                except Invalid as ex:
                    got = None
                if got is None or abs(got - want) > 1e-9:
                    rep.finding('C16/%s.get_ind_dm0[%d]' % (cls, mt), '%s.get_ind_dm0(maptype=%d) does not read the entry of the pair' % (cls, mt), wh(e),
                                'pair %s: %s instead of %s' % (p, got, want))
                    return
    rep.ok('%s.get_ind_dm0 reads the entry of the pair for every map type' % cls)
    if kind != 'Pauli':
        e = summary(rep, w, IDX, cls, 'get_ind_dm1', [sym('b'), sym('a'), sym('acharge')], root='si')
        known_names(e, W16)
        for k in range(n):
            M = LayoutModel(11 + k, kind, 'Lin')
            seen = set()
            for b, a, q in M.ba:
                got = M.int(cells(run_model(M, e, dict(b=b, a=a, acharge=q)), 'RET').get((), 0))
                if got in seen or not 0 <= got < M.ndm1:
                    rep.finding('C16/%s.get_ind_dm1' % cls, '%s.get_ind_dm1 gives two pairs the same place or leaves the array' % cls, wh(e), 'pair %s: %d of %d' % ((b, a, q), got, M.ndm1))
                    return
                seen.add(got)
        rep.ok('%s.get_ind_dm1 numbers the neighbouring pairs without gap' % cls)


BUILDER = 'qmeq.builder.builder_base'


def readers(rep, w, n):
    """get_phi0 and get_phi1 of the builder read the element the layout assigns to the pair"""
    e0 = builder_summary(rep, w, 'get_phi0', [sym('b'), sym('bp')])
    e1 = builder_summary(rep, w, 'get_phi1', [sym('l'), sym('c'), sym('b')])
    tot = 0
    for k in range(n):
        for kind, indexing, kt in (('DM', 'Lin', 'Redfield'), ('DM', 'ssq', 'Redfield'), ('DM', 'sz', '1vN'), ('DMc', 'Lin', '2vN'), ('DM', 'Lin', 'Pauli'), ('DM', 'Lin', 'pyPauli')):
            M = LayoutModel(21 + k, kind, indexing, sorted_ids=k % 2 == 1)
            M.kerntype = kt
            label = {b: i for i, b in enumerate(M.perm)}
            ids = [b for r in M.rows for b in r]
            # states which are not used have quantum numbers but no place in the tables
            gone = [x for x in M.perm if x not in M.charge][:2]
            for j, b in enumerate(gone):
                M.charge[b] = j + 1
                M.qn[b] = (j + 1, 1, 5, 5)[:len(M.qn[ids[0]])]
            for b in ids + gone:
                for bp in ids + gone:
                    q, qp = M.charge[b], M.charge[bp]
                    want = 0
                    unused = b in gone or bp in gone
                    if unused:
                        pass
                    elif q == qp and (b == bp or 'Pauli' not in kt):
                        if kind == 'DMc':
                            i = M.table[(b, bp, q)][0]
                            want = M.real('phi0', i) if i >= 0 else 0
                        else:
                            want = M.call(None, 'phi0el', (b, bp, q))
                    got = cells(run_model(M, e0, dict(b=label[b], bp=label[bp])), 'RET').get((), 0)
                    tot += 1
                    if abs(got - want) > 1e-9:
                        rep.finding('C16/get_phi0', 'Builder.get_phi0 does not read the element of the pair of states', wh(e0),
                                    '%s layout, %s, pair of states %s, %s: %s instead of %s' % (kind, kt, b, bp, got, want))
                        return
                    if 'Pauli' in kt:
                        continue
                    want = 0
                    if unused:
                        pass
                    elif q == qp + 1:
                        want = M.ref('phi1', (1, M.call(None, 'dm1', (b, bp, qp))))
                    elif qp == q + 1:
                        want = complex(M.ref('phi1', (1, M.call(None, 'dm1', (bp, b, q))))).conjugate()
                    got = cells(run_model(M, e1, dict(l=1, c=label[b], b=label[bp])), 'RET').get((), 0)
                    if abs(got - want) > 1e-9:
                        rep.finding('C16/get_phi1', 'Builder.get_phi1 does not read the element of the pair of states', wh(e1),
                                    'pair of states %s, %s: %s instead of %s' % (b, bp, got, want))
                        return
    rep.count('elements read', tot)
    rep.ok('get_phi0 and get_phi1 read the element of the pair, conjugated where it is stored conjugated', '%d elements' % tot)


def builder_summary(rep, w, meth, args):
    ci = w.proj.find_class(BUILDER, 'BuilderBase')
    e = Engine(w, ci)
    r = e.run(meth, args)
    rep.count('methods summarised')
    if isinstance(r, (Poly, PathV)):
        e.effects.append(Effect('RET', (), '=', e.readpath(r) if isinstance(r, PathV) else r, 'BuilderBase.' + meth))
    bad = opaque_in(e.effects)
    if bad:
        raise NotModelled(bad)
    return [x for x in e.effects if not isinstance(x.target, Loc)]


def excluded(rep, w):
    """wherever an element is marked as absent, it also stops being the unique element of its place"""
    ci = w.proj.find_class(BUILDER, 'BuilderBase')
    e = Engine(w, ci)
    e.run('remove_coherences', [sym('dE')])
    rep.count('methods summarised')
    n = 0
    effs = [x for x in e.effects if not isinstance(x.target, Loc)]
    for x in effs:
        if x.target.split('.')[-1] != 'mapdm0' or x.op != '=' or x.val != Poly.const(-1) or not x.idx:
            continue
        n += 1
        if not any(y.target.split('.')[-1] == 'booldm0' and y.op == '=' and y.val == Poly() and y.idx == x.idx and y.guard == x.guard and y.binders == x.binders for y in effs):
            rep.finding('C16/remove_coherences', 'an element is marked as absent (mapdm0 = -1) but stays the unique element of its place', [str(x.where)],
                        'no matching booldm0 = False')
            return
    if not n:
        raise NotModelled('no element is marked as absent')
    sizes = {x.target.split('.')[-1] for x in effs}
    for s in ('ndm0', 'ndm0r', 'inddm0'):
        if s not in sizes:
            rep.finding('C16/remove_coherences/' + s, 'remove_coherences renumbers the elements without updating %s' % s, wh(effs), '')
            return
    p = [x for x in effs if x.target.split('.')[-1] == 'ndm0r'][-1].val
    d = [x for x in effs if x.target.split('.')[-1] == 'ndm0'][-1].val
    if not (p - d * Poly.const(2) + sym('si.npauli')).t:
        rep.ok('remove_coherences: absent elements are not unique, ndm0r counts two reals for each kept coherence')
    else:
        rep.finding('C16/remove_coherences/size', 'remove_coherences: ndm0r is not npauli + 2 (ndm0 - npauli)', wh(effs), '')


def c16(rep, project, tier):
    w = World(project)
    n = 3 if tier == 'quick' else 12
    for cls in ('StateIndexingPauli', 'StateIndexingDM', 'StateIndexingDMc'):
        safe(rep, cls, layout_one, rep, w, cls, n)
        safe(rep, cls + ' index functions', index_one, rep, w, cls, n)
    safe(rep, 'get_phi0 / get_phi1', readers, rep, w, 1 if tier == 'quick' else 4)
    safe(rep, 'remove_coherences', excluded, rep, w)
    rep.guarded('tables after remove_coherences', coherences, rep, project)
