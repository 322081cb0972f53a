"""C15: fermion signs, Hermiticity and spin copies.

Every construction is read as (guards, matrix element, value) for one arbitrary many-body state and one arbitrary parameter. Guards, element and sign
are then evaluated in the domain of occupation patterns: the levels an operator acts on are 0 or 1, all levels between them stay an unknown whose parity
is carried as an affine form, so that the comparison with the operator product holds for any number of levels."""
import ast
import itertools
from ..frontend import AnchorMissing
from .blocks import spin_rule
from ..terms import Reader, TooMany
from .basis import fn_of


class Unk(Exception):
    pass


class Lin(object):
    """integer c + sum of unknown integers"""
    def __init__(self, c, unk):
        self.c, self.unk = c, dict((k, v) for k, v in unk.items() if v)

    def add(self, o, s=1):
        o = o if isinstance(o, Lin) else Lin(o, {})
        u = dict(self.unk)
        for k, v in o.unk.items():
            u[k] = u.get(k, 0) + s * v
        return Lin(self.c + s * o.c, u)

    def times(self, k):
        return Lin(self.c * k, {a: v * k for a, v in self.unk.items()})

    def parity(self):
        return self.c % 2, frozenset(k for k, v in self.unk.items() if v % 2)


class Par(object):
    """0 or 1: the parity of an affine form"""
    def __init__(self, c, s):
        self.c, self.s = c % 2, s


class Val(object):
    """factor * (-1)^(unknown parities) * amplitude"""
    def __init__(self, k, signs=frozenset(), amp=None, conj=False):
        self.k, self.signs, self.amp, self.conj = k, signs, amp, conj

    def key(self):
        return (self.k, tuple(sorted(self.signs)), self.amp, self.conj)


def val(x):
    if isinstance(x, Val):
        return x
    if isinstance(x, bool) or not isinstance(x, (int, float)):
        raise Unk('value %r' % (x,))
    return Val(x)


def mult(a, b):
    a, b = val(a), val(b)
    if a.amp is not None and b.amp is not None:
        raise Unk('product of amplitudes')
    s = a if a.amp is not None else b
    return Val(a.k * b.k, a.signs ^ b.signs, s.amp, s.conj)


class Ind(object):
    """the index of a many-body state"""
    def __init__(self, occ):
        self.occ = tuple(occ)

    def __eq__(self, o):
        return isinstance(o, Ind) and self.occ == o.occ

    def __hash__(self):
        return hash(self.occ)


class Model(object):
    """one occupation pattern, one parameter"""
    def __init__(self, occ, key, attrs, states, params, removed=False):
        self.occ, self.key, self.attrs, self.states, self.params, self.removed = occ, key, attrs, states, params, removed
        self.vars = {}
        self.asked = False

    # -------------------------------------------------- loops
    def loop(self, var, rng):
        """bind a loop variable; the loop runs over states or over the parameter dictionary"""
        if rng in self.states[0]:
            self.vars[var] = Ind(self.occ)
            return 'state'
        if rng[0] == 'p' and rng[1] in self.params or rng[0] == '.' and rng[2] in self.params:
            self.vars[var] = self.key
            return 'key'
        r = self.states[1](self, var, rng)
        if r:
            return r
        raise Unk('loop over %s' % (show(rng),))

    # -------------------------------------------------- terms
    def ev(self, t):
        k = t[0]
        if k == 'c':
            return t[1]
        if k == 'v':
            if t in self.vars:
                return self.vars[t]
            raise Unk('loop variable')
        if t in self.attrs:
            return self.attrs[t]
        if k == '[]':
            return self.item(t[1], t[2])
        if k in ('tuple', 'list'):
            return tuple(self.ev(x) for x in t[1])
        if k == 'set':
            b = list(self.ev(t[1]))
            i = self.ev(t[2][0])
            if len(t[2]) != 1 or not isinstance(i, int):
                raise Unk('index')
            b[i] = self.ev(t[3])
            return tuple(b)
        if k == 'copy':
            return self.ev(t[1])
        if k == 'not':
            return not self.truth(self.ev(t[1]))
        if k == 'and':
            return all(self.truth(self.ev(x)) for x in t[1])
        if k == 'or':
            return any(self.truth(self.ev(x)) for x in t[1])
        if k == 'ite':
            return self.ev(t[2] if self.truth(self.ev(t[1])) else t[3])
        if k == 'neg':
            x = self.ev(t[1])
            return x.times(-1) if isinstance(x, Lin) else mult(-1, x)if isinstance(x, Val) else -x
        if k == 'cmp':
            return self.compare(t[1], self.ev(t[2]), self.ev(t[3]))
        if k == 'conj':
            x = self.ev(t[1])
            if isinstance(x, Val):
                return Val(x.k, x.signs, x.amp, not x.conj if x.amp is not None else False)
            return x
        if k == 'len':
            x = self.ev(t[1])
            if isinstance(x, tuple):
                return len(x)
        if k == 'bin':
            return self.binop(t[1], self.ev(t[2]), self.ev(t[3]))
        if k == 'call':
            return self.call(t)
        raise Unk(show(t))

    def truth(self, x):
        if isinstance(x, (bool, int)) or x is None:
            return bool(x)
        if isinstance(x, Ind):
            raise Unk('truth of an index')
        raise Unk('condition')

    def compare(self, op, a, b):
        if isinstance(a, Par) and not a.s:
            a = a.c
        if isinstance(b, Par) and not b.s:
            b = b.c
        if isinstance(a, Lin) and not a.unk:
            a = a.c
        if isinstance(b, Lin) and not b.unk:
            b = b.c
        if op in ('Eq', 'Is') and (a is None or b is None):
            return a is b
        if isinstance(a, Ind) and isinstance(b, Ind) and op == 'Eq':
            return a == b
        if isinstance(a, (Lin, Par, Val, Ind)) or isinstance(b, (Lin, Par, Val, Ind)):
            raise Unk('comparison')
        if op == 'In':
            return a in b
        try:
            return {'Eq': lambda: a == b, 'NotEq': lambda: a != b, 'Lt': lambda: a < b, 'LtE': lambda: a <= b, 'Gt': lambda: a > b, 'GtE': lambda: a >= b, 'Is': lambda: a == b}[op]()
        except (KeyError, TypeError):
            raise Unk('comparison %s' % op)

    def item(self, b, idx):
        if b[0] in ('p', '.') and (b[1] if b[0] == 'p' else b[2]) in self.params:
            head = idx[:len(self.key)] if len(idx) >= len(self.key) and idx[0][0] != 'v' and idx[0][0] != 'tuple' else idx[:1]
            k = tuple(self.ev(x) for x in head)
            if len(head) == 1 and isinstance(k[0], tuple):
                k = k[0]
            if k != self.key or len(idx) != len(head):
                raise Unk('another parameter')
            return Val(1, frozenset(), 'U')
        x = self.ev(b)
        for i in idx:
            if isinstance(x, StateList):
                if i[0] == 'sl':
                    raise Unk('slice of states')
                x = self.ev(i)
                if not isinstance(x, Ind):
                    raise Unk('state')
                continue
            if not isinstance(x, tuple):
                raise Unk('index')
            if i[0] == 'sl':
                lo, hi = (None if y is None else self.ev(y) for y in i[1:3])
                if len(i) > 3 or not all(y is None or isinstance(y, int) for y in (lo, hi)):
                    raise Unk('slice')
                x = x[lo:hi]
            else:
                j = self.ev(i)
                if not isinstance(j, int):
                    raise Unk('index')
                x = x[j]
        return x

    def binop(self, op, a, b):
        if op == 'Pow':
            if isinstance(a, (int, float)) and a == -1:
                if isinstance(b, Lin):
                    c, s = b.parity()
                    return Val(-1 if c else 1, s)
                if isinstance(b, Par):
                    return Val(-1 if b.c else 1, b.s)
                if isinstance(b, int):
                    return -1 if b % 2 else 1
            if isinstance(a, int) and isinstance(b, int):
                return a ** b
            raise Unk('power')
        if op == 'Mod' and isinstance(a, Lin) and b == 2:
            c, s = a.parity()
            return Par(c, s)
        if op == 'BitAnd' and isinstance(a, Lin) and b == 1:
            c, s = a.parity()
            return Par(c, s)
        if op in ('BitXor',) and all(isinstance(x, (Par, int)) for x in (a, b)):
            a, b = (x if isinstance(x, Par) else Par(x, frozenset()) for x in (a, b))
            return Par(a.c + b.c, a.s ^ b.s)
        # 1 - 2 p
        if op == 'Mult' and (isinstance(a, Par) or isinstance(b, Par)):
            p, k = (a, b) if isinstance(a, Par) else (b, a)
            if k in (2, -2):
                return ('2p', p, k // 2)
        if op in ('Sub', 'Add') and isinstance(b, tuple) and b and b[0] == '2p':
            s = b[2] if op == 'Add' else -b[2]
            if s == -1 and a == 1:
                return Val(-1 if b[1].c else 1, b[1].s)
        if op == 'Add' and isinstance(a, tuple) and a and a[0] == '2p' and b == 1 and a[2] == -1:
            return Val(-1 if a[1].c else 1, a[1].s)
        if op in ('Add', 'Sub') and (isinstance(a, Lin) or isinstance(b, Lin)):
            a = a if isinstance(a, Lin) else Lin(a, {})
            if isinstance(b, (int, Lin)):
                return a.add(b, 1 if op == 'Add' else -1)
            raise Unk('sum')
        if op == 'Add' and isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if op == 'Mult':
            if isinstance(a, Lin) or isinstance(b, Lin):
                x, k = (a, b) if isinstance(a, Lin) else (b, a)
                if isinstance(k, int):
                    return x.times(k)
                raise Unk('product')
            if isinstance(a, Val) or isinstance(b, Val):
                return mult(a, b)
        if all(isinstance(x, (int, float)) for x in (a, b)):
            try:
                return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b, 'Div': lambda: a / b, 'FloorDiv': lambda: a // b, 'Mod': lambda: a % b}[op]()
            except KeyError:
                pass
        raise Unk('operator %s' % op)

    def call(self, t):
        f, args, kw = t[1], t[2], t[3]
        name = f if isinstance(f, str) else f[2]
        if name in ('int', 'float', 'np.conj', 'complex') and len(args) == 1:
            x = self.ev(args[0])
            return int(x) if name == 'int' and isinstance(x, float) else x
        if name in ('sum', 'np.sum', 'np.count_nonzero') and len(args) == 1:
            src = args[0]
            if src[0] == 'comp' and len(src[2]) == 1 and not src[3]:
                (var, rng), = src[2]
                items = self.ev(rng)
                if isinstance(items, range) or isinstance(items, tuple):
                    out = Lin(0, {})
                    for x in items:
                        self.vars[var] = x
                        out = out.add(self.ev(src[1]))
                    return out
                raise Unk('sum')
            x = self.ev(src)
            out = Lin(0, {})
            if not isinstance(x, tuple):
                raise Unk('sum')
            for y in x:
                out = out.add(y)
            return out
        if name == 'range':
            a = [self.ev(x) for x in args]
            if all(isinstance(x, int) for x in a):
                return range(*a)
        if name in ('sign', 'np.sign') and len(args) == 1:
            x = self.ev(args[0])
            if isinstance(x, int):
                return (x > 0) - (x < 0)
        if name in ('min', 'max') and args:
            a = [self.ev(x) for x in args]
            if all(isinstance(x, int) for x in a):
                return min(a) if name == 'min' else max(a)
        if name == 'get_state':
            i = self.ev(args[0])
            if isinstance(i, Ind) and len(args) == 1 and not kw:
                return i.occ
        if name == 'get_ind':
            s = self.ev(args[0])
            if isinstance(s, tuple):
                self.asked = True
                return None if self.removed and s != self.occ else Ind(s)
        if name == 'get_lst':
            return StateList(args)
        if name == 'index' and not isinstance(f, str):
            lst, i = self.ev(f[1]), self.ev(args[0])
            if isinstance(lst, StateList) and isinstance(i, Ind):
                return i
        if name == 'count' and not isinstance(f, str) and len(args) == 1 and self.ev(args[0]) == 1:
            out = Lin(0, {})
            for y in self.ev(f[1]):
                out = out.add(y)
            return out
        if name in ('isinstance',):
            raise Unk('isinstance')
        raise Unk('call of %s' % name)


class StateList(object):
    def __init__(self, tag):
        self.tag = tag


def show(t):
    s = str(t)
    return s if len(s) < 120 else s[:120] + '..'


# ------------------------------------------------------------------------------------------------ the reference
def apply_ops(occ, ops):
    """operators (level, creation), applied from the right: (sign, unknown parities, state) or None"""
    occ = list(occ)
    c, s = 0, frozenset()
    for i, cre in reversed(ops):
        if not isinstance(occ[i], int) or occ[i] == (1 if cre else 0):
            return None
        for y in occ[:i]:
            if isinstance(y, Lin):
                s = s ^ frozenset(y.unk)
            else:
                c += y
        occ[i] = 1 if cre else 0
    return -1 if c % 2 else 1, s, tuple(occ)


def patterns(levels):
    """occupation patterns of the levels 1, 3, .. with unknown blocks around them"""
    n = max(levels) + 2
    for bits in itertools.product((0, 1), repeat=len(set(levels))):
        occ = [Lin(0, {'n%d' % i: 1}) for i in range(n)]
        occ = [o for o in occ]
        for i, b in zip(sorted(set(levels)), bits):
            occ[i] = b
        yield tuple(occ)


class Blocks(object):
    """unknown blocks are shared objects, so that unchanged ones compare equal"""


# two different levels: anything between them, neighbours, the first level, farther apart
PAIRS = [(1, 3), (3, 1), (1, 2), (2, 1), (0, 1), (1, 0), (0, 2), (2, 0), (1, 4), (4, 1)]


def order_types(n):
    """all order types of n labels, as odd numbers"""
    seen = set()
    for p in itertools.product(range(n), repeat=n):
        r = sorted(set(p))
        # with something between any two, and next to each other from the first level on
        for q in (tuple(2 * r.index(x) + 1 for x in p), tuple(r.index(x) for x in p)):
            if q not in seen:
                seen.add(q)
                yield q


# ------------------------------------------------------------------------------------------------ matrix constructions
def collect(rd, result, model_of):
    """the contributions {(element): [values]} of one model"""
    out = {}
    for s in rd.stores:
        if s.base not in result:
            continue
        m = model_of()
        run = True
        for item in s.trail:
            if item[0] == 'loop':
                m.loop(item[1], item[2])
            elif m.skip(item[1]):
                continue
            elif m.truth(m.ev(item[1])) != item[2]:
                run = False
                break
        if not run:
            continue
        if s.idx is None or s.op not in ('Add', 'Sub', '='):
            raise Unk('store')
        key = tuple(m.ev(x) for x in s.idx)
        v = val(m.ev(s.value))
        if s.op == 'Sub':
            v = mult(-1, v)
        out.setdefault(key, []).append((v.key(), s, s.op))
    return out


def check(rep, what, proj, mod, name, args, consts, keys, levels_of, expect, params, attrs, states, skip=lambda t: False, removed=True, opset=('Add', 'Sub')):
    """one construction against its operator"""
    fn = fn_of(proj, mod, name)
    rd = Reader(proj, consts=consts)
    try:
        ends = rd.read(fn, args)
    except TooMany as ex:
        rep.unknown(what, str(ex))
        return
    rep.name('%s:%s' % (f.module.relpath, f.qualname) for f in rd.visited)
    result = {v for q, v in ends if v[0] != 'c'}
    if not any(s.base in result for s in rd.stores):
        rep.unknown(what, 'no store to the result recognised')
        return
    n, bad = 0, 0
    for key in keys:
        levels = levels_of(key)
        for occ in patterns(levels):
            for gone in ((False, True) if removed else (False,)):
                def model_of():
                    m = Model(occ, key, attrs, states, params, gone)
                    m.skip = skip
                    return m
                try:
                    got = collect(rd, result, model_of)
                except Unk as ex:
                    rep.unknown(what, 'not evaluated: %s' % ex)
                    return
                alts = expect(key, occ)
                n += 1
                g = {k: sorted((str(x[0]) for x in v)) for k, v in got.items()}
                if gone:
                    alts = [{k: v for k, v in w.items() if all(not isinstance(x, Ind) or x == Ind(occ) for x in k)} for w in alts]
                w = [{k: sorted(str(x) for x in v) for k, v in a.items()} for a in alts]
                if g not in w and not bad:
                    bad = 1
                    where = sorted({x[1].where for v in got.values() for x in v}) or [fn.where()]
                    rep.finding('%s/element' % what, '%s: parameter %s, levels occupied %s%s: %s' % (
                        what, key, ''.join(str(occ[i]) for i in sorted(set(levels))), ', final state removed' if gone else '',
                        'the elements %s have another sign, value or place than the operator' % ', '.join(where) if got else 'an element of the operator is missing'), where, '')
    rep.count('occupation patterns', n)
    if not bad:
        rep.ok(what, '%d parameter and occupation patterns' % n)


SI = ('.', ('p', 'x'), 'si')


def c15(rep, proj, tier):
    rep.guarded('Tba', tba, rep, proj)
    rep.guarded('hopping', hopping, rep, proj)
    rep.guarded('Vbbp', vbbp, rep, proj)
    rep.guarded('coulomb', coulomb, rep, proj)
    rep.guarded('spin ladder', ladder, rep, proj)
    rep.guarded('square of the spin', spin_rule, rep, proj)
    rep.guarded('spin copies', copies, rep, proj)
    rep.guarded('string identity', identity, rep, proj)


def by_range(objname, lst):
    """the loops over many-body states"""
    X = ('p', objname)
    ranges = {('call', 'range', (x,), ()) for x in ([('len', ('p', lst))] if lst else []) + [('.', ('.', X, 'si'), 'nmany')]}
    if lst:
        ranges.add(('p', lst))
    return ranges, lambda m, var, rng: None


def contributions(*items):
    out = {}
    for k, v in items:
        out.setdefault(k, []).append(v.key())
    return out


def tba(rep, proj):
    def expect(key, occ):
        l, i = key
        up = apply_ops(occ, [(i, True)])
        dn = apply_ops(occ, [(i, False)])
        s, sg, fin = up or dn
        return [contributions(((l, Ind(fin), Ind(occ)), Val(s, sg, 'U', up is None)))]
    check(rep, 'construct_Tba', proj, 'qmeq.leadstun', 'construct_Tba', [('p', 'leads'), ('p', 'tleads'), ('p', 'Tba_')], {},
          [(97, 1), (97, 0), (0, 1), (1, 0)], lambda k: [k[1]], expect, ('tleads',), {('p', 'Tba_'): None}, by_range('leads', None))


def one_body(i, j, occ, conv):
    """the element of d_i^+ d_j (conv 0) or d_j^+ d_i (conv 1)"""
    if conv:
        i, j = j, i
    if i == j:
        return (1, frozenset(), occ) if occ[i] == 1 else None
    return apply_ops(occ, [(i, True), (j, False)])


def hopping(rep, proj):
    for herm in (True, False):
        def expect(key, occ, herm=herm):
            out = []
            for conv in (1,):
                items = []
                r = one_body(key[0], key[1], occ, conv)
                if r:
                    items.append(((Ind(r[2]), Ind(occ)), Val(r[0], r[1], 'U')))
                    if herm and key[0] != key[1]:
                        items.append(((Ind(occ), Ind(r[2])), Val(r[0], r[1], 'U', True)))
                out.append(contributions(*items))
            return out
        check(rep, 'construct_ham_hopping herm_hs=%s' % herm, proj, 'qmeq.qdot', 'construct_ham_hopping', [('p', 'qd'), ('p', 'hsingle'), ('p', 'statelst'), ('p', 'ham_')],
              {('.', ('p', 'qd'), 'herm_hs'): herm}, PAIRS + [(1, 1), (0, 0)], list, expect, ('hsingle',),
              {('p', 'ham_'): None, ('p', 'statelst'): StateList('statelst')}, by_range('qd', 'statelst'))


def vbbp(rep, proj):
    def expect(key, occ):
        b, i, j = key
        r = one_body(i, j, occ, 0)
        return [contributions(*([((b, Ind(r[2]), Ind(occ)), Val(r[0], r[1], 'U'))] if r else []))]
    check(rep, 'elph_construct_Vbbp', proj, 'qmeq.baths', 'elph_construct_Vbbp', [('p', 'baths'), ('p', 'velph'), ('p', 'Vbbp_')], {},
          [(97,) + x for x in PAIRS + [(1, 1), (0, 0)]], lambda k: k[1:], expect, ('velph',), {('p', 'Vbbp_'): None}, by_range('baths', None))


def coulomb(rep, proj):
    keys = list(order_types(4))
    for herm in (True, False):
        for mn in (True, False):
            def expect(key, occ, herm=herm, mn=mn):
                m, n, k, l = key
                if m == n or k == l:
                    return [{}]
                r = apply_ops(occ, [(m, True), (n, True), (k, False), (l, False)])
                if not r:
                    return [{}]
                items = [((Ind(r[2]), Ind(occ)), Val(r[0], r[1], 'U'))]
                adj = ((Ind(occ), Ind(r[2])), Val(r[0], r[1], 'U', True))
                selfadj = m == l and n == k
                if not herm or selfadj:
                    return [contributions(*items)]
                both = contributions(*(items + [adj]))
                if {m, n} == {k, l} or mn and l > k:
                    # written in a way the conventions do not foresee
                    return [both, contributions(*items)]
                return [both]
            check(rep, 'construct_ham_coulomb herm_c=%s m_less_n=%s' % (herm, mn), proj, 'qmeq.qdot', 'construct_ham_coulomb',
                  [('p', 'qd'), ('p', 'coulomb'), ('p', 'statelst'), ('p', 'ham_')], {('.', ('p', 'qd'), 'herm_c'): herm, ('.', ('p', 'qd'), 'm_less_n'): mn},
                  keys, list, expect, ('coulomb',), {('p', 'ham_'): None, ('p', 'statelst'): StateList('statelst')}, by_range('qd', 'statelst'))


def ladder(rep, proj):
    """S+ and S- in the same convention"""
    X = ('p', 'si')
    for name, op in (('operator_sm', ((3, True), (1, False))), ('operator_sp', ((1, True), (3, False)))):
        lists = {}

        def expect(key, occ, op=op):
            r = apply_ops(occ, list(op))
            return [contributions(*([((Ind(r[2]), Ind(occ)), Val(2 * r[0], r[1]))] if r else []))]

        def other(m, var, rng):
            # the loop over one half of the levels
            try:
                r = m.ev(rng)
            except Unk:
                r = None
            if r == range(2):
                m.vars[var] = 1
                return 'level'
            if rng[0] == 'call' and rng[1] == 'range' and len(rng[2]) == 1 and rng[2][0][0] == 'len' and isinstance(m.ev(rng[2][0][1]), StateList):
                m.vars[var] = Ind(m.occ)
                return 'state'
            if r is not None and isinstance(r, StateList):
                m.vars[var] = Ind(m.occ)
                return 'state'

        def early(t):
            return not any(x in str(t) for x in ("'v'",)) and ("'sz'" in str(t) or "'charge'" in str(t))
        check(rep, name, proj, 'qmeq.qdot', name, [('p', 'charge'), ('p', 'sz'), X], {}, [(1, 3)], list, expect, (), {('.', X, 'nsingle'): 4}, (set(), other),
              skip=early, removed=False)


# ------------------------------------------------------------------------------------------------ spin copies
def copies(rep, proj):
    NS, NL = 100, 1000
    U = Val(1, frozenset(), 'U')

    def canon(k):
        """a two-body product up to the order of its factors"""
        m, n, p, q = k
        s = 1
        if m > n:
            m, n, s = n, m, -s
        if p > q:
            p, q, s = q, p, -s
        return m, n, p, q, s
    cases = [('make_tleads_dict', 'qmeq.leadstun', ['tleads', 'si'], ('p', 'si'), (3, 5), {(3 + NL, 5 + NS)}, {}),
             ('make_velph_dict', 'qmeq.baths', ['velph', 'si'], ('p', 'si'), (3, 5, 7), {(3, 5 + NS, 7 + NS)}, {}),
             ('make_hsingle_dict', 'qmeq.qdot', ['qd', 'hsingle'], ('.', ('p', 'qd'), 'si'), (3, 5), {(3 + NS, 5 + NS)}, {})]
    for herm in (True, False):
        for mn in (True, False):
            q = ('p', 'qd')
            m, n, k, l = 3, 5, 9, 7
            cases.append(('make_coulomb_dict', 'qmeq.qdot', ['qd', 'coulomb'], ('.', q, 'si'), (m, n, k, l),
                          {canon(x) for x in ((m, n + NS, k + NS, l), (m + NS, n, k, l + NS), (m + NS, n + NS, k + NS, l + NS))},
                          {('.', q, 'herm_c'): herm, ('.', q, 'm_less_n'): mn}))
    for name, mod, params, si, key, want, consts in cases:
        fn = fn_of(proj, mod, name)
        args = [('p', p) for p in params]
        src = ('p', [p for p in params if p not in ('si', 'qd')][0])
        what = name + ' spin' + ''.join(' %s=%s' % (k[2], v) for k, v in sorted(consts.items(), key=str))
        c = dict(consts)
        c[('.', si, 'symmetry')] = 'spin'
        c[('call', 'isinstance', (src, ('g', 'dict')), ())] = True
        rd = Reader(proj, consts=c, known=lambda t: ('c', c[t]) if t in c else None)
        ends = rd.read(fn, args)
        rep.name('%s:%s' % (f.module.relpath, f.qualname) for f in rd.visited)
        results = {v for p, v in ends}

        def is_copy(t):
            return t[0] in ('copy',) and is_copy(t[1]) or t[0] == 'call' and t[1] == 'dict' and len(t[2]) == 1 and is_copy(t[2][0]) or t == src
        got, bad, guarded = set(), [], set()
        if not results or not all(is_copy(t) for t in results):
            rep.unknown(what, 'the result is not a filled copy')
            continue
        try:
            for s in rd.stores:
                if s.base not in results:
                    continue
                m = Model((), key, {('.', si, 'nsingle_sym'): NS, ('.', si, 'nleads_sym'): NL}, (set(), lambda *a: None), ())
                skip = False
                for item in s.trail:
                    if item[0] == 'loop':
                        if not is_copy(item[2]):
                            raise Unk('loop over %s' % show(item[2]))
                        m.vars[item[1]] = key
                    elif item[1][0] == 'cmp' and item[1][1] == 'In':
                        # taken as absent: a parameter given without its adjoint
                        if item[2]:
                            skip = True
                        if item[2] or item[1] in guarded:
                            continue
                        guarded.add(item[1])
                        x = m.ev(item[1][2])
                        # the skipped parameter is the adjoint of one that is there
                        k = s.idx[0]
                        k = m.ev(k) if len(s.idx) == 1 else tuple(m.ev(y) for y in s.idx)
                        if len(x) == 4 and (x[3], x[2], x[1], x[0]) != k:
                            bad.append((s, 'is left out although its adjoint is not there'))
                        if consts.get(('.', ('p', 'qd'), 'herm_c')) is False:
                            bad.append((s, 'is left out although herm_c is off'))
                    elif m.truth(m.ev(item[1])) != item[2]:
                        skip = True
                if skip:
                    continue
                k = m.ev(s.idx[0]) if len(s.idx) == 1 else tuple(m.ev(y) for y in s.idx)
                v = s.value
                if not (v[0] == '[]' and is_copy(v[1]) and (len(v[2]) == 1 and m.ev(v[2][0]) == key or tuple(m.ev(y) for y in v[2]) == key)):
                    bad.append((s, 'is not the amplitude given for the other spin'))
                got.add(canon(k) if len(k) == 4 and name == 'make_coulomb_dict' else k)
        except Unk as ex:
            rep.unknown(what, 'not evaluated: %s' % ex)
            continue
        for s, why in bad[:1]:
            rep.finding('%s/value' % what, '%s: a copied parameter %s' % (what, why), [s.where], '')
        if got != want:
            rep.finding('%s/keys' % what, '%s: the copies of parameter %s go to %s, not to %s (levels shifted by %d, leads by %d)' % (what, key, sorted(got), sorted(want), NS, NL), [fn.where()], '')
        elif not bad:
            rep.ok(what, '%d copies' % len(got))
    for name in ('make_array', 'make_array_dlst'):
        fn = fn_of(proj, 'qmeq.leadstun', name)
        what = name + ' spin'
        c = {('.', ('p', 'si'), 'symmetry'): 'spin'}
        rd = Reader(proj, consts=c)
        ends = rd.read(fn, [('p', 'old'), ('p', 'new'), ('p', 'si'), ('p', 'npar'), ('c', True)])
        rep.name('%s:%s' % (f.module.relpath, f.qualname) for f in rd.visited)
        bad = unk = 0
        for p, v in ends:
            if v[0] == 'hcat':
                v = ('call', 'np.concatenate', (v[1],), ())
            if v[0] == 'call' and v[1] in ('np.concatenate', 'np.append') and v[2]:
                parts = v[2][0][1] if v[2][0][0] in ('tuple', 'list') else v[2]
                if len(parts) != 2 or parts[0] != parts[1]:
                    bad += 1
            elif v[0] == 'call' and v[1] in ('np.tile', 'np.vstack', 'np.hstack', 'np.repeat'):
                unk += 1
            elif v[0] in ('call', 'p', '[]', 'bin', 'after', 'grown'):
                bad += 1
            else:
                unk += 1
        if bad:
            rep.finding('%s/copy' % what, '%s: the values of one spin are not repeated for the other' % what, [fn.where()], '')
        elif unk or not ends:
            rep.unknown(what, 'result not recognised')
        else:
            rep.ok(what, '%d paths' % len(ends))


def identity(rep, proj):
    """options are compared by value"""
    n = 0
    for m in proj.modules.values():
        if '/tests/' in m.relpath or not hasattr(m, 'tree'):
            continue
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Compare):
                n += 1
                for o, a, b in zip(x.ops, [x.left] + x.comparators, x.comparators):
                    if isinstance(o, (ast.Is, ast.IsNot)) and any(isinstance(y, ast.Constant) and isinstance(y.value, str) for y in (a, b)):
                        rep.finding('identity/%s' % m.relpath, '%s: an option is compared by identity, not by value' % m.relpath, ['%s:%d' % (m.relpath, x.lineno)], '')
    rep.count('comparisons', n)
    rep.ok('string identity', '%d comparisons' % n)
