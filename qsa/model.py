"""Random interpretation of effect summaries.

Two summaries whose normal forms differ may still denote the same map (a guard
written differently, a sum re-indexed).  Before a difference is reported it is
confirmed by interpreting both *formulas* over a random finite state space in
which arrays and unknown functions are arbitrary: one point of disagreement
proves the formulas different (Gulwani & Necula's random interpretation).  The
code under analysis is never executed."""
import cmath
import math
import random
import zlib
from fractions import Fraction
from .values import *
from . import values as V
from .engine import Loc

MATH = {'exp': cmath.exp, 'sqrt': cmath.sqrt, 'log': cmath.log, 'sin': cmath.sin, 'cos': cmath.cos,
        'tanh': cmath.tanh, 'cosh': cmath.cosh, 'sinh': cmath.sinh}


class Unknown(Exception):
    pass


class Invalid(Unknown):
    """the code asks for an index that does not exist"""
    pass


def key(x):
    """hashable rounding of a number"""
    if isinstance(x, str):
        return x
    if isinstance(x, tuple):
        return tuple(key(y) for y in x)
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    x = complex(x)
    r, i = round(x.real, 7), round(x.imag, 7)
    if i == 0:
        if r == int(r):
            return int(r)
        return r + 0.0
    return (r + 0.0, i + 0.0)


class Model(object):
    def __init__(self, seed, no_coherences=False, full_unique=False, ncharge=3, nleads=2, nbaths=2, maxstates=2,
                 elph_total=False, force=None, zero=None, override=None):
        rnd = random.Random(seed)
        self.seed = seed
        self.ncharge, self.nleads, self.nbaths = ncharge, nleads, nbaths
        self.states = []
        ids = list(range(ncharge * maxstates + 3))
        rnd.shuffle(ids)
        for q in range(ncharge):
            n = maxstates if rnd.random() < .7 or q == 1 else max(1, maxstates - 1)
            self.states.append([ids.pop() for _ in range(n)])
        self.states.append([])
        self.full_unique = full_unique
        self.nocoh = no_coherences
        self.elph_total = elph_total
        self.force = dict(force or {})
        self.zero = zero            # callable (path, idx) -> bool
        self.override = override    # callable (path, idx) -> value or None
        self.eps = 1e-9             # float comparisons
        self.scale = 1              # size of the tunnelling amplitudes
        self.memo = {}
        self.seen, self.live = {}, set()   # monomials met / found non-zero at least once
        self.work, self.budget = 0, None   # evaluation steps
        self.fa, self.vals, self.lits = {}, {}, {}
        # block structure
        self.block = {s: (rnd.randrange(2) if rnd.random() < .5 else 0) for r in self.states for s in r}
        self.drop = set()
        if not full_unique:
            for q, r in enumerate(self.states):
                for i, a in enumerate(r):
                    for b in r[i:]:
                        if a != b and rnd.random() < .2:
                            self.drop.add((q, a, b))
        self.bbp = self.all_pairs()
        self.bbpe = [(a, b, q) for q, r in enumerate(self.states) for a in r for b in r if self.uniqe(a, b, q)]
        self.ba = [(b, a, q) for q in range(ncharge - 1) for b in self.states[q + 1] for a in self.states[q]]

    def all_pairs(self):
        return [(a, b, q) for q, r in enumerate(self.states) for i, a in enumerate(r) for b in (r if self.full_unique else r[i:])
                if self.uniq(a, b, q)]

    # ---------------------------------------------------------- random data
    def h(self, *k):
        s = repr((self.seed,) + k)
        r = zlib.crc32(s.encode())
        r2 = zlib.crc32((s + '#').encode())
        return 0.25 + (r % 1000003) / 1000003.0, 0.25 + (r2 % 999983) / 999983.0

    def real(self, *k):
        return self.h(*k)[0]

    def cplx(self, *k):
        return complex(*self.h(*k))

    # ------------------------------------------------------------ indexing
    def row(self, q):
        q = self.int(q)
        if q == len(self.states) - 1 or q == -1:
            return []
        if 0 <= q < len(self.states):
            return self.states[q]
        return []

    def incl(self, a, b, q):
        r = self.row(q)
        if a not in r or b not in r:
            return False
        if self.nocoh:
            return a == b
        return self.block[a] == self.block[b]

    def ord(self, a, b, q):
        if self.full_unique:
            return True
        r = self.row(q)
        return a in r and b in r and r.index(a) <= r.index(b)

    def uniq(self, a, b, q):
        if not self.incl(a, b, q):
            return False
        if self.full_unique:
            return True
        return self.ord(a, b, q) and (q, a, b) not in self.drop

    def incle(self, a, b, q):
        r = self.row(q)
        return a in r and b in r

    def uniqe(self, a, b, q):
        if not self.incle(a, b, q):
            return False
        if self.elph_total or self.full_unique:
            return True
        return self.real('uq', a, b, q) < 1.0

    def dm0(self, a, b, q):
        if not self.incl(a, b, q):
            return -1
        r = self.row(q)
        x, y = r.index(a), r.index(b)
        if not self.full_unique:
            x, y = sorted((x, y))
        if self.nocoh:
            return sum(len(z) for z in self.states[:q]) + x
        return 100 * q + 10 * x + y

    @staticmethod
    def int(x):
        if isinstance(x, int):
            return x
        x = complex(x)
        r = round(x.real)
        if abs(x - r) > 1e-9:
            raise Unknown('not an integer')
        return r

    # ---------------------------------------------------------- evaluation
    def domain(self, d, env):
        if d[0] == 'st':
            return self.row(self.poly(thaw(d[1]), env))
        if d[0] == 'stb':
            r = self.row(self.poly(thaw(d[1]), env))
            x = self.int(self.poly(thaw(d[2]), env))
            if x not in r:
                raise Unknown('not an element of the row')
            return r[:r.index(x)]
        if d[0] == 'range':
            lo = -1 if isinstance(d[1], str) else self.int(self.poly(thaw(d[1]), env))
            hi = self.ncharge + 1 if isinstance(d[2], str) else self.int(self.poly(thaw(d[2]), env))
            if hi - lo > 60:
                raise Unknown('range too long')
            return range(lo, hi)
        if d[0] == 'Z':
            return range(-1, self.ncharge + 1)
        raise Unknown('domain %s' % d[0])

    def order(self, binders):
        """dependency order of binders"""
        bs = dict(binders)
        out, done = [], set()
        deps = {}
        for v, d in bs.items():
            acc = set()
            for x in d[1:]:
                if not isinstance(x, str):
                    acc |= free_atoms(thaw(x))
            deps[v] = acc & set(bs)
        while len(out) < len(bs):
            n = [v for v in bs if v not in done and deps[v] <= done]
            if not n:
                raise Unknown('cyclic binders')
            n.sort()
            for v in n:
                out.append((v, bs[v]))
                done.add(v)
        return out

    def enum(self, binders, env, lits=()):
        """all extensions of env over binders, pruned by lits as soon as they
        are closed"""
        bs = self.order(binders)
        bound = set(v for v, d in bs)
        lv = []
        for l in lits:
            fa = free_atoms(Poly({(EMPTY, frozenset([l]), ()): ONE})) & bound
            k = max([i for i, (v, d) in enumerate(bs) if v in fa], default=-1)
            lv.append(k)

        def rec(i, env):
            bad = None
            for l, k in zip(lits, lv):
                if k == i - 1:
                    try:
                        if not self.lit(l, env):
                            return
                    except Invalid as ex:
                        bad = ex
            if bad is not None:
                raise bad
            if i == len(bs):
                yield env
                return
            v, d = bs[i]
            for x in self.domain(d, env):
                e = dict(env)
                e[v] = x
                for r in rec(i + 1, e):
                    yield r
        return rec(0, env)

    def poly(self, p, env):
        tot = 0
        for m, c in p.t.items():
            tot = tot + self.mono(m, c, env)
        return tot

    def coef(self, c):
        if c[1] == 0:
            return int(c[0]) if c[0].denominator == 1 else float(c[0])
        return complex(float(c[0]), float(c[1]))

    def mono(self, m, c, env):
        r = self.mono1(m, c, env)
        if m[0] or m[1]:
            self.seen[m] = c
            if abs(r) > 1e-12:
                self.live.add(m)
        return r

    def mono1(self, m, c, env):
        if not m[0]:
            for l in m[1]:
                if not self.lit(l, env):
                    return 0
            return self.coef(c) * self.prod(m[2], env)
        tot = 0
        for e in self.enum(m[0], env, tuple(m[1])):
            tot = tot + self.prod(m[2], e)
        return self.coef(c) * tot

    def prod(self, fs, env):
        r = 1
        self.work += 1
        if self.budget and self.work > self.budget:
            raise Unknown('too large to evaluate')
        for a, e in fs:
            x = self.atom(a, env)
            if isinstance(x, str):
                raise Unknown('string value')
            if isinstance(x, tuple):
                x = self.cplx('tuple', key(x))
            if e == 1:
                r = r * x
            elif e > 0:
                r = r * x ** e
            else:
                if abs(x) < 1e-12:
                    x = 1e-12
                r = r * (1.0 / x) ** (-e)
        return r

    def begin(self):
        self.seen, self.live = {}, set()
        self.vals, self.lits = {}, {}

    def free(self, a):
        f = self.fa.get(a)
        if f is None:
            f = self.fa[a] = tuple(sorted(x for x in free_atoms(Poly.atom(a)) if S(x)[0] == 'v'))
        return f

    def lit(self, l, env):
        r = self.lits.get(id(l))
        if r is None:
            fv = tuple(sorted(x for x in free_atoms(Poly({(EMPTY, frozenset([l]), ()): ONE})) if S(x)[0] == 'v'))
            r = self.lits[id(l)] = (l, fv, {})
        k = tuple([env.get(x) for x in r[1]])
        v = r[2].get(k)
        if v is None:
            v = r[2][k] = self.lit1(l, env)
        return v

    def lit1(self, l, env):
        k = l[0]
        if k == 't':
            s = S(l[1])
            if s[0] in ('s', 'call', 'item', 'ref'):
                return self.bool_atom(l[1], env)
            x = self.atom(l[1], env)
            return bool(x)
        if k == 'eq':
            r = self.same_thing(thaw(l[1]), env)
            if r is not None:
                return r
        p = self.poly(thaw(l[1]), env)
        if k == 'le':
            return complex(p).real <= self.eps
        if k == 'eq':
            return abs(p) < self.eps
        if k == 'nz':
            return abs(p) > self.eps
        raise Unknown('literal %s' % k)

    def same_thing(self, p, env):
        """x == y where x or y is a string or a tuple"""
        if len(p.t) != 2:
            return None
        at = []
        for m, c in p.t.items():
            if m[0] or m[1] or len(m[2]) != 1 or m[2][0][1] != 1 or abs(c[0]) != 1 or c[1]:
                return None
            at.append((m[2][0][0], c[0]))
        if at[0][1] == at[1][1] or not any(S(a)[0] == 'str' or S(a)[0] == 'call' and S(a)[1] == 'tuple' for a, c in at):
            return None
        x, y = [self.atom(a, env) for a, c in at]
        if isinstance(x, str) and isinstance(y, str) or isinstance(x, tuple) and isinstance(y, tuple):
            return key(x) == key(y)
        return None

    KNOWN_BOOL = {'uniq', 'ord', 'incl', 'incle', 'uniqe', 'conjd', 'conjde', 'instates', 'orde'}

    def bool_atom(self, a, env):
        s = S(a)
        if s[0] == 'call' and s[1] in self.KNOWN_BOOL:
            return bool(self.atom(a, env))
        if s[0] == 's':
            if s[1] in self.force:
                return bool(self.force[s[1]])
            if s[1] in ('None', 'zeros'):
                return False
            if s[1] in V.Types.int_paths and s[1] not in ():
                return self.real('b', s[1]) < 0.75
            return self.real('b', s[1]) < 0.75
        if s[0] == 'call':
            k = key(tuple(self.ix(x, env) for x in s[2]))
            if s[1] in self.force:
                return bool(self.force[s[1]])
            return self.real('bc', s[1], k) < 0.75
        if s[0] == 'ref':
            x = self.atom(a, env)
            return bool(x)
        return self.real('bi', key(self.atom(a, env))) < 0.75

    def ix(self, x, env):
        if isinstance(x, str):
            return x
        p = thaw(x)
        a = p.single_atom()
        if a is not None:
            return self.atom(a, env)
        return self.poly(p, env)

    def atom(self, a, env):
        s = S(a)
        k = s[0]
        if k == 'v':
            if a in env:
                return env[a]
            raise Unknown('free variable')
        if k not in ('elem', 'inv', 'ref', 'item', 'call', 'arr'):
            return self.atom1(a, env)
        c = (a,) + tuple([env.get(x) for x in self.free(a)])
        v = self.vals.get(c)
        if v is None:
            self.work += 1
            if self.budget and self.work > self.budget:
                raise Unknown('too large to evaluate')
            v = self.vals[c] = self.atom1(a, env)
        return v

    def atom1(self, a, env):
        s = S(a)
        k = s[0]
        if k == 's':
            return self.symbol(s[1])
        if k == 'str':
            return 'str:' + s[1]
        if k == 'elem':
            r = self.row(self.ix(s[1], env))
            i = self.int(self.ix(s[2], env))
            if 0 <= i < len(r):
                return r[i]
            raise Invalid('element out of range')
        if k == 'len':
            return len(self.row(self.ix(s[1], env)))
        if k == 'conj':
            x = self.atom(s[1], env)
            return complex(x).conjugate()
        if k == 'inv':
            x = self.poly(thaw(s[1]), env)
            if abs(x) < 1e-12:
                x = 1e-12
            return 1.0 / x
        if k == 'ref':
            return self.ref(s[1], tuple(self.ix(x, env) for x in s[2]))
        if k == 'item':
            b = self.atom(s[1], env)
            i = tuple(key(self.ix(x, env)) for x in s[2])
            if V.is_real_atom(a):
                return self.real('item', key(b), i)
            return self.cplx('item', key(b), i)
        if k == 'call':
            return self.call(a, s[1], [self.ix(x, env) for x in s[2]])
        if k == 'arr':
            return self.arr(s[1], env)
        raise Unknown(k)

    def arr(self, ents, env):
        cells = {}
        for o, v in ents:
            for m, c in thaw(v).t.items():
                el = [a for a, k in m[2] if S(a)[0] == 'ref' and S(a)[1] == 'ELT']
                if len(el) != 1:
                    raise Unknown('array entry')
                rest = tuple((a, k) for a, k in m[2] if a != el[0])
                self.seen[m] = c
                for e in self.enum(m[0], env, tuple(m[1])):
                    self.live.add(m)
                    kk = tuple(key(self.ix(x, e)) for x in S(el[0])[2])
                    cells[kk] = cells.get(kk, 0) + self.coef(c) * self.prod(rest, e)
        return self.cplx('arr', tuple(sorted((repr(k), key(v)) for k, v in cells.items() if abs(v) > 1e-9)))

    GRID = 5

    def symbol(self, n):
        if n in self.force:
            return self.force[n]
        if n == 'k':
            return 1
        if n in ('l', 'l1'):
            return self.seed % self.nleads
        leaf = n.split('.')[-1]
        if n == 'pi':
            return math.pi
        if leaf == 'ncharge':
            return self.ncharge
        if leaf == 'nleads':
            return self.nleads
        if leaf == 'nbaths':
            return self.nbaths
        if n == 'si.npauli':
            return len([1 for a, b, q in self.bbp if a == b])
        if n == 'si.ndm0':
            return len(self.bbp)
        if n == 'si_elph.ndm0':
            return len(self.bbpe)
        if n == 'si.ndm1':
            return len(self.ba)
        if n == 'si.ndm0r':
            return 2 * len(self.bbp) - len([1 for a, b, q in self.bbp if a == b])
        if n in ('zeros', 'empty', 'None', 'SET'):
            return 0
        if n == 'ones':
            return 1
        if n in V.Types.int_paths:
            return int(self.real('si', n) * 3)
        if n in V.Types.complex_paths:
            return self.cplx('s', n)
        return self.real('s', n)

    def ref(self, path, idx):
        idx = tuple(key(i) for i in idx)
        if self.zero is not None and self.zero(path, idx):
            return 0
        if self.override is not None:
            r = self.override(path, idx)
            if r is not None:
                return r
        if path in ('kh.all_bbp', 'kh.all_ba', 'kh_elph.all_bbp') and len(idx) == 2:
            t = {'kh.all_bbp': [x for x in self.bbp if not self.nocoh or x[0] == x[1]], 'kh.all_ba': self.ba, 'kh_elph.all_bbp': self.bbpe}[path]
            if isinstance(idx[0], int) and 0 <= idx[0] < len(t) and idx[1] in (0, 1, 2):
                return t[idx[0]][idx[1]]
            raise Invalid('row out of range')
        base = path.rstrip("'")
        if len(idx) == 1 and base.split('.')[-1].startswith('Ek_grid') and not isinstance(idx[0], str):
            # an increasing energy grid; every other one too narrow for the energies in use
            try:
                i = self.int(idx[0])
            except Unknown:
                i = None
            if i is not None:
                return (i - 2) * (2.0 if self.seed % 2 else 0.3) + 0.1 * self.real('grid', path, i)
        if base in V.Types.hermitian and len(idx) == 3:
            l, i, j = idx
            if repr(i) > repr(j):
                return self.scale * self.cplx('r', path, (l, j, i)).conjugate()
            if i == j:
                return self.scale * self.real('r', path, idx)
            return self.scale * self.cplx('r', path, idx)
        if base in V.Types.int_paths:
            return int(self.real('r', path, idx) * 10)
        if base in V.Types.real_paths:
            return self.real('r', path, idx)
        return self.cplx('r', path, idx)

    def call(self, a, f, args):
        if f in ('uniq', 'uniqe', 'ord', 'incl', 'incle'):
            return int(getattr(self, f)(*[self.int(x) for x in args]))
        if f == 'instates':
            return int(self.int(args[0]) in self.row(args[1]))
        if f == 'dm0':
            return self.dm0(*[self.int(x) for x in args])
        if f == 'dm0e':
            x, y, q = [self.int(z) for z in args]
            return 100 * q + 10 * self.row(q).index(x) + self.row(q).index(y) if self.incle(x, y, q) else -1
        if f in ('conjd', 'conjde'):
            x, y, q = [self.int(z) for z in args]
            r = self.row(q)
            return int(x in r and y in r and r.index(x) <= r.index(y))
        if f in ('dm1', 'dm1e'):
            x, y, q = [self.int(z) for z in args]
            if x in self.row(q + 1) and y in self.row(q):
                return 500 + 100 * q + 10 * self.row(q + 1).index(x) + self.row(q).index(y)
            raise Invalid('dm1 out of range')
        if f in ('phi0el', 'phi0ele'):
            x, y, q = [self.int(z) for z in args]
            if f == 'phi0el' and not self.incl(x, y, q):
                return 0
            if repr(x) > repr(y):
                return self.cplx(f, y, x, q).conjugate()
            return self.real(f, x, y, q) if x == y else self.cplx(f, x, y, q)
        if f in MATH:
            x = args[0]
            if f == 'log' and abs(x) < 1e-14:
                x = 1e-14
            try:
                r = MATH[f](x)
            except OverflowError:
                raise Unknown('overflow')
            return r.real if r.imag == 0 else r
        if f in ('abs', 'fabs'):
            return abs(args[0])
        if f in ('max', 'min'):
            v = [complex(x).real for x in args]
            return max(v) if f == 'max' else min(v)
        if f == 'cdiv':
            x, y = [self.int(z) for z in args]
            return int(x / y) if y else 0
        if f == 'floordiv':
            return math.floor(complex(args[0]).real / complex(args[1]).real)
        if f == 'int':
            return int(complex(args[0]).real)
        if f == 'shape' and len(args) == 2 and isinstance(args[0], (int, float, complex)):
            return self.GRID
        if f == 'mod':
            return complex(args[0]).real % complex(args[1]).real
        if f == 'tuple':
            return tuple(args)
        if f in self.force and not callable(self.force[f]):
            return self.force[f]
        k = tuple(key(x) for x in args)
        if callable(self.force.get(f)):
            return self.force[f](*args)
        if f in V.INT_FUNCS or f in V.Types.int_funcs:
            return int(self.real('c', f, k) * 4)
        if V.is_real_atom(a):
            return self.real('c', f, k)
        return self.cplx('c', f, k)

    # ------------------------------------------------------------- effects
    def final(self, effects, want=None):
        """-> {target: {cell: (overwritten, value)}} after all effects"""
        out = {}
        for e in effects:
            if isinstance(e.target, Loc) or (want is not None and e.target not in want):
                continue
            t = out.setdefault(e.target, {})
            new = {}
            fr = set()
            if e.op == '=':
                for gm, gc in self.guard_monos(e.guard):
                    pass
            for env in self.enum(e.binders, {}):
                g = self.poly(e.guard, env)
                if abs(g) < 1e-9:
                    continue
                if abs(g - 1) > 1e-9:
                    raise Unknown('guard is not 0/1')
                cell = tuple(key(self.ix(i if isinstance(i, str) else i.frozen(), env)) for i in e.idx)
                v = self.poly(e.val, env)
                if e.op == '=':
                    if cell in new and abs(new[cell] - v) > 1e-7 * (1 + abs(v)):
                        raise Unknown('cell written twice with different values')
                    new[cell] = v
                else:
                    new[cell] = new.get(cell, 0) + v
            if e.op == '=' and not e.idx and new:
                t.clear()
            for c, v in new.items():
                if e.op == '=':
                    t[c] = (True, v)
                else:
                    o = t.get(c, (False, 0))
                    t[c] = (o[0], o[1] + v)
        return out

    def guard_monos(self, g):
        return []


def same(a, b, tol=1e-6, unit=1):
    """compare two cell maps; -> None or (cell, va, vb)"""
    for c in sorted(set(a) | set(b), key=repr):
        x, y = a.get(c, (False, 0)), b.get(c, (False, 0))
        if x[0] != y[0] or abs(x[1] - y[1]) > tol * (unit + abs(x[1]) + abs(y[1])):
            return c, x, y
    return None
