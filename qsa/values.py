"""Canonical values used by the value-numbering engine.

A value is a *gated, summed polynomial*: a finite sum of monomials

    coef * SUM_{binders} [lits] * factor1^e1 * factor2^e2 ...

* ``coef``     exact Gaussian rational,
* ``binders``  loop variables the monomial is summed over, each with its domain,
* ``lits``     0/1 indicators of conditions (control dependence and ?: ),
* ``factors``  hash-consed atoms (array elements, calls, symbols).

Two program fragments that compute the same sum of products, however it is
spread over loops, temporaries, helper functions or branches, end up with the
same normal form.  Nothing is ever evaluated on concrete data and no path
condition is handed to a solver: equality of normal forms is the only test.
"""
import re
from fractions import Fraction

_tab = {}
_rev = []


def intern(t):
    i = _tab.get(t)
    if i is None:
        i = len(_rev)
        _tab[t] = i
        _rev.append(t)
    return i


def S(i):
    return _rev[i]


ZERO = (Fraction(0), Fraction(0))
ONE = (Fraction(1), Fraction(0))


def cmul(a, b):
    if a[1] == 0 and b[1] == 0:
        return (a[0] * b[0], a[1])
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def cadd(a, b):
    return (a[0] + b[0], a[1] + b[1])


def cinv(a):
    d = a[0] * a[0] + a[1] * a[1]
    return (a[0] / d, -a[1] / d)


EMPTY = frozenset()
UNITMONO = (EMPTY, EMPTY, ())


class Poly(object):
    __slots__ = ('t', '_f')

    def __init__(self, t=None):
        self.t = t if t is not None else {}
        self._f = None

    # --- constructors
    @staticmethod
    def const(c):
        if isinstance(c, tuple):
            v = c
        elif isinstance(c, complex):
            v = (frac(c.real), frac(c.imag))
        else:
            v = (frac(c), Fraction(0))
        return Poly({UNITMONO: v} if v != ZERO else {})

    @staticmethod
    def atom(a):
        return Poly({(EMPTY, EMPTY, ((a, 1),)): ONE})

    # --- predicates
    def is_const(self):
        return not self.t or (len(self.t) == 1 and UNITMONO in self.t)

    def const_value(self):
        if not self.t:
            return ZERO
        if len(self.t) == 1 and UNITMONO in self.t:
            return self.t[UNITMONO]
        return None

    def int_value(self):
        c = self.const_value()
        if c is not None and c[1] == 0 and c[0].denominator == 1:
            return int(c[0])
        return None

    def single_atom(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == ONE and not m[0] and not m[1] and len(m[2]) == 1 and m[2][0][1] == 1:
                return m[2][0][0]
        return None

    # --- arithmetic
    def __add__(self, o):
        if not o.t:
            return self
        if not self.t:
            return o
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m)
            if v is None:
                t[m] = c
            else:
                v = cadd(v, c)
                if v == ZERO:
                    del t[m]
                else:
                    t[m] = v
        return Poly(t)

    def __neg__(self):
        return Poly({m: (-c[0], -c[1]) for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c):
        if c == ZERO:
            return Poly()
        return Poly({m: cmul(v, c) for m, v in self.t.items()})

    def __mul__(self, o):
        if not self.t or not o.t:
            return Poly()
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                a1, a2 = m1, m2
                if m1[0] and m2[0]:
                    common = m1[0] & m2[0]
                    if common:
                        a2 = _freshen(m2, common)
                m = mulmono(a1, a2)
                c = cmul(c1, c2)
                v = t.get(m)
                if v is None:
                    t[m] = c
                else:
                    v = cadd(v, c)
                    if v == ZERO:
                        del t[m]
                    else:
                        t[m] = v
        return Poly(t)

    def frozen(self):
        if self._f is None:
            self._f = intern(('P', frozenset(self.t.items())))
        return self._f

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.frozen())

    def __repr__(self):
        return show_poly(self)


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    return Fraction(repr(float(x)))


def thaw(f):
    return Poly(dict(S(f)[1]))


def mulmono(a, b):
    if a is UNITMONO or a == UNITMONO:
        return b
    if b == UNITMONO:
        return a
    d = dict(a[2])
    for at, e in b[2]:
        n = d.get(at, 0) + e
        if n:
            d[at] = n
        else:
            d.pop(at, None)
    return (a[0] | b[0], a[1] | b[1], tuple(sorted(d.items())))


_fresh = [0]


def fresh_var(tag='x'):
    _fresh[0] += 1
    return intern(('v', _fresh[0]))


def _freshen(m, common):
    mp = {}
    for v, dom in common:
        mp[v] = Poly.atom(fresh_var())
    p = subst_poly(Poly({m: ONE}), mp)
    (mm, c), = p.t.items()
    return mm


# --------------------------------------------------------------------------
# structure traversal
# --------------------------------------------------------------------------

REAL = set()          # callables deciding realness are installed by the engine


def atom_parts(a):
    return S(a)


def subst_atom(a, mp, memo):
    """-> Poly"""
    if a in mp:
        return mp[a]
    r = memo.get(a)
    if r is not None:
        return r
    s = S(a)
    k = s[0]
    if k in ('v', 's', 'str', 'opaque', 'acc'):
        r = Poly.atom(a)
    elif k == 'ref':
        r = Poly.atom(intern(('ref', s[1], tuple(subst_ix(x, mp, memo) for x in s[2]))))
    elif k == 'call' and s[1] == 'dot' and '*' in mp:
        # the operands are whole matrices; only the product is subscripted
        rest = {x: y for x, y in mp.items() if x != '*'}
        r = subst_atom(a, rest, {}) if rest else Poly.atom(a)
    elif k == 'call':
        r = Poly.atom(intern(('call', s[1], tuple(subst_ix(x, mp, memo) for x in s[2]))))
    elif k == 'item':
        b = subst_atom(s[1], mp, memo).single_atom()
        r = Poly.atom(intern(('item', b, tuple(subst_ix(x, mp, memo) for x in s[2]))))
    elif k == 'conj':
        r = conj(subst_atom(s[1], mp, memo))
    elif k == 'inv':
        r = inverse(thaw(subst_ix(s[1], mp, memo)))
    elif k == 'elem':
        r = Poly.atom(intern(('elem', subst_ix(s[1], mp, memo), subst_ix(s[2], mp, memo))))
    elif k == 'len':
        r = Poly.atom(intern(('len', subst_ix(s[1], mp, memo))))
    elif k == 'arr':
        r = Poly.atom(intern(('arr', frozenset((op, subst_ix(v, mp, memo)) for op, v in s[1]))))
    else:
        r = Poly.atom(a)
    memo[a] = r
    return r


def subst_ix(x, mp, memo):
    """index entry: frozen poly id, or a str marker such as '*'"""
    if isinstance(x, str):
        q = mp.get(x)
        return q.frozen() if q is not None else x
    return subst_poly(thaw(x), mp, memo).frozen()


def subst_lit(l, mp, memo):
    """-> Poly (indicator)"""
    k = l[0]
    if k in ('le', 'eq'):
        return ind_cmp(k, subst_poly(thaw(l[1]), mp, memo))
    if k == 't':
        p = subst_atom(l[1], mp, memo)
        return truth(p)
    if k == 'nz':
        return truth(subst_poly(thaw(l[1]), mp, memo))
    raise AssertionError(l)


def subst_dom(d, mp, memo):
    return tuple(x if isinstance(x, str) else subst_ix(x, mp, memo) for x in d)


def subst_poly(p, mp, memo=None):
    if memo is None:
        memo = {}
    out = Poly()
    for m, c in p.t.items():
        bs = set()
        for v, dom in m[0]:
            nv = mp.get(v)
            if nv is not None:
                nv = nv.single_atom()
                if nv is None:
                    # binder instantiated by a non-variable: drop the binder
                    continue
            else:
                nv = v
            bs.add((nv, subst_dom(dom, mp, memo)))
        q = Poly({(frozenset(bs), EMPTY, ()): c})
        for at, e in m[2]:
            b = subst_atom(at, mp, memo)
            if e > 0:
                for _ in range(e):
                    q = q * b
            else:
                ib = inverse(b)
                for _ in range(-e):
                    q = q * ib
        for l in m[1]:
            q = q * subst_lit(l, mp, memo)
        out = out + q
    return out


def free_atoms(p, acc=None):
    """all atoms (transitively) in a poly"""
    if acc is None:
        acc = set()
    for m in p.t:
        for v, dom in m[0]:
            acc.add(v)
            for x in dom:
                if not isinstance(x, str):
                    free_atoms(thaw(x), acc)
        for l in m[1]:
            if l[0] == 't':
                _fa_atom(l[1], acc)
            else:
                free_atoms(thaw(l[1]), acc)
        for a, e in m[2]:
            _fa_atom(a, acc)
    return acc


_atoms_memo = {}


def _fa_atom(a, acc):
    r = _atoms_memo.get(a)
    if r is None:
        r = {a}
        s = S(a)
        k = s[0]
        if k in ('ref', 'call'):
            for x in s[2]:
                if not isinstance(x, str):
                    free_atoms(thaw(x), r)
        elif k == 'item':
            _fa_atom(s[1], r)
            for x in s[2]:
                if not isinstance(x, str):
                    free_atoms(thaw(x), r)
        elif k == 'conj':
            _fa_atom(s[1], r)
        elif k in ('inv', 'len'):
            free_atoms(thaw(s[1]), r)
        elif k == 'elem':
            free_atoms(thaw(s[1]), r)
            free_atoms(thaw(s[2]), r)
        elif k == 'arr':
            for op, v in s[1]:
                free_atoms(thaw(v), r)
        _atoms_memo[a] = r
    acc |= r


# --------------------------------------------------------------------------
# realness, conjugation, inverse
# --------------------------------------------------------------------------

class Types(object):
    """element types of canonical array paths / functions, filled from the pxd"""
    real_paths = set()
    int_paths = set()
    complex_paths = set()
    real_funcs = set()
    int_funcs = set()
    hermitian = set()      # paths X[l, b, c] with X[l,b,c] == conj(X[l,c,b])


KNOWN_LEAVES = {'ncharge', 'nleads', 'nbaths', 'npauli', 'ndm0', 'ndm1', 'ndm0r', 'nelements', 'statesdm'}
INT_FUNCS = {'get_ind_dm0', 'get_ind_dm1', 'len', 'cdiv', 'int', 'shape', 'dm0', 'dm1', 'dm0e', 'dm1e'}
REAL_FUNCS = {'abs', 'exp', 'log', 'sqrt', 'max', 'min', 'fabs', 'tanh', 'cosh', 'sinh', 'sin', 'cos', 'floor', 'ceil'}


def is_int_atom(a):
    s = S(a)
    k = s[0]
    if k in ('v', 'elem', 'len'):
        return True
    if k == 's':
        return s[1] in Types.int_paths
    if k == 'ref':
        return s[1] in Types.int_paths
    if k == 'call':
        return s[1] in INT_FUNCS or s[1] in Types.int_funcs
    return False


def is_int(p):
    for m, c in p.t.items():
        if c[1] != 0 or c[0].denominator != 1:
            return False
        for a, e in m[2]:
            if e < 0 or not is_int_atom(a):
                return False
    return True


def is_real_atom(a):
    s = S(a)
    k = s[0]
    if k in ('v', 'elem', 'len', 'str'):
        return True
    if k == 's':
        return s[1] in ('pi',) or s[1] in Types.int_paths or s[1] in Types.real_paths
    if k == 'ref':
        return s[1] in Types.real_paths or s[1] in Types.int_paths
    if k == 'call':
        f = s[1]
        if f in ('exp', 'log', 'sqrt', 'sin', 'cos', 'tanh', 'cosh', 'sinh'):
            return all(isinstance(x, str) or is_real(thaw(x)) for x in s[2])
        return f in REAL_FUNCS or f in INT_FUNCS or f in Types.real_funcs or f in Types.int_funcs
    if k == 'item':
        b = S(s[1])
        return b[0] == 'call' and (b[1] in Types.real_funcs)
    if k == 'inv':
        return is_real(thaw(s[1]))
    return False


def is_real(p):
    for m, c in p.t.items():
        if c[1] != 0:
            return False
        for a, e in m[2]:
            if not is_real_atom(a):
                return False
    return True


def conj_atom(a):
    if is_real_atom(a):
        return a
    s = S(a)
    if s[0] == 'conj':
        return s[1]
    if s[0] == 'inv':
        return inverse(conj(thaw(s[1]))).single_atom() or intern(('conj', a))
    if s[0] == 'call' and s[1] in ('exp',):
        return intern(('call', s[1], tuple(conj(thaw(x)).frozen() for x in s[2])))
    return intern(('conj', a))


def conj(p):
    t = {}
    for m, c in p.t.items():
        f = {}
        for a, e in m[2]:
            b = conj_atom(a)
            f[b] = f.get(b, 0) + e
        mm = (m[0], m[1], tuple(sorted((a, e) for a, e in f.items() if e)))
        v = (c[0], -c[1])
        if mm in t:
            v = cadd(t[mm], v)
        if v == ZERO:
            t.pop(mm, None)
        else:
            t[mm] = v
    return Poly(t)


HALF = (Fraction(1, 2), Fraction(0))
MHALFI = (Fraction(0), Fraction(-1, 2))


def real_part(p):
    return (p + conj(p)).scale(HALF)


def imag_part(p):
    return (p - conj(p)).scale(MHALFI)


def inverse(p):
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if not m[0] and not m[1]:
            f = []
            for a, e in m[2]:
                s = S(a)
                if s[0] == 'inv' and e > 0 and False:
                    pass
                f.append((a, -e))
            q = Poly({(EMPTY, EMPTY, tuple(sorted(f))): cinv(c)})
            # 1/(1/x)
            if any(S(a)[0] == 'inv' for a, e in f):
                r = Poly.const(cinv(c))
                for a, e in f:
                    s = S(a)
                    if s[0] == 'inv' and e < 0:
                        for _ in range(-e):
                            r = r * thaw(s[1])
                    else:
                        r = r * Poly({(EMPTY, EMPTY, ((a, e),)): ONE})
                return r
            return q
    # normalise sign/scale so that 1/(-x) == -(1/x): divide by a canonical
    # coefficient (rename-invariant: the one of largest (|c|,re,im)); scale is
    # chosen from the multiset of coefficients only.
    cs = sorted(p.t.values(), key=lambda c: (c[0] * c[0] + c[1] * c[1], c[0], c[1]))
    lead = cs[-1] if cs else ONE
    mag = [c for c in cs if c[0] * c[0] + c[1] * c[1] == lead[0] * lead[0] + lead[1] * lead[1]]
    if lead[1] == 0 and len(mag) == 1:
        q = p.scale(cinv(lead))
        return Poly.atom(intern(('inv', q.frozen()))).scale(cinv(lead))
    if lead[1] == 0:
        # ambiguous sign: choose the representative with smaller frozen id but
        # record the sign explicitly
        a = abs(lead[0])
        q1 = p.scale((1 / a, Fraction(0)))
        q2 = -q1
        f1, f2 = q1.frozen(), q2.frozen()
        if f1 <= f2:
            return Poly.atom(intern(('inv', f1))).scale((1 / a, Fraction(0)))
        return Poly.atom(intern(('inv', f2))).scale((-1 / a, Fraction(0)))
    return Poly.atom(intern(('inv', p.frozen())))


# --------------------------------------------------------------------------
# indicators
# --------------------------------------------------------------------------

P0 = Poly()
P1 = Poly.const(1)


def _lit(l):
    return Poly({(EMPTY, frozenset([l]), ()): ONE})


def ind_cmp(op, p):
    """indicator of  p <= 0  (op 'le') or  p == 0 (op 'eq')."""
    c = p.const_value()
    if c is not None and c[1] == 0:
        if op == 'le':
            return P1 if c[0] <= 0 else P0
        return P1 if c[0] == 0 else P0
    if op == 'le' and len(p.t) == 1:
        # |x| <= 0 means x = 0, and -|x| <= 0 always holds
        (m, c), = p.t.items()
        if not m[0] and not m[1] and len(m[2]) == 1 and S(m[2][0][0])[:2] == ('call', 'abs') and c[1] == 0:
            if c[0] < 0:
                return P1
            op = 'eq'
    if op == 'eq':
        a, b = p.frozen(), (-p).frozen()
        return _lit(('eq', min(a, b)))
    if is_int(p):
        k = p.t.get(UNITMONO, ZERO)[0]
        if k > 0:
            return P1 - _lit(('le', (P1 - p).frozen()))
    if TIES[0] and not is_int(p):
        # a float comparison decided by equality of the two sides counts as either
        a, b = _shape(p), _shape(-p)
        if a < b:
            return P1 - _lit(('le', (-p).frozen()))
    return _lit(('le', p.frozen()))


TIES = [False]


def _shape(p):
    return sorted((re.sub(r'x_?\d+', 'x', show_mono(m, (abs(c[0]), abs(c[1])))), c[0] > 0, c[1] > 0) for m, c in p.t.items())


def truth(p):
    c = p.const_value()
    if c is not None:
        return P0 if c == ZERO else P1
    # already an indicator polynomial?
    if all(not m[2] and not m[0] for m in p.t):
        ok = True
        # 0/1 valued indicator polynomials are closed under and/or/not as we
        # build them; accept single literals, 1-literal and products
        cs = list(p.t.values())
        if all(x[1] == 0 and x[0].denominator == 1 for x in cs):
            return p
    a = p.single_atom()
    if a is not None:
        return _lit(('t', a))
    return _lit(('nz', p.frozen()))


def gate(cond, a, b):
    """[cond] a + [not cond] b"""
    if a == b:
        return a
    return b + cond * (a - b)


# --------------------------------------------------------------------------
# printing
# --------------------------------------------------------------------------

def show_coef(c):
    if c[1] == 0:
        return str(c[0])
    if c[0] == 0:
        return '%sj' % c[1]
    return '(%s%+sj)' % (c[0], c[1])


def show_atom(a, depth=0):
    s = S(a)
    k = s[0]
    if depth > 6:
        return '...'
    if k == 'v':
        return 'x%d' % s[1] if isinstance(s[1], int) else 'x_%s' % s[1]
    if k == 's':
        return s[1]
    if k == 'str':
        return repr(s[1])
    if k == 'ref':
        return '%s[%s]' % (s[1], ','.join(show_ix(x, depth + 1) for x in s[2]))
    if k == 'call':
        return '%s(%s)' % (s[1], ','.join(show_ix(x, depth + 1) for x in s[2]))
    if k == 'item':
        return '%s{%s}' % (show_atom(s[1], depth + 1), ','.join(show_ix(x, depth + 1) for x in s[2]))
    if k == 'conj':
        return 'conj(%s)' % show_atom(s[1], depth + 1)
    if k == 'inv':
        return '1/(%s)' % show_ix(s[1], depth + 1)
    if k == 'elem':
        return 'S(%s)#%s' % (show_ix(s[1], depth + 1), show_ix(s[2], depth + 1))
    if k == 'len':
        return '|S(%s)|' % show_ix(s[1], depth + 1)
    if k == 'opaque':
        return '?%s' % (s[1],)
    if k == 'arr':
        return 'array<%d entries>' % len(s[1])
    return str(s)


def show_ix(x, depth=0):
    return x if isinstance(x, str) else show_poly(thaw(x), depth)


def show_mono(m, c, depth=0):
    out = []
    for v, dom in sorted(m[0]):
        out.append('SUM(%s in %s)' % (show_atom(v), '..'.join(show_ix(x, depth + 1) if not isinstance(x, str) else x
                                                          for x in dom[1:]) or dom[0]))
    for l in m[1]:
        if l[0] == 't':
            out.append('[%s]' % show_atom(l[1], depth + 1))
        else:
            out.append('[%s %s]' % (show_ix(l[1], depth + 1), {'le': '<=0', 'eq': '==0', 'nz': '!=0'}[l[0]]))
    for a, e in m[2]:
        out.append(show_atom(a, depth + 1) + ('' if e == 1 else '^%d' % e))
    cs = show_coef(c)
    if not out:
        return cs
    return ('' if cs == '1' else '-' if cs == '-1' else cs + '*') + '*'.join(out)


def show_poly(p, depth=0):
    if not p.t:
        return '0'
    if depth > 8:
        return '...'
    ts = sorted(show_mono(m, c, depth) for m, c in p.t.items())
    return ' + '.join(ts).replace('+ -', '- ')
