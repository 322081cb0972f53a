"""Normal forms of effect polynomials: domain facts of the state space are used
to remove guards that are implied, state loops are brought to one shape, and
bound variables are renamed canonically."""
import itertools
from .values import *
from . import values as V
from .values import _lit

SYMM = {'incl', 'incle', 'max', 'min', 'abs'}


class Facts(object):
    """what is known about the arrays an entry point reads"""
    def __init__(self, no_coherences=False, elph_unique_total=False):
        self.no_coherences = no_coherences
        self.elph_unique_total = elph_unique_total


def dommap(m):
    return {v: d for v, d in m[0]}


def mono_poly(m, c):
    return Poly({m: c})


def vars_of(p):
    return {a for a in free_atoms(p) if S(a)[0] == 'v'}


def _all_refs(m):
    """every atom occurring anywhere in a monomial"""
    return free_atoms(Poly({m: ONE}))


def normalise(p, facts):
    """-> Poly, normalised up to renaming of bound variables"""
    work = list(p.t.items())
    out = {}
    steps = 0
    while work:
        m, c = work.pop()
        steps += 1
        if steps > 20000:
            raise RuntimeError('normalisation does not terminate')
        r = _step(m, c, facts)
        if r is None:
            if m in out:
                v = cadd(out[m], c)
                if v == ZERO:
                    del out[m]
                else:
                    out[m] = v
            else:
                out[m] = c
        else:
            work.extend(r.t.items())
    return Poly(out)


def _step(m, c, facts):
    """one rewriting step on a monomial; None when in normal form"""
    dm = dommap(m)
    atoms = _all_refs(m)
    ncharge = Poly.atom(intern(('s', 'si.ncharge')))
    # --- zero functions
    for v, d in dm.items():
        if d[0] == 'range' and not isinstance(d[1], str) and not isinstance(d[2], str):
            lo, hi = thaw(d[1]), thaw(d[2])
            # rows of the precomputed pair lists
            rows = {}
            for a in atoms:
                s = S(a)
                if s[0] == 'ref' and s[1] in ('kh.all_ba', 'kh.all_bbp', 'kh_elph.all_bbp') and len(s[2]) == 2 and \
                        thaw(s[2][0]) == Poly.atom(v):
                    k = thaw(s[2][1]).int_value()
                    rows.setdefault(s[1], {})[k] = a
            if len(rows) == 1 and lo == P0:
                (arr, cols), = rows.items()
                hn = hi.single_atom()
                hn = S(hn)[1] if hn is not None and S(hn)[0] == 's' else None
                x, y, q = fresh_var(), fresh_var(), fresh_var()
                X, Y, Q = Poly.atom(x), Poly.atom(y), Poly.atom(q)
                if arr == 'kh.all_ba' and hn == 'si.ndm1':
                    doms = [(q, ('range', P0.frozen(), (ncharge - P1).frozen())),
                            (x, ('st', (Q + P1).frozen())), (y, ('st', Q.frozen()))]
                    mp = {0: X, 1: Y, 2: Q}
                    extra = P1
                elif arr == 'kh.all_bbp' and hn == ('si.npauli' if facts.no_coherences else 'si.ndm0'):
                    doms = [(q, ('range', P0.frozen(), ncharge.frozen())), (x, ('st', Q.frozen()))]
                    if facts.no_coherences:
                        mp = {0: X, 1: X, 2: Q}
                        extra = truth(_call('uniq', [X, X, Q]))
                    else:
                        doms.append((y, ('st', Q.frozen())))
                        mp = {0: X, 1: Y, 2: Q}
                        extra = truth(_call('uniq', [X, Y, Q])) * truth(_call('ord', [X, Y, Q]))
                elif arr == 'kh_elph.all_bbp' and hn == 'si_elph.ndm0':
                    doms = [(q, ('range', P0.frozen(), ncharge.frozen())), (x, ('st', Q.frozen())), (y, ('st', Q.frozen()))]
                    mp = {0: X, 1: Y, 2: Q}
                    extra = truth(_call('uniqe', [X, Y, Q]))
                else:
                    mp = None
                if mp is not None and all(k in mp for k in cols):
                    sub = {a: mp[k] for k, a in cols.items()}
                    mm = (m[0] - {(v, d)}, m[1], m[2])
                    pp = subst_poly(Poly({mm: c}), sub)
                    if v not in free_atoms(pp):
                        pp = pp * extra
                        return _bind(pp, doms)
            # statesdm[q, i] with i over the whole list
            ln = hi.single_atom()
            if lo == P0 and ln is not None and S(ln)[0] == 'len':
                q = S(ln)[1]
                mm = (m[0] - {(v, d)}, m[1], m[2])
                if v not in free_atoms(Poly({mm: c})):
                    return _bind(Poly({mm: c}), [(fresh_var(), ('st', q))])
                es = [a for a in atoms if S(a)[0] == 'elem' and S(a)[1] == q and thaw(S(a)[2]) == Poly.atom(v)]
                if es:
                    x = fresh_var()
                    mm = (m[0] - {(v, d)}, m[1], m[2])
                    pp = subst_poly(Poly({mm: c}), {es[0]: Poly.atom(x)})
                    if v not in free_atoms(pp):
                        return _bind(pp, [(x, ('st', q))])
    # --- equalities between bound variables
    for l in m[1]:
        if l[0] == 'eq':
            e = thaw(l[1])
            r = _solve_eq(e, dm)
            if r is not None:
                v, rhs = r
                mm = (frozenset(b for b in m[0] if b[0] != v), m[1] - {l}, m[2])
                return subst_poly(Poly({mm: c}), {v: rhs})
    # --- facts from membership
    lows, highs = [], []
    for v, d in dm.items():
        if d[0] == 'st':
            q = thaw(d[1])
            lows.append(-q)
            highs.append(q - ncharge + P1)
    facts_le = lows + highs
    for v, d in dm.items():
        if d[0] == 'range':
            if not isinstance(d[1], str):
                facts_le.append(thaw(d[1]) - Poly.atom(v))
            if not isinstance(d[2], str):
                facts_le.append(Poly.atom(v) - thaw(d[2]) + P1)
    for l in m[1]:
        if l[0] == 'le':
            p = thaw(l[1])
            for f in facts_le:
                k = (p - f).const_value()
                if k is not None and k[0] <= 0:
                    return Poly({(m[0], m[1] - {l}, m[2]): c})
                k = ((P1 - p) - f).const_value()
                if k is not None and k[0] <= 0 and is_int(p):
                    return Poly()
        elif l[0] == 'eq':
            p = thaw(l[1])
            for f in facts_le:
                for sg in (p, -p):
                    # sg >= 1 implied -> never equal
                    k = ((P1 - sg) - f).const_value()
                    if k is not None and k[0] <= 0:
                        return Poly()
    # --- charge ranges implied by membership
    for v, d in dm.items():
        if d[0] == 'range':
            V1 = Poly.atom(v)
            lo, hi = d[1], d[2]
            if not isinstance(lo, str):
                L = thaw(lo)
                for f in lows:
                    k = (L - V1 - f).const_value()
                    if k is not None and k[0] <= 0:
                        lo = '-inf'
                        break
            if not isinstance(hi, str):
                H = thaw(hi)
                for f in highs:
                    k = (V1 - H + P1 - f).const_value()
                    if k is not None and k[0] <= 0:
                        hi = '+inf'
                        break
            if (lo, hi) != (d[1], d[2]):
                nd = ('Z',) if lo == '-inf' and hi == '+inf' else ('range', lo, hi)
                return Poly({((m[0] - {(v, d)}) | {(v, nd)}, m[1], m[2]): c})
    # --- inclusion implied by uniqueness or by reading the (zero if absent) element
    unq = set()
    for l in m[1]:
        if l[0] == 't':
            s = S(l[1])
            if s[0] == 'call' and s[1] in ('uniq', 'uniqe'):
                unq.add((s[1][4:], frozenset(s[2][:2]), s[2][2]))
                if s[1] == 'uniqe' and facts.elph_unique_total:
                    return Poly({(m[0], m[1] - {l}, m[2]): c})
    for a, e in m[2]:
        s = S(a)
        if s[0] == 'conj':
            s = S(s[1])
        if s[0] == 'call' and s[1] in ('phi0el', 'phi0ele') and e > 0:
            unq.add((s[1][6:], frozenset(s[2][:2]), s[2][2]))
    for l in m[1]:
        if l[0] == 't':
            s = S(l[1])
            if s[0] == 'call' and s[1] in ('incl', 'incle'):
                if (s[1][4:], frozenset(s[2][:2]), s[2][2]) in unq:
                    return Poly({(m[0], m[1] - {l}, m[2]): c})
            if s[0] == 'call' and s[1] == 'ord' and s[2][0] == s[2][1]:
                return Poly({(m[0], m[1] - {l}, m[2]): c})
    # --- orientation of Hermitian matrices by charge
    ch = {v: thaw(d[1]) for v, d in dm.items() if d[0] == 'st'}
    for a, e in m[2]:
        s, cj = S(a), False
        if s[0] == 'conj':
            s, cj = S(s[1]), True
        if s[0] == 'ref' and s[1] in V.Types.hermitian and len(s[2]) == 3:
            i, j = thaw(s[2][1]).single_atom(), thaw(s[2][2]).single_atom()
            if i in ch and j in ch:
                k = (ch[i] - ch[j]).int_value()
                if k is not None and k < 0:
                    na = intern(('ref', s[1], (s[2][0], s[2][2], s[2][1])))
                    if not cj:
                        na = intern(('conj', na))
                    f = dict(m[2])
                    n = f.pop(a)
                    f[na] = f.get(na, 0) + n
                    return Poly({(m[0], m[1], tuple(sorted((x, y) for x, y in f.items() if y))): c})
    # --- shift charges so that the lowest state list is S(q)
    for v, d in dm.items():
        if d[0] in ('Z', 'range'):
            ks = []
            for w, dd in dm.items():
                if dd[0] == 'st':
                    k = (thaw(dd[1]) - Poly.atom(v)).int_value()
                    if k is not None:
                        ks.append(k)
            if ks and min(ks) != 0:
                sh = Poly.const(-min(ks))
                nd = d
                x = fresh_var()
                if d[0] == 'range':
                    nd = ('range',) + tuple(t if isinstance(t, str) else (thaw(t) - sh).frozen() for t in d[1:])
                mm = (m[0] - {(v, d)}, m[1], m[2])
                pp = subst_poly(Poly({mm: c}), {v: Poly.atom(x) + sh})
                return _bind(pp, [(x, nd)])
    return None


def _call(f, args):
    return Poly.atom(intern(('call', f, tuple(a.frozen() for a in args))))


def _bind(p, binders):
    bs = frozenset(binders)
    return Poly({(m[0] | bs, m[1], m[2]): c for m, c in p.t.items()})


def _solve_eq(e, dm):
    """e == 0 solved for a bound state variable"""
    if len(e.t) != 2:
        return None
    for m, c in e.t.items():
        p = Poly({m: ONE})
        v = p.single_atom()
        if v is not None and v in dm and dm[v][0] in ('st', 'range') and c[1] == 0 and abs(c[0]) == 1:
            rest = (Poly({k: x for k, x in e.t.items() if k != m})).scale((-c[0], c[1]))
            w = rest.single_atom()
            if w is not None and w in dm and dm[w] == dm[v] and w != v:
                # keep the smaller id for determinism within one run
                return (max(v, w), Poly.atom(min(v, w)))
    return None


# --------------------------------------------------------------------------
# canonical serialisation
# --------------------------------------------------------------------------
_closed = {}


def has_var(a):
    r = _closed.get(a)
    if r is None:
        acc = set()
        V._fa_atom(a, acc)
        r = any(S(x)[0] == 'v' for x in acc)
        _closed[a] = r
    return r


_ser_closed = {}


def ser_atom(a, names):
    if not has_var(a):
        r = _ser_closed.get(a)
        if r is None:
            r = _ser_atom(a, {})
            _ser_closed[a] = r
        return r
    return _ser_atom(a, names)


def _ser_atom(a, names):
    s = S(a)
    k = s[0]
    if k == 'v':
        return names.get(a, '?')
    if k == 's':
        return s[1]
    if k == 'str':
        return repr(s[1])
    if k == 'ref':
        return '%s[%s]' % (s[1], ','.join(ser_ix(x, names) for x in s[2]))
    if k == 'call':
        args = [ser_ix(x, names) for x in s[2]]
        if s[1] in ('incl', 'incle'):
            args = sorted(args[:2]) + args[2:]
        elif s[1] in ('max', 'min'):
            args = sorted(args)
        elif s[1] == 'abs':
            p = thaw(s[2][0])
            args = [min(ser_poly(p, names), ser_poly(-p, names))]
        return '%s(%s)' % (s[1], ','.join(args))
    if k == 'item':
        return '%s{%s}' % (ser_atom(s[1], names), ','.join(ser_ix(x, names) for x in s[2]))
    if k == 'conj':
        return "~" + ser_atom(s[1], names)
    if k == 'inv':
        p = thaw(s[1])
        return '1/(%s)' % min(ser_poly(p, names), ser_poly(-p, names))
    if k == 'elem':
        return 'S(%s)#%s' % (ser_ix(s[1], names), ser_ix(s[2], names))
    if k == 'len':
        return '|S(%s)|' % ser_ix(s[1], names)
    if k == 'arr':
        return 'arr{%s}' % ';'.join(sorted(ser_entry(o, v, names) for o, v in s[1]))
    return '?%s' % (s[1:],)


_cur = [None]


def ser_entry(o, v, names):
    p = thaw(v)
    if _cur[0] is not None:
        p = normalise(p, _cur[0])
    return ';'.join(sorted('%s%s' % (o, ser_poly(Poly({m: c}), names)) for m, c in p.t.items()))


def inv_sign(a, names):
    """-1 if the stored representative of 1/p is 1/(-p) in the serialisation"""
    s = S(a)
    if s[0] == 'inv':
        p = thaw(s[1])
        if ser_poly(-p, names) < ser_poly(p, names):
            return -1
    return 1


def ser_ix(x, names):
    if isinstance(x, str):
        return x
    return ser_poly(thaw(x), names)


def ser_lit(l, names):
    if l[0] == 't':
        return '[%s]' % ser_atom(l[1], names)
    p = thaw(l[1])
    if l[0] == 'eq':
        return '[%s==0]' % min(ser_poly(p, names), ser_poly(-p, names))
    return '[%s%s]' % (ser_poly(p, names), '<=0' if l[0] == 'le' else '!=0')


def ser_coef(c):
    return '%s' % c[0] if c[1] == 0 else '(%s,%s)' % c


def ser_poly(p, names):
    if not p.t:
        return '0'
    tot = {}
    for m, c in p.t.items():
        s, sg = ser_mono(m, names)
        v = (c[0] * sg, c[1] * sg)
        tot[s] = cadd(tot[s], v) if s in tot else v
    return '+'.join('%s*%s' % (ser_coef(c), s) if s else ser_coef(c) for s, c in sorted(tot.items()) if c != ZERO) or '0'


def ser_body(m, names):
    sg = 1
    parts = []
    for a, e in m[2]:
        s = ser_atom(a, names)
        if e % 2 and S(a)[0] == 'inv':
            sg *= inv_sign(a, names)
        parts.append(s if e == 1 else '%s^%d' % (s, e))
    parts.sort()
    lits = sorted(ser_lit(l, names) for l in m[1])
    return ''.join(lits) + '*'.join(parts), sg


def ser_dom(d, names):
    return d[0] + '(' + ','.join(ser_ix(x, names) for x in d[1:]) + ')'


def ser_mono(m, names, want_names=False):
    if not m[0]:
        r = ser_body(m, names)
        return r + ({},) if want_names else r
    bs = dict(m[0])
    vs = list(bs)
    depth = len(names)
    col = {}
    for v in vs:
        col[v] = bs[v][0]
    occ = {v: [] for v in vs}
    objs = [('a', a, e) for a, e in m[2] if has_var(a)] + [('l', l, 0) for l in m[1]] + [('d', (v, d), 0) for v, d in m[0]]
    memb = []
    for o in objs:
        if o[0] == 'a':
            acc = set()
            V._fa_atom(o[1], acc)
        elif o[0] == 'l':
            acc = free_atoms(Poly({(EMPTY, frozenset([o[1]]), ()): ONE}))
        else:
            acc = {o[1][0]}
            for x in o[1][1][1:]:
                if not isinstance(x, str):
                    acc |= free_atoms(thaw(x))
        memb.append(acc)

    def so(o, nm):
        if o[0] == 'a':
            return ser_atom(o[1], nm) + '^%d' % o[2]
        if o[0] == 'l':
            return ser_lit(o[1], nm)
        return nm.get(o[1][0], '?') + ':' + ser_dom(o[1][1], nm)
    for rnd in range(4):
        new = {}
        base = dict(names)
        for v in vs:
            base[v] = '<%s>' % col[v]
        for v in vs:
            nm = dict(base)
            nm[v] = '!'
            new[v] = col[v] + '|' + '|'.join(sorted(so(o, nm) for o, acc in zip(objs, memb) if v in acc))
        order = {k: i for i, k in enumerate(sorted(set(new.values())))}
        new = {v: '%d' % order[new[v]] for v in vs}
        if len(set(new.values())) == len(set(col.values())) and rnd > 0:
            col = new
            break
        col = new
        if len(set(col.values())) == len(vs):
            break
    groups = {}
    for v in vs:
        groups.setdefault(col[v], []).append(v)
    keys = sorted(groups, key=lambda k: int(k) if k.isdigit() else 0)
    npm = 1
    for k in keys:
        for i in range(2, len(groups[k]) + 1):
            npm *= i
    perms = itertools.product(*[itertools.permutations(groups[k]) for k in keys]) if npm <= 5040 else \
        [tuple(tuple(sorted(groups[k])) for k in keys)]
    best = None
    for pm in perms:
        nm = dict(names)
        i = depth
        for g in pm:
            for v in g:
                nm[v] = '$%d' % i
                i += 1
        doms = sorted(nm[v] + ':' + ser_dom(d, nm) for v, d in m[0])
        b, sg = ser_body(m, nm)
        s = 'SUM{%s}%s' % (';'.join(doms), b)
        if best is None or s < best[0]:
            best = (s, sg, nm)
    return best if want_names else best[:2]


def canon(p, facts=None):
    """-> dict serialised monomial -> (coef, representative monomial)"""
    facts = facts or Facts()
    if _cur[0] is None or (_cur[0].no_coherences, _cur[0].elph_unique_total) != (facts.no_coherences, facts.elph_unique_total):
        _ser_closed.clear()
    _cur[0] = facts
    q = normalise(p, facts)
    out = {}
    for m, c in q.t.items():
        s, sg = ser_mono(m, {})
        v = (c[0] * sg, c[1] * sg)
        if s in out:
            w = cadd(out[s][0], v)
            if w == ZERO:
                del out[s]
            else:
                out[s] = (w, m)
        else:
            out[s] = (v, m)
    return out


def diff(a, b):
    """differences of two canonical forms: list of (side, coef, monomial)"""
    out = []
    for s in sorted(set(a) | set(b)):
        x, y = a.get(s), b.get(s)
        if x is None:
            out.append(('second', y[0], y[1], s))
        elif y is None:
            out.append(('first', x[0], x[1], s))
        elif x[0] != y[0]:
            out.append(('both', (x[0], y[0]), x[1], s))
    return out
