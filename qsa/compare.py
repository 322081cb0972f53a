"""Comparison of effect summaries: normal form first, random interpretation to
confirm a difference."""
from .values import *
from . import values as V
from .engine import Engine, Loc
from .normal import Facts, canon, diff
from .model import Invalid, Model, Unknown, same, MATH
from collections import Counter

EQUAL, DIFFERENT, UNKNOWN = 'equal', 'different', 'undecided'


class Outcome(object):
    def __init__(self, target, status, how, detail='', where=(), terms=(0, 0)):
        self.target, self.status, self.how, self.detail, self.where, self.terms = target, status, how, detail, list(where), terms


BUDGET = 6000000     # evaluation steps per model and target


def opaque_in(effs):
    for e in effs:
        if e.target == '?':
            return 'construct not modelled (%s)' % (e.where or 'control flow')
    return None


def has_opaque(p, memo=None):
    for a in free_atoms(p):
        if S(a)[0] in ('opaque', 'acc'):
            return S(a)[1]
    return None


def opaques(p):
    return {S(a)[1] for a in all_atoms(p) if S(a)[0] == 'opaque'}


def call_names(p):
    return {S(a)[1] for a in all_atoms(p) if S(a)[0] == 'call'}


def all_atoms(p):
    seen = set()

    def wp(q):
        for m, c in q.t.items():
            for a, e in m[2]:
                wa(a)
            for l in m[1]:
                if l[0] == 't':
                    wa(l[1])
                else:
                    wp(thaw(l[1]))
            for v, d in m[0]:
                for x in d[1:]:
                    if not isinstance(x, str):
                        wp(thaw(x))

    def wa(a):
        if a in seen:
            return
        seen.add(a)
        s = S(a)
        if s[0] in ('ref', 'call'):
            for x in s[2]:
                if not isinstance(x, str):
                    wp(thaw(x))
        elif s[0] == 'item':
            wa(s[1])
            for x in s[2]:
                if not isinstance(x, str):
                    wp(thaw(x))
        elif s[0] == 'conj':
            wa(s[1])
        elif s[0] == 'inv':
            wp(thaw(s[1]))
        elif s[0] in ('elem',):
            wp(thaw(s[1]))
            wp(thaw(s[2]))
        elif s[0] == 'len':
            wp(thaw(s[1]))
        elif s[0] == 'arr':
            for o, v in s[1]:
                wp(thaw(v))
    wp(p)
    return seen


def compare_effects(eff1, eff2, nocoh=(False, False), skip=(), rename=None, elph_total=(), models=3, force=None,
                    model_kw=None, only=None, lang=None):
    """-> list of Outcome, one per target"""
    out = []
    rename = rename or {}

    def tgt(e):
        return rename.get(e.target, e.target)
    def leaf(t):
        return t.split('.')[-1]
    if lang is not None:
        # scratch space of one implementation that the other one does not have
        own = lambda effs, words: {tgt(e) for e in effs if not isinstance(e.target, Loc) and e.target != '?'
                                   and not tgt(e).startswith('kh') and leaf(tgt(e)) not in words}
        skip = set(skip) | own(eff1, lang['words2']) | own(eff2, lang['words1'])
    targets = sorted({tgt(e) for e in eff1 + eff2 if not isinstance(e.target, Loc) and e.target != '?'})
    bad = opaque_in(eff1) or opaque_in(eff2)
    if lang is not None:
        # what is handed to the kernel handler means the same in both; one side may only hand over less, not something else
        k1, k2 = ({tgt(e) for e in x if not isinstance(e.target, Loc) and tgt(e).startswith('kh.')} for x in (eff1, eff2))
        if k1 and k2 and (k1 <= k2 or k2 <= k1):
            lang = dict(lang, iface={leaf(t) for t in k1 | k2})
    for t in targets:
        if t in skip or (only is not None and t not in only):
            continue
        a = [e for e in eff1 if not isinstance(e.target, Loc) and tgt(e) == t]
        b = [e for e in eff2 if not isinstance(e.target, Loc) and tgt(e) == t]
        if V.TIES[0]:
            for e in a + b:
                if e.op == '+=':
                    e.val, e.guard = drop_small(e.val * e.guard), P1
        out.append(compare_target(t, a, b, nocoh, t in elph_total, models, force, bad, model_kw or {}, lang))
    return out


SMALL = Fraction(1, 10 ** 9)


def drop_small(p):
    """a cut-off at an amplitude below 1e-9 of the scale counts as a cut-off at zero: [|x| <= tiny] x -> 0"""
    out = {}
    for m, c in p.t.items():
        have = {}
        for a, e in m[2]:
            a = S(a)[1] if S(a)[0] == 'conj' else a
            have[a] = have.get(a, 0) + e
        dead, keep = False, set(m[1])
        for l in m[1]:
            if l[0] not in ('le', 'eq'):
                continue
            for sign, x in tiny(thaw(l[1]), l[0]):
                need = {}
                for a, e in x:
                    a = S(a)[1] if S(a)[0] == 'conj' else a
                    need[a] = need.get(a, 0) + e
                if need and all(have.get(a, 0) >= e for a, e in need.items()):
                    # |x| <= tiny leaves nothing, |x| >= tiny leaves everything
                    if sign > 0:
                        dead = True
                    else:
                        keep.discard(l)
        if not dead:
            mm = (m[0], frozenset(keep), m[2])
            w = cadd(out[mm], c) if mm in out else c
            if w == ZERO:
                out.pop(mm)
            else:
                out[mm] = w
    return Poly(out)


def tiny(p, k):
    """factors of x when the literal says |x| <= something tiny"""
    ab = [(m, c) for m, c in p.t.items() if len(m[2]) == 1 and not m[0] and not m[1] and S(m[2][0][0])[:2] == ('call', 'abs')]
    rest = [(m, c) for m, c in p.t.items() if (m, c) not in ab]
    if len(ab) != 1 or abs(ab[0][1][0]) != 1 or (k == 'eq' and rest):
        return
    if any(c[1] != 0 or abs(c[0]) > SMALL for m, c in rest):
        return
    x = thaw(S(ab[0][0][2][0][0])[2][0])
    if len(x.t) == 1:
        (m, c), = x.t.items()
        if not m[0] and not m[1]:
            yield (ab[0][1][0] if k == 'le' else 1), m[2]


def effpoly(effs, t):
    from .engine import ref, sym
    p = Poly()
    for e in effs:
        tt = ref('TGT', [sym(t + (':=' if e.op == '=' else ':+='))] + list(e.idx))
        v = e.val
        if e.op == '=':
            v = v + sym('SET')
        q = v * tt * e.guard
        bs = frozenset(e.binders)
        if bs:
            q = Poly({(m[0] | bs, m[1], m[2]): c for m, c in q.t.items()})
        p = p + q
    return p


def names_of(p):
    """-> (Counter of distinct uninterpreted calls by name, set of attribute
    leaves the terms read)"""
    calls, leaves = Counter(), set()
    for a in all_atoms(p):
        s = S(a)
        if s[0] == 'call':
            if s[1] not in VOCAB and s[1] not in MATH:
                calls[s[1]] += 1
        elif s[0] in ('s', 'ref'):
            n = s[1].split(':')[0].rstrip("'")
            if '.' in n or s[0] == 'ref':
                leaves.add(n.split('.')[-1])
    return calls, leaves


# structural functions the model evaluates from its own random state space
VOCAB = {'uniq', 'uniqe', 'ord', 'orde', 'incl', 'incle', 'instates', 'dm0', 'dm0e', 'conjd', 'conjde', 'dm1', 'dm1e',
         'phi0el', 'phi0ele', 'abs', 'fabs', 'max', 'min', 'cdiv', 'floordiv', 'int', 'mod', 'tuple', 'shape'}
STRUCT = {'TGT', 'ELT', 'SET', 'statesdm', 'all_bbp', 'all_ba'}


def foreign(p, q, lang):
    """is there anything on one side that the other side's code has no way of
    expressing?  Then a difference of the normal forms is not evidence."""
    (c1, l1), (c2, l2) = names_of(p), names_of(q)
    atoms = lang['atoms']
    for n in set(c1) | set(c2):
        if n not in atoms and c1[n] != c2[n]:
            return 'function %s() is not interpreted' % n
    for ls, words, side in ((l1 - l2, lang['words2'], 2), (l2 - l1, lang['words1'], 1)):
        for n in ls - STRUCT - V.KNOWN_LEAVES - lang.get('iface', set()):
            if n not in words:
                return 'attribute %s has no counterpart in the other implementation' % n
    return None


def compare_target(t, a, b, nocoh, elph_total, models, force, bad, model_kw, lang=None):
    p, q = effpoly(a, t), effpoly(b, t)
    wh = sorted({e.where for e in a}) + sorted({e.where for e in b})
    left = [{s for s in opaques(x) if s.startswith('leftover:')} for x in (p, q)]
    if (left[0] or left[1]) and not (left[0] and left[1]) and not bad and a and b:
        return Outcome(t, DIFFERENT, 'dataflow', 'the value depends on the loop variable %s after its loop has ended' %
                       ', '.join(sorted(x.split(':')[1].split('#')[0] for x in left[0] | left[1])), wh, (len(p.t), len(q.t)))
    for x in (p, q):
        o = has_opaque(x)
        if o:
            return Outcome(t, UNKNOWN, 'value not modelled', str(o), wh, (len(p.t), len(q.t)))
    d = None
    try:
        f1, f2 = Facts(nocoh[0], elph_total), Facts(nocoh[1], elph_total)
        ca, cb = canon(p, f1), canon(q, f2)
        d = diff(ca, cb)
        terms = (len(ca), len(cb))
    except RuntimeError as ex:
        terms = (len(p.t), len(q.t))
    if d == []:
        return Outcome(t, EQUAL, 'normal form', '', wh, terms)
    if bad:
        return Outcome(t, UNKNOWN, 'control flow not modelled', bad, wh, terms)
    det = ''
    if d:
        det = '; '.join('%s only: %s' % (x[0], x[3][:300]) if x[0] != 'both' else 'coefficients %s: %s' % (x[1], x[3][:300]) for x in d[:4])
    why = foreign(p, q, lang) if lang is not None else None
    if why:
        return Outcome(t, UNKNOWN, 'vocabulary', why, wh, terms)
    # confirm
    seen = 0
    met = ({}, {})
    live = (set(), set())
    runs = [(k, 1) for k in range(models)]
    if V.TIES[0]:
        # amplitudes small enough to fall below a cut-off
        runs += [(k, s) for s in (1e-2, 2e-3) for k in range(models)]
    for k, unit in runs:
        M = Model(11 + 7 * k, no_coherences=nocoh[0] or nocoh[1], elph_total=elph_total, force=force, **model_kw)
        M.budget = BUDGET
        if unit != 1:
            M.scale, M.eps = unit, 1e-13
        try:
            res, inv = [], []
            for effs, sn, lv in ((a, met[0], live[0]), (b, met[1], live[1])):
                M.begin()
                try:
                    res.append(M.final(effs).get(effs[0].target, {}) if effs else {})
                except Invalid as ex:
                    res.append(None)
                    inv.append(str(ex))
                sn.update(M.seen)
                lv |= M.live
            if len(inv) == 1:
                return Outcome(t, DIFFERENT, 'random interpretation', 'only one of the two asks for an index that does not exist (%s); %s' % (inv[0], det), wh, terms)
            if inv:
                return Outcome(t, UNKNOWN, 'interpretation', inv[0], wh, terms)
            x, y = res
        except Unknown as ex:
            return Outcome(t, UNKNOWN, 'interpretation', str(ex), wh, terms)
        r = same(x, y, unit=unit ** 4)
        if r is not None:
            return Outcome(t, DIFFERENT, 'random interpretation', 'cell %s: %s / %s; %s' % (r[0], r[1], r[2], det), wh, terms)
        seen += len(x)
    # terms no model ever reaches have not been compared
    try:
        dead = [canon(Poly({m: c for m, c in met[i].items() if m not in live[i]}), (f1, f2)[i]) for i in (0, 1)]
        if diff(*dead) != []:
            return Outcome(t, UNKNOWN, 'interpretation', 'terms that differ are never reached: %s' % det, wh, terms)
    except RuntimeError as ex:
        return Outcome(t, UNKNOWN, 'interpretation', str(ex), wh, terms)
    return Outcome(t, EQUAL, 'random interpretation (%d cells)' % seen, '', wh, terms)
