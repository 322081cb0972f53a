"""C18: every option value that is accepted reaches an implementation, for every kind of builder; the others are replaced by a default and reported."""
from ..heap import const, top, C, Cut, Broken
from .history import Session, solver_rule, events, SAME, BASE, ELPH, NODE

KINDS = {'single-particle': (('qmeq.builder.builder_base', 'BuilderBase'), False), 'many-body': (('qmeq.builder.builder_base', 'BuilderManyBody'), False),
         'elph': (('qmeq.builder.builder_elph', 'BuilderElPh'), True), 'many-body elph': (('qmeq.builder.builder_elph', 'BuilderManyBodyElPh'), True)}
TWO = ['2vN', 'py2vN']


def kerns(kind):
    return ELPH + TWO if KINDS[kind][1] else BASE


def tok(n):
    return frozenset([('o', n, 0)])


def build(proj, kind, kern, options=None, track=()):
    builder, elph = KINDS[kind]
    opts = {n: (v if not isinstance(v, (str, int, bool, type(None))) else const(v, tok(n))) for n, v in (options or {}).items()}
    if kern is None:
        kern = 'Pauli'
    return Session(proj, (kern, elph), opts, builder=builder)


def broken(s, n0=0):
    bad = [e for e in s.I.events[n0:] if e[0] in ('no-attribute', 'none-attribute')]
    return bad[0] if bad else None


def warned(s, n0=0):
    return any(e[0] == 'print' for e in s.I.events[n0:])


def short(v):
    return '|'.join(sorted(str(c[1]) for c in v.consts)) or '?'


def single(v):
    """the one value of an option, ('?',) if it is not known"""
    cs = {c for c in v.consts}
    if v.top or v.objs or len(cs) != 1:
        return ('?',)
    return next(iter(cs))[-1] if next(iter(cs)) is not None else None


def implementation(s):
    """(kerntype of the approach in use, file of its class)"""
    ap = s.path('appr')
    cls = {s.st.heap[q].cls for q, w in ap.objs}
    return single(s.get(ap, 'kerntype')), sorted(c.module.relpath for c in cls if c is not None)


def expected_home(kind, kern):
    elph = KINDS[kind][1] and kern not in TWO
    return 'approach/%s/' % ('elph' if elph else 'base'), '.py' if kern.startswith('py') else '.pyx'


def home_ok(kind, kern, files):
    d, ext = expected_home(kind, kern)
    return len(files) == 1 and d in files[0] and files[0].endswith(ext)


# ---- what is accepted: (option, value given, value in use, whether it is reported)
def accepted(kind, kern):
    rtd, two = 'RTD' in kern, kern in TWO
    if rtd:
        yield 'itype', 1, 1, False
        for v in (0, 2, 3, 7):
            yield 'itype', v, 1, True
    else:
        for v in (0, 1, 2, 3):
            yield 'itype', v, v, False
        for v in (4, -1, 7, -3, 10):
            yield 'itype', v, 0, True
    yield 'mfreeq', False, False, False
    yield 'mfreeq', True, not (rtd or two), rtd or two
    if KINDS[kind][1]:
        for v in (0, 2):
            yield 'itype_ph', v, v, False
        for v in (1, 3, 5, -1, 4):
            yield 'itype_ph', v, 0, True
    if kind.startswith('many-body'):
        return
    yield 'indexing', None, 'charge', False
    for v in ('Lin', 'charge', 'sz', 'ssq'):
        good = v == 'charge' or not rtd and (v == 'Lin' or not two)
        yield 'indexing', v, v if good else 'charge', not good
    for v in ('other', 'lin', 'SSQ', 'CHARGE', 's', ''):
        yield 'indexing', v, 'charge', True
    if rtd:
        yield 'symmetry', 'spin', 'charge', True
    elif two:
        yield 'symmetry', 'spin', 'charge', False
    else:
        yield 'symmetry', 'spin', 'ssq', False


HOME = {'itype': ('funcp', 'itype'), 'mfreeq': ('funcp', 'mfreeq'), 'itype_ph': ('funcp', 'itype_ph'), 'indexing': ('si', 'indexing'), 'symmetry': ('si', 'indexing')}
# options that are handed on as they are
HANDED = ['symq', 'norm_row', 'solmethod', 'dqawc_limit', 'phi0_init', 'kpnt', 'mtype_qd', 'mtype_leads', 'eps_elph']
SETTABLE = ['symq', 'norm_row', 'solmethod', 'itype', 'dqawc_limit', 'phi0_init', 'kpnt', 'off_diag_corrections', 'itype_ph', 'eps_elph']
ON_DOT = {'herm_hs': ('qd', 'herm_hs'), 'herm_c': ('qd', 'herm_c'), 'm_less_n': ('qd', 'm_less_n')}


def c18(rep, proj, tier):
    jobs = [('kern', k, None) for k in KINDS]
    jobs += [('plumb', k, None) for k in KINDS]
    for k in KINDS:
        for kern in kerns(k):
            jobs.append(('accept', k, kern))
            jobs.append(('solve', k, kern))
            jobs.append(('switch', k, kern))
    for elph in (False, True):
        for kern in ALLKERN:
            jobs.append(('indexing', 'BuilderElPh' if elph else 'Builder', ('elph ' if elph else '') + kern))
    rep.parallel(job, jobs, proj, tier)
    rep.assume('an approach class given instead of a name is taken as it is')
    rep.count('functions interpreted', len(rep.distinct))


def job(rep, j, proj, tier):
    what, kind, kern = j
    f = {'kern': names, 'plumb': plumbing, 'accept': acceptance, 'solve': solving, 'switch': switching, 'indexing': indexings}[what]
    lab = ' '.join(x for x in (kind, kern or '', what) if x)
    rep.guarded(lab, f, rep, proj, kind, kern)


ALLKERN = ('Pauli', 'Lindblad', 'Redfield', '1vN', '2vN', 'RTD', 'pyPauli', 'pyLindblad', 'pyRedfield', 'py1vN', 'py2vN', 'pyRTD')


def indexings(rep, proj, kind, kern):
    """an indexing the constructor does not combine with an approach is not combined with it later either"""
    from . import bounds
    for ix in bounds.INDEXINGS:
        lab = '%s kerntype=%s indexing=%s' % (kind, kern.split(' ')[-1], ix)
        ways = bounds.reach(proj, kern, ix)
        if ways is None:
            rep.unknown(lab, 'whether the builder accepts the combination')
        elif len(ways) == 1:
            rep.finding('indexing/' + lab, '%s: %s is accepted but the other way to ask for the combination is not' % (lab, ways[0]), ['qmeq/builder/builder_base.py (BuilderBase.set_kerntype)', 'qmeq/builder/validation.py'], '')
        else:
            rep.ok(lab, 'accepted both ways' if ways else 'rejected both ways')


def names(rep, proj, kind, _):
    """names of master equations"""
    bad = 0
    cases = [(k, k, False) for k in kerns(kind)] + [(v, 'Pauli', True) for v in ('other', 'redfield', 'PAULI', 'py', '1vn')] + ([(k, 'Pauli', True) for k in ('RTD', 'pyRTD')] if KINDS[kind][1] else [])
    for given, use, warn in cases:
        lab = '%s kerntype=%s' % (kind, given)
        try:
            s = build(proj, kind, given, {'itype': 1})
        except Broken as ex:
            rep.finding('%s/breaks' % lab, '%s: %s' % (lab, ex), [], '')
            continue
        bad += not name_ok(rep, proj, s, kind, lab, use, warn, 0)
        s.finish(rep)
        if given == use:
            continue
        # the other options are those of the master equation in use
        init = proj.lookup(proj.find_class(*KINDS[kind][0]), '__init__')
        for opt, v, u, _ in accepted(kind, use):
            if opt in init.args:
                s = build(proj, kind, given, {opt: v})
                check_value(rep, s, '%s %s=%s' % (lab, opt, v), opt, u, True, 0)
                s.finish(rep)
    return bad


def name_ok(rep, proj, s, kind, lab, use, warn, n0):
    e = broken(s, n0)
    if e:
        rep.finding('%s/breaks' % lab, '%s: %s' % (lab, e[1]), [e[2]], ' > '.join(e[3][-4:]))
        return False
    kt, files = implementation(s)
    if kt == '?' or not files:
        rep.unknown(lab, 'the approach in use is not known')
        return True
    if kt != use or not home_ok(kind, use, files):
        rep.finding('%s/class' % lab, '%s: the approach in use is %s (%s), not %s' % (lab, kt, ', '.join(files), use), files, '')
        return False
    if warned(s, n0) != warn:
        rep.finding('%s/reported' % lab, '%s: %s' % (lab, 'an accepted value is reported as wrong' if not warn else 'another value is used without telling the user'), [], '')
        return False
    rep.ok(lab, '%s in %s' % (kt, files[0]))
    return True


def acceptance(rep, proj, kind, kern):
    init = proj.lookup(proj.find_class(*KINDS[kind][0]), '__init__')
    for opt, given, use, warn in accepted(kind, kern):
        if opt not in init.args:
            continue
        lab = '%s %s %s=%s' % (kind, kern, opt, given)
        base = {'itype': 1} if opt != 'itype' else {}
        s = build(proj, kind, kern, dict(base, **{opt: given}))
        check_value(rep, s, lab, opt, use, warn, 0)
        s.finish(rep)


def check_value(rep, s, lab, opt, use, warn, n0):
    e = broken(s, n0)
    if e:
        rep.finding('%s/breaks' % lab, '%s: %s' % (lab, e[1]), [e[2]], ' > '.join(e[3][-4:]))
        return
    v = s.path(*HOME[opt])
    got = single(v)
    if not v.top and not v.objs and v.consts == {C(use), C('Lin')} and use in ('sz', 'ssq'):
        # an odd number of states has no spin copies
        rep.ok(lab, '%r is in use, Lin for an odd number of states' % (use,))
        return
    if got == '?' or got == ('?',):
        rep.unknown(lab, 'the value in use is not known')
    elif got != use or (type(got) is bool) != (type(use) is bool):
        rep.finding('%s/value' % lab, '%s: the value in use is %r, not %r' % (lab, got, use), [], '')
    elif warned(s, n0) != warn:
        rep.finding('%s/reported' % lab, '%s: %s' % (lab, 'an accepted value is reported as wrong' if not warn else 'another value is used without telling the user'), [], '')
    else:
        rep.ok(lab, '%r is in use' % (use,))


def plumbing(rep, proj, kind, _):
    """an option given to the constructor arrives where it is read from, and nothing else does"""
    init = proj.lookup(proj.find_class(*KINDS[kind][0]), '__init__')
    given = {n: top(tok(n)) for n in HANDED + list(ON_DOT) if n in init.args}
    for kern in ('Redfield', '2vN'):
        s = build(proj, kind, kern, dict(given, itype=1, mfreeq=False, **({'itype_ph': 0} if 'itype_ph' in init.args else {})))
        for n in sorted(given):
            lab = '%s %s %s' % (kind, kern, n)
            v = s.path(*ON_DOT.get(n, ('funcp', n)))
            src = {t[1] for t in s.I.content(s.st, v) if t[0] == 'o'}
            if n not in src or src - {n}:
                rep.finding('%s/constructor' % lab, '%s: the value given to the constructor %s' % (lab, 'does not arrive' if n not in src else 'arrives mixed with %s' % ', '.join(sorted(src - {n}))), [], '')
            else:
                rep.ok(lab, 'arrives at %s' % '.'.join(ON_DOT.get(n, ('funcp', n))))
        # and by assignment
        for n in SETTABLE:
            if n not in init.args and n != 'off_diag_corrections':
                continue
            lab = '%s %s assigned %s' % (kind, kern, n)
            n0 = len(s.I.events)
            s.set(n, const(1, frozenset([('o', n, 1)])))
            src = {t for t in s.I.content(s.st, s.path('funcp', n)) if t[0] == 'o'}
            back = {t for t in s.I.content(s.st, s.get(s.b, n)) if t[0] == 'o'}
            e = broken(s, n0)
            if ('o', n, 1) not in src or ('o', n, 1) not in back or e:
                rep.finding('%s/assigned' % lab, '%s: a value assigned to the builder %s' % (lab, 'breaks: ' + e[1] if e else 'does not arrive'), [e[2]] if e else [], '')
            else:
                rep.ok(lab, 'arrives')
        s.finish(rep)


ROOTS = ('hybr', 'lm', 'broyden2', 'anderson', 'linearmixing', 'diagbroyden', 'excitingmixing', 'df-sane')


def combos(kind, kern):
    """options of one solve"""
    rtd, two = 'RTD' in kern, kern in TWO
    for symq in (True, False):
        for m in (None, 'solve', 'lsqr'):
            yield {'symq': symq, 'solmethod': m}
            if not rtd and not two:
                yield {'symq': symq, 'solmethod': m, 'mfreeq': True} if m is None else {'symq': symq, 'solmethod': {'solve': 'krylov', 'lsqr': 'broyden1'}[m], 'mfreeq': True}
    if kern in ('1vN', 'pyPauli'):
        # the other root finders which find a stationary state
        for m in ROOTS:
            yield {'mfreeq': True, 'solmethod': m}
    if rtd:
        yield {'off_diag_corrections': True}
        yield {'off_diag_corrections': False}
    elif not two:
        for v in (0, 1, 2, 3):
            yield {'itype': v}
            yield {'itype': v, 'mfreeq': True}
    if kind == 'elph' and not two:
        for v in (0, 2):
            yield {'itype_ph': v}
    if not kern.startswith('py') and not two:
        yield {'make_kern_copy': True}
    if not kind.startswith('many-body'):
        for v in ('Lin', 'charge', 'sz', 'ssq'):
            if v == 'charge' or not rtd and (v == 'Lin' or not two):
                yield {'indexing': v}


LATE = ('off_diag_corrections', 'make_kern_copy')
RES = ('phi0', 'current', 'energy_current', 'heat_current', 'paulifct', 'phi1fct', 'phi1fct_energy')


def run(proj, kind, kern, opts):
    s = build(proj, kind, kern, {n: v for n, v in opts.items() if n not in LATE})
    for n in LATE:
        if n in opts:
            s.set(n, const(opts[n], tok(n)))
    n0 = len(s.I.events)
    s.solve()
    return s, n0


def need(kern, opts):
    """parameters that may stay without influence for these options"""
    free = {'coulomb'}
    if opts.get('itype', 1) in (1, 3) or 'Pauli' in kern or 'Lindblad' in kern:
        free.add('dband')
    if 'itype' in opts:
        free.add('dqawc_limit')
    return free


def solving(rep, proj, kind, kern):
    ref, _ = run(proj, kind, kern, {})
    want = {n: {t[1] for t in d if t[0] == 'p'} for n, (v, d) in ref.results(RES).items()}
    for opts in combos(kind, kern):
        lab = '%s %s %s' % (kind, kern, ' '.join('%s=%s' % x for x in sorted(opts.items())))
        try:
            s, n0 = run(proj, kind, kern, opts)
        except Cut as ex:
            rep.unknown(lab, str(ex))
            continue
        s.finish(rep)
        e = broken(s)
        if e:
            rep.finding('%s/breaks' % lab, '%s: the solve breaks: %s' % (lab, e[1]), [e[2]], ' > '.join(e[3][-4:]))
            continue
        used = {SAME.get(x[1], x[1]) for x in s.I.events[n0:] if x[0] == 'solver'}
        msg = solver_rule({n: v for n, v in opts.items() if n in ('symq', 'solmethod', 'mfreeq')}, used)
        if msg:
            rep.finding('%s/solver' % lab, '%s: the solve %s' % (lab, msg), [], ', '.join(sorted(used)) or 'no solver call')
            continue
        n = 0
        for r, (v, d) in s.results(RES).items():
            miss = want[r] - {t[1] for t in d if t[0] == 'p'} - need(kern, opts)
            if miss:
                rep.finding('%s/%s' % (lab, r), '%s: %s does not depend on %s, as it does without these options' % (lab, r, ', '.join(sorted(miss))), [], '')
                n += 1
        if not n:
            rep.ok(lab, 'solved by %s' % ', '.join(sorted(used)))


def switching(rep, proj, kind, kern):
    """values set after construction"""
    for given, use in [(k, k) for k in kerns(kind)] + [('other', 'Pauli')] + ([('RTD', 'Pauli')] if KINDS[kind][1] else []):
        if given == kern or given.startswith('py') != kern.startswith('py') and given not in ('Pauli', 'pyPauli'):
            continue
        for m in (False, True):
            if m and ('RTD' in kern or kern in TWO):
                continue
            lab = '%s %s%s then kerntype=%s' % (kind, kern, ' mfreeq=True' if m else '', given)
            s = build(proj, kind, kern, {'itype': 1, 'mfreeq': m})
            n0 = len(s.I.events)
            try:
                s.set('kerntype', const(given))
            except Broken as ex:
                rep.finding('%s/breaks' % lab, '%s: %s' % (lab, ex), [], '')
                continue
            s.cfg = (use, s.cfg[1])
            lost = m and ('RTD' in use or use in TWO)
            if name_ok(rep, proj, s, kind, lab, use, given != use or lost, n0):
                after(rep, s, lab, m and not lost)
            s.finish(rep)
    lab = '%s %s then mfreeq=True' % (kind, kern)
    s = build(proj, kind, kern, {'itype': 1, 'mfreeq': False})
    n0 = len(s.I.events)
    s.set('mfreeq', const(True, frozenset([('o', 'mfreeq', 1)])))
    lost = 'RTD' in kern or kern in TWO
    check_value(rep, s, lab, 'mfreeq', not lost, lost, n0)
    after(rep, s, lab, not lost)
    s.finish(rep)


def after(rep, s, lab, mfree):
    n0 = len(s.I.events)
    s.solve()
    e = broken(s, n0)
    used = {SAME.get(x[1], x[1]) for x in s.I.events[n0:] if x[0] == 'solver'}
    if e:
        rep.finding('%s/breaks' % lab, '%s: the next solve breaks: %s' % (lab, e[1]), [e[2]], ' > '.join(e[3][-4:]))
    elif any(u.startswith('root:') for u in used) != mfree or not used:
        rep.finding('%s/solver' % lab, '%s: the next solve uses %s' % (lab, ', '.join(sorted(used)) or 'no solver'), [], '')
    else:
        rep.ok(lab + ' solve', ', '.join(sorted(used)))
