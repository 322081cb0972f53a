"""C11-C13, C17, C19: what a builder's results depend on after a history of calls, by abstract interpretation over an abstract heap."""
import ast
from ..frontend import AnchorMissing
from .. import heap as H
from ..heap import Interp, State, Obj, AV, FakeFn, const, top, join, NONE, C, Cut, EMPTY

NODE = ast.parse('x').body[0]

BASE = ['pyPauli', 'pyLindblad', 'pyRedfield', 'py1vN', 'py2vN', 'pyRTD', 'Pauli', 'Lindblad', 'Redfield', '1vN', '2vN', 'RTD']
ELPH = ['pyPauli', 'pyLindblad', 'pyRedfield', 'py1vN', 'Pauli', 'Lindblad', 'Redfield', '1vN']
CONFIGS = [(k, False) for k in BASE] + [(k, True) for k in ELPH]

PARAMS = ['hsingle', 'coulomb', 'tleads', 'mulst', 'tlst', 'dband']
PARAMS_ELPH = ['velph', 'tlst_ph', 'dband_ph']
RESULTS = ['phi0', 'phi1', 'current', 'energy_current', 'heat_current', 'kern', 'success']
ITERATED = ('current', 'energy_current', 'heat_current', 'kern', 'bvec', 'phi0')
OPTIONS = {'norm_row': None, 'dqawc_limit': None, 'phi0_init': None, 'kpnt': None}


def label(cfg):
    return ('elph ' if cfg[1] else '') + cfg[0]


def monotone_caches(proj):
    """fields computed for a bound and recomputed whenever a larger bound is asked for: good for every smaller one"""
    out = {}
    for mod in proj.modules.values():
        for ci in mod.classes.values():
            for m in ci.methods.values():
                for n in ast.walk(m.node):
                    if not (isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and len(n.test.ops) == 1 and isinstance(n.test.ops[0], (ast.Lt, ast.LtE))):
                        continue
                    key, new = n.test.left, n.test.comparators[0]
                    if not (isinstance(key, ast.Attribute) and isinstance(key.value, ast.Name) and key.value.id == 'self'):
                        continue
                    fields, kept = set(), False
                    for b in n.body:
                        if isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Attribute):
                            fields.add(b.targets[0].attr)
                            kept = kept or b.targets[0].attr == key.attr and ast.dump(b.value) == ast.dump(new)
                    if kept:
                        out[(ci.name, key.attr)] = '%s:%d' % (mod.relpath, n.lineno)
                        for f in fields:
                            out[(ci.name, f)] = '%s:%d' % (mod.relpath, n.lineno)
    return out


class Session(object):
    """a builder of one kerntype and a sequence of calls on it"""

    def __init__(self, proj, cfg, options=None, except_paths=False, builder=None, tracked=()):
        self.p, self.cfg = proj, cfg
        self.I = Interp(proj, except_paths=except_paths)
        self.I.tracked = set(tracked)
        self.st = State()
        self.users = {}
        self.caches = monotone_caches(proj)
        kern, elph = cfg
        mod, name = builder or (('qmeq.builder.builder_elph', 'BuilderElPh') if elph else ('qmeq.builder.builder_base', 'BuilderBase'))
        self.cls = proj.find_class(mod, name)
        self.I.callstack.append((FakeFn(self.cls.module), 0))
        self.opts = {}
        kw = {'kerntype': const(kern), 'nsingle': top(frozenset([('n', 'nsingle')])), 'nleads': top(frozenset([('n', 'nleads')]))}
        init = proj.lookup(self.cls, '__init__')
        for n in PARAMS + (PARAMS_ELPH if elph else []):
            if n in init.args:
                kw[n] = self.user_dict(n)
        if elph:
            kw['nbaths'] = top(frozenset([('n', 'nbaths')]))
            kw['bath_func'] = NONE
        for n in ('norm_row', 'dqawc_limit', 'kpnt', 'eps_elph'):
            if n in init.args:
                kw[n] = top(frozenset([('o', n, 0)]))
        for n, v in (('symq', True), ('solmethod', None), ('itype', 1), ('mfreeq', False), ('itype_ph', 0), ('phi0_init', None)):
            if n in init.args:
                kw[n] = const(v, frozenset([('o', n, 0)]))
        for n in ('Ea', 'Tba', 'Vbbp', 'Na'):
            if n in init.args:
                kw[n] = self.user_dict(n, kind='array')
        for n, v in (options or {}).items():
            kw[n] = v(self) if callable(v) else v
        self.kw = kw
        H.DATA.clear()
        H.DATA.update(PARAMS + PARAMS_ELPH + ['Ea', 'Tba', 'Vbbp', 'tleads_array'])
        self.b = self.I.instantiate(self.cls, [], kw, self.st, NODE)
        self.phase = 0

    def user_dict(self, nm, kind='dict', label=None, version=0):
        oid = hash(('user', nm, kind, version))
        o = Obj(kind, label=nm, user=label or 'the %s given by the user' % nm)
        tk = frozenset([('p', nm, version)])
        o.elem, o.stores, o.shape = top(tk), {('init',): (tk, 0, False)}, tk
        self.st.heap[oid] = o
        return AV(objs=frozenset([(oid, False)]))

    def enter(self, solving=False):
        self.phase += 1
        self.I.phase = self.phase
        self.I.solving = solving
        if solving:
            self.I.solve_phases = self.I.solve_phases | frozenset([self.phase])

    def get(self, obj, name):
        return self.I.getattr(obj, name, self.st, NODE)

    def path(self, *names):
        v = self.b
        for n in names:
            v = self.get(v, n)
        return v

    def set(self, name, v):
        self.I.setattr(self.b, name, v, self.st, NODE)

    def call(self, name, args=(), kw=None):
        return self.I.call(self.get(self.b, name), list(args), dict(kw or {}), self.st, NODE)

    def solve(self, **kw):
        self.enter(True)
        if '2vN' in self.cfg[0]:
            kw.setdefault('niter', top())
        self.call('solve', (), kw)

    def results(self, names=RESULTS):
        out = {}
        ap = self.path('appr')
        for n in names:
            v = self.get(ap, n)
            out[n] = (v, self.I.content(self.st, v))
        return out

    def new_parameters(self, names=tuple(PARAMS + PARAMS_ELPH)):
        """these parameters may have another value from here on: what the solver did not write itself carries the new values"""
        I, st = self.I, self.st
        for n in names:
            I.versions[('param', n)] = 1

        def up(deps):
            if any(t[0] == 'p' and t[2] == 0 and t[1] in names for t in deps):
                return frozenset(('p', t[1], 1) if t[0] == 'p' and t[1] in names else t for t in deps)
            return deps

        def upv(v):
            return AV(v.consts, v.objs, v.top, up(v.deps))
        self.keep_caches(up)
        for oid in list(st.heap):
            o = st.mut(oid)
            o.fields = {f: (upv(v), ph) if ph not in I.solve_phases else (v, ph) for f, (v, ph) in o.fields.items()}
            if isinstance(o.items, list):
                o.items = [upv(v) for v in o.items] if o.born not in I.solve_phases else o.items
            elif isinstance(o.items, dict):
                o.items = {k: upv(v) for k, v in o.items.items()} if o.born not in I.solve_phases else o.items
            if o.born not in I.solve_phases:
                o.base = upv(o.base)
                o.shape = up(o.shape)
            o.puts = {s: ((upv(v) if ph not in I.solve_phases else v), ph) for s, (v, ph) in o.puts.items()}
            o.stores = {s: ((up(d) if ph not in I.solve_phases else d), ph, acc) for s, (d, ph, acc) in o.stores.items()}

    def keep_caches(self, up):
        """what is kept for as long as it is good enough counts as computed from the present values"""
        for oid in list(self.st.heap):
            o = self.st.heap[oid]
            if o.kind == 'inst' and o.cls is not None:
                good = {f for c, f in self.caches if any(k.name == c for k in self.p.mro(o.cls))} & set(o.fields)
                if good:
                    o = self.st.mut(oid)
                for f in good:
                    v, ph = o.fields[f]
                    for q, _ in v.objs:
                        self.refresh(q, up)
                    o.fields[f] = (AV(v.consts, v.objs, v.top, up(v.deps)), ph)

    def forget(self, part, field, opt):
        """the field carries a choice that may stay"""
        for oid, w in self.path(part).objs:
            o = self.st.mut(oid)
            if field in o.fields:
                v, ph = o.fields[field]
                o.fields[field] = (AV(v.consts, v.objs, v.top, frozenset(t for t in v.deps if t[1] != opt)), ph)

    def refresh(self, oid, up):
        o = self.st.mut(oid)
        o.base = AV(o.base.consts, o.base.objs, o.base.top, up(o.base.deps))
        o.shape = up(o.shape)
        o.stores = {s: (up(d), ph, acc) for s, (d, ph, acc) in o.stores.items()}

    def finish(self, rep):
        for (c, f), w in sorted(self.caches.items()):
            rep.assume('%s.%s is kept while the bound it was computed for is large enough (%s): the kept value is as good as a new one' % (c, f, w))
        for k, v in self.I.notes.items():
            rep.assume('not modelled: %s' % k)
        rep.name('%s:%s' % (f.module.relpath, f.qualname) for f in self.I.visited if hasattr(f, 'module'))


def sites(s, v):
    """where the current content of a result was written"""
    out = set()
    for oid, w in v.objs:
        o = s.st.heap.get(oid)
        if o is not None:
            out |= {x for x in o.stores}
    return out


def describe(site):
    return '%s:%s' % (site[1], site[2]) if len(site) > 2 and site[0] == 's' else str(site)


def profile(s, names=RESULTS):
    """for every result: what it depends on (without version numbers) and which statements wrote it"""
    out = {}
    for n, (v, deps) in s.results(names).items():
        out[n] = (frozenset((t[0], t[1]) for t in deps if t[0] in 'po' and t not in s.I.outdated(deps)), frozenset(x for x in sites(s, v) if x[0] == 's'),
                  frozenset(c[1] if c[0] != 'ext' else c[1] for c in v.consts if c is not None) if not v.objs and not v.top else None)
    return out


# (option, values, other options): every ordered pair of values is tried; None is any value to any other
def option_cases(cfg, tier):
    kern, elph = cfg
    two, rtd, py = '2vN' in kern, 'RTD' in kern, kern.startswith('py')
    yield 'symq', [True, False], {}
    yield 'norm_row', None, {}
    yield 'solmethod', ['solve', 'lsqr'], {}
    if not two and not rtd:
        yield 'mfreeq', [False, True], {}
        yield 'mfreeq', [False, True], {'symq': False}
        yield 'solmethod', ['krylov', 'broyden1'], {'mfreeq': True}
        yield 'phi0_init', None, {'mfreeq': True}
    if not py and not two:
        yield 'make_kern_copy', [False, True], {}
    if two:
        yield 'kpnt', None, {}
    elif not rtd:
        yield 'itype', [0, 1, 2, 3], {}
        yield 'dqawc_limit', None, {}
    yield 'dband', None, {}
    for n in ('mulst', 'tlst', 'dlst'):
        yield n, 'array', {}
    if rtd:
        yield 'off_diag_corrections', [True, False], {}
    if elph and not two:
        yield 'itype_ph', [0, 2], {}
        yield 'eps_elph', None, {}
        for n in ('tlst_ph', 'dlst_ph'):
            yield n, 'array', {}


def c12(rep, proj, tier):
    rep.parallel(c12_config, CONFIGS, proj, tier)
    rep.count('functions interpreted', len(rep.distinct))


def c12_config(rep, cfg, proj, tier):
    if True:
        for opt, values, other in option_cases(cfg, tier):
            pairs = [(a, b) for a in values for b in values if a != b] if isinstance(values, list) else [(None, None)]
            for a, b in pairs:
                what = '%s%s %s' % (label(cfg), ''.join(' %s=%s' % x for x in other.items()), opt) + ('' if not isinstance(values, list) else ' %s -> %s' % (a, b))
                rep.guarded(what, c12_case, rep, proj, cfg, opt, a, b, values, other, what)
    rep.assume('the solution method chosen at the first solve may stay in use as long as it is valid for the new options')


LATE = ('off_diag_corrections', 'make_kern_copy')
DIRECT = ('kern', 'phi0', 'current')


def c12_case(rep, proj, cfg, opt, a, b, values, other, what):
    base = {n: const(v) for n, v in other.items()}
    anyvalue = not isinstance(values, list)
    param = opt == 'dband' or values == 'array'
    token = {'dlst': 'dband', 'dlst_ph': 'dband_ph'}.get(opt, opt)
    late = opt in LATE

    def value(x, version):
        tk = frozenset([('o', opt, version)])
        return top(tk) if anyvalue else const(x, tk)
    s = Session(proj, cfg, dict(base, **({} if late or param else {opt: value(a, 0)})))
    if late:
        s.set(opt, value(a, 0))
    s.solve()
    before = profile(s)
    s.enter()
    s.I.versions[('param', token)] = 1
    n0 = len(s.I.events)
    s.keep_caches(lambda deps: frozenset(t[:2] + (1,) if t[:2] == ('p', token) else t for t in deps))
    if opt != 'solmethod':
        s.forget('funcp', 'solmethod', opt)
    if opt == 'dband':
        s.set('dband', s.user_dict('dband', kind='dict', label='the new dband', version=1))
    elif param:
        s.set(opt, s.user_dict(token, kind='array', label='the new %s' % opt, version=1))
    else:
        s.set(opt, value(b, 1))
    s.solve()
    after = profile(s)
    old = {n: s.I.outdated(d) for n, (v, d) in s.results().items()}
    first = fresh = before
    if not param:
        # the same option given from the start
        f = Session(proj, cfg, dict(base, **({} if late else {opt: value(b, 1)})))
        f.I.versions[('param', opt)] = 1
        if late:
            f.set(opt, value(b, 1))
        f.solve()
        first = profile(f)
        f.solve()
        fresh = profile(f)
    s.finish(rep)
    bad = [e for e in s.I.events[n0:] if e[0] in ('no-attribute', 'none-attribute')]
    if bad:
        e = bad[0]
        rep.finding('%s/breaks' % what, '%s: changing %s after a solve breaks the next one: %s' % (label(cfg), opt, e[1]), [e[2]], ' > '.join(e[3][-4:]))
        return
    n = 0
    used = {SAME.get(e[1], e[1]) for e in s.I.events[n0:] if e[0] == 'solver'}
    msg = solver_rule(dict(other, **({} if anyvalue else {opt: b})), used)
    if msg:
        rep.finding('%s/solver' % what, '%s: after %s was changed from %s to %s the next solve %s' % (label(cfg), opt, a, b, msg), [], ', '.join(sorted(used)) or 'no solver call')
        n += 1
    for r in RESULTS:
        if opt == 'mfreeq' and b and r == 'kern':
            continue                # the matrix of an earlier solve; a matrix-free solve computes none
        stale = [t for t in old[r] if t[1] == opt and not param]
        if stale:
            rep.finding('%s/%s' % (what, r), '%s: after %s was changed, %s still depends on its old value' % (label(cfg), opt, r), [], '')
            n += 1
        elif param:
            want = token in {t[1] for t in before[r][0]}
            if want and ('p', token, 1) not in s.results()[r][1]:
                rep.finding('%s/%s' % (what, r), '%s: a new %s does not reach %s in the next solve' % (label(cfg), opt, r), [], '')
                n += 1
            if values == 'array' and r in DIRECT and [t for t in old[r] if t[1] == token]:
                rep.finding('%s/%s' % (what, r), '%s: after %s was assigned, %s still uses the old array in the next solve' % (label(cfg), opt, r), [], '')
                n += 1
        elif anyvalue:
            want, got = (opt in {t[1] for t in fresh[r][0]}), (opt in {t[1] for t in after[r][0]})
            if want and not got:
                rep.finding('%s/%s' % (what, r), '%s: a new value of %s does not reach %s' % (label(cfg), opt, r), [], '')
                n += 1
        else:
            # a first and a second solve write the same, except that the second one starts from cleared arrays
            least, most, got = fresh[r][1] & first[r][1], fresh[r][1] | first[r][1], after[r][1]
            if least - got or got - most:
                miss, more = sorted(map(describe, least - got)), sorted(map(describe, got - most))
                rep.finding('%s/%s' % (what, r), '%s: after %s was changed from %s to %s, %s is not computed the way it is when %s=%s is given from the start' % (label(cfg), opt, a, b, r, opt, b),
                            (miss + more)[:4], 'only from the start: %s; only after the change: %s' % (', '.join(miss[:4]) or '-', ', '.join(more[:4]) or '-'))
                n += 1
    if not n:
        rep.ok(what, 'the second solve computes what a new builder computes')


SAME = {'dgesv': 'solve', 'zgesv': 'solve', 'dgelsd': 'lstsq', 'zgelsd': 'lstsq'}


def solver_rule(opts, used):
    """which solver may be used with these options (those that were set)"""
    method = opts.get('solmethod')
    if opts.get('mfreeq'):
        if any(not u.startswith('root:') for u in used) or not used:
            return 'does not use a matrix-free solver'
        if any(u.split(':')[1] in ('solve', 'lsqr', 'lsmr', '?', 'None') for u in used):
            return 'hands the root finder a method it does not know'
        if method is not None and used != {'root:' + method}:
            return 'does not use %s' % method
        return ''
    if any(u.startswith('root:') for u in used) or not used:
        return 'does not solve the kernel matrix'
    if opts.get('symq') is False:
        return '' if used == {'lstsq'} else 'does not use least squares for the rectangular kernel'
    if method == 'solve':
        return '' if used == {'solve'} else 'does not use the solution method solve'
    if method == 'lsqr':
        return '' if used == {'lstsq'} else 'does not use the solution method lsqr'
    return ''


def events(s, kinds):
    return [e for e in s.I.events if e[0] in kinds]


VARIANTS = [('', {}), (' (matrix-free)', {'mfreeq': True}), (' (least squares)', {'symq': False}), (' (lsqr, not symmetric)', {'symq': False, 'solmethod': 'lsqr'})]


def variants(cfg):
    for suffix, opts in VARIANTS:
        if opts and ('2vN' in cfg[0]):
            continue
        if opts.get('mfreeq') and 'RTD' in cfg[0]:
            continue
        yield suffix, {n: const(v, frozenset([('o', n, 0)])) for n, v in opts.items()}


def c11(rep, proj, tier):
    rep.parallel(c11_config, CONFIGS, proj)
    rep.count('functions interpreted', len(rep.distinct))


def c11_config(rep, cfg, proj):
    for suffix, opts in variants(cfg):
        lab = label(cfg) + suffix
        try:
            s = Session(proj, cfg, opts)
            s.solve()
            first = s.results()
            s.new_parameters()
            s.solve()
            second = s.results()
        except Cut as ex:
            rep.unknown(lab, str(ex))
            continue
        s.finish(rep)
        if '2vN' in cfg[0]:
            s.enter(True)
            n0 = len(s.I.events)
            s.I.call(s.get(s.path('appr'), 'iteration'), [], {}, s.st, NODE)
            bad = [e for e in s.I.events[n0:] if e[0] == 'accumulates' and e[1] in ITERATED]
            for k, text, where, stack, extra in bad:
                rep.finding('%s/iteration/%s' % (lab, text), '%s: a further iteration adds to %s, which still holds what the previous one left in it' % (lab, text), [where], ' > '.join(stack[-4:]))
            if not bad:
                rep.ok('%s iteration' % lab, 'kern and currents start from zero in every iteration')
        for k, text, where, stack, extra in events(s, ('accumulates',)):
            if s.phase > 2 and (k, text, where, stack, extra) in s.I.events[n0:]:
                continue
            rep.finding('%s/accumulates/%s/%s' % (lab, text, stack[-1]), '%s: a second solve adds to %s, which still holds what the first solve left in it' % (lab, text),
                        [where], ' > '.join(stack[-4:]) + '; ' + str(extra))
        for n in RESULTS:
            v, deps = second[n]
            old = s.I.outdated(deps)
            if old:
                rep.finding('%s/%s' % (lab, n), '%s: after a second solve %s still depends on parameter values of the first' % (lab, n), [], ', '.join('%s' % t[1] for t in old))
            elif deps or n in ('success',):
                rep.ok('%s %s' % (lab, n), 'depends on %s' % ', '.join(sorted({t[1] for t in deps if t[0] == 'p'})))
            elif v.one() is not None:
                pass
            else:
                rep.unknown('%s %s' % (lab, n), 'no dependence on the parameters found')
        for n in ('phi0', 'current', 'energy_current', 'heat_current'):
            miss = [p for p in PARAMS if ('p', p, 1) not in second[n][1] and p != 'coulomb']
            if miss:
                rep.unknown('%s %s' % (lab, n), 'does not seem to depend on %s' % ', '.join(miss))
        for k in range(3):
            c11_same_dot(rep, cfg, proj, opts, lab, k, second)


LEADS = ('mulst', 'tlst', 'dband', 'tlst_ph', 'dband_ph')


def c11_same_dot(rep, cfg, proj, opts, lab, k, full):
    """a sweep that keeps the eigenstates: solve, new chemical potentials, temperatures and bandwidths, solve(qdq=False)"""
    complete, first = full, [{}, {'masterq': False}, {}][k]
    second = [{'qdq': False}, {'qdq': False}, {'rotateq': False}][k]
    what = '%s solve(%s) then solve(%s)' % (lab, ', '.join('%s=%s' % x for x in first.items()), ', '.join('%s=%s' % x for x in second.items()))
    try:
        s = Session(proj, cfg, opts)
        s.solve(**{n: const(v) for n, v in first.items()})
        s.new_parameters(LEADS)
        n0 = len(s.I.events)
        s.solve(**{n: const(v) for n, v in second.items()})
        got = s.results()
    except Cut as ex:
        rep.unknown(what, str(ex))
        return
    s.finish(rep)
    bad = [e for e in s.I.events[n0:] if e[0] in ('no-attribute', 'none-attribute')]
    if bad:
        rep.finding('%s/breaks' % what, '%s: the second solve breaks: %s' % (what, bad[0][1]), [bad[0][2]], ' > '.join(bad[0][3][-4:]))
        return
    n = 0
    for r in RESULTS:
        old = sorted({t[1] for t in s.I.outdated(got[r][1])})
        if old:
            n += 1
            rep.finding('%s/%s' % (what, r), '%s: %s still depends on the old %s' % (what, r, ', '.join(old)), [], '')
        lost = sorted(t[1] for t in complete[r][1] if t[0] == 'p' and t[1] in LEADS and t[2] == 1 and t not in got[r][1])
        if lost:
            n += 1
            rep.finding('%s/%s/lost' % (what, r), '%s: the new %s does not reach %s, as it does in a complete solve' % (what, ', '.join(lost), r), [], '')
    if not n:
        rep.ok(what, 'the results of the second solve are those of the new parameters')


# ---------------------------------------------------------------------------------------------------------- C13
SI_CLASSES = ('StateIndexing', 'StateIndexingPauli', 'StateIndexingDM', 'StateIndexingDMc')
PARTS = ('si', 'si_elph', 'qd', 'leads', 'baths', 'funcp', 'appr')
NOT_STATE = ('states_changed', 'nmany_', 'Approach', 'globals', 'data', 'Ea_ext', 'solmethod')
OPS = {'remove_fock_states': 'fock', 'remove_states': 'dE', 'remove_coherences': 'coh', 'use_all_states': None}
SEQUENCES = [('remove_fock_states',), ('remove_states',), ('remove_coherences',), ('remove_states', 'use_all_states'), ('remove_fock_states', 'remove_states'),
             ('remove_fock_states', 'use_all_states')]
MANY_BODY = [('remove_states',), ('remove_states', 'use_all_states')]


def state_op(s, name):
    s.enter()
    s.call(name, [top(frozenset([('o', OPS[name], 0)]))] if OPS[name] else [])


def part_ids(s):
    """part -> object ids"""
    out = {}
    b = s.st.heap[next(iter(s.b.objs))[0]]
    for r in PARTS:
        v = b.fields[r][0] if r in b.fields else s.path(r) if r == 'baths' and s.cfg[1] else None
        if v is not None:
            out[r] = frozenset(q for q, w in v.objs)
    return out


def fields_of(s, roots=PARTS):
    """every attribute of the parts of a builder: path -> value"""
    out, seen = {}, set()
    st = s.st

    def walk(path, oid, depth):
        if (oid, path) in seen or depth > 2:
            return
        seen.add((oid, path))
        o = st.heap.get(oid)
        if o is None or o.kind != 'inst' or o.user:
            return
        for f, (v, ph) in o.fields.items():
            if f in NOT_STATE:
                continue
            p = path + '.' + f
            inst = [q for q, w in v.objs if q in st.heap and st.heap[q].kind == 'inst']
            if not inst:
                out[p] = v
            elif f not in PARTS:
                for q in inst:
                    walk(p, q, depth + 1)
    for r, ids in part_ids(s).items():
        for q in ids:
            walk(r, q, 0)
    return out


def references(s):
    """(path, object ids) of every reference to a part of the builder, and the part it should be"""
    st = s.st
    parts = part_ids(s)
    for r, oids in parts.items():
        for oid in oids:
            o = st.heap.get(oid)
            if o is None or o.kind != 'inst':
                continue
            for f, (v, ph) in o.fields.items():
                if f in parts and v.objs:
                    yield '%s.%s' % (r, f), frozenset(q for q, w in v.objs), parts[f], f
                for q, w in v.objs:
                    p = st.heap.get(q)
                    if p is not None and p.kind == 'inst' and f not in parts:
                        for g, (u, ph2) in p.fields.items():
                            want = {'kernel_handler_elph': 'si_elph'}.get(f, g) if g == 'si' else g
                            if want in parts and u.objs:
                                yield '%s.%s.%s' % (r, f, g), frozenset(x for x, w in u.objs), parts[want], want


def tables(s, deps):
    """the index tables a value was computed from: (part, field) -> set of versions; and the part of tokens of other objects"""
    st = s.st
    b = st.heap[next(iter(s.b.objs))[0]]
    names = {}
    for r in ('si', 'si_elph'):
        if r in b.fields:
            for q, w in b.fields[r][0].objs:
                names[q] = r
    out = {}
    for t in deps:
        if t[0] == 'f':
            out.setdefault((names.get(t[1], 'an object that is not used any more'), t[2]), set()).add(t[3] == s.I.versions.get((t[1], t[2]), 0))
    return out


# what a change of the states has to change in the state indexing itself
MUST_CHANGE = {'remove_fock_states': ('i', 'j', 'chargelst', 'nmany', 'qn_ind', 'ind_qn', 'statesdm', 'mapdm0', 'ndm0', 'ndm0r', 'npauli'),
               'remove_states': ('statesdm', 'mapdm0', 'ndm0', 'ndm0r', 'npauli', 'shiftlst0', 'dictdm', 'inddm0'),
               'use_all_states': ('statesdm', 'mapdm0', 'ndm0', 'ndm0r', 'npauli', 'shiftlst0', 'dictdm', 'inddm0'),
               'remove_coherences': ('mapdm0', 'booldm0', 'inddm0', 'ndm0', 'ndm0r')}
ALWAYS = ('states_changed',)


def part_fields(s, part):
    b = s.st.heap[next(iter(s.b.objs))[0]]
    if part not in b.fields:
        return None
    for q, w in b.fields[part][0].objs:
        return s.st.heap[q].fields
    return None


def sources(s, p, v):
    """the index tables the value of an attribute was computed from, leaving out the size an array was created with"""
    st = s.st
    b = st.heap[next(iter(s.b.objs))[0]]
    part, f = p.split('.')[0], p.split('.')[-1]
    if part in ('si', 'si_elph') and p.count('.') == 1:
        for q, w in b.fields[part][0].objs:
            return s.I.direct.get((q, f), EMPTY) | s.I.sizes.get((q, f), EMPTY)
    return written(s, v)


def written(s, v, depth=0):
    d = v.deps
    for oid, w in v.objs:
        o = s.st.heap.get(oid)
        if o is None or o.kind == 'inst' or depth > 4:
            continue
        for site, (sd, ph, acc) in o.stores.items():
            if site != ('init',) or len(o.stores) == 1:
                d = d | sd
        for x in (o.items if isinstance(o.items, list) else o.items.values() if isinstance(o.items, dict) else ()):
            d = d | written(s, x, depth + 1)
        d = d | written(s, o.elem, depth + 1)
    return d


def snapshot(s):
    """path -> index tables it was computed from (those of the present version)"""
    return {p: {t for t, v in tables(s, sources(s, p, x)).items() if True in v} for p, x in fields_of(s).items()}


def c13_session(proj, cfg, seq, first, builder=None, kern=None, indexing=None):
    """(session, tables before the changes, problems found on the way)"""
    s = Session(proj, cfg, {'indexing': const(indexing)} if indexing else None, builder=builder, tracked=SI_CLASSES)
    start = snapshot(s)
    if first:
        s.solve()
        for p, t in snapshot(s).items():
            start.setdefault(p, t)
    bad = []
    for name in seq:
        state_op(s, name)
        si = part_fields(s, 'si')
        for f in MUST_CHANGE[name]:
            if f in si and si[f][1] != s.phase:
                bad.append(('si.%s' % f, '%s leaves si.%s as it was' % (name, f)))
    if kern is not None:
        s.enter()
        s.set('kerntype', const(kern))
        s.cfg = (kern, cfg[1])
    si, se = part_fields(s, 'si'), part_fields(s, 'si_elph')
    if se is not None:
        for f in ('i', 'j', 'chargelst', 'nmany', 'statesdm', 'dictdm', 'shiftlst0'):
            if f in si and f in se and si[f][1] > se[f][1] and si[f][1] > 1:
                bad.append(('si_elph.%s' % f, 'si_elph.%s does not follow si.%s' % (f, f)))
    s.solve()
    return s, start, bad


def c13(rep, proj, tier):
    jobs = []
    for cfg in CONFIGS:
        for seq in SEQUENCES:
            jobs.append((cfg, seq, None, None, None))
        for k2 in [c[0] for c in CONFIGS + [('2vN', True), ('py2vN', True)] if c[1] == cfg[1] and c[0] != cfg[0] and c[0].startswith('py') == cfg[0].startswith('py')]:
            jobs.append((cfg, ('remove_fock_states',), None, k2, None))
        mb = ('qmeq.builder.builder_elph', 'BuilderManyBodyElPh') if cfg[1] else ('qmeq.builder.builder_base', 'BuilderManyBody')
        for seq in MANY_BODY:
            jobs.append((cfg, seq, mb, None, None))
    for cfg in (('Redfield', False), ('2vN', False), ('Redfield', True)):
        for indexing in ('Lin', 'charge', 'sz'):
            jobs += [(cfg, ('remove_fock_states',), None, None, indexing), (cfg, ('remove_states', 'remove_fock_states'), None, None, indexing)]
    rep.parallel(c13_case, jobs, proj)
    rep.parallel(c13_sorted, [(k, e, i) for k, e in (('pyPauli', False), ('Redfield', False), ('Redfield', True)) for i in ('charge', 'Lin', 'sz', 'ssq')], proj)
    rep.count('functions interpreted', len(rep.distinct))


def c13_sorted(rep, job, proj):
    what = '%s indexing=%s sort_eigenstates' % (label(job[:2]), job[2])
    rep.guarded(what, c13_order, rep, proj, job, what)


def c13_order(rep, proj, job, what):
    """the order of the eigenstates: gone when Fock states are removed, computed from the new states and energies when asked for again"""
    even = {'nsingle': const(4, frozenset([('n', 'nsingle')]))} if job[2] in ('sz', 'ssq') else {}
    s = Session(proj, job[:2], dict(even, indexing=const(job[2])), tracked=SI_CLASSES)

    def sort(version):
        s.enter(True)
        s.I.versions[('param', 'srt')] = version
        s.call('sort_eigenstates', [top(frozenset([('o', 'srt', version)]))])

    def order(part, f):
        v = s.path(part, f)
        return v, s.I.content(s.st, v)
    found = []
    s.solve()
    sort(0)
    have = {t[:2] for t in order('si', 'states_order')[1]}
    if ('p', 'hsingle') not in have or ('o', 'srt') not in have:
        rep.unknown(what, 'the order of the eigenstates does not seem to depend on the energies and the sorting')
        return
    s.new_parameters()
    s.solve()
    sort(1)
    d = order('si', 'states_order')[1]
    old = sorted(t[1] for t in s.I.outdated(d) if t[0] == 'p')
    if old:
        found.append('after new parameters and another solve the order still depends on the old %s' % ', '.join(old))
    if ('p', 'hsingle', 1) not in d or ('o', 'srt', 1) not in d:
        found.append('sorting again after new parameters and another solve does not use the new energies and the new sorting')
    if job[2] != 'ssq':            # with ssq indexing no Fock states can be removed
        state_op(s, 'remove_fock_states')
        if ('o', 'srt', 1) in order('si', 'states_order')[1]:
            found.append('after remove_fock_states the order of the states is still that of the states of before')
        s.solve()
        sort(2)
        for part, f in (('si', 'states_order'), ('qd', 'Ea_ext')):
            if f not in part_fields(s, part):
                continue
            v, d = order(part, f)
            if ('o', 'fock', 0) not in d:
                found.append('after remove_fock_states sorting again does not compute %s.%s from the new states' % (part, f))
            for t, vs in sorted(tables(s, written(s, v) | sources(s, '%s.%s' % (part, f), v)).items()):
                if t != ('si', 'states_order') and False in vs:
                    found.append('after remove_fock_states and sorting again %s.%s belongs to the old %s.%s' % (part, f, t[0], t[1]))
                    break
    s.enter()
    s.call('sort_eigenstates', [NONE])
    if [t for t in order('si', 'states_order')[1] if t[:2] in (('o', 'srt'), ('p', 'hsingle'))]:
        found.append('sort_eigenstates(None) does not give the order of the states back')
    bad = [e for e in s.I.events if e[0] in ('no-attribute', 'none-attribute')]
    if bad:
        found.append('breaks: %s' % bad[0][1])
    for m in found:
        rep.finding('%s/%s' % (what, m[:40]), '%s: %s' % (what, m), [], '')
    if not found:
        rep.ok(what, 'the order follows the energies, the sorting and the states')
    s.finish(rep)


def c13_case(rep, job, proj):
    cfg, seq, builder, k2, indexing = job
    what = '%s%s%s %s' % (label(cfg), ' many-body' if builder else '', ' indexing=%s' % indexing if indexing else '', ', '.join(seq)) + (' kerntype=%s' % k2 if k2 else '')
    rep.guarded(what, c13_run, rep, proj, cfg, seq, builder, k2, indexing, what)


def c13_run(rep, proj, cfg, seq, builder, k2, indexing, what):
    s, start, wrong = c13_session(proj, cfg, seq, True, builder, k2, indexing)
    f, _, wrong2 = c13_session(proj, (k2 or cfg[0], cfg[1]), seq, False, builder, None, indexing)
    s.finish(rep)
    found = {}
    bad = [e for e in s.I.events if e[0] in ('no-attribute', 'none-attribute')]
    if bad and not [e for e in f.I.events if e[:2] == bad[0][:2]]:
        e = bad[0]
        rep.finding('%s/breaks' % what, '%s: the next solve breaks: %s' % (what, e[1]), [e[2]], ' > '.join(e[3][-4:]))
        return
    for path, msg in wrong:
        found.setdefault(path, msg)
    for path, got, want, part in references(s):
        if not got <= want:
            found.setdefault(path, '%s still refers to the %s of before the change' % (path, part))
    args = {t for t in [OPS[x] for x in seq] if t}
    F, S = fields_of(f), fields_of(s)
    for p in sorted(F):
        fd = f.I.content(f.st, F[p])
        if p not in S:
            found.setdefault(p, '%s does not exist after the change' % p)
            continue
        sd = s.I.content(s.st, S[p])
        miss = sorted(a for a in args if ('o', a, 0) in fd and ('o', a, 0) not in sd)
        if miss:
            found.setdefault(p, '%s does not follow the change (it does when the change is made before the first solve)' % p)
        if k2:
            continue
        ft, stt = tables(f, fd), tables(s, sd)
        for t, v in sorted(ft.items()):
            if True in v and True not in stt.get(t, ()):
                found.setdefault(p, '%s was not computed again from the new %s.%s' % (p, t[0], t[1]))
                break
    if not k2:
        for p in sorted(set(start) & set(S)):
            stt = tables(s, sources(s, p, S[p]))
            own = tuple(p.split('.'))
            if own in stt and False in stt[own]:
                continue            # updated from its own old value
            for t in sorted(start[p]):
                if t != own and False in stt.get(t, ()) and True not in stt[t]:
                    found.setdefault(p, '%s still belongs to the old %s.%s' % (p, t[0], t[1]))
                    break
    for p, msg in sorted(found.items())[:40]:
        rep.finding('%s/%s' % (what, p), '%s: %s' % (what, msg), [], '')
    if not found:
        rep.ok(what, '%d attributes follow the change' % len(F))
