"""C19: objects the user hands over are never written, by abstract interpretation over an abstract heap with a mark on every such object."""
from .history import Session, CONFIGS, NODE, label, PARAMS, PARAMS_ELPH
from ..frontend import AnchorMissing
from ..heap import AV, Obj, const, top, NONE, Cut, EMPTY

KINDS = ('dict', 'list', 'array')
QD = ('hsingle', 'coulomb')
LEADS = ('tleads', 'mulst', 'tlst', 'dlst')
BATHS = ('velph', 'tlst_ph', 'dlst_ph')


def given(s, name, kind, nested=False):
    """an object of the user; nested: its elements are objects of the user as well"""
    s.given = getattr(s, 'given', 0) + 1
    v = s.user_dict(name, kind=kind, label='the %s given by the user (%s)' % (name, kind), version=100 + s.given)
    if nested:
        inner = s.user_dict(name, kind='list', label='an element of the %s given by the user' % name, version=1000 + s.given)
        for q, w in v.objs:
            o = s.st.mut(q)
            o.elem = inner
    return v


def part_call(s, part, name, args=(), kw=None):
    obj = s.path(part) if part else s.b
    return s.I.call(s.get(obj, name), list(args), dict(kw or {}), s.st, NODE)


def script(s, kind, elph, many):
    """(title, function) of the calls that take objects of the user"""
    def kws(names):
        return {n: given(s, n, kind) for n in names}
    full = QD + LEADS + (BATHS if elph else ())
    for _ in range(0 if many else 2):
        for m in ('add', 'change'):
            yield 'builder.%s' % m, (lambda m=m: part_call(s, None, m, (), kws(full)))
            yield 'qd.%s' % m, (lambda m=m: part_call(s, 'qd', m, (), kws(QD)))
            yield 'leads.%s' % m, (lambda m=m: part_call(s, 'leads', m, (), kws(LEADS)))
            if elph:
                yield 'baths.%s' % m, (lambda m=m: part_call(s, 'baths', m, (), kws(BATHS)))
        yield 'leads.update_Tba0', lambda: part_call(s, 'leads', 'update_Tba0', [top(), given(s, 'tleads', kind)])
        if elph:
            yield 'baths.update_Vbbp0', lambda: part_call(s, 'baths', 'update_Vbbp0', [top(), given(s, 'velph', kind)])
    opts = {'qdq': const(False)} if many else {}
    yield 'solve', lambda: s.solve(**opts)
    if kind != 'dict':
        if not many:
            yield 'sort_eigenstates', lambda: part_call(s, None, 'sort_eigenstates', [given(s, 'srt', kind)])
            yield 'remove_fock_states', lambda: part_call(s, None, 'remove_fock_states', [given(s, 'lin_state_indices', kind)])
            yield 'remove_fock_states (again)', lambda: part_call(s, None, 'remove_fock_states', [given(s, 'lin_state_indices', kind)])
    if kind == 'list':
        yield 'si.set_statesdm', lambda: part_call(s, 'si', 'set_statesdm', [given(s, 'statesdm', kind, True)])
    for m in ('remove_states', 'remove_coherences'):
        yield m, (lambda m=m: part_call(s, None, m, [top()]))
    yield 'use_all_states', lambda: part_call(s, None, 'use_all_states')
    yield 'solve (again)', lambda: s.solve(**opts)


BUILDERS = {(False, False): ('qmeq.builder.builder_base', 'BuilderBase'), (True, False): ('qmeq.builder.builder_elph', 'BuilderElPh'),
            (False, True): ('qmeq.builder.builder_base', 'BuilderManyBody'), (True, True): ('qmeq.builder.builder_elph', 'BuilderManyBodyElPh')}
MB = ('Ea', 'Na', 'Tba', 'Vbbp')


def construct(proj, cfg, kind, many):
    """a session whose builder was given objects of one kind"""
    class Given(Session):
        def user_dict(self, nm, kind_='dict', label=None, version=0, **kw):
            k = kw.get('kind', kind if kind_ == 'dict' and not label else kind_)
            return Session.user_dict(self, nm, kind=k, label=label or 'the %s given by the user (%s)' % (nm, k), version=version)
    extra = {}
    if many:
        for n in MB if cfg[1] else MB[:3]:
            extra[n] = lambda t, n=n: t.user_dict(n, kind='list' if kind == 'list' and n == 'Na' else 'array', label='the %s given by the user' % n)
    return Given(proj, cfg, extra, builder=BUILDERS[(cfg[1], many)])


def c19(rep, proj, tier):
    jobs = [(cfg, kind, many) for cfg in CONFIGS for kind in KINDS for many in (False, True)]
    rep.parallel(c19_case, jobs, proj)
    rep.guarded('components', components, rep, proj)
    rep.count('functions interpreted', len(rep.distinct))


def c19_case(rep, job, proj):
    cfg, kind, many = job
    what = '%s%s %s' % (label(cfg), ' many-body' if many else '', kind)
    rep.guarded(what, c19_run, rep, proj, cfg, kind, many, what)


def written(events):
    out = {}
    for e in events:
        if e[0] == 'user-write':
            out.setdefault((e[1], e[2]), e)
    return out.values()


def c19_run(rep, proj, cfg, kind, many, what):
    s = construct(proj, cfg, kind, many)
    calls = [('construction', None)] + list(script(s, kind, cfg[1], many))
    n = 0
    done = 0
    for title, call in calls:
        if call is not None:
            s.enter()
            call()
        bad = list(written(s.I.events[n:]))
        n = len(s.I.events)
        if not bad:
            rep.ok('%s %s' % (what, title), 'writes to no object of the user')
        for k, text, where, stack, extra in bad:
            rep.finding('%s/%s' % (title, text), '%s: %s writes to %s' % (what, title, text), [where], ' > '.join(stack[-4:]))
    s.finish(rep)


def components(rep, proj):
    """the parts of a builder made by hand"""
    for kind in KINDS:
        s = construct(proj, ('pyRedfield', True), 'dict', False)
        si, si_elph = s.path('si'), s.path('si_elph')
        for part, mod, cname, names, args in (('qd', 'qmeq.qdot', 'QuantumDot', QD, ('hsingle', 'coulomb', 'si')),
                                              ('leads', 'qmeq.leadstun', 'LeadsTunneling', LEADS, ('nleads', 'tleads', 'si', 'mulst', 'tlst', 'dlst')),
                                              ('baths', 'qmeq.baths', 'PhononBaths', BATHS, ('nbaths', 'velph', 'si', 'tlst_ph', 'dlst_ph'))):
            cls = proj.find_class(mod, cname)
            n = len(s.I.events)
            s.enter()
            kw = {a: si_elph if a == 'si' and part == 'baths' else si if a == 'si' else top() if a in ('nleads', 'nbaths') else given(s, a, kind) for a in args}
            o = s.I.instantiate(cls, [], kw, s.st, NODE)
            for m in ('add', 'change', 'add', 'change'):
                s.I.call(s.get(o, m), [], {a: given(s, a, kind) for a in names}, s.st, NODE)
            bad = list(written(s.I.events[n:]))
            what = '%s %s' % (cname, kind)
            if not bad:
                rep.ok(what, 'construction, add and change write to no object of the user')
            for k, text, where, stack, extra in bad:
                rep.finding('%s/%s' % (what, text), '%s: add or change writes to %s' % (cname, text), [where], ' > '.join(stack[-4:]))
        s.finish(rep)
