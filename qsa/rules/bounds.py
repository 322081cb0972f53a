"""C10 and C20: what the kernel code reads and writes, per finite state space."""
import random

import ast

from ..access import Interp, Obj, TOP, Arr, Raised, Stop, Ext, Fn
from ..frontend import AnchorMissing

BASE = 'qmeq.approach.base.'
ELPH = 'qmeq.approach.elph.'

# class -> (module, class, indexing class)
COMPILED = [
    ('Pauli', BASE + 'c_pauli', 'ApproachPauli'), ('Lindblad', BASE + 'c_lindblad', 'ApproachLindblad'),
    ('Redfield', BASE + 'c_redfield', 'ApproachRedfield'), ('1vN', BASE + 'c_neumann1', 'Approach1vN'),
    ('2vN', BASE + 'c_neumann2', 'Approach2vN'), ('RTD', BASE + 'c_RTD', 'ApproachRTD'),
    ('elph Pauli', ELPH + 'c_pauli', 'ApproachPauli'), ('elph Lindblad', ELPH + 'c_lindblad', 'ApproachLindblad'),
    ('elph Redfield', ELPH + 'c_redfield', 'ApproachRedfield'), ('elph 1vN', ELPH + 'c_neumann1', 'Approach1vN')]

PYTHON = [
    ('pyPauli', BASE + 'pauli', 'ApproachPauli'), ('pyLindblad', BASE + 'lindblad', 'ApproachLindblad'),
    ('pyRedfield', BASE + 'redfield', 'ApproachRedfield'), ('py1vN', BASE + 'neumann1', 'Approach1vN'),
    ('py2vN', BASE + 'neumann2', 'Approach2vN'), ('pyRTD', BASE + 'RTD', 'ApproachPyRTD'),
    ('elph pyPauli', ELPH + 'pauli', 'ApproachPauli'), ('elph pyLindblad', ELPH + 'lindblad', 'ApproachLindblad'),
    ('elph pyRedfield', ELPH + 'redfield', 'ApproachRedfield'), ('elph py1vN', ELPH + 'neumann1', 'Approach1vN')]

# numerical functions: they return a number (or fill their result array) and address nothing else
NUMERIC = ('integralD', 'integralX', 'func_pauli', 'fermi_func', 'diff_fermi', 'digamma', 'phi', 'diff_phi', 'BW_Ozaki', 'delta_phi', 'func_1vN', 'func_pauli_at_zero')


# their loops depend on numbers; they are interpreted with numbers
LOOPS = ('polygamma', 'digamma', 'BW_Ozaki')


class Case(object):
    def __init__(self, nsingle=2, indexing='charge', nleads=2, nbaths=1, subset=0, coher=0, mfreeq=False, symq=True, off_diag=True, threads=1 << 20, kpnt=6):
        self.__dict__.update(locals())

    def __repr__(self):
        s = '%d single-particle states, indexing %s, %d leads' % (self.nsingle, self.indexing, self.nleads)
        if self.subset:
            s += ', some states left out (%d)' % self.subset
        if self.coher:
            s += ', some coherences removed (%d)' % self.coher
        if self.mfreeq:
            s += ', matrix free'
        if not self.symq:
            s += ', symq=False'
        return s


class System(object):
    """the objects an approach is built from, with unknown numbers"""

    def __init__(self, ip, proj, case, cls):
        self.ip, self.proj, self.case, self.cls = ip, proj, case, cls
        icn = proj.lookup_const(cls, 'indexing_class_name')
        self.icn = icn.value if icn is not None and hasattr(icn, 'value') else 'StateIndexingDM'
        self.elph = any('ElPh' in c.name or c.module.name.startswith(ELPH) for c in proj.mro(cls))
        self.si = self.indexing(self.icn)
        self.si.attrs['nleads'] = case.nleads
        self.si.attrs['nbaths'] = case.nbaths if self.elph else 0
        n = self.si.attrs['nmany']
        if case.subset:
            lst = subset(case.subset, [list(q) for q in self.si.attrs['chargelst']])
            self.setstates(self.si, lst)
            self.lst = lst
        self.qd = Obj(None, {'Ea': ip.new((n,), 'Ea'), 'vecslst': TOP, 'si': self.si}, 'qd')
        if case.coher:
            self.remove()
        nl = case.nleads
        self.leads = Obj(None, {'Tba': ip.new((nl, n, n), 'Tba'), 'tlst': ip.new((nl,), 'tlst'), 'mulst': ip.new((nl,), 'mulst'), 'dlst': ip.new((nl, 2), 'dlst'),
                                'mtype': TOP, 'si': self.si, 'nleads': nl, 'tleads_array': ip.new((nl, case.nsingle), 'tleads_array')}, 'leads')
        self.funcp = Obj(None, dict(
            solmethod=None, mfreeq=case.mfreeq, symq=case.symq, norm_row=0, itype=TOP, itype_ph=TOP, dqawc_limit=TOP, kpnt=case.kpnt, kpnt_left=TOP, kpnt_right=TOP,
            dmin=TOP, dmax=TOP, emin=TOP, emax=TOP, ht_ker=None, ext_fct=TOP, off_diag_corrections=case.off_diag, eps_elph=TOP, phi0_init=None,
            suppress_err=False, suppress_wrn=[False] * 4), 'funcp')
        attrs = dict(qd=self.qd, leads=self.leads, si=self.si, funcp=self.funcp)
        if self.elph:
            se = self.indexing('StateIndexingDMc')
            se.attrs['nleads'] = nl
            se.attrs['nbaths'] = case.nbaths
            if case.subset:
                self.setstates(se, self.lst)
            nb = case.nbaths
            self.baths = Obj(None, dict(Vbbp=ip.new((nb, n, n), 'Vbbp'), tlst_ph=ip.new((nb,), 'tlst_ph'), dlst_ph=ip.new((nb, 2), 'dlst_ph'),
                                        bath_func=TOP, mtype=TOP, si=self.si), 'baths')
            attrs.update(baths=self.baths, si_elph=se)
        self.builder = Obj(None, attrs, 'builder')

    def indexing(self, name):
        ci = self.proj.find_class('qmeq.indexing', name)
        return self.ip.construct(ci, [self.case.nsingle, self.case.indexing, None, self.case.nleads], {})

    def setstates(self, si, lst):
        self.ip.call_fn(self.proj.lookup(si.cls, 'set_statesdm'), [si, [list(q) for q in lst]], {})

    def remove(self):
        """coherences the user removed, the way remove_coherences leaves the tables"""
        case = self.case
        rnd = random.Random('coherences %d' % case.coher)
        E = self.ip.new((self.si.attrs['nmany'],), 'Ea', [rnd.uniform(0, 2) for _ in range(self.si.attrs['nmany'])])
        me = Obj(None, {'si': self.si, 'qd': Obj(None, {'Ea': E}, 'qd')}, 'builder')
        fn = self.proj.find_func('qmeq.builder.various', 'remove_coherences')
        self.ip.call_fn(fn, [me, 0.0 if case.coher == 1 else 0.7], {})


def subset(k, chargelst):
    """1: the lowest state left out; 2: the highest and one of the middle; 3: all states of a charge; 20: one state of each charge above half filling kept;
    21: one of each charge below; 22: only the charges with most states; 23: only the first and the last charge; otherwise: some states, at least one"""
    flat = sorted(x for q in chargelst for x in q)
    if k == 1:
        out = {flat[0]}
    elif k == 2:
        out = {flat[-1], flat[len(flat) // 2]}
    elif k == 3:
        out = set(chargelst[len(chargelst) // 2])
    elif k in (20, 21):
        qs = [q for q in chargelst if q]
        half = len(qs) // 2
        out = {x for q in (qs[half:] if k == 20 else qs[:half]) for x in q[1:]}
    elif k in (22, 23):
        big = max(len(q) for q in chargelst)
        out = {x for q in chargelst for x in q if (len(q) < big) == (k == 22)}
    else:
        rnd = random.Random('states %d' % k)
        out = set(rnd.sample(flat, rnd.randint(1, max(1, len(flat) // 2))))
    if len(out) == len(flat):
        out = set()
    return [[x for x in q if x not in out] for q in chargelst]


def run(ip, proj, mod, cls, case):
    """a first and a second solve, without the linear algebra"""
    ci = proj.find_class(mod, cls)
    ip.case = repr(case)
    ip.chosen = {'determine_grid_ext', 'determine_emin_emax'}
    s = System(ip, proj, case, ci)
    a = ip.construct(ci, [s.builder], {})
    call = lambda m, *x: ip.call_fn(need(proj, ci, m), [a] + list(x), {})
    two = any('2vN' in c.name for c in proj.mro(ci))
    for turn in range(2):
        if two:
            call('prepare_kern')
            for it in range(3):
                call('iterate') if it else call('iterate')
            continue
        call('prepare_kern')
        call('generate_fct')
        if case.mfreeq:
            call('generate_vec', ip.new((s.si.attrs['ndm0r'],), 'phi0_init'))
        else:
            call('generate_kern')
        call('generate_current')
    return a


def need(proj, ci, m):
    f = proj.lookup(ci, m)
    if f is None:
        raise AnchorMissing('%s.%s' % (ci.name, m))
    return f


# ---------------------------------------------------------------- which approach meets which indexing
INDEXINGS = ('charge', 'Lin', 'sz', 'ssq')
KERNTYPE = {'pyPauli': 'pyPauli', 'pyLindblad': 'pyLindblad', 'pyRedfield': 'pyRedfield', 'py1vN': 'py1vN', 'py2vN': 'py2vN', 'pyRTD': 'pyRTD'}


def builders(proj):
    return {False: proj.find_class('qmeq.builder.builder_base', 'BuilderBase'), True: proj.find_class('qmeq.builder.builder_elph', 'BuilderElPh')}


def reach(proj, label, indexing):
    """the ways a user gets this approach with this indexing: a list of descriptions; None if it cannot be told"""
    elph = label.startswith('elph ')
    kern = label.split(' ')[-1]
    bci = builders(proj)[elph]
    ways = []
    # constructor
    ip = Interp(proj, atoms=NUMERIC)
    data = Obj(None, dict(itype=0, itype_ph=0, kerntype=kern, mfreeq=False, indexing=indexing, symmetry=None), 'data')
    ip.call_fn(need(proj, bci, '_init_validate_data'), [Obj(bci, {'data': data}, 'builder')], {})
    k, i = data.attrs['kerntype'], data.attrs['indexing']
    if not isinstance(k, str) or not isinstance(i, str):
        return None
    if (k, i) == (kern, indexing):
        ways.append("Builder(..., kerntype='%s', indexing='%s')" % (kern, indexing))
    # kerntype set later
    ip = Interp(proj, atoms=NUMERIC)
    old = 'Pauli' if kern != 'Pauli' else 'Redfield'
    names = {'Approach' + n: Ext('approach.' + n) for n in ('Pauli', 'Lindblad', 'Redfield', '1vN', '2vN', 'RTD', 'PyPauli', 'PyLindblad', 'PyRedfield', 'Py1vN', 'Py2vN', 'PyRTD')}
    appr = Obj(None, {'kerntype': old, 'mfreeq': False}, 'appr')
    first = Ext('approach.first')
    me = Obj(bci, {'appr': appr, 'si': Obj(None, {'indexing': indexing, 'states_changed': False}, 'si'), 'funcp': Obj(None, {'mfreeq': False}, 'funcp'), 'globals': names,
                   'Approach': first, 'change_si': Fn(native=lambda *a, **k: None)}, 'builder')
    ip.call_fn(need(proj, bci, 'set_kerntype'), [me, kern], {})
    got = me.attrs['Approach']
    if got is TOP:
        return None
    want = names['Approach' + kern[0].capitalize() + kern[1:]]
    if got == want:
        ways.append("kerntype = '%s' on a builder with indexing='%s'" % (kern, indexing))
    return ways


def cases(label, tier):
    kern = label.split(' ')[-1]
    two, rtd, elph = '2vN' in kern, 'RTD' in kern, label.startswith('elph')
    out = [Case(), Case(subset=1, coher=2), Case(nleads=3), Case(nsingle=1), Case(coher=1), Case(nleads=1, subset=2)]
    for ix in INDEXINGS[1:]:
        out.append(Case(indexing=ix))
    out.append(Case(indexing='sz', subset=1))
    out.append(Case(indexing='ssq', coher=2))
    if not two and not rtd:
        out += [Case(mfreeq=True), Case(mfreeq=True, indexing='ssq'), Case(mfreeq=True, subset=3, coher=2), Case(symq=False), Case(symq=False, subset=1, coher=1)]
    if elph:
        out += [Case(nbaths=2, nleads=1), Case(nbaths=2, subset=3), Case(nbaths=3, nleads=3, coher=2)]
    if rtd:
        out += [Case(off_diag=False), Case(off_diag=False, subset=1), Case(threads=1), Case(threads=2), Case(threads=3, subset=1)]
    if two:
        out = [c for c in out if c.nleads < 3] + [Case(kpnt=3, nsingle=1), Case(kpnt=2, nsingle=1, nleads=1)]
    if not two:
        out += [Case(nsingle=3), Case(nsingle=3, subset=3, coher=2)]
        out += [Case(nsingle=3, subset=k, nleads=1) for k in (20, 21, 22, 23)]
    else:
        out += [Case(nsingle=2, subset=k, nleads=1) for k in (22, 23)]
    if tier == 'thorough':
        out += [Case(nsingle=n, subset=s, coher=s % 3, nleads=1 + s % 3, nbaths=1 + s % 2) for n in (2, 3) for s in range(4, 12) if not (two and n == 3)]
        if not two and not rtd:
            out += [Case(nsingle=4), Case(nsingle=4, indexing='sz'), Case(nsingle=4, indexing='ssq', subset=5), Case(nsingle=4, mfreeq=True, subset=4, coher=2),
                    Case(nsingle=4, indexing='ssq', mfreeq=True), Case(nsingle=4, symq=False, coher=1)]
    return out


def analyse(proj, lab, mod, cls, case):
    # the numerical functions themselves are followed for the smallest systems
    ip = Interp(proj, threads=case.threads, atoms=LOOPS if case.nsingle == 1 else NUMERIC)
    a = run(ip, proj, mod, cls, case)
    if '2vN' in lab and case.nsingle == 1 and case.kpnt == 6:
        grid(ip, proj, a, case)
    return ip


def grid(ip, proj, a, case):
    """the interpolation on the energy grid: every position of the energy relative to the grid"""
    mod = next(c.module.name for c in proj.mro(a.cls) if 'erms' not in c.name)
    tci = proj.find_class(a.cls.module.name, 'TermsCalculator2vN')
    n = 5
    tc = ip.construct(tci, [a], {})
    ip.call_fn(need(proj, tci, 'retrieve_approach_variables'), [tc], {})
    fl = lambda: ip.new((n,), 'Ek_grid', [float(x) for x in range(n)])
    nl, nd0, nd1 = case.nleads, a.attrs['si'].attrs['ndm0'], a.attrs['si'].attrs['ndm1']
    tc.attrs.update(Ek_grid=fl(), Ek_grid_ext=fl(), phi1k_delta_old=ip.new((n, nl, nd1, nd0), 'phi1k'), hphi1k_delta=ip.new((n, nl, nd1, nd0), 'hphi1k'))
    ip.case = 'energy grid of %d points, energies below, on every point, between and above' % n
    f1, f2 = need(proj, tci, 'func_2vN'), need(proj, tci, 'get_at_k1')
    for E in [-7.5, -1.0, -0.25] + [k / 2 for k in range(2 * n - 1)] + [n - 1 + 0.25, float(n), n + 7.5]:
        for eta in (1, -1):
            ip.call_fn(f1, [tc, E, nl - 1, eta, ip.new((nl, n), 'hfk')], {})
            more = [TOP, eta, ip.new((nd0,), 'term')] if len(f2.node.args.args) > 6 else []
            ip.call_fn(f2, [tc, E, nl - 1, nd1 - 1, bool(eta > 0)] + more, {})


def job(rep, item, proj, want):
    lab, mod, cls, case = item
    what = '%s (%s)' % (lab, case)
    rep.guarded(what, job_run, rep, proj, lab, mod, cls, case, want, what)


def job_run(rep, proj, lab, mod, cls, case, want, what):
    ways = None
    if case.indexing != 'charge':
        try:
            ways = reach(proj, lab, case.indexing)
        except AnchorMissing:
            raise
        except Exception as ex:
            raise AnchorMissing('whether %s can be used with indexing %s is not decided: %s' % (lab, case.indexing, ex))
        if ways is None:
            rep.unknown(what, 'whether the approach can be used with this indexing')
            return
        if not ways:
            if want == 'C20':
                rep.ok(what, 'the builder does not let this approach meet this indexing')
            return
    ip = analyse(proj, lab, mod, cls, case)
    rep.name({'f:%s.%s' % x for x in ip.funcs} if ip.funcs and isinstance(next(iter(ip.funcs)), tuple) else {'f:%s' % x for x in ip.funcs})
    rep.count('interpreted solves', 2)
    if want == 'C10':
        for k, (msg, where, detail) in ip.races.items():
            rep.finding(k, '%s: %s' % (lab, msg), where if isinstance(where, list) else [where], str(detail))
        if ip.loops and not ip.races:
            for lp in ip.loops:
                rep.ok('%s in %s' % (lp, what), 'iterations touch disjoint data')
            rep.name({'loop:' + lp for lp in ip.loops})
        rep.count('data cells written in parallel loops and owned by one iteration', getattr(ip, 'cells_owned', 0))
        return
    for k, (msg, where, cs) in ip.bad.items():
        rep.finding(k, '%s: %s' % (lab, msg), [where], '%s%s' % (cs, '; reached by %s' % '; '.join(ways) if ways else ''))
    for k, v in ip.shapebad.items():
        rep.finding('shape|%s' % (k,), '%s: %s' % (lab, v[0]), [v[1]], what)
    unk = [s for s in ip.sites.values() if s.unknown]
    n = sum(s.n for s in ip.sites.values())
    rep.count('array accesses checked', n)
    rep.name({'site:%s %s' % (s.where, s.text) for s in ip.sites.values()})
    rep.name({'decided:%s %s' % (s.where, s.text) for s in ip.sites.values() if s.n > s.unknown})
    for k in ip.unk:
        rep.name({'unk:%s' % (k,)})
    if not ip.bad and not ip.shapebad:
        rep.ok(what, '%d accesses at %d sites in bounds' % (n, len(ip.sites) - len(unk)))


def special(rep, item, proj):
    rep.guarded('special functions of %s' % item, special_run, rep, item, proj)


def special_run(rep, mod, proj):
    ip = Interp(proj)
    m = proj.modules[mod]
    for N in (2, 4, 6, 10, 16):
        ip.case = 'Ozaki(%d)' % N
        ip.call_fn(proj.find_func(mod, 'Ozaki'), [N], {})
    for x in (0.5, 1.0, 3.25, 14.5, 15.0, 40.0):
        for y in (0.0, 0.75, -20.0):
            for name, extra in (('digamma', [[]]), ('polygamma', [[k] for k in range(5)])):
                for e in extra:
                    if name in m.functions:
                        ip.case = '%s(%s%s)' % (name, complex(x, y), ''.join(', %d' % k for k in e))
                        ip.call_fn(m.functions[name], [complex(x, y)] + e, {})
    for k, (msg, where, cs) in ip.bad.items():
        rep.finding(k, '%s: %s' % (mod, msg), [where], cs)
    for k, v in ip.shapebad.items():
        rep.finding('shape|%s' % (k,), '%s: %s' % (mod, v[0]), [v[1]], '')
    rep.name({'f:%s' % (x,) for x in ip.funcs})
    rep.name({'site:%s %s' % (s.where, s.text) for s in ip.sites.values()})
    rep.name({'decided:%s %s' % (s.where, s.text) for s in ip.sites.values() if s.n > s.unknown})
    for k in ip.unk:
        rep.name({'unk:%s' % (k,)})
    rep.count('array accesses checked', sum(s.n for s in ip.sites.values()))
    if not ip.bad and not ip.shapebad:
        rep.ok('special functions of %s' % mod, 'accesses at %d sites in bounds' % len(ip.sites))


def pranges(proj):
    out = set()
    for m in proj.modules.values():
        if not m.is_cython:
            continue
        fns = list(m.functions.values()) + [f for c in m.classes.values() for f in c.methods.values()]
        for fn in fns:
            for x in ast.walk(fn.node):
                if isinstance(x, ast.For) and isinstance(x.iter, ast.Call) and getattr(x.iter.func, 'id', getattr(x.iter.func, 'attr', '')) == 'prange':
                    out.add('%s:%s (%s)' % (m.relpath, x.lineno, fn.qualname))
    return out


def spread(rep, name):
    got = getattr(rep, 'distinct', set())
    return {x.split(':', 1)[1] for x in got if x.startswith(name + ':')}


def c10(rep, proj, tier):
    loops = pranges(proj)
    files = {l.split(':')[0] for l in loops}
    jobs = []
    for lab, mod, cls in COMPILED:
        ci = proj.find_class(mod, cls)
        if not any(c.module.relpath in files for c in proj.mro(ci)):
            continue
        for case in cases(lab, tier):
            jobs.append((lab, mod, cls, case))
        for t in (2, 3, 5):
            if 'RTD' not in lab:
                jobs.append((lab, mod, cls, Case(threads=t)))
    rep.parallel(job, jobs, proj, 'C10')
    seen = spread(rep, 'loop')
    for lp in sorted(loops - seen):
        if not any(f.key for f in rep.findings):
            rep.unknown('parallel loop %s' % lp, 'not reached by the interpreted solves')
    rep.count('parallel loops in the source', len(loops))
    rep.count('parallel loops interpreted', len(loops & seen))
    rep.count('functions interpreted', len(spread(rep, 'f')))
    if not loops:
        rep.ok('compiled modules', 'there is no parallel loop')
    rep.assume('numerical functions (%s) address only their arguments' % ', '.join(NUMERIC))
    rep.assume('a parallel loop without schedule, or with static schedule, gives each thread at most one thread number; thread numbers are below the number of threads and of iterations')
    rep.assume('stores of the same constant by several iterations to a datum no iteration reads are harmless')


def c20(rep, proj, tier):
    jobs = []
    for lab, mod, cls in COMPILED + PYTHON:
        for case in cases(lab, tier):
            jobs.append((lab, mod, cls, case))
    jobs.sort(key=lambda j: -(('2vN' in j[0]) * 10 + j[3].nsingle * 2 + ('RTD' in j[0])))
    rep.parallel(job, jobs, proj, 'C20')
    rep.parallel(special, ['qmeq.specfunc.specfunc', 'qmeq.specfunc.c_specfunc'], proj)
    sites, dec, unk = spread(rep, 'site'), spread(rep, 'decided'), spread(rep, 'unk')
    for s in sorted(sites - dec):
        rep.unknown('access %s' % s, 'its index is not a function of the state indexing')
    for s in sorted(unk):
        rep.unknown('%s' % s, 'not followed')
    rep.count('access sites', len(sites))
    rep.count('access sites decided', len(dec))
    rep.count('functions interpreted', len(spread(rep, 'f')))
    rep.assume('numerical functions (%s) address only their arguments' % ', '.join(NUMERIC))
    rep.assume('the many-body tables are those of indexing.py for 1 to %d single-particle states with subsets of states and coherences left out' % (4 if tier == 'thorough' else 3))
    rep.assume('the energy grid of 2vN is equidistant and has at least two points')
