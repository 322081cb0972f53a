"""C04: compiled special functions are the Python ones.  C22: distribution functions never overflow."""
import random
from fractions import Fraction
from ..formula import (Reader, Exact, Numeric, Interval, Range, Undefined, Unclear, Seq, Grid, Inp, Rec, Term, T, ZERO, num, op, RANK, ref_polygamma,
                       INF, const_of)
from ..frontend import AnchorMissing

PY, CY = 'qmeq.specfunc.specfunc', 'qmeq.specfunc.c_specfunc'
PE, CE = 'qmeq.specfunc.specfunc_elph', 'qmeq.specfunc.c_specfunc_elph'
SIGNS = ('p1', 'p2', 'eta1', 'eta2', 'sign', 'eta')
POS = ('T', 'T1', 'T2', 'D', 'eps', 'BW')
CPLX = ('z', 'U', 'Z')


def domain(name, rnd):
    if name in SIGNS:
        return Fraction(rnd.choice((-1, 1)))
    if name == 'ImGamma':
        return rnd.choice((True, False))
    if name in CPLX:
        return (Fraction(rnd.randint(1, 120), 8), Fraction(rnd.randint(-80, 80), 8))
    if name in ('D', 'BW'):
        return Fraction(rnd.randint(40, 800), 8)
    if name in POS or name[0] == 't' and name[1:].isdigit():
        return Fraction(rnd.randint(2, 40), 8)
    if name == 'Dp' or name[:2] == 'dp':
        return Fraction(rnd.randint(20, 400), 8)
    if name == 'Dm':
        return Fraction(-rnd.randint(20, 400), 8)
    if name[:2] == 'dm':
        return Fraction(rnd.randint(-8, 20), 64)
    return Fraction(rnd.randint(-64, 64), 16)


def terms_of(v):
    if isinstance(v, Term):
        return [v]
    if isinstance(v, Seq):
        return [x for y in v.items for x in terms_of(y)]
    if isinstance(v, Grid):
        return [x for k in sorted(v.cells) for x in terms_of(v.cells[k])]
    raise Unclear('result')


def walk(t, seen, out):
    if t in seen:
        return
    seen.add(t)
    if t[0] == 'ite':
        leaves(t[1], out)
    for x in t:
        if isinstance(x, Term):
            walk(x, seen, out)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, Term):
                    walk(y, seen, out)
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, Term):
                            walk(z, seen, out)


def leaves(c, out):
    if c[0] in ('rel', 'in'):
        out.setdefault(c, None)
    elif c[0] in ('not', 'and'):
        for x in c[1:]:
            leaves(x, out)


def inputs_of(ts):
    names, seen = set(), set()

    def go(x):
        if isinstance(x, Term):
            if x in seen:
                return
            seen.add(x)
            if x[0] == 'in':
                names.add(x[1])
        if isinstance(x, tuple):
            for y in x:
                go(y)
    for t in ts:
        go(t)
    return sorted(names)


class Points(object):
    """sample points steered to both sides of every comparison the formulas make"""

    def __init__(self, ts, seed, fixed=None, dims=None, items=None, base=4, rounds=3, limit=160, ranges=None):
        self.rnd = random.Random(seed)
        self.names = [n for n in inputs_of(ts)]
        self.fixed, self.dims, self.items = dict(fixed or {}), dims or {}, items or {}
        self.ranges = ranges or {}
        conds = {}
        seen = set()
        for t in ts:
            walk(t, seen, conds)
        self.conds = [c for c in conds]
        self.order = {c: i for i, c in enumerate(self.conds)}
        self.points, self.pairs, self.base = [], set(), base
        self.covered = set()
        for _ in range(base):
            self.add({n: self.draw(n) for n in self.names})
        frontier = list(self.points)
        for r in range(rounds):
            new = []
            for p in frontier:
                for c in self.conds:
                    for q in self.boundary(c, p):
                        if len(self.points) < limit and self.add(q):
                            new.append(q)
            frontier = new
            if not new:
                break
        for n in self.names:
            # the far ends of the line
            if n not in self.fixed and n not in SIGNS and n not in POS and n not in CPLX and n != 'ImGamma' and n not in self.ranges:
                for v in (-400, 400):
                    self.add(dict(self.points[0], **{n: Fraction(v)}))

    def draw(self, n):
        if n in self.fixed:
            return self.fixed[n]
        if n in self.ranges:
            return self.ranges[n](self.rnd)
        return domain(n, self.rnd)

    def outcome(self, p):
        out = []
        ev = Exact(p, 0, self.items, self.dims)
        for c in self.conds:
            try:
                out.append((c, ev.truth(c, None)))
            except (Undefined, KeyError, TypeError, OverflowError):
                pass
        return frozenset(out)

    def add(self, p):
        """keep the point when it shows a combination of two or three outcomes not seen before"""
        o = sorted(self.outcome(p), key=lambda x: (self.order[x[0]], x[1]))
        ks = [(self.order[c], v) for c, v in o]
        if len(self.conds) <= 24:
            new = {(x, y, z) for i, x in enumerate(ks) for j, y in enumerate(ks[i:]) for z in ks[i + j:]} - self.pairs
        else:
            new = {(x, y) for i, x in enumerate(ks) for y in ks[i:]} - self.pairs
        if new or len(self.points) < self.base:
            self.points.append(p)
            self.pairs |= new
            self.covered |= set(ks)
            return True
        return False

    def boundary(self, c, p):
        """points where the two sides of a comparison meet, and beside them"""
        if c[0] == 'in':
            v = p[c[1]]
            yield dict(p, **{c[1]: not v if isinstance(v, bool) else Fraction(0 if v else 1)})
            return
        a, b = c[2], c[3]
        hs = [(op('-', a, b), 1)]
        for x in (a, b):
            if x[0] == 'call' and x[1] == 'abs':
                hs.append((x[2][0], 0))
        for h, side in hs:
            for n in self.names:
                if n in self.fixed or n in SIGNS or n == 'ImGamma':
                    continue
                r = self.root(h, n, p)
                if r is None:
                    continue
                for d in ((0,) if not side else (0, Fraction(-1, 1 << 40), Fraction(1, 1 << 40), Fraction(-3, 2), Fraction(3, 2))):
                    if isinstance(r, tuple):
                        yield dict(p, **{n: (r[0] + d, r[1])})
                    elif n not in POS or r + d > 0:
                        yield dict(p, **{n: r + d})

    def root(self, h, n, p):
        cplx = isinstance(p[n], tuple)

        def f(x):
            q = dict(p)
            q[n] = (x, p[n][1]) if cplx else x
            v = Exact(q, 0, self.items, self.dims).val(h)
            if not isinstance(v, tuple) or len(v) != 2 or v[0] == 's' or v[1] != 0:
                raise Undefined('complex')
            return v[0]
        try:
            x0 = p[n][0] if cplx else p[n]
            x1 = x0 + 1
            y0, y1 = f(x0), f(x1)
            for _ in range(4):
                if y1 == y0:
                    return None
                x0, x1, y0 = x1, x1 - y1 * (x1 - x0) / (y1 - y0), y1
                if abs(x1) > 10 ** 7 or x1.denominator > 10 ** 60:
                    return None
                y1 = f(x1)
                if y1 == 0:
                    return (x1, p[n][1]) if cplx else x1
        except (Undefined, KeyError, TypeError, ZeroDivisionError, OverflowError):
            return None
        return None


def value(ev, t):
    try:
        v = ev.val(t)
    except Undefined as e:
        return ('undefined', str(e))
    if isinstance(v, bool):
        return float(v) if isinstance(ev, Numeric) else (Fraction(v), Fraction(0))
    return v


def same_at(p, a, b, seed, items, dims):
    """None when equal at the point, else the two values"""
    x, y = value(Exact(p, seed, items, dims), a), value(Exact(p, seed, items, dims), b)
    if x == y:
        return None
    u, v = value(Numeric(p, seed, items, dims), a), value(Numeric(p, seed, items, dims), b)
    if isinstance(u, tuple) or isinstance(v, tuple):
        if isinstance(u, tuple) and isinstance(v, tuple) and u[0] == v[0] == 'undefined':
            return None
        return None if u == v else (u, v)
    if u == v or abs(u - v) <= 1e-9 * (abs(u) + abs(v)) + 1e-12:
        return None
    # roundings of a difference of nearly equal numbers are no difference
    return (u, v)


def show(p):
    def s(v):
        if isinstance(v, tuple):
            return '%.6g%+.6gj' % (float(v[0]), float(v[1]))
        return '%.12g' % float(v)
    return ', '.join('%s=%s' % (k, s(v)) for k, v in sorted(p.items()))


def where(fn):
    return '%s:%d %s' % (fn.module.relpath, fn.node.lineno, fn.qualname if hasattr(fn, 'qualname') else fn.name)


def compare(rep, name, fa, fb, ra, rb, fixed=None, items=None, dims=None, seed=1, tier='quick', ranges=None):
    xs, ys = terms_of(ra), terms_of(rb)
    if len(xs) != len(ys):
        rep.finding('%s/shape' % name, '%s returns %d values in Python and %d in compiled code' % (name, len(xs), len(ys)), [where(fa), where(fb)])
        return
    pts = Points(xs + ys, seed, fixed, dims, items, base=4 if tier == 'quick' else 12, limit=400 if tier == 'quick' else 2000, ranges=ranges)
    flips = []
    for p in pts.points:
        for n in pts.names:
            if n in SIGNS and n not in pts.fixed:
                flips.append(dict(p, **{n: -p[n]}))
    pts.points += flips
    rep.count('sample points', len(pts.points))
    rep.count('comparisons in the formulas', len(pts.conds))
    rep.count('outcomes of comparisons reached', len(pts.covered))
    for k, (a, b) in enumerate(zip(xs, ys)):
        nm = name if len(xs) == 1 else '%s[%d]' % (name, k)
        if a is b:
            rep.ok(nm, 'identical formula')
            continue
        bad = None
        for i, p in enumerate(pts.points):
            bad = same_at(p, a, b, i + 1, items or {}, dims or {})
            if bad is not None:
                break
        if bad is None:
            rep.ok(nm, 'equal at %d points covering %d of %d outcomes of %d comparisons' % (
                len(pts.points), len(pts.covered), 2 * len(pts.conds), len(pts.conds)))
        else:
            rep.finding('%s' % nm, '%s: the compiled function and the Python one give different values' % nm, [where(fa), where(fb)],
                        'at %s: Python %s, compiled %s' % (show(p), bad[0], bad[1]))


OUT = {'func_pauli': 2, 'func_1vN': 4}
TWINS = ['fermi_func', 'diff_fermi', 'bose', 'phi', 'diff_phi', 'diff2_phi', 'delta_phi', 'func_pauli', 'func_1vN', 'polygamma',
         'integralD', 'integralX', '_D_integral_equal_T', '_X_integral_equal_T', '_D_integral', '_X_integral']
ATOMS = {'digamma': 'digamma'}
ROWS = {('b_and_R', i, j): Fraction(v) for i, r in enumerate((('7/8', '3/2'), ('1/4', '5/4'), ('1/64', '2'))) for j, v in enumerate(r)}
DIMS = {('b_and_R', 0): 3, ('b_and_R', 1): 2}
RANK['b_and_R'] = 2


def find(mod, name):
    for n in (name, name.lstrip('_'), '_' + name):
        if n in mod.functions:
            return mod.functions[n]
    raise AnchorMissing('function %s not found in %s' % (name, mod.relpath))


def read(proj, fn, name, fixed, atoms=ATOMS):
    r = Reader(proj, atoms)
    args, out = [], None
    for a in fn.args:
        if a == 'b_and_R':
            args.append(Inp('b_and_R'))
        elif a in fixed:
            args.append(num(fixed[a]))
        elif a == 'rez':
            out = Seq([ZERO] * OUT[name])
            args.append(out)
        else:
            args.append(T('in', a))
    v = r.call(fn, args)
    return (out if out is not None else v), r


def cases(name):
    if name == 'func_pauli':
        return [{'itype': i} for i in range(4)]
    if name == 'func_1vN':
        return [{'itype': i, 'limit': 50} for i in range(4)]
    if name.endswith('polygamma'):
        return [{'K': i} for i in range(5)]
    return [{}]


def one_twin(rep, item, proj, tier):
    name, cyname = item
    a, b = find(proj.modules[PY], name), find(proj.modules[CY], cyname)
    sub = name.lstrip('_')
    for case in cases(name):
        label = sub + ''.join(' %s=%d' % kv for kv in sorted(case.items()))
        if cyname != name:
            label = cyname + label[len(sub):]

        def go():
            if a.args != [x for x in b.args if x != 'rez']:
                # by position
                if len(a.args) != len([x for x in b.args if x != 'rez']):
                    raise Unclear('arguments differ')
            ra, r1 = read(proj, a, sub, case)
            fb = [x for x in b.args if x != 'rez']
            ren = dict(zip(fb, a.args))
            rb, r2 = read_as(proj, b, sub, case, ren)
            rep.name({f.name for f in r1.visited} | {f.name for f in r2.visited})
            rg = {'U': lambda q: (Fraction(q.choice((q.randint(-160, -9), q.randint(1, 160))), 8), Fraction(q.randint(-40, 40), 8))} if 'polygamma' in name else None
            compare(rep, label, a, b, ra, rb, None, ROWS, DIMS, 7, tier, rg)
        rep.guarded(label, go)


def read_as(proj, fn, name, fixed, ren):
    """like read, but with inputs named after the other function's arguments"""
    r = Reader(proj, ATOMS)
    args, out = [], None
    for a in fn.args:
        n = ren.get(a, a)
        if n == 'b_and_R':
            args.append(Inp('b_and_R'))
        elif n in fixed:
            args.append(num(fixed[n]))
        elif a == 'rez':
            out = Seq([ZERO] * OUT[name])
            args.append(out)
        else:
            args.append(T('in', n))
    v = r.call(fn, args)
    return (out if out is not None else v), r


# ------------------------------------------------------------------------------------------------------ phonon functions
def elph_object(proj, cls, which, itype, bath):
    r = Reader(proj, {})
    tl = Seq([T('in', 't0'), T('in', 't1')])
    dl = Grid({(i, j): T('in', ('dm%d', 'dp%d')[j] % i) for i in range(2) for j in range(2)})
    bf = Seq([Rec(name='bath0'), Rec(name='bath1')]) if bath else T('s', 'None')
    args = [tl, dl] + ([num(itype), num(50)] if which == 'Func1vNElPh' else []) + [bf, T('in', 'eps')]
    o = Rec(cls, name=cls.name)
    init = proj.lookup(cls, '__init__')
    r.call(init, args, this=o)
    return r, o


def elph_twin(rep, item, proj, tier):
    which, itype, bath = item
    out = []
    fns = []
    label = '%s%s%s' % (which, '' if itype is None else ' itype=%d' % itype, ' with bath_func' if bath else '')

    def go():
        for mod in (PE, CE):
            cls = proj.find_class(mod, which)
            r, o = elph_object(proj, cls, which, itype, bath)
            ev = proj.lookup(cls, 'eval')
            for k in ('val', 'val0', 'val1'):
                if k in o.attrs:
                    # what an earlier call left
                    o.attrs[k] = T('in', 'old_' + k)
            r.call(ev, [T('in', 'Ebbp'), num(1)], this=o)
            vals = [o.attrs[k] for k in ('val', 'val0', 'val1') if k in o.attrs]
            for m in ('iplus', 'iminus'):
                f = proj.lookup(cls, m)
                if f is not None:
                    vals.append(r.call(f, [T('in', 'x')], this=o))
            rep.name({f.name for f in r.visited})
            out.append(Seq(vals))
            fns.append(ev)
        rg = {'eps': lambda q: Fraction(1, q.choice((16, 64, 1000)))}
        compare(rep, label, fns[0], fns[1], out[0], out[1], None, None, None, 3, tier, rg)
    rep.guarded(label, go)


# ------------------------------------------------------------------------------------------------- references and laws
def close(u, v, tol):
    return abs(u - v) <= tol * (1 + abs(u) + abs(v))


def check_law(rep, name, fn, points, pairs, tol=1e-8):
    """pairs(point) -> list of (label, value, expected value)"""
    n, bad = 0, None
    for p in points:
        try:
            got = pairs(p)
        except Undefined:
            continue
        for lab, u, v in got:
            n += 1
            if not close(u, v, tol) and bad is None:
                bad = '%s at %s: %s, expected %s' % (lab, show(p), u, v)
    if bad:
        rep.finding('law/' + name, '%s does not hold' % name, [where(f) for f in fn], bad)
    elif n:
        rep.ok(name, '%d points' % n)
    else:
        rep.unknown(name, 'no point where the formula is defined')


def laws(rep, item, proj, tier):
    modname, law = item
    mod = proj.modules[modname]
    tag = 'compiled' if modname == CY else 'Python'
    rnd = random.Random(5)
    N = 24 if tier == 'quick' else 200

    def formula(name, case=None, out=None, atoms=ATOMS):
        fn = find(mod, name)
        v, r = read(proj, fn, name, case or {}, atoms)
        rep.name({f.name for f in r.visited})
        return fn, terms_of(v)

    def ev(t, p):
        v = Numeric(p, 1, ROWS, DIMS).val(t)
        if isinstance(v, tuple):
            raise Undefined('value')
        return v

    def go():
        if law == 'digamma':
            fn, (t,) = formula('digamma', atoms={})
            if t[0] == 'call' and t[1] == 'digamma':
                rep.ok('%s digamma is the library function' % tag)
                return
            nm = [a for a in fn.args][0]
            pts = Points([t], 11, base=N, ranges={nm: lambda q: (Fraction(q.randint(1, 2400), 80), Fraction(q.randint(-400, 400), 16))}).points
            pts = [p for p in pts if p[nm][0] > 0]
            check_law(rep, '%s digamma is the digamma function' % tag, [fn], pts,
                      lambda p: [('digamma', ev(t, p), ref_polygamma(complex(float(p[nm][0]), float(p[nm][1])), 0))], 1e-10)
        elif law == 'polygamma':
            for K in range(5):
                fn, (t,) = formula('polygamma', {'K': K})
                nm = fn.args[0]
                pts = Points([t], 12, base=N, ranges={nm: lambda q: (Fraction(q.randint(1, 2400), 80), Fraction(q.randint(-400, 400), 16))}).points
                pts = [p for p in pts if p[nm][0] > 0]
                check_law(rep, '%s polygamma K=%d is the derivative of digamma' % (tag, K), [fn], pts,
                          lambda p: [('polygamma', ev(t, p), ref_polygamma(complex(float(p[nm][0]), float(p[nm][1])), K))], 1e-9)
        elif law == 'derivatives':
            h = 1e-4
            for d, f, s in (('diff_fermi', 'fermi_func', 1), ('diff_phi', 'phi', 1), ('diff2_phi', 'diff_phi', 1)):
                fd, (td,) = formula(d, {'sign': 1})
                ff, (tf,) = formula(f, {'sign': 1} if 'sign' in find(mod, f).args else {})
                nm, nf = fd.args[0], ff.args[0]
                pts = [{n: domain(n, rnd) for n in set(inputs_of([td, tf])) | {nm, nf}} for _ in range(N)]

                def pairs(p, td=td, tf=tf, nm=nm, nf=nf, d=d):
                    x = float(p[nm])
                    val = lambda y: ev(tf, dict(p, **{nf: y}))
                    num = (8 * (val(x + h) - val(x - h)) - (val(x + 2 * h) - val(x - 2 * h))) / (12 * h)
                    return [(d, ev(td, p), num)]
                check_law(rep, '%s %s is the derivative of %s' % (tag, d, f), [fd, ff], pts, pairs, 1e-7)
            fn, (t,) = formula('fermi_func')
            nm = fn.args[0]
            check_law(rep, '%s fermi_func is the Fermi function' % tag, [fn], [{nm: domain(nm, rnd)} for _ in range(N)],
                      lambda p: [('f', ev(t, p), 1 / (1 + 2.718281828459045 ** float(p[nm])))], 1e-9)
            fb, (tb,) = formula('bose', {'sign': 1})
            f2, (tm,) = formula('bose', {'sign': -1})
            check_law(rep, '%s bose is the Bose function' % tag, [fb], [{nm: domain(nm, rnd) or Fraction(1)} for _ in range(N)],
                      lambda p: [('n', ev(tb, {fb.args[0]: p[nm]}), 1 / (2.718281828459045 ** float(p[nm]) - 1)),
                                 ('n(-x)', ev(tm, {fb.args[0]: p[nm]}), 1 / (2.718281828459045 ** -float(p[nm]) - 1))], 1e-9)
            fn, (t,) = formula('delta_phi', {'sign': 1})
            fp, (tp,) = formula('phi', {'sign': 1})
            pts = [{n: domain(n, rnd) for n in set(inputs_of([t, tp])) | set(fn.args) - {'sign'}} for _ in range(N)]
            check_law(rep, '%s delta_phi is a difference of phi' % tag, [fn, fp], pts,
                      lambda p: [('delta_phi', ev(t, p), ev(tp, dict(p, **{fp.args[0]: p[fn.args[0]]})) - ev(tp, dict(p, **{fp.args[0]: p[fn.args[1]]})))])
        elif law == 'rates':
            for it in range(4):
                fp, tp = formula('func_pauli', {'itype': it})
                fv, tv = formula('func_1vN', {'itype': it, 'limit': 50})
                names = set(inputs_of(tp + tv))
                pts = Points(tp + tv, 17, base=N).points
                two_pi = 2 * 3.141592653589793
                rate_itype = {0: 0, 1: 1, 2: 2, 3: 3}[it]

                def pairs(p):
                    c0, c1, e0, e1 = [complex(ev(t, p)) for t in tv]
                    q0, q1 = [ev(t, p) for t in tp]
                    E = float(p['Ecb'])
                    out = [('imag(cur0)', -2 * c0.imag, q0), ('imag(cur1)', 2 * c1.imag, q1),
                           ('imag(en0)', e0.imag, E * c0.imag), ('imag(en1)', e1.imag, E * c1.imag)]
                    if it in (2, 3):
                        out += [('real parts', abs(c0.real) + abs(c1.real) + abs(e0.real) + abs(e1.real), 0.0)]
                    if it == 0:
                        # the energy amplitudes exceed E times the particle ones by the integrals of f and f-1 over the band
                        import math
                        mu, Tm, Dm, Dp = [float(p[k]) for k in ('mu', 'T', 'Dm', 'Dp')]
                        L = lambda y: math.log1p(math.exp(-y)) if y > 0 else -y + math.log1p(math.exp(y))
                        I = Tm * (L((Dm - mu) / Tm) - L((Dp - mu) / Tm))
                        out += [('en0', e0.real - E * c0.real, I), ('en1', e1.real - E * c1.real, I - (Dp - Dm)),
                                ('cur1-cur0', (c1 - c0).real, math.log(abs((Dm - E) / (Dp - E))))]
                    return out
                pts = [dict(p, **{k: p.get(k, domain(k, rnd)) for k in ('Ecb', 'mu', 'T', 'Dm', 'Dp')}) for p in pts]
                pts = [p for p in pts if p['Dm'] < p['Dp'] and abs(p['Dm'] - p['Ecb']) > Fraction(1, 10 ** 6) and abs(p['Dp'] - p['Ecb']) > Fraction(1, 10 ** 6)]
                check_law(rep, '%s func_1vN itype=%d has the rates of func_pauli as imaginary parts' % (tag, it), [fv, fp], pts, pairs, 1e-8)
    rep.guarded('%s %s' % (tag, law), go)


def c04(rep, proj, tier):
    for m in (PY, CY, PE, CE):
        if m not in proj.modules:
            raise AnchorMissing('module %s not found' % m)
    P, C = proj.modules[PY], proj.modules[CY]
    names = list(TWINS)
    for n in P.functions:
        k = n.lstrip('_')
        if n not in names and n != 'digamma' and (k in C.functions or n in C.functions) and k not in ('Ozaki', 'BW_Ozaki'):
            names.append(n)
    pairs = [(n, n) for n in names]
    for n in C.functions:
        if n.startswith('c_') and any(x.lstrip('_') == n[2:] for x in names):
            pairs.append((n[2:], n))
    rep.parallel(one_twin, pairs, proj, tier)
    rep.parallel(elph_twin, [('FuncPauliElPh', None, b) for b in (False, True)] + [('Func1vNElPh', i, b) for i in (0, 2) for b in (False, True)], proj, tier)
    rep.parallel(laws, [(m, l) for m in (PY, CY) for l in ('digamma', 'polygamma', 'derivatives', 'rates')], proj, tier)
    rep.assume('the library functions quad, psi, exp, log are what their names say; calls of them with equal arguments give equal results')
    rep.assume('the Ozaki poles (an eigenvalue computation) are an input of the RTD integrals')


# ------------------------------------------------------------------------------------------------------------------ C22
EDGES = [1e-6, 1e-3, 0.1, 0.5, 1, 2, 4, 7, 10, 20, 30, 36, 39.5, 40, 40.5, 60, 100, 160, 240, 320, 350, 354, 354.5, 354.885, 355, 360, 400, 500, 600, 700,
         709, 709.5, 709.77, 709.782712893384, 709.79, 710, 745, 746, 800, 1000, 1500, 1e4, 1e8, 1e100, 1.7e308]


def cells(extra=()):
    e = sorted(set(EDGES) | {abs(float(x)) for x in extra if abs(float(x)) > 1e-6})
    pos = [(a, b) for a, b in zip(e, e[1:])] + [(e[-1], INF)]
    return [(-b, -a) for a, b in reversed(pos)] + pos


def constants(ts):
    out, seen = set(), set()

    def go(x):
        if isinstance(x, Term):
            if x in seen:
                return
            seen.add(x)
            if x[0] == 'n':
                out.add(x[1])
        if isinstance(x, tuple):
            for y in x:
                go(y)
    for t in ts:
        go(t)
    return out


def has_call(t, names):
    seen = set()

    def go(x):
        if isinstance(x, Term):
            if x in seen:
                return False
            seen.add(x)
            if x[0] == 'call' and x[1] in names:
                return True
        return isinstance(x, tuple) and any(go(y) for y in x)
    return go(t)


def bounded(rep, name, fn, t, var, bound, limit, others=None, pole=False):
    """every cell of the line: a number, inside the bounds, at its limit far out"""
    bad, n = None, 0
    cs = cells(constants([t]))
    if not pole:
        cs = cs + [(-1e-6, 1e-6)]
    todo = [(lo, hi, 0) for lo, hi in cs]
    while todo:
        lo, hi, depth = todo.pop()
        bad = None
        ins = dict(others or {})
        ins[var] = Range(lo, hi)
        v = Interval(ins).val(t)
        n += 1
        a, b = bound(lo, hi)
        tol = 1e-12
        if v.nan:
            bad = 'may not be a number (an infinity divided by an infinity, or the like)'
        elif v.lo < a - tol * (1 + abs(a) if abs(a) < INF else 0) or v.hi > b + tol * (1 + abs(b) if abs(b) < INF else 0):
            bad = 'lies in %r, outside [%g, %g]' % (v, a, b)
        else:
            L = limit(lo, hi)
            if L is not None and max(abs(v.lo - L), abs(v.hi - L)) > 1e-15 * (1 + abs(L)):
                bad = 'lies in %r but tends to %g' % (v, L)
        if bad and depth < 9 and INF not in (hi, -lo):
            # a smaller cell may show it
            mid = lo / 2 + hi / 2
            todo += [(lo, mid, depth + 1), (mid, hi, depth + 1)]
            continue
        if bad:
            rep.finding(name, '%s is wrong or not a number for large arguments' % name, [where(fn)], 'for %s in [%.12g, %.12g] the value %s' % (var, lo, hi, bad))
            return
    rep.ok(name, 'interval analysis over %d cells of the extended line' % n)
    rep.count('cells', n)


def c22_one(rep, item, proj, tier):
    modname, what = item
    mod = proj.modules[modname]
    tag = 'compiled' if modname in (CY, CE) else 'Python'
    ONE = (-1e-300, 1.0)

    def go():
        if what == 'fermi_func':
            fn = find(mod, what)
            v, _ = read(proj, fn, what, {})
            bounded(rep, '%s fermi_func' % tag, fn, terms_of(v)[0], fn.args[0], lambda a, b: (0, 1),
                    lambda a, b: 0.0 if a >= 40 else 1.0 if b <= -40 else None)
        elif what == 'diff_fermi':
            for s in (1, -1):
                fn = find(mod, what)
                v, _ = read(proj, fn, what, {'sign': s})
                bounded(rep, '%s diff_fermi sign=%d' % (tag, s), fn, terms_of(v)[0], fn.args[0], lambda a, b: (-INF, 0) if s > 0 else (0, INF),
                        lambda a, b: 0.0 if a >= 40 or b <= -40 else None)
        elif what == 'bose':
            for s in (1, -1):
                fn = find(mod, what)
                v, _ = read(proj, fn, what, {'sign': s})
                bounded(rep, '%s bose sign=%d' % (tag, s), fn, terms_of(v)[0], fn.args[0],
                        lambda a, b: (0, INF) if a * s > 0 else (-INF, -1),
                        lambda a, b: (0.0 if a * s > 0 else -1.0) if min(abs(a), abs(b)) >= 40 else None, None, True)
        elif what == 'func_pauli':
            for it in (1, 3):
                fn = find(mod, what)
                args = {'itype': it, 'mu': 0, 'T': 1, 'Dm': -1, 'Dp': 1}
                v, _ = read(proj, fn, what, args)
                tp = 2 * 3.141592653589793
                for k, t in enumerate(terms_of(v)):
                    bounded(rep, '%s func_pauli[%d] itype=%d' % (tag, k, it), fn, t, fn.args[0], lambda a, b: (0, tp),
                            lambda a, b: (0.0 if (a >= 40) == (k == 0) else tp) if a >= 40 or b <= -40 else None)
        elif what == 'func_1vN':
            fn = find(mod, what)
            v, _ = read(proj, fn, what, {'itype': 0, 'mu': 0, 'T': 1, 'limit': 50})
            subs, seen = [], set()

            def pick(x):
                if not isinstance(x, tuple) or isinstance(x, Term) and x in seen:
                    return
                if isinstance(x, Term):
                    seen.add(x)
                    if has_call(x, ('exp', 'mexp')) and len(inputs_of([x])) == 1 and inputs_of([x])[0] in ('Dm', 'Dp'):
                        subs.append(x)
                        return
                for y in x:
                    pick(y)
            for t in terms_of(v):
                pick(t)
            if not subs:
                raise Unclear('no guarded exponential found')
            for t in subs:
                nm = inputs_of([t])[0]
                bounded(rep, '%s func_1vN energy constant in %s' % (tag, nm), fn, t, nm, lambda a, b: (0, INF if a == -INF else max(-a, 0) + 1), lambda a, b: 0.0 if a >= 40 else None)
        elif what == 'FuncBose':
            cls = proj.find_class(modname, 'FuncBose')
            fn = proj.lookup(cls, 'eval')
            r = Reader(proj, {})
            t = terms_of(r.call(fn, [T('in', 'x')], this=Rec(cls, name='FuncBose')))[0]
            bounded(rep, '%s phonon Bose function' % tag, fn, t, 'x', lambda a, b: (0, INF) if a > 0 else (-INF, -1),
                    lambda a, b: (0.0 if a > 0 else -1.0) if min(abs(a), abs(b)) >= 40 else None, None, True)
    rep.guarded('%s %s' % (tag, what), go)


def c22(rep, proj, tier):
    items = [(m, w) for m in (PY, CY) for w in ('fermi_func', 'diff_fermi', 'bose', 'func_pauli', 'func_1vN')] + [(PE, 'FuncBose'), (CE, 'FuncBose')]
    for m in (PY, CY):
        if m not in proj.modules:
            raise AnchorMissing('module %s not found' % m)
    rep.parallel(c22_one, items, proj, tier)
    rep.assume('exp overflows to infinity above 709.7827 (IEEE doubles, numpy and C); math.exp raises there')
