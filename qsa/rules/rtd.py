"""C03: the compiled and the Python real-time-diagrammatic approach compute the same.

The kernel entries are compared like those of the other approaches (effect summaries, normal forms).  What happens to the finished
matrices -- summing over the leads, eliminating the coherences, the currents -- is whole-array arithmetic; `Words` turns it into index
notation (every array is a function of its indices) and the two results are compared as sums of products."""
import ast
from ..engine import World, Engine, Frame, PathV, sym, ref, call
from ..values import Poly, P0, P1, fresh_var, subst_poly, ind_cmp, TIES, S, thaw
from ..normal import Facts, canon, diff
from ..frontend import AnchorMissing
from .twins import words_of
from ..compare import compare_effects, EQUAL, DIFFERENT, UNKNOWN

PY = ('qmeq.approach.base.RTD', 'ApproachPyRTD')
CY = ('qmeq.approach.base.c_RTD', 'ApproachRTD')
ATOMS = {'integralD', 'integralX', 'func_pauli', 'fermi_func', 'phi', 'BW_Ozaki', 'delta_phi'}

DIMS = {'Wdd': 'lpp', 'WE1': 'lpp', 'WE2': 'lpp', 'ReWdn': 'lpn', 'ImWdn': 'lpn', 'ReWnd': 'lnp', 'ImWnd': 'lnp', 'Lnn': 'n',
        'kern': 'pp', 'phi0': 'p', 'LN': 'p', 'mulst': 'l', 'current': 'l', 'energy_current': 'l', 'heat_current': 'l',
        'Ea': 'm', 'all_bbp': 'pc'}
SIZE = {'l': 'si.nleads', 'p': 'si.npauli', 'n': 'n_offdiag', 'm': 'si.nmany', 'c': 'columns'}
FILLS = {'set_matrix_element_dd': {'Wdd', 'WE1', 'WE2'}, 'add_element_2nd_order': {'Wdd'}, 'add_element_Lnn': {'Lnn'},
         'add_matrix_element': {'ReWdn', 'ImWdn', 'ReWnd', 'ImWnd', 'Lnn'}}
MATS = {'Wdd', 'WE1', 'WE2', 'ReWdn', 'ImWdn', 'ReWnd', 'ImWnd', 'Lnn', 'kern', 'LN', 'current', 'energy_current', 'heat_current'}
FLAGS = ('off_diag_corrections', 'ImGamma')


class Unknown(Exception):
    pass


def bind(p, v, dim):
    d = (v, ('range', P0.frozen(), sym(SIZE[dim]).frozen()))
    return Poly({(m[0] | {d}, m[1], m[2]): c for m, c in p.t.items()})


class Ten(object):
    """an array as a function of its indices"""
    def __init__(self, dims, f):
        self.dims, self.f = dims, f

    def at(self, *idx):
        return self.f(list(idx))


class Lst(object):
    """a list grown by append inside loops"""
    def __init__(self):
        self.entry = None


class Row(object):
    def __init__(self, q):
        self.q = q


def scalar(p):
    return Ten('', lambda idx: p)


class Words(object):
    def __init__(self, project, cls, flags, nd):
        self.pr, self.cls, self.flags, self.nd = project, cls, flags, nd
        self.store = {}
        self.reads = []        # (matrix, number of fills of it so far)
        self.fills = {}
        self.where = {}
        self.loops = []
        self.guards = []
        self.depth = 0

    # ------------------------------------------------------------- helpers
    def leaf(self, n):
        """the array an attribute path names"""
        while isinstance(n, ast.Attribute) and n.attr in ('base',):
            n = n.value
        if isinstance(n, ast.Attribute):
            return n.attr.lstrip('_')
        return None

    def atom(self, name):
        dims = DIMS[name]
        if name == 'all_bbp':
            # the first rows belong to the populations: the same state twice
            return Ten(dims, lambda i: ref(name, [i[0], P0 if i[1] == P1 else i[1]]))
        if name in ('Lnn',):
            if self.nd.get(name) == 2:
                return Ten('nn', lambda i: ref('Lnn', [i[0]]) * ind_cmp('eq', i[0] - i[1]))
            return Ten('n', lambda i: ref('Lnn', i))
        if name in ('ReWnd', 'ImWnd') and self.nd.get(name) == 2:
            def f(i, name=name):
                v = fresh_var()
                return bind(ref(name, [Poly.atom(v)] + i), v, 'l')
            return Ten(dims[1:], f)
        return Ten(dims, lambda i, name=name: ref(name, i))

    def read(self, name):
        self.reads.append((name, self.fills.get(name, 0)))
        if name in self.store:
            return self.store[name]
        return self.atom(name)

    def touches(self, nodes, seen=()):
        """(matrices read or written, matrices filled by the kernel handler)"""
        a, b = set(), set()
        for s in nodes:
            for x in ast.walk(s):
                if isinstance(x, ast.Attribute):
                    n = x.attr.lstrip('_')
                    if n in FILLS:
                        b |= FILLS[n]
                    elif n in MATS:
                        a.add(n)
                    m = self.pr.lookup(self.cls, x.attr) if isinstance(x.value, ast.Name) else None
                    if m is not None and m.name not in seen and len(seen) < 8:
                        c, d = self.touches(m.node.body, tuple(seen) + (m.name,))
                        a |= c
                        b |= d
        return a, b

    # --------------------------------------------------------- expressions
    def ev(self, n, env):
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                return scalar(Poly.const(int(n.value)))
            if isinstance(n.value, (int, float)):
                return scalar(Poly.const(n.value))
            raise Unknown('constant')
        if isinstance(n, ast.Name):
            if n.id in env:
                v = env[n.id]
                if isinstance(v, Unknown):
                    raise v
                return self.read(v[1]) if isinstance(v, tuple) else v
            raise Unknown('name ' + n.id)
        if isinstance(n, ast.Attribute):
            if n.attr == 'base':
                return self.ev(n.value, env)
            if n.attr == 'nan':
                return scalar(sym('nan'))
            name = n.attr.lstrip('_')
            if name in DIMS:
                return self.read(name)
            if name == 'T' and name not in DIMS:
                v = self.ev(n.value, env)
                if len(v.dims) == 2:
                    return Ten(v.dims[::-1], lambda i: v.f(i[::-1]))
            if name in ('nleads', 'npauli', 'ncharge', 'nsingle', 'nmany'):
                return scalar(sym('si.' + name))
            if name in ('ImGamma', 'off_diag_corrections'):
                return scalar(Poly.const(int(self.flags[name])))
            if name == 'statesdm':
                return 'statesdm'
            raise Unknown('attribute ' + n.attr)
        if isinstance(n, ast.BinOp):
            a, b = self.ev(n.left, env), self.ev(n.right, env)
            if isinstance(n.op, ast.MatMult):
                return self.dot(a, b)
            return self.binop(n.op, a, b)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.UAdd)):
            v = self.ev(n.operand, env)
            return v if isinstance(n.op, ast.UAdd) else Ten(v.dims, lambda i: -v.f(i))
        if isinstance(n, ast.Subscript):
            v = self.ev(n.value, env)
            ix = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
            if v == 'statesdm':
                return Row(self.ev(ix[0], env).at())
            return self.sub(v, ix, env)
        if isinstance(n, ast.Call):
            return self.call(n, env)
        raise Unknown(type(n).__name__)

    def binop(self, op, a, b):
        dims = a.dims if len(a.dims) >= len(b.dims) else b.dims
        k, m = len(dims) - len(a.dims), len(dims) - len(b.dims)
        for x, y in zip(dims[k:], a.dims):
            if x != y:
                raise Unknown('shapes')
        for x, y in zip(dims[m:], b.dims):
            if x != y:
                raise Unknown('shapes')
        if isinstance(op, ast.Add):
            return Ten(dims, lambda i: a.f(i[k:]) + b.f(i[m:]))
        if isinstance(op, ast.Sub):
            return Ten(dims, lambda i: a.f(i[k:]) - b.f(i[m:]))
        if isinstance(op, ast.Mult):
            return Ten(dims, lambda i: a.f(i[k:]) * b.f(i[m:]))
        if isinstance(op, ast.Div):
            c = b.f([sym('?')] * len(b.dims)).const_value()
            if c is not None and c[1] == 0 and c[0]:
                return Ten(dims, lambda i: a.f(i[k:]).scale((1 / c[0], c[1])))
        raise Unknown('operator')

    def dot(self, a, b):
        if not a.dims or not b.dims:
            return self.binop(ast.Mult(), a, b)
        if a.dims[-1] != b.dims[-2 if len(b.dims) > 1 else -1] or len(b.dims) > 2:
            raise Unknown('product of %s and %s' % (a.dims, b.dims))

        def f(i):
            v = fresh_var()
            x = Poly.atom(v)
            na = len(a.dims) - 1
            return bind(a.f(i[:na] + [x]) * b.f([x] + i[na:]), v, a.dims[-1])
        return Ten(a.dims[:-1] + b.dims[1:], f)

    def summed(self, v, axis):
        if not v.dims:
            return v
        if axis is None:
            while v.dims:
                v = self.summed(v, 0)
            return v
        k = axis if axis >= 0 else axis + len(v.dims)

        def f(i):
            x = fresh_var()
            return bind(v.f(i[:k] + [Poly.atom(x)] + i[k:]), x, v.dims[k])
        return Ten(v.dims[:k] + v.dims[k + 1:], f)

    def sub(self, v, ix, env):
        """v[ix]; a slice keeps its whole axis (the matrices are used in full)"""
        if any(isinstance(i, ast.Constant) and i.value is Ellipsis for i in ix):
            k = [isinstance(i, ast.Constant) and i.value is Ellipsis for i in ix].index(True)
            ix = list(ix[:k]) + [ast.Slice()] * (len(v.dims) - len(ix) + 1) + list(ix[k + 1:])
        if len(ix) > len(v.dims):
            raise Unknown('too many subscripts')
        plan = []
        for k, i in enumerate(list(ix) + [ast.Slice()] * (len(v.dims) - len(ix))):
            if isinstance(i, ast.Slice):
                self.whole(i, v.dims[k], env)
                plan.append(None)
            else:
                plan.append(self.ev(i, env).at())

        def f(idx):
            it = iter(idx)
            return v.f([next(it) if p is None else p for p in plan])
        return Ten(''.join(d for d, p in zip(v.dims, plan) if p is None), f)

    def whole(self, s, dim, env):
        if s.step is not None:
            raise Unknown('stride')
        if s.lower is not None and not (isinstance(s.lower, ast.Constant) and s.lower.value == 0):
            raise Unknown('part of an axis')
        if s.upper is not None:
            u = self.ev(s.upper, env).at()
            if u != sym(SIZE[dim]):
                raise Unknown('part of an axis')

    def call(self, n, env):
        fn = n.func
        name = fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, 'id', None)
        isnp = isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id in ('np', 'numpy')
        if name == 'get_kern_size':
            return scalar(sym('si.npauli'))
        if name in ('matmul', 'dot') and isnp and len(n.args) == 2:
            return self.dot(self.ev(n.args[0], env), self.ev(n.args[1], env))
        if name == 'sum':
            arr, rest = (self.ev(n.args[0], env), n.args[1:]) if isnp else (self.ev(fn.value, env), n.args)
            ax = [k.value for k in n.keywords if k.arg == 'axis'] + list(rest)
            if not ax:
                return self.summed(arr, None)
            if isinstance(ax[0], ast.Constant) and isinstance(ax[0].value, int):
                return self.summed(arr, ax[0].value)
            raise Unknown('axis')
        if name in ('zeros', 'zeros_like', 'empty') and isnp:
            a = n.args[0]
            if isinstance(a, ast.Attribute) and a.attr == 'shape':
                v = self.ev(a.value, env)
                return Ten(v.dims, lambda i: P0)
            if name == 'zeros_like':
                v = self.ev(a, env)
                return Ten(v.dims, lambda i: P0)
            e = a.elts if isinstance(a, ast.Tuple) else [a]
            back = {v: k for k, v in SIZE.items()}
            dims = ''
            for x in e:
                p = self.ev(x, env).at().single_atom()
                nm = S(p)[1] if p is not None and S(p)[0] == 's' else None
                if nm not in back:
                    raise Unknown('size')
                dims += back[nm]
            return Ten(dims, lambda i: P0)
        if name in ('array', 'asarray') and isnp and n.args:
            v = self.ev(n.args[0], env)
            if isinstance(v, Lst):
                if v.entry is None:
                    raise Unknown('empty list')
                return v.entry
            return v
        if name == 'copy' and not n.args:
            return self.ev(fn.value, env)
        if name == 'float' and len(n.args) == 1:
            return self.ev(n.args[0], env)
        if name == 'multiply' and isnp:
            return self.binop(ast.Mult(), self.ev(n.args[0], env), self.ev(n.args[1], env))
        if name == 'transpose' and isnp and len(n.args) == 1:
            v = self.ev(n.args[0], env)
            if len(v.dims) == 2:
                return Ten(v.dims[::-1], lambda i: v.f(i[::-1]))
        raise Unknown('call of %s' % name)

    # ---------------------------------------------------------- statements
    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        if isinstance(s, (ast.Pass, ast.Global)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            return
        if isinstance(s, ast.AnnAssign) and s.value is not None:
            s = ast.copy_location(ast.Assign(targets=[s.target], value=s.value), s)
        if isinstance(s, ast.AnnAssign):
            return
        if isinstance(s, ast.Assign):
            if len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and \
                    len(s.targets[0].elts) == len(s.value.elts):
                for t, v in zip(s.targets[0].elts, s.value.elts):
                    self.stmt(ast.copy_location(ast.Assign(targets=[t], value=v), s), env)
                return
            try:
                if isinstance(s.value, ast.List) and not s.value.elts:
                    v = Lst()
                else:
                    v = self.alias(s.value, env)
            except Unknown as ex:
                v = ex
            for t in s.targets:
                self.assign(t, v, None, s, env)
            return
        if isinstance(s, ast.AugAssign):
            try:
                v = self.ev(s.value, env)
            except Unknown as ex:
                v = ex
            self.assign(s.target, v, s.op, s, env)
            return
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            return self.effect(s.value, s, env)
        if isinstance(s, ast.If):
            try:
                c = self.ev(s.test, env).at().const_value()
            except Unknown:
                c = self.negated(s.test, env)
            if c is not None:
                return self.block(s.body if c[0] else s.orelse, env)
            a, b = self.touches(s.body + s.orelse)
            if a & MATS:
                g = self.guard(s.test, env)
                if g is not None and not s.orelse:
                    self.guards.append(g)
                    self.block(s.body, env)
                    self.guards.pop()
                    return
                if self.appends(s.body):
                    raise Unknown('condition of the entries of a list')
                raise Unknown('conditional array operation')
            if self.appends(s.body):
                g = self.guard(s.test, env)
                if g is None or s.orelse:
                    raise Unknown('condition of the entries of a list')
                self.guards.append(g)
                self.block(s.body, env)
                self.guards.pop()
                return
            self.fill(b, s)
            return
        if isinstance(s, ast.For):
            return self.for_(s, env)
        if isinstance(s, ast.Return) and s.value is None:
            raise Unknown('return')
        a, b = self.touches([s])
        if a or b:
            raise Unknown(type(s).__name__)

    def negated(self, t, env):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            try:
                c = self.ev(t.operand, env).at().const_value()
            except Unknown:
                return None
            if c is not None:
                return (0 if c[0] else 1, 0)
        return None

    def appends(self, body):
        return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'append' for s in body for x in ast.walk(s))

    def guard(self, t, env):
        """('uniq', a, q) for the test that a state is kept"""
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute) and t.func.attr in ('get_ind_dm0', 'is_unique', 'get_ind_dm0_bool'):
            ok = t.func.attr != 'get_ind_dm0' or (len(t.args) == 4 and isinstance(t.args[3], ast.Constant) and t.args[3].value == 2) or \
                any(k.arg == 'maptype' and isinstance(k.value, ast.Constant) and k.value.value == 2 for k in t.keywords)
            if ok:
                a, b, q = [self.ev(x, env).at() for x in t.args[:3]]
                if a == b:
                    return (a, q)
        return None

    def alias(self, n, env):
        """arrays are references: a name bound to a member array writes through"""
        if isinstance(n, ast.Attribute):
            name = self.leaf(n)
            if name in MATS:
                self.ev(n, env)
                return ('ref', name)
        if isinstance(n, ast.Name) and isinstance(env.get(n.id), tuple):
            return env[n.id]
        return self.ev(n, env)

    def effect(self, c, s, env):
        fn = c.func
        if isinstance(fn, ast.Attribute) and fn.attr == 'append' and isinstance(fn.value, ast.Name) and isinstance(env.get(fn.value.id), Lst):
            return self.append(env[fn.value.id], c.args[0], env)
        if isinstance(fn, ast.Attribute) and fn.attr == 'fill':
            name = self.leaf(fn.value)
            if name in MATS:
                v = self.ev(c.args[0], env)
                d = self.read(name).dims
                self.put(name, Ten(d, lambda i: v.at()), s)
                return
        m = None
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name):
            m = self.pr.lookup(self.cls, fn.attr)
            if m is None and fn.attr in FILLS:
                return self.fill(FILLS[fn.attr], s)
        if isinstance(fn, ast.Name):
            r = self.pr.resolve(self.cls_module(), fn.id)
            if r is not None and r[0] == 'func':
                return self.inplace(r[1], c, s, env)
            return
        if m is not None:
            a, b = self.touches([s])
            if not a:
                return self.fill(b, s)
            if self.depth > 6:
                raise Unknown('recursion')
            e = {}
            ps = [x.arg for x in m.node.args.args][1:]
            for p, x in zip(ps, c.args):
                try:
                    e[p] = self.alias(x, env)
                except Unknown as ex:
                    e[p] = ex
            self.depth += 1
            self.block(m.node.body, e)
            self.depth -= 1
            return
        a, b = self.touches([s])
        if a:
            raise Unknown('call of %s' % getattr(fn, 'attr', '?'))
        self.fill(b, s)

    def cls_module(self):
        return self.cls.module

    def inplace(self, f, c, s, env):
        """a helper that overwrites an array argument cell by cell"""
        mats = [self.leaf(a) for a in c.args]
        if not any(x in MATS for x in mats):
            return
        g = Engine(World(self.pr), None)
        ps = [x.arg for x in f.node.args.args]
        Frame(g, f, f.module).invoke(f, [PathV('arg%d' % k) for k in range(len(ps))], {})
        for e in g.effects:
            if not isinstance(e.target, str) or not e.target.startswith('arg'):
                raise Unknown('helper %s' % f.name)
            k = int(e.target[3:])
            name = mats[k]
            bs = [v for v, d in e.binders]
            iv = [i.single_atom() if isinstance(i, Poly) else None for i in e.idx]
            if name not in MATS or e.op != '=' or e.guard != P1 or sorted(map(str, iv)) != sorted(map(str, bs)) or len(set(iv)) != len(iv):
                raise Unknown('helper %s' % f.name)
            for v, d in e.binders:
                k2 = iv.index(v)
                lo, hi = d[1], d[2]
                if lo != P0.frozen() or hi != call('shape', [sym(e.target), Poly.const(k2)]).frozen():
                    raise Unknown('helper %s' % f.name)
            old = {j: self.read(mats[j]) for j in range(len(mats)) if mats[j] in MATS}
            val = e.val

            def fun(i, val=val, iv=tuple(iv), old=old):
                p = subst_poly(val, dict(zip(iv, i)))
                from ..compare import all_atoms
                sub = {}
                for a in all_atoms(p):
                    t = S(a)
                    if t[0] == 'ref' and t[1].startswith('arg'):
                        sub[a] = old[int(t[1][3:].rstrip("'"))].f([thaw(x) for x in t[2]])
                return subst_poly(p, sub)
            self.put(name, Ten(old[k].dims, fun), s)

    def append(self, lst, arg, env):
        """entries are appended for every kept state, charge by charge: entry i belongs to row i of the list of density-matrix entries"""
        v = self.ev(arg, env).at()
        if len(self.loops) != 2 or len(self.guards) != 1 or lst.entry is not None:
            raise Unknown('append')
        (q, dq), (a, da) = self.loops
        ok = dq == ('range', sym('si.ncharge')) and da == ('row', Poly.atom(q)) and self.guards[0] == (Poly.atom(a), Poly.atom(q))
        if not ok:
            raise Unknown('append over another enumeration')
        lst.entry = Ten('p', lambda i: subst_poly(v, {a: ref('all_bbp', [i[0], P0]), q: ref('all_bbp', [i[0], Poly.const(2)])}))

    def fill(self, b, s):
        for m in b:
            self.fills[m] = self.fills.get(m, 0) + 1

    def for_(self, s, env):
        a, b = self.touches(s.body)
        local = any(isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and
                    isinstance(env.get(x.value.id), (Ten, tuple)) for st in s.body for x in ast.walk(st))
        if not (a & MATS) and not self.appends(s.body) and not local:
            return self.fill(b, s)
        v = fresh_var()
        it = s.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('range', 'prange') and len(it.args) == 1:
            n = self.ev(it.args[0], env).at()
            dom = ('range', n)
        else:
            r = self.ev(it, env)
            if not isinstance(r, Row):
                raise Unknown('loop')
            dom = ('row', r.q)
        if not isinstance(s.target, ast.Name) or s.orelse or any(isinstance(x, (ast.Break, ast.Continue, ast.Return)) for x in ast.walk(s)):
            raise Unknown('loop')
        env[s.target.id] = scalar(Poly.atom(v))
        self.loops.append((v, dom))
        n0 = {k: id(x) for k, x in self.store.items()}
        self.pending = getattr(self, 'pending', {})
        self.block(s.body, env)
        self.loops.pop()
        for k in list(env):
            if isinstance(env[k], Ten):
                self.closed(env[k], v)

    def closed(self, t, v):
        pass

    # -------------------------------------------------------------- stores
    def put(self, name, ten, s):
        if self.loops and any(True for v, d in self.loops):
            raise Unknown('whole array stored in a loop')
        self.store[name] = ten
        self.where[name] = s.lineno

    def assign(self, t, v, op, s, env):
        if isinstance(t, ast.Name):
            old = env.get(t.id)
            if op is not None:
                if isinstance(old, tuple):
                    return self.cells(old[1], [], v, op, s, env)
                if isinstance(v, Unknown) or not isinstance(old, Ten):
                    env[t.id] = Unknown('value of %s' % t.id)
                    return
                if self.loops:
                    raise Unknown('running total')
                env[t.id] = self.binop(op, old, v)
                return
            env[t.id] = v
            return
        ix = []
        base = t
        if isinstance(t, ast.Subscript):
            ix = t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice]
            base = t.value
        while isinstance(base, ast.Attribute) and base.attr == 'base':
            base = base.value
        if isinstance(base, ast.Name):
            cur = env.get(base.id)
            if isinstance(cur, tuple):
                return self.cells(cur[1], ix, v, op, s, env)
            if isinstance(cur, Ten):
                env[base.id] = self.update(cur, ix, v, op, env)
                return
            return
        name = self.leaf(base)
        if name in MATS:
            if isinstance(v, Lst):
                raise Unknown('list')
            return self.cells(name, ix, v, op, s, env)
        a, b = self.touches([s])
        if a & MATS and not name:
            raise Unknown('store')

    def cells(self, name, ix, v, op, s, env):
        if isinstance(v, tuple):
            v = self.read(v[1])
        if isinstance(v, Unknown):
            raise v
        old = self.read(name) if (op is not None or ix) else None
        if not ix and op is None:
            if self.loops:
                raise Unknown('whole array stored in a loop')
            self.store[name] = v
        else:
            self.store[name] = self.update(old, ix, v, op, env)
        self.where[name] = s.lineno

    def update(self, old, ix, v, op, env):
        """old[ix] op= v inside the current loops; every index of a loop must select one cell (or row) of its own"""
        if isinstance(v, Unknown):
            raise v
        if isinstance(v, tuple):
            v = self.read(v[1])
        if any(isinstance(i, ast.Constant) and i.value is Ellipsis for i in ix):
            k = [isinstance(i, ast.Constant) and i.value is Ellipsis for i in ix].index(True)
            ix = list(ix[:k]) + [ast.Slice()] * (len(old.dims) - len(ix) + 1) + list(ix[k + 1:])
        if len(ix) > len(old.dims):
            raise Unknown('too many subscripts')
        plan = []
        for k, i in enumerate(list(ix) + [ast.Slice()] * (len(old.dims) - len(ix))):
            if isinstance(i, ast.Slice):
                self.whole(i, old.dims[k], env)
                plan.append(None)
            else:
                p = self.ev(i, env).at()
                a = p.single_atom()
                if a is None or a not in [w for w, d in self.loops]:
                    raise Unknown('single cell stored')
                plan.append(a)
        used = [p for p in plan if p is not None]
        lp = dict(self.loops)
        if sorted(map(str, used)) != sorted(map(str, lp)):
            raise Unknown('store in a loop over something else')
        for p, d in zip(plan, old.dims):
            if p is not None and lp[p] != ('range', sym(SIZE[d])):
                raise Unknown('loop over part of an axis')
        rest = ''.join(d for d, p in zip(old.dims, plan) if p is None)
        if v.dims and v.dims != rest:
            raise Unknown('shapes')

        def f(i):
            # inside the loop the stored value is seen through the same formula
            val = v.f([x for x, p in zip(i, plan) if p is None][:len(v.dims)])
            mp = {p: x for p, x in zip(plan, i) if p is not None}
            val = subst_poly(val, mp) if mp else val
            if op is None:
                return val
            if isinstance(op, ast.Add):
                return old.f(i) + val
            if isinstance(op, ast.Sub):
                return old.f(i) - val
            raise Unknown('operator')
        return Ten(old.dims, f)


def late(w, names):
    """matrices read before the last of their entries has been added"""
    return sorted({m for m, k in w.reads if m in names and k < w.fills.get(m, 0)})


def matrix_part(rep, project, world, entry, targets, flagsets):
    res = []
    for spec in (PY, CY):
        ci = project.find_class(*spec)
        nd = ranks(project, ci)
        out = {}
        for fl in flagsets:
            w = Words(project, ci, dict(fl), nd)
            m = project.lookup(ci, entry)
            if m is None:
                raise AnchorMissing('%s.%s' % (ci.name, entry))
            env = {}
            for a in m.node.args.args[1:]:
                env[a.arg] = Unknown('argument')
            try:
                w.block(m.node.body, env)
                out[tuple(sorted(fl.items()))] = w
            except Unknown as ex:
                out[tuple(sorted(fl.items()))] = ex
        res.append((ci, m, out))
    for fl in flagsets:
        k = tuple(sorted(fl.items()))
        ws = [r[2][k] for r in res]
        lab = ', '.join('%s=%s' % x for x in k)
        for ci, m, out in res:
            rep.count('array programs')
        for t in targets:
            name = 'RTD %s: %s (%s)' % (entry, t, lab)
            bad = [x for x in ws if isinstance(x, Unknown)]
            if bad:
                rep.unknown(name, 'array operation not modelled: %s' % bad[0])
                continue
            where = ['%s:%d' % (ci.module.relpath, w.where.get(t, m.node.lineno)) for (ci, m, o), w in zip(res, ws)]
            try:
                vals = []
                for w in ws:
                    x = w.store.get(t)
                    vals.append(w.atom(t) if x is None else x)
                if len(vals[0].dims) != len(vals[1].dims):
                    # one keeps the leads apart, the other adds them up
                    rep.unknown(name, 'shapes %s and %s' % (vals[0].dims, vals[1].dims))
                    continue
                idx = [sym('i%d' % j) for j in range(len(vals[0].dims))]
                a, b = [canon(v.f(list(idx)), Facts(True, False)) for v in vals]
                d = diff(a, b)
            except (Unknown, RuntimeError) as ex:
                rep.unknown(name, 'array operation not modelled: %s' % ex)
                continue
            if d:
                rep.finding('RTD/%s/%s' % (entry, t), 'RTD: the compiled %s and the Python one give %s different values (%s)' % (entry, t, lab),
                            where, '; '.join('%s only: %s' % (x[0], x[3][:300]) for x in d[:3]))
            else:
                rep.ok(name, 'index notation, %d terms' % len(a))
        for (ci, m, o), w in zip(res, ws):
            if isinstance(w, Unknown):
                continue
            bad = late(w, MATS)
            nm = 'RTD %s %s: matrices complete before use (%s)' % (ci.name, entry, lab)
            if bad:
                rep.finding('RTD/%s/%s/order' % (ci.name, entry), '%s.%s uses %s before the last of its entries is added' %
                            (ci.name, entry, ', '.join(bad)), ['%s:%d' % (ci.module.relpath, m.node.lineno)], '')
            else:
                rep.ok(nm, '%d reads' % len(w.reads))


def ranks(project, ci):
    """number of axes of the member arrays, from their allocation"""
    out = {}
    for c in project.mro(ci):
        for m in c.methods.values():
            for x in ast.walk(m.node):
                if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and \
                        x.value.func.attr in ('zeros', 'empty') and x.value.args:
                    for t in x.targets:
                        if isinstance(t, ast.Attribute):
                            a = x.value.args[0]
                            out.setdefault(t.attr.lstrip('_'), len(a.elts) if isinstance(a, ast.Tuple) else 1)
    return out


ENTRIES = {'kh.dd_m', 'kh.dd_p', 'kh.rtd', 'kh.rtd2', 'kh.rtd_sum', 'kh.Lnn', 'ImGamma', 'BW_Ozaki_expansion', 'Ozaki_poles_and_residues',
           'paulifct', 'nsingle_warning_printed', 'printed_warning_ImGamma'}
TITLE = {'kh.dd_m': 'rates out of a state (W_dd, W_E1, W_E2)', 'kh.dd_p': 'rates into a state (W_dd, W_E1, W_E2)', 'kh.rtd': 'W_dn entries',
         'kh.rtd_sum': 'W_nd entries', 'kh.rtd2': 'second-order W_dd entries', 'kh.Lnn': 'inverse Liouvillian entries'}


def entries_part(rep, project, world, entry, models):
    engs = []
    for spec in (PY, CY):
        e = Engine(world, project.find_class(*spec), atoms=ATOMS)
        e.opaque_paths = {'Ozaki_poles_and_residues'}
        e.run(entry, [])
        engs.append(e)
        rep.count('effects extracted', len(e.effects))
        for nm, fn, where in sorted(set(e.undefined)):
            rep.finding('RTD/%s/undefined/%s' % (fn, nm), 'RTD/%s: %s reads the name %s, which nothing defines' % (fn, fn, nm), [where], '')
    rep.count('programs')
    lang = {'atoms': set(ATOMS) | {'vmin', 'vmax'}, 'words1': words_of(project, engs[0].cls) | {'RET'}, 'words2': words_of(project, engs[1].cls) | {'RET'}}
    out = compare_effects(engs[0].effects, engs[1].effects, (True, True), models=models, lang=lang, only=ENTRIES)
    for o in out:
        name = 'RTD %s: %s' % (entry, TITLE.get(o.target, o.target))
        if o.status == EQUAL:
            rep.ok(name, '%s, %d/%d terms' % (o.how, o.terms[0], o.terms[1]))
            rep.count('equal by %s' % o.how.split('(')[0].strip())
        elif o.status == UNKNOWN:
            rep.unknown(name, '%s: %s' % (o.how, o.detail))
        else:
            rep.finding('RTD/%s/%s' % (entry, o.target), 'RTD: the compiled %s and the Python one give different %s' %
                        (entry, TITLE.get(o.target, o.target)), o.where, o.detail)
    if not out:
        rep.unknown('RTD %s' % entry, 'no effect found')


def c03(rep, project, tier):
    w = World(project)
    n = 3 if tier == 'quick' else 8
    TIES[0] = True
    try:
        for entry in ('generate_fct', 'generate_kern', 'generate_current'):
            rep.guarded('RTD %s entries' % entry, entries_part, rep, project, w, entry, n)
        F = [{'off_diag_corrections': x, 'ImGamma': False} for x in (False, True)]
        rep.guarded('RTD generate_kern matrices', matrix_part, rep, project, w, 'generate_kern', ('kern', 'Wdd'), F)
        G = [{'off_diag_corrections': False, 'ImGamma': x} for x in (False, True)]
        rep.guarded('RTD generate_current', matrix_part, rep, project, w, 'generate_current', ('current', 'energy_current', 'heat_current'), G)
        rep.guarded('RTD generate_LN', matrix_part, rep, project, w, 'generate_LN', ('LN',), [dict.fromkeys(FLAGS, False)])
    finally:
        TIES[0] = False
    rep.assume('float comparisons decided by exact equality count as either outcome; cut-offs on amplitudes below 1e-9 count as cut-offs at zero')
    rep.assume('row i of the list of density-matrix entries is the i-th kept state in charge order (C05, C16)')
