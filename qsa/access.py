"""Access analysis: which array cells a piece of the source can touch.

An abstract interpretation of the source in which whole numbers that come from the
state indexing (state numbers, charges, loop counters, table entries) are kept exactly for
one finite state space, and every other value (energies, amplitudes, occupations,
user input) is the unknown value TOP.  A condition on TOP takes both branches.  What comes
out is the set of cells every subscript in the source can address for that state
space, whatever the numbers of the model are, and, for a parallel loop, the cells
every iteration reads and writes.
"""
import ast
import itertools
import math

import numpy as np


class Top(object):
    def __repr__(self):
        return 'TOP'


TOP = Top()
UNDEF = type('Undef', (), {'__repr__': lambda s: 'UNDEF'})()


class Stop(Exception):
    """the interpretation of this unit cannot go on"""


class Raised(Exception):
    """the source raises on this path"""


BREAK, CONTINUE, RETURN, RAISE = 'break', 'continue', 'return', 'raise'


class Base(object):
    n = 0
    __slots__ = ('id', 'name', 'data', 'size', 'epoch')

    def __init__(self, name, size, data=None, epoch=0):
        Base.n += 1
        self.id, self.name, self.size, self.data, self.epoch = Base.n, name, size, data, epoch


class Arr(object):
    """a view: the flat cells of a base that its elements are"""
    __slots__ = ('b', 'ix', 'readable')

    def __init__(self, b, ix):
        self.b, self.ix = b, ix

    @property
    def shape(self):
        return self.ix.shape

    def content(self):
        if self.b.data is None:
            return None
        d = self.b.data
        out = np.empty(self.ix.shape, dtype=object)
        f, g = out.reshape(-1), self.ix.reshape(-1)
        for k in range(g.size):
            f[k] = d[g[k]]
        return out

    def __repr__(self):
        return '<%s%s>' % (self.b.name, self.ix.shape)


class Ext(object):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'ext:' + self.name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Obj(object):
    n = 0

    def __init__(self, cls, attrs=None, name='', epoch=0):
        Obj.n += 1
        self.id = Obj.n
        self.cls, self.attrs, self.name, self.epoch = cls, attrs or {}, name or (cls.name if cls else 'object'), epoch

    def __repr__(self):
        return '<%s>' % self.name


class Super(object):
    def __init__(self, me, ci):
        self.me, self.ci = me, ci


class Fn(object):
    def __init__(self, fn=None, me=None, node=None, env=None, module=None, native=None):
        self.fn, self.me, self.node, self.env, self.module, self.native = fn, me, node, env, module, native


class Cls(object):
    def __init__(self, ci):
        self.ci = ci

    def __eq__(self, o):
        return isinstance(o, Cls) and o.ci is self.ci

    def __hash__(self):
        return id(self.ci)


class Mod(object):
    def __init__(self, m):
        self.m = m


class Env(dict):
    __slots__ = ('up',)


class Frame(object):
    __slots__ = ('env', 'module', 'fn', 'rets', 'ret', 'node', 'cy')


class Site(object):
    __slots__ = ('where', 'text', 'n', 'bad', 'unknown', 'func')


def join(a, b, ip=None):
    if a is b:
        return a
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a.b is b.b and a.ix.shape == b.ix.shape and np.array_equal(a.ix, b.ix):
            return a
        return TOP
    if isinstance(a, (tuple, list)) and type(a) == type(b) and len(a) == len(b):
        r = [join(x, y) for x, y in zip(a, b)]
        return tuple(r) if isinstance(a, tuple) else r
    if type(a) == type(b) and isinstance(a, (int, float, complex, str, bool)) and a == b:
        return a
    if isinstance(a, (Ext, Cls)) and a == b:
        return a
    return TOP


INTS = (int, bool, np.integer)


def isint(x):
    return isinstance(x, INTS)


def isnum(x):
    return isinstance(x, (int, bool, float, complex, np.integer, np.floating))


BIN = {
    ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b, ast.Mod: lambda a, b: a % b,
    ast.FloorDiv: lambda a, b: a // b, ast.Pow: lambda a, b: a ** b, ast.BitAnd: lambda a, b: a & b, ast.BitOr: lambda a, b: a | b,
    ast.BitXor: lambda a, b: a ^ b, ast.LShift: lambda a, b: a << b, ast.RShift: lambda a, b: a >> b, ast.Div: lambda a, b: a / b}
CMP = {
    ast.Eq: lambda a, b: a == b, ast.NotEq: lambda a, b: a != b, ast.Lt: lambda a, b: a < b, ast.LtE: lambda a, b: a <= b,
    ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b}

ITER = {'combinations': itertools.combinations, 'permutations': itertools.permutations, 'product': itertools.product,
        'combinations_with_replacement': itertools.combinations_with_replacement, 'chain': itertools.chain}
PURE = {'len', 'range', 'abs', 'min', 'max', 'sum', 'int', 'float', 'bool', 'str', 'list', 'tuple', 'dict', 'set', 'sorted', 'enumerate', 'zip', 'reversed',
        'isinstance', 'hasattr', 'print', 'round', 'complex', 'any', 'all', 'map', 'filter', 'type', 'getattr', 'setattr', 'callable', 'super', 'divmod', 'pow',
        'issubclass', 'repr', 'frozenset', 'prange', 'ValueError', 'MemoryError', 'Exception', 'id', 'iter', 'next', 'vars', 'bin', 'hex', 'ord', 'chr', 'format', 'filter'}


def hash_(s):
    import hashlib
    return int(hashlib.md5(s.encode()).hexdigest()[:8], 16)


class Race(object):
    def __init__(self, loop, key, message, detail):
        self.loop, self.key, self.message, self.detail = loop, key, message, detail


class Interp(object):
    MAXSTEPS = 40000000

    def __init__(self, proj, threads=1 << 20, atoms=(), wrap_ok=False):
        self.proj = proj
        self.threads = threads
        self.tid = 0
        self.atoms = set(atoms)
        self.atom_shape = {'BW_Ozaki': (3, 2), 'Ozaki': (3, 2)}
        self.sites = {}
        self.bad = {}               # key -> (message, where, detail)
        self.races = {}
        self.unk = {}
        self.steps = 0
        self.logs = []
        self.trace = None
        self.epoch = 0
        self.consts = {}
        self.loops = []
        self.case = ''
        self.funcs = set()
        self.shapebad = {}
        self.grids = 0
        self.chosen = set()
        self.warm = False
        self.eigh = None            # what stands for the diagonalisation
        self.values = False         # arrays of any type carry their content

    # ------------------------------------------------------------------ allocation
    def new(self, shape, name, data=None):
        shape = tuple(int(s) for s in shape) if isinstance(shape, (tuple, list)) else (int(shape),)
        if any(s < 0 for s in shape):
            raise Raised('negative extent')
        size = int(np.prod(shape)) if shape else 1
        b = Base(name, size, data, self.epoch)
        return Arr(b, np.arange(size).reshape(shape))

    def like(self, a, name='temp'):
        return self.new(a.shape, name)

    def from_concrete(self, x, name='temp'):
        x = np.asarray(x, dtype=object)
        return self.new(x.shape, name, list(x.reshape(-1)))

    # ------------------------------------------------------------------ recording
    def site(self, node, f):
        k = (f.module.name, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), id(node))
        s = self.sites.get(k)
        if s is None:
            s = Site()
            s.func = f.fn.qualname if f.fn else ''
            s.where = '%s:%s (%s)' % (f.module.relpath, getattr(node, 'lineno', '?'), s.func)
            try:
                s.text = ast.unparse(node)
            except Exception:
                s.text = '?'
            s.n = s.bad = s.unknown = 0
            self.sites[k] = s
        return s

    def unknown(self, what, node, f):
        k = (f.module.relpath, f.fn.qualname if f.fn else '', what)
        self.unk.setdefault(k, 0)
        self.unk[k] += 1

    def oob(self, s, arr, idx, kind, f):
        s.bad += 1
        key = '%s|%s|%s' % (f.module.relpath, s.func, s.text)
        if key not in self.bad:
            self.bad[key] = ('%s reads or writes outside its array: index %s of an array %s of shape %s'
                             % (s.text, tuple(idx), arr.b.name, tuple(arr.shape)), s.where, self.case)

    # ------------------------------------------------------------------ reading and writing cells
    def rd(self, arr, cells=None, node=None, f=None):
        t = self.trace
        if t is not None and arr.b.epoch <= t['mark']:
            r = t['R'].setdefault(arr.b.id, {})
            w = t['W'].get(arr.b.id, ())
            for c in (arr.ix.reshape(-1) if cells is None else cells):
                if c not in w:
                    r.setdefault(int(c), (arr.b, node, f))

    def wr(self, arr, cells, val, node=None, f=None):
        t = self.trace
        if t is not None and arr.b.epoch <= t['mark']:
            w = t['W'].setdefault(arr.b.id, {})
            for c in cells:
                w[int(c)] = (arr.b, node, f, val)

    def setcells(self, arr, val):
        d = arr.b.data
        if d is None:
            return
        cells = arr.ix.reshape(-1)
        if isinstance(val, Arr):
            vc = val.content()
            if vc is None:
                new = [TOP] * len(cells)
            else:
                new = list(np.broadcast_to(vc, arr.shape).reshape(-1))
        else:
            new = [val] * len(cells)
            if self.values and isinstance(val, (list, tuple)):
                try:
                    new = list(np.broadcast_to(np.array(val, dtype=object), arr.shape).reshape(-1))
                except ValueError:
                    new = [TOP] * len(cells)
        for c, v in zip(cells, new):
            self.setcell(arr.b, int(c), v)

    def setcell(self, b, c, v):
        for lg in self.logs[-1:]:
            lg.setdefault(('c', b.id, c), (b, c, b.data[c]))
        b.data[c] = v

    def getattr_store(self, o, name, v):
        for lg in self.logs[-1:]:
            lg.setdefault(('a', o.id, name), (o, name, o.attrs.get(name, UNDEF)))
        o.attrs[name] = v

    # ------------------------------------------------------------------ subscripts
    def subscript(self, a, node, idx, f, cy):
        """-> (kind, view or cell)"""
        s = self.site(node, f)
        s.n += 1
        idx = list(idx)
        for j, i in enumerate(idx):
            if isinstance(i, float) and i == int(i) and not cy:
                return None
        nd = len(a.shape)
        if Ellipsis in idx:
            k = idx.index(Ellipsis)
            idx = idx[:k] + [slice(None)] * (nd - len(idx) + 1) + idx[k + 1:]
        if any(i is None for i in idx):
            if any(i is not None and not isinstance(i, slice) for i in idx):
                return None
            try:
                return ('view', Arr(a.b, a.ix[tuple(idx)]))
            except Exception:
                return None
        if len(idx) > nd:
            return None
        full = len(idx) == nd and all(isint(i) for i in idx)
        raw = getattr(node, 'slice', None)
        parts = raw.elts if isinstance(raw, ast.Tuple) else [raw]
        out = []
        for k, i in enumerate(idx):
            if isint(i):
                i = int(i)
                n = a.shape[k]
                lit = False
                if k < len(parts):
                    p = parts[k]
                    lit = isinstance(p, ast.UnaryOp) and isinstance(p.operand, ast.Constant)
                if i < 0 and (lit and not cy):
                    i += n
                if not 0 <= i < n:
                    self.oob(s, a, idx, 'extent', f)
                    return ('bad', None)
                out.append(i)
            elif isinstance(i, slice):
                if any(x is TOP for x in (i.start, i.stop, i.step)):
                    s.unknown += 1
                    return None
                out.append(slice(*[int(x) if x is not None else None for x in (i.start, i.stop, i.step)]))
            else:
                if i is TOP:
                    s.unknown += 1
                return None
        if full:
            return ('cell', int(a.ix[tuple(out)]))
        return ('view', Arr(a.b, a.ix[tuple(out)]))

    # ------------------------------------------------------------------ functions
    def call_fn(self, fn, args, kwargs, me=None):
        """fn: FuncInfo"""
        node = fn.node
        f = Frame()
        f.module, f.fn, f.rets, f.ret, f.node = fn.module, fn, [], None, node
        f.cy = fn.module.is_cython
        self.funcs.add(fn.module.relpath + ':' + fn.qualname)
        env = Env()
        env.up = None
        f.env = env
        self.bindargs(node, args, kwargs, env, f)
        self.carrays(fn, env)
        return self.runbody(node.body, f)

    def carrays(self, fn, env):
        import re
        for nm, ty in fn.ctypes.items():
            if nm in env:
                continue
            m = re.search(r'\[(\d+)\]$', str(ty))
            if m:
                env[nm] = self.new((int(m.group(1)),), nm)

    def bindargs(self, node, args, kwargs, env, f):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        for n, v in zip(names, args):
            env[n] = v
        if a.vararg:
            env[a.vararg.arg] = tuple(args[len(names):])
        kwargs = dict(kwargs)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kwargs and n not in env:
                env[n] = kwargs.pop(n)
        if a.kwarg:
            env[a.kwarg.arg] = {k: v for k, v in kwargs.items() if k not in env}
        d = a.defaults
        for n, dv in zip(names[len(names) - len(d):], d):
            if n not in env:
                env[n] = self.ev(dv, f)
        for x, dv in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and dv is not None:
                env[x.arg] = self.ev(dv, f)
        for n in names:
            if n not in env:
                env[n] = TOP

    def runbody(self, body, f):
        r = self.block(body, f)
        if r == RAISE:
            if not f.rets:
                raise Raised('raise in %s' % (f.fn.qualname if f.fn else '?'))
            r = None
            vals = list(f.rets)
        else:
            vals = list(f.rets) + [f.ret if r == RETURN else None]
        v = vals[0]
        for w in vals[1:]:
            if v is None and isinstance(w, Arr) or w is None and isinstance(v, Arr):
                v = w if v is None else v
                continue
            v = join(v, w)
        return v

    def call(self, fv, args, kwargs, node, f):
        if isinstance(fv, Fn):
            if fv.native is not None:
                return fv.native(args, kwargs)
            if fv.node is not None:
                g = Frame()
                g.module, g.fn, g.rets, g.ret, g.node, g.cy = fv.module, f.fn, [], None, fv.node, f.cy
                env = Env()
                env.up = fv.env
                g.env = env
                self.bindargs(fv.node, args, kwargs, env, g)
                if isinstance(fv.node, ast.Lambda):
                    return self.ev(fv.node.body, g)
                return self.runbody(fv.node.body, g)
            if fv.fn.name in self.atoms:
                for x in args:
                    if isinstance(x, Arr):
                        self.rd(x, None, node, f)
                sh = self.atom_shape.get(fv.fn.name)
                return self.new(sh, 'temp') if sh else TOP
            return self.call_fn(fv.fn, ([fv.me] if fv.me is not None else []) + list(args), kwargs)
        if isinstance(fv, Cls):
            return self.construct(fv.ci, args, kwargs)
        if isinstance(fv, Ext):
            return self.ext(fv.name, args, kwargs, node, f)
        if isinstance(fv, tuple) and fv and fv[0] == 'm':
            return self.meth(fv[1], fv[2], args, kwargs, node, f)
        if fv is TOP:
            if isinstance(node.func, ast.Attribute) and node.func.attr in ('append', 'extend', 'update', 'insert', 'remove', 'pop'):
                self.unknown('%s of an unknown value' % node.func.attr, node, f)
            return TOP
        if isinstance(fv, tuple) and fv and fv[0] == 'b':
            return self.builtin(fv[1], args, kwargs, node, f)
        self.unknown('call of %r' % (type(fv).__name__,), node, f)
        return TOP

    def construct(self, ci, args, kwargs):
        o = Obj(ci, {}, ci.name, self.epoch)
        for m in ('__cinit__', '__init__'):
            fn = self.proj.lookup(ci, m)
            if fn is not None:
                self.call_fn(fn, [o] + list(args), kwargs)
        return o

    # ------------------------------------------------------------------ statements
    def block(self, stmts, f):
        for s in stmts:
            self.steps += 1
            if self.steps > self.MAXSTEPS:
                raise Stop('too many steps')
            r = self.stmt(s, f)
            if r is not None:
                return r
        return None

    def stmt(self, s, f):
        t = type(s)
        if t is ast.Assign:
            v = self.ev(s.value, f)
            for tg in s.targets:
                self.assign(tg, v, f)
            return None
        if t is ast.AugAssign:
            self.aug(s, f)
            return None
        if t is ast.Expr:
            if not isinstance(s.value, ast.Constant):
                self.ev(s.value, f)
            return None
        if t is ast.If:
            c = self.truth(self.ev(s.test, f))
            if c is TOP:
                if f.fn is not None and f.fn.name in self.chosen:
                    # an extent depends on the branch: one of them, the same for all of this case
                    c = hash_('%s|%s|%s' % (f.fn.qualname, s.lineno, self.case)) % 2
                else:
                    return self.both(s.body, s.orelse, f)
            return self.block(s.body if c else s.orelse, f)
        if t is ast.For:
            return self.for_(s, f)
        if t is ast.While:
            return self.while_(s, f)
        if t is ast.Return:
            f.ret = self.ev(s.value, f) if s.value is not None else None
            return RETURN
        if t is ast.Break:
            return BREAK
        if t is ast.Continue:
            return CONTINUE
        if t is ast.Raise:
            return RAISE
        if t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, f), f)
            return None
        if t is ast.With:
            for it in s.items:
                if not (isinstance(it.context_expr, ast.Name) and it.context_expr.id in ('nogil', 'gil')):
                    v = self.ev(it.context_expr, f)
                    if it.optional_vars is not None:
                        self.assign(it.optional_vars, v, f)
            return self.block(s.body, f)
        if t is ast.Try:
            try:
                r = self.block(s.body, f)
            except Raised:
                r = RAISE
            if r == RAISE:
                for h in s.handlers[:1]:
                    r = self.block(h.body, f)
            elif s.handlers:
                r2 = None
                for h in s.handlers:
                    q = self.both(h.body, [], f)
                    r2 = r2 or q
                if r is None and s.orelse:
                    r = self.block(s.orelse, f)
            if s.finalbody:
                q = self.block(s.finalbody, f)
                r = q or r
            return r
        if t is ast.FunctionDef:
            f.env[s.name] = Fn(node=s, env=f.env, module=f.module)
            return None
        if t in (ast.Pass, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom, ast.ClassDef, ast.Assert, ast.Delete):
            if t is ast.Delete:
                for x in s.targets:
                    self.delete(x, f)
            if t in (ast.Import, ast.ImportFrom):
                for a in s.names:
                    f.env[(a.asname or a.name).split('.')[0]] = Ext(((s.module + '.') if t is ast.ImportFrom and s.module else '') + a.name)
            return None
        self.unknown('statement %s' % t.__name__, s, f)
        return None

    def delete(self, x, f):
        if isinstance(x, ast.Subscript):
            o = self.ev(x.value, f)
            k = self.ev(x.slice, f)
            if isinstance(o, (list, dict)):
                try:
                    del o[k]
                except Exception:
                    pass

    def both(self, a, b, f):
        env0 = dict(f.env)

        def branch(stmts):
            lg = {}
            self.logs.append(lg)
            try:
                r = self.block(stmts, f)
            except Raised:
                r = RAISE
            self.logs.pop()
            new = {}
            for k, (o, n, old) in lg.items():
                if k[0] == 'a':
                    new[k] = (o, n, old, o.attrs.get(n, UNDEF))
                else:
                    new[k] = (o, n, old, o.data[n])
            return r, dict(f.env), new

        def put(k, o, n, v):
            if k[0] == 'a':
                if v is UNDEF:
                    o.attrs.pop(n, None)
                else:
                    o.attrs[n] = v
            else:
                o.data[n] = v

        def setenv(e):
            f.env.clear()
            f.env.update(e)

        r1, e1, c1 = branch(a)
        ret1 = f.ret
        for k, (o, n, old, v) in c1.items():
            put(k, o, n, old)
        setenv(env0)
        r2, e2, c2 = branch(b)
        ret2 = f.ret
        for k, (o, n, old, v) in c2.items():
            put(k, o, n, old)
        for k in set(c1) | set(c2):
            o, n, old = (c1.get(k) or c2.get(k))[:3]
            v1 = c1[k][3] if k in c1 else old
            v2 = c2[k][3] if k in c2 else old
            if r1 == RAISE:
                v = v2
            elif r2 == RAISE:
                v = v1
            else:
                v = join(v1, v2)
            for lg in self.logs[-1:]:
                lg.setdefault(k, (o, n, old))
            put(k, o, n, v)
        if r1 == RETURN and r2 == RETURN:
            f.rets.append(ret1)
            f.ret = ret2
            setenv(e2)
            return RETURN
        if r1 == RETURN and r2 != RAISE:
            f.rets.append(ret1)
            setenv(e2)
            return r2
        if r2 == RETURN and r1 != RAISE:
            f.rets.append(ret2)
            setenv(e1)
            return r1
        if r1 == RAISE and r2 == RAISE:
            return RAISE
        if r1 == RAISE:
            setenv(e2)
            f.ret = ret2
            return r2
        if r2 == RAISE:
            setenv(e1)
            f.ret = ret1
            return r1
        if r1 is None and r2 is None:
            e = {}
            for k in set(e1) | set(e2):
                e[k] = join(e1.get(k, UNDEF), e2.get(k, UNDEF))
            setenv(e)
            return None
        if r1 is None:
            setenv(e1)
            return None
        if r2 is None:
            setenv(e2)
            return None
        # both leave the iteration: going on to the next one covers leaving the loop
        setenv({k: join(e1.get(k, UNDEF), e2.get(k, UNDEF)) for k in set(e1) | set(e2)})
        return CONTINUE if CONTINUE in (r1, r2) else BREAK

    def items(self, v, node, f):
        if isinstance(v, (list, tuple, range, str)):
            return list(v)
        if isinstance(v, (set, frozenset)):
            return sorted(v, key=repr)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, Arr):
            if not v.shape:
                return None
            out = []
            for k in range(v.shape[0]):
                w = Arr(v.b, v.ix[k])
                out.append(self.element(w) if w.ix.ndim == 0 else w)
            self.rd(v, None, node, f)
            return out
        return None

    def element(self, w):
        if w.b.data is None:
            return TOP
        return w.b.data[int(w.ix)]

    def for_(self, s, f):
        it = s.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'prange':
            return self.prange(s, f)
        v = self.ev(it, f)
        its = self.items(v, it, f)
        if its is None:
            self.unknown('loop over %s' % ast.unparse(it)[:60], s, f)
            self.assign(s.target, TOP, f)
            return self.both(s.body, [], f) and None
        for x in its:
            self.assign(s.target, x, f)
            r = self.block(s.body, f)
            if r == BREAK:
                return None
            if r == RETURN or r == RAISE:
                return r
        if s.orelse:
            return self.block(s.orelse, f)
        return None

    def while_(self, s, f):
        n = 0
        while True:
            c = self.truth(self.ev(s.test, f))
            if c is TOP:
                for _ in range(2):
                    r = self.both(s.body, [], f)
                    if r in (RETURN, RAISE):
                        return r
                    if r == BREAK:
                        return None
                return None
            if not c:
                return None
            r = self.block(s.body, f)
            if r == BREAK:
                return None
            if r in (RETURN, RAISE):
                return r
            n += 1
            if n > 5000:
                self.unknown('unbounded while', s, f)
                return None

    def prange(self, s, f):
        args = [self.ev(a, f) for a in s.iter.args]
        kws = {k.arg: k.value for k in s.iter.keywords}
        if any(a is TOP for a in args):
            self.unknown('prange over an unknown range', s, f)
            return None
        its = list(range(*[int(a) for a in args]))
        sched = kws.get('schedule')
        sched = sched.value if isinstance(sched, ast.Constant) else None
        if isinstance(sched, bytes):
            sched = sched.decode()
        nt = self.threads
        if 'num_threads' in kws:
            q = self.ev(kws['num_threads'], f)
            nt = int(q) if isint(q) else 1 << 20
        plain, inplace = set(), set()
        for st in s.body:
            for x in ast.walk(st):
                if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                    inplace.add(x.target.id)
                elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    plain.add(x.id)
        plain -= inplace
        keep, mark = self.trace, self.epoch
        self.epoch += 1
        loop = '%s:%s (%s)' % (f.module.relpath, s.lineno, f.fn.qualname)
        if loop not in self.loops:
            self.loops.append(loop)
        owner, readers = {}, {}
        done = []
        for pos, i in enumerate(its):
            tid = pos % nt if sched in (None, 'static') and nt > 1 else (pos % nt if nt < (1 << 19) else pos)
            if sched not in (None, 'static'):
                tid = (nt - 1 - pos % nt)
            self.tid = tid
            self.trace = {'mark': mark, 'R': {}, 'W': {}, 'A': {}, 'AR': {}, 'priv': {}}
            for n in plain:
                f.env[n] = UNDEF
            for n in inplace:
                f.env[n] = TOP
            self.assign(s.target, i, f)
            r = self.block(s.body, f)
            if r in (RETURN, RAISE):
                break
            done.append((tid, i, self.trace))
        self.trace = keep
        self.epoch = mark
        self.tid = 0
        self.conflicts(done, loop, f, s, nt)
        return None

    def conflicts(self, done, loop, f, s, nt):
        W, AW = {}, {}

        def txt(node):
            try:
                return ast.unparse(node) if node is not None else '?'
            except Exception:
                return '?'
        for tid, i, t in done:
            for bid, cells in t['W'].items():
                for c, (b, node, g, val) in cells.items():
                    W.setdefault((bid, c), []).append((tid, i, b, node, g, val))
            for k, (o, node, g, val) in t['A'].items():
                AW.setdefault(k, []).append((tid, i, o, node, g, val))
        n = 0
        # a datum written by two threads
        for (bid, c), ws in W.items():
            n += 1
            if len({w[0] for w in ws}) > 1:
                vals = [w[5] for w in ws]
                same = all(isnum(v) for v in vals) and len(set(map(repr, vals))) == 1
                if same:
                    continue
                a = ws[0]
                b = next(w for w in ws if w[0] != a[0])
                self.race(loop, f, s, a, b, '%s[%s]' % (a[2].name, txt(a[3])), 'written', c)
        for k, ws in AW.items():
            if len({w[0] for w in ws}) > 1:
                vals = [w[5] for w in ws]
                same = all(isnum(v) for v in vals) and len(set(map(repr, vals))) == 1
                if same:
                    continue
                a = ws[0]
                b = next(w for w in ws if w[0] != a[0])
                self.race(loop, f, s, a, b, txt(a[3]), 'written', k[1])
        # a datum written by one thread and read by another
        for tid, i, t in done:
            for bid, cells in t['R'].items():
                for c, (b, node, g) in cells.items():
                    ws = [w for w in W.get((bid, c), ()) if w[0] != tid]
                    if ws:
                        self.race(loop, f, s, ws[0], (tid, i, b, node, g, None), txt(node), 'read', c)
            for k, (o, node, g) in t['AR'].items():
                ws = [w for w in AW.get(k, ()) if w[0] != tid]
                if ws:
                    self.race(loop, f, s, ws[0], (tid, i, o, node, g, None), txt(node), 'read', k[1])
            for nm, (node, g) in t['priv'].items():
                key = '%s|%s|private|%s' % (f.module.relpath, f.fn.qualname, nm)
                self.races.setdefault(key, ('%s is private to an iteration of the parallel loop and is read before the iteration sets it' % nm,
                                            '%s:%s' % (g.module.relpath, getattr(node, 'lineno', '?')), 'loop %s' % loop))
        self.cells_owned = getattr(self, 'cells_owned', 0) + n

    def race(self, loop, f, s, a, b, what, how, cell):
        key = '%s|%s|%s|%s' % (f.module.relpath, f.fn.qualname, b[4].fn.qualname if b[4] is not None and b[4].fn else '', what)
        if key in self.races:
            return
        wh = lambda w: '%s:%s (%s)' % (w[4].module.relpath, getattr(w[3], 'lineno', '?'), w[4].fn.qualname if w[4].fn else '') if w[4] is not None else '?'
        self.races[key] = ('data race: %s is written by iteration %s and %s by iteration %s of the parallel loop, which can run at the same time'
                           % (what, a[1], how, b[1]), [wh(a), wh(b)], 'loop %s; cell %s; %s' % (loop, cell, self.case))

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v, f):
        tt = type(t)
        if tt is ast.Name:
            if v is TOP and f.cy and f.fn is not None:
                pass
            f.env[t.id] = v
            if f.fn is not None and isinstance(v, Arr) and v.b.name in ('temp', 'zeros', 'array'):
                v.b.name = t.id
            return
        if tt in (ast.Tuple, ast.List):
            its = self.items(v, t, f) if v is not TOP else None
            for k, x in enumerate(t.elts):
                self.assign(x, its[k] if its is not None and k < len(its) else TOP, f)
            return
        if tt is ast.Attribute:
            o = self.ev(t.value, f)
            self.store_attr(o, t.attr, v, t, f)
            return
        if tt is ast.Subscript:
            o = self.ev(t.value, f)
            self.store_sub(o, t, v, f)
            return
        if tt is ast.Starred:
            self.assign(t.value, TOP, f)

    def prop(self, ci, name):
        return self.proj.lookup_prop(ci, name)

    def store_attr(self, o, name, v, node, f):
        if isinstance(o, Obj):
            if o.cls is not None:
                p = self.prop(o.cls, name)
                if p and 'set' in p:
                    self.call_fn(p['set'], [o, v], {})
                    return
            if isinstance(v, Arr) and v.b.name in ('temp', 'zeros', 'array'):
                v.b.name = name
            t = self.trace
            if t is not None and o.epoch <= t['mark']:
                t['A'][(o.id, name)] = (o, node, f, v)
            self.getattr_store(o, name, v)
        elif isinstance(o, Arr):
            if name in ('real', 'imag'):
                self.wr(o, o.ix.reshape(-1), TOP, node, f)

    def store_sub(self, o, t, v, f):
        idx = self.index(t.slice, f)
        if isinstance(o, Arr):
            r = self.subscript(o, t, idx, f, f.cy)
            many = self.places(o, idx) if r is None else None
            if many is not None:
                x = Arr(o.b, many)
                if isinstance(v, Arr):
                    self.rd(v, None, t, f)
                if not isinstance(v, Arr) or self.fits(v.shape, x.shape):
                    self.wr(x, x.ix.reshape(-1), v if isnum(v) else TOP, t, f)
                    self.setcells(x, v)
                    return
            if r is None:
                # which cell it is could not be told
                self.unknown('store %s' % ast.unparse(t)[:60], t, f)
                if self.trace is not None and o.b.epoch <= self.trace['mark']:
                    self.wr(o, o.ix.reshape(-1), TOP, t, f)
                return
            k, x = r
            if k == 'cell':
                self.wr(o, (x,), v, t, f)
                if o.b.data is not None:
                    self.setcell(o.b, x, v)
            elif k == 'view':
                if isinstance(v, Arr):
                    self.rd(v, None, t, f)
                    if not self.fits(v.shape, x.shape):
                        key = '%s|%s|%s' % (f.module.relpath, f.fn.qualname if f.fn else '', ast.unparse(t))
                        self.shapebad.setdefault(key, ('an array of shape %s is assigned to %s of shape %s' % (v.shape, ast.unparse(t), x.shape),
                                                       '%s:%s' % (f.module.relpath, t.lineno), self.case))
                        return
                self.wr(x, x.ix.reshape(-1), v if isnum(v) else TOP, t, f)
                self.setcells(x, v)
            return
        if isinstance(o, list):
            i = idx[0] if len(idx) == 1 else TOP
            if isint(i):
                if -len(o) <= i < len(o):
                    o[i] = v
                else:
                    s = self.site(t, f)
                    s.n += 1
            elif isinstance(i, slice) and isinstance(v, (list, tuple)) and not any(x is TOP for x in (i.start, i.stop, i.step)):
                try:
                    o[i] = list(v)
                except ValueError:
                    raise Raised('ValueError')
            elif self.values:
                self.unknown('store %s' % ast.unparse(t)[:60], t, f)
            return
        if isinstance(o, dict):
            k = idx[0] if len(idx) == 1 else tuple(idx)
            if self.values and (k is TOP or isinstance(k, tuple) and any(x is TOP for x in k)):
                self.unknown('store %s' % ast.unparse(t)[:60], t, f)
            try:
                o[k] = v
            except TypeError:
                pass

    def places(self, o, idx):
        """the places of an array chosen by lists or arrays of known numbers"""
        out = []
        for i in idx:
            if isinstance(i, Arr):
                c = i.content()
                if c is None or any(not (isint(x) or isinstance(x, (bool, np.bool_))) for x in c.reshape(-1)):
                    return None
                c = np.array(c.tolist())
                out.append(c if c.dtype == bool else c.astype(int))
            elif isinstance(i, (list, tuple)) and all(isint(x) for x in i):
                c = np.array(list(i))
                out.append(c if c.dtype == bool else c.astype(int))
            elif isint(i):
                out.append(int(i))
            elif isinstance(i, slice) and not any(x is TOP for x in (i.start, i.stop, i.step)):
                out.append(i)
            else:
                return None
        try:
            return o.ix[tuple(out)]
        except (IndexError, ValueError):
            return None

    @staticmethod
    def fits(a, b):
        try:
            return np.broadcast_shapes(a, b) == tuple(b) or np.prod(a) == 1 or tuple(x for x in a if x != 1) == tuple(x for x in b if x != 1)
        except ValueError:
            return False

    def aug(self, s, f):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.name(t, f)
            v = self.ev(s.value, f)
            if isinstance(old, Arr):
                self.inplace(old, v, s, t, f)
                return
            f.env[t.id] = self.bin(type(s.op), old, v, s, f)
            return
        if isinstance(t, ast.Attribute):
            o = self.ev(t.value, f)
            old = self.attr(o, t.attr, t, f)
            v = self.ev(s.value, f)
            if isinstance(old, Arr):
                self.inplace(old, v, s, t, f)
                return
            self.store_attr(o, t.attr, self.bin(type(s.op), old, v, s, f), t, f)
            return
        if isinstance(t, ast.Subscript):
            o = self.ev(t.value, f)
            idx = self.index(t.slice, f)
            v = self.ev(s.value, f)
            if isinstance(o, Arr):
                r = self.subscript(o, t, idx, f, f.cy)
                if r is None:
                    self.unknown('store %s' % ast.unparse(t)[:60], t, f)
                    if self.trace is not None and o.b.epoch <= self.trace['mark']:
                        self.wr(o, o.ix.reshape(-1), TOP, t, f)
                    return
                k, x = r
                if k == 'cell':
                    self.rd(o, (x,), t, f)
                    old = o.b.data[x] if o.b.data is not None else TOP
                    new = self.bin(type(s.op), old, v, s, f)
                    self.wr(o, (x,), TOP, t, f)
                    if o.b.data is not None:
                        self.setcell(o.b, x, new)
                elif k == 'view':
                    self.inplace(x, v, s, t, f)
                return
            if isinstance(o, (list, dict)):
                old = self.getitem(o, t, idx, f)
                self.store_sub(o, t, self.bin(type(s.op), old, v, s, f), f)

    def inplace(self, old, v, s, t, f):
        self.rd(old, None, t, f)
        if isinstance(v, Arr):
            self.rd(v, None, t, f)
            if not self.fits(v.shape, old.shape):
                key = '%s|%s|%s' % (f.module.relpath, f.fn.qualname if f.fn else '', ast.unparse(t))
                self.shapebad.setdefault(key, ('an array of shape %s is combined with %s of shape %s' % (v.shape, ast.unparse(t), old.shape),
                                               '%s:%s' % (f.module.relpath, t.lineno), self.case))
                return
        new = self.bin(type(s.op), old, v, s, f)
        self.wr(old, old.ix.reshape(-1), TOP, t, f)
        self.setcells(old, new)

    # ------------------------------------------------------------------ expressions
    def truth(self, v):
        if v is TOP or v is UNDEF:
            return TOP
        if isinstance(v, Arr):
            if v.b.data is None:
                return TOP
            if v.ix.size == 1:
                return self.truth(v.content().reshape(-1)[0])
            return TOP
        if isinstance(v, (Obj, Fn, Cls, Mod, Ext)):
            return True
        if isinstance(v, float) and v != v:
            return TOP
        return bool(v)

    def index(self, sl, f):
        if isinstance(sl, ast.Tuple):
            return [self.index1(x, f) for x in sl.elts]
        v = self.index1(sl, f)
        if isinstance(v, tuple):
            return list(v)
        return [v]

    def index1(self, x, f):
        if isinstance(x, ast.Slice):
            g = lambda y: self.ev(y, f) if y is not None else None
            return slice(g(x.lower), g(x.upper), g(x.step))
        return self.ev(x, f)

    def name(self, n, f):
        e = f.env
        k = n.id
        while e is not None:
            if k in e:
                v = e[k]
                if v is UNDEF and self.trace is not None and e is f.env:
                    self.trace['priv'].setdefault(k, (n, f))
                    return TOP
                return v
            e = e.up if isinstance(e, Env) else None
        return self.globalname(f.module, k, n, f)

    def globalname(self, m, k, n, f):
        key = (m.name, k)
        if key in self.consts:
            return self.consts[key]
        r = self.proj.resolve(m, k)
        v = self.resolved(r, k, n, f)
        self.consts[key] = v
        return v

    def resolved(self, r, k, n, f):
        if r is None:
            if k in PURE:
                return ('b', k)
            if k in ('True', 'False', 'None'):
                return {'True': True, 'False': False, 'None': None}[k]
            return Ext('?.' + k)
        kind, x = r
        if kind == 'func':
            return Fn(fn=x)
        if kind == 'class':
            return Cls(x)
        if kind == 'module':
            return Mod(x) if not isinstance(x, str) else Ext(x)
        if kind == 'ext':
            return Ext(x)
        if kind == 'const':
            m, e = x
            g = Frame()
            g.module, g.fn, g.rets, g.ret, g.node, g.cy = m, None, [], None, None, m.is_cython
            g.env = Env()
            g.env.up = None
            try:
                return self.ev(e, g)
            except (Stop, RecursionError):
                return TOP
        return TOP

    def ev(self, n, f):
        self.steps += 1
        t = type(n)
        if t is ast.Name:
            return self.name(n, f)
        if t is ast.Constant:
            return n.value
        if t is ast.BinOp:
            return self.bin(type(n.op), self.ev(n.left, f), self.ev(n.right, f), n, f)
        if t is ast.Subscript:
            o = self.ev(n.value, f)
            return self.getitem(o, n, self.index(n.slice, f), f)
        if t is ast.Attribute:
            return self.attr(self.ev(n.value, f), n.attr, n, f)
        if t is ast.Call:
            return self.callexpr(n, f)
        if t is ast.UnaryOp:
            v = self.ev(n.operand, f)
            if isinstance(n.op, ast.Not):
                c = self.truth(v)
                return TOP if c is TOP else not c
            if isinstance(v, Arr):
                self.rd(v, None, n, f)
                c = v.content()
                if c is not None and isinstance(n.op, ast.USub) and all(isnum(x) for x in c.reshape(-1)):
                    return self.from_concrete(-c)
                if isinstance(n.op, ast.UAdd):
                    return v
                if c is not None and isinstance(n.op, ast.Invert) and all(isinstance(x, (bool, np.bool_)) for x in c.reshape(-1)):
                    return self.from_concrete(~np.array(c.tolist(), dtype=bool).reshape(c.shape))
                return self.like(v)
            if not isnum(v):
                return TOP
            return -v if isinstance(n.op, ast.USub) else (+v if isinstance(n.op, ast.UAdd) else ~v)
        if t is ast.BoolOp:
            isand = isinstance(n.op, ast.And)
            seen = False
            v = None
            for x in n.values:
                if seen:
                    v = self.maybe(x, f)
                else:
                    v = self.ev(x, f)
                c = self.truth(v)
                if c is TOP:
                    seen = True
                    continue
                if isand and not c or (not isand and c):
                    return v if not seen else (v if isand == (not c) and isinstance(v, bool) else TOP)
            return TOP if seen else v
        if t is ast.Compare:
            return self.compare(n, f)
        if t is ast.IfExp:
            c = self.truth(self.ev(n.test, f))
            if c is TOP:
                return join(self.maybe(n.body, f), self.maybe(n.orelse, f))
            return self.ev(n.body if c else n.orelse, f)
        if t is ast.Tuple:
            return tuple(self.elts(n.elts, f))
        if t is ast.List:
            return self.elts(n.elts, f)
        if t is ast.Set:
            return set(self.hashable(x) for x in self.elts(n.elts, f))
        if t is ast.Dict:
            return {self.hashable(self.ev(k, f)): self.ev(v, f) for k, v in zip(n.keys, n.values) if k is not None}
        if t in (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp):
            return self.comp(n, f)
        if t is ast.Lambda:
            return Fn(node=n, env=f.env, module=f.module)
        if t is ast.JoinedStr:
            parts = []
            for v in n.values:
                if isinstance(v, ast.FormattedValue):
                    x = self.ev(v.value, f)
                    spec = '' if v.format_spec is None else self.ev(v.format_spec, f)
                    if not (isnum(x) or isinstance(x, str)) or not isinstance(spec, str):
                        return TOP
                    try:
                        parts.append(format({-1: lambda y: y, 115: str, 114: repr, 97: ascii}[v.conversion](x), spec))
                    except Exception:
                        return TOP
                else:
                    x = self.ev(v, f)
                    if not isinstance(x, str):
                        return TOP
                    parts.append(x)
            return ''.join(parts)
        if t is ast.Starred:
            return self.ev(n.value, f)
        if t is ast.Slice:
            return self.index1(n, f)
        self.unknown('expression %s' % t.__name__, n, f)
        return TOP

    def maybe(self, x, f):
        """an operand evaluated only on some runs"""
        try:
            return self.ev(x, f)
        except Raised:
            return TOP

    @staticmethod
    def hashable(k):
        try:
            hash(k)
            return k
        except TypeError:
            return repr(k)

    def elts(self, es, f):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                its = self.items(self.ev(e.value, f), e, f)
                out += its or []
            else:
                out.append(self.ev(e, f))
        return out

    def comp(self, n, f):
        out = []
        g = Frame()
        g.module, g.fn, g.rets, g.ret, g.node, g.cy = f.module, f.fn, [], None, None, f.cy
        g.env = Env()
        g.env.up = f.env

        def rec(k):
            if k == len(n.generators):
                if isinstance(n, ast.DictComp):
                    out.append((self.hashable(self.ev(n.key, g)), self.ev(n.value, g)))
                else:
                    out.append(self.ev(n.elt, g))
                return
            c = n.generators[k]
            its = self.items(self.ev(c.iter, g), c.iter, g)
            if its is None:
                raise Stop('comprehension over an unknown value')
            for x in its:
                self.assign(c.target, x, g)
                if all(self.truth(self.ev(i, g)) is not False for i in c.ifs):
                    rec(k + 1)
        try:
            rec(0)
        except Stop:
            return TOP
        if isinstance(n, ast.DictComp):
            return dict(out)
        if isinstance(n, ast.SetComp):
            return set(self.hashable(x) for x in out)
        return out

    def bin(self, op, a, b, n, f):
        if isnum(a) and isnum(b):
            try:
                if op is ast.Div and f.cy and isint(a) and isint(b):
                    return a / b
                return BIN[op](a, b)
            except Exception:
                return TOP
        if isinstance(a, Arr) or isinstance(b, Arr):
            if op is ast.MatMult:
                return self.npshape('matmul', [a, b], {}, n, f)
            for x in (a, b):
                if isinstance(x, Arr):
                    self.rd(x, None, n, f)
            sa = a.shape if isinstance(a, Arr) else np.shape(self.shapeof(a))
            sb = b.shape if isinstance(b, Arr) else np.shape(self.shapeof(b))
            try:
                sh = np.broadcast_shapes(sa, sb)
            except ValueError:
                if isinstance(a, Arr) and isinstance(b, Arr):
                    self.badshape('arrays of shapes %s and %s are combined in %s' % (sa, sb, ast.unparse(n)[:80]), n, f)
                return TOP
            ca = a.content() if isinstance(a, Arr) else (a if isnum(a) else None)
            cb = b.content() if isinstance(b, Arr) else (b if isnum(b) else None)
            if ca is not None and cb is not None and not any(x is TOP for x in np.ravel(ca)) and not any(x is TOP for x in np.ravel(cb)):
                try:
                    return self.from_concrete(BIN[op](ca, cb))
                except Exception:
                    pass
            return self.new(sh, 'temp')
        if isinstance(a, (list, tuple)) and type(a) == type(b) and op is ast.Add:
            return a + b
        if isinstance(a, (list, tuple, str)) and isint(b) and op is ast.Mult:
            return a * int(b)
        if isinstance(a, str) and isinstance(b, str) and op is ast.Add:
            return a + b
        return TOP

    @staticmethod
    def shapeof(x):
        return x if isinstance(x, (list, tuple)) and all(isnum(y) for y in x) else 0

    def compare(self, n, f):
        left = self.ev(n.left, f)
        res = True
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, f)
            c = self.cmp1(type(op), left, right)
            if c is TOP:
                res = TOP
            elif isinstance(c, Arr):
                return c
            elif not c:
                return False
            left = right
        return res

    def cmp1(self, op, a, b):
        if op in (ast.Is, ast.IsNot):
            if a is None or b is None or isinstance(a, bool) and isinstance(b, bool):
                if a is TOP or b is TOP:
                    return TOP
                r = a is b
                return r if op is ast.Is else not r
            r = a is b or (isinstance(a, (Cls, Ext)) and a == b)
            if a is TOP or b is TOP:
                return TOP
            return r if op is ast.Is else not r
        if op in (ast.In, ast.NotIn):
            if a is TOP or b is TOP or not isinstance(b, (list, tuple, dict, set, str, frozenset, range)):
                return TOP
            try:
                if any(x is TOP for x in b):
                    return TOP
                r = a in b
            except TypeError:
                return TOP
            return r if op is ast.In else not r
        if isinstance(a, Arr) or isinstance(b, Arr):
            x = a if isinstance(a, Arr) else b
            o = b if isinstance(a, Arr) else a
            c = x.content()
            if c is not None and isnum(o) and not any(y is TOP for y in c.reshape(-1)):
                g = CMP[op]
                return self.from_concrete(np.array([g(y, o) if x is a else g(o, y) for y in c.reshape(-1)], dtype=object).reshape(c.shape))
            return self.like(x)
        if a is TOP or b is TOP or a is UNDEF or b is UNDEF:
            return TOP
        if a is None or b is None:
            r = a is b
            return r if op is ast.Eq else (not r if op is ast.NotEq else TOP)
        if isinstance(a, Obj) or isinstance(b, Obj):
            return TOP if op not in (ast.Eq, ast.NotEq) else ((a is b) if op is ast.Eq else a is not b)
        if isinstance(a, (list, tuple)) and any(x is TOP for x in a) or isinstance(b, (list, tuple)) and any(x is TOP for x in b):
            return TOP
        try:
            return bool(CMP[op](a, b))
        except Exception:
            return TOP

    # ------------------------------------------------------------------ attributes and items
    def attr(self, o, name, n, f):
        if isinstance(o, Obj):
            if o.cls is not None:
                p = self.prop(o.cls, name)
                if p and 'get' in p and not (name in o.attrs and 'set' not in p):
                    return self.call_fn(p['get'], [o], {})
            if name in o.attrs:
                t = self.trace
                if t is not None and o.epoch <= t['mark'] and (o.id, name) not in t['A']:
                    t['AR'].setdefault((o.id, name), (o, n, f))
                return o.attrs[name]
            if o.cls is not None:
                fn = self.proj.lookup(o.cls, name)
                if fn is not None:
                    return Fn(fn=fn, me=o)
                c = self.proj.lookup_const(o.cls, name)
                if c is not None:
                    g = Frame()
                    g.module, g.fn, g.rets, g.ret, g.node, g.cy = o.cls.module, None, [], None, None, False
                    g.env = Env()
                    g.env.up = None
                    return self.ev(c, g)
                if name == '__class__':
                    return Cls(o.cls)
            return TOP
        if isinstance(o, Arr):
            if name == 'shape':
                return tuple(o.shape)
            if name == 'T':
                return Arr(o.b, o.ix.T)
            if name == 'base':
                return o
            if name == 'size':
                return int(o.ix.size)
            if name == 'ndim':
                return int(o.ix.ndim)
            if name in ('real', 'imag'):
                self.rd(o, None, n, f)
                return self.like(o)
            if name == 'dtype':
                return Ext('dtype')
            return ('m', o, name)
        if isinstance(o, Mod):
            r = self.proj.resolve(o.m, name)
            return self.resolved(r, name, n, f) if r is not None else TOP
        if isinstance(o, Ext):
            return Ext(o.name + '.' + name)
        if isinstance(o, Super):
            mro = self.proj.mro(o.me.cls)
            for c in mro[mro.index(o.ci) + 1:] if o.ci in mro else ():
                if name in c.methods:
                    return Fn(fn=c.methods[name], me=o.me)
            return Fn(native=lambda *x: None)
        if isinstance(o, Cls):
            fn = self.proj.lookup(o.ci, name)
            if fn is not None:
                return Fn(fn=fn)
            p = self.proj.lookup_prop(o.ci, name)
            if p:
                return ('prop', p)
            c = self.proj.lookup_const(o.ci, name)
            if c is not None:
                return self.ev(c, f)
            return TOP
        if isinstance(o, tuple) and o and o[0] == 'prop':
            k = {'fset': 'set', 'fget': 'get'}.get(name)
            if k in o[1]:
                return Fn(fn=o[1][k])
            return TOP
        if isinstance(o, (list, dict, str, tuple, set)):
            return ('m', o, name)
        if isnum(o):
            if name == 'real':
                return o.real
            if name == 'imag':
                return o.imag
            return ('m', o, name)
        if o is TOP:
            return TOP
        return TOP

    def getitem(self, o, n, idx, f):
        if isinstance(o, Arr):
            r = self.subscript(o, n, idx, f, f.cy)
            if r is None:
                return self.fancy(o, n, idx, f)
            k, x = r
            if k == 'cell':
                self.rd(o, (x,), n, f)
                return o.b.data[x] if o.b.data is not None else TOP
            if k == 'view':
                return x
            return TOP
        if isinstance(o, (list, tuple, str, range)):
            i = idx[0] if len(idx) == 1 else TOP
            if isint(i):
                if -len(o) <= i < len(o):
                    return o[int(i)]
                s = self.site(n, f)
                s.n += 1
                s.bad += 1
                key = '%s|%s|%s' % (f.module.relpath, s.func, s.text)
                self.bad.setdefault(key, ('%s is read with index %s and has %d items' % (s.text, i, len(o)), s.where, self.case))
                return TOP
            if isinstance(i, slice):
                if any(x is TOP for x in (i.start, i.stop, i.step)):
                    return TOP
                return o[i]
            return TOP
        if isinstance(o, dict):
            k = idx[0] if len(idx) == 1 else tuple(idx)
            try:
                if k in o:
                    return o[k]
            except TypeError:
                pass
            return TOP
        return TOP

    def fancy(self, o, n, idx, f):
        """indexing with arrays or lists"""
        self.rd(o, None, n, f)
        out = []
        for i in idx:
            if isinstance(i, Arr):
                c = i.content()
                if c is None or any(x is TOP for x in c.reshape(-1)):
                    return TOP
                out.append(np.array(c.tolist()))
            elif isinstance(i, (list, tuple)) and all(isint(x) for x in i):
                out.append(list(i))
            elif isint(i) or isinstance(i, slice) and not any(x is TOP for x in (i.start, i.stop, i.step)):
                out.append(i)
            elif i is Ellipsis or i is None:
                out.append(i)
            else:
                return TOP
        try:
            ix = o.ix[tuple(out)]
        except IndexError:
            s = self.site(n, f)
            if not f.cy or True:
                self.unknown('index %s' % s.text[:60], n, f)
            return TOP
        v = Arr(o.b, ix)
        return self.new(ix.shape, 'temp', list(v.content().reshape(-1)) if o.b.data is not None else None)

    # ------------------------------------------------------------------ calls
    def callexpr(self, n, f):
        fn = n.func
        if isinstance(fn, ast.Name) and fn.id in ('__cast__', '__addr__', '__sizeof__'):
            if fn.id == '__sizeof__':
                return TOP
            if fn.id == '__cast__':
                v = self.ev(n.args[1], f)
                ty = str(n.args[0].value) if isinstance(n.args[0], ast.Constant) else ''
                if isinstance(v, float) and ('int' in ty or 'long' in ty):
                    return int(v)
                return v
            return self.ev(n.args[0], f)
        fv = self.ev(fn, f)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, f)
                args += self.items(v, a, f) or []
            else:
                args.append(self.ev(a, f))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                v = self.ev(k.value, f)
                if isinstance(v, dict):
                    kwargs.update({x: y for x, y in v.items() if isinstance(x, str)})
            else:
                kwargs[k.arg] = self.ev(k.value, f)
        if self.logs and len(self.logs) > 200:
            raise Stop('too deep')
        return self.call(fv, args, kwargs, n, f)

    def builtin(self, name, args, kw, n, f):
        a = args
        if name == 'len':
            v = a[0]
            if isinstance(v, Arr):
                return v.shape[0] if v.shape else TOP
            return len(v) if isinstance(v, (list, tuple, dict, str, set, range)) else TOP
        if name in ('range', 'prange'):
            if all(isint(x) for x in a):
                return list(range(*[int(x) for x in a]))
            return TOP
        if name in ('min', 'max', 'sum', 'sorted', 'any', 'all', 'abs', 'round', 'int', 'float', 'bool', 'complex', 'pow', 'divmod'):
            if name in ('int', 'float') and len(a) == 1 and isinstance(a[0], (int, float, np.integer, str)):
                try:
                    return int(a[0]) if name == 'int' else float(a[0])
                except ValueError:
                    raise Raised('ValueError')
            if name == 'int' and isinstance(a[0] if a else None, str):
                base = a[1] if len(a) > 1 else kw.get('base', 10)
                try:
                    return int(a[0], int(base)) if isint(base) else TOP
                except ValueError:
                    raise Raised('ValueError')
            if name == 'abs' and isinstance(a[0], Arr):
                self.rd(a[0], None, n, f)
                return self.like(a[0])
            if name == 'bool' and a:
                return self.truth(a[0])
            vals = []
            for x in a:
                its = self.items(x, n, f) if not isnum(x) and x is not TOP else [x]
                if its is None:
                    return TOP
                vals += its
            if any(isinstance(x, Arr) for x in vals):
                if name == 'sum':
                    return self.npshape('sum', [a[0], 0], {}, n, f) if isinstance(a[0], Arr) else TOP
                return TOP
            if name == 'sorted':
                key, rev = kw.get('key'), kw.get('reverse', False)
                rev = rev if isinstance(rev, bool) else bool(rev) if isint(rev) else TOP
                if rev is TOP:
                    return list(vals)
                if any(x is TOP for x in vals) or key is not None:
                    if key is not None and key is not TOP:
                        ks = [self.call(key, [x], {}, n, f) for x in vals]
                        if not any(k is TOP or (isinstance(k, tuple) and any(y is TOP for y in k)) for k in ks):
                            try:
                                return [x for _, x in sorted(zip(ks, vals), key=lambda p: p[0], reverse=rev)]
                            except TypeError:
                                return list(vals)
                    return list(vals)
                try:
                    return sorted(vals, reverse=rev)
                except TypeError:
                    return list(vals)
            if any(not isnum(x) for x in vals):
                if name == 'any' and any(isnum(x) and x for x in vals):
                    return True
                if name == 'all' and any(isnum(x) and not x for x in vals):
                    return False
                if name in ('any', 'all'):
                    try:
                        c = [self.truth(x) for x in vals]
                        if TOP not in c:
                            return any(c) if name == 'any' else all(c)
                    except Exception:
                        pass
                return TOP
            try:
                g = {'min': min, 'max': max, 'sum': sum, 'any': any, 'all': all}.get(name)
                if g:
                    return g(vals)
                return {'abs': abs, 'round': round, 'float': float, 'complex': complex, 'pow': pow, 'divmod': divmod, 'int': int}[name](*vals)
            except Exception:
                return TOP
        if name in ('list', 'tuple', 'set', 'frozenset', 'reversed', 'iter'):
            if not a:
                return {'list': [], 'tuple': (), 'set': set()}.get(name, [])
            its = self.items(a[0], n, f)
            if its is None:
                return TOP
            if name == 'reversed':
                return list(reversed(its))
            if name in ('set', 'frozenset'):
                return set(self.hashable(x) for x in its)
            return tuple(its) if name == 'tuple' else list(its)
        if name == 'dict':
            return dict(a[0]) if a and isinstance(a[0], dict) else dict(kw)
        if name == 'enumerate':
            its = self.items(a[0], n, f)
            return TOP if its is None else [(k, x) for k, x in enumerate(its)]
        if name == 'zip':
            its = [self.items(x, n, f) for x in a]
            return TOP if any(x is None for x in its) else [tuple(x) for x in zip(*its)]
        if name == 'map':
            its = self.items(a[1], n, f)
            return TOP if its is None else [self.call(a[0], [x], {}, n, f) for x in its]
        if name == 'filter':
            its = self.items(a[1], n, f) if len(a) == 2 else None
            if its is None:
                return TOP
            keep = [self.truth(x if a[0] is None else self.call(a[0], [x], {}, n, f)) for x in its]
            return TOP if any(k is TOP for k in keep) else [x for x, k in zip(its, keep) if k]
        if name in ('isinstance', 'issubclass'):
            return self.isinst(a[0], a[1])
        if name == 'hasattr':
            return TOP
        if name == 'getattr':
            if isinstance(a[1], str):
                return self.attr(a[0], a[1], n, f)
            return TOP
        if name == 'setattr':
            if isinstance(a[1], str):
                self.store_attr(a[0], a[1], a[2], n, f)
            return None
        if name == 'format':
            try:
                return format(*a) if all(isnum(x) or isinstance(x, str) for x in a) else TOP
            except Exception:
                return TOP
        if name in ('str', 'repr', 'bin', 'hex', 'ord', 'chr'):
            if a and (isnum(a[0]) or isinstance(a[0], str)):
                try:
                    return {'str': str, 'repr': repr, 'bin': bin, 'hex': hex, 'ord': ord, 'chr': chr}[name](a[0])
                except Exception:
                    return TOP
            return TOP
        if name == 'print':
            return None
        if name == 'super':
            me = a[1] if len(a) > 1 else f.env.get(f.fn.node.args.args[0].arg) if f.fn is not None and f.fn.node.args.args else None
            ci = a[0].ci if a and isinstance(a[0], Cls) else (f.fn.cls if f.fn is not None else None)
            return Super(me, ci) if isinstance(me, Obj) and ci is not None else TOP
        return TOP

    def isinst(self, o, k):
        if isinstance(k, tuple) and not (k and k[0] == 'b'):
            r = [self.isinst(o, x) for x in k]
            return True if True in r else (TOP if TOP in r else False)
        if isinstance(k, tuple) and k[0] == 'b':
            ty = {'list': list, 'tuple': tuple, 'dict': dict, 'int': int, 'str': str, 'float': float, 'set': set, 'complex': complex, 'bool': bool}.get(k[1])
            if o is TOP or ty is None:
                return TOP
            return isinstance(o, ty)
        if isinstance(k, Cls):
            if isinstance(o, Obj) and o.cls is not None:
                return k.ci in self.proj.mro(o.cls)
            return TOP if o is TOP else False
        if isinstance(k, Ext) and k.name.endswith('ndarray'):
            return isinstance(o, Arr) if o is not TOP else TOP
        if isinstance(k, Ext) and k.name in ('numbers.Number', 'numbers.Complex', 'numbers.Real', 'numbers.Integral', 'Number', 'Real', 'Integral'):
            return (isint(o) if k.name.endswith('Integral') else isnum(o)) if o is not TOP else TOP
        if isinstance(k, Ext) and k.name in ('numpy.floating', 'numpy.integer', 'numpy.generic', 'numpy.number'):
            return TOP if isnum(o) or o is TOP else False
        return TOP if o is TOP else False

    def isintdtype(self, d):
        if isinstance(d, tuple) and d[:1] == ('b',):
            return d[1] in ('int', 'bool')
        if isinstance(d, Ext):
            last = d.name.split('.')[-1]
            return last.startswith(('int', 'uint', 'long', 'bool', 'intp'))
        if isinstance(d, str):
            return d.startswith(('int', 'uint', 'long', 'bool'))
        return False

    def badshape(self, msg, n, f):
        key = '%s|%s|%s' % (f.module.relpath, f.fn.qualname if f.fn else '', ast.unparse(n))
        self.shapebad.setdefault(key, (msg, '%s:%s (%s)' % (f.module.relpath, getattr(n, 'lineno', '?'), f.fn.qualname if f.fn else '')))

    def npshape(self, name, args, kw, n, f):
        """result of a numpy function, by shape"""
        if name in ('dot', 'matmul', 'inner', 'outer', 'kron', 'tensordot', 'einsum', 'vdot') and any(a is TOP for a in args):
            for a in args:
                if isinstance(a, Arr):
                    self.rd(a, None, n, f)
            return TOP
        def dummy(x):
            if isinstance(x, Arr):
                self.rd(x, None, n, f)
                return np.ones(x.shape)
            if isinstance(x, (list, tuple)):
                return type(x)(dummy(y) for y in x)
            if x is TOP:
                return 1.0
            return x
        fn = np
        for p in name.split('.'):
            fn = getattr(fn, p, None)
        if fn is None or not callable(fn):
            return TOP
        exact = self.exact(fn, args, kw)
        if exact is not None:
            return exact
        try:
            with np.errstate(all='ignore'):
                r = fn(*[dummy(a) for a in args], **{k: dummy(v) for k, v in kw.items() if k in ('axis', 'keepdims', 'indexing')})
        except ValueError as ex:
            if name in ('dot', 'matmul', 'inner', 'vdot', 'concatenate', 'hstack', 'vstack', 'add', 'subtract', 'multiply') and all(isinstance(a, Arr) for a in args):
                self.badshape('%s cannot combine its operands: %s' % (ast.unparse(n)[:80], ex), n, f)
            return TOP
        except Exception:
            return TOP
        def back(r):
            if isinstance(r, np.ndarray):
                return self.new(r.shape, 'temp') if r.ndim else TOP
            if isinstance(r, (list, tuple)):
                return tuple(back(x) for x in r)
            return TOP
        return back(r)

    def exact(self, fn, args, kw):
        """a numpy function of whole numbers"""
        def conc(x):
            if isinstance(x, Arr):
                c = x.content()
                if c is None or any(not isnum(y) for y in c.reshape(-1)):
                    raise ValueError
                return np.array(c.tolist()) if c.size else np.zeros(c.shape, dtype=int)
            if isinstance(x, (list, tuple)):
                return type(x)(conc(y) for y in x)
            if isnum(x) or x is None or isinstance(x, (str, slice)):
                return x
            raise ValueError
        try:
            r = fn(*[conc(a) for a in args], **{k: conc(v) for k, v in kw.items() if k != 'dtype'})
        except Exception:
            return None

        def back(r):
            if isinstance(r, np.ndarray):
                return self.from_concrete(r.tolist() if r.ndim == 0 else np.array(r, dtype=object))
            if isinstance(r, (list, tuple)):
                return tuple(back(y) for y in r)
            if isinstance(r, np.generic):
                return r.item()
            return r
        return back(r)

    def ext(self, full, args, kw, n, f):
        name = full.split('.')[-1]
        root = full.split('.')[0]
        if root in ('numpy', 'np'):
            return self.numpy(full.split('.', 1)[1], args, kw, n, f)
        if root == 'itertools' or full.startswith('itertools.'):
            if full.endswith('chain.from_iterable'):
                its = self.items(args[0], n, f)
                its = None if its is None else [self.items(x, n, f) for x in its]
                if its is None or any(x is None for x in its):
                    return TOP
                return [y for x in its for y in x]
            if name in ITER:
                its = [self.items(a, n, f) if not isint(a) else int(a) for a in args]
                if any(i is None for i in its):
                    return TOP
                kk = {k: int(v) for k, v in kw.items() if isint(v)}
                return list(ITER[name](*its, **kk))
            return TOP
        if name == 'omp_get_thread_num':
            return self.tid
        if name in ('omp_get_max_threads', 'omp_get_num_procs'):
            return self.threads
        if name == 'omp_get_num_threads':
            return self.threads
        if root in ('math', 'libc', 'scipy') or full.startswith('?'):
            if root == 'math' and hasattr(math, name) and all(isnum(a) for a in args):
                try:
                    return getattr(math, name)(*args)
                except Exception:
                    return TOP
            if root == 'scipy' and name == 'factorial' and all(isnum(a) for a in args):
                return float(math.factorial(int(args[0])))
            for a in args:
                if isinstance(a, Arr):
                    self.rd(a, None, n, f)
            if root == 'scipy' and len(args) and isinstance(args[0], Arr) and name in ('fft', 'ifft', 'inv'):
                return self.like(args[0])
            return TOP
        return TOP

    def numpy(self, name, args, kw, n, f):
        dt = kw.get('dtype')
        if name in ('zeros', 'ones', 'empty', 'full'):
            sh = args[0] if args else kw.get('shape')
            if dt is None and len(args) > (2 if name == 'full' else 1):
                dt = args[2 if name == 'full' else 1]
            if isint(sh):
                sh = (sh,)
            if not isinstance(sh, (tuple, list)) or not all(isint(x) for x in sh):
                self.unknown('extent of %s' % ast.unparse(n)[:60], n, f)
                return TOP
            size = int(np.prod(sh)) if len(sh) else 1
            if size > 20000000:
                raise Stop('array too large')
            data = None
            if self.values or self.isintdtype(dt):
                v = {'zeros': 0, 'ones': 1, 'empty': TOP}.get(name, args[1] if len(args) > 1 else TOP)
                if name in ('zeros', 'ones') and (dt == ('b', 'bool') or isinstance(dt, Ext) and dt.name.split('.')[-1] in ('bool', 'bool_') or dt in ('bool', '?')):
                    v = bool(v)
                data = [v] * size
            if any(x < 0 for x in sh):
                key = '%s|%s|%s' % (f.module.relpath, f.fn.qualname if f.fn else '', ast.unparse(n))
                self.bad.setdefault(key, ('%s allocates a negative extent %s' % (ast.unparse(n), tuple(sh)), '%s:%s' % (f.module.relpath, n.lineno), self.case))
                return TOP
            return self.new(sh, 'zeros', data)
        if name in ('array', 'asarray', 'copy', 'ascontiguousarray', 'asfortranarray') and not (self.values and name.startswith('as') and isinstance(args[0], Arr)):
            return self.mkarray(args[0], dt, n, f)
        if self.values and name in ('asarray', 'ascontiguousarray') and isinstance(args[0], Arr):
            return args[0]
        if self.values and name in ('zeros_like', 'ones_like', 'empty_like', 'full_like') and isinstance(args[0], Arr):
            v = {'zeros_like': 0, 'ones_like': 1, 'empty_like': TOP}.get(name, args[1] if len(args) > 1 else TOP)
            return self.new(args[0].shape, 'zeros', [v] * args[0].ix.size)
        if name in ('zeros_like', 'ones_like', 'empty_like'):
            return self.like(args[0]) if isinstance(args[0], Arr) else TOP
        if name == 'arange':
            if all(isint(a) for a in args):
                return self.from_concrete(np.arange(*[int(a) for a in args]))
            # a grid between two unknown numbers: some number of points
            self.grids += 1
            return self.new((1 + self.grids % 2,), 'temp')
        if (name == 'eye' or name == 'identity') and self.values and len(args) == 1 and isint(args[0]):
            k = int(args[0])
            return self.new((k, k), 'temp', [int(i == j) for i in range(k) for j in range(k)])
        if name == 'eye' or name == 'identity':
            return self.new((int(args[0]), int(args[0])), 'temp') if isint(args[0]) else TOP
        if name == 'linalg.eigh' and self.eigh is not None and isinstance(args[0], Arr):
            return self.eigh(args[0])
        if name in ('linalg.eigh', 'linalg.eig') and isinstance(args[0], Arr):
            return (self.new((args[0].shape[0],), 'temp'), self.like(args[0]))
        if name in ('linalg.inv',) and isinstance(args[0], Arr):
            self.rd(args[0], None, n, f)
            return self.like(args[0])
        if name in ('linalg.lstsq',):
            return (self.new((args[0].shape[1],), 'temp'), TOP, TOP, TOP) if isinstance(args[0], Arr) else TOP
        if name in ('flatnonzero', 'nonzero', 'where', 'unique', 'argwhere', 'argsort', 'lexsort', 'sort') or name.startswith('random'):
            r = None
            if not name.startswith('random'):
                r = self.exact(getattr(np, name), args, kw)
            if r is None and name == 'sort' and args and isinstance(args[0], Arr):
                self.rd(args[0], None, n, f)
                return self.new(args[0].shape, 'temp')
            return TOP if r is None else r
        if name in ('any', 'all', 'max', 'min', 'amax', 'amin') and len(args) == 1 and not kw:
            v = args[0]
            if isinstance(v, Arr):
                self.rd(v, None, n, f)
            return self.builtin({'amax': 'max', 'amin': 'min'}.get(name, name), [v], {}, n, f) if isinstance(v, (Arr, list)) else (v if isnum(v) else TOP)
        if name == 'linspace':
            k = args[2] if len(args) > 2 else kw.get('num', 50)
            return self.new((int(k),), 'temp') if isint(k) else TOP
        if name in ('int64', 'intp', 'int_', 'int32') and args:
            return self.builtin('int', args, {}, n, f)
        return self.npshape(name, args, kw, n, f)

    def mkarray(self, v, dt, n, f):
        if isinstance(v, Arr):
            self.rd(v, None, n, f)
            c = v.content()
            return self.new(v.shape, 'array', list(c.reshape(-1)) if c is not None else None)
        if isnum(v):
            return self.from_concrete(np.array(v, dtype=object))

        def shape(x):
            if isinstance(x, Arr):
                return tuple(x.shape)
            if isinstance(x, (list, tuple, range)):
                if not len(x):
                    return (0,)
                ss = {shape(y) for y in x}
                if len(ss) != 1 or None in ss:
                    return None
                return (len(x),) + ss.pop()
            return ()
        if isinstance(v, (list, tuple, range)):
            sh = shape(v)
            if sh is None:
                return TOP
            flat = []

            def rec(x):
                if isinstance(x, Arr):
                    c = x.content()
                    flat.extend(c.reshape(-1) if c is not None else [TOP] * x.ix.size)
                elif isinstance(x, (list, tuple, range)):
                    for y in x:
                        rec(y)
                else:
                    flat.append(x)
            rec(v)
            data = flat if flat and all(isint(x) for x in flat) or self.values or self.isintdtype(dt) else None
            return self.new(sh, 'array', data)
        return TOP

    def meth(self, o, name, args, kw, n, f):
        if isinstance(o, Arr):
            if name in ('copy', 'astype', 'conj', 'conjugate'):
                self.rd(o, None, n, f)
                c = o.content()
                cj = name.startswith('conj')
                return self.new(o.shape, 'temp', [y.conjugate() if cj and isnum(y) else y for y in c.reshape(-1)] if c is not None else None)
            if name == 'fill':
                self.wr(o, o.ix.reshape(-1), args[0], n, f)
                self.setcells(o, args[0])
                return None
            if name in ('reshape',):
                sh = args[0] if len(args) == 1 and isinstance(args[0], (tuple, list)) else args
                if all(isint(x) for x in sh):
                    try:
                        return Arr(o.b, o.ix.reshape([int(x) for x in sh]))
                    except ValueError:
                        return TOP
                return TOP
            if name in ('ravel', 'flatten'):
                return Arr(o.b, o.ix.reshape(-1))
            if name in ('transpose', 'swapaxes'):
                try:
                    return Arr(o.b, getattr(o.ix, name)(*[int(x) for x in args]))
                except Exception:
                    return TOP
            if name == 'tolist':
                return self.items(o, n, f)
            if name in ('sum', 'dot', 'max', 'min', 'mean', 'any', 'all', 'trace', 'diagonal', 'prod'):
                return self.npshape(name, [o] + list(args), kw, n, f)
            return TOP
        if isinstance(o, list):
            if name == 'append':
                o.append(args[0])
                return None
            if name == 'extend':
                its = self.items(args[0], n, f)
                if its is not None:
                    o.extend(its)
                return None
            if name == 'index':
                try:
                    return o.index(args[0])
                except ValueError:
                    raise Raised('ValueError')
            if name == 'sort':
                r = self.builtin('sorted', [list(o)], kw, n, f)
                if isinstance(r, list):
                    o[:] = r
                return None
            if name in ('pop', 'remove', 'insert', 'reverse', 'count'):
                try:
                    return getattr(o, name)(*args)
                except Exception:
                    return TOP
            if name == 'copy':
                return list(o)
            return TOP
        if isinstance(o, dict):
            if name in ('items',):
                return [(k, v) for k, v in o.items()]
            if name == 'keys':
                return list(o)
            if name == 'values':
                return list(o.values())
            if name == 'get':
                try:
                    return o.get(*args)
                except Exception:
                    return TOP
            if name == 'update':
                if args and isinstance(args[0], dict):
                    o.update(args[0])
                return None
            if name in ('copy', 'pop', 'setdefault', 'clear'):
                try:
                    return getattr(o, name)(*args)
                except Exception:
                    return TOP
            return TOP
        if isinstance(o, str):
            try:
                if name in ('replace', 'startswith', 'endswith', 'lower', 'upper', 'split', 'strip', 'lstrip', 'rstrip', 'capitalize', 'join', 'zfill', 'rjust', 'ljust', 'format', 'count', 'find', 'index'):
                    return getattr(o, name)(*args)
            except Exception:
                pass
            return TOP
        if isinstance(o, set):
            if name in ('add', 'discard', 'update', 'remove'):
                try:
                    getattr(o, name)(*args)
                except Exception:
                    pass
                return None
            return TOP
        if isinstance(o, tuple) and name in ('index', 'count'):
            try:
                return getattr(o, name)(*args)
            except Exception:
                return TOP
        if isnum(o) and name in ('conjugate', 'conj'):
            return o.conjugate()
        return TOP
