"""Closed formulas of scalar functions, read from the source: every branch becomes a gate, every loop an unrolled sum or a fold, every call of
another project function is put in place, everything else stays an uninterpreted function.  Formulas are evaluated over exact rationals
(identity testing) or over intervals of the extended real line."""
import ast
import hashlib
import math
from fractions import Fraction

INF = float('inf')


class Unclear(Exception):
    """a construct this reader does not understand"""


# ------------------------------------------------------------------------------------------------------------- terms
_pool = {}


class Term(tuple):
    """a term; equal terms are the same object"""
    __hash__ = object.__hash__

    def __eq__(self, other):
        return self is other

    def __ne__(self, other):
        return self is not other


def T(*t):
    r = _pool.get(t)
    if r is None:
        r = _pool[t] = Term(t)
    return r


def num(v):
    if isinstance(v, bool):
        return T('b', v)
    if isinstance(v, complex):
        return T('n', frac(v.real), frac(v.imag))
    if isinstance(v, (int, float, Fraction)):
        if isinstance(v, float) and (v != v or v in (INF, -INF)):
            return T('s', repr(v))
        if v == math.pi:
            return PI
        return T('n', frac(v), Fraction(0))
    return T('s', repr(v))


def frac(v):
    return Fraction(repr(v)) if isinstance(v, float) else Fraction(v)


PI = T('pi')
ZERO = T('n', Fraction(0), Fraction(0))
PURE = {'+', '-', '*', '/', '**', 'neg'}


def const_of(t):
    """Python number of a constant real term, else None"""
    if t[0] == 'n' and t[2] == 0:
        return t[1]
    return None


def op(o, *a):
    if all(x[0] == 'n' for x in a):
        try:
            v = arith(o, [(x[1], x[2]) for x in a])
            if v is not None:
                return T('n', v[0], v[1])
        except ZeroDivisionError:
            pass
    if o == 'neg' and a[0][0] == 'op' and a[0][1] == 'neg':
        return a[0][2]
    return T('op', o) if not a else T('op', o, *a)


def arith(o, vs):
    if o == 'neg':
        return (-vs[0][0], -vs[0][1])
    (a, b), (c, d) = vs
    if o == '+':
        return (a + c, b + d)
    if o == '-':
        return (a - c, b - d)
    if o == '*':
        return (a * c - b * d, a * d + b * c)
    if o == '/':
        m = c * c + d * d
        if m == 0:
            raise ZeroDivisionError
        return ((a * c + b * d) / m, (b * c - a * d) / m)
    if o == '**':
        if d == 0 and c.denominator == 1 and abs(c) < 40:
            r = (Fraction(1), Fraction(0))
            for _ in range(abs(int(c))):
                r = arith('*', [r, (a, b)])
            return arith('/', [(Fraction(1), Fraction(0)), r]) if c < 0 else r
    return None


def rel(o, a, b):
    if a[0] == 'n' and b[0] == 'n' and a[2] == b[2] == 0:
        return T('b', relation(o, a[1], b[1]))
    if a[0] in ('s', 'n', 'b') and b[0] in ('s', 'n', 'b') and o in ('==', '!='):
        return T('b', (a == b) == (o == '=='))
    return T('rel', o, a, b)


def relation(o, x, y):
    return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y, '!=': x != y}[o]


def lnot(c):
    if c[0] == 'b':
        return T('b', not c[1])
    if c[0] == 'not':
        return c[1]
    return T('not', c)


def land(cs):
    cs = [c for c in cs if c != T('b', True)]
    if any(c == T('b', False) for c in cs):
        return T('b', False)
    return T('b', True) if not cs else cs[0] if len(cs) == 1 else T('and', *cs)


def lor(cs):
    return lnot(land([lnot(c) for c in cs]))


def ite(c, a, b):
    if c[0] == 'b':
        return a if c[1] else b
    if a == b:
        return a
    return T('ite', c, a, b)


# ------------------------------------------------------------------------------------------------- structured values
class Seq(object):
    """a list, tuple or small array with known elements"""

    def __init__(self, items):
        self.items = list(items)


class Grid(object):
    """a two-dimensional table filled item by item"""

    def __init__(self, cells=None):
        self.cells = dict(cells or {})


class Inp(object):
    """an array given from outside, with some indices fixed"""

    def __init__(self, name, idx=()):
        self.name, self.idx = name, tuple(idx)


class Rec(object):
    """an object with attributes"""

    def __init__(self, cls=None, attrs=None, name=None):
        self.cls, self.attrs, self.name = cls, dict(attrs or {}), name


class Fn(object):
    def __init__(self, fn, this=None, name=None):
        self.fn, self.this, self.name = fn, this, name


class Mod(object):
    def __init__(self, name, mod=None):
        self.name, self.mod = name, mod


NOVALUE = object()
SAME_NAME = {'fabs': 'abs', 'absolute': 'abs', 'psi': 'digamma', 'clog': 'log', 'math.log': 'log'}
DROP = {'asarray', 'float', 'complex', 'double', 'float64', 'real_if_close'}


class Reader(object):
    def __init__(self, proj, atoms=(), fixed=None):
        self.p = proj
        self.atoms = dict(atoms)            # (function name without underscore) -> name of the uninterpreted function
        self.visited = set()
        self.depth = 0
        self.conds = []
        self.loops = 0
        self.modvals = {}
        self.locs = {}

    # -------------------------------------------------------------------------------------------------- functions
    def call(self, fn, args, kw=None, this=None):
        self.visited.add(fn)
        self.depth += 1
        if self.depth > 14:
            raise Unclear('recursion')
        try:
            env = {}
            names = list(fn.args)
            if this is not None and names and names[0] == 'self':
                env['self'] = this
                names = names[1:]
            for k, v in zip(names, args):
                env[k] = v
            for k, v in (kw or {}).items():
                env[k] = v
            n = fn.node.args
            allargs = [a.arg for a in n.args]
            for d, a in zip(n.defaults[::-1], allargs[::-1]):
                if a not in env:
                    env[a] = self.ev(d, {}, fn)
            r = self.block(fn.node.body, env, fn)
            return T('s', 'None') if r is NOVALUE else r
        finally:
            self.depth -= 1

    def block(self, stmts, env, fn):
        """value returned by the block, or NOVALUE when it runs to its end"""
        for k, s in enumerate(stmts):
            if isinstance(s, ast.Return):
                return self.ev(s.value, env, fn) if s.value is not None else T('s', 'None')
            if isinstance(s, ast.If):
                c = self.truth(self.ev(s.test, env, fn))
                if c[0] == 'b':
                    r = self.block(s.body if c[1] else s.orelse, env, fn)
                    if r is not NOVALUE:
                        return r
                    continue
                self.conds.append(c)
                if has_exit(s.body) or has_exit(s.orelse):
                    rest = stmts[k + 1:]
                    ea, memo = copy_env(env)
                    eb, _ = copy_env(env)
                    ra = self.block(list(s.body) + rest, ea, fn)
                    rb = self.block(list(s.orelse) + rest, eb, fn)
                    self.merge(c, env, ea, eb)
                    if ra is NOVALUE and rb is NOVALUE:
                        return NOVALUE
                    if ra is NOVALUE:
                        ra = T('s', 'None')
                    if rb is NOVALUE:
                        rb = T('s', 'None')
                    return self.choose(c, ra, rb)
                ea, _ = copy_env(env)
                eb, _ = copy_env(env)
                self.block(s.body, ea, fn)
                self.block(s.orelse, eb, fn)
                self.merge(c, env, ea, eb)
                continue
            if isinstance(s, ast.For):
                r = self.loop(s, env, fn)
                if r is not NOVALUE:
                    return r
                continue
            if isinstance(s, ast.Continue):
                return T('s', 'continue')
            self.simple(s, env, fn)
        return NOVALUE

    def choose(self, c, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return ite(c, a, b)
        if isinstance(a, Seq) and isinstance(b, Seq) and len(a.items) == len(b.items):
            return Seq([self.choose(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, Grid) and isinstance(b, Grid) and set(a.cells) == set(b.cells):
            return Grid({k: self.choose(c, a.cells[k], b.cells[k]) for k in a.cells})
        if isinstance(a, Rec) and isinstance(b, Rec) and a.cls is b.cls:
            return Rec(a.cls, {k: self.choose(c, a.attrs[k], b.attrs[k]) for k in set(a.attrs) & set(b.attrs)}, a.name)
        if a is b:
            return a
        if isinstance(a, Inp) and isinstance(b, Inp) and (a.name, a.idx) == (b.name, b.idx):
            return a
        return T('undefined',)

    def merge(self, c, env, ea, eb):
        """what the two branches left behind, in place: containers keep their identity"""
        done = {}
        for k in set(ea) | set(eb):
            if k in ea and k in eb:
                env[k] = self.join(c, env.get(k), ea[k], eb[k], done)
            else:
                env[k] = T('undefined',)

    def join(self, c, old, a, b, done):
        key = id(old)
        if isinstance(old, (Seq, Grid, Rec)) and type(a) is type(old) is type(b):
            if key in done:
                return old
            done[key] = True
            m = self.choose(c, a, b)
            if isinstance(m, Seq):
                old.items = m.items
                return old
            if isinstance(m, Grid):
                old.cells = m.cells
                return old
            if isinstance(m, Rec):
                for k in m.attrs:
                    old.attrs[k] = self.join(c, old.attrs.get(k), a.attrs[k], b.attrs[k], done)
                return old
        return self.choose(c, a, b)

    def simple(self, s, env, fn):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env, fn)
            for t in s.targets:
                self.assign(t, v, env, fn)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env, fn), env, fn)
        elif isinstance(s, ast.AugAssign):
            old = self.ev(s.target, env, fn)
            v = self.binop(s.op, old, self.ev(s.value, env, fn))
            self.assign(s.target, v, env, fn)
        elif isinstance(s, ast.Expr):
            if not isinstance(s.value, ast.Constant):
                self.ev(s.value, env, fn)
        elif isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global)):
            pass
        elif isinstance(s, ast.With):
            r = self.block(s.body, env, fn)
            if r is not NOVALUE:
                raise Unclear('return in with')
        else:
            raise Unclear(type(s).__name__)

    def assign(self, t, v, env, fn):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.items(v, len(t.elts))
            for x, y in zip(t.elts, items):
                self.assign(x, y, env, fn)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, fn)
            if not isinstance(o, Rec):
                raise Unclear('attribute of ' + ast.unparse(t.value))
            o.attrs[t.attr] = v
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, fn)
            self.put(o, t.slice, v, env, fn)
        else:
            raise Unclear('target ' + type(t).__name__)

    def items(self, v, n):
        if isinstance(v, Seq):
            if len(v.items) != n:
                raise Unclear('unpacking')
            return v.items
        if isinstance(v, tuple):
            return [T('call', 'part', (v, num(i)), ()) for i in range(n)]
        raise Unclear('unpacking')

    def put(self, o, sl, v, env, fn):
        if isinstance(sl, ast.Slice) and isinstance(o, Seq):
            vs = v.items if isinstance(v, Seq) else [v] * len(o.items)
            if sl.lower is None and sl.upper is None and len(vs) == len(o.items):
                o.items = list(vs)
                return
            raise Unclear('slice assignment')
        ix = self.index(sl, env, fn)
        if isinstance(o, Seq) and len(ix) == 1 and 0 <= ix[0] < len(o.items):
            o.items[ix[0]] = v
        elif isinstance(o, Grid):
            o.cells[tuple(ix)] = v
        elif isinstance(o, tuple) and o[0] == 'row' and len(ix) == 1:
            raise Unclear('row')
        elif isinstance(o, Row):
            o.grid.cells[o.idx + tuple(ix)] = v
        else:
            raise Unclear('store')

    def index(self, sl, env, fn):
        es = sl.elts if isinstance(sl, ast.Tuple) else [sl]
        out = []
        for e in es:
            c = const_of(self.ev(e, env, fn))
            if c is None or c.denominator != 1:
                raise Unclear('index ' + ast.unparse(e))
            out.append(int(c))
        return out

    # ------------------------------------------------------------------------------------------------------ loops
    def loop(self, s, env, fn):
        seq = self.sequence(s.iter, env, fn)
        if s.orelse:
            raise Unclear('for/else')
        if isinstance(seq, list):
            for v in seq:
                self.assign(s.target, v, env, fn)
                r = self.block(s.body, env, fn)
                if r is not NOVALUE and r != T('s', 'continue'):
                    if isinstance(r, tuple) and r[0] == 'ite':
                        # some paths go on with the next element: only continue is understood
                        if only_continue(r):
                            continue
                    raise Unclear('return in loop')
            return NOVALUE
        # a number of rounds that is not known: a fold
        lo, hi, bind = seq
        self.loops += 1
        tag = self.loops
        i = T('lv', tag, '#')
        names = sorted(assigned(s.body) | targets(s.target))
        inits = {k: env[k] for k in names if k in env and isinstance(env[k], tuple)}
        for k in names:
            if k in env and not isinstance(env[k], tuple):
                raise Unclear('loop over a container')
        inner, _ = copy_env(env)
        for k in inits:
            inner[k] = T('lv', tag, k)
        self.assign(s.target, bind(i), inner, fn)
        body = dict(inner)
        r = self.block(s.body, inner, fn)
        if r is not NOVALUE and not only_continue(r):
            raise Unclear('return in loop')
        carry = [k for k in inits if k not in targets(s.target)]
        steps = tuple((k, inits[k], inner[k]) for k in carry if isinstance(inner[k], tuple))
        for k in carry:
            env[k] = T('fold', tag, lo, hi, steps, k)
        for k in names:
            if k not in carry:
                env[k] = T('undefined',)
        return NOVALUE

    def sequence(self, it, env, fn):
        """a list of values, or (first, stop, function of the index)"""
        if isinstance(it, ast.Call):
            f = it.func
            name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
            if name in ('range', 'prange', 'arange'):
                a = [self.ev(x, env, fn) for x in it.args]
                lo, hi, st = (ZERO, a[0], num(1)) if len(a) == 1 else (a[0], a[1], num(1)) if len(a) == 2 else a
                cs = [const_of(x) for x in (lo, hi, st)]
                if all(c is not None for c in cs):
                    return [num(v) for v in range(*[int(c) for c in cs])]
                if cs[2] != 1:
                    raise Unclear('range step')
                return (lo, hi, lambda i: i)
            if name == 'reversed':
                s = self.sequence(it.args[0], env, fn)
                if isinstance(s, list):
                    return s[::-1]
                raise Unclear('reversed')
            if name == 'enumerate':
                s = self.sequence(it.args[0], env, fn)
                if isinstance(s, list):
                    return [Seq([num(k), v]) for k, v in enumerate(s)]
                lo, hi, b = s
                if lo != ZERO:
                    raise Unclear('enumerate')
                return (lo, hi, lambda i: Seq([i, b(i)]))
            if name == 'zip':
                ss = [self.sequence(x, env, fn) for x in it.args]
                if all(isinstance(s, list) for s in ss):
                    return [Seq(list(v)) for v in zip(*ss)]
                if all(not isinstance(s, list) for s in ss) and len({s[:2] for s in ss}) == 1:
                    return (ss[0][0], ss[0][1], lambda i: Seq([s[2](i) for s in ss]))
                raise Unclear('zip')
        v = self.ev(it, env, fn)
        if isinstance(v, Seq):
            return list(v.items)
        if isinstance(v, Inp):
            return (ZERO, T('dim', v.name, 0), lambda i: self.take(v, [i]))
        raise Unclear('iteration over ' + ast.unparse(it))

    def take(self, v, ix):
        """an element or a row of an input"""
        idx, k = [], 0
        left = list(ix)
        for x in v.idx:
            if x is None and left:
                idx.append(left.pop(0))
            else:
                idx.append(x)
        idx += left
        if None not in idx and len(idx) >= RANK.get(v.name, 2):
            return T('item', v.name, *idx)
        return Inp(v.name, idx)

    # ------------------------------------------------------------------------------------------------ expressions
    def truth(self, v):
        if isinstance(v, tuple):
            if v[0] in ('rel', 'and', 'not', 'b'):
                return v
            if v[0] == 's':
                return T('b', v[1] not in ("''", 'None', 'False'))
            if v[0] == 'n':
                return T('b', v[1] != 0 or v[2] != 0)
            if v[0] == 'ite':
                return T('ite', *v[1:])
            return v
        return T('b', True)

    def ev(self, n, env, fn):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unclear(type(n).__name__)
        return m(n, env, fn)

    def e_Constant(self, n, env, fn):
        return num(n.value)

    def e_Name(self, n, env, fn):
        if n.id in env:
            return env[n.id]
        if isinstance(getattr(fn, 'node', None), ast.FunctionDef) and n.id in self.locals_of(fn):
            return T('undefined',)
        return self.global_name(n.id, fn.module)

    def locals_of(self, fn):
        if fn not in self.locs:
            self.locs[fn] = assigned(fn.node.body)
        return self.locs[fn]

    def global_name(self, name, mod):
        key = (mod.name, name)
        if key in self.modvals:
            return self.modvals[key]
        r = self.p.resolve(mod, name)
        if r is not None:
            k, x = r
            if k == 'func':
                return Fn(x, name=name)
            if k == 'class':
                return Fn(x, name=name)
            if k == 'module':
                return Mod(getattr(x, 'name', str(x)), x if hasattr(x, 'functions') else None)
            if k == 'ext':
                if x.split('.')[-1] == 'pi':
                    return PI
                return Mod(x)
            if k == 'const':
                v = self.ev(x[1], {}, FakeFn(x[0]))
                if isinstance(v, (Seq, Grid)):
                    self.fill(x[0], name, v)
                self.modvals[key] = v
                return v
        t = self.table(mod, name)
        if t is not None:
            self.modvals[key] = t
            return t
        return Fn(None, name=name)

    def fill(self, mod, name, v):
        pass

    def table(self, mod, name):
        """a table of a module that is filled by top-level assignments"""
        g = Grid()
        todo = []
        for s in mod.tree.body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript):
                t, ix = s.targets[0], []
                while isinstance(t, ast.Subscript):
                    ix = (t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice]) + ix
                    t = t.value
                if isinstance(t, ast.Name) and t.id == name:
                    todo.append((ix, s.value))
        for ix, v in todo:
            g.cells[tuple(int(const_of(self.ev(i, {}, FakeFn(mod)))) for i in ix)] = self.ev(v, {}, FakeFn(mod))
        return g if todo else None

    def e_Attribute(self, n, env, fn):
        o = self.ev(n.value, env, fn)
        if isinstance(o, Mod):
            if n.attr == 'pi':
                return PI
            if o.mod is not None:
                return self.global_name(n.attr, o.mod)
            return Mod(o.name + '.' + n.attr)
        if isinstance(o, Rec):
            if n.attr in o.attrs:
                return o.attrs[n.attr]
            if o.cls is not None:
                m = self.p.lookup(o.cls, n.attr)
                if m is not None:
                    return Fn(m, this=o, name=n.attr)
            return Fn(None, this=o, name=n.attr)
        if isinstance(o, Inp):
            if n.attr == 'shape':
                return Inp(o.name + '.shape')
            if n.attr == 'T':
                raise Unclear('transpose')
        if isinstance(o, tuple):
            if n.attr in ('real', 'imag'):
                return part(n.attr, o)
            return Fn(None, this=o, name=n.attr)
        if isinstance(o, Seq) and n.attr == 'shape':
            return Seq([num(len(o.items))])
        if isinstance(o, Fn) and o.fn is not None:
            raise Unclear('attribute of a function')
        return Fn(None, this=o, name=n.attr)

    def e_Subscript(self, n, env, fn):
        o = self.ev(n.value, env, fn)
        if isinstance(o, Inp):
            es = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
            ix = [None if isinstance(e, ast.Slice) else self.ev(e, env, fn) for e in es]
            if o.name.endswith('.shape'):
                return T('dim', o.name[:-6], int(const_of(ix[0])))
            if any(x is not None and not isinstance(x, tuple) for x in ix):
                raise Unclear('index')
            return self.take(o, ix)
        if isinstance(o, Seq):
            if isinstance(n.slice, ast.Slice):
                lo, hi = [int(const_of(self.ev(x, env, fn))) if x is not None else None for x in (n.slice.lower, n.slice.upper)]
                return Seq(o.items[lo:hi])
            i = self.ev(n.slice, env, fn)
            c = const_of(i)
            if c is not None and -len(o.items) <= c < len(o.items):
                return o.items[int(c)]
            raise Unclear('index')
        if isinstance(o, (Grid, Row)):
            ix = self.index(n.slice, env, fn)
            g, pre = (o, ()) if isinstance(o, Grid) else (o.grid, o.idx)
            k = pre + tuple(ix)
            if k in g.cells:
                return g.cells[k]
            if any(c[:len(k)] == k for c in g.cells):
                return Row(g, k)
            raise Unclear('table entry')
        raise Unclear('subscript of ' + ast.unparse(n.value))

    def e_Tuple(self, n, env, fn):
        return Seq([self.ev(x, env, fn) for x in n.elts])
    e_List = e_Tuple

    def e_UnaryOp(self, n, env, fn):
        v = self.ev(n.operand, env, fn)
        if isinstance(n.op, ast.Not):
            return lnot(self.truth(v))
        if isinstance(n.op, ast.USub):
            return self.map1(lambda x: op('neg', x), v)
        if isinstance(n.op, ast.UAdd):
            return v
        raise Unclear('unary')

    def map1(self, f, v):
        if isinstance(v, Seq):
            return Seq([self.map1(f, x) for x in v.items])
        if isinstance(v, tuple):
            return f(v)
        raise Unclear('operand')

    def e_BinOp(self, n, env, fn):
        return self.binop(n.op, self.ev(n.left, env, fn), self.ev(n.right, env, fn))

    def binop(self, o, a, b):
        s = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**'}.get(type(o))
        if s is None:
            x, y = const_of(a) if isinstance(a, tuple) else None, const_of(b) if isinstance(b, tuple) else None
            if isinstance(o, ast.FloorDiv) and x is not None and y:
                return num(x // y)
            if isinstance(o, ast.Mod) and x is not None and y:
                return num(x % y)
            raise Unclear(type(o).__name__)
        if isinstance(a, Seq) or isinstance(b, Seq):
            n = len((a if isinstance(a, Seq) else b).items)
            p = a.items if isinstance(a, Seq) else [a] * n
            q = b.items if isinstance(b, Seq) else [b] * n
            if len(p) != len(q):
                raise Unclear('lengths')
            return Seq([self.binop(o, x, y) for x, y in zip(p, q)])
        if not isinstance(a, tuple) or not isinstance(b, tuple):
            raise Unclear('operand')
        return op(s, a, b)

    def e_Compare(self, n, env, fn):
        vs = [self.ev(x, env, fn) for x in [n.left] + n.comparators]
        out = []
        for o, a, b in zip(n.ops, vs, vs[1:]):
            k = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.Is: '==', ast.IsNot: '!='}.get(type(o))
            if k is None:
                if isinstance(o, (ast.In, ast.NotIn)) and isinstance(b, Seq):
                    c = lor([rel('==', a, x) for x in b.items])
                    out.append(c if isinstance(o, ast.In) else lnot(c))
                    continue
                raise Unclear('comparison')
            if not isinstance(a, tuple) or not isinstance(b, tuple):
                if k in ('==', '!=') and (a == T('s', 'None') or b == T('s', 'None')):
                    out.append(T('b', k == '!='))
                    continue
                raise Unclear('comparison')
            out.append(rel(k, a, b))
        return land(out)

    def e_BoolOp(self, n, env, fn):
        out = []
        isand = isinstance(n.op, ast.And)
        for x in n.values:
            c = self.truth(self.ev(x, env, fn))
            out.append(c)
            if c == T('b', not isand):
                break
        return land(out) if isand else lor(out)

    def e_IfExp(self, n, env, fn):
        c = self.truth(self.ev(n.test, env, fn))
        if c[0] == 'b':
            return self.ev(n.body if c[1] else n.orelse, env, fn)
        self.conds.append(c)
        return self.choose(c, self.ev(n.body, env, fn), self.ev(n.orelse, env, fn))

    def e_ListComp(self, n, env, fn):
        if len(n.generators) != 1 or n.generators[0].ifs:
            raise Unclear('comprehension')
        g = n.generators[0]
        s = self.sequence(g.iter, env, fn)
        if not isinstance(s, list):
            raise Unclear('comprehension')
        out = []
        for v in s:
            e = dict(env)
            self.assign(g.target, v, e, fn)
            out.append(self.ev(n.elt, e, fn))
        return Seq(out)
    e_GeneratorExp = e_ListComp

    def e_Lambda(self, n, env, fn):
        raise Unclear('lambda')

    def e_Call(self, n, env, fn):
        f = n.func
        if isinstance(f, ast.Name) and f.id == '__cast__':
            v = self.ev(n.args[-1], env, fn)
            t = n.args[0].value if isinstance(n.args[0], ast.Constant) else ''
            return T('call', 'int', (v,), ()) if str(t) in ('int', 'long', 'int_t', 'long_t') and const_of(v) is None else v
        target = self.ev(f, env, fn)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env, fn)
                if not isinstance(v, Seq):
                    raise Unclear('starred')
                args += v.items
            else:
                args.append(self.ev(a, env, fn))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                raise Unclear('keywords')
            kw[k.arg] = self.ev(k.value, env, fn)
        return self.apply(target, args, kw)

    def apply(self, target, args, kw):
        if isinstance(target, tuple):
            raise Unclear('call of a value')
        if isinstance(target, Mod):
            name = target.name.split('.')[-1]
            if target.name == 'math.exp':
                return T('call', 'mexp', tuple(self.flat(args)), ())
            return self.builtin(name, args, kw)
        if not isinstance(target, Fn):
            raise Unclear('call')
        name = (target.name or '').lstrip('_')
        if target.fn is None:
            if target.this is not None:
                if isinstance(target.this, Rec):
                    return T('call', '%s.%s' % (target.this.name, target.name), tuple(self.flat(args)), ())
                if target.name in ('copy', 'item', 'astype'):
                    return target.this
                if target.name in ('conjugate', 'conj') and isinstance(target.this, tuple):
                    return T('call', 'conj', (target.this,), ())
                raise Unclear('method ' + str(target.name))
            return self.builtin(name, args, kw)
        if hasattr(target.fn, 'methods'):
            r = Rec(target.fn, name=target.fn.name)
            init = self.p.lookup(target.fn, '__init__')
            if init is not None:
                self.call(init, args, kw, this=r)
            return r
        if name in self.atoms:
            names = [a for a in target.fn.args if a != 'self']
            full = dict(zip(names, args))
            full.update(kw)
            for d, a in zip(target.fn.node.args.defaults[::-1], names[::-1]):
                if a not in full:
                    full[a] = self.ev(d, {}, target.fn)
            self.visited.add(target.fn)
            return T('call', self.atoms[name], tuple(self.flat([full[a] for a in names if a in full])), ())
        return self.call(target.fn, args, kw, this=target.this)

    def flat(self, args):
        out = []
        for a in args:
            if isinstance(a, tuple):
                out.append(a)
            elif isinstance(a, Seq):
                out += self.flat(a.items)
            elif isinstance(a, Inp):
                out.append(T('inp', a.name, *[x if x is not None else T('s', ':') for x in a.idx]))
            elif isinstance(a, Fn):
                out.append(T('s', 'function ' + (a.name or '?').lstrip('_')))
            elif isinstance(a, Mod):
                out.append(T('s', a.name))
            else:
                raise Unclear('argument')
        return out

    def builtin(self, name, args, kw):
        name = SAME_NAME.get(name, name)
        if name in DROP and len(args) == 1:
            return args[0]
        if name == 'array' and args:
            return args[0]
        if name in ('zeros', 'empty', 'zeros_like'):
            a = args[0]
            if isinstance(a, tuple) and const_of(a) is not None:
                return Seq([ZERO] * int(const_of(a)))
            if isinstance(a, Seq):
                cs = [const_of(x) if isinstance(x, tuple) else None for x in a.items]
                if name != 'zeros_like' and all(c is not None for c in cs):
                    if len(cs) == 1:
                        return Seq([ZERO] * int(cs[0]))
                    import itertools
                    return Grid({ix: ZERO for ix in itertools.product(*[range(int(c)) for c in cs])})
            raise Unclear('array of unknown size')
        if name in ('real', 'imag') and len(args) == 1 and isinstance(args[0], tuple):
            return part(name, args[0])
        if name in ('abs', 'int', 'max', 'min') and all(isinstance(a, tuple) for a in args) and not kw:
            cs = [const_of(a) for a in args]
            if all(c is not None for c in cs):
                return num({'abs': lambda x: abs(x), 'int': lambda x: int(x), 'max': max, 'min': min}[name](*cs))
            return T('call', name, tuple(args), ())
        if name in ('maximum', 'minimum'):
            return self.builtin(name[:3], args, kw)
        if name == 'len' and isinstance(args[0], Seq):
            return num(len(args[0].items))
        if name == 'len' and isinstance(args[0], Inp):
            return T('dim', args[0].name, 0)
        if name == 'sum' and len(args) == 1 and isinstance(args[0], Seq):
            out = ZERO
            for x in args[0].items:
                out = op('+', out, x)
            return out
        if name in ('power', 'pow') and len(args) == 2:
            return op('**', *args)
        if name == 'print':
            return T('s', 'None')
        if name == 'isinstance':
            raise Unclear('isinstance')
        # arguments in order of their names when given by name
        ks = tuple(sorted((k, self.flat([v])[0]) for k, v in kw.items()))
        return T('call', name, tuple(self.flat(args)), ks)


class Row(object):
    def __init__(self, grid, idx):
        self.grid, self.idx = grid, idx


class FakeFn(object):
    def __init__(self, mod):
        self.module = mod


RANK = {}


def part(which, t):
    if t[0] == 'n':
        return T('n', t[1] if which == 'real' else t[2], Fraction(0))
    return T('call', which, (t,), ())


def has_exit(stmts):
    return any(isinstance(x, (ast.Return, ast.Continue, ast.Break)) for s in stmts for x in ast.walk(s)
               ) if not any(isinstance(s, ast.For) for s in stmts) else any(
        isinstance(x, (ast.Return,)) for s in stmts for x in ast.walk(s)) or any(has_exit([s]) for s in stmts if not isinstance(s, ast.For))


def only_continue(r):
    if not isinstance(r, tuple):
        return False
    if r[0] == 's':
        return r[1] in ('continue', 'None')
    return r[0] == 'ite' and only_continue(r[2]) and only_continue(r[3])


def assigned(stmts):
    out = set()
    for s in stmts:
        for x in ast.walk(s):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    out |= targets(t)
            elif isinstance(x, (ast.AugAssign, ast.AnnAssign)):
                out |= targets(x.target)
            elif isinstance(x, ast.For):
                out |= targets(x.target)
    return out


def targets(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


def copy_env(env):
    memo = {}

    def cp(v):
        if id(v) in memo:
            return memo[id(v)]
        if isinstance(v, Seq):
            r = memo[id(v)] = Seq([])
            r.items = [cp(x) for x in v.items]
            return r
        if isinstance(v, Grid):
            r = memo[id(v)] = Grid(v.cells)
            return r
        if isinstance(v, Row):
            r = memo[id(v)] = Row(cp(v.grid), v.idx)
            return r
        if isinstance(v, Rec):
            r = memo[id(v)] = Rec(v.cls, {}, v.name)
            r.attrs = {k: cp(x) for k, x in v.attrs.items()}
            return r
        return v
    return {k: cp(v) for k, v in env.items()}, memo


# --------------------------------------------------------------------------------------------------------- evaluation
class Undefined(Exception):
    """the formula has no value there (division by zero, a variable without value)"""


class Exact(object):
    """value of a term over complex rationals; uninterpreted functions map equal arguments to equal arbitrary values"""
    MASK = (1 << 31) - 1

    def __init__(self, inputs, seed, items=None, dims=None, cover=None):
        self.inputs, self.seed = inputs, seed
        self.items, self.dims = items or {}, dims or {}
        self.memo = {}
        self.cover = cover

    def hashed(self, key, cplx):
        h = hashlib.blake2b(repr((self.seed, key)).encode(), digest_size=16).digest()
        a, b = int.from_bytes(h[:4], 'big'), int.from_bytes(h[4:8], 'big')
        c, d = int.from_bytes(h[8:12], 'big'), int.from_bytes(h[12:16], 'big')
        re = Fraction(a % 9973 + 1, b % 97 + 1)
        im = Fraction(c % 9973 + 1, d % 97 + 1) if cplx else Fraction(0)
        return (re, im)

    def val(self, t, lv=None):
        if lv is None:
            if t in self.memo:
                return self.memo[t]
        v = self.calc(t, lv)
        if lv is None:
            self.memo[t] = v
        return v

    def truth(self, t, lv):
        v = self.val(t, lv)
        if isinstance(v, bool):
            return v
        if isinstance(v, tuple):
            return v != (0, 0)
        raise Undefined('condition')

    def calc(self, t, lv):
        k = t[0]
        if k == 'n':
            return (t[1], t[2])
        if k == 'pi':
            return (Fraction(31415926535, 10000000000), Fraction(0))
        if k == 'b':
            return t[1]
        if k == 's':
            return ('s', t[1])
        if k == 'in':
            v = self.inputs[t[1]]
            return v if isinstance(v, (tuple, bool)) else (Fraction(v), Fraction(0))
        if k == 'lv':
            return lv[(t[1], t[2])]
        if k == 'op':
            vs = [self.val(x, lv) for x in t[2:]]
            if any(len(v) != 2 or v[0] == 's' for v in vs):
                raise Undefined('operand')
            try:
                r = arith(t[1], vs)
            except ZeroDivisionError:
                raise Undefined('division by zero')
            if r is None:
                return self.hashed(('pow',) + tuple(vs), any(v[1] for v in vs))
            return r
        if k == 'rel':
            a, b = self.val(t[2], lv), self.val(t[3], lv)
            if t[1] in ('==', '!='):
                return (a == b) == (t[1] == '==')
            if a[0] == 's' or b[0] == 's' or a[1] or b[1]:
                raise Undefined('order of complex numbers')
            return relation(t[1], a[0], b[0])
        if k == 'not':
            return not self.truth(t[1], lv)
        if k == 'and':
            return all(self.truth(x, lv) for x in t[1:])
        if k == 'ite':
            c = self.truth(t[1], lv)
            if self.cover is not None:
                self.cover.add((t[1], c))
            return self.val(t[2] if c else t[3], lv)
        if k == 'dim':
            return (Fraction(self.dims[(t[1], t[2])]), Fraction(0))
        if k == 'item':
            ix = tuple(self.val(x, lv)[0] for x in t[2:])
            if (t[1],) + ix in self.items:
                return (Fraction(self.items[(t[1],) + ix]), Fraction(0))
            return self.hashed(('item', t[1]) + ix, False)
        if k == 'fold':
            _, tag, lo, hi, steps, name = t
            lo, hi = self.val(lo, lv)[0], self.val(hi, lv)[0]
            cur = {n: self.val(i, lv) for n, i, s in steps}
            for i in range(int(lo), int(hi)):
                inner = dict(lv or {})
                inner[(tag, '#')] = (Fraction(i), Fraction(0))
                for n in cur:
                    inner[(tag, n)] = cur[n]
                cur = {n: self.val(s, inner) for n, _, s in steps}
            return cur[name]
        if k == 'call':
            return self.function(t, lv)
        if k == 'inp':
            return ('s', t[1]) + tuple(self.val(x, lv) for x in t[2:])
        if k == 'undefined':
            raise Undefined('variable without value')
        raise Undefined(k)

    def function(self, t, lv):
        name = t[1]
        vs = [self.val(x, lv) for x in t[2]]
        if name == 'real':
            return (vs[0][0], Fraction(0))
        if name == 'imag':
            return (vs[0][1], Fraction(0))
        if name == 'conj':
            return (vs[0][0], -vs[0][1])
        if name == 'abs' and vs[0][1] == 0:
            return (abs(vs[0][0]), Fraction(0))
        if name == 'int' and vs[0][1] == 0:
            return (Fraction(int(vs[0][0])), Fraction(0))
        if name in ('max', 'min') and all(v[0] != 's' and v[1] == 0 for v in vs):
            return ((max if name == 'max' else min)(v[0] for v in vs), Fraction(0))
        kw = tuple((k, self.val(v, lv)) for k, v in t[3])
        if name == 'part' and vs[0][0] != 's':
            # one of several values of an uninterpreted function
            return self.hashed((name,) + tuple(vs), False)
        cplx = any(isinstance(v, tuple) and len(v) == 2 and v[0] != 's' and v[1] for v in vs)
        return self.hashed((name,) + tuple(vs) + kw, cplx)


# ---------------------------------------------------------------------------------------------------------- intervals
class Range(object):
    """a set of extended reals [lo, hi], or something that may not be a number"""
    __slots__ = ('lo', 'hi', 'nan')

    def __init__(self, lo, hi, nan=False):
        self.lo, self.hi, self.nan = lo, hi, nan

    def __repr__(self):
        return '[%g, %g]%s' % (self.lo, self.hi, ' or nan' if self.nan else '')


EXP_MAX = 709.782712893384


def iexp(x):
    def e(v):
        return INF if v > EXP_MAX else math.exp(v) if v > -745.2 else 0.0
    return Range(e(x.lo), e(x.hi), x.nan)


def imul(a, b):
    nan = a.nan or b.nan
    ps = []
    for x in (a.lo, a.hi):
        for y in (b.lo, b.hi):
            if x == 0 and y in (INF, -INF) or y == 0 and x in (INF, -INF):
                nan = True
                ps.append(0.0)
            else:
                ps.append(x * y)
    if (a.lo <= 0 <= a.hi and (b.hi == INF or b.lo == -INF)) or (b.lo <= 0 <= b.hi and (a.hi == INF or a.lo == -INF)):
        nan = True
    return Range(min(ps), max(ps), nan)


def iadd(a, b):
    nan = a.nan or b.nan or (a.hi == INF and b.lo == -INF) or (a.lo == -INF and b.hi == INF)
    lo = -INF if -INF in (a.lo, b.lo) else a.lo + b.lo
    hi = INF if INF in (a.hi, b.hi) else a.hi + b.hi
    return Range(lo, hi, nan)


def ineg(a):
    return Range(-a.hi, -a.lo, a.nan)


def iinv(a):
    if a.lo <= 0 <= a.hi:
        if a.lo == 0 < a.hi:
            return Range(0.0 if a.hi == INF else 1 / a.hi, INF, a.nan)
        if a.hi == 0 > a.lo:
            return Range(-INF, 0.0 if a.lo == -INF else 1 / a.lo, a.nan)
        return Range(-INF, INF, True if a.lo == a.hi == 0 else a.nan)
    return Range(0.0 if a.hi in (INF, -INF) else 1 / a.hi, 0.0 if a.lo in (INF, -INF) else 1 / a.lo, a.nan)


def idiv(a, b):
    r = imul(a, iinv(b))
    nan = a.nan or b.nan
    binf, ainf = b.hi == INF or b.lo == -INF, a.hi == INF or a.lo == -INF
    bz, az = b.lo <= 0 <= b.hi, a.lo <= 0 <= a.hi
    nan = nan or (ainf and binf) or (az and bz)
    if not (bz and ainf) and not nan:
        r.nan = False
        if r.lo != r.lo or r.hi != r.hi:
            r = Range(-INF, INF, False)
    else:
        r.nan = nan
    if binf and not ainf:
        # finite over infinite is zero
        r.nan = nan
    return r


def ipow(a, n):
    r = Range(1.0, 1.0)
    if n == 2:
        c = [x * x for x in (a.lo, a.hi)]
        return Range(0.0 if a.lo <= 0 <= a.hi else min(c), max(c), a.nan)
    for _ in range(n):
        r = imul(r, a)
    return r


class Interval(object):
    def __init__(self, inputs):
        self.inputs = inputs
        self.memo = {}

    def val(self, t):
        if t not in self.memo:
            self.memo[t] = self.calc(t)
        return self.memo[t]

    def truth(self, t):
        """True, False or None"""
        k = t[0]
        if k == 'b':
            return t[1]
        if k == 'not':
            v = self.truth(t[1])
            return None if v is None else not v
        if k == 'and':
            vs = [self.truth(x) for x in t[1:]]
            return False if False in vs else None if None in vs else True
        if k == 'rel':
            a, b = self.val(t[2]), self.val(t[3])
            o = t[1]
            if a.nan or b.nan:
                return None
            if o in ('>', '>='):
                a, b, o = b, a, {'>': '<', '>=': '<='}[o]
            if o == '<':
                return True if a.hi < b.lo else False if a.lo >= b.hi else None
            if o == '<=':
                return True if a.hi <= b.lo else False if a.lo > b.hi else None
            return None
        return None

    def calc(self, t):
        k = t[0]
        if k == 'n':
            if t[2] != 0:
                raise Unclear('complex')
            return Range(float(t[1]), float(t[1]))
        if k == 'pi':
            return Range(math.pi, math.pi)
        if k == 'in':
            return self.inputs[t[1]]
        if k == 'op':
            o = t[1]
            if o == '**' and const_of(t[3]) is not None and const_of(t[3]).denominator == 1 and const_of(t[3]) >= 0:
                return ipow(self.val(t[2]), int(const_of(t[3])))
            vs = [self.val(x) for x in t[2:]]
            if o == 'neg':
                return ineg(vs[0])
            if o == '+':
                return iadd(*vs)
            if o == '-':
                return iadd(vs[0], ineg(vs[1]))
            if o == '*':
                return imul(*vs)
            if o == '/':
                return idiv(*vs)
        if k == 'ite':
            c = self.truth(t[1])
            if c is not None:
                return self.val(t[2] if c else t[3])
            a, b = self.val(t[2]), self.val(t[3])
            return Range(min(a.lo, b.lo), max(a.hi, b.hi), a.nan or b.nan)
        if k == 'call':
            name = t[1]
            vs = [self.val(x) for x in t[2]]
            if name == 'exp':
                return iexp(vs[0])
            if name == 'mexp':
                # math.exp raises instead of returning infinity
                r = iexp(vs[0])
                return Range(r.lo, r.hi, r.nan or r.hi == INF)
            if name == 'log':
                a = vs[0]
                f = lambda x: -INF if x <= 0 else INF if x == INF else math.log(x)
                return Range(f(a.lo), f(a.hi), a.nan or a.lo < 0)
            if name == 'abs':
                a = vs[0]
                m = max(abs(a.lo), abs(a.hi))
                return Range(0.0 if a.lo <= 0 <= a.hi else min(abs(a.lo), abs(a.hi)), m, a.nan)
            if name in ('max', 'min'):
                f = max if name == 'max' else min
                return Range(f(v.lo for v in vs), f(v.hi for v in vs), any(v.nan for v in vs))
            if name == 'tanh':
                return Range(math.tanh(vs[0].lo), math.tanh(vs[0].hi), vs[0].nan)
            if name == 'expm1':
                r = iexp(vs[0])
                return Range(r.lo - 1, r.hi - 1, r.nan)
            if name == 'log1p':
                a = vs[0]
                f = lambda x: -INF if x <= -1 else INF if x == INF else math.log1p(x)
                return Range(f(a.lo), f(a.hi), a.nan or a.lo < -1)
        raise Unclear('no interval for %s' % (t[1] if k == 'call' else k))


# ------------------------------------------------------------------------------------------------- floating evaluation
BERN = [1 / 6., -1 / 30., 1 / 42., -1 / 30., 5 / 66., -691 / 2730., 7 / 6., -3617 / 510., 43867 / 798.]


def ref_polygamma(z, k):
    """the k-th derivative of digamma for Re z > 0, by its recurrence and asymptotic series"""
    import cmath
    z = complex(z)
    sgn = -1.0 if k % 2 == 0 else 1.0
    out = 0j
    while z.real < 25:
        out += sgn * math.factorial(k) / z ** (k + 1)
        z += 1
    if k == 0:
        out += cmath.log(z) - 0.5 / z
        for j, b in enumerate(BERN):
            out -= b / ((2 * j + 2) * z ** (2 * j + 2))
        return out
    out += sgn * (math.factorial(k - 1) / z ** k + math.factorial(k) / (2 * z ** (k + 1)))
    for j, b in enumerate(BERN):
        m = 2 * j + 2
        out += sgn * b * math.factorial(m + k - 1) / math.factorial(m) / z ** (m + k)
    return out


class Numeric(Exact):
    """value of a term in floating point with the elementary functions in place; other functions are smooth and arbitrary"""

    def calc(self, t, lv):
        import cmath
        k = t[0]
        if k == 'n':
            return float(t[1]) if t[2] == 0 else complex(float(t[1]), float(t[2]))
        if k == 'pi':
            return math.pi
        if k == 's':
            return ('s', t[1])
        if k == 'in':
            v = self.inputs[t[1]]
            if isinstance(v, tuple):
                return complex(float(v[0]), float(v[1]))
            return v if isinstance(v, bool) else float(v)
        if k == 'op':
            vs = [self.val(x, lv) for x in t[2:]]
            if any(isinstance(v, tuple) for v in vs):
                raise Undefined('operand')
            try:
                if t[1] == 'neg':
                    r = -vs[0]
                elif t[1] == '**':
                    r = vs[0] ** vs[1]
                else:
                    a, b = vs
                    r = a + b if t[1] == '+' else a - b if t[1] == '-' else a * b if t[1] == '*' else a / b
            except (ZeroDivisionError, OverflowError):
                raise Undefined('division by zero or overflow')
            if r != r:
                raise Undefined('not a number')
            return r
        if k == 'rel':
            a, b = self.val(t[2], lv), self.val(t[3], lv)
            if t[1] in ('==', '!='):
                return (a == b) == (t[1] == '==')
            if isinstance(a, (tuple, complex)) or isinstance(b, (tuple, complex)):
                raise Undefined('order')
            return relation(t[1], a, b)
        if k == 'dim':
            return float(self.dims[(t[1], t[2])])
        if k == 'item':
            ix = tuple(int(self.val(x, lv)) for x in t[2:])
            if (t[1],) + ix in self.items:
                return float(self.items[(t[1],) + ix])
            return float(self.hashed(('item', t[1]) + tuple(Fraction(i) for i in ix), False)[0])
        if k == 'fold':
            _, tag, lo, hi, steps, name = t
            lo, hi = self.val(lo, lv), self.val(hi, lv)
            cur = {n: self.val(i, lv) for n, i, s in steps}
            for i in range(int(lo), int(hi)):
                inner = dict(lv or {})
                inner[(tag, '#')] = float(i)
                for n in cur:
                    inner[(tag, n)] = cur[n]
                cur = {n: self.val(s, inner) for n, _, s in steps}
            return cur[name]
        return Exact.calc(self, t, lv)

    def truth(self, t, lv):
        v = self.val(t, lv)
        if isinstance(v, tuple):
            raise Undefined('condition')
        return bool(v)

    def function(self, t, lv):
        import cmath
        name = t[1]
        vs = [self.val(x, lv) for x in t[2]]
        num = [v for v in vs if not isinstance(v, tuple)]
        kw = [(k, self.val(v, lv)) for k, v in t[3]]
        if len(num) == len(vs) and not kw:
            x = vs[0] if vs else 0.0
            try:
                if name == 'real':
                    return complex(x).real
                if name == 'imag':
                    return complex(x).imag
                if name == 'conj':
                    return x.conjugate()
                if name == 'abs':
                    return abs(x)
                if name == 'int' and not isinstance(x, complex):
                    return float(int(x))
                if name in ('max', 'min') and len(vs) > 1:
                    return (max if name == 'max' else min)(vs)
                if name == 'mexp':
                    name = 'exp'
                if name in ('exp', 'log', 'sin', 'cos', 'tan', 'tanh', 'sinh', 'cosh', 'sqrt', 'atan', 'arctan', 'expm1', 'log1p', 'floor'):
                    nm = {'arctan': 'atan'}.get(name, name)
                    if isinstance(x, complex):
                        return getattr(cmath, nm)(x)
                    if nm in ('log', 'sqrt') and x < 0:
                        return getattr(cmath, nm)(x)
                    return INF if nm == 'exp' and x > EXP_MAX else float(getattr(math, nm)(x))
                if name == 'digamma' and complex(x).real > 0:
                    v = ref_polygamma(x, 0)
                    return v if isinstance(x, complex) else v.real
                if name in ('atan2', 'arctan2'):
                    return math.atan2(*vs)
            except (ValueError, OverflowError, ZeroDivisionError, TypeError, AttributeError):
                raise Undefined(name)
        key = (name,) + tuple(v for v in vs if isinstance(v, tuple)) + tuple((k, v) for k, v in kw if isinstance(v, tuple)) + tuple(
            k for k, v in kw if not isinstance(v, tuple))
        num += [v for k, v in kw if not isinstance(v, tuple)]
        out = 1.0 + float(self.hashed(key, False)[0] % 7)
        for i, v in enumerate(num):
            a = float(self.hashed(key + (i,), False)[0] % 5) + 0.3
            b = float(self.hashed(key + (i, 'b'), False)[0] % 3)
            if isinstance(v, complex):
                out = out * (1.5 + cmath.sin(a * v / (1 + abs(v)) + b))
            else:
                out = out * (1.5 + math.sin(a * v / (1 + abs(v)) + b)) + a * v / (1 + abs(v))
        return out
