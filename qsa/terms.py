"""Path-wise symbolic reading of small Python functions: every store is recorded with the loops and conditions that lead to it and the term it stores.

Loop bodies are read once, for an arbitrary element; calls of project functions are inlined; everything else stays an uninterpreted term."""
import ast

UNKNOWN = ('?',)
NP_SAME = {'asarray', 'ascontiguousarray', 'asanyarray'}


class TooMany(Exception):
    pass


class Store(object):
    __slots__ = ('base', 'idx', 'op', 'value', 'trail', 'where', 'fn')

    def __init__(self, base, idx, op, value, trail, where, fn):
        self.base, self.idx, self.op, self.value, self.trail, self.where, self.fn = base, idx, op, value, trail, where, fn


class Path(object):
    def __init__(self):
        self.env = {}
        self.trail = ()
        self.cells = {}
        self.attrs = {}

    def copy(self):
        q = Path()
        q.env, q.trail, q.cells, q.attrs = dict(self.env), self.trail, dict(self.cells), dict(self.attrs)
        return q


class Reader(object):
    def __init__(self, proj, cls=None, atoms=(), consts=None, known=None):
        self.p, self.cls, self.atoms = proj, cls, set(atoms)
        self.consts = consts or {}          # term -> constant value assumed for it
        self.known = known                  # callable(term) -> term or None: facts of the rule that reads
        self.stores = []
        self.calls = []                     # (name, args, kw, trail, where)
        self.fresh = 0
        self.visited = set()
        self.npaths = 0

    # ------------------------------------------------------------------ running
    def read(self, fn, args, kw=None):
        """[(path, returned term)]"""
        return self.inline(fn, args, kw or {}, Path(), 0)

    def inline(self, fn, args, kw, path, depth):
        if depth > 8:
            raise TooMany('recursion')
        self.visited.add(fn)
        saved = path.env
        env = dict(zip(fn.args, args))
        env.update(kw)
        n = fn.node.args
        for d, name in zip(n.defaults[::-1], [a.arg for a in n.args][::-1]):
            if name not in env:
                env[name] = self.literal(d)
        for d, a in zip(n.kw_defaults, n.kwonlyargs):
            if a.arg not in env and d is not None:
                env[a.arg] = self.literal(d)
        path.env = env
        out = []
        for kind, q, v in self.block(fn.node.body, path, fn, depth):
            if kind == 'raise':
                continue
            q.env = dict(saved)
            out.append((q, v if kind == 'return' else ('c', None)))
        return out

    def literal(self, d):
        if isinstance(d, ast.Constant):
            return ('c', d.value)
        if isinstance(d, ast.UnaryOp) and isinstance(d.operand, ast.Constant) and isinstance(d.op, ast.USub):
            return ('c', -d.operand.value)
        return ('default', ast.unparse(d))

    def block(self, stmts, path, fn, depth):
        live, out = [path], []
        for s in stmts:
            nxt = []
            for q in live:
                for kind, r, v in self.stmt(s, q, fn, depth):
                    if kind == 'next':
                        nxt.append(r)
                    else:
                        out.append((kind, r, v))
            live = nxt
            self.npaths = max(self.npaths, len(live) + len(out))
            if len(live) + len(out) > 3000:
                raise TooMany('paths')
        return out + [('next', q, None) for q in live]

    def where(self, fn, n):
        return '%s:%d' % (fn.module.relpath, getattr(n, 'lineno', 0))

    def stmt(self, s, path, fn, depth):
        if isinstance(s, ast.Return):
            if s.value is None:
                return [('return', path, ('c', None))]
            return [('return', q, self.deref(v, q)) for v, q in self.ev(s.value, path, fn, depth)]
        if isinstance(s, ast.Expr):
            return [('next', q, None) for v, q in self.ev(s.value, path, fn, depth)]
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                return [('next', path, None)]
            targets = s.targets if isinstance(s, ast.Assign) else [s.target]
            out = []
            for v, q in self.ev(s.value, path, fn, depth):
                for t in targets:
                    self.assign(t, v, q, fn, depth, '=', s)
                out.append(('next', q, None))
            return out
        if isinstance(s, ast.AugAssign):
            out = []
            for v, q in self.ev(s.value, path, fn, depth):
                self.assign(s.target, v, q, fn, depth, type(s.op).__name__, s)
                out.append(('next', q, None))
            return out
        if isinstance(s, ast.If):
            out = []
            for v, q in self.ev(s.test, path, fn, depth):
                for val, r in self.decide(v, q):
                    out += self.block(s.body if val else s.orelse, r, fn, depth)
            return out
        if isinstance(s, ast.For):
            out = []
            for v, q in self.ev(s.iter, path, fn, depth):
                out += self.loop(s, v, q, fn, depth)
            return out
        if isinstance(s, ast.While):
            return self.body(s.body, path, fn, depth, [])
        if isinstance(s, ast.Continue):
            return [('continue', path, None)]
        if isinstance(s, ast.Break):
            return [('break', path, None)]
        if isinstance(s, ast.Raise):
            return [('raise', path, None)]
        if isinstance(s, ast.Try):
            return self.block(s.body + s.orelse + s.finalbody, path, fn, depth)
        if isinstance(s, ast.With):
            return self.block(s.body, path, fn, depth)
        if isinstance(s, ast.Assert):
            return [('next', path, None)]
        return [('next', path, None)]

    def decide(self, v, q):
        """[(truth, path)] of a condition"""
        v = self.deref(v, q)
        t = self.fact(v)
        if t is not None:
            return [(t, q)]
        for item in q.trail:
            if item[0] == 'cond' and item[1] == v:
                return [(item[2], q)]
        if v[0] == 'not':
            return [(not t, r) for t, r in self.decide(v[1], q)]
        if v[0] in ('and', 'or'):
            out = []
            live = [q]
            stop = v[0] == 'or'
            for i, x in enumerate(v[1]):
                nxt = []
                for r in live:
                    for t, r2 in self.decide(x, r):
                        if t == stop:
                            out.append((stop, r2))
                        else:
                            nxt.append(r2)
                live = nxt
            return out + [(not stop, r) for r in live]
        a, b = q, q.copy()
        a.trail = a.trail + (('cond', v, True),)
        b.trail = b.trail + (('cond', v, False),)
        return [(True, a), (False, b)]

    def fact(self, v):
        if v[0] == 'c':
            return bool(v[1])
        if v in self.consts:
            return bool(self.consts[v])
        return None

    def loop(self, s, it, path, fn, depth):
        bind = self.elements(it, path)
        before = set(path.env)
        for terms, var, rng in bind:
            path.trail = path.trail + (('loop', var, rng),)
        self.assign(s.target, bind[0][0] if len(bind) == 1 else UNKNOWN, path, fn, depth, '=', s) if not isinstance(bind[0][0], list) else None
        if isinstance(bind[0][0], list):
            self.assign(s.target, ('tuple', tuple(bind[0][0])), path, fn, depth, '=', s)
        return self.body(s.body, path, fn, depth, bind)

    def body(self, stmts, path, fn, depth, bind):
        """a loop body once; what it assigned is unknown afterwards"""
        assigned = {n.id for b in stmts for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        outer = path.trail
        for b in bind:
            outer = outer[:-1]
        start = path.copy()
        res = self.block(stmts, path, fn, depth)
        out = [x for x in res if x[0] in ('return', 'raise')]
        start.trail = outer
        for n in assigned:
            if n in start.env:
                start.env[n] = ('after', start.env[n], n)
        # lists filled in the loop
        for kind, q, v in res:
            for c, t in q.cells.items():
                if c in start.cells and start.cells[c] != t:
                    start.cells[c] = ('grown', start.cells[c], t)
        return out + [('next', start, None)]

    def elements(self, it, path):
        """[(element term or list of terms, loop variable, iterable)]"""
        it = self.deref(it, path)
        n = self.fresh
        self.fresh += 1
        if it[0] == 'call' and it[1] in ('range', 'prange'):
            v = ('v', n)
            return [(v, v, it)]
        if it[0] == 'call' and it[1] in ('itertools.product', 'product') and len(it[2]) > 1:
            out, terms = [], []
            for x in it[2]:
                for t, var, rng in self.elements(x, path):
                    terms.append(t)
                    out.append((None, var, rng))
            return [(terms if i == 0 else None, var, rng) for i, (t, var, rng) in enumerate(out)]
        if it[0] == 'call' and it[1] == 'enumerate' and len(it[2]) == 1:
            v = ('v', n)
            return [([v, ('[]', it[2][0], (v,))], v, ('call', 'range', (('len', it[2][0]),), ()))]
        if it[0] == 'call' and it[1] == 'zip' and it[2]:
            v = ('v', n)
            return [([('[]', x, (v,)) for x in it[2]], v, ('call', 'range', (('len', it[2][0]),), ()))]
        if it[0] == 'call' and isinstance(it[1], tuple) and it[1][0] == '.' and it[1][2] == 'items':
            v = ('v', n)
            return [([v, ('[]', it[1][1], (v,))], v, it[1][1])]
        if it[0] == 'call' and isinstance(it[1], tuple) and it[1][0] == '.' and it[1][2] == 'keys':
            it = it[1][1]
        if it[0] == 'call' and it[1] in ('list', 'sorted', 'tuple', 'set') and len(it[2]) == 1:
            return self.elements(it[2][0], path)
        v = ('v', n)
        return [(v, v, it)]

    # ------------------------------------------------------------------ terms
    def deref(self, v, q):
        if isinstance(v, tuple):
            if v and v[0] == 'ref':
                return self.deref(q.cells[v[1]], q)
            return tuple(self.deref(x, q) for x in v)
        return v

    def key(self, s, path, fn, depth):
        if isinstance(s, ast.Tuple):
            return tuple(self.key1(x, path, fn, depth) for x in s.elts)
        return (self.key1(s, path, fn, depth),)

    def key1(self, s, path, fn, depth):
        if isinstance(s, ast.Slice):
            lo, hi, st = (self.one(x, path, fn, depth) if x is not None else None for x in (s.lower, s.upper, s.step))
            if lo == ('c', 0):
                lo = None
            return ('sl', lo, hi) if st is None else ('sl', lo, hi, st)
        if isinstance(s, ast.Constant) and s.value is Ellipsis:
            return ('sl', None, None)
        return self.one(s, path, fn, depth)

    def one(self, e, path, fn, depth):
        r = self.ev(e, path, fn, depth)
        return r[0][0] if len(r) == 1 else UNKNOWN

    def index(self, b, key):
        """b[key], with chained indices of an array brought together"""
        if b[0] in ('tuple', 'list') and len(key) == 1 and key[0][0] == 'c' and isinstance(key[0][1], int) and -len(b[1]) <= key[0][1] < len(b[1]):
            return b[1][key[0][1]]
        if b[0] == '[]' and any(k[0] == 'sl' for k in b[2]):
            old, new, rest = list(b[2]), [], list(key)
            for k in old:
                if k[0] == 'sl' and rest:
                    x = rest.pop(0)
                    if x == ('sl', None, None):
                        new.append(k)
                    elif k == ('sl', None, None):
                        new.append(x)
                    else:
                        return ('[]', b, key)
                else:
                    new.append(k)
            return ('[]', b[1], tuple(new + rest))
        if b[0] == '[]' and b[1][0] != 'dict':
            return ('[]', b[1], b[2] + key)
        return ('[]', b, key)

    def assign(self, t, v, q, fn, depth, op, s):
        if isinstance(t, (ast.Tuple, ast.List)):
            v = self.deref(v, q)
            for i, x in enumerate(t.elts):
                self.assign(x, v[1][i] if v[0] in ('tuple', 'list') and i < len(v[1]) else self.index(v, (('c', i),)), q, fn, depth, op, s)
            return
        if isinstance(t, ast.Name):
            if op == '=':
                q.env[t.id] = v
            else:
                old = q.env.get(t.id, UNKNOWN)
                q.env[t.id] = self.binop(op, self.deref(old, q), self.deref(v, q))
            return
        if isinstance(t, ast.Attribute):
            b = self.deref(self.one(t.value, q, fn, depth), q)
            k = ('.', b, t.attr)
            old = q.attrs.get(k, k)
            new = v if op == '=' else self.binop(op, self.deref(old, q), self.deref(v, q))
            q.attrs[k] = new
            self.stores.append(Store(k, None, op, self.deref(v, q), q.trail, self.where(fn, s), fn))
            return
        if isinstance(t, ast.Subscript):
            key = self.key(t.slice, q, fn, depth)
            b = self.one(t.value, q, fn, depth)
            if b[0] == 'ref' and q.cells[b[1]][0] in ('copy', 'set', 'list', 'newlist') and op == '=':
                q.cells[b[1]] = ('set', q.cells[b[1]], self.deref(key, q), self.deref(v, q))
                return
            full = self.index(self.deref(b, q), self.deref(key, q))
            base, idx = (full[1], full[2]) if full[0] == '[]' else (self.deref(b, q), self.deref(key, q))
            self.stores.append(Store(base, idx, op, self.deref(v, q), q.trail, self.where(fn, s), fn))
            return

    def binop(self, op, a, b):
        if a[0] == 'c' and b[0] == 'c':
            try:
                x, y = a[1], b[1]
                return ('c', {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mult': lambda: x * y, 'Pow': lambda: x ** y, 'FloorDiv': lambda: x // y, 'Mod': lambda: x % y,
                              'Div': lambda: x / y}[op]())
            except (KeyError, TypeError, ZeroDivisionError):
                pass
        if op == 'MatMult':
            return ('mul', a, b)
        return ('bin', op, a, b)

    def ev(self, n, q, fn, depth):
        if isinstance(n, ast.Constant):
            return [(('c', n.value), q)]
        if isinstance(n, ast.Name):
            if n.id in q.env:
                return [(q.env[n.id], q)]
            g = self.p.resolve(fn.module, n.id)
            if g is not None and g[0] == 'const':
                c = g[1][1]
                if isinstance(c, ast.Constant):
                    return [(('c', c.value), q)]
            return [(('g', n.id), q)]
        if isinstance(n, ast.Attribute):
            out = []
            for b, r in self.ev(n.value, q, fn, depth):
                b = self.deref(b, r)
                out.append((self.attribute(b, n.attr, r), r))
            return out
        if isinstance(n, ast.Subscript):
            out = []
            for b, r in self.ev(n.value, q, fn, depth):
                out.append((self.lookup(self.index(self.deref(b, r), self.deref(self.key(n.slice, r, fn, depth), r))), r))
            return out
        if isinstance(n, ast.BinOp):
            return [(self.binop(type(n.op).__name__, self.deref(a, r2), self.deref(b, r2)), r2) for a, r in self.ev(n.left, q, fn, depth) for b, r2 in self.ev(n.right, r, fn, depth)]
        if isinstance(n, ast.UnaryOp):
            out = []
            for v, r in self.ev(n.operand, q, fn, depth):
                v = self.deref(v, r)
                if v[0] == 'c' and not isinstance(n.op, ast.Invert):
                    out.append((('c', {'USub': lambda x: -x, 'UAdd': lambda x: +x, 'Not': lambda x: not x}[type(n.op).__name__](v[1])), r))
                else:
                    out.append((('not', v) if isinstance(n.op, ast.Not) else v if isinstance(n.op, ast.UAdd) else ('neg', v), r))
            return out
        if isinstance(n, ast.BoolOp):
            outs = [((), q)]
            for x in n.values:
                outs = [(vs + (self.deref(v, r2),), r2) for vs, r in outs for v, r2 in self.ev(x, r, fn, depth)]
            return [(('and' if isinstance(n.op, ast.And) else 'or', vs), r) for vs, r in outs]
        if isinstance(n, ast.Compare):
            outs = [((), q)]
            for x in [n.left] + n.comparators:
                outs = [(vs + (self.deref(v, r2),), r2) for vs, r in outs for v, r2 in self.ev(x, r, fn, depth)]
            res = []
            for vs, r in outs:
                parts = [self.compare(type(o).__name__, vs[i], vs[i + 1]) for i, o in enumerate(n.ops)]
                res.append((parts[0] if len(parts) == 1 else ('and', tuple(parts)), r))
            return res
        if isinstance(n, ast.IfExp):
            out = []
            for v, r in self.ev(n.test, q, fn, depth):
                v = self.deref(v, r)
                t = self.fact(v)
                if t is not None:
                    out += self.ev(n.body if t else n.orelse, r, fn, depth)
                else:
                    a, b = self.one(n.body, r, fn, depth), self.one(n.orelse, r, fn, depth)
                    out.append((('ite', v, self.deref(a, r), self.deref(b, r)), r))
            return out
        if isinstance(n, (ast.Tuple, ast.List)):
            outs = [((), q)]
            for x in n.elts:
                outs = [(vs + (self.deref(v, r2),), r2) for vs, r in outs for v, r2 in self.ev(x, r, fn, depth)]
            return [(('tuple' if isinstance(n, ast.Tuple) else 'list', vs), r) for vs, r in outs]
        if isinstance(n, ast.Dict):
            outs = [((), q)]
            for k, x in zip(n.keys, n.values):
                outs = [(vs + ((self.deref(a, r3), self.deref(v, r3)),), r3) for vs, r in outs for a, r2 in self.ev(k, r, fn, depth) for v, r3 in self.ev(x, r2, fn, depth)]
            return [(('dict', vs), r) for vs, r in outs]
        if isinstance(n, (ast.ListComp, ast.GeneratorExp)):
            q2 = q.copy()
            for g in n.generators:
                it = self.one(g.iter, q2, fn, depth)
                bind = self.elements(it, q2)
                first = bind[0][0]
                self.assign(g.target, ('tuple', tuple(first)) if isinstance(first, list) else first, q2, fn, depth, '=', n)
            return [(('comp', self.deref(self.one(n.elt, q2, fn, depth), q2), tuple((self.deref(x[1], q2), self.deref(x[2], q2)) for x in bind),
                      tuple(self.deref(self.one(c, q2, fn, depth), q2) for c in g.ifs)), q)]
        if isinstance(n, ast.Call):
            return self.call(n, q, fn, depth)
        return [(UNKNOWN, q)]

    def lookup(self, t):
        if self.known is not None:
            r = self.known(t)
            if r is not None:
                return r
        return t

    def compare(self, op, a, b):
        if a[0] == 'c' and b[0] == 'c':
            try:
                return ('c', {'Eq': lambda: a[1] == b[1], 'NotEq': lambda: a[1] != b[1], 'Lt': lambda: a[1] < b[1], 'LtE': lambda: a[1] <= b[1], 'Gt': lambda: a[1] > b[1],
                              'GtE': lambda: a[1] >= b[1], 'Is': lambda: a[1] is b[1], 'IsNot': lambda: a[1] is not b[1]}[op]())
            except (KeyError, TypeError):
                return ('cmp', op, a, b)
        if op == 'NotEq':
            return ('not', ('cmp', 'Eq', a, b))
        if op in ('IsNot', 'NotIn'):
            return ('not', self.lookup(('cmp', op[:2] if op == 'IsNot' else 'In', a, b)))
        return self.lookup(('cmp', op, a, b))

    def attribute(self, b, attr, q):
        if b[0] == 'g' and b[1] == 'np' or b[0] == 'g' and b[1] == 'numpy':
            return ('g', 'np.' + attr)
        if b[0] == 'g':
            return ('g', b[1] + '.' + attr)
        if attr == 'T':
            return ('T', b)
        k = ('.', b, attr)
        if k in self.consts:
            return ('c', self.consts[k])
        if k in q.attrs:
            return q.attrs[k]
        return self.lookup(k)

    def call(self, n, q, fn, depth):
        outs = [((), q)]
        for x in n.args:
            if isinstance(x, ast.Starred):
                return [(UNKNOWN, q)]
            outs = [(vs + (v,), r2) for vs, r in outs for v, r2 in self.ev(x, r, fn, depth)]
        outs = [(vs, (), r) for vs, r in outs]
        for k in n.keywords:
            outs = [(vs, ks + ((k.arg, v),), r2) for vs, ks, r in outs for v, r2 in self.ev(k.value, r, fn, depth)]
        res = []
        for vs, ks, r in outs:
            for f, r2 in self.ev(n.func, r, fn, depth):
                res += self.apply(f, vs, ks, r2, n, fn, depth)
        return res

    def apply(self, f, vs, ks, q, n, fn, depth):
        raw = vs
        vs = tuple(self.deref(v, q) for v in vs)
        ks = tuple((k, self.deref(v, q)) for k, v in ks)
        if f[0] == 'g':
            name = f[1]
            if name not in self.atoms and '.' not in name:
                g = self.p.resolve(fn.module, name)
                if g is not None and g[0] == 'func':
                    return [(v, r) for r, v in self.inline(g[1], list(raw), dict(ks), q, depth + 1)]
            if name.count('.') == 1 and raw and raw[0] == ('p', 'self'):
                g = self.p.resolve(fn.module, name.split('.')[0])
                m = self.p.lookup(g[1], name.split('.')[1]) if g is not None and g[0] == 'class' else None
                if m is not None:
                    return [(v, r) for r, v in self.inline(m, list(raw), dict(ks), q, depth + 1)]
            leaf = name.split('.')[-1]
            if name in ('len',):
                return [(('len', vs[0]), q)]
            if name == 'bool' and len(vs) == 1:
                return [(vs[0], q)]
            if name == 'dict' and not vs and not ks:
                return [(('dict', ()), q)]
            if name in ('list',) or leaf in ('copy', 'deepcopy') and vs:
                self.fresh += 1
                q.cells[self.fresh] = ('copy', vs[0]) if vs else ('newlist',)
                return [(('ref', self.fresh), q)]
            if leaf in ('dot', 'matmul') and len(vs) == 2:
                return [(('mul', vs[0], vs[1]), q)]
            if leaf in ('conj', 'conjugate') and len(vs) == 1:
                return [(('conj', vs[0]), q)]
            if leaf == 'transpose' and len(vs) == 1:
                return [(('T', vs[0]), q)]
            if leaf in NP_SAME and vs:
                return [(vs[0], q)]
            if leaf == 'power' and len(vs) == 2:
                return [(self.binop('Pow', *vs), q)]
            if leaf in ('multiply', 'add', 'subtract') and len(vs) == 2 and name.startswith('np.'):
                return [(self.binop({'multiply': 'Mult', 'add': 'Add', 'subtract': 'Sub'}[leaf], *vs), q)]
            if leaf in ('hstack', 'concatenate') and name.startswith('np.'):
                axis = dict(ks).get('axis', vs[1] if len(vs) > 1 else ('c', 0))
                if leaf == 'hstack' or axis in (('c', 1), ('c', -1)):
                    return [(('hcat', vs[0]), q)]
            self.calls.append((name, vs, ks, q.trail, self.where(fn, n)))
            return [(self.lookup(('call', name, vs, ks)), q)]
        if f[0] == '.':
            b, name = f[1], f[2]
            if b[0] == 'call' and b[1] == 'super' and self.cls is not None and fn.cls is not None:
                mro = self.p.mro(self.cls)
                rest = mro[[c is fn.cls for c in mro].index(True) + 1:] if any(c is fn.cls for c in mro) else []
                for c in rest:
                    if name in c.methods:
                        return [(v, r) for r, v in self.inline(c.methods[name], [('p', 'self')] + list(raw), dict(ks), q, depth + 1)]
            if b == ('p', 'self') and self.cls is not None and name not in self.atoms:
                m = self.p.lookup(self.cls, name)
                if m is not None:
                    return [(v, r) for r, v in self.inline(m, [b] + list(raw), dict(ks), q, depth + 1)]
            if name in ('conj', 'conjugate') and not vs:
                return [(('conj', b), q)]
            if name == 'transpose' and not vs:
                return [(('T', b), q)]
            if name == 'dot' and len(vs) == 1:
                return [(('mul', b, vs[0]), q)]
            if name == 'copy' and not vs:
                self.fresh += 1
                q.cells[self.fresh] = ('copy', b)
                return [(('ref', self.fresh), q)]
            if name == 'update' and len(vs) == 1 and vs[0][0] == 'dict':
                for k, v in vs[0][1]:
                    self.stores.append(Store(b, (k,), '=', v, q.trail, self.where(fn, n), fn))
                return [(('c', None), q)]
            self.calls.append((('.', b, name), vs, ks, q.trail, self.where(fn, n)))
            return [(self.lookup(('call', ('.', b, name), vs, ks)), q)]
        return [(UNKNOWN, q)]


# ---------------------------------------------------------------------------------------------------- words of matrices
def word(t, adj=0):
    """a product of matrices as a list of (atom, conjugated, transposed); None if it is not one"""
    # adj: 0 plain, 1 conj, 2 transposed, 3 both
    if t[0] == 'mul':
        a, b = word(t[1], adj), word(t[2], adj)
        if a is None or b is None:
            return None
        return b + a if adj & 2 else a + b
    if t[0] == 'conj':
        return word(t[1], adj ^ 1)
    if t[0] == 'T':
        return word(t[1], adj ^ 2)
    if t[0] in ('copy',):
        return word(t[1], adj)
    return [(t, bool(adj & 1), bool(adj & 2))]
