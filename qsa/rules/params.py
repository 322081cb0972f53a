"""C14: add and change keep dictionary, array and many-body representation in step.

The methods are interpreted for one arbitrary parameter: every dictionary is abstracted to the value it holds for that parameter (absent or a linear form
in the old and the given value), every many-body matrix to the amounts added to it. Undecided conditions are followed both ways."""
import ast
import re
from ..frontend import AnchorMissing


class Unk(Exception):
    pass


class Lin(object):
    """linear form in the symbols"""
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = tuple(sorted((k, v) for k, v in dict(c).items() if v))

    def plus(self, o, s=1):
        d = dict(self.c)
        for k, v in o.c:
            d[k] = d.get(k, 0) + s * v
        return Lin(d)

    def scale(self, k):
        return Lin({a: b * k for a, b in self.c})

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c

    def __hash__(self):
        return hash(self.c)

    def __repr__(self):
        return ' '.join('%+g*%s' % (v, k) for k, v in self.c) or '0'


ZERO = Lin({})


class Key(object):
    """the arbitrary parameter"""
    def __repr__(self):
        return 'KEY'


KEY = Key()


class Part(object):
    """one label of the key; n of them together are the key"""
    def __init__(self, i):
        self.i = i

    def __eq__(self, o):
        return isinstance(o, Part) and self.i == o.i

    def __hash__(self):
        return hash(('part', self.i))


class LoopVar(object):
    def __init__(self, n, rng):
        self.n, self.rng = n, rng

    def __repr__(self):
        return 'i%d' % self.n


class D(object):
    def __init__(self, content=None, label=''):
        self.content, self.label = content, label


class Rows(object):
    """list or array of rows (labels.., value)"""
    def __init__(self, v, label, kind):
        self.v, self.label, self.kind = v, label, kind


class Arr(object):
    """array with one entry per parameter"""
    def __init__(self, v, label):
        self.v, self.label = v, label


class Row(object):
    def __init__(self, v):
        self.v = v


class Mat(object):
    """a many-body matrix: what it started from, and the amounts added to it"""
    def __init__(self, base, added=()):
        self.base, self.added = base, tuple(added)


class Objt(object):
    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields


class T(object):
    """uninterpreted"""
    __slots__ = ('t',)

    def __init__(self, *t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, T) and self.t == o.t

    def __hash__(self):
        return hash(('T', str(self.t)))

    def __repr__(self):
        return '(%s)' % ' '.join(map(str, self.t))


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Cont(Exception):
    pass


class Brk(Exception):
    pass


class Dead(Exception):
    """this choice cannot happen"""


BUILD = {'construct_ham_coulomb': 'coulomb', 'construct_ham_hopping': 'hsingle', 'construct_Tba': 'tleads', 'elph_construct_Vbbp': 'velph'}


class Run(object):
    def __init__(self, proj, choices):
        self.p, self.choices, self.pos = proj, choices, 0
        self.taken = []
        self.zero = []              # forms assumed to be zero
        self.nonzero = []
        self.loops = []
        self.blocks = []            # (loops, place, builder, states)
        self.nvar = 0
        self.conds = []
        self.visited = set()
        self.depth = 0

    # ------------------------------------------------------------- choices
    def choose(self, tag):
        if self.pos < len(self.choices):
            r = self.choices[self.pos]
        else:
            r = True
            self.choices.append(True)
        self.pos += 1
        self.conds.append((tag, r))
        return r

    def reduce(self, f):
        """modulo the forms assumed to be zero"""
        for z in self.zero:
            if z.c:
                k, v = z.c[-1]
                d = dict(f.c)
                if k in d:
                    f = f.plus(z.scale(d[k] / v), -1)
        return f

    def is_zero(self, f):
        f = self.reduce(f)
        if not f.c:
            return True
        if any(g == f or g == f.scale(-1) for g in self.nonzero):
            return False
        if self.choose('%r != 0' % (f,)):
            self.nonzero.append(f)
            return False
        self.zero.append(f)
        return True

    def truth(self, v):
        if v is None or isinstance(v, (bool, int, float, str, tuple, list)):
            return bool(v)
        if isinstance(v, D):
            return v.content is not None or self.choose('other parameters given')
        if isinstance(v, Lin):
            return not self.is_zero(v)
        if isinstance(v, (Objt, Mat)):
            return True
        for t, r in self.conds:
            if t == v:
                return r
        return self.choose(v)

    # ------------------------------------------------------------- calls
    def call_fn(self, fn, args, kw, owner=None):
        self.visited.add(fn)
        if self.depth > 12:
            raise Unk('recursion')
        env = dict(zip(fn.args, args))
        env.update(kw)
        a = fn.node.args
        for d, x in list(zip(a.defaults[::-1], [y.arg for y in a.args][::-1])) + list(zip(a.kw_defaults, [y.arg for y in a.kwonlyargs])):
            if x not in env and d is not None:
                env[x] = self.ev(d, {}, fn)
        missing = [x for x in fn.args if x not in env]
        if missing:
            raise Unk('argument %s of %s' % (missing[0], fn.qualname))
        self.depth += 1
        try:
            self.block(fn.node.body, env, fn)
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1
        return None

    # ------------------------------------------------------------- statements
    def block(self, body, env, fn):
        for s in body:
            self.stmt(s, env, fn)

    def stmt(self, s, env, fn):
        self.at = '%s:%d' % (fn.module.relpath, getattr(s, 'lineno', 0))
        if isinstance(s, ast.Expr):
            self.ev(s.value, env, fn)
        elif isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                return
            v = self.ev(s.value, env, fn)
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                self.assign(t, v, env, fn)
        elif isinstance(s, ast.AugAssign):
            old = self.ev(s.target, env, fn)
            v = self.ev(s.value, env, fn)
            self.assign(s.target, self.binop(type(s.op).__name__, old, v), env, fn)
        elif isinstance(s, ast.If):
            self.block(s.body if self.truth(self.ev(s.test, env, fn)) else s.orelse, env, fn)
        elif isinstance(s, ast.For):
            self.loop(s.target, self.ev(s.iter, env, fn), lambda: self.block(s.body, env, fn), env, fn)
        elif isinstance(s, ast.Return):
            raise Ret(self.ev(s.value, env, fn) if s.value is not None else None)
        elif isinstance(s, ast.Continue):
            raise Cont()
        elif isinstance(s, ast.Break):
            raise Brk()
        elif isinstance(s, ast.Raise):
            raise Dead()
        elif isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Assert)):
            pass
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    b, k = self.ev(t.value, env, fn), self.ev(t.slice, env, fn)
                    if isinstance(b, D) and self.iskey(k):
                        b.content = None
                        continue
                raise Unk('del')
        elif isinstance(s, ast.Try):
            self.block(s.body + s.orelse + s.finalbody, env, fn)
        else:
            raise Unk(type(s).__name__)

    def loop(self, target, it, run, env, fn):
        elems = self.elements(it)
        for e, ctx in elems:
            if ctx is not None:
                self.loops.append(ctx)
            try:
                self.assign(target, e, env, fn)
                run()
            except Cont:
                pass
            except Brk:
                break
            finally:
                if ctx is not None:
                    self.loops.pop()

    def elements(self, it):
        if isinstance(it, D):
            return [(KEY, None)] if it.content is not None else []
        if isinstance(it, (tuple, list)):
            return [(x, None) for x in it]
        if isinstance(it, Rows):
            return [(Row(it.v), None)]
        if isinstance(it, T) and it.t[0] == 'items':
            d = it.t[1]
            return [((KEY, d.content), None)] if d.content is not None else []
        if isinstance(it, T) and it.t[0] == 'values':
            d = it.t[1]
            return [(d.content, None)] if d.content is not None else []
        if isinstance(it, T) and it.t[0] == 'product':
            out = [((), None)]
            vs, ctx = [], []
            for x in it.t[1]:
                self.nvar += 1
                vs.append(LoopVar(self.nvar, x))
            return [(tuple(vs), ('product', tuple(map(str, it.t[1]))))]
        if isinstance(it, T):
            self.nvar += 1
            return [(LoopVar(self.nvar, it), ('loop', str(it)))]
        raise Unk('loop')

    def iskey(self, k):
        if k is KEY:
            return True
        if isinstance(k, tuple) and k and all(isinstance(x, Part) for x in k) and [x.i for x in k] == list(range(len(k))):
            return True
        return isinstance(k, tuple) and k and all(isinstance(x, LoopVar) for x in k) and [x.n for x in k] == sorted(x.n for x in k)

    def assign(self, t, v, env, fn):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            if v is KEY:
                vals = [Part(i) for i in range(n)]
            elif isinstance(v, Row):
                vals = [Part(i) for i in range(n - 1)] + [v.v]
            elif isinstance(v, (tuple, list)) and len(v) == n:
                vals = v
            elif isinstance(v, T):
                vals = [T('item', v, i) for i in range(n)]
            else:
                raise Unk('unpacking')
            for x, y in zip(t.elts, vals):
                self.assign(x, y, env, fn)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env, fn)
            if not isinstance(b, Objt):
                raise Unk('attribute of %r' % (b,))
            b.fields[t.attr] = v
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env, fn)
            if isinstance(t.slice, ast.Slice) and t.slice.lower is None and t.slice.upper is None:
                # whole array
                if isinstance(t.value, ast.Attribute):
                    o = self.ev(t.value.value, env, fn)
                    if isinstance(o, Objt):
                        o.fields[t.value.attr] = v
                        return
                raise Unk('slice store')
            k = self.ev(t.slice, env, fn)
            if isinstance(b, D):
                if not self.iskey(k):
                    raise Unk('store to another parameter')
                if not isinstance(v, Lin):
                    raise Unk('value %r' % (v,))
                b.content = v
                return
            if isinstance(b, T):
                place = str(T('[]', b, k))
                if isinstance(v, Mat):
                    self.fields_mat[place] = v
                    for a in v.added:
                        if a[0] == 'pending':
                            pass
                    return
                if isinstance(b, T) and isinstance(v, (T, type(None))):
                    return
            raise Unk('store')
        else:
            raise Unk('target')

    # ------------------------------------------------------------- expressions
    def binop(self, op, a, b):
        if isinstance(a, Lin) and isinstance(b, Lin):
            if op == 'Add':
                return a.plus(b)
            if op == 'Sub':
                return a.plus(b, -1)
        if isinstance(a, Lin) and isinstance(b, (int, float)) and not isinstance(b, bool):
            if op in ('Add', 'Sub') and b == 0:
                return a
            if op == 'Mult':
                return a.scale(b)
        if isinstance(b, Lin) and isinstance(a, (int, float)) and not isinstance(a, bool):
            if op == 'Add' and a == 0:
                return b
            if op == 'Sub' and a == 0:
                return b.scale(-1)
            if op == 'Mult':
                return b.scale(a)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {'Add': a + b, 'Sub': a - b, 'Mult': a * b}.get(op, T(op, a, b))
        if isinstance(a, (Lin, D)) or isinstance(b, (Lin, D)):
            raise Unk('operator %s' % op)
        return T(op, a, b)

    def ev(self, n, env, fn):
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.Name):
            if n.id in env:
                return env[n.id]
            return T('g', n.id)
        if isinstance(n, ast.Attribute):
            b = self.ev(n.value, env, fn)
            if isinstance(b, Objt):
                if n.attr in b.fields:
                    return b.fields[n.attr]
                m = self.p.lookup(b.cls, n.attr) if b.cls is not None else None
                if m is not None:
                    return ('bound', b, m)
                return T('.', 'self', n.attr)
            if isinstance(b, T):
                if b.t == ('si',) and n.attr in self.si:
                    return self.si[n.attr]
                return T('.', b, n.attr)
            if isinstance(b, (Rows, Arr)) and n.attr in ('shape', 'size', 'ndim'):
                return T(n.attr, b.label)
            if isinstance(b, (D, Rows, Arr, Lin, Mat)):
                return ('meth', b, n.attr)
            return T('.', str(b), n.attr)
        if isinstance(n, ast.Subscript):
            b = self.ev(n.value, env, fn)
            if isinstance(n.slice, ast.Slice):
                return T('slice', b if not isinstance(b, (D,)) else 'dict', ast.unparse(n.slice))
            k = self.ev(n.slice, env, fn)
            if isinstance(b, D):
                if not self.iskey(k):
                    raise Unk('another parameter')
                if b.content is None:
                    raise Dead()
                return b.content
            if isinstance(b, Arr) and self.iskey(k if isinstance(k, tuple) else (k,)):
                return b.v
            if isinstance(b, (tuple, list)) and isinstance(k, int):
                return b[k]
            if b is KEY and isinstance(k, int) and k >= 0:
                return Part(k)
            if isinstance(b, Row):
                if isinstance(k, int) and k == -1:
                    return b.v
                raise Unk('row')
            if isinstance(b, T):
                place = str(T('[]', b, k))
                return self.fields_mat.get(place, T('[]', b, k))
            raise Unk('item of %s' % type(b).__name__)
        if isinstance(n, ast.BinOp):
            return self.binop(type(n.op).__name__, self.ev(n.left, env, fn), self.ev(n.right, env, fn))
        if isinstance(n, ast.UnaryOp):
            v = self.ev(n.operand, env, fn)
            if isinstance(n.op, ast.Not):
                return not self.truth(v)
            if isinstance(n.op, ast.USub):
                return v.scale(-1) if isinstance(v, Lin) else -v if isinstance(v, (int, float)) else T('neg', v)
            return v
        if isinstance(n, ast.BoolOp):
            v = None
            for x in n.values:
                v = self.ev(x, env, fn)
                t = self.truth(v)
                if t == isinstance(n.op, ast.Or):
                    return v
            return v
        if isinstance(n, ast.Compare):
            left = self.ev(n.left, env, fn)
            for o, r in zip(n.ops, n.comparators):
                right = self.ev(r, env, fn)
                if not self.compare(type(o).__name__, left, right):
                    return False
                left = right
            return True
        if isinstance(n, ast.IfExp):
            return self.ev(n.body if self.truth(self.ev(n.test, env, fn)) else n.orelse, env, fn)
        if isinstance(n, ast.Tuple):
            return tuple(self.ev(x, env, fn) for x in n.elts)
        if isinstance(n, ast.List):
            return [self.ev(x, env, fn) for x in n.elts]
        if isinstance(n, ast.Dict):
            d = D()
            for k, v in zip(n.keys, n.values):
                v = self.ev(v, env, fn)
                if k is None:
                    if isinstance(v, D):
                        d.content = v.content if v.content is not None else d.content
                        continue
                    raise Unk('dict')
                if not self.iskey(self.ev(k, env, fn)) or not isinstance(v, Lin):
                    raise Unk('dict')
                d.content = v
            return d
        if isinstance(n, ast.DictComp):
            d = D()
            e = dict(env)

            def gen(i):
                if i == len(n.generators):
                    if not self.iskey(self.ev(n.key, e, fn)):
                        raise Unk('dict key')
                    d.content = self.ev(n.value, e, fn)
                    return
                g = n.generators[i]

                def body():
                    if all(self.truth(self.ev(c, e, fn)) for c in g.ifs):
                        gen(i + 1)
                self.loop(g.target, self.ev(g.iter, e, fn), body, e, fn)
            gen(0)
            return d
        if isinstance(n, (ast.ListComp, ast.GeneratorExp)):
            out = []
            e = dict(env)

            def gen(i):
                if i == len(n.generators):
                    out.append(self.ev(n.elt, e, fn))
                    return
                g = n.generators[i]

                def body():
                    if all(self.truth(self.ev(c, e, fn)) for c in g.ifs):
                        gen(i + 1)
                self.loop(g.target, self.ev(g.iter, e, fn), body, e, fn)
            gen(0)
            return out
        if isinstance(n, ast.Call):
            return self.call(n, env, fn)
        raise Unk(type(n).__name__)

    def compare(self, op, a, b):
        if op in ('In', 'NotIn'):
            if isinstance(b, D) and self.iskey(a):
                return (b.content is not None) == (op == 'In')
            if isinstance(b, T) and b.t[0] == 'keys':
                return (b.t[1].content is not None) == (op == 'In')
            if isinstance(b, (tuple, list)) and all(isinstance(x, (str, int, type(None))) for x in b) and isinstance(a, (str, int, type(None), bool)):
                return (a in b) == (op == 'In')
            return self.truth(T('In', a, b)) == (op == 'In')
        if op in ('Is', 'IsNot', 'Eq', 'NotEq') and (a is None or b is None):
            same = a is None and b is None
            if not same and (isinstance(a, T) and a.t[0] != 'g' and b is None):
                same = self.truth(T('isnone', a))
            return same == (op in ('Is', 'Eq'))
        if isinstance(a, Lin) or isinstance(b, Lin):
            x = a if isinstance(a, Lin) else ZERO if a == 0 else None
            y = b if isinstance(b, Lin) else ZERO if b == 0 else None
            if x is not None and y is not None and op in ('Eq', 'NotEq', 'Is', 'IsNot'):
                return self.is_zero(x.plus(y, -1)) == (op in ('Eq', 'Is'))
            return self.truth(T(op, a, b))
        if all(isinstance(x, (int, float, str, bool)) for x in (a, b)):
            return {'Eq': lambda: a == b, 'NotEq': lambda: a != b, 'Lt': lambda: a < b, 'LtE': lambda: a <= b, 'Gt': lambda: a > b, 'GtE': lambda: a >= b, 'Is': lambda: a == b,
                    'IsNot': lambda: a != b}[op]()
        if op == 'NotEq':
            return not self.truth(T('Eq', a, b))
        return self.truth(T(op, a, b))

    def call(self, n, env, fn):
        f = self.ev(n.func, env, fn)
        args = []
        for x in n.args:
            if isinstance(x, ast.Starred):
                raise Unk('starred')
            args.append(self.ev(x, env, fn))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                raise Unk('keywords')
            kw[k.arg] = self.ev(k.value, env, fn)
        where = '%s:%d' % (fn.module.relpath, n.lineno)
        if isinstance(f, tuple) and f and f[0] == 'bound':
            return self.call_fn(f[2], [f[1]] + args, kw)
        if isinstance(f, tuple) and f and f[0] == 'meth':
            return self.method(f[1], f[2], args, kw)
        if isinstance(f, T) and f.t[0] == 'g':
            name = f.t[1]
            g = self.p.resolve(fn.module, name)
            if g is not None and g[0] == 'func':
                if name in BUILD:
                    return self.build(name, g[1], args, kw, where)
                if name in ('make_array', 'make_array_dlst', 'make_tleads_array') or name.startswith('empty_'):
                    return self.opaque(name, g[1], args, kw)
                if name.startswith('make_') or any(isinstance(x, (D, Rows, Arr, Objt)) for x in list(args) + list(kw.values())):
                    return self.call_fn(g[1], args, kw)
                return T('call', name, tuple(args), tuple(sorted(kw.items())))
            if name == 'isinstance' and len(args) == 2:
                return self.isinst(args[0], args[1])
            if name in ('dict',):
                if not args and not kw:
                    return D()
                if len(args) == 1 and isinstance(args[0], D):
                    return D(args[0].content)
                if len(args) == 1 and isinstance(args[0], list):
                    d = D()
                    for x in args[0]:
                        if isinstance(x, tuple) and len(x) == 2 and self.iskey(x[0]):
                            d.content = x[1]
                        else:
                            raise Unk('dict')
                    return d
                raise Unk('dict')
            if name in ('list', 'tuple', 'sorted', 'set', 'iter') and len(args) == 1:
                return args[0]
            if name == 'range':
                return T('range', tuple(args))
            if name in ('len', 'bool', 'int', 'float') and len(args) == 1 and not isinstance(args[0], (D, Rows)):
                return T(name, args[0])
            return T('call', name, tuple(map(str, args)))
        if isinstance(f, T) and f.t[0] == '.':
            leaf = f.t[2]
            if leaf in ('copy', 'deepcopy') and len(args) == 1 and isinstance(args[0], D):
                return D(args[0].content)
            if leaf == 'product':
                return T('product', tuple(args))
            if leaf == 'array' and len(args) >= 1:
                return args[0]
            return T('call', f, tuple(map(str, args)), tuple(sorted((k, str(v)) for k, v in kw.items())))
        raise Unk('call')

    def bind(self, fn, args, kw):
        b = dict(zip(fn.args, args))
        b.update(kw)
        a = fn.node.args
        for d, x in zip(a.defaults[::-1], [y.arg for y in a.args][::-1]):
            if x not in b:
                b[x] = self.ev(d, {}, fn)
        return b

    def opaque(self, name, fn, args, kw):
        b = self.bind(fn, args, kw)
        out = []
        for x in fn.args:
            v = b.get(x)
            if isinstance(v, D):
                v = v.content if v.content is not None else ZERO
            elif isinstance(v, Given):
                v = v.name
            out.append((x, v))
        return T(name, tuple(out))

    def build(self, name, fn, args, kw, where):
        b = self.bind(fn, args, kw)
        obj, d, old = b[fn.args[0]], b[fn.args[1]], b[fn.args[-1]]
        states = b[fn.args[2]] if len(fn.args) > 3 else None
        if not isinstance(d, D):
            raise Unk('parameters of %s' % name)
        amount = d.content if d.content is not None else ZERO
        if not isinstance(obj, Objt):
            raise Unk('first argument of %s' % name)
        if isinstance(old, Mat):
            m = Mat(old.base, old.added + ((BUILD[name], amount, str(states), where),))
        else:
            m = Mat('new' if old is None else str(old), ((BUILD[name], amount, str(states), where),))
        self.blocks.append((tuple(self.loops), BUILD[name], str(states), m.base, where))
        return m

    def method(self, o, name, args, kw):
        if isinstance(o, Lin):
            if name in ('conjugate', 'conj'):
                raise Unk('conjugate')
        if isinstance(o, D):
            if name == 'update':
                for x in args:
                    if isinstance(x, D):
                        if x.content is not None:
                            o.content = x.content
                    else:
                        raise Unk('update')
                return None
            if name in ('keys',):
                return o
            if name in ('items', 'values'):
                return T(name, o)
            if name == 'copy':
                return D(o.content)
            if name in ('get', 'setdefault', 'pop'):
                if not self.iskey(args[0]):
                    raise Unk('another parameter')
                if o.content is not None:
                    v = o.content
                    if name == 'pop':
                        o.content = None
                    return v
                d = args[1] if len(args) > 1 else None
                if isinstance(d, (int, float)) and d == 0:
                    d = ZERO
                if name == 'setdefault':
                    o.content = d
                if d is None and name == 'pop':
                    raise Dead()
                return d
        if isinstance(o, Rows) and name == 'append':
            raise Unk('append')
        raise Unk('method %s' % name)

    def isinst(self, v, c):
        names = [str(x.t[-1]) for x in (c if isinstance(c, (tuple, list)) else [c]) if isinstance(x, T)]
        if isinstance(v, D):
            return 'dict' in names
        if isinstance(v, Rows):
            return v.kind in names
        if isinstance(v, Arr):
            return 'ndarray' in names
        if v is None:
            return False
        return self.truth(T('isinstance', v, tuple(names)))


class Given(object):
    """lead or bath parameters: list, dict or number, kept opaque"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'given ' + self.name


Run.fields_mat = None
Run.si = {}


PARTS = {'qd': ('qmeq.qdot', 'QuantumDot', {'hsingle': ('hamlst', 2), 'coulomb': ('hamlst', 4)}, ()),
         'leads': ('qmeq.leadstun', 'LeadsTunneling', {'tleads': ('Tba0', 2)}, ('mulst', 'tlst', 'dlst')),
         'baths': ('qmeq.baths', 'PhononBaths', {'velph': ('Vbbp0', 3)}, ('tlst_ph', 'dlst_ph'))}


def given_param(name, kind):
    v = Lin({'v.' + name: 1})
    if kind == 'dict':
        return D(v, name)
    if kind == 'list':
        return Rows(v, name, 'list')
    if kind == 'rows':
        return Rows(v, name, 'ndarray')
    return Arr(v, name)


def scenarios(part):
    mod, cls, dicts, lists = PARTS[part]
    for name in dicts:
        for kind in ('dict', 'list', 'array'):
            if name == 'coulomb' and kind == 'array':
                kind = 'rows'
            for present in (True, False):
                yield {'dict': name, 'kind': kind, 'present': present}
    for name in lists:
        yield {'list': name}


def run_all(proj, make):
    """every combination of the undecided conditions"""
    choices, n = [], 0
    while True:
        r = Run(proj, choices)
        r.fields_mat = {}
        try:
            end = make(r)
            yield r, end
        except Dead:
            pass
        n += 1
        if n > 400:
            raise Unk('too many combinations')
        choices = choices[:r.pos]
        while choices and not choices[-1]:
            choices.pop()
        if not choices:
            return
        choices[-1] = False


def c14(rep, proj, tier):
    for part in PARTS:
        for m in ('add', 'change'):
            rep.guarded('%s.%s' % (part, m), method_rule, rep, proj, part, m)
        rep.guarded('%s constructor' % part, fresh_rule, rep, proj, part)
    for mod, cname in (('qmeq.builder.builder', 'Builder'), ('qmeq.builder.builder_elph', 'BuilderElPh'), ('qmeq.builder.builder', 'BuilderManyBody'),
                       ('qmeq.builder.builder_elph', 'BuilderManyBodyElPh')):
        for m in ('add', 'change'):
            rep.guarded('%s.%s' % (cname, m), passes, rep, proj, mod, cname, m)
    rep.guarded('array from tleads', tleads_array, rep, proj)
    rep.guarded('lead and bath arrays', convert_rule, rep, proj)


def cls_of(proj, mod, name):
    m = proj.modules.get(mod)
    c = m.classes.get(name) if m is not None else None
    if c is None:
        raise AnchorMissing('%s.%s' % (mod, name))
    return c


def indexings(part):
    return ('Lin', 'charge', 'sz', 'ssq') if part == 'qd' else ('charge',)


def prepare(r, proj, part, sc, indexing, init=False):
    mod, cname, dicts, lists = PARTS[part]
    cls = cls_of(proj, mod, cname)
    r.si = {'indexing': indexing, 'symmetry': None}
    f = {'si': T('si',), 'mtype': T('mtype')}
    for n in dicts:
        here = sc.get('present') if sc.get('dict') == n else False
        f[n] = D(Lin({'o.' + n: 1}) if here else None, n)
        f[dicts[n][0]] = T('field', dicts[n][0]) if part == 'qd' else Mat('old ' + dicts[n][0])
    for n in lists:
        f[n] = T('old', n)
    if part == 'qd':
        f.update({'herm_hs': T('herm_hs'), 'herm_c': T('herm_c'), 'm_less_n': T('m_less_n'), 'ham_ssq_q': T('ham_ssq_q')})
    if part == 'leads':
        f['tleads_array'] = T('make_tleads_array', (('tleads', f['tleads'].content or ZERO),))
    return Objt(cls, f)


def call_args(fn, sc):
    """arguments of add and change by the names of the parameters"""
    out = {}
    if 'dict' in sc:
        out[sc['dict']] = given_param(sc['dict'], sc['kind'])
    else:
        out[sc['list']] = Given(sc['list'])
    miss = [n for n in out if n not in fn.args]
    if miss:
        raise AnchorMissing('%s has no parameter %s' % (fn.qualname, miss[0]))
    return out


def total(mat, kind):
    s = ZERO
    for k, amount, states, where in mat.added:
        if k == kind:
            s = s.plus(amount)
    return s


def describe(sc, indexing, part):
    if 'list' in sc:
        return sc['list']
    return '%s given as %s, %s before%s' % (sc['dict'], 'array' if sc['kind'] in ('rows', 'array') else sc['kind'], 'present' if sc['present'] else 'absent',
                                            ', indexing %s' % indexing if part == 'qd' else '')


def method_rule(rep, proj, part, mname):
    mod, cname, dicts, lists = PARTS[part]
    cls = cls_of(proj, mod, cname)
    fn = proj.lookup(cls, mname)
    if fn is None:
        raise AnchorMissing('%s.%s' % (cname, mname))
    n = 0
    ref = tails(proj, part)
    if lists and not ref:
        rep.unknown('%s constructor' % cname, 'settings of the arrays not recognised')
    for sc in scenarios(part):
        for indexing in indexings(part):
            what = '%s.%s %s' % (cname, mname, describe(sc, indexing, part))
            bad = []
            try:
                def make(r):
                    o = prepare(r, proj, part, sc, indexing)
                    r.call_fn(fn, [o], call_args(fn, sc))
                    return o
                for r, o in run_all(proj, make):
                    n += 1
                    rep.name('%s:%s' % (g.module.relpath, g.qualname) for g in r.visited)
                    r.tails = ref
                    bad += judge(r, o, part, mname, sc)
                    if part == 'qd':
                        bad += block_rule(r)
            except Unk as ex:
                rep.unknown(what, 'not evaluated: %s at %s' % (ex, getattr(r0(locals()), 'at', '')))
                continue
            if bad:
                k, why, at = bad[0]
                rep.finding('%s.%s/%s/%s' % (cname, mname, sc.get('dict') or sc['list'], k), '%s: %s' % (what, why), [fn.where()] if at is fn or at is None else [at], '')
            else:
                rep.ok(what, '')
    rep.count('paths', n)


def r0(loc):
    return loc.get('r')


STATES = re.compile(r"^\(call \(\. \(si\) get_lst\) \('(\w+)'(?:,|, '(.+)')\) \(\)\)$")
PLACE1 = re.compile(r"^\(\[\] \(field hamlst\) (\w+)\)$")
PLACE2 = re.compile(r"^\(\[\] \(\[\] \(field hamlst\) (\w+)\) \(call sz_to_ind \((.+), (\w+), \(\. \(si\) nsingle\)\) \(\)\)\)$")
CHARGES = '(range ((. (si) ncharge),))'
FEWER = re.compile(r"^\(range \(\(Sub \(\. \(si\) ncharge\) \d+\),\)\)$|^\(range \([1-9]\d*, \(\. \(si\) ncharge\)\)\)$")


def block_rule(r):
    """every block is computed with its own states, for all charges"""
    bad = []
    for loops, kind, states, place, where in r.blocks:
        a, b, c = STATES.match(states), PLACE1.match(place), PLACE2.match(place)
        if a is None or b is None and c is None:
            raise Unk('block %s with states %s' % (place, states))
        charge, sz = a.group(1), a.group(2)
        if b is not None and (b.group(1) != charge or sz is not None):
            bad.append(('blocks', 'the block %s is computed with the states of another one' % place, where))
        if c is not None and (c.group(1) != charge or c.group(3) != charge or c.group(2) != sz):
            bad.append(('blocks', 'the block %s is computed with the states of another one' % place, where))
        over = [x for x in loops if x[0] == 'loop' and x[1] == CHARGES or x[0] == 'product' and CHARGES in x[1]]
        if not over:
            if any(x[0] == 'loop' and FEWER.match(x[1]) for x in loops):
                bad.append(('charges', 'the blocks of some charges are left out', where))
            else:
                raise Unk('loop over charges')
    return bad


def judge(r, o, part, mname, sc):
    mod, cname, dicts, lists = PARTS[part]
    bad = []
    if 'list' in sc:
        for name in lists:
            now = o.fields[name]
            if name != sc['list']:
                if now != T('old', name):
                    bad.append((name, '%s is changed as well' % name, None))
                continue
            want_fn = 'make_array_dlst' if name.startswith('dlst') else 'make_array'
            if mname == 'add':
                ok = isinstance(now, T) and now.t[0] == 'Add' and now.t[1] == T('old', name) and isinstance(now.t[2], T) and now.t[2].t[0] == want_fn
                inner = now.t[2] if ok else None
                first = None
            else:
                ok = isinstance(now, T) and now.t[0] == want_fn
                inner, first = now if ok else None, T('old', name)
            if now == T('old', name):
                bad.append((name, '%s is not updated' % name, None))
            elif not ok:
                raise Unk('%s becomes %r' % (name, now))
            else:
                a = inner.t[1]
                ref = getattr(r, 'tails', {}).get(name)
                if ref is not None and ref != a[2:]:
                    bad.append((name, 'the new %s is made with other settings (%r) than in the constructor (%r)' % (name, a[2:], ref), None))
                if a[0][1] != first and not (mname == 'add' and a[0][1] is None):
                    bad.append((name, 'the new %s starts from %r' % (name, a[0][1]), None))
                if a[1][1] != name:
                    bad.append((name, 'the new %s is made of %r' % (name, a[1][1]), None))
        for name in dicts:
            if o.fields[name].content is not None:
                bad.append((name, '%s changes' % name, None))
        return bad
    name = sc['dict']
    v = Lin({'v.' + name: 1})
    old = Lin({'o.' + name: 1}) if sc['present'] else ZERO
    new = old.plus(v) if mname == 'add' else v
    got = o.fields[name].content or ZERO
    if r.reduce(got.plus(new, -1)).c:
        bad.append(('dict', 'the dictionary holds %r instead of %r' % (r.reduce(got), r.reduce(new)), None))
    delta = new.plus(old, -1)
    field = dicts[name][0]
    if part == 'qd':
        blocks = r.fields_mat
        if not blocks and r.reduce(delta).c:
            bad.append(('matrix', 'the many-body matrix is not updated', None))
        for place, m in blocks.items():
            amt = total(m, name)
            if r.reduce(amt.plus(delta, -1)).c:
                bad.append(('matrix', 'the block %s of the many-body matrix changes by %r instead of %r' % (place, r.reduce(amt), r.reduce(delta)), m.added[-1][3] if m.added else None))
            if m.base != place:
                bad.append(('matrix', 'the block %s is computed from %s' % (place, m.base), m.added[-1][3]))
            for other in dicts:
                if other != name and r.reduce(total(m, other)).c:
                    bad.append(('matrix', 'parameters of %s are added' % other, m.added[-1][3]))
    else:
        m = o.fields[field]
        if not isinstance(m, Mat):
            raise Unk('%s becomes %r' % (field, m))
        amt = total(m, name)
        if m.base == 'new':
            amt = amt.plus(old, -1)
        elif m.base != 'old ' + field:
            raise Unk('%s becomes %r' % (field, m.base))
        if r.reduce(amt.plus(delta, -1)).c:
            bad.append(('matrix', 'the many-body matrix changes by %r instead of %r' % (r.reduce(amt), r.reduce(delta)), m.added[-1][3] if m.added else None))
    for other in dicts:
        if other != name and o.fields[other].content is not None:
            bad.append((other, '%s changes as well' % other, None))
    for other in lists:
        if o.fields[other] != T('old', other):
            bad.append((other, '%s changes as well' % other, None))
    if part == 'leads':
        a = o.fields['tleads_array']
        if not isinstance(a, T) or a.t[0] != 'make_tleads_array':
            raise Unk('tleads_array')
        x = dict(a.t[1]).get('tleads')
        if not isinstance(x, Lin) or r.reduce(x.plus(got, -1)).c:
            bad.append(('array', 'tleads_array holds %r while the dictionary holds %r' % (x, got), None))
    return bad


def constructor(proj, part, r):
    mod, cname, dicts, lists = PARTS[part]
    cls = cls_of(proj, mod, cname)
    fn = proj.lookup(cls, '__init__')
    kw = {}
    for x in fn.args[1:]:
        if x in dicts:
            kw[x] = given_param(x, 'dict')
        elif x in lists:
            kw[x] = Given(x)
        elif x == 'si':
            kw[x] = Objt(None, dict(r.si))
        else:
            kw[x] = T('arg', x)
    o = Objt(cls, {})
    kw['si'].fields.update({'ncharge': T('.', T('si'), 'ncharge'), 'nsingle': T('.', T('si'), 'nsingle'), 'nmany': T('.', T('si'), 'nmany')})
    r.call_fn(fn, [o], kw)
    return o


def tails(proj, part):
    """the settings the constructor makes the lead and bath arrays with"""
    out = {}
    if not PARTS[part][3]:
        return out

    def make(r):
        r.si = {'indexing': 'charge', 'symmetry': None}
        return constructor(proj, part, r)
    try:
        for r, o in run_all(proj, make):
            for name in PARTS[part][3]:
                v = o.fields.get(name)
                if isinstance(v, T) and v.t[0].startswith('make_array'):
                    t = tuple((k, T('si',) if isinstance(x, Objt) else x) for k, x in v.t[1][2:])
                    out[name] = tuple((k, T('.', T('si'), 'nbaths') if x == T('arg', 'nbaths') else x) for k, x in t)
    except Unk:
        return {}
    return out


def marks(a, n, k=0):
    """n different numbers that are the result of no arithmetic on one another"""
    return [a + 0.01 * (i + 1) + 0.0001 * k for i in range(n)]


def convert_cases():
    """(label, old array or None, given parameter, number of entries, spin symmetry asked for, by the system, npar)"""
    for sym in (False, True):
        for use in (True, False):
            for n in (1, 2, 3):
                for old in (False, True):
                    for form in ('number', 'dict', 'full dict', 'empty dict', 'list', 'array'):
                        yield sym, use, n, old, form


def convert_rule(rep, proj):
    """make_array and make_array_dlst: every given value at its place, the others as they were (or zero), spin copies behind"""
    from ..access import Interp, Obj, Arr, Raised, Stop
    import numpy as np
    for name, pairs in (('make_array', False), ('make_array_dlst', True)):
        fn = proj.find_func('qmeq.leadstun', name)
        if fn is None:
            raise AnchorMissing('qmeq.leadstun.%s' % name)
        bad, count, why = {}, 0, None
        for sym, use, n, old, form in convert_cases():
            for two in ((False, True) if pairs and form != 'number' else (False,)):
                ip = Interp(proj)
                ip.case, ip.values = form, True
                copies = 2 if sym and use else 1
                si = Obj(None, {'symmetry': 'spin' if sym else None, 'nleads_sym': n, 'nleads': n * (2 if sym else 1), 'nbaths': n, 'indexing': 'charge'}, 'si')
                val = lambda k: [marks(5., 4, k)[0], marks(7., 4, k)[1]] if two else marks(5., 4, k)[0]
                keys = {'number': range(n), 'dict': [n - 1], 'full dict': range(n), 'empty dict': [], 'list': range(n), 'array': range(n)}[form]
                had = [[marks(1., 4, k)[0], marks(2., 4, k)[1]] if pairs else marks(1., 4, k)[0] for k in range(n)]
                if form == 'number':
                    given = 3.5
                elif form.endswith('dict'):
                    given = {k: (tuple(val(k)) if two else val(k)) for k in keys}
                elif form == 'list':
                    given = [tuple(val(k)) if two else val(k) for k in keys]
                else:
                    given = ip.from_concrete([val(k) for k in keys], 'given')
                want = []
                for k in range(n):
                    if k in keys:
                        v = 3.5 if form == 'number' else val(k)
                        want.append(v if two or not pairs else [-v, v])
                    else:
                        want.append(had[k] if old else ([0., 0.] if pairs else 0.))
                want = want * copies
                oldarr = ip.from_concrete(had * copies, 'old') if old else None
                try:
                    tail = [n, False] if not use else [n] if n == 2 else []
                    r = ip.call_fn(fn, [oldarr, given, si] + tail, {})
                except (Raised, Stop) as ex:
                    r = ex
                if ip.unk:
                    why = why or str(next(iter(ip.unk)))
                count += 1
                lab = '%s given%s, %s' % (form, ' with pairs' if two else '', 'added to the present values' if old else 'without present values')
                if isinstance(r, Raised):
                    bad.setdefault(lab, 'raises %s' % r)
                    continue
                got = None
                if isinstance(r, Arr):
                    c = r.content()
                    if c is not None:
                        got = np.asarray(c, dtype=object)
                if got is None or any(not isinstance(x, (int, float)) for x in got.reshape(-1)):
                    why = why or 'its result for %s' % lab
                    continue
                w = np.asarray(want, dtype=float)
                if got.shape != w.shape or any(abs(float(x) - y) > 1e-12 for x, y in zip(got.reshape(-1), w.reshape(-1))):
                    bad.setdefault(lab, 'gives %s instead of %s' % ([float(x) for x in got.reshape(-1)], [float(x) for x in w.reshape(-1)]))
        for lab, msg in sorted(bad.items())[:4]:
            rep.finding('%s/%s' % (name, lab), '%s: %s: %s' % (name, lab, msg), [fn.where()], '')
        if not bad and why:
            rep.unknown(name, why)
        elif not bad:
            rep.ok(name, '%d forms of the parameter' % count)


def fresh_rule(rep, proj, part):
    """constructors and rebuilding methods start from the given parameters"""
    mod, cname, dicts, lists = PARTS[part]
    cls = cls_of(proj, mod, cname)
    for mname in ('__init__', 'update_Tba0', 'update_Vbbp0', 'rebuild', 'add without update', 'change without update'):
        real = {'rebuild': '_init_hamiltonian' if part == 'qd' else '_init_coupling', 'add without update': 'add', 'change without update': 'change'}.get(mname, mname)
        fn = proj.lookup(cls, real)
        if fn is None or mname.endswith('update') and 'updateq' not in fn.args:
            continue
        for name in dicts:
            field = dicts[name][0]
            what = '%s.%s %s' % (cname, mname, name)
            bad = []
            try:
                def make(r):
                    sc = {'dict': name, 'kind': 'dict', 'present': mname != '__init__'}
                    o = prepare(r, proj, part, sc, 'charge')
                    if mname == '__init__':
                        return constructor(proj, part, r)
                    if mname == 'rebuild':
                        r.call_fn(fn, [o], {})
                        return o
                    kw = call_args(fn, sc)
                    if mname.endswith('update'):
                        kw['updateq'] = False
                    for x in fn.args[1:]:
                        if x in ('nleads', 'nbaths'):
                            kw[x] = T('arg', x)
                    o.fields['si'] = Objt(None, dict(r.si, **{k: T('.', T('si'), k) for k in ('ncharge', 'nsingle', 'nmany', 'nleads', 'nbaths', 'get_lst')})) if mname.startswith('update') else o.fields['si']
                    r.call_fn(fn, [o], kw)
                    return o
                for r, o in run_all(proj, make):
                    rep.name('%s:%s' % (g.module.relpath, g.qualname) for g in r.visited)
                    old, v = Lin({'o.' + name: 1}), Lin({'v.' + name: 1})
                    want = old if mname == 'rebuild' or mname.endswith('without update') else v
                    got = o.fields[name].content or ZERO
                    if r.reduce(got.plus(want, -1)).c:
                        bad.append(('dict', 'the dictionary holds %r instead of %r' % (got, want), None))
                    amount = v.plus(old, -1) if mname == 'change without update' else v if mname == 'add without update' else want
                    mats = list(r.fields_mat.values()) if part == 'qd' else [o.fields[field]]
                    if not mats:
                        if r.reduce(amount).c:
                            bad.append(('matrix', 'the many-body matrix is not computed', None))
                    for m in mats:
                        if not isinstance(m, Mat):
                            raise Unk('%s becomes %r' % (field, m))
                        fresh = m.base == 'new'
                        want_now = amount
                        if part != 'qd' and mname.endswith('without update'):
                            want_now = amount.plus(old) if fresh else amount
                        elif part != 'qd' and not fresh:
                            bad.append(('matrix', 'the many-body matrix starts from %s' % m.base, None))
                        if r.reduce(total(m, name).plus(want_now, -1)).c:
                            bad.append(('matrix', 'the many-body matrix holds %r instead of %r' % (total(m, name), amount), m.added[-1][3] if m.added else None))
                    if part == 'leads' and not mname.endswith('without update'):
                        a = o.fields.get('tleads_array')
                        x = dict(a.t[1]).get('tleads') if isinstance(a, T) and a.t[0] == 'make_tleads_array' else None
                        if x is None:
                            raise Unk('tleads_array')
                        if r.reduce(x.plus(got, -1)).c:
                            bad.append(('array', 'tleads_array holds %r while the dictionary holds %r' % (x, got), None))
            except Unk as ex:
                rep.unknown(what, 'not evaluated: %s at %s' % (ex, getattr(r0(locals()), 'at', '')))
                continue
            if bad:
                k, why, at = bad[0]
                rep.finding('%s.%s/%s/%s' % (cname, mname, name, k), '%s: %s' % (what, why), [at or fn.where()], '')
            else:
                rep.ok(what, '')


def tleads_array(rep, proj):
    """make_tleads_array: every amplitude at its place"""
    from ..terms import Reader
    from .basis import fn_of
    fn = fn_of(proj, 'qmeq.leadstun', 'make_tleads_array')
    rd = Reader(proj)
    ends = rd.read(fn, [('p', 'tleads'), ('p', 'si'), ('p', 'mtype')][:len(fn.args)])
    res = {v for q, v in ends}
    st = [s for s in rd.stores if s.base in res]
    good = 0
    for s in st:
        loops = [x for x in s.trail if x[0] == 'loop']
        if s.op != '=' or len(loops) != 1 or loops[0][2] != ('p', 'tleads') or [x for x in s.trail if x[0] == 'cond']:
            rep.unknown('make_tleads_array', '%s: store not recognised' % s.where)
            return
        k = loops[0][1]
        parts = (('[]', k, (('c', 0),)), ('[]', k, (('c', 1),)))
        v = s.value
        if v[0] != '[]' or v[1] != ('p', 'tleads') or v[2] not in ((k,), parts, (('tuple', parts),)) and v[2] != parts:
            rep.unknown('make_tleads_array', '%s: value not recognised' % s.where)
            return
        if s.idx == parts or s.idx == (k,):
            good += 1
        elif s.idx == parts[::-1]:
            rep.finding('make_tleads_array/index', 'make_tleads_array: lead and state are exchanged', [s.where], '')
            return
    if good and good == len(st):
        rep.ok('make_tleads_array', '')
    else:
        rep.unknown('make_tleads_array', 'no store recognised')


def passes(rep, proj, mod, cname, mname):
    """every parameter given to the builder reaches the part that owns it"""
    from ..terms import Reader
    cls = None
    for m in proj.modules.values():
        if m.name.startswith('qmeq') and cname in m.classes:
            cls = m.classes[cname]
    if cls is None:
        raise AnchorMissing(cname)
    fn = proj.lookup(cls, mname)
    if fn is None:
        raise AnchorMissing('%s.%s' % (cname, mname))
    owner = {}
    for part, (pm, pc, dicts, lists) in PARTS.items():
        for n in list(dicts) + list(lists):
            owner[n] = part
    me = ('p', 'self')
    for p in fn.args[1:]:
        if p not in owner:
            continue
        what = '%s.%s(%s)' % (cname, mname, p)
        part = owner[p]
        target = proj.lookup(cls_of(proj, *PARTS[part][:2]), mname)
        consts = {('cmp', 'Is', ('p', x), ('c', None)): x != p for x in fn.args[1:]}
        consts[('p', p)] = True
        rd = Reader(proj, cls=cls, consts=consts)
        rd.known = lambda t: ('c', consts[t]) if t[0] == 'cmp' and t in consts else None
        rd.read(fn, [me] + [('p', x) for x in fn.args[1:]])
        rep.name('%s:%s' % (f.module.relpath, f.qualname) for f in rd.visited)
        good, bad = 0, []
        for name, args, kw, trail, where in rd.calls:
            if not isinstance(name, tuple) or name[0] != '.' or name[2] != mname or name[1][0] != '.' or name[1][1] != me:
                continue
            tgt = name[1][2]
            if tgt not in PARTS:
                continue
            tf = proj.lookup(cls_of(proj, *PARTS[tgt][:2]), mname)
            b = dict(zip(tf.args[1:], args))
            b.update(dict(kw))
            for k, v in b.items():
                if v == ('p', p):
                    if tgt == part and k == p and not trail:
                        good += 1
                    elif tgt == part and k == p:
                        raise Unk('condition %s' % (trail,))
                    else:
                        bad.append((where, 'is handed to %s.%s as %s' % (tgt, mname, k)))
        if bad:
            rep.finding('%s.%s/%s' % (cname, mname, p), '%s: %s %s' % (what, p, bad[0][1]), [bad[0][0]], '')
        elif good != 1:
            every = Reader(proj, cls=cls, consts={k: False for k in consts})
            every.known = lambda t: ('c', False) if t[0] == 'cmp' and t in consts else None
            every.read(fn, [me] + [('p', x) for x in fn.args[1:]])
            clear = [c for c in every.calls if c[0] == ('.', ('.', me, part), mname) and all(x[0] in ('p', 'c') for x in list(c[1]) + [y for k, y in c[2]])]
            if clear or good:
                rep.finding('%s.%s/%s' % (cname, mname, p), '%s: %s %s' % (what, p, 'is not handed to %s.%s' % (part, mname) if not good else 'is handed over %d times' % good), [fn.where()], '')
            else:
                rep.unknown(what, 'calls not recognised')
        else:
            rep.ok(what, '')
