"""C17 (and the last part of C06): every path through the functions that solve the master equation, by path-sensitive interpretation.

The paths of solve_kern and solve_matrix_free are enumerated (branches decided by the options, each solver call returning, reporting a failure or raising),
following the helper methods they call; on each path the flag, the occupations, the message, the normalisation row and the vector left in the kernel
handler are tracked as abstract values."""
import ast
from ..frontend import AnchorMissing
from .history import CONFIGS, label

OTHER = ('other',)
CONTENTS = ('zeros', 'solution', 'wrong', 'garbage')
OLD = ('old',)
CATCH_ALL = ('Exception', 'BaseException')
CATCH_LINALG = ('LinAlgError',) + CATCH_ALL
NOT_INLINED = ('generate_vec', 'generate_kern', 'generate_fct', 'set_phi0_init', 'print_warning')


class TooMany(Exception):
    pass


class P(object):
    """one path"""

    def __init__(self, opts):
        self.env = {}
        self.attr = {}          # self.X -> value
        self.content = {}       # array attribute -> content
        self.opts = opts
        self.success = OLD
        self.told = False
        self.failed = None      # None: no solver was called; False: it returned; True: it raised or reported a failure
        self.how = ''
        self.normed = {}        # 'kern'/'bvec' -> index of the row that holds the normalisation
        self.norm_at_solve = None
        self.handler = 'own'    # the vector in the kernel handler
        self.info = None
        self.unclear = ''       # a call that could not be followed

    def copy(self):
        q = P(self.opts)
        for k, v in self.__dict__.items():
            setattr(q, k, dict(v) if isinstance(v, dict) and k != 'opts' else v)
        return q


class Paths(object):
    def __init__(self, proj, cls, rep=None):
        self.p, self.cls = proj, cls
        self.count = 0
        self.visited = set()

    # outcome: list of (kind, path, value) with kind next | return | raise
    def run(self, fn, path, args=(), depth=0):
        if depth > 6:
            raise TooMany('recursion')
        self.visited.add(fn)
        saved = path.env
        path.env = {}
        names = fn.args
        for n, v in zip(names, args):
            path.env[n] = v
        for d, n in zip(fn.node.args.defaults[::-1], names[::-1]):
            if n not in path.env:
                path.env[n] = self.const(d)
        if names and names[0] == 'self' and 'self' not in path.env:
            path.env['self'] = ('self',)
        out = []
        for kind, q, v in self.block(fn.node.body, path, fn, depth):
            q.env = dict(saved)
            out.append(('return' if kind == 'next' else kind, q, v if kind == 'return' else OTHER))
        return out

    def const(self, d):
        return ('const', d.value) if isinstance(d, ast.Constant) else OTHER

    def block(self, stmts, path, fn, depth):
        live, out = [path], []
        for s in stmts:
            new = []
            for q in live:
                for kind, r, v in self.stmt(s, q, fn, depth):
                    (new if kind == 'next' else out).append(r if kind == 'next' else (kind, r, v))
            live = new
            self.count += 1
            if len(live) + len(out) > 4000:
                raise TooMany('paths')
        return out + [('next', q, None) for q in live]

    def stmt(self, s, path, fn, depth):
        if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.AnnAssign)) and getattr(s, 'value', None) is None:
            return [('next', path, None)]
        if isinstance(s, ast.Expr):
            return [('raise' if r is None else 'next', q, None) for r, q in self.ev(s.value, path, fn, depth)]
        if isinstance(s, ast.Return):
            if s.value is None:
                return [('return', path, OTHER)]
            return [('raise', q, None) if r is None else ('return', q, r) for r, q in self.ev(s.value, path, fn, depth)]
        if isinstance(s, ast.Raise):
            return [('raise', path, None)]
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            out = []
            targets = s.targets if isinstance(s, ast.Assign) else [s.target]
            for v, q in self.ev(s.value, path, fn, depth):
                if v is None:
                    out.append(('raise', q, None))
                    continue
                for t in targets:
                    self.assign(t, v, q, fn, depth)
                out.append(('next', q, None))
            return out
        if isinstance(s, ast.AugAssign):
            out = []
            for v, q in self.ev(s.value, path, fn, depth):
                if v is None:
                    out.append(('raise', q, None))
                    continue
                b = self.base(s.target, q, fn, depth)
                if b and b[0] == 'A':
                    zero = v == ('const', 0) and isinstance(s.op, ast.Mult) and not isinstance(s.target, ast.Subscript)
                    q.content[b[1]] = ('zeros',) if zero else OTHER
                    q.normed.pop(b[1], None)
                elif isinstance(s.target, ast.Name):
                    q.env[s.target.id] = OTHER
                out.append(('next', q, None))
            return out
        if isinstance(s, ast.If):
            out = []
            for v, q in self.ev(s.test, path, fn, depth):
                if v is None:
                    out.append(('raise', q, None))
                    continue
                t = self.truth(v)
                if t is not False:
                    q2 = q.copy() if t is None else q
                    out += self.block(s.body, q2, fn, depth)
                if t is not True:
                    out += self.block(s.orelse, q, fn, depth)
            return out
        if isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                for n in ast.walk(s.target):
                    if isinstance(n, ast.Name):
                        path.env[n.id] = ('each', n.id)
            out = []
            for kind, q, v in self.block(s.body, path, fn, depth):
                out.append(('next', q, None) if kind in ('next', 'break', 'continue') else (kind, q, v))
            return out
        if isinstance(s, ast.Break):
            return [('break', path, None)]
        if isinstance(s, ast.Continue):
            return [('continue', path, None)]
        if isinstance(s, ast.With):
            return self.block(s.body, path, fn, depth)
        if isinstance(s, ast.Try):
            out, after = [], []
            for kind, q, v in self.block(s.body, path, fn, depth):
                if kind == 'raise':
                    caught = False
                    for h in s.handlers:
                        types = self.types(h.type)
                        full = h.type is None or any(t in CATCH_ALL for t in types) or (q.how == 'linalg' and any(t in CATCH_LINALG for t in types))
                        r = q if full else q.copy()
                        if h.name:
                            r.env[h.name] = OTHER
                        after += self.block(h.body, r, fn, depth)
                        if full:
                            caught = True
                            break
                    if not caught:
                        after.append(('raise', q, None))
                elif kind == 'next' and s.orelse:
                    after += self.block(s.orelse, q, fn, depth)
                else:
                    after.append((kind, q, v))
            if s.finalbody:
                for kind, q, v in after:
                    for k2, r, v2 in self.block(s.finalbody, q, fn, depth):
                        out.append((kind, r, v) if k2 == 'next' else (k2, r, v2))
                return out
            return after
        return [('next', path, None)]

    def types(self, t):
        if t is None:
            return []
        return [n.attr if isinstance(n, ast.Attribute) else n.id for n in (t.elts if isinstance(t, ast.Tuple) else [t]) if isinstance(n, (ast.Attribute, ast.Name))]

    def truth(self, v):
        if v[0] == 'const':
            return bool(v[1])
        return None

    # ------------------------------------------------------------------ values
    def field(self, name, q):
        n = name.lstrip('_')
        if n in q.opts:
            return ('const', q.opts[n])
        if n in q.attr:
            return q.attr[n]
        if n in ('success',):
            return q.success
        return ('A', n)

    def base(self, t, q, fn, depth):
        while isinstance(t, ast.Subscript):
            t = t.value
        r = self.ev(t, q, fn, depth)
        return r[0][0] if len(r) == 1 else None

    def index(self, s, q, fn, depth):
        """('whole',) | ('row', what)"""
        def full(x):
            return isinstance(x, ast.Slice) and x.lower is None and x.upper is None or isinstance(x, ast.Constant) and x.value is Ellipsis
        if isinstance(s, ast.Tuple) and len(s.elts) > 1 and all(full(x) for x in s.elts[1:]):
            s = s.elts[0]
        if isinstance(s, ast.Tuple) and all(full(x) for x in s.elts) or full(s):
            return ('whole',)
        if isinstance(s, (ast.Slice, ast.Tuple)):
            return ('part',)
        r = self.ev(s, q, fn, depth)
        v = r[0][0] if len(r) == 1 else OTHER
        if v and v[0] == 'each':
            return ('whole',)
        return ('row', v)

    def assign(self, t, v, q, fn, depth):
        if isinstance(t, ast.Tuple):
            for i, x in enumerate(t.elts):
                self.assign(x, self.item(v, i), q, fn, depth)
            return
        if isinstance(t, ast.Name):
            q.env[t.id] = v
            return
        if isinstance(t, ast.Attribute):
            b = self.ev(t.value, q, fn, depth)[0][0]
            if b == ('self',):
                n = t.attr.lstrip('_')
                if n == 'success':
                    q.success = v
                elif n in q.opts:
                    pass
                elif v[0] in CONTENTS or v[0] == 'A' and v[1] != n:
                    # another array in the place of the old one
                    q.content[n] = v if v[0] != 'A' else q.content.get(v[1], OLD)
                    q.attr.pop(n, None)
                elif v != ('A', n):
                    q.attr[n] = v
            return
        if isinstance(t, ast.Subscript):
            b = self.base(t, q, fn, depth)
            if not b or b[0] != 'A':
                return
            i = self.index(t.slice, q, fn, depth)
            if i[0] == 'whole':
                q.content[b[1]] = q.content.get(v[1], OLD) if v[0] == 'A' else v if v[0] in CONTENTS else ('zeros',) if v == ('const', 0) else \
                    ('elem',) if v[0] == 'elem' else OTHER
                if v[0] == 'elem':
                    q.content[b[1]] = q.content.get(v[1], OLD) if len(v) > 1 else OTHER
                q.normed.pop(b[1], None)
            elif i[0] == 'row':
                isnorm = v == ('A', 'norm_vec') if b[1] == 'kern' else v == ('const', 1)
                if isnorm:
                    q.normed[b[1]] = i[1]
                elif q.normed.get(b[1]) == i[1]:
                    q.normed.pop(b[1])
                if b[1] == 'phi0':
                    q.content['phi0'] = OTHER

    def item(self, v, i):
        if v[0] == 'list':
            return v[1][i] if isinstance(i, int) and -len(v[1]) <= i < len(v[1]) else OTHER
        if v[0] == 'lstsq':
            return ('solution',) if i == 0 else ('wrong',)
        return OTHER

    def ev(self, n, q, fn, depth):
        """[(value, path)]; value None: the path raises"""
        if n is None:
            return [(OTHER, q)]
        if isinstance(n, ast.Constant):
            v = n.value
            return [(('const', v), q)]
        if isinstance(n, ast.Name):
            return [(q.env.get(n.id, ('global', n.id)), q)]
        if isinstance(n, ast.Attribute):
            out = []
            for b, r in self.ev(n.value, q, fn, depth):
                out.append((None if b is None else self.attribute(b, n.attr, r), r))
            return out
        if isinstance(n, ast.Subscript):
            out = []
            for b, r in self.ev(n.value, q, fn, depth):
                if b is None:
                    out.append((None, r))
                    continue
                if b[0] == 'A':
                    i = self.index(n.slice, r, fn, depth)
                    if b[1] in ('bvec', 'phi0') and i[0] in ('whole', 'part'):
                        # bvec[0:n]: the part that has the size of the solution
                        c = r.content.get(b[1], OLD)
                        out.append((c if c[0] in CONTENTS and self.from_start(n.slice) else OTHER if i[0] == 'part' else b, r))
                    elif i[0] == 'whole':
                        out.append((('elem', b[1]) if isinstance(n.slice, ast.Name) else b, r))
                    else:
                        out.append((OTHER, r))
                    continue
                if b[0] == 'shape':
                    out.append((b + (self.const(n.slice)[-1],), r))
                    continue
                k = self.const(n.slice)
                out.append((self.item(b, k[1]) if k[0] == 'const' else OTHER, r))
            return out
        if isinstance(n, (ast.List, ast.Tuple)):
            outs = [([], q)]
            for e in n.elts:
                new = []
                for vs, r in outs:
                    for v, r2 in self.ev(e, r, fn, depth):
                        new.append((None if v is None or vs is None else vs + [v], r2))
                outs = new
            return [(None if vs is None else ('list', vs), r) for vs, r in outs]
        if isinstance(n, ast.IfExp):
            out = []
            for v, r in self.ev(n.test, q, fn, depth):
                if v is None:
                    out.append((None, r))
                    continue
                t = self.truth(v)
                if t is not False:
                    out += self.ev(n.body, r.copy() if t is None else r, fn, depth)
                if t is not True:
                    out += self.ev(n.orelse, r, fn, depth)
            return out
        if isinstance(n, ast.UnaryOp):
            out = []
            for v, r in self.ev(n.operand, q, fn, depth):
                if v is None:
                    out.append((None, r))
                elif v[0] == 'const' and isinstance(n.op, ast.Not):
                    out.append((('const', not v[1]), r))
                elif v[0] == 'const' and isinstance(n.op, ast.USub):
                    out.append((('const', -v[1]), r))
                else:
                    out.append((('not', v) if isinstance(n.op, ast.Not) else OTHER, r))
            return out
        if isinstance(n, ast.BoolOp):
            outs = self.ev(n.values[0], q, fn, depth)
            for x in n.values[1:]:
                new = []
                for v, r in outs:
                    t = None if v is None else self.truth(v)
                    if v is None or t is (not isinstance(n.op, ast.And)):
                        new.append((v, r))
                    elif t is None:
                        new += [(OTHER if w is not None else None, r2) for w, r2 in self.ev(x, r, fn, depth)]
                    else:
                        new += self.ev(x, r, fn, depth)
                outs = new
            return outs
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            out = []
            for a, r in self.ev(n.left, q, fn, depth):
                if a is None:
                    out.append((None, r))
                    continue
                for b, r2 in self.ev(n.comparators[0], r, fn, depth):
                    out.append((None if b is None else self.compare(n.ops[0], a, b), r2))
            return out
        if isinstance(n, ast.BinOp):
            out = []
            for a, r in self.ev(n.left, q, fn, depth):
                for b, r2 in (self.ev(n.right, r, fn, depth) if a is not None else [(None, r)]):
                    if a is None or b is None:
                        out.append((None, r2))
                    elif (a[0] == 'len' or a[0] == 'shape' and a[2:] == (0,)) and isinstance(n.op, ast.Sub) and b == ('const', 1):
                        out.append((('const', -1), r2))
                    elif b in (('const', 0), ('const', 0.0)) and isinstance(n.op, ast.Mult):
                        out.append((('zeros',), r2))
                    else:
                        out.append((OTHER, r2))
            return out
        if isinstance(n, ast.Call):
            return self.call(n, q, fn, depth)
        return [(OTHER, q)]

    def from_start(self, s):
        return isinstance(s, ast.Slice) and (s.lower is None or isinstance(s.lower, ast.Constant) and s.lower.value == 0) and s.step is None

    def compare(self, op, a, b):
        if a[0] == 'const' and b[0] == 'const':
            try:
                r = {ast.Eq: lambda: a[1] == b[1], ast.NotEq: lambda: a[1] != b[1], ast.Lt: lambda: a[1] < b[1], ast.LtE: lambda: a[1] <= b[1], ast.Gt: lambda: a[1] > b[1],
                     ast.GtE: lambda: a[1] >= b[1], ast.Is: lambda: a[1] is b[1], ast.IsNot: lambda: a[1] is not b[1]}.get(type(op))
                if isinstance(op, (ast.In, ast.NotIn)):
                    return OTHER
                return ('const', r()) if r else OTHER
            except TypeError:
                return OTHER
        if b[0] == 'list' and a[0] == 'const' and isinstance(op, (ast.In, ast.NotIn)) and all(x[0] == 'const' for x in b[1]):
            return ('const', (a in b[1]) == isinstance(op, ast.In))
        if isinstance(op, ast.Eq) and b == ('const', True) and a[0] in ('status',):
            return a
        return OTHER

    def attribute(self, b, attr, q):
        if b == ('self',):
            return self.field(attr, q)
        if b == ('A', 'funcp') and attr in q.opts:
            return ('const', q.opts[attr])
        if b == ('A', 'funcp') or b == ('A', 'kernel_handler') or b == ('A', 'solver'):
            if b == ('A', 'solver') and attr == 'info':
                return ('const', q.info) if q.info is not None else OTHER
            return ('A', attr) if b[1] == 'funcp' and attr == 'norm_row' else ('meth', b[1], attr)
        if b[0] == 'root':
            return ('solution',) if attr == 'x' else ('status',) if attr == 'success' else ('wrong',)
        if b[0] == 'A':
            if attr == 'shape':
                return ('shape', b[1])
            return ('meth', b[1], attr) if attr in ('fill', 'copy', 'astype', 'size') else OTHER
        if b[0] == 'solution' and attr in ('copy', 'astype', 'real'):
            return ('keep', b)
        if b[0] == 'global':
            return ('global', b[1] + '.' + attr)
        return OTHER

    def call(self, n, q, fn, depth):
        outs = [([], q)]
        for a in list(n.args) + [k.value for k in n.keywords]:
            new = []
            for vs, r in outs:
                if vs is None:
                    new.append((None, r))
                    continue
                for v, r2 in self.ev(a, r, fn, depth):
                    new.append((None if v is None else vs + [v], r2))
            outs = new
        out = []
        for vs, r in outs:
            if vs is None:
                out.append((None, r))
                continue
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and getattr(n.func.value.func, 'id', '') == 'super':
                out += self.method(n.func.attr, vs, r, fn, depth, after=fn.cls)
                continue
            name = self.dotted(n.func)
            head = name.split('.')[0] if name else None
            if head is not None and head not in r.env:
                g = self.p.resolve(fn.module, head)
                g = g[1] if g is not None and g[0] in ('class', 'func') else None
                # Class.method(self, ...)
                if g is not None and getattr(g, 'methods', None) is not None and name.count('.') == 1:
                    m = self.p.lookup(g, name.split('.')[1])
                    if m is not None:
                        out += [(None if k == 'raise' else v, r2) for k, r2, v in self.run(m, r, vs, depth + 1)]
                        continue
                if g is not None and hasattr(g, 'node') and hasattr(g, 'args') and name.count('.') == 0 and getattr(g, 'cls', None) is None:
                    out += [(None if k == 'raise' else v, r2) for k, r2, v in self.run(g, r, vs, depth + 1)]
                    continue
                out += self.external(name, n, vs, r)
                continue
            if isinstance(n.func, ast.Attribute):
                for b, r2 in self.ev(n.func.value, r, fn, depth):
                    if b == ('self',):
                        out += self.method(n.func.attr, vs, r2, fn, depth)
                    else:
                        out += self.object_call(b, n.func.attr, vs, r2)
                continue
            out.append((OTHER, r))
        return out

    def dotted(self, f):
        parts = []
        while isinstance(f, ast.Attribute):
            parts.append(f.attr)
            f = f.value
        if not isinstance(f, ast.Name):
            return None
        return '.'.join([f.id] + parts[::-1])

    def method(self, name, vs, q, fn, depth, after=None):
        if name in NOT_INLINED:
            if name == 'generate_vec':
                q.handler = 'trial'
            return [(OTHER, q)]
        m = None
        if after is not None:
            mro = list(self.p.mro(self.cls))
            rest = mro[mro.index(after) + 1:] if after in mro else []
            for c in rest:
                if name in c.methods:
                    m = c.methods[name]
                    break
        else:
            m = self.p.lookup(self.cls, name)
        if m is None:
            q.unclear = name
            return [(OTHER, q)]
        return [(None if k == 'raise' else v, r) for k, r, v in self.run(m, q, [('self',)] + vs, depth + 1)]

    def object_call(self, b, name, vs, q):
        if b == ('A', 'funcp') and name == 'print_error':
            q.told = True
            return [(OTHER, q)]
        if b == ('A', 'kernel_handler') and name == 'set_phi0':
            q.handler = 'phi0' if vs and vs[0] == ('A', 'phi0') else 'other'
            return [(OTHER, q)]
        if b == ('A', 'solver') and name == 'solve':
            self.solving(q)
            bad = q.copy()
            q.failed, q.info = False, 0
            q.content['bvec'] = ('solution',)
            bad.failed, bad.info, bad.how = True, 3, 'info'
            bad.content['bvec'] = ('garbage',)
            return [(OTHER, q), (OTHER, bad)]
        if b[0] == 'A' and name == 'fill':
            q.content[b[1]] = ('zeros',) if vs and vs[0] in (('const', 0), ('const', 0.0)) else OTHER
            q.normed.pop(b[1], None)
            return [(OTHER, q)]
        if b[0] in CONTENTS and name in ('copy', 'astype'):
            return [(b, q)]
        if b[0] == 'A' and name == 'copy':
            return [(q.content.get(b[1], OLD), q)]
        return [(OTHER, q)]

    def solving(self, q):
        q.norm_at_solve = dict(q.normed)

    def external(self, name, n, vs, q):
        last = name.split('.')[-1]
        if last == 'print':
            q.told = True
            return [(OTHER, q)]
        if last in ('zeros', 'zeros_like'):
            return [(('zeros',), q)]
        if last in ('bool', 'float', 'int') and vs:
            return [(vs[0] if vs[0][0] in ('status', 'const') else OTHER, q)]
        if last == 'len':
            return [(('len',), q)]
        if last in ('array', 'asarray', 'copy', 'ascontiguousarray') and vs:
            return [(vs[0] if vs[0][0] in CONTENTS else q.content.get(vs[0][1], OLD) if vs[0][0] == 'A' else OTHER, q)]
        if last == 'copyto' and len(vs) > 1 and vs[0][0] == 'A':
            q.content[vs[0][1]] = vs[1] if vs[1][0] in CONTENTS else ('zeros',) if vs[1] in (('const', 0), ('const', 0.0)) else OTHER
            return [(OTHER, q)]
        if last in ('solve', 'lstsq') and 'linalg' in name or name in ('lstsq', 'scipy.sparse.linalg.lsqr'):
            self.solving(q)
            bad = q.copy()
            q.failed = False
            bad.failed, bad.how = True, 'linalg'
            ok = vs[:2] == [('A', 'kern'), ('A', 'bvec')]
            return [((('solution',) if last == 'solve' else ('lstsq',)) if ok else OTHER, q), (None, bad)]
        if last == 'root':
            self.solving(q)
            q.handler = 'trial'
            bad = q.copy()
            q.failed = False
            bad.failed, bad.how = True, 'root'
            return [(('root',), q), (None, bad)]
        return [(OTHER, q)]


MODULES = {'Pauli': 'pauli', 'Lindblad': 'lindblad', 'Redfield': 'redfield', '1vN': 'neumann1', '2vN': 'neumann2', 'RTD': 'RTD'}


def approach_class(proj, cfg):
    """the class that implements an approach"""
    kern, elph = cfg
    py = kern.startswith('py')
    name = kern[2:] if py else kern
    mod = 'qmeq.approach.%s.%s%s' % ('elph' if elph else 'base', '' if py else 'c_', MODULES[name])
    return proj.find_class(mod, 'ApproachPyRTD' if kern == 'pyRTD' else 'Approach' + name)


def starts():
    for symq in (True, False):
        for m in (('solve', 'lsqr') if symq else ('lsqr',)):
            yield 'solve_kern', {'symq': symq, 'solmethod': m, 'mfreeq': False}
    for m in ('krylov',):
        yield 'solve_matrix_free', {'symq': True, 'solmethod': m, 'mfreeq': True}


def c17(rep, proj, tier):
    done = {}
    for cfg in CONFIGS:
        rep.guarded(label(cfg), c17_approach, rep, proj, cfg, done)
    rep.guarded('print_error', c17_message, rep, proj)
    rep.guarded('lapack', c17_lapack, rep, proj)
    rep.assume('np.linalg.solve, np.linalg.lstsq and the LAPACK drivers report a failure by LinAlgError or a nonzero info; scipy.optimize.root may raise anything')


def c17_approach(rep, proj, cfg, done):
    cls = approach_class(proj, cfg)
    for name, opts in starts():
        if name == 'solve_matrix_free' and ('2vN' in cfg[0] or 'RTD' in cfg[0]):
            continue
        fn = proj.lookup(cls, name)
        if fn is None:
            raise AnchorMissing('%s has no %s' % (cls.name, name))
        what = '%s %s (%s)' % (label(cfg), name, ', '.join('%s=%s' % x for x in sorted(opts.items()) if x[0] != 'mfreeq'))
        ps = Paths(proj, cls)
        ends = ps.run(fn, P(opts), [('self',)])
        rep.name('%s:%s' % (f.module.relpath, f.qualname) for f in ps.visited)
        rep.count('paths', len(ends))
        solved = [e for e in ends if e[1].failed is not None]
        if not solved:
            rep.unknown(what, 'no solver call recognised')
            continue
        key = (fn, tuple(sorted(opts.items())))
        n = 0
        for kind, q, v in solved:
            msg = judge(name, opts, kind, q)
            if msg and (q.unclear or OTHER in (q.success, q.content.get('phi0'))):
                n += 1
                rep.unknown(what, '%s; %s' % (msg, 'not followed: ' + q.unclear if q.unclear else 'a value on the path is not known'))
            elif msg:
                n += 1
                rep.finding('%s/%s' % (what, msg), '%s: %s' % (what, msg), [fn.where()], 'path: the solver %s' % {True: 'raises' if q.how != 'info' else 'reports a failure', False: 'returns'}[q.failed])
        if not any(q.failed for k, q, v in solved):
            rep.unknown(what, 'no failing path recognised')
        elif not n:
            rep.ok(what, '%d paths' % len(solved))


def judge(name, opts, kind, q):
    if q.failed:
        if kind == 'raise':
            return 'an error of the solver escapes'
        if q.success != ('const', False):
            return 'success is not False after the solver failed'
        if q.content.get('phi0') != ('zeros',):
            return 'phi0 is not zero after the solver failed'
        if not q.told:
            return 'the user is not told that the solver failed'
    else:
        if kind == 'raise':
            return 'an error escapes although the solver returned'
        want = [('const', True)] if name == 'solve_kern' else [('status',)]
        if q.success not in want:
            return 'success does not say what the solver returned'
        if q.content.get('phi0') != ('solution',):
            return 'phi0 is not the solution that the solver returned'
        if name == 'solve_kern':
            w = ('A', 'norm_row') if opts['symq'] else ('const', -1)
            at = q.norm_at_solve or {}
            if at.get('kern') != w or at.get('bvec') != w:
                return 'the normalisation condition is not imposed before solving'
    if name == 'solve_matrix_free' and q.handler != 'phi0':
        return 'the kernel handler keeps a trial vector of the root finder instead of the solution'
    return ''


def c17_message(rep, proj):
    cls = proj.find_class('qmeq.builder.funcprop', 'FunctionProperties')
    fn = proj.lookup(cls, 'print_error')
    if fn is None:
        raise AnchorMissing('FunctionProperties.print_error')
    ps = Paths(proj, cls)
    for kind, q, v in ps.run(fn, P({'suppress_err': False}), [('self',), OTHER]):
        if kind == 'raise' or not q.told:
            rep.finding('print_error', 'print_error does not print the first error', [fn.where()], '')
            return
    rep.ok('print_error', 'the first error is printed')


DRIVERS = {'dgesv': 8, 'dgelsd': 14, 'zgesv': 8, 'dgels': 11, 'dgelss': 14, 'dgelsy': 13}


def c17_lapack(rep, proj):
    """the status that a LAPACK driver returns reaches the field that solve_kern reads"""
    m = proj.modules.get('qmeq.wrappers.c_lapack')
    if m is None:
        raise AnchorMissing('qmeq.wrappers.c_lapack')
    for c in m.classes.values():
        fn = c.methods.get('solve')
        if fn is None or not c.bases:
            continue
        calls = [x for x in ast.walk(fn.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in DRIVERS]
        what = '%s.solve' % c.name
        if not calls:
            rep.unknown(what, 'no LAPACK driver recognised')
            continue
        rep.name('%s:%s' % (m.relpath, fn.qualname))
        for x in calls:
            if len(x.args) != DRIVERS[x.func.attr]:
                rep.unknown(what, '%s with %d arguments' % (x.func.attr, len(x.args)))
                continue
            a = x.args[-1]
            a = a.args[0] if isinstance(a, ast.Call) and a.args else a
            local = None
            if isinstance(a, ast.Name):
                local = [s for s in ast.walk(fn.node) if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Attribute) and s.targets[0].attr == 'info'
                         and isinstance(s.value, ast.Name) and s.value.id == a.id]
            if isinstance(a, ast.Attribute) and a.attr == 'info' or local:
                rep.ok(what, 'info of %s' % x.func.attr)
            else:
                rep.finding(what, '%s: the status that %s returns does not reach self.info' % (what, x.func.attr), [fn.where(x)], '')
