"""Abstract interpretation of object histories.

The interpreter walks the source of a builder, its approach and everything they call, over an abstract heap: which object each attribute
refers to, and, for every scalar and every array content, the set of *tokens* it depends on (option values, parameters, index tables,
each with the version it had when it was read).  Nothing is executed and no numbers exist: conditions are decided only when they are
settled by constants of the scenario (an option chosen, a flag set by an assignment), otherwise both branches are taken and joined.

A rule runs a *history* (construct; solve; change an option; solve) and looks at what the results depend on afterwards: a token of a
version that has since been replaced means that something computed earlier was kept although it had to be computed again."""
import ast
from .frontend import AnchorMissing

EMPTY = frozenset()


class AV(object):
    """abstract value: possible constants, possible objects, 'anything else' (top), and the tokens it depends on"""
    __slots__ = ('consts', 'objs', 'top', 'deps')

    def __init__(self, consts=EMPTY, objs=EMPTY, top=False, deps=EMPTY):
        self.consts, self.objs, self.top, self.deps = consts, objs, top, deps

    def dep(self, d):
        if not d or d <= self.deps:
            return self
        return AV(self.consts, self.objs, self.top, self.deps | d)

    def __repr__(self):
        return 'AV(%s%s%s%s)' % (list(self.consts) or '', list(self.objs) or '', ' top' if self.top else '', ' deps=%s' % sorted(map(str, self.deps)) if self.deps else '')

    def one(self):
        """the single constant, wrapped in a tuple, or None"""
        if len(self.consts) == 1 and not self.objs and not self.top:
            return next(iter(self.consts))
        return None

    def eq(self, o):
        return self.consts == o.consts and self.objs == o.objs and self.top == o.top and self.deps == o.deps


def C(v):
    return ('c', type(v).__name__, v)


def const(v, deps=EMPTY):
    return AV(frozenset([C(v)]), deps=deps)


TOP = AV(top=True)
NONE = const(None)


def top(deps=EMPTY):
    return AV(top=True, deps=deps) if deps else TOP


def join(a, b):
    if a is b:
        return a
    c = a.consts | b.consts
    t = a.top or b.top
    if len(c) > 24:
        c, t = frozenset(x for x in c if x[0] != 'c'), True
    return AV(c, a.objs | b.objs, t, a.deps | b.deps)


def joins(vs):
    r = None
    for v in vs:
        r = v if r is None else join(r, v)
    return r if r is not None else AV()


class Obj(object):
    """an abstract object; never modified in place once it is in a heap that another state shares"""
    __slots__ = ('kind', 'cls', 'label', 'fields', 'items', 'base', 'puts', 'stores', 'shape', 'user', 'multi', 'born', 'ndim')

    def __init__(self, kind, cls=None, label='', user='', born=0):
        self.kind, self.cls, self.label, self.user, self.born = kind, cls, label, user, born
        self.fields = {}        # attribute -> (AV, phase)
        self.items = None       # list of AV / dict const -> AV when precisely known
        self.base = AV()        # any element
        self.puts = {}          # site of an element assignment -> (AV, phase)
        self.stores = {}        # site -> (deps, phase, accumulated)
        self.shape = EMPTY
        self.multi = False      # stands for several concrete objects
        self.ndim = None

    def copy(self):
        o = Obj(self.kind, self.cls, self.label, self.user, self.born)
        o.fields = dict(self.fields)
        o.items = (list(self.items) if isinstance(self.items, list) else dict(self.items)) if self.items is not None else None
        o.base, o.puts, o.stores, o.shape, o.multi = self.base, dict(self.puts), dict(self.stores), self.shape, self.multi
        o.ndim = self.ndim
        return o

    @property
    def elem(self):
        return joins([self.base] + [v for v, ph in self.puts.values()]) if self.puts else self.base

    @elem.setter
    def elem(self, v):
        self.base, self.puts = v, {}


class State(object):
    __slots__ = ('heap', 'env', 'pc', 'ret', 'owned')

    def __init__(self):
        self.heap, self.env, self.pc, self.ret = {}, {}, EMPTY, None
        self.owned = set()

    def clone(self):
        s = State()
        s.heap, s.env, s.pc, s.ret = dict(self.heap), dict(self.env), self.pc, self.ret
        self.owned = set()
        return s

    def mut(self, oid):
        if oid not in self.owned:
            self.heap[oid] = self.heap[oid].copy()
            self.owned.add(oid)
        return self.heap[oid]


class Cut(Exception):
    """the interpretation cannot go on (too deep, too long)"""


ARRAY_FUNCS = {'zeros', 'ones', 'empty', 'full', 'zeros_like', 'ones_like', 'empty_like', 'eye', 'identity'}
COPY_FUNCS = {'array', 'copy', 'dot', 'linspace', 'arange', 'concatenate', 'append', 'kron', 'outer', 'einsum', 'tensordot', 'matmul', 'diag', 'vstack', 'hstack',
              'transpose_copy', 'sort', 'lexsort', 'argsort', 'cumsum', 'conj', 'conjugate', 'abs', 'real', 'imag', 'roll', 'fft', 'ifft', 'inv', 'solve', 'where'}
ALIAS_FUNCS = {'asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray', 'ravel', 'reshape', 'transpose', 'squeeze', 'real_if_close'}
ALIAS_METHODS = {'reshape', 'ravel', 'view', 'transpose', 'squeeze', 'swapaxes'}
# i: read, o: written, u: read and written
LAPACK = {'dgesv': 'iiuiouio', 'dgelsd': 'iiiuiuioiooioo', 'zgesv': 'iiuiouio'}
SOLVERS = ('solve', 'lstsq', 'root', 'dgesv', 'dgelsd', 'zgesv', 'zgelsd')
MUTATING = {'append', 'extend', 'insert', 'remove', 'pop', 'sort', 'reverse', 'clear', 'update', 'setdefault', 'popitem', 'fill', 'add', 'discard', 'itemset', 'put', 'resize'}


class Broken(Cut):
    """the program stops here with an error"""


class Interp(object):
    MAXDEPTH = 60

    clones = 0

    def __init__(self, proj, budget=4000000, pure_modules=('qmeq.specfunc',), except_paths=False):
        self.p = proj
        self.budget = budget
        self.phase = 0
        self.solving = False
        self.events = []            # (kind, text, where)
        self.seen_events = set()
        self.callstack = []
        self.loopdepth = 0
        self.pure = tuple(pure_modules)
        self.notes = {}
        self.except_paths = except_paths
        self.versions = {}          # (label, field) -> version
        self.bumped = set()
        self.visited = set()
        self.stored_cache = {}
        self.tracked = set()        # class names whose fields carry version tokens
        self.direct = {}            # tracked field -> the index tables it was computed from
        self.sourced = set()
        self.sizes = {}             # tracked field -> the index tables that gave an array that was never filled its size
        self.hooks = {}             # method name -> callable(interp, st, fn, args) -> AV or None
        self.ctr = 0
        self.work = 0

    # ------------------------------------------------------------ reporting
    def where(self, node):
        fn = self.callstack[-1][0] if self.callstack else None
        return '%s:%s' % (fn.module.relpath, getattr(node, 'lineno', 0)) if fn else '?'

    def event(self, kind, text, node, extra=''):
        k = (kind, text, self.where(node), self.phase if kind == 'solver' else 0)
        if k not in self.seen_events:
            self.seen_events.add(k)
            self.events.append((kind, text, self.where(node), [f.qualname for f, n in self.callstack], extra))

    def note(self, text):
        self.notes[text] = self.notes.get(text, 0) + 1

    # ------------------------------------------------------------- objects
    def new(self, st, kind, node, cls=None, label='', user='', extra=''):
        cs = tuple((f.module.name, n) for f, n in self.callstack)
        oid = (self.phase, cs, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), kind, cls.name if cls else '', extra)
        oid = hash(oid)
        o = Obj(kind, cls, label or (cls.name if cls else kind), user, self.phase)
        if oid in st.heap and self.loopdepth:
            old = st.heap[oid]
            if kind in ('array',) or True:
                # the same site again in a loop: one object for all of them
                m = st.mut(oid)
                m.multi = True
                if kind == 'array':
                    m.shape = m.shape | st.pc
                return oid
        st.heap[oid] = o
        st.owned.add(oid)
        o.shape = st.pc
        return oid

    def ref(self, oid):
        return AV(objs=frozenset([(oid, False)]))

    def content(self, st, v, seen=None, depth=0):
        """every token the value and what it holds depends on"""
        d = v.deps
        seen = seen if seen is not None else set()
        for oid, view in v.objs:
            if oid in seen or depth > 6:
                continue
            seen.add(oid)
            o = st.heap.get(oid)
            if o is None or o.kind == 'inst':
                continue
            d = d | o.shape
            for s, (sd, ph, acc) in o.stores.items():
                d = d | sd
            if o.items is not None:
                for x in (o.items if isinstance(o.items, list) else o.items.values()):
                    d = d | self.content(st, x, seen, depth + 1)
            d = d | self.content(st, o.elem, seen, depth + 1)
        return d

    # ------------------------------------------------------- version tokens
    def touch(self, oid, o, field):
        """a tracked field gets a new value: its version changes, once per phase"""
        if o.cls is not None and o.cls.name in self.tracked:
            k = (oid, field)
            if (k, self.phase) not in self.bumped:
                self.bumped.add((k, self.phase))
                self.versions[k] = self.versions.get(k, -1) + 1
            return frozenset([('f', oid, field, self.versions[k])])
        return EMPTY

    def outdated(self, deps):
        out = []
        for t in deps:
            if t[0] == 'f' and self.versions.get((t[1], t[2]), 0) != t[3]:
                out.append(t)
            if t[0] in 'po' and self.versions.get(('param', t[1]), 0) != t[2]:
                out.append(t)
        return sorted(out, key=str)

    # ----------------------------------------------------------- joining
    def join_states(self, a, b, base_pc):
        if a is None:
            return b
        if b is None:
            return a
        unstable = self.unstable((a.pc | b.pc) - base_pc)
        r = State()
        r.pc = base_pc
        if a.heap is not b.heap:
            heap = {}
            for oid in a.heap:
                x = a.heap[oid]
                y = b.heap.get(oid)
                if y is None or x is y:
                    heap[oid] = x
                else:
                    heap[oid] = self.join_obj(x, y, unstable)
            for oid in b.heap:
                if oid not in heap:
                    heap[oid] = b.heap[oid]
            r.heap = heap
        else:
            r.heap = dict(a.heap)
        env = {}
        for n in a.env:
            if n in b.env:
                x, y = a.env[n], b.env[n]
                env[n] = x if x is y or x.eq(y) else join(x, y)
            else:
                env[n] = a.env[n]
        for n in b.env:
            if n not in env:
                env[n] = b.env[n]
        r.env = env
        if a.ret is not None or b.ret is not None:
            r.ret = joins([v for v in (a.ret, b.ret) if v is not None])
        return r

    def unstable(self, deps):
        """conditions that need not be the same in two solves: everything that is not an index table or an option"""
        return any(t[0] == 'p' and t[1] in DATA for t in deps)

    def join_obj(self, x, y, unstable):
        o = x.copy()
        o.multi = x.multi or y.multi
        o.shape = x.shape | y.shape
        for f in set(x.fields) | set(y.fields):
            p, q = x.fields.get(f), y.fields.get(f)
            if p is None or q is None:
                o.fields[f] = p or q
            elif p[0].eq(q[0]):
                o.fields[f] = p if p[1] >= q[1] else q
            elif p[1] != q[1] and not unstable and self.outdated((p if p[1] < q[1] else q)[0].deps):
                # rebound on one path only, under a condition that is the same every time
                o.fields[f] = p if p[1] > q[1] else q
            else:
                o.fields[f] = (join(p[0], q[0]), max(p[1], q[1]))
        for s in set(x.stores) | set(y.stores):
            p, q = x.stores.get(s), y.stores.get(s)
            if p == q:
                continue
            if p is None or q is None:
                o.stores[s] = p or q
            elif p[1] != q[1] and not unstable:
                # overwritten on one path only, under a condition that is the same every time
                o.stores[s] = p if p[1] > q[1] else q
            else:
                o.stores[s] = (p[0] | q[0], max(p[1], q[1]), p[2] or q[2])
        # a whole-array write on one path under a stable condition: earlier stores vanished there
        if not unstable and set(x.stores) != set(y.stores):
            new = max([v[1] for v in list(x.stores.values()) + list(y.stores.values())] or [0])
            for s in set(x.stores) ^ set(y.stores):
                pass
        if x.items is not None and y.items is not None and type(x.items) is type(y.items) and len(x.items) == len(y.items):
            if isinstance(x.items, list):
                o.items = [p if p.eq(q) else join(p, q) for p, q in zip(x.items, y.items)]
            elif set(x.items) == set(y.items):
                o.items = {k: (x.items[k] if x.items[k].eq(y.items[k]) else join(x.items[k], y.items[k])) for k in x.items}
            else:
                o.items = None
        else:
            o.items = None
        if o.items is None:
            ex = [v for z in (x, y) if z.items is not None for v in (z.items if isinstance(z.items, list) else z.items.values())]
            o.base = joins([x.base, y.base] + ex)
        else:
            o.base = x.base if x.base.eq(y.base) else join(x.base, y.base)
        for s in set(x.puts) | set(y.puts):
            p, q = x.puts.get(s), y.puts.get(s)
            if p is None or q is None:
                o.puts[s] = p or q
            elif p[1] != q[1] and not unstable:
                o.puts[s] = p if p[1] > q[1] else q
            else:
                o.puts[s] = (p[0] if p[0].eq(q[0]) else join(p[0], q[0]), max(p[1], q[1]))
        return o

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        """runs a block; returns {'next','break','continue','return','raise': state}"""
        out = {}
        base = st.pc
        cur = st
        for s in stmts:
            if cur is None:
                break
            self.work += 1
            if self.work > self.budget:
                raise Cut('too much work')
            r = self.stmt(s, cur)
            cur = r.pop('next', None)
            for k, v in r.items():
                out[k] = self.join_states(out.get(k), v, v.pc)
        if cur is not None:
            out['next'] = cur
        return out

    def stmt(self, s, st):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.note('statement %s' % type(s).__name__)
            return {'next': st}
        return m(s, st)

    def s_Pass(self, s, st):
        return {'next': st}
    s_Import = s_ImportFrom = s_Global = s_Nonlocal = s_Pass

    def s_Delete(self, s, st):
        return {'next': st}

    def s_Assert(self, s, st):
        return {'next': st}

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return {'next': st}
        self.ev(s.value, st)
        return {'next': st}

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)
        return {'next': st}

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st, s)
        return {'next': st}

    def s_AugAssign(self, s, st):
        old = self.ev(s.target, st)
        v = self.ev(s.value, st)
        self.augment(s.target, old, v, st, s)
        return {'next': st}

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        v = v.dep(st.pc) if not v.objs or v.consts or v.top else v
        st.ret = v if st.ret is None else join(st.ret, v)
        return {'return': st}

    def s_Raise(self, s, st):
        if s.exc is not None:
            self.ev(s.exc, st)
        return {'raise': st}

    def s_Break(self, s, st):
        return {'break': st}

    def s_Continue(self, s, st):
        return {'continue': st}

    def s_FunctionDef(self, s, st):
        st.env[s.name] = top(st.pc)
        return {'next': st}
    s_ClassDef = s_FunctionDef

    def s_With(self, s, st):
        for i in s.items:
            v = self.ev(i.context_expr, st)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, top(self.content(st, v)), st, s)
        return self.block(s.body, st)

    def s_If(self, s, st):
        v = self.ev(s.test, st)
        d = self.content(st, v)
        t = self.truth(v, st)
        base = st.pc
        if t is not None:
            m = self.equal_tokens(d | st.pc)
            if m:
                d = frozenset(m.get(t, t) for t in d)
            st.pc = base | d
            r = self.block(s.body if t else s.orelse, st)
            if 'next' in r:
                r['next'].pc = base
            return r
        m = self.equal_tokens(d | st.pc)
        if m:
            d = frozenset(m.get(t, t) for t in d)
        a, b = st.clone(), st.clone()
        a.pc = b.pc = base | d
        self.refine(s.test, a, True)
        self.refine(s.test, b, False)
        self.equate(s.test, a, True)
        self.equate(s.test, b, False)
        ra, rb = self.block(s.body, a), self.block(s.orelse, b)
        out = {}
        for k in set(ra) | set(rb):
            x, y = ra.get(k), rb.get(k)
            if k == 'next':
                if x is not None and y is not None:
                    out[k] = self.join_states(x, y, base)
                else:
                    out[k] = x or y
                    # the other branch left: what follows depends on the condition
            else:
                out[k] = self.join_states(x, y, (x or y).pc)
        return out

    def refine(self, test, st, val):
        """what a test says about a variable holding one of two constants"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, st, not val)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) and val or isinstance(test.op, ast.Or) and not val:
                for x in test.values:
                    self.refine(x, st, val)
            return
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and isinstance(test.comparators[0], ast.Constant) \
                and test.comparators[0].value is None and isinstance(test.ops[0], (ast.Is, ast.IsNot)):
            n = test.left.id
            if n in st.env:
                v = st.env[n]
                isnone = isinstance(test.ops[0], ast.Is) == val
                if isnone:
                    st.env[n] = const(None, v.deps)
                else:
                    st.env[n] = AV(v.consts - {C(None)}, v.objs, v.top, v.deps)

    def equate(self, test, st, val):
        """a kept value whose key was compared with the present one and found not to differ is as good as new"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.equate(test.operand, st, not val)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) and val or isinstance(test.op, ast.Or) and not val:
                for x in test.values:
                    self.equate(x, st, val)
            return
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            if isinstance(test.ops[0], (ast.Eq, ast.LtE, ast.GtE)) and val or isinstance(test.ops[0], (ast.NotEq, ast.Lt, ast.Gt)) and not val:
                x, y = self.ev(test.left, st), self.ev(test.comparators[0], st)
                dx, dy = self.content(st, x), self.content(st, y)
                m = self.equal_tokens(dx | dy)
                if m and (self.outdated(dx) and not self.outdated(dy) or self.outdated(dy) and not self.outdated(dx)):
                    self.rename(st, m)

    def equal_tokens(self, d):
        m = {}
        for t in self.outdated(d):
            n = (t[0], t[1], self.versions.get(('param', t[1]), 0)) if t[0] in 'po' else (t[0], t[1], t[2], self.versions.get((t[1], t[2]), 0))
            if n in d:
                m[t] = n
        return m

    def rename(self, st, m, keep=None):
        def up(deps):
            return frozenset(m.get(t, t) for t in deps) if any(t in m for t in deps) else deps

        def upv(v):
            d = up(v.deps)
            return v if d is v.deps else AV(v.consts, v.objs, v.top, d)
        # an array that is current on this path only must not share its identity with the stale one of the other path
        moved = {}
        for oid, o in list(st.heap.items()):
            if o.kind == 'array' and not o.user and any(t in m for d in [o.shape, o.base.deps] + [x[0] for x in o.stores.values()] for t in d):
                root = oid[1] if isinstance(oid, tuple) else oid
                new = ('clone', root, frozenset(m.items()))
                if new == oid:
                    continue
                st.heap[new] = o.copy()
                moved[oid] = new
        base_upv = upv

        def upv(v):
            v = base_upv(v)
            if moved and any(q in moved for q, _ in v.objs):
                v = AV(v.consts, frozenset((moved.get(q, q), w) for q, w in v.objs), v.top, v.deps)
            return v
        st.pc = up(st.pc)
        st.env = {n: upv(v) for n, v in st.env.items()}
        for oid in list(st.heap):
            if oid in moved:
                continue
            o = st.mut(oid)
            o.fields = {f: (upv(v), ph) for f, (v, ph) in o.fields.items()}
            if isinstance(o.items, list):
                o.items = [upv(v) for v in o.items]
            elif isinstance(o.items, dict):
                o.items = {k: upv(v) for k, v in o.items.items()}
            o.base, o.shape = upv(o.base), up(o.shape)
            o.puts = {s: (upv(v), ph) for s, (v, ph) in o.puts.items()}
            o.stores = {s: (up(d), ph, acc) for s, (d, ph, acc) in o.stores.items()}

    def loop(self, bind, body, orelse, st, iterdeps, node):
        base = st.pc
        st.pc = base | iterdeps
        self.loopdepth += 1
        out = {}
        try:
            cur = st
            brk = None
            for k in range(2 if self.loopdepth == 1 else 1):
                bind(cur)
                r = self.block(body, cur)
                nxt = self.join_states(r.get('next'), r.get('continue'), base | iterdeps)
                for q in ('return', 'raise'):
                    if q in r:
                        out[q] = self.join_states(out.get(q), r[q], r[q].pc)
                if 'break' in r:
                    brk = self.join_states(brk, r['break'], base)
                if nxt is None:
                    cur = None
                    break
                cur = nxt
            # the state after the loop is that after its iterations: the same index set is covered every time
            if cur is not None:
                cur.pc = base
                if orelse:
                    r = self.block(orelse, cur)
                    cur = r.pop('next', None)
                    out.update(r)
            fin = self.join_states(cur, brk, base)
            if fin is not None:
                fin.pc = base
                out['next'] = fin
        finally:
            self.loopdepth -= 1
        return out

    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        seq = self.concrete(it, st)
        if seq is not None and len(seq) <= 64:
            out = {}
            cur = st
            brk = None
            for v in seq:
                self.assign(s.target, v, cur, s)
                r = self.block(s.body, cur)
                for q in ('return', 'raise'):
                    if q in r:
                        out[q] = self.join_states(out.get(q), r[q], r[q].pc)
                if 'break' in r:
                    brk = self.join_states(brk, r['break'], r['break'].pc)
                cur = self.join_states(r.get('next'), r.get('continue'), (r.get('next') or r.get('continue') or st).pc)
                if cur is None:
                    break
            if cur is not None and s.orelse:
                r = self.block(s.orelse, cur)
                cur = r.pop('next', None)
                out.update(r)
            fin = self.join_states(cur, brk, (cur or brk).pc) if (cur or brk) is not None else None
            if fin is not None:
                out['next'] = fin
            return out
        el = self.element(it, st)
        d = self.content(st, AV(it.consts, it.objs, it.top, it.deps)) if not it.objs else it.deps | self.shape_deps(st, it)
        return self.loop(lambda c: self.assign(s.target, el, c, s), s.body, s.orelse, st, d, s)

    def s_While(self, s, st):
        v = self.ev(s.test, st)
        t = self.truth(v, st)
        if t is False:
            return {'next': st}
        return self.loop(lambda c: self.ev(s.test, c), s.body, s.orelse, st, self.content(st, v), s)

    def s_Try(self, s, st):
        base = st.pc
        out = {}
        exc = None
        cur = st
        rest = None
        for x in s.body:
            if cur is None:
                break
            if self.except_paths:
                exc = self.join_states(exc, cur.clone(), base)
            r = self.stmt(x, cur)
            cur = r.pop('next', None)
            if 'raise' in r:
                exc = self.join_states(exc, r.pop('raise'), base)
            for k, v in r.items():
                out[k] = self.join_states(out.get(k), v, v.pc)
        if exc is not None and self.except_paths and cur is not None:
            exc = self.join_states(exc, cur.clone(), base)
        if cur is not None and s.orelse:
            r = self.block(s.orelse, cur)
            cur = r.pop('next', None)
            out.update(r)
        if exc is not None:
            for h in s.handlers:
                e = exc.clone()
                if h.name:
                    e.env[h.name] = top()
                r = self.block(h.body, e)
                n = r.pop('next', None)
                cur = self.join_states(cur, n, base)
                for k, v in r.items():
                    out[k] = self.join_states(out.get(k), v, v.pc)
            if not s.handlers:
                out['raise'] = self.join_states(out.get('raise'), exc, base)
        if s.finalbody:
            new = {}
            for k, v in list(out.items()) + ([('next', cur)] if cur is not None else []):
                r = self.block(s.finalbody, v)
                for q, w in r.items():
                    q2 = k if q == 'next' else q
                    new[q2] = self.join_states(new.get(q2), w, w.pc)
            return new
        if cur is not None:
            out['next'] = cur
        return out
    s_TryStar = s_Try

    # ------------------------------------------------------------- assignment
    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            st.env[t.id] = v if v.objs and not v.top and not v.consts else v.dep(st.pc)
        elif isinstance(t, (ast.Tuple, ast.List)):
            seq = self.concrete(v, st)
            star = any(isinstance(x, ast.Starred) for x in t.elts)
            if seq is not None and len(seq) == len(t.elts) and not star:
                for x, y in zip(t.elts, seq):
                    self.assign(x, y, st, node)
            else:
                e = self.element(v, st)
                for x in t.elts:
                    self.assign(x.value if isinstance(x, ast.Starred) else x, e, st, node)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st)
            self.setattr(base, t.attr, v, st, node)
        elif isinstance(t, ast.Subscript):
            self.store_item(t, v, st, node, False)
        else:
            self.note('assignment to %s' % type(t).__name__)

    def setattr(self, base, attr, v, st, node, raw=False):
        objs = [(o, w) for o, w in base.objs if o in st.heap]
        for c in base.consts:
            if c[0] == 'super':
                return self.setattr(self.ref(c[1]), attr, v, st, node, True)
        for oid, w in objs:
            o = st.heap[oid]
            if o.kind == 'inst' and o.cls is not None:
                pr = self.prop(o.cls, attr)
                if pr and pr[1] is not None:
                    self.call_fn(pr[1], [self.ref(oid), v], {}, st, node)
                    continue
                sa = self.p.lookup(o.cls, '__setattr__') if not raw else None
                if sa is not None:
                    self.call_fn(sa, [self.ref(oid), const(attr), v], {}, st, node)
                    continue
            self.raw_set(oid, attr, v, st, node, strong=len(objs) == 1 and not o.multi)
        if not objs and base.objs:
            self.note('attribute of a lost object')

    def raw_set(self, oid, attr, v, st, node, strong=True):
        o = st.mut(oid)
        if o.user:
            self.event('user-write', o.user, node, 'attribute %s' % attr)
        if not v.objs and v.top:
            # may be an array: give it an identity
            aid = self.new(st, 'array', node, extra='attr:' + attr, label=attr)
            a = st.mut(aid)
            a.shape = st.pc
            a.stores = {('init',): (v.deps, self.phase, False)}
            a.multi = self.loopdepth > 0
            v = AV(v.consts, frozenset([(aid, False)]), False, EMPTY)
            o = st.mut(oid)
        for aid, w in v.objs:
            if aid in st.heap and st.heap[aid].kind == 'array' and st.heap[aid].label == 'array' and not w:
                st.mut(aid).label = attr
        o = st.mut(oid)
        t = self.touch(oid, o, attr)
        if t:
            size = EMPTY
            for q, w in v.objs:
                c = st.heap.get(q)
                if c is not None and c.kind == 'array' and set(c.stores) == {('init',)}:
                    size = size | c.shape | c.stores[('init',)][0]
            self.sizes[(oid, attr)] = frozenset(x for x in size if x[0] == 'f')
            self.source(st, oid, attr, (self.content(st, v) - size) | st.pc, True)
            v = self.strip(st, v)
        v2 = v.dep(t)
        v2 = v2.dep(frozenset(x for x in st.pc if x[0] != 'f') if t else st.pc)
        if strong or attr not in o.fields:
            o.fields[attr] = (v2, self.phase)
        else:
            o.fields[attr] = (join(o.fields[attr][0], v2), self.phase)

    def store_item(self, t, v, st, node, aug):
        base = self.ev(t.value, st)
        idx = self.ev_index(t.slice, st)
        whole = self.is_whole(t.slice)
        d = self.content(st, v) | idx.deps | st.pc
        site = ('s', self.callstack[-1][0].module.name if self.callstack else '', getattr(node, 'lineno', 0))
        hit = False
        owner = None
        if isinstance(t.value, ast.Attribute):
            b = self.ev(t.value.value, st)
            for oid, w in b.objs:
                if oid in st.heap and st.heap[oid].kind == 'inst':
                    owner = (oid, t.value.attr)
        for oid, view in base.objs:
            if oid not in st.heap:
                continue
            o = st.mut(oid)
            hit = True
            if o.user:
                self.event('user-write', o.user, node, 'element')
            if o.kind in ('list', 'dict', 'tuple', 'set'):
                k = idx.one()
                if o.items is not None and k is not None and not view and not o.multi and len(base.objs) == 1:
                    if isinstance(o.items, dict):
                        o.items[k] = v.dep(st.pc)
                        continue
                    if isinstance(k[2], int) and -len(o.items) <= k[2] < len(o.items):
                        o.items[k[2]] = v.dep(st.pc)
                        continue
                if o.items is not None:
                    o.elem = joins([o.elem] + list(o.items if isinstance(o.items, list) else o.items.values()))
                    o.items = None
                w2 = v.dep(d if not v.objs else idx.deps | st.pc)
                old = o.puts.get(site)
                o.puts[site] = (join(old[0], w2) if old is not None and old[1] == self.phase else w2, self.phase)
                o.stores[site] = (idx.deps | st.pc, self.phase, False)
            elif o.kind == 'array':
                if v.objs and any(st.heap[x].kind != 'array' for x, w in v.objs if x in st.heap):
                    o.elem = join(o.elem, AV(v.consts, v.objs, v.top, v.deps))
                one = idx.one()
                if one is not None and one[0] == 'c' and type(one[2]) is int and not aug and not view and not o.multi and len(base.objs) == 1:
                    # a given row: what other statements wrote there is gone
                    for x in [x for x in o.stores if x[-2:] == ('at', one[2])]:
                        del o.stores[x]
                    site = site + ('at', one[2])
                self.array_store(o, site, d, aug, whole and not view and len(base.objs) == 1, node, st, idx.deps)
            else:
                si = self.p.lookup(o.cls, '__setitem__') if o.cls else None
                if si is not None:
                    self.call_fn(si, [self.ref(oid), idx, v], {}, st, node)
        if hit and self.tracked:
            self.changed(st, [oid for oid, w in base.objs])
        if not hit:
            # an array without identity: remember what was put into it
            if isinstance(t.value, ast.Name) and t.value.id in st.env:
                st.env[t.value.id] = st.env[t.value.id].dep(d)
            elif isinstance(t.value, ast.Attribute) and owner:
                o = st.mut(owner[0])
                if owner[1] in o.fields:
                    o.fields[owner[1]] = (o.fields[owner[1]][0].dep(d), o.fields[owner[1]][1])

    def changed(self, st, oids):
        """the content of these containers changed: so did the tracked fields that hold them"""
        oids = set(oids)
        for q, o in list(st.heap.items()):
            if o.kind == 'inst' and o.cls is not None and o.cls.name in self.tracked:
                for f, (v, ph) in list(o.fields.items()):
                    if any(x in oids for x, w in v.objs):
                        self.retouch(st, q, f)
                        t = frozenset([('f', q, f, self.versions[(q, f)])])
                        for n, u in st.env.items():
                            if any(x in oids for x, w in u.objs):
                                st.env[n] = AV(u.consts, u.objs, u.top, frozenset(x for x in u.deps if x[:3] != ('f', q, f)) | t)

    def retouch(self, st, oid, field):
        """content of a tracked field changed in place: all of it is the new version"""
        o = st.heap[oid]
        t = self.touch(oid, o, field)
        if field not in o.fields:
            return
        v, ph = o.fields[field]

        self.source(st, oid, field, frozenset(x for x in self.content(st, v) | st.pc if x[:3] != ('f', oid, field)), False)
        v = self.strip(st, v)
        o = st.mut(oid)
        o.fields[field] = (v.dep(t), self.phase)

    def source(self, st, oid, field, deps, new):
        """the index tables the present content of a tracked field was computed from"""
        k = (oid, field)
        d = frozenset(x for x in deps if x[0] == 'f')
        self.direct[k] = d if new and (k, self.phase) not in self.sourced else self.direct.get(k, EMPTY) | d
        self.sourced.add((k, self.phase))
        if not new:
            self.sizes[k] = EMPTY           # an array that is filled: the size it was created with is no longer all of it

    def strip(self, st, v, depth=0):
        """the value without the tokens of the index tables it was computed from"""
        def cut(deps):
            return frozenset(x for x in deps if x[0] != 'f') if any(x[0] == 'f' for x in deps) else deps
        for q, w in v.objs:
            o = st.heap.get(q)
            if o is None or o.kind == 'inst' or o.user or depth > 4:
                continue
            o = st.mut(q)
            o.shape = cut(o.shape)
            o.stores = {s: (cut(d), p, acc) for s, (d, p, acc) in o.stores.items()}
            if isinstance(o.items, list):
                o.items = [self.strip(st, x, depth + 1) for x in o.items]
            elif isinstance(o.items, dict):
                o.items = {k: self.strip(st, x, depth + 1) for k, x in o.items.items()}
            o.base = self.strip(st, o.base, depth + 1)
            o.puts = {s: (self.strip(st, x, depth + 1), p) for s, (x, p) in o.puts.items()}
        return AV(v.consts, v.objs, v.top, cut(v.deps))

    def array_store(self, o, site, d, aug, whole, node, st, idx=EMPTY):
        if aug:
            for s, (sd, ph, acc) in o.stores.items():
                if self.solving and ph < self.phase and ph in self.solve_phases and o.born < self.phase:
                    self.event('accumulates', o.label, node, 'content written at %s by an earlier solve' % (s,))
                d = d | sd
        if whole and not aug and not o.multi:
            o.stores = {site: (d, self.phase, False)}
        elif whole and aug:
            o.stores = {site: (d, self.phase, True)}
        elif aug:
            o.stores[site] = (d, self.phase, True)
        else:
            old = o.stores.get(site)
            if old is not None and old[1] == self.phase:
                d = d | old[0]
            elif old is not None and not whole:
                # the place written is chosen by an option that was changed since: what was written before stays
                now = {t[1]: t[2] for t in idx if t[0] == 'o'}
                if any(t[0] == 'o' and now.get(t[1], t[2]) != t[2] for t in old[0]):
                    o.stores[('moved',) + tuple(site)] = (old[0], old[1], False)
            o.stores[site] = (d, self.phase, False)

    solve_phases = frozenset()

    def is_whole(self, s):
        def full(x):
            return isinstance(x, ast.Slice) and x.lower is None and x.upper is None and (x.step is None or (isinstance(x.step, ast.Constant) and x.step.value == 1)) \
                or isinstance(x, ast.Constant) and x.value is Ellipsis
        if isinstance(s, ast.Tuple):
            return all(full(x) for x in s.elts)
        return full(s)

    def augment(self, t, old, v, st, node):
        d = self.content(st, v) | st.pc
        arrs = [(o, w) for o, w in old.objs if o in st.heap and st.heap[o].kind == 'array']
        if isinstance(t, ast.Name) and old.top:
            arrs = []           # an element of an array: a number unless the array is known to have more dimensions
        if isinstance(t, ast.Subscript):
            return self.store_item(t, join(AV(deps=old.deps, top=True), top(d)), st, node, True)
        if arrs and isinstance(t, (ast.Name, ast.Attribute)):
            # in-place on an array
            site = ('s', self.callstack[-1][0].module.name if self.callstack else '', getattr(node, 'lineno', 0))
            for oid, w in arrs:
                o = st.mut(oid)
                if o.user:
                    self.event('user-write', o.user, node, 'in place')
                self.array_store(o, site, d, True, not w, node, st)
            if self.tracked:
                self.changed(st, [oid for oid, w in arrs])
            if not old.consts:
                return
        lists = [(o, w) for o, w in old.objs if o in st.heap and st.heap[o].kind == 'list']
        if lists:
            for oid, w in lists:
                o = st.mut(oid)
                if o.user:
                    self.event('user-write', o.user, node, 'in place')
                if o.items is not None:
                    o.elem = joins([o.elem] + o.items)
                    o.items = None
                o.elem = join(o.elem, self.element(v, st))
            return
        a, b = old.one(), v.one()
        r = None
        if a is not None and b is not None and a[0] == 'c' and b[0] == 'c':
            r = self.fold(getattr(node, 'op', None), a, b)
        self.assign(t, const(r[0], old.deps | v.deps) if r is not None else top(self.content(st, old) | d), st, node)

    # ------------------------------------------------------------ expressions
    def ev(self, n, st):
        self.work += 1
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            self.note('expression %s' % type(n).__name__)
            return TOP
        return m(n, st)

    def e_Constant(self, n, st):
        return const(n.value)

    def e_Name(self, n, st):
        if n.id in st.env:
            return st.env[n.id]
        fn = self.callstack[-1][0] if self.callstack else None
        return self.global_name(n.id, fn.module if fn else None, st)

    def global_name(self, name, mod, st):
        if mod is not None:
            r = self.p.resolve(mod, name)
            if r is not None:
                k, x = r
                if k == 'class':
                    return AV(frozenset([('class', x.module.name + '.' + x.name, x)]))
                if k == 'func':
                    return AV(frozenset([('func', x.qualname, x)]))
                if k == 'module':
                    return AV(frozenset([('module', getattr(x, 'name', x), x)]))
                if k == 'ext':
                    return AV(frozenset([('ext', x, x)]))
                if k == 'const':
                    return self.module_const(x[0], name, x[1], st)
        if name in ('True', 'False', 'None'):
            return const({'True': True, 'False': False, 'None': None}[name])
        return AV(frozenset([('builtin', name, name)]))

    def module_const(self, mod, name, expr, st):
        if isinstance(expr, (ast.Constant,)):
            return const(expr.value)
        key = ('modconst', mod.name, name)
        oid = hash(key)
        if oid in st.heap:
            return self.ref(oid)
        save, st.env = st.env, {}
        self.callstack.append((FakeFn(mod), 0))
        try:
            v = self.ev(expr, st)
        finally:
            self.callstack.pop()
            st.env = save
        if len(v.objs) == 1 and not v.consts:
            o = next(iter(v.objs))[0]
            if o in st.heap:
                st.heap[oid] = st.heap[o]
                for m, other in self.module_updates(mod, name):
                    self.callstack.append((FakeFn(m), 0))
                    save, st.env = st.env, {}
                    try:
                        self.method(oid, 'update', [self.ev(other, st)], {}, st, other)
                    finally:
                        self.callstack.pop()
                        st.env = save
                return self.ref(oid)
        return v

    def module_updates(self, mod, name):
        """statements NAME.update(...) at the top level of any module that imports the table NAME of module mod"""
        if not hasattr(self.p, '_module_updates'):
            out = {}
            for m in self.p.modules.values():
                for s in m.tree.body:
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == 'update' \
                            and isinstance(s.value.func.value, ast.Name) and len(s.value.args) == 1:
                        r = self.p.resolve(m, s.value.func.value.id)
                        if r is not None and r[0] == 'const':
                            out.setdefault((r[1][0].name, s.value.func.value.id), []).append((m, s.value.args[0]))
            self.p._module_updates = out
        return self.p._module_updates.get((mod.name, name), [])

    def e_Attribute(self, n, st):
        b = self.ev(n.value, st)
        return self.getattr(b, n.attr, st, n)

    def prop(self, cls, name):
        p = self.p.lookup_prop(cls, name)
        if p is not None:
            return (p.get('get'), p.get('set'))
        c = self.p.lookup_const(cls, name)
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'property':
            fs = [self.p.lookup(cls, a.id) if isinstance(a, ast.Name) else None for a in c.args]
            return (fs[0] if fs else None, fs[1] if len(fs) > 1 else None)
        return None

    def getattr(self, b, attr, st, node, raw=False, default=None):
        out = []
        for c in b.consts:
            out.append(self.const_attr(c, attr, st, node, b))
        for oid, view in b.objs:
            o = st.heap.get(oid)
            if o is None:
                continue
            out.append(self.obj_attr(oid, o, view, attr, st, node, raw))
        if b.top or (not out):
            out.append(top(b.deps))
        return joins(out).dep(b.deps) if out else top(b.deps)

    def const_attr(self, c, attr, st, node, b):
        k = c[0]
        if k == 'class':
            ci = c[2]
            p = self.prop(ci, attr)
            if p is not None:
                return AV(frozenset([('prop', ci.name + '.' + attr, p)]))
            m = self.p.lookup(ci, attr)
            if m is not None:
                return AV(frozenset([('func', m.qualname, m)]))
            e = self.p.lookup_const(ci, attr)
            if e is not None:
                return self.class_const(ci, attr, st)
            if attr == '__name__':
                return const(ci.name)
            return top()
        if k == 'prop':
            f = {'fget': c[2][0], 'fset': c[2][1]}.get(attr)
            return AV(frozenset([('func', f.qualname, f)])) if f is not None else TOP
        if k == 'module':
            if isinstance(c[2], str):
                return AV(frozenset([('ext', c[2] + '.' + attr, c[2] + '.' + attr)]))
            return self.global_name(attr, c[2], st)
        if k == 'ext':
            return AV(frozenset([('ext', c[1] + '.' + attr, c[1] + '.' + attr)]))
        if k == 'type':
            return const(c[1]) if attr == '__name__' else TOP
        if k == 'super':
            oid, mro = c[1], c[2]
            for ci in mro:
                if attr in ci.methods:
                    return AV(frozenset([('bound', oid, ci.methods[attr])]))
            if attr in ('__setattr__', '__getattribute__'):
                return AV(frozenset([('rawattr', oid, attr)]))
            return TOP
        if k == 'c':
            if c[2] is None:
                if len(b.consts) == 1 and not b.objs and not b.top and not attr.startswith('__'):
                    self.event('none-attribute', 'None.%s' % attr, node)
                return AV()           # an attribute of None: that path raises
            return AV(frozenset([('cmeth', c, attr)]))
        return top()

    def class_const(self, ci, attr, st):
        for k in self.p.mro(ci):
            if attr in k.consts:
                e = k.consts[attr]
                self.callstack.append((FakeFn(k.module), 0))
                save, st.env = st.env, {}
                try:
                    return self.ev(e, st)
                finally:
                    self.callstack.pop()
                    st.env = save
        return TOP

    def obj_attr(self, oid, o, view, attr, st, node, raw):
        if o.kind == 'inst':
            if o.cls is not None:
                pr = self.prop(o.cls, attr)
                if pr and pr[0] is not None:
                    return self.call_fn(pr[0], [self.ref(oid)], {}, st, node)
            if attr in o.fields:
                v = o.fields[attr][0]
                return v
            if o.cls is not None:
                m = self.p.lookup(o.cls, attr)
                if m is not None:
                    return AV(frozenset([('bound', oid, m)]))
                if self.p.lookup_const(o.cls, attr) is not None:
                    return self.class_const(o.cls, attr, st)
                if attr == '__class__':
                    return AV(frozenset([('class', o.cls.module.name + '.' + o.cls.name, o.cls)]))
                t = self.p.cattr_type(o.cls, attr)
                if t is not None:
                    # a C attribute that was not set yet
                    return NONE if ('[' in str(t) or not str(t).islower() or str(t) in ('object', 'list', 'dict')) else const(0)
                ga = self.p.lookup(o.cls, '__getattr__') if not raw else None
                if ga is not None:
                    return self.call_fn(ga, [self.ref(oid), const(attr)], {}, st, node)
            if attr == '__dict__':
                return TOP
            self.event('no-attribute', '%s.%s' % (o.label, attr), node)
            return AV()
        if o.kind == 'array':
            if attr in ('shape', 'size', 'ndim', 'dtype'):
                return top(o.shape)
            if attr in ('T', 'base', 'real', 'imag'):
                return AV(objs=frozenset([(oid, view or attr in ('real', 'imag'))]))
            if attr in ('x', 'success', 'info'):
                return top(self.content(st, self.ref(oid)))
        return AV(frozenset([('meth', oid, attr)]))

    def shape_deps(self, st, v):
        d = v.deps
        for oid, w in v.objs:
            o = st.heap.get(oid)
            if o is not None:
                d = d | o.shape
                if o.kind != 'inst' and o.kind != 'array':
                    for s, (sd, ph, acc) in o.stores.items():
                        d = d | sd
        return d

    def ev_index(self, s, st):
        if isinstance(s, ast.Slice):
            d = EMPTY
            for x in (s.lower, s.upper, s.step):
                if x is not None:
                    d = d | self.content(st, self.ev(x, st))
            return top(d)
        if isinstance(s, ast.Tuple):
            vs = [self.ev_index(x, st) for x in s.elts]
            if all(v.one() is not None and v.one()[0] == 'c' for v in vs):
                return const(tuple(v.one()[2] for v in vs), frozenset().union(*[v.deps for v in vs]) if vs else EMPTY)
            return top(frozenset().union(*[self.content(st, v) for v in vs]) if vs else EMPTY)
        v = self.ev(s, st)
        return v if v.one() is not None else AV(v.consts, EMPTY, True, self.content(st, v))

    def e_Subscript(self, n, st):
        b = self.ev(n.value, st)
        i = self.ev_index(n.slice, st)
        return self.subscript(b, i, st, n)

    def subscript(self, b, i, st, n):
        out = []
        isslice = isinstance(getattr(n, 'slice', None), ast.Slice)
        k = i.one()
        for c in b.consts:
            if c[0] == 'globals' and (k is None or k[0] != 'c'):
                if not i.top and not i.objs and not i.consts:
                    continue
                raise Cut('the name looked up in the module is not known')
            if c[0] == 'globals' and k is not None:
                if isinstance(k[2], str) and self.p.resolve(c[2], k[2]) is None:
                    raise Broken('there is no %s in %s' % (k[2], c[2].name))
                out.append(self.global_name(k[2], c[2], st))
            elif c[0] == 'c' and isinstance(c[2], (str, tuple)) and k is not None and isinstance(k[2], int) and not isslice:
                try:
                    out.append(const(c[2][k[2]], b.deps | i.deps))
                except IndexError:
                    pass
            elif c[0] == 'c' and c[2] is None:
                pass
            elif c[0] == 'c' and isinstance(c[2], str) and isinstance(n, ast.Subscript) and isslice:
                s = n.slice
                lo = s.lower.value if isinstance(s.lower, ast.Constant) else None if s.lower is None else 'x'
                hi = s.upper.value if isinstance(s.upper, ast.Constant) else None if s.upper is None else 'x'
                out.append(const(c[2][lo:hi], b.deps) if 'x' not in (lo, hi) else top(b.deps))
            else:
                out.append(top(b.deps | i.deps))
        for oid, view in b.objs:
            o = st.heap.get(oid)
            if o is None:
                continue
            if o.kind in ('list', 'dict', 'tuple', 'set'):
                if isslice:
                    r = self.new(st, 'list', n, extra='slice')
                    m = st.mut(r)
                    m.elem = joins([m.elem, o.elem] + list((o.items if isinstance(o.items, list) else []) or [])).dep(i.deps)
                    m.stores = dict(o.stores)
                    out.append(self.ref(r))
                    continue
                if o.items is not None and k is not None and k[0] == 'c':
                    if isinstance(o.items, dict):
                        if k in o.items:
                            out.append(o.items[k])
                            continue
                    elif isinstance(k[2], int) and -len(o.items) <= k[2] < len(o.items):
                        out.append(o.items[k[2]])
                        continue
                e = self.element(self.ref(oid), st)
                out.append(e.dep(i.deps))
            elif o.kind == 'array':
                full = self.is_whole(n.slice) if isinstance(n, ast.Subscript) else False
                part = False        # certainly not a single element
                if isinstance(n, ast.Subscript):
                    ix = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
                    part = any(isinstance(x, ast.Slice) or isinstance(x, ast.Constant) and x.value is Ellipsis for x in ix)
                    if o.ndim is not None and not view and not part and len(ix) >= o.ndim:
                        out.append(top(i.deps | self.content(st, self.ref(oid))))
                        continue
                    part = part or o.ndim is not None and not view and len(ix) < o.ndim
                r = AV(EMPTY, frozenset([(oid, view or not full)]), not full and not part, i.deps)
                if o.elem.objs:
                    r = join(r, o.elem)
                out.append(r)
            elif o.cls is not None and self.p.lookup(o.cls, '__getitem__') is not None:
                out.append(self.call_fn(self.p.lookup(o.cls, '__getitem__'), [self.ref(oid), i], {}, st, n))
            else:
                out.append(top(i.deps))
        if b.top or not out:
            out.append(top(b.deps | i.deps))
        return joins(out).dep(b.deps)

    def element(self, v, st):
        """any element met when iterating over the value"""
        out = []
        for c in v.consts:
            if c[0] == 'c' and isinstance(c[2], (tuple, str)):
                out += [const(x) for x in c[2]]
            elif c[0] == 'c' and c[2] is None:
                pass
            else:
                out.append(TOP)
        for oid, view in v.objs:
            o = st.heap.get(oid)
            if o is None:
                continue
            if o.kind == 'dict':
                ks = EMPTY
                for s, (sd, ph, acc) in o.stores.items():
                    ks = ks | sd
                out.append(top(self.content(st, self.ref(oid))) if o.items is None else joins([AV(frozenset([k])) for k in o.items]) if o.items else AV())
                if o.items is None:
                    out.append(o.elem)
            elif o.kind in ('list', 'tuple', 'set'):
                out.append(joins([o.elem] + list(o.items or [])))
                d = EMPTY
                for s, (sd, ph, acc) in o.stores.items():
                    d = d | sd
                out.append(AV(deps=d))
            elif o.kind == 'array':
                out.append(AV(EMPTY, frozenset([(oid, True)]), True))
                if o.elem.objs:
                    out.append(o.elem)
            else:
                out.append(TOP)
        if v.top or not out:
            out.append(TOP)
        return joins(out).dep(v.deps)

    def concrete(self, v, st):
        """the elements in order, when they are known one by one"""
        if v.top:
            return None
        if len(v.objs) == 1 and not v.consts:
            oid, view = next(iter(v.objs))
            o = st.heap.get(oid)
            if o is not None and o.kind in ('list', 'tuple') and o.items is not None and not view:
                return [x.dep(v.deps) for x in o.items]
            if o is not None and o.kind == 'dict' and o.items is not None and not view:
                return [AV(frozenset([k])).dep(v.deps) for k in o.items]
        c = v.one()
        if c is not None and c[0] == 'c' and isinstance(c[2], tuple):
            return [const(x, v.deps) for x in c[2]]
        return None

    def e_Tuple(self, n, st):
        vs = [self.ev(x, st) for x in n.elts]
        if all(v.one() is not None and v.one()[0] == 'c' for v in vs):
            return const(tuple(v.one()[2] for v in vs), frozenset().union(*[v.deps for v in vs]) if vs else EMPTY)
        oid = self.new(st, 'tuple', n)
        o = st.mut(oid)
        if not o.multi and not any(isinstance(x, ast.Starred) for x in n.elts):
            o.items = vs
        else:
            o.items = [joins([a, b]) for a, b in zip(o.items, vs)] if o.items is not None and len(o.items) == len(vs) else None
            if o.items is None:
                o.elem = joins([o.elem] + vs)
        return self.ref(oid)

    def e_List(self, n, st):
        vs = [self.ev(x, st) for x in n.elts]
        oid = self.new(st, 'list', n)
        o = st.mut(oid)
        if not o.multi and o.items is None and not o.elem.objs and not any(isinstance(x, ast.Starred) for x in n.elts):
            o.items = vs
        else:
            o.elem = joins([o.elem] + vs + list(o.items or []))
            o.items = None
        return self.ref(oid)
    e_Set = e_List

    def e_Starred(self, n, st):
        return self.ev(n.value, st)

    def e_Dict(self, n, st):
        oid = self.new(st, 'dict', n)
        ks = [self.ev(k, st) if k is not None else TOP for k in n.keys]
        vs = [self.ev(x, st) for x in n.values]
        o = st.mut(oid)
        if not o.multi and all(k.one() is not None for k in ks):
            o.items = {k.one(): v for k, v in zip(ks, vs)}
        else:
            o.elem = joins([o.elem] + vs + ks)
            o.items = None
        return self.ref(oid)

    def comp(self, n, st, kind):
        save = dict(st.env)
        d = EMPTY
        self.loopdepth += 1
        try:
            for g in n.generators:
                it = self.ev(g.iter, st)
                el = self.element(it, st)
                self.assign(g.target, el, st, n)
                d = d | it.deps | self.shape_deps(st, it)
                for c in g.ifs:
                    d = d | self.content(st, self.ev(c, st))
            if isinstance(n, ast.DictComp):
                e = join(self.ev(n.key, st), self.ev(n.value, st))
            else:
                e = self.ev(n.elt, st)
        finally:
            self.loopdepth -= 1
            st.env = save
        oid = self.new(st, kind, n)
        o = st.mut(oid)
        o.elem = join(o.elem, e)
        o.stores[('init',)] = (d | st.pc, self.phase, False)
        return self.ref(oid)

    def e_ListComp(self, n, st):
        return self.comp(n, st, 'list')
    e_GeneratorExp = e_SetComp = e_ListComp

    def e_DictComp(self, n, st):
        return self.comp(n, st, 'dict')

    def e_JoinedStr(self, n, st):
        out, d = '', EMPTY
        for x in n.values:
            if isinstance(x, ast.FormattedValue):
                v = self.ev(x.value, st)
                c = v.one()
                if out is None or c is None or c[0] != 'c' or x.format_spec is not None or x.conversion != -1:
                    out = None
                else:
                    out += str(c[2])
                d = d | self.content(st, v)
            elif out is not None:
                out += str(x.value)
        return const(out, d) if out is not None else top(d)

    def e_Lambda(self, n, st):
        return AV(frozenset([('lambda', id(n), n)]), deps=EMPTY)

    def e_IfExp(self, n, st):
        t = self.ev(n.test, st)
        b = self.truth(t, st)
        d = self.content(st, t)
        if b is not None:
            return self.ev(n.body if b else n.orelse, st).dep(d)
        return join(self.ev(n.body, st), self.ev(n.orelse, st)).dep(d)

    def e_UnaryOp(self, n, st):
        v = self.ev(n.operand, st)
        if isinstance(n.op, ast.Not):
            t = self.truth(v, st)
            d = self.content(st, v)
            return const(not t, d) if t is not None else top(d)
        c = v.one()
        if c is not None and c[0] == 'c' and isinstance(c[2], (int, float)) and isinstance(n.op, ast.USub):
            return const(-c[2], v.deps)
        return top(self.content(st, v))

    def fold(self, op, a, b):
        x, y = a[2], b[2]
        try:
            if isinstance(op, ast.Add) and (type(x) is type(y) or isinstance(x, (int, float)) and isinstance(y, (int, float))):
                return (x + y,)
            if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                if isinstance(op, ast.Sub):
                    return (x - y,)
                if isinstance(op, ast.Mult):
                    return (x * y,)
                if isinstance(op, ast.Mod) and isinstance(x, int) and isinstance(y, int) and y > 0:
                    return (x % y,)
        except Exception:
            pass
        return None

    def e_BinOp(self, n, st):
        a, b = self.ev(n.left, st), self.ev(n.right, st)
        x, y = a.one(), b.one()
        d = self.content(st, a) | self.content(st, b)
        if x is not None and y is not None and x[0] == 'c' and y[0] == 'c':
            r = self.fold(n.op, x, y)
            if r is not None:
                return const(r[0], d)
        lists = [o for o, w in a.objs | b.objs if o in st.heap and st.heap[o].kind in ('list', 'tuple')]
        if isinstance(n.op, ast.Mod) and x is not None and isinstance(x[-1], str):
            p = self.concrete(b, st) if lists or y is not None and isinstance(y[-1], tuple) else [b]
            cs = [v.one() for v in p] if p is not None else [None]
            if all(c is not None and c[0] == 'c' for c in cs):
                try:
                    return const(x[-1] % tuple(c[2] for c in cs), d)
                except (TypeError, ValueError):
                    pass
            return top(d)
        if lists and isinstance(n.op, (ast.Add, ast.Mult)):
            oid = self.new(st, 'list', n)
            o = st.mut(oid)
            if isinstance(n.op, ast.Add) and not o.multi:
                p, q = self.concrete(a, st), self.concrete(b, st)
                if p is not None and q is not None:
                    o.items = p + q
                    return self.ref(oid)
            o.elem = joins([o.elem] + [self.element(v, st) for v in (a, b) if any(q in lists for q, w in v.objs)])
            o.stores[('init',)] = (d, self.phase, False)
            return self.ref(oid)
        return top(d)

    def e_BoolOp(self, n, st):
        vs = []
        d = EMPTY
        isand = isinstance(n.op, ast.And)
        for x in n.values:
            v = self.ev(x, st)
            t = self.truth(v, st)
            d = d | self.content(st, v)
            vs.append(v)
            if t is (not isand):
                if len(vs) == 1 or all(self.truth(w, st) is not None for w in vs[:-1]):
                    return AV(v.consts, v.objs, v.top, v.deps | d)
        ts = [self.truth(v, st) for v in vs]
        if isand and False in ts:
            return const(False, d)
        if not isand and True in ts:
            return const(True, d)
        if None not in ts:
            return AV(vs[-1].consts, vs[-1].objs, vs[-1].top, vs[-1].deps | d)
        r = joins([AV(v.consts, v.objs, v.top, EMPTY) for v in vs])
        return AV(r.consts, r.objs, True if not r.objs else r.top, d)

    def e_Compare(self, n, st):
        vals = [self.ev(n.left, st)] + [self.ev(c, st) for c in n.comparators]
        # which object it is does not depend on what is in it
        same = all(isinstance(o, (ast.Is, ast.IsNot)) for o in n.ops) and not any(v.top for v in vals)
        d = frozenset().union(*[v.deps if same else self.content(st, v) for v in vals])
        res = True
        for op, a, b in zip(n.ops, vals, vals[1:]):
            t = self.compare(op, a, b, st)
            if t is False:
                return const(False, d)
            if t is None:
                res = None
        return const(True, d) if res else top(d)

    def compare(self, op, a, b, st):
        none = C(None)
        if isinstance(op, (ast.Is, ast.IsNot)):
            pos = isinstance(op, ast.Is)
            if b.one() == none:
                if a.one() == none:
                    return pos
                if none not in a.consts and not a.top:
                    return not pos
                if none not in a.consts and a.top and not a.consts:
                    return not pos if not self.maybe_none(a) else None
                return None
            x, y = a.one(), b.one()
            if x is not None and y is not None and x[0] == y[0]:
                return (x[1:] == y[1:]) == pos
            return None
        x, y = a.one(), b.one()
        if isinstance(op, (ast.Eq, ast.NotEq)) and x is not None and y is not None:
            if x[0] == 'c' and y[0] == 'c':
                return (x[2] == y[2]) == isinstance(op, ast.Eq)
            if x[0] == y[0]:
                return (x[1] == y[1]) == isinstance(op, ast.Eq)
        if isinstance(op, (ast.Eq, ast.NotEq)) and x is not None and x[0] == 'c' and isinstance(x[2], str) and b.consts and not b.top and not b.objs:
            if all(c != x for c in b.consts):
                return isinstance(op, ast.NotEq)
        if isinstance(op, (ast.Eq, ast.NotEq)) and y is not None and y[0] == 'c' and a.consts and not a.top and not a.objs:
            if all(c[0] == 'c' and c[2] != y[2] for c in a.consts):
                return isinstance(op, ast.NotEq)
        if isinstance(op, (ast.In, ast.NotIn)) and x is not None:
            seq = self.concrete(b, st)
            if seq is None and len(b.objs) == 1 and not b.consts and not b.top:
                o = st.heap.get(next(iter(b.objs))[0])
                if o is not None and o.items is not None:
                    seq = list(o.items) if isinstance(o.items, list) else [AV(frozenset([k])) for k in o.items]
            if seq is not None and all(v.one() is not None for v in seq):
                return (x in [v.one() for v in seq]) == isinstance(op, ast.In)
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and x is not None and y is not None and x[0] == 'c' and y[0] == 'c' \
                and isinstance(x[2], (int, float)) and isinstance(y[2], (int, float)):
            return {ast.Lt: x[2] < y[2], ast.LtE: x[2] <= y[2], ast.Gt: x[2] > y[2], ast.GtE: x[2] >= y[2]}[type(op)]
        return None

    def maybe_none(self, a):
        return False

    def truth(self, v, st):
        ts = set()
        for c in v.consts:
            ts.add(bool(c[2]) if c[0] == 'c' else True)
        for oid, w in v.objs:
            o = st.heap.get(oid)
            if o is None or o.kind in ('list', 'dict', 'tuple', 'set', 'array'):
                if o is not None and o.items is not None:
                    ts.add(bool(o.items))
                    continue
                return None
            ts.add(True)
        if v.top:
            return None
        return ts.pop() if len(ts) == 1 else None

    # ------------------------------------------------------------------- calls
    def e_Call(self, n, st):
        f = n.func
        if isinstance(f, ast.Name) and f.id not in st.env:
            if f.id == 'super':
                return self.make_super(n, st)
            if f.id == 'globals':
                m = self.callstack[-1][0].module
                return AV(frozenset([('globals', m.name, m)]))
            if f.id == 'locals':
                oid = self.new(st, 'dict', n)
                st.mut(oid).items = {C(k): v for k, v in st.env.items()}
                return self.ref(oid)
            if f.id == '__addr__' and len(n.args) == 1:
                x = n.args[0]
                if isinstance(x, ast.Subscript):
                    v = self.ev(x.value, st)
                    return AV(v.consts, frozenset((o, True) for o, w in v.objs), v.top, v.deps)
                return self.ev(x, st)
            if f.id == '__cast__' and n.args:
                return self.ev(n.args[-1], st)
            if f.id == '__sizeof__':
                return TOP
        fv = self.ev(f, st)
        args, star = [], False
        for a in n.args:
            v = self.ev(a, st)
            if isinstance(a, ast.Starred):
                seq = self.concrete(v, st)
                if seq is not None:
                    args += seq
                else:
                    star = True
                    args.append(self.element(v, st))
            else:
                args.append(v)
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                seq = v
                for oid, w in v.objs:
                    o = st.heap.get(oid)
                    if o is not None and isinstance(o.items, dict):
                        for kk, vv in o.items.items():
                            if isinstance(kk[2], str):
                                kw[kk[2]] = vv
                continue
            kw[k.arg] = v
        return self.call(fv, args, kw, st, n)

    def make_super(self, n, st):
        fn = self.callstack[-1][0]
        me = fn.args[0] if fn.args else 'self'
        v = st.env.get(me)
        if v is None or fn.cls is None:
            return TOP
        for oid, w in v.objs:
            o = st.heap.get(oid)
            if o is None or o.cls is None:
                continue
            mro = self.p.mro(o.cls)
            rest = mro[[c is fn.cls for c in mro].index(True) + 1:] if any(c is fn.cls for c in mro) else []
            return AV(frozenset([('super', oid, tuple(rest))]))
        return TOP

    def call(self, fv, args, kw, st, node):
        out = []
        d = fv.deps
        for c in sorted(fv.consts, key=lambda c: str(c[:2])):
            out.append(self.call_const(c, args, kw, st, node))
        for oid, w in fv.objs:
            o = st.heap.get(oid)
            if o is not None and o.cls is not None and self.p.lookup(o.cls, '__call__'):
                out.append(self.call_fn(self.p.lookup(o.cls, '__call__'), [self.ref(oid)] + args, kw, st, node))
            else:
                out.append(top(self.argdeps(args, kw, st)))
        if fv.top or not out:
            out.append(top(self.argdeps(args, kw, st)))
        return joins(out).dep(d)

    def argdeps(self, args, kw, st):
        d = EMPTY
        for v in list(args) + list(kw.values()):
            d = d | self.content(st, v)
        return d

    def call_const(self, c, args, kw, st, node):
        k = c[0]
        if k == 'bound':
            return self.call_fn(c[2], [self.ref(c[1])] + args, kw, st, node)
        if k == 'func':
            return self.call_fn(c[2], args, kw, st, node)
        if k == 'class':
            return self.instantiate(c[2], args, kw, st, node)
        if k == 'builtin':
            return self.builtin(c[1], args, kw, st, node)
        if k == 'ext':
            return self.external(c[1], args, kw, st, node)
        if k == 'meth':
            return self.method(c[1], c[2], args, kw, st, node)
        if k == 'cmeth':
            v, name = c[1][2], c[2]
            if isinstance(v, str) and name in ('capitalize', 'lower', 'upper', 'strip'):
                return const(getattr(v, name)())
            if isinstance(v, str) and name in ('startswith', 'endswith') and args and args[0].one() is not None:
                return const(getattr(v, name)(args[0].one()[2]))
            cs = [a.one() for a in args]
            if isinstance(v, str) and name in ('replace', 'format', 'lstrip', 'rstrip', 'title') and not kw and all(c is not None and c[0] == 'c' for c in cs):
                return const(getattr(v, name)(*[c[2] for c in cs]), self.argdeps(args, kw, st))
            return top(self.argdeps(args, kw, st))
        if k == 'rawattr':
            if c[2] == '__setattr__' and len(args) == 2 and args[0].one() is not None:
                self.setattr(self.ref(c[1]), args[0].one()[2], args[1], st, node, True)
                return NONE
            if c[2] == '__getattribute__' and args[0].one() is not None:
                o = st.heap[c[1]]
                return self.obj_attr(c[1], o, False, args[0].one()[2], st, node, True)
            return TOP
        if k == 'lambda':
            n = c[2]
            save = dict(st.env)
            for a, v in zip(n.args.args, args):
                st.env[a.arg] = v
            try:
                return self.ev(n.body, st)
            finally:
                st.env = save
        return top(self.argdeps(args, kw, st))

    def instantiate(self, ci, args, kw, st, node):
        if ci.name in self.class_hooks:
            r = self.class_hooks[ci.name](self, ci, args, kw, st, node)
            if r is not None:
                return r
        oid = self.new(st, 'inst', node, ci)
        base = ci.name
        n = 0
        used = {o.label for q, o in st.heap.items() if q != oid}
        lab = base
        while lab in used:
            n += 1
            lab = '%s#%d' % (base, n)
        st.mut(oid).label = lab
        init = self.p.lookup(ci, '__init__')
        for pre in ('__cinit__',):
            f = self.p.lookup(ci, pre)
            if f is not None:
                self.call_fn(f, [self.ref(oid)] + args, kw, st, node)
        if init is not None:
            self.call_fn(init, [self.ref(oid)] + args, kw, st, node)
        return self.ref(oid)

    class_hooks = {}

    def bind(self, fn, args, kw, st, node):
        a = fn.node.args
        names = [x.arg for x in a.args]
        env = {}
        for n, v in zip(names, args):
            env[n] = v
        if a.vararg is not None:
            extra = args[len(names):]
            oid = self.new(st, 'tuple', node, extra='varargs')
            o = st.mut(oid)
            o.items = list(extra)
            env[a.vararg.arg] = self.ref(oid)
        rest = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            else:
                rest[k] = v
        if a.kwarg is not None:
            oid = self.new(st, 'dict', node, extra='kwargs')
            st.mut(oid).items = {C(k): v for k, v in rest.items()}
            env[a.kwarg.arg] = self.ref(oid)
        defs = a.defaults
        for n, dflt in zip(names[len(names) - len(defs):], defs):
            if n not in env:
                env[n] = self.default(fn, n, dflt, st)
        for x, dflt in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and dflt is not None:
                env[x.arg] = self.default(fn, x.arg, dflt, st)
        for n in names:
            if n not in env:
                env[n] = TOP
        return env

    def default(self, fn, name, expr, st):
        if isinstance(expr, (ast.List, ast.Dict, ast.Set)):
            # one object for all calls
            oid = hash(('default', fn.module.name, fn.qualname, name))
            if oid not in st.heap:
                o = Obj('dict' if isinstance(expr, ast.Dict) else 'list', label='default of %s' % name, user='the default value of %s in %s' % (name, fn.qualname))
                o.items = {} if isinstance(expr, ast.Dict) else [TOP for x in expr.elts]
                st.heap[oid] = o
            return self.ref(oid)
        save, st.env = st.env, {}
        self.callstack.append((FakeFn(fn.module), 0))
        try:
            return self.ev(expr, st)
        finally:
            self.callstack.pop()
            st.env = save

    def stored_params(self, fn):
        """parameters whose elements a function (or what it hands them to) stores into"""
        if fn not in self.stored_cache:
            self.stored_cache[fn] = set()
            out = set()
            alias = {n: {n} for n in fn.args}
            for x in ast.walk(fn.node):
                if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id in alias:
                    for t in x.targets:
                        if isinstance(t, ast.Name):
                            alias.setdefault(t.id, set()).update(alias[x.value.id])
            for x in ast.walk(fn.node):
                ts = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, ast.AugAssign) else []
                for t in ts:
                    for y in (t.elts if isinstance(t, ast.Tuple) else [t]):
                        if isinstance(y, ast.Subscript) and isinstance(y.value, ast.Name):
                            out |= alias.get(y.value.id, set())
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name):
                    r = self.p.resolve(fn.module, x.func.id)
                    if r is not None and r[0] == 'func':
                        sub = self.stored_params(r[1])
                        for a, n in zip(x.args, r[1].args):
                            if n in sub and isinstance(a, ast.Name):
                                out |= alias.get(a.id, set())
            self.stored_cache[fn] = out & set(fn.args)
        return self.stored_cache[fn]

    def call_fn(self, fn, args, kw, st, node):
        if fn.cls is None and fn.module.name.startswith(self.pure):
            w = self.stored_params(fn)
            d = self.argdeps([v for n, v in zip(fn.args, args) if n not in w] + args[len(fn.args):], {k: v for k, v in kw.items() if k not in w}, st) | st.pc
            for n, v in list(zip(fn.args, args)) + list(kw.items()):
                if n in w:
                    for oid, view in v.objs:
                        if oid in st.heap and st.heap[oid].kind == 'array':
                            o = st.mut(oid)
                            if o.user:
                                self.event('user-write', o.user, node, 'through %s()' % fn.name)
                            self.array_store(o, ('out', fn.name, getattr(node, 'lineno', 0)), d, False, False, node, st)
            return top(d)
        h = self.hooks.get(fn.name)
        if h is not None:
            r = h(self, fn, args, kw, st, node)
            if r is not None:
                return r
        if len(self.callstack) > self.MAXDEPTH or sum(1 for f, n in self.callstack if f is fn) > 1:
            self.note('recursion in %s' % fn.qualname)
            return top(self.argdeps(args, kw, st))
        self.visited.add(fn)
        env = self.bind(fn, args, kw, st, node)
        save_env, save_ret, save_pc = st.env, st.ret, st.pc
        st.env, st.ret = env, None
        self.callstack.append((fn, getattr(node, 'lineno', 0)))
        try:
            r = self.block(fn.node.body, st)
        finally:
            self.callstack.pop()
        fin = None
        for k in ('next', 'return'):
            if k in r:
                x = r[k]
                if k == 'next':
                    x.ret = NONE if x.ret is None else join(x.ret, NONE)
                fin = x if fin is None else self.join_states(fin, x, save_pc)
        raised = r.get('raise')
        if fin is None:
            fin = raised if raised is not None else st
            fin.ret = fin.ret or AV()
            if raised is not None:
                self.event('raises', fn.qualname, node)
        ret = fin.ret if fin.ret is not None else NONE
        # the caller goes on with this state
        st.heap, st.owned = fin.heap, fin.owned if fin is st else set()
        st.env, st.ret, st.pc = save_env, save_ret, save_pc
        return ret

    # --------------------------------------------------------- built-in models
    def fresh_array(self, st, node, deps, extra='', shape=EMPTY):
        oid = self.new(st, 'array', node, extra=extra, label='array')
        o = st.mut(oid)
        if o.multi:
            o.stores[('init',)] = (o.stores.get(('init',), (EMPTY, 0, False))[0] | deps, self.phase, False)
        else:
            o.stores = {('init',): (deps, self.phase, False)}
        o.shape = o.shape | shape | st.pc
        return self.ref(oid)

    def has_attr(self, st, oid, attr):
        o = st.heap.get(oid)
        if o is None or o.kind != 'inst' or o.cls is None:
            return None
        if attr in o.fields or self.p.lookup(o.cls, attr) is not None or self.p.lookup_const(o.cls, attr) is not None or self.prop(o.cls, attr):
            return True
        if self.p.cattr_type(o.cls, attr) is not None or self.p.lookup(o.cls, '__getattr__') is not None:
            return None
        return False

    def builtin(self, name, args, kw, st, node):
        d = self.argdeps(args, kw, st)
        if name in ('hasattr', 'getattr') and len(args) >= 2 and args[1].one() is not None:
            has = {self.has_attr(st, q, args[1].one()[2]) for q, w in args[0].objs} | ({None} if args[0].consts or args[0].top or not args[0].objs else set())
            if name == 'hasattr' and len(has) == 1 and None not in has:
                return const(has == {True}, args[0].deps)
            if name == 'getattr' and len(args) == 3 and has == {False}:
                return args[2]
            if name == 'getattr' and len(args) == 3 and has != {True} and not args[0].consts:
                return join(self.getattr(AV(frozenset(), frozenset(x for x in args[0].objs if self.has_attr(st, x[0], args[1].one()[2])), args[0].top, args[0].deps),
                                         args[1].one()[2], st, node), args[2])
        if name == 'getattr' and len(args) >= 2 and args[1].one() is not None:
            return self.getattr(args[0], args[1].one()[2], st, node)
        if name == 'setattr' and len(args) == 3 and args[1].one() is not None:
            self.setattr(args[0], args[1].one()[2], args[2], st, node)
            return NONE
        if name == 'isinstance' and len(args) == 2:
            return self.isinstance(args[0], args[1], st)
        if name == 'issubclass' and len(args) == 2:
            a, b = args[0].one(), args[1].one()
            if a is not None and b is not None and a[0] == 'class' and b[0] == 'class':
                return const(any(c is b[2] for c in self.p.mro(a[2])) or True)
            return top(d)
        if name == 'type' and len(args) == 1:
            out = []
            for oid, w in args[0].objs:
                o = st.heap.get(oid)
                if o is not None and o.cls is not None:
                    out.append(AV(frozenset([('class', o.cls.module.name + '.' + o.cls.name, o.cls)])))
                elif o is not None:
                    out.append(AV(frozenset([('type', {'array': 'ndarray'}.get(o.kind, o.kind), None)])))
            return joins(out) if out and not args[0].top else TOP
        if name in ('list', 'tuple', 'set', 'sorted', 'reversed', 'dict', 'enumerate', 'zip', 'map', 'filter', 'frozenset'):
            kind = {'dict': 'dict', 'set': 'set', 'tuple': 'tuple'}.get(name, 'list')
            oid = self.new(st, kind, node)
            o = st.mut(oid)
            if name in ('list', 'tuple', 'dict') and len(args) == 1:
                seq = self.concrete(args[0], st) if kind != 'dict' else None
                src = st.heap.get(next(iter(args[0].objs))[0]) if len(args[0].objs) == 1 and not args[0].top else None
                if seq is not None and not o.multi:
                    o.items = seq
                    return self.ref(oid)
                if kind == 'dict' and src is not None and isinstance(src.items, dict) and not o.multi:
                    o.items = dict(src.items)
                    return self.ref(oid)
            if kind == 'dict' and not args and not o.multi:
                o.items = {C(k): v for k, v in kw.items()}
                return self.ref(oid)
            if kind == 'list' and not args and not o.multi:
                o.items = []
                return self.ref(oid)
            els = [self.element(a, st) for a in args if not (a.consts and all(c[0] in ('func', 'builtin', 'lambda', 'ext', 'bound') for c in a.consts))]
            if name in ('enumerate', 'zip') or len(args) > 1:
                els.append(top(d))
            o.elem = joins([o.elem] + els)
            o.items = None
            o.stores[('init',)] = (d if kind == 'dict' else frozenset().union(*[self.shape_deps(st, a) for a in args]) if args else EMPTY, self.phase, False)
            return self.ref(oid)
        if name == 'len' and len(args) == 1:
            seq = self.concrete(args[0], st)
            if seq is not None:
                return const(len(seq), args[0].deps)
            return top(self.shape_deps(st, args[0]))
        if name == 'callable':
            return top(d)
        if name == 'print':
            self.event('print', '', node)
            return NONE
        if name in ('max', 'min', 'sum', 'abs', 'range', 'int', 'float', 'complex', 'bool', 'round', 'str', 'repr', 'any', 'all', 'hasattr', 'divmod', 'pow', 'ord', 'chr',
                    'prange', 'cast', 'hash', 'id', 'format', 'iter', 'next', 'open', 'slice', 'vars', 'object', 'property', 'addr', 'sizeof', 'input', 'dir', 'deref', 'malloc', 'free'):
            if name == 'cast' and len(args) == 2:
                return args[1]
            if name in ('int', 'float', 'bool') and len(args) == 1 and args[0].one() is not None and args[0].one()[0] == 'c' and isinstance(args[0].one()[2], (int, float, bool)):
                return const({'int': int, 'float': float, 'bool': bool}[name](args[0].one()[2]), args[0].deps)
            return top(d)
        if name.endswith('Error') or name in ('Exception', 'StopIteration', 'Warning'):
            return top(d)
        self.note('unknown function %s()' % name)
        self.pointer_call(args, kw, st, node)
        return top(d)

    def isinstance(self, v, c, st):
        if v.top or v.consts and any(x[0] != 'c' for x in v.consts) and len(v.consts) > 1:
            return top(v.deps)
        cs = []
        seq = self.concrete(c, st)
        for x in (seq if seq is not None else [c]):
            k = x.one()
            if k is None:
                return top(v.deps)
            cs.append(k)
        res = set()
        for x in v.consts:
            names = {k[1].split('.')[-1] for k in cs}
            if x[0] == 'c':
                res.add(x[1] in names or (x[1] == 'bool' and 'int' in names))
            else:
                res.add(False)
        for oid, w in v.objs:
            o = st.heap.get(oid)
            if o is None:
                return top(v.deps)
            if o.kind == 'inst':
                mro = self.p.mro(o.cls) if o.cls else []
                res.add(any(k[0] == 'class' and any(k[2] is m for m in mro) for k in cs))
            else:
                if getattr(o, 'label', '') == 'any':
                    return top(v.deps)
                res.add(any(k[1].split('.')[-1] == {'array': 'ndarray'}.get(o.kind, o.kind) for k in cs))
        if len(res) == 1:
            return const(res.pop(), v.deps)
        return top(v.deps)

    def pointer_call(self, args, kw, st, node):
        """a C function working through pointers may change every array it can reach"""
        d = self.argdeps(args, kw, st)
        for v in args:
            for oid, w in v.objs:
                o = st.heap.get(oid)
                if o is not None and o.kind == 'array':
                    self.array_store(st.mut(oid), ('call', getattr(node, 'lineno', 0)), d, False, False, node, st)

    def external(self, name, args, kw, st, node):
        leaf = name.split('.')[-1]
        root = name.split('.')[0]
        d = self.argdeps(args, kw, st) | st.pc
        if leaf in SOLVERS and (root in ('numpy', 'scipy')):
            m = kw.get('method')
            m = '?' if m is None or m.one() is None else str(m.one()[2])
            self.event('solver', leaf + (':' + m if leaf == 'root' else ''), node)
        if leaf == 'deepcopy' and args:
            return self.deepcopy(args[0], st, node, {})
        if leaf == 'copy' and root == 'copy' and args:
            return self.deepcopy(args[0], st, node, {}, shallow=True)
        if 'out' in kw:
            for oid, w in kw['out'].objs:
                if oid in st.heap and st.heap[oid].kind == 'array':
                    o = st.mut(oid)
                    if o.user:
                        self.event('user-write', o.user, node, 'out=')
                    self.array_store(o, ('out', getattr(node, 'lineno', 0)), d, False, not w, node, st)
        if root in ('numpy', 'np'):
            if leaf in ARRAY_FUNCS:
                r = self.fresh_array(st, node, EMPTY if leaf not in ('full',) else d, shape=d)
                if args and leaf in ('zeros', 'ones', 'empty', 'full'):
                    c, seq = args[0].one(), self.concrete(args[0], st)
                    o = st.mut(next(iter(r.objs))[0])
                    o.ndim = len(seq) if seq is not None else 1 if c is not None and c[0] == 'c' and isinstance(c[2], int) else None
                return r
            if leaf in ALIAS_FUNCS and args:
                objs = frozenset((o, leaf not in ('asarray', 'asanyarray') or w) for o, w in args[0].objs if o not in st.heap or st.heap[o].kind not in ('list', 'dict'))
                if objs:
                    return join(AV(objs=objs, deps=args[0].deps), self.fresh_array(st, node, d)) if any(st.heap[o].kind != 'array' for o, w in objs if o in st.heap) or len(objs) < len(args[0].objs) else AV(objs=objs, deps=args[0].deps)
                return self.fresh_array(st, node, d, shape=d)
            if leaf in ('fill_diagonal', 'put', 'copyto', 'place', 'putmask') or name.endswith('.add.at'):
                for oid, w in args[0].objs:
                    if oid in st.heap and st.heap[oid].kind == 'array':
                        o = st.mut(oid)
                        if o.user:
                            self.event('user-write', o.user, node, leaf)
                        self.array_store(o, ('s', leaf, getattr(node, 'lineno', 0)), d, leaf == 'at', leaf == 'copyto' and not w, node, st)
                return NONE
            if leaf in ('ndarray', 'float64', 'complex128', 'int64', 'inf', 'pi', 'nan') and not args:
                return TOP
            if leaf in ('lstsq', 'eigh', 'eig', 'svd'):
                oid = self.new(st, 'tuple', node)
                o = st.mut(oid)
                a = self.fresh_array(st, node, d, extra='0')
                b = self.fresh_array(st, node, d, extra='1')
                o = st.mut(oid)
                if leaf in ('eigh', 'eig') and not o.multi:
                    o.items = [a, b]
                else:
                    o.items = None
                    o.elem = joins([o.elem, a, b])
                return self.ref(oid)
            if any(v.objs or v.top for v in args) or leaf in COPY_FUNCS:
                sh = EMPTY
                if leaf in ('array', 'copy'):
                    sh = frozenset().union(*[self.shape_deps(st, v) for v in args[:1]])
                elif leaf in ('linspace', 'arange'):
                    sh = d
                return self.fresh_array(st, node, d, shape=sh)
            return top(d)
        if name == 'scipy.optimize.root' or leaf == 'root' and root == 'scipy':
            if args:
                x = self.fresh_array(st, node, self.argdeps(args[1:], kw, st), extra='trial')
                r = self.call(args[0], [x], {}, st, node)
                d = d | self.content(st, r)
            oid = self.new(st, 'inst', node, extra='rootresult')
            o = st.mut(oid)
            o.kind, o.cls, o.label = 'inst', None, 'root result'
            a = self.fresh_array(st, node, d, extra='solution')
            o = st.mut(oid)
            o.fields = {'x': (a, self.phase), 'success': (top(d), self.phase), 'message': (top(d), self.phase)}
            return self.ref(oid)
        if 'lapack' in name:
            io = LAPACK.get(leaf)
            if io is None:
                self.note('unknown LAPACK routine %s' % leaf)
                io = 'u' * len(args)
            d = self.argdeps([v for k, v in zip(io, args) if k in 'iu'], {}, st) | st.pc
            for k, v in zip(io, args):
                for oid, w in v.objs if k in 'ou' else ():
                    o = st.heap.get(oid)
                    if o is not None and o.kind == 'array':
                        self.array_store(st.mut(oid), ('call', getattr(node, 'lineno', 0)), d, False, k == 'o', node, st)
                    if o is not None and o.user:
                        self.event('user-write', o.user, node, leaf)
            for k, a in zip(io, getattr(node, 'args', [])):
                if k in 'ou' and isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == '__addr__':
                    t = a.args[0]
                    if isinstance(t, (ast.Attribute, ast.Name)) and not any(x in st.heap and st.heap[x].kind == 'array' for x, w in self.ev(t, st).objs):
                        self.scalar_out(t, d, st, node)
            return TOP
        if root == 'itertools':
            oid = self.new(st, 'list', node)
            o = st.mut(oid)
            tid = self.new(st, 'tuple', node, extra='it')
            t = st.mut(tid)
            t.elem = joins([t.elem] + [self.element(a, st) for a in args])
            t.stores[('init',)] = (d, self.phase, False)
            o = st.mut(oid)
            o.elem = join(o.elem, self.ref(tid))
            o.stores[('init',)] = (d, self.phase, False)
            return self.ref(oid)
        # callbacks given to integrators and the like
        for v in list(args) + list(kw.values()):
            for c in v.consts:
                if c[0] in ('bound', 'lambda'):
                    r = self.call_const(c, [TOP] if c[0] == 'lambda' else [TOP] * (len(c[2].args) - 1), {}, st, node)
                    d = d | self.content(st, r)
        return top(d)

    def scalar_out(self, t, d, st, node):
        """a C function stores a number through a pointer"""
        if isinstance(t, ast.Name):
            st.env[t.id] = top(d)
        else:
            for oid, w in self.ev(t.value, st).objs:
                if oid in st.heap and st.heap[oid].kind == 'inst':
                    st.mut(oid).fields[t.attr] = (top(d), self.phase)

    def deepcopy(self, v, st, node, memo, shallow=False, depth=0):
        objs = set()
        for oid, w in v.objs:
            o = st.heap.get(oid)
            if o is None:
                continue
            if oid in memo:
                objs.add((memo[oid], False))
                continue
            nid = hash((oid, 'copy', self.phase, tuple((f.qualname, n) for f, n in self.callstack), getattr(node, 'lineno', 0)))
            memo[oid] = nid
            c = o.copy()
            c.user = ''
            c.born = self.phase
            st.heap[nid] = c
            st.owned.add(nid)
            objs.add((nid, False))
            if not shallow and depth < 8:
                if c.items is not None:
                    if isinstance(c.items, list):
                        c.items = [self.deepcopy(x, st, node, memo, False, depth + 1) for x in c.items]
                    else:
                        c.items = {k: self.deepcopy(x, st, node, memo, False, depth + 1) for k, x in c.items.items()}
                c.elem = self.deepcopy(c.elem, st, node, memo, False, depth + 1)
                c.fields = {k: (self.deepcopy(x, st, node, memo, False, depth + 1), p) for k, (x, p) in c.fields.items()}
        return AV(v.consts, frozenset(objs), v.top, v.deps)

    def method(self, oid, name, args, kw, st, node):
        o = st.heap.get(oid)
        d = self.argdeps(args, kw, st)
        if o is None:
            return top(d)
        mine = self.content(st, self.ref(oid))
        if name in MUTATING and o.kind in ('list', 'dict', 'set', 'array', 'tuple'):
            if name == 'sort' or o.kind != 'array' or name in ('fill', 'itemset', 'put', 'resize'):
                o = st.mut(oid)
                if o.user:
                    self.event('user-write', o.user, node, '.%s()' % name)
                if self.tracked:
                    self.changed(st, [oid])
        site = ('s', self.callstack[-1][0].module.name if self.callstack else '', getattr(node, 'lineno', 0))
        if o.kind == 'array':
            if name == 'fill':
                self.array_store(st.mut(oid), site, d | st.pc, False, True, node, st)
                return NONE
            if name == 'sort':
                self.array_store(st.mut(oid), site, mine | d | st.pc, False, False, node, st)
                return NONE
            if name in ALIAS_METHODS:
                return AV(objs=frozenset([(oid, True)]))
            if name in ('copy', 'astype', 'conj', 'conjugate', 'dot', 'flatten', 'tolist', 'sum', 'take', 'repeat'):
                return self.fresh_array(st, node, mine | d)
            return top(mine | d)
        if o.kind in ('list', 'set', 'tuple'):
            if name in ('append', 'add') and args:
                o = st.mut(oid)
                if o.items is not None and not self.loopdepth and not o.multi and o.kind == 'list':
                    o.items.append(args[0].dep(st.pc))
                else:
                    if o.items is not None:
                        o.elem = joins([o.elem] + list(o.items))
                        o.items = None
                    o.elem = join(o.elem, args[0])
                    o.stores[site] = (st.pc | (o.stores.get(site, (EMPTY, 0, 0))[0] if o.stores.get(site, (0, 0, 0))[1] == self.phase else EMPTY), self.phase, True)
                return NONE
            if name in ('extend', 'insert') and args:
                o = st.mut(oid)
                if o.items is not None:
                    o.elem = joins([o.elem] + list(o.items))
                    o.items = None
                o.elem = join(o.elem, self.element(args[-1], st) if name == 'extend' else args[-1])
                o.stores[site] = (st.pc, self.phase, True)
                return NONE
            if name in ('pop', 'remove', 'sort', 'reverse', 'clear', 'discard'):
                o = st.mut(oid)
                if name == 'clear':
                    o.items, o.elem, o.stores = [], AV(), {}
                    return NONE
                e = self.element(self.ref(oid), st)
                if o.items is not None:
                    o.elem = joins([o.elem] + list(o.items))
                    o.items = None
                o.stores[site] = (st.pc | d, self.phase, True)
                return e if name == 'pop' else NONE
            if name == 'copy':
                return self.deepcopy(self.ref(oid), st, node, {}, shallow=True)
            return top(mine | d)
        if o.kind == 'dict':
            if name == 'update':
                o = st.mut(oid)
                src = args[0] if args else AV()
                srcs = [st.heap[x] for x, w in src.objs if x in st.heap]
                if o.items is not None and len(srcs) == 1 and isinstance(srcs[0].items, dict) and not o.multi and not self.loopdepth:
                    o.items.update(srcs[0].items)
                else:
                    if o.items is not None:
                        o.elem = joins([o.elem] + list(o.items.values()) + [AV(frozenset([k])) for k in o.items])
                        o.items = None
                    for s in srcs:
                        o.elem = joins([o.elem, s.elem] + (list(s.items.values()) if isinstance(s.items, dict) else []))
                    o.stores[site] = (d | st.pc, self.phase, True)
                return NONE
            if name in ('pop', 'setdefault', 'popitem', 'clear'):
                o = st.mut(oid)
                if name == 'clear':
                    o.items, o.elem, o.stores = {}, AV(), {}
                    return NONE
                if o.items is not None:
                    o.elem = joins([o.elem] + list(o.items.values()))
                    o.items = None
                if name == 'setdefault' and len(args) > 1:
                    o.elem = join(o.elem, args[1])
                o.stores[site] = (st.pc | d, self.phase, True)
                return o.elem.dep(mine)
            if name == 'get' and args:
                k = args[0].one()
                if o.items is not None and k is not None:
                    if k in o.items:
                        return o.items[k]
                    return args[1] if len(args) > 1 else NONE
                return joins([o.elem] + (list(o.items.values()) if o.items else []) + [args[1] if len(args) > 1 else NONE]).dep(d)
            if name in ('keys', 'values', 'items'):
                oid2 = self.new(st, 'list', node, extra=name)
                r = st.mut(oid2)
                if o.items is not None and not r.multi:
                    if name == 'keys':
                        r.items = [AV(frozenset([k])) for k in o.items]
                    elif name == 'values':
                        r.items = list(o.items.values())
                    else:
                        r.elem = joins([TOP] + list(o.items.values()))
                else:
                    r.elem = joins([r.elem, o.elem, top(mine)])
                r.stores[('init',)] = (mine, self.phase, False)
                return self.ref(oid2)
            if name == 'copy':
                return self.deepcopy(self.ref(oid), st, node, {}, shallow=True)
            return top(mine | d)
        return top(mine | d)


class FakeFn(object):
    def __init__(self, module):
        self.module, self.qualname, self.name, self.cls, self.args = module, '<module>', '<module>', None, []


DATA = set()
