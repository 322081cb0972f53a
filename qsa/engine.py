"""Gated value numbering over the common syntax tree.

``Engine.run(cls, method)`` summarises what one entry point of an approach does
to the arrays it owns, as a set of *effects*: each is a canonical polynomial
(see values.py) with one extra factor naming the element written.  Loops become
binders, branches become indicators, helpers are inlined, so the summary does
not depend on how the work is spread over statements.
"""
import ast
import builtins
from collections import Counter
from fractions import Fraction
from .values import *
from .values import _lit
from . import values as V
from .frontend import AnchorMissing

MATH_NAMES = {'exp', 'log', 'sqrt', 'sin', 'cos', 'tan', 'tanh', 'cosh', 'sinh', 'abs', 'fabs', 'floor', 'ceil', 'arctan'}


class Note(Exception):
    pass


# ---------------------------------------------------------------- value kinds
class PathV(object):
    """something reachable from self (or an argument) by attribute names,
    optionally partially subscripted"""
    __slots__ = ('path', 'idx')

    def __init__(self, path, idx=()):
        self.path, self.idx = path, tuple(idx)

    def __repr__(self):
        return 'Path(%s%s)' % (self.path, list(self.idx) if self.idx else '')

    def __eq__(self, o):
        return isinstance(o, PathV) and (self.path, self.idx) == (o.path, o.idx)

    def __hash__(self):
        return hash((self.path, self.idx))


class Tup(object):
    def __init__(self, items):
        self.items = list(items)


class Row(object):
    """the list of states with charge q"""
    def __init__(self, q):
        self.q = q

    def __eq__(self, o):
        return isinstance(o, Row) and self.q == o.q


class Iter(object):
    """an iterable given as a list of alternatives of (binders, lits, value)"""
    ordered = True

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


class Loc(object):
    """local array"""
    def __init__(self, ident, zero, shape=None, src=None):
        self.ident, self.zero, self.shape, self.src = ident, zero, shape, src
        self.ones = False


class Obj(object):
    """instance created locally; methods are uninterpreted state transitions"""
    def __init__(self, ident, cls, args):
        self.ident, self.cls, self.args = ident, cls, args


class DictV(object):
    """dictionary display"""
    def __init__(self, items):
        self.items = items


class FnV(object):
    def __init__(self, kind, obj, name=None, bound=None):
        self.kind, self.obj, self.name, self.bound = kind, obj, name, bound


class StrV(object):
    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return isinstance(o, StrV) and o.s == self.s


class NoneV(object):
    def __eq__(self, o):
        return isinstance(o, NoneV)


NONE = NoneV()


class Effect(object):
    __slots__ = ('target', 'idx', 'op', 'val', 'binders', 'guard', 'where')

    def __init__(self, target, idx, op, val, where):
        self.target, self.idx, self.op, self.val, self.where = target, tuple(idx), op, val, where
        self.binders = []
        self.guard = P1

    def clone(self):
        e = Effect(self.target, self.idx, self.op, self.val, self.where)
        e.binders = list(self.binders)
        e.guard = self.guard
        return e


_op = [0]


def opaque(tag):
    _op[0] += 1
    return Poly.atom(intern(('opaque', '%s#%d' % (tag, _op[0]))))


def call(f, args):
    return Poly.atom(intern(('call', f, tuple(a if isinstance(a, str) else a.frozen() for a in args))))


def ref(p, idx):
    if not idx:
        return Poly.atom(intern(('s', p)))
    return Poly.atom(intern(('ref', p, tuple(i if isinstance(i, str) else i.frozen() for i in idx))))


def sym(p):
    return Poly.atom(intern(('s', p)))


def item(p, idx):
    a = p.single_atom()
    if a is None:
        a = intern(('call', 'value', (p.frozen(),)))
    return Poly.atom(intern(('item', a, tuple(i if isinstance(i, str) else i.frozen() for i in idx))))


def elem(q, i):
    return Poly.atom(intern(('elem', q.frozen(), i.frozen())))


def slen(q):
    return Poly.atom(intern(('len', q.frozen())))


def not_(p):
    return P1 - p


def or_(a, b):
    return a + b - a * b


def incl(kind, x, y, q):
    a, b = x.frozen(), y.frozen()
    if b < a:
        a, b = b, a
    return truth(call('incl' + kind, [thaw(a), thaw(b), q]))


def self_update(s):
    """T[i] = T[i] + e   ->   T[i] += e"""
    if len(s.targets) != 1 or not isinstance(s.targets[0], ast.Subscript) or not isinstance(s.value, ast.BinOp):
        return None
    t = s.targets[0]
    want = ast.dump(t).replace('Store()', 'Load()')
    terms = []

    def flat(n, sign):
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            flat(n.left, sign)
            flat(n.right, sign if isinstance(n.op, ast.Add) else -sign)
        else:
            terms.append((sign, n))
    flat(s.value, 1)
    hit = [k for k, (sg, n) in enumerate(terms) if sg == 1 and ast.dump(n).replace('Store()', 'Load()') == want]
    if len(hit) != 1:
        return None
    rest = [x for k, x in enumerate(terms) if k != hit[0]]
    for sg, n in rest:
        if any(ast.dump(x).replace('Store()', 'Load()') == want for x in ast.walk(n)):
            return None
    if not rest:
        return None
    v = None
    for sg, n in rest:
        if v is None:
            v = n if sg == 1 else ast.UnaryOp(op=ast.USub(), operand=n)
        else:
            v = ast.BinOp(left=v, op=ast.Add() if sg == 1 else ast.Sub(), right=n)
    r = ast.AugAssign(target=t, op=ast.Add(), value=v)
    ast.copy_location(r, s)
    ast.fix_missing_locations(r)
    return r


# --------------------------------------------------------------- desugaring
def _has(stmts, kinds, into_loops=False):
    for s in stmts:
        if isinstance(s, kinds):
            return True
        if isinstance(s, ast.If):
            if _has(s.body, kinds, into_loops) or _has(s.orelse, kinds, into_loops):
                return True
        elif isinstance(s, (ast.With, ast.Try)):
            if _has(s.body, kinds, into_loops):
                return True
        elif into_loops and isinstance(s, (ast.For, ast.While)):
            if _has(s.body, kinds, into_loops):
                return True
    return False


def _term(stmts, kinds):
    """does every path through stmts end in one of kinds?"""
    for s in stmts:
        if isinstance(s, kinds):
            return True
        if isinstance(s, ast.If) and s.orelse and _term(s.body, kinds) and _term(s.orelse, kinds):
            return True
    return False


def desugar(stmts, kinds):
    """push the rest of the block into the branches so that continue/return
    only occur at the end of a path; drop the markers for ``continue``"""
    out = []
    for k, s in enumerate(stmts):
        if isinstance(s, kinds) or isinstance(s, ast.Raise):
            if isinstance(s, ast.Return):
                out.append(s)
            elif isinstance(s, ast.Raise):
                out.append(s)
            return out
        if isinstance(s, ast.If) and (_has(s.body, kinds + (ast.Raise,)) or _has(s.orelse, kinds + (ast.Raise,))):
            rest = stmts[k + 1:]
            n = ast.If(test=s.test,
                       body=desugar(list(s.body) + rest, kinds) or [ast.Pass()],
                       orelse=desugar(list(s.orelse) + rest, kinds))
            ast.copy_location(n, s)
            out.append(n)
            return out
        out.append(s)
    return out


def assigned_names(stmts):
    r = set()

    def tgt(t):
        if isinstance(t, ast.Name):
            r.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                tgt(x)

    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    tgt(t)
            elif isinstance(n, ast.AugAssign):
                tgt(n.target)
            elif isinstance(n, ast.For):
                tgt(n.target)
            elif isinstance(n, ast.AnnAssign):
                tgt(n.target)
    return r


def target_names(t):
    if isinstance(t, ast.Name):
        return {t.id}
    if isinstance(t, (ast.Tuple, ast.List)):
        return set().union(*[target_names(x) for x in t.elts]) if t.elts else set()
    if isinstance(t, ast.Starred):
        return target_names(t.value)
    return set()


def bound_names(fn_node):
    """names some statement of the function binds (an augmented assignment reads before it writes and does not count)"""
    r = set()
    for n in ast.walk(fn_node):
        if isinstance(n, ast.arg):
            r.add(n.arg)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            r.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            r.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            r |= {(x.asname or x.name).split('.')[0] for x in n.names}
        elif isinstance(n, ast.ExceptHandler) and n.name:
            r.add(n.name)
    once = Counter(n.id for n in ast.walk(fn_node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store))
    aug = Counter(n.target.id for n in ast.walk(fn_node) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name))
    args = {n.arg for n in ast.walk(fn_node) if isinstance(n, ast.arg)}
    return {x for x in r if once[x] != aug[x] or once[x] == 0 or x in args}


def _copy(node):
    import copy
    return copy.deepcopy(node)


# ------------------------------------------------------------------- engine
class World(object):
    """project wide naming facts shared by all runs"""

    def __init__(self, proj):
        self.proj = proj
        self.alias = {}          # self attribute -> canonical path
        self.kh_alias = {}       # handler attribute -> si path
        self.dims_memo = {}
        self.shapes = {}         # canonical path -> [dim AST ...] of np.zeros
        self.ndim = {}
        self._scan()
        self._types()
        for leaf, defs in self.shapes.items():
            n = {len(e) for e, f in defs if not all(isinstance(x, ast.Constant) for x in e)}
            if len(n) == 1 and leaf not in self.ndim:
                self.ndim[leaf] = n.pop()

    ROOT = {'kernel_handler': 'kh', '_kernel_handler': 'kh', 'kernel_handler_elph': 'kh_elph'}

    def _scan(self):
        cand = {}
        for mod in self.proj.modules.values():
            if not mod.name.startswith('qmeq.approach'):
                continue
            for c in mod.classes.values():
                if c.name.startswith('KernelHandler'):
                    f = c.methods.get('__init__')
                    if f is not None and mod.is_cython:
                        for n in ast.walk(f.node):
                            if isinstance(n, ast.Assign) and len(n.targets) == 1:
                                t, v = n.targets[0], n.value
                                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self' \
                                        and isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == 'si':
                                    self.kh_alias[t.attr] = v.attr
                    continue
                for f in c.methods.values():
                    if not f.node.args.args:
                        continue
                    me = f.node.args.args[0].arg
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Assign) and len(n.targets) == 1:
                            t, v = n.targets[0], n.value
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                                p = self._selfpath(v, me)
                                if p is not None and t.attr.startswith('_'):
                                    cand.setdefault(t.attr, set()).add(p)
                                sh = self._shape(v)
                                if sh is not None:
                                    self.shapes.setdefault(t.attr, []).append((sh, f))
        for k, ps in cand.items():
            if len(ps) == 1:
                p = list(ps)[0]
                self.alias[k] = p

    @staticmethod
    def _selfpath(v, me):
        parts = []
        while isinstance(v, ast.Attribute):
            parts.append(v.attr)
            v = v.value
        if isinstance(v, ast.Name) and v.id == me and parts:
            return '.'.join(reversed(parts))
        return None

    @staticmethod
    def _shape(v):
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ('zeros', 'empty', 'ones') and v.args:
            a = v.args[0]
            return list(a.elts) if isinstance(a, (ast.Tuple, ast.List)) else [a]
        return None

    def _types(self):
        V.Types.real_paths = set(['qd.Ea', 'leads.mulst', 'leads.tlst', 'leads.dlst', 'baths.tlst_ph', 'baths.dlst_ph'])
        V.Types.int_paths = set()
        for mod in self.proj.modules.values():
            for c in mod.classes.values():
                for a, t in c.cattrs.items():
                    base = self.canon_attr(a)
                    if 'complex' in t:
                        V.Types.complex_paths.add(base)
                    elif 'double' in t:
                        V.Types.real_paths.add(base)
                    elif 'long_t' in t or 'int_t' in t or 'bool_t' in t:
                        V.Types.int_paths.add(base)
                    if '[' in t:
                        self.ndim[base] = t[t.index('['):].count(':') - t[t.index('['):].count('::') if '::' not in t else t.count(',') + 1
        for n in ('ncharge', 'nleads', 'nbaths', 'ndm0', 'ndm0r', 'ndm1', 'npauli', 'nsingle', 'nmany',
                  'si_elph.ndm0', 'kpnt', 'itype'):
            V.Types.int_paths.add('si.' + n)
            V.Types.int_paths.add('si_elph.' + n)
        V.Types.int_paths.add('funcp.itype')
        V.Types.int_paths.add('funcp.itype_ph')
        for k in ('leads.Tba',):
            V.Types.hermitian.add(k)
        V.Types.real_paths -= V.Types.complex_paths

    def canon_attr(self, attr):
        return self.alias.get(attr, attr)


class Engine(object):
    """one symbolic run"""

    # functions kept uninterpreted, by bare name
    def __init__(self, world, selfcls=None, atoms=(), roots=None, no_inline=(), objs=(), maxdepth=12):
        self.w = world
        self.proj = world.proj
        self.cls = selfcls
        self.atoms = set(atoms)
        self.objs = set(objs)
        self.no_inline = set(no_inline)
        self.effects = []
        self.notes = []
        self.calls = []
        self.depth = 0
        self.maxdepth = maxdepth
        self.ids = 0
        self.objstate = {}
        self.loopstack = []
        self.locreads = []
        self.root = ''
        self.inlined = []
        self.undefined = []
        self.no_coherences = False
        self.opaque_paths = set()      # attributes whose stored values are compared on their own
        if selfcls is not None:
            nc = self.proj.lookup_const(selfcls, 'no_coherences')
            self.no_coherences = isinstance(nc, ast.Constant) and nc.value is True

    # ---------------------------------------------------------------- utils
    def note(self, msg, node=None):
        self.notes.append('%s%s' % (msg, ' (line %s)' % getattr(node, 'lineno', '?') if node is not None else ''))

    def newid(self):
        self.ids += 1
        return self.ids

    # ---- paths
    def canon_path(self, p):
        """canonical object path"""
        parts = p.split('.')
        if parts[0] in World.ROOT:
            parts[0] = World.ROOT[parts[0]]
        elif parts[0] in self.w.alias and parts[0] not in ('',):
            parts = self.w.alias[parts[0]].split('.') + parts[1:]
            if parts[0] in World.ROOT:
                parts[0] = World.ROOT[parts[0]]
        if len(parts) >= 2 and parts[0] == 'kh' and parts[1] == 'elph':
            parts = ['kh_elph'] + parts[2:]
        if parts[0] in ('kh', 'kh_elph') and len(parts) == 2:
            if parts[1] == 'si':
                return 'si' if parts[0] == 'kh' else 'si_elph'
            if parts[1] in self.w.kh_alias:
                return ('si.' if parts[0] == 'kh' else 'si_elph.') + self.w.kh_alias[parts[1]]
            if parts[1] in ('statesdm', 'statesdm_count'):
                return 'si.' + parts[1]
        if parts[0] in ('kh', 'kh_elph') and len(parts) == 3 and parts[1] == 'si':
            return '.'.join(['si' if parts[0] == 'kh' else 'si_elph'] + parts[2:])
        return '.'.join(parts)

    def attr(self, v, name, node=None):
        if isinstance(v, PathV) and not v.idx:
            p = name if v.path == '' else v.path + '.' + name
            return PathV(self.canon_path(p))
        if isinstance(v, PathV):
            if name in ('shape',):
                return PathV(v.path + '.shape', v.idx)
        if isinstance(v, Obj):
            st = self.objstate.get(v.ident)
            key = (v.ident, name)
            if key in self.objstate:
                return self.objstate[key]
            if st is None:
                return item(call(v.cls, [self.as_arg(a) for a in v.args]), [sym('.' + name)])
            return item(st, [sym('.' + name)])
        if isinstance(v, FnV) and v.kind == 'module':
            if isinstance(v.obj, str):
                return sym('pi') if name == 'pi' else FnV('ext', v.obj + '.' + name, name)
            r = self.proj.resolve(v.obj, name)
            return self.from_resolved(r, name)
        if isinstance(v, FnV) and v.kind == 'class':
            m = self.proj.lookup(v.obj, name)
            if m is not None:
                return FnV('func', m, name)
            return FnV('ext', v.obj.name + '.' + name, name)
        if isinstance(v, FnV) and v.kind == 'ext':
            if name == 'pi':
                return sym('pi')
            return FnV('ext', str(v.obj) + '.' + name, name)
        if isinstance(v, Loc) and name == 'shape' and v.shape is not None:
            return Tup(v.shape)
        if isinstance(v, (Poly, Loc, Tup, Row)):
            if isinstance(v, Poly) and name == 'real':
                return real_part(v)
            if isinstance(v, Poly) and name == 'imag':
                return imag_part(v)
            return FnV('method', v, name)
        return FnV('method', v, name)

    def from_resolved(self, r, name):
        if r is None:
            return FnV('ext', name, name)
        k, o = r
        if k == 'class':
            return FnV('class', o, o.name)
        if k == 'func':
            return FnV('func', o, name)
        if k == 'module':
            return FnV('module', o, name)
        if k == 'ext':
            if o.split('.')[-1] == 'pi':
                return sym('pi')
            return FnV('ext', o, name)
        if k == 'const':
            m, e = o
            try:
                fr = Frame(self, None, m)
                return fr.ev(e)
            except Note:
                return sym(name)
        return FnV('ext', name, name)

    def handler_class(self, module):
        name = 'qmeq.approach.c_kernel_handler' if module is not None and module.is_cython else 'qmeq.approach.kernel_handler'
        m = self.proj.module(name)
        if m is None:
            return None
        for n in ('KernelHandlerRTD', 'KernelHandler'):
            if n in m.classes and (n == 'KernelHandler' or 'RTD' in (self.cls.name if self.cls else '')):
                return m.classes[n]
        return m.classes.get('KernelHandler')

    # ---- value -> poly
    def poly(self, v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, PathV):
            return self.readpath(v)
        if isinstance(v, StrV):
            return Poly.atom(intern(('str', v.s)))
        if isinstance(v, NoneV):
            return sym('None')
        if isinstance(v, Loc):
            return self.loc_atom(v)
        if isinstance(v, Tup):
            return call('tuple', [self.poly(x) for x in v.items])
        if isinstance(v, Row):
            return call('states', [v.q])
        if isinstance(v, DictV):
            return call('dict', [call('tuple', [self.poly(a), self.poly(b)]) for a, b in v.items])
        if isinstance(v, FnV):
            return sym('fn:%s' % (v.name,))
        if isinstance(v, Obj):
            return sym('obj:%s' % v.cls)
        return opaque('value')

    def as_arg(self, v):
        """value as argument of an uninterpreted call"""
        if isinstance(v, PathV):
            if v.path in ('kh', 'kh_elph', 'si', 'si_elph', ''):
                return sym('@' + ({'kh': 'si', 'kh_elph': 'si_elph'}.get(v.path, v.path) or 'self'))
            if v.idx:
                return ref(self.tag(v.path), [i for i in v.idx])
            return self.readpath(v, whole=True)
        return self.poly(v)

    def loc_atom(self, v):
        self.locreads.append(v.ident)
        ent = []
        for e in self.effects:
            if e.target is v or (isinstance(e.target, Loc) and e.target.ident == v.ident):
                val = e.val * e.guard * ref('ELT', e.idx)
                val = self.bind(val, e.binders)
                if val.t:
                    ent.append((e.op, val.frozen()))
        if not ent:
            if v.src is not None:
                return v.src
            return sym('zeros' if v.zero else 'ones' if v.ones else 'empty')
        a = Poly.atom(intern(('arr', frozenset(ent))))
        return a

    def tag(self, path):
        if path in self.opaque_paths:
            return path
        for e in self.effects:
            if e.target == path:
                return path + "'"
        return path

    def readpath(self, v, whole=False):
        path, idx = v.path, list(v.idx)
        if path.startswith('np.') or path == 'pi':
            return sym('pi') if path.endswith('pi') else sym(path)
        # special arrays
        if path in ('si.statesdm_count', 'si_elph.statesdm_count') and len(idx) == 1:
            return slen(idx[0])
        if path in ('si.statesdm', 'si_elph.statesdm') and len(idx) == 2:
            return elem(idx[0], idx[1])
        if path == 'si.nelements' or path == 'kh.nelements':
            return sym('si.npauli' if self.no_coherences else 'si.ndm0')
        if path == 'kh_elph.nelements':
            return sym('si_elph.ndm0')
        if path in ('si_elph.nleads', 'si_elph.nbaths', 'si_elph.ncharge'):
            # both index objects describe the same device (kept so by the builder, see C13)
            path = 'si.' + path.split('.')[1]
        if path.endswith('.shape') and len(idx) == 1:
            k = idx[0].int_value()
            if k is not None:
                return Frame(self, None, None).shape_of(path[:-6], k)
            return call('shape', [sym(path[:-6]), idx[0]])
        nd = self.w.ndim.get(path)
        if not whole and nd and len(idx) < nd and not path.startswith('si.'):
            idx = idx + ['*'] * (nd - len(idx))
        r = self.forward(path, idx)
        if r is not None:
            return r
        return ref(self.tag(path), idx)

    # ---- store to load forwarding
    def match(self, pat, idx, binders):
        """-> ('no'|'maybe'|mapping)"""
        if len(pat) != len(idx):
            return 'maybe'
        bv = {v: d for v, d in binders}
        mp = {}
        res = None
        for p, i in zip(pat, idx):
            if isinstance(p, str) or isinstance(i, str):
                if p == i:
                    continue
                if p == '*':
                    if isinstance(i, str):
                        return 'maybe'
                    mp['*'] = i
                    continue
                res = 'maybe'
                continue
            if p == i:
                continue
            a = p.single_atom()
            if a is not None and a in bv and a not in mp:
                mp[a] = i
                continue
            if a is not None and a in mp and mp[a] == i:
                continue
            d = (p - i).const_value()
            if d is not None and d != V.ZERO:
                return 'no'
            res = 'maybe'
        if res:
            return res
        return mp

    def forward(self, path, idx):
        """value of path[idx] given the stores seen so far, or None"""
        if path in self.opaque_paths:
            return None
        val = None
        sc = self.objstate.get(('scratch', path))
        if sc is not None and '*' not in idx:
            val = item(sc, idx)
        for e in self.effects:
            if e.target != path:
                continue
            m = self.match(e.idx, idx, e.binders)
            if m == 'no':
                continue
            if m == 'maybe':
                val = None
                continue
            if e.op != '=':
                val = None
                continue
            left = [(v, d) for v, d in e.binders if v not in m]
            g = subst_poly(e.guard, m) if m else e.guard
            x = subst_poly(e.val, m) if m else e.val
            if left:
                val = None
                continue
            if g == P1:
                val = x
            elif val is not None:
                val = gate(g, x, val)
            else:
                val = gate(g, x, ref(path, idx))
        return val

    def read_local(self, loc, idx):
        self.locreads.append(loc.ident)
        val = Poly() if loc.zero else None
        if loc.src is not None:
            val = item(loc.src, idx)
        for e in self.effects:
            if not (isinstance(e.target, Loc) and e.target.ident == loc.ident):
                continue
            m = self.match(e.idx, idx, e.binders)
            if m == 'no':
                continue
            if m == 'maybe':
                return item(self.loc_atom(loc), idx)
            left = [(v, d) for v, d in e.binders if v not in m]
            g = subst_poly(e.guard, m) if m else e.guard
            x = subst_poly(e.val, m) if m else e.val
            if e.op == '=':
                if left:
                    return item(self.loc_atom(loc), idx)
                val = x if g == P1 else gate(g, x, val if val is not None else opaque('uninit'))
            else:
                if val is None:
                    val = opaque('uninit')
                val = val + self.bind(g * x, left)
        return val if val is not None else opaque('uninit')

    def bind(self, p, binders):
        if not binders:
            return p
        bs = frozenset((v, d) for v, d in binders)
        out = {}
        for m, c in p.t.items():
            mm = (m[0] | bs, m[1], m[2])
            out[mm] = cadd(out[mm], c) if mm in out else c
        return Poly(out)

    # ---- recording
    def write(self, target, idx, op, val, where):
        if op == '=':
            # x[i] = x[i] + e  is an accumulation
            path = target
            if not isinstance(target, Loc):
                for nm in (path, path + "'"):
                    a = ref(nm, idx).single_atom()
                    m = (EMPTY, EMPTY, ((a, 1),))
                    if val.t.get(m) == ONE and a not in free_atoms(Poly({k: c for k, c in val.t.items() if k != m})):
                        val = Poly({k: c for k, c in val.t.items() if k != m})
                        op = '+='
                        break
        e = Effect(target, idx, op, val, where)
        self.effects.append(e)

    # ---------------------------------------------------------------- entry
    def run_method(self, fn, args, selfv=None):
        fr = Frame(self, fn, fn.module)
        return fr.call(fn, args, {}, selfv)

    def run(self, name, args=None, root=''):
        fn = self.proj.lookup(self.cls, name)
        if fn is None:
            raise AnchorMissing('%s.%s not found' % (self.cls.name, name))
        self.root = root
        a = [PathV(root)] + list(args or [])
        fr = Frame(self, fn, fn.module)
        return fr.invoke(fn, a, {})

    def summary(self, targets=None):
        """-> {target: Poly}"""
        out = {}
        for e in self.effects:
            if isinstance(e.target, Loc):
                continue
            if targets is not None and e.target not in targets:
                continue
            t = ref('TGT', [sym(e.target + (':=' if e.op == '=' else ':+='))] + list(e.idx))
            v = e.val
            if e.op == '=':
                v = v + sym('SET')
            p = self.bind(v * t * e.guard, e.binders)
            out[e.target] = out.get(e.target, Poly()) + p
        return out


class Frame(object):
    def __init__(self, eng, fn, module):
        self.g = eng
        self.fn = fn
        self.module = module
        self.env = {}
        self.ct = fn.ctypes if fn is not None else {}

    # ------------------------------------------------------------ invocation
    def invoke(self, fn, args, kwargs):
        g = self.g
        if g.depth > g.maxdepth:
            g.note('inline depth exceeded at %s' % fn.qualname)
            return opaque('depth')
        fr = Frame(g, fn, fn.module)
        a = fn.node.args
        names = [x.arg for x in a.args]
        for n, v in zip(names, args):
            fr.env[n] = v
        if a.vararg:
            fr.env[a.vararg.arg] = Tup(args[len(names):])
        nd = len(a.defaults)
        for n, d in zip(names[len(names) - nd:], a.defaults):
            if n not in fr.env:
                fr.env[n] = kwargs[n] if n in kwargs else fr.ev(d)
        for n in names:
            if n in kwargs:
                fr.env[n] = kwargs[n]
            elif n not in fr.env:
                fr.env[n] = opaque('arg_' + n)
        g.depth += 1
        g.inlined.append(fn)
        try:
            body = desugar([s for s in fn.node.body], (ast.Return,))
            fr.block(body)
        finally:
            g.depth -= 1
        return fr.env.get('__ret__', NONE)

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        g = self.g
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                return
            self.ev(s.value)
        elif isinstance(s, ast.Assign):
            aug = self_update(s)
            if aug is not None:
                self.augassign(aug)
                return
            v = self.ev(s.value)
            for t in s.targets:
                self.assign(t, v, s)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value), s)
        elif isinstance(s, ast.AugAssign):
            self.augassign(s)
        elif isinstance(s, ast.If):
            self.if_(s)
        elif isinstance(s, ast.For):
            self.for_(s)
        elif isinstance(s, ast.While):
            self.while_(s)
        elif isinstance(s, ast.Return):
            self.env['__ret__'] = self.ev(s.value) if s.value is not None else NONE
        elif isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Assert)):
            pass
        elif isinstance(s, ast.Raise):
            self.env['__ret__'] = sym('RAISE')
        elif isinstance(s, ast.With):
            self.block(s.body)
        elif isinstance(s, ast.Try):
            g.note('try', s)
            self.block(s.body)
        elif isinstance(s, ast.FunctionDef):
            self.env[s.name] = FnV('lambda', (s, self), s.name)
        elif isinstance(s, ast.Delete):
            pass
        else:
            g.note('statement %s' % type(s).__name__, s)
            self.g.effects.append(Effect('?', (), '=', opaque('stmt'), ''))

    def assign(self, t, v, s):
        g = self.g
        if isinstance(t, ast.Name):
            if t.id in self.env and isinstance(self.env[t.id], PathV) and False:
                pass
            ct = self.ct.get(t.id)
            if isinstance(v, PathV) and not self.is_container(v):
                # scalar loads are evaluated at the time of the assignment
                if g.forward(v.path, list(v.idx)) is not None or (ct in SCALAR_C) or v.idx:
                    v2 = self.maybe_scalar(v, ct)
                    if v2 is not None:
                        v = v2
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Tup) and len(v.items) == len(t.elts):
                for x, y in zip(t.elts, v.items):
                    self.assign(x, y, s)
            else:
                for k, x in enumerate(t.elts):
                    self.assign(x, self.index(v, [Poly.const(k)], s), s)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            if isinstance(b, PathV) and not b.idx:
                p = g.attr(b, t.attr)
                if isinstance(v, (PathV,)) and not v.idx and v.path == p.path:
                    return
                g.write(p.path, (), '=', g.poly(v) if not isinstance(v, PathV) else g.as_arg(v), self.where(s))
            elif isinstance(b, Obj):
                g.objstate[(b.ident, t.attr)] = v
            else:
                g.note('attribute store', s)
        elif isinstance(t, ast.Subscript):
            self.store(t, v, '=', s)
        elif isinstance(t, ast.Starred):
            g.note('starred', s)
        else:
            g.note('target %s' % type(t).__name__, s)

    def is_container(self, v):
        nd = self.g.w.ndim.get(v.path)
        return nd is not None and len(v.idx) < nd

    def maybe_scalar(self, v, ct):
        g = self.g
        nd = g.w.ndim.get(v.path)
        if v.idx and nd is not None and len(v.idx) == nd and not any(isinstance(i, str) for i in v.idx):
            return g.readpath(v)
        if ct in SCALAR_C:
            return g.readpath(v)
        if not v.idx:
            r = g.forward(v.path, [])
            if r is not None:
                return r
        return None

    def where(self, s):
        return '%s:%s' % (self.module.relpath, getattr(s, 'lineno', '?'))

    def store(self, t, v, op, s):
        g = self.g
        base = self.ev(t.value)
        idx = self.indices(t.slice)
        if isinstance(base, Loc):
            self.store_loc(base, idx, v, op, s)
            return
        if isinstance(base, PathV):
            full = list(base.idx)
            full = self.compose(full, idx)
            val = g.poly(v)
            path = base.path
            nd = g.w.ndim.get(path)
            while nd and len(full) < nd:
                full.append('*')
            # expand '*' into a loop over the (known) length of that axis
            stars = [k for k, i in enumerate(full) if i == '*']
            binders = []
            if stars:
                lens = self.dims(path)
                if lens is not None and len(lens) == len(full) and len(stars) == 1:
                    k = stars[0]
                    x = fresh_var()
                    full[k] = Poly.atom(x)
                    val = self.along(subst_poly(val, {'*': Poly.atom(x)}), x)
                    binders.append((x, ('range', P0.frozen(), lens[k].frozen())))
            g.write(path, full, op, val, self.where(s))
            g.effects[-1].binders.extend(binders)
            return
        if isinstance(base, Tup):
            g.note('store into tuple', s)
            return
        if isinstance(base, Poly):
            g.note('store into value', s)
            g.effects.append(Effect('?', (), '=', opaque('store'), ''))
            return
        g.note('store base %s' % type(base).__name__, s)

    @staticmethod
    def along(val, x):
        """element x of a value whose factors include matrix products"""
        dots = {a for m in val.t for a, e in m[2] if S(a)[0] == 'call' and S(a)[1] == 'dot' and e == 1}
        if not dots:
            return val
        r = Poly()
        for m, c in val.t.items():
            q = Poly({(m[0], m[1], tuple((a, e) for a, e in m[2] if a not in dots)): c})
            for a, e in m[2]:
                if a in dots:
                    q = q * item(Poly.atom(a), [Poly.atom(x)])
            r = r + q
        return r

    def store_loc(self, base, idx, v, op, s):
        g = self.g
        full = list(idx)
        val = g.poly(v)
        if base.shape is not None:
            while len(full) < len(base.shape):
                full.append('*')
        binders = []
        stars = [k for k, i in enumerate(full) if isinstance(i, str) and i == '*']
        if base.shape is not None and len(stars) == 1 and len(full) == len(base.shape):
            k = stars[0]
            x = fresh_var()
            full[k] = Poly.atom(x)
            if isinstance(v, Loc):
                val = g.read_local(v, [Poly.atom(x)])
            else:
                val = subst_poly(val, {'*': Poly.atom(x)})
            binders.append((x, ('range', P0.frozen(), base.shape[k].frozen())))
        g.write(base, full, op, val, self.where(s))
        g.effects[-1].binders.extend(binders)

    def dims(self, path):
        g = self.g
        leaf = path.split('.')[-1]
        if leaf not in g.w.dims_memo:
            # allocations of a fixed size are placeholders for 'nothing yet'
            real = [(e, f) for e, f in g.w.shapes.get(leaf, []) if not all(isinstance(x, ast.Constant) for x in e)]
            cands = [(self.dims_of(e, f), e, f) for e, f in real]
            if not cands or any(c[0] is None or [x.frozen() for x in c[0]] != [x.frozen() for x in cands[0][0]] for c in cands):
                g.w.dims_memo[leaf] = None
            else:
                g.w.dims_memo[leaf] = cands[0][1:]
        hit = g.w.dims_memo[leaf]
        return self.dims_of(*hit) if hit else None

    def shape_of(self, path, k):
        """the extent of axis k of an array attribute"""
        if k == 0 and path in PER_LEAD:
            return sym('si.nleads')
        d = self.dims(path)
        if d and k < len(d):
            return d[k]
        return call('shape', [sym(path), Poly.const(k)])

    def dims_of(self, exprs, f):
        g = self.g
        fr = Frame(g, f, f.module)
        fr.env[f.node.args.args[0].arg] = PathV('')
        # resolve simple local names of that function
        try:
            for st in f.node.body:
                if isinstance(st, ast.Assign) and not any(isinstance(x, ast.Call) for x in ast.walk(st)):
                    if all(isinstance(t, ast.Name) or isinstance(t, ast.Tuple) and all(isinstance(x, ast.Name) for x in t.elts)
                           for t in st.targets):
                        fr.stmt(st)
            return [g.poly(fr.ev(e)) for e in exprs]
        except Note:
            return None

    def compose(self, have, idx):
        """apply subscripts idx to an already subscripted path"""
        out = []
        it = list(idx)
        for h in have:
            if h == '*' and it:
                out.append(it.pop(0))
            else:
                out.append(h)
        return out + it

    def augassign(self, s):
        g = self.g
        v = self.ev(s.value)
        t = s.target
        load = _copy(t)
        for n in ast.walk(load):
            if hasattr(n, 'ctx'):
                n.ctx = ast.Load()
        if isinstance(t, ast.Subscript) and isinstance(s.op, (ast.Add, ast.Sub)):
            val = g.poly(v)
            if isinstance(s.op, ast.Sub):
                val = -val
            base = self.ev(t.value)
            if isinstance(base, (Loc, PathV)):
                self.store(t, val, '+=', s)
                return
        if isinstance(t, ast.Name) and isinstance(self.env.get(t.id), PathV) and isinstance(s.op, (ast.Add, ast.Sub)):
            p = self.env[t.id]
            nd = g.w.ndim.get(p.path)
            if nd and len(p.idx) < nd:
                # in place update of an array held in a local name
                val = g.poly(v)
                val = -val if isinstance(s.op, ast.Sub) else val
                sub = ast.Subscript(value=t, slice=ast.Slice(lower=None, upper=None, step=None), ctx=ast.Store())
                self.store(sub, val, '+=', s)
                return
        if isinstance(t, ast.Name) and isinstance(self.env.get(t.id), Loc) and isinstance(s.op, (ast.Add, ast.Sub)):
            val = g.poly(v)
            val = -val if isinstance(s.op, ast.Sub) else val
            lc = self.env[t.id]
            self.store_loc(lc, ['*'] * (len(lc.shape) if lc.shape else 1), val, '+=', s)
            return
        cur = self.ev(load)
        if isinstance(t, ast.Attribute) and isinstance(s.op, (ast.Add, ast.Sub)):
            b = self.ev(t.value)
            if isinstance(b, PathV) and not b.idx:
                p = g.attr(b, t.attr)
                val = g.poly(v)
                g.write(p.path, (), '+=', -val if isinstance(s.op, ast.Sub) else val, self.where(s))
                return
        self.assign(t, self.binop(s.op, cur, v, s), s)

    # ---- control flow
    def if_(self, s):
        g = self.g
        self.branch(self.cond(s.test), s.body, s.orelse)

    def branch(self, c, body, orelse):
        g = self.g
        if c == P1:
            self.block(body)
            return
        if c == P0:
            self.block(orelse)
            return
        env0 = dict(self.env)
        obj0 = dict(g.objstate)
        n0 = len(g.effects)
        self.block(body)
        for e in g.effects[n0:]:
            e.guard = e.guard * c
        env1, obj1 = self.env, g.objstate
        self.env, g.objstate = dict(env0), dict(obj0)
        n1 = len(g.effects)
        nc = not_(c)
        self.block(orelse)
        for e in g.effects[n1:]:
            e.guard = e.guard * nc
        env2, obj2 = self.env, g.objstate
        self.env = self.merge(c, env1, env2)
        g.objstate = self.merge(c, obj1, obj2)

    def merge(self, c, a, b):
        g = self.g
        out = {}
        for k in set(a) | set(b):
            if k not in a:
                out[k] = b[k]
                if k == '__ret__':
                    out[k] = b[k]
                continue
            if k not in b:
                out[k] = a[k]
                continue
            x, y = a[k], b[k]
            out[k] = self.mergev(c, x, y)
        return out

    def mergev(self, c, x, y):
        g = self.g
        if x is y:
            return x
        if type(x) is type(y) and isinstance(x, (PathV, StrV, NoneV, Row)) and x == y:
            return x
        if isinstance(x, Tup) and isinstance(y, Tup) and len(x.items) == len(y.items):
            return Tup([self.mergev(c, p, q) for p, q in zip(x.items, y.items)])
        if isinstance(x, FnV) and isinstance(y, FnV) and x.kind == y.kind and x.obj is y.obj:
            return x
        if isinstance(x, FnV) and isinstance(y, FnV):
            return FnV('gate', (c, x, y), 'gate')
        if isinstance(x, Poly) and isinstance(y, Poly):
            return gate(c, x, y)
        if isinstance(x, Row) and isinstance(y, Row):
            return opaque('row')
        try:
            return gate(c, g.poly(x), g.poly(y))
        except Note:
            return opaque('merge')

    def search(self, s):
        """for x in ...: if test: act; break  -- acts once when the test holds for some element"""
        g = self.g
        if len(s.body) != 1 or not isinstance(s.body[0], ast.If) or s.body[0].orelse or not isinstance(s.body[0].body[-1], ast.Break):
            return False
        t = s.body[0]
        act = t.body[:-1]
        if _has(act, (ast.Break, ast.Return, ast.Continue), True):
            return False
        tn = set(target_names(s.target))
        if any(isinstance(x, ast.Name) and x.id in tn for a in act for x in ast.walk(a)):
            return False
        it = self.iterable(s.iter)
        if it is None or it.kind in ('unroll', 'cat') or not it.binders:
            return False
        env0, n0 = dict(self.env), len(g.effects)
        self.assign(s.target, it.value, s)
        c = self.cond(t.test)
        if len(g.effects) != n0:
            return False
        self.env = env0
        for n in tn:
            self.env[n] = opaque('leftover:' + n)
        self.branch(exists(g, c * it.guard, it.binders), act, s.orelse)
        return True

    def for_(self, s):
        if self.search(s):
            return
        it = self.iterable(s.iter)
        body = desugar(s.body, (ast.Continue,))
        if _has(body, (ast.Break, ast.Return), True):
            self.g.note('break/return inside loop', s)
            self.g.effects.append(Effect('?', (), '=', opaque('break'), ''))
        self.loop(it, s.target, body, s)
        if s.orelse:
            self.block(s.orelse)

    def loop(self, it, target, body, s):
        g = self.g
        if it is None:
            g.note('iterable not understood', s)
            g.effects.append(Effect('?', (), '=', opaque('iter'), ''))
            return
        if it.kind == 'unroll':
            for v in it.values:
                self.assign(target, v, s)
                self.block(body)
            return
        if it.kind == 'cat':
            for x in it.parts:
                self.loop(x, target, body, s)
            return
        binders, lits, value = it.binders, it.guard, it.value
        # accumulators
        names = assigned_names(body) & set(self.env)
        pre = {}
        for n in names:
            v = self.env[n]
            if isinstance(v, Poly) or (isinstance(v, PathV) and not self.is_container(v)):
                pre[n] = g.poly(v)
                self.env[n] = Poly.atom(intern(('acc', g.newid(), n)))
            elif isinstance(v, (Tup, StrV, NoneV)):
                pre[n] = None
        accs = {n: (self.env[n].single_atom() if pre[n] is not None else None) for n in pre}
        env0 = dict(self.env)
        obj0 = dict(g.objstate)
        n0 = len(g.effects)
        ids0 = g.ids
        r0 = len(g.locreads)
        g.loopstack.append(binders)
        self.assign(target, value, s)
        self.block(body)
        g.loopstack.pop()
        self.carry(n0, ids0, r0, binders, s)
        allacc = {a for a in accs.values() if a is not None}
        at = self.counters(binders, lits, pre, accs, allacc) if it.ordered else {}
        for e in g.effects[n0:]:
            if at:
                self.resolve(e, at)
            fa = free_atoms(e.val)
            for i in e.idx:
                if not isinstance(i, str):
                    fa = fa | free_atoms(i)
            fa = fa | free_atoms(e.guard)
            if fa & allacc:
                g.note('loop carried value used in a store', s)
                e.val = opaque('loopcarried')
            e.binders = e.binders + list(binders)
            e.guard = e.guard * lits
        # scalars
        for n in names:
            post = self.env.get(n)
            if n in pre and pre[n] is not None:
                a = accs[n]
                if isinstance(post, PathV):
                    post = g.poly(post)
                if not isinstance(post, Poly):
                    self.env[n] = opaque('loop_' + n)
                    continue
                one = (EMPTY, EMPTY, ((a, 1),))
                if post.t.get(one) == ONE:
                    rest = Poly({k: c for k, c in post.t.items() if k != one})
                    if not (free_atoms(rest) & allacc):
                        self.env[n] = pre[n] + g.bind(rest * lits, binders)
                        continue
                if a not in free_atoms(post) and not (free_atoms(post) & allacc) and \
                        not (free_atoms(post) & {v for v, d in binders}):
                    self.env[n] = post
                    continue
                x = largest(post, a, allacc) if lits == P1 else None
                if x is not None:
                    # a running maximum or minimum: nothing but the elements counts, except for an initial value that can win
                    kind, x = x
                    m = call('v' + kind, [g.bind(x, binders)])
                    c = pre[n].const_value()
                    if kind == 'max' and c is not None and c[1] == 0 and c[0] <= 0 and nonneg(x):
                        self.env[n] = m
                    else:
                        self.env[n] = call(kind, [thaw(f) for f in sorted([pre[n].frozen(), m.frozen()])])
                    continue
                self.env[n] = opaque('loop_' + n)
            elif n in pre:
                if post is not env0.get(n):
                    self.env[n] = opaque('loop_' + n)
        bv = {v for v, d in binders}
        for k, v in list(g.objstate.items()):
            if obj0.get(k) is not v and isinstance(v, Poly) and (free_atoms(v) & bv):
                g.objstate[k] = opaque('objstate')
        # names first assigned in the loop: value of the last iteration
        for n in assigned_names(body) - names:
            v = self.env.get(n)
            if isinstance(v, Poly) and (free_atoms(v) & bv):
                self.env[n] = opaque('last_' + n)
        # the loop variable itself is left over from the last iteration
        for n in target_names(target):
            v = self.env.get(n)
            if isinstance(v, Poly) and (free_atoms(v) & bv) and isinstance(s, ast.For) and not _has(body, (ast.Break,), False):
                self.env[n] = opaque('leftover:' + n)

    def counters(self, binders, lits, pre, accs, allacc):
        """values, inside the body, of scalars that grow by a loop independent amount: start + sum over the earlier iterations"""
        if not binders or len(binders) > 2:
            return {}

        def before(v, d):
            if d[0] == 'range':
                return ('range', d[1], Poly.atom(v).frozen())
            return ('stb', d[1], Poly.atom(v).frozen())
        if any(d[0] not in ('range', 'st') for v, d in binders):
            return {}
        # every binder of a later position must not bound an earlier one
        for k, (v, d) in enumerate(binders):
            for w, dd in binders[k:]:
                if any(not isinstance(x, str) and w in free_atoms(thaw(x)) for x in d[1:]):
                    return {}
        out = {}
        for n, a in accs.items():
            post = self.env.get(n)
            if a is None or not isinstance(post, Poly):
                continue
            one = (EMPTY, EMPTY, ((a, 1),))
            if post.t.get(one) != ONE:
                continue
            rest = Poly({k: c for k, c in post.t.items() if k != one})
            if free_atoms(rest) & allacc or not rest.t:
                continue
            tot = pre[n]
            for k in range(len(binders)):
                # same iterations of the outer ones, an earlier one here, any of the inner ones
                mp, bs = {}, []
                for j in range(k, len(binders)):
                    v, d = binders[j]
                    x = fresh_var()
                    dd = before(v, d) if j == k else d
                    bs.append((x, tuple(y if isinstance(y, str) or i == 2 and j == k else subst_ix(y, mp, {}) for i, y in enumerate(dd))))
                    mp[v] = Poly.atom(x)
                tot = tot + self.g.bind(subst_poly(rest * lits, mp), bs)
            out[a] = tot
        return out

    def resolve(self, e, at):
        fa = free_atoms(e.val) | free_atoms(e.guard)
        for i in e.idx:
            if not isinstance(i, str):
                fa = fa | free_atoms(i)
        if fa & set(at):
            e.val = subst_poly(e.val, at)
            e.guard = subst_poly(e.guard, at)
            e.idx = tuple(i if isinstance(i, str) else subst_poly(i, at) for i in e.idx)

    def carry(self, n0, ids0, r0, binders, s):
        """a scratch array that is read in a loop body must not bring values
        over from the previous iteration: it is reset first, or left cleared,
        or every iteration touches cells of its own"""
        g = self.g
        bv = {v for v, d in binders}
        body = [e for e in g.effects[n0:] if isinstance(e.target, Loc) and e.target.ident <= ids0]
        for ident in sorted({e.target.ident for e in body} & set(g.locreads[r0:])):
            es = [e for e in body if e.target.ident == ident]

            def own(e):
                return any(not isinstance(i, str) and i.single_atom() in bv for i in e.idx)

            def full(e):
                eb = {v: d for v, d in e.binders}
                if e.op != '=' or e.guard != P1:
                    return False
                seen = set()
                sh = e.target.shape
                for k, i in enumerate(e.idx):
                    a = None if isinstance(i, str) else i.single_atom()
                    if a is None or a not in eb or a in seen:
                        return False
                    seen.add(a)
                    if sh is not None and eb[a] != ('range', P0.frozen(), sh[k].frozen()):
                        return False
                return True
            if all(own(e) for e in es) or full(es[0]):
                continue
            pre = [e for e in g.effects[:n0] if isinstance(e.target, Loc) and e.target.ident == ident]
            if full(es[-1]) and not es[-1].val.t and es[-1].target.zero and not pre and es[-1].target.src is None:
                continue
            g.note('array carried into the next iteration', s)
            g.effects.append(Effect('!carry', (), '+=', P1, self.where(s)))

    def while_(self, s):
        """while i < N: ...; i += 1   ->  for i in range(i0, N)"""
        g = self.g
        t = s.test
        ok = False
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.LtE)) and isinstance(t.left, ast.Name) \
                and s.body and isinstance(s.body[-1], ast.AugAssign) and isinstance(s.body[-1].target, ast.Name) \
                and s.body[-1].target.id == t.left.id and isinstance(s.body[-1].op, ast.Add) \
                and isinstance(s.body[-1].value, ast.Constant) and s.body[-1].value.value == 1:
            i = t.left.id
            body = s.body[:-1]
            if i not in assigned_names(body) and not _has(body, (ast.Continue, ast.Break, ast.Return), True) and \
                    not (assigned_names(body) & {n.id for n in ast.walk(t.comparators[0]) if isinstance(n, ast.Name)}):
                lo = g.poly(self.env.get(i, opaque('lo')))
                hi = g.poly(self.ev(t.comparators[0]))
                if isinstance(t.ops[0], ast.LtE):
                    hi = hi + P1
                it = self.mkrange(lo, hi)
                self.env.pop(i, None)
                self.loop(it, ast.Name(id=i, ctx=ast.Store()), body, s)
                self.env[i] = hi
                ok = True
        if not ok:
            g.note('while loop', s)
            for n in assigned_names(s.body):
                self.env[n] = opaque('while_' + n)
            g.effects.append(Effect('?', (), '=', opaque('while'), ''))

    # ---- iterables
    def mkrange(self, lo, hi):
        c0, c1 = lo.int_value(), hi.int_value()
        if c0 is not None and c1 is not None and c1 - c0 <= 4:
            return Iter('unroll', values=[Poly.const(k) for k in range(c0, c1)])
        guard = P1
        # range(0, [cond]*n)  ->  guarded range(0, n)
        if c0 == 0 and len(hi.t) == 1:
            (m, c), = hi.t.items()
            if m[1] and not m[0]:
                guard = Poly({(EMPTY, m[1], ()): ONE})
                hi = Poly({(EMPTY, EMPTY, m[2]): c})
        elif c0 == 0 and hi.t:
            # gate(cond, n, 0) with a negated condition: n - [cond] n
            r = self.factor_indicator(hi)
            if r is not None:
                guard, hi = r
        x = fresh_var()
        return Iter('range', binders=[(x, ('range', lo.frozen(), hi.frozen()))], guard=guard, value=Poly.atom(x))

    @staticmethod
    def factor_indicator(p):
        """p == ind * n with ind an indicator polynomial"""
        facs = {(m[0], m[2]) for m in p.t}
        if len(facs) != 1:
            return None
        (b, f), = facs
        if b or not f:
            return None
        ind = Poly({(EMPTY, m[1], ()): c for m, c in p.t.items()})
        if all(c[1] == 0 and c[0].denominator == 1 for c in ind.t.values()) and len(ind.t) > 1:
            return ind, Poly({(EMPTY, EMPTY, f): ONE})
        return None

    def row_iter(self, q):
        x = fresh_var()
        return Iter('st', binders=[(x, ('st', q.frozen()))], guard=P1, value=Poly.atom(x))

    def iterable(self, node):
        g = self.g
        if isinstance(node, ast.Call):
            f = node.func
            name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
            if name in ('range', 'prange', 'xrange'):
                a = [g.poly(self.ev(x)) for x in node.args]
                if len(a) == 1:
                    return self.mkrange(P0, a[0])
                if len(a) == 2:
                    return self.mkrange(a[0], a[1])
                if len(a) == 3 and a[2].int_value() == 1:
                    return self.mkrange(a[0], a[1])
                if len(a) == 3 and a[2].int_value() == -1:
                    # same set of iterations, reversed
                    r = self.mkrange(a[1] + P1, a[0] + P1)
                    if r.kind == 'unroll':
                        r.values.reverse()
                    r.ordered = False
                    return r
                if len(a) == 3:
                    c = [x.int_value() for x in a]
                    if None not in c and len(range(*c)) <= 4:
                        return Iter('unroll', values=[Poly.const(k) for k in range(*c)])
                    st = c[2]
                    if st is not None and st > 1:
                        x = fresh_var()
                        n = call('floordiv', [a[1] - a[0] + Poly.const(st - 1), Poly.const(st)])
                        return Iter('range', binders=[(x, ('range', P0.frozen(), n.frozen()))], guard=P1,
                                    value=a[0] + Poly.const(st) * Poly.atom(x))
                return None
            if name == 'product':
                its = [self.iterable(x) for x in node.args]
                for kw in node.keywords:
                    if kw.arg == 'repeat' and isinstance(kw.value, ast.Constant):
                        its = [self.iterable(x) for _ in range(kw.value.value) for x in node.args]
                return self.product(its)
            if name in ('combinations_with_replacement', 'combinations', 'permutations') and len(node.args) == 2 \
                    and isinstance(node.args[1], ast.Constant) and node.args[1].value == 2:
                r = self.as_row(self.ev(node.args[0]))
                if r is None:
                    return None
                i1, i2 = self.row_iter(r.q), self.row_iter(r.q)
                eq = ind_cmp('eq', i1.value - i2.value)
                od = truth(call('ord', [i1.value, i2.value, r.q]))
                gd = {'combinations_with_replacement': od, 'combinations': od * not_(eq), 'permutations': not_(eq)}[name]
                return Iter('pair', binders=i1.binders + i2.binders, guard=gd, value=Tup([i1.value, i2.value]))
            if name == 'enumerate' and len(node.args) == 1:
                return self.enum(self.ev(node.args[0]))
            if name in ('list', 'tuple', 'reversed', 'sorted', 'set', 'iter') and len(node.args) == 1:
                r = self.iterable(node.args[0])
                if name in ('reversed', 'sorted', 'set') and r is not None:
                    r.ordered = False
                return r
            if name == 'zip':
                return self.zip_(node)
        v = self.ev(node)
        return self.iter_value(v)

    def zip_(self, node):
        g = self.g
        vals = [self.ev(x) for x in node.args]
        if all(isinstance(v, Tup) for v in vals):
            return Iter('unroll', values=[Tup(z) for z in zip(*[v.items for v in vals])])
        return None

    def enum(self, v):
        if isinstance(v, PathV) and v.path.endswith('statesdm') and not v.idx:
            x = fresh_var()
            q = Poly.atom(x)
            return Iter('range', binders=[(x, ('range', P0.frozen(), (sym('si.ncharge') + P1).frozen()))], guard=P1,
                        value=Tup([q, Row(q)]))
        r = self.as_row(v)
        if r is not None:
            it = self.mkrange(P0, slen(r.q))
            if it.kind == 'range':
                it.value = Tup([it.value, elem(r.q, it.value)])
                return it
        if isinstance(v, Tup):
            return Iter('unroll', values=[Tup([Poly.const(k), x]) for k, x in enumerate(v.items)])
        return None

    def as_row(self, v):
        if isinstance(v, Row):
            return v
        if isinstance(v, PathV) and v.path in ('si.statesdm', 'si_elph.statesdm') and len(v.idx) == 1 and not isinstance(v.idx[0], str):
            return Row(v.idx[0])
        return None

    def iter_value(self, v):
        r = self.as_row(v)
        if r is not None:
            return self.row_iter(r.q)
        if isinstance(v, Tup):
            return Iter('unroll', values=v.items)
        if isinstance(v, Iter):
            return v
        if isinstance(v, PathV) and v.path in ('si.statesdm', 'si_elph.statesdm') and not v.idx:
            x = fresh_var()
            q = Poly.atom(x)
            return Iter('range', binders=[(x, ('range', P0.frozen(), (sym('si.ncharge') + P1).frozen()))], guard=P1, value=Row(q))
        if isinstance(v, PathV):
            # rows of an array
            x = fresh_var()
            idx = self.compose(list(v.idx), [Poly.atom(x)])
            return Iter('range', binders=[(x, ('range', P0.frozen(), self.shape_of(v.path, len(v.idx)).frozen()))],
                        guard=P1, value=PathV(v.path, idx))
        return None

    def product(self, its):
        if any(i is None for i in its):
            return None
        if all(i.kind == 'unroll' for i in its):
            vals = [[]]
            for i in its:
                vals = [v + [x] for v in vals for x in i.values]
            return Iter('unroll', values=[Tup(v) for v in vals])
        if any(i.kind == 'unroll' for i in its):
            parts = []
            k = [j for j, i in enumerate(its) if i.kind == 'unroll'][0]
            for v in its[k].values:
                rest = self.product([i if j != k else Iter('range', binders=[], guard=P1, value=v) for j, i in enumerate(its)])
                if rest is None:
                    return None
                parts.append(rest)
            return Iter('cat', parts=parts)
        bs, gd, vs = [], P1, []
        for i in its:
            if i.kind == 'cat':
                return None
            # fresh copy of the binders (same iterable object may be repeated)
            mp = {b: Poly.atom(fresh_var()) for b, d in i.binders}
            bs += [(mp[b].single_atom(), subst_dom(d, mp, {})) for b, d in i.binders]
            gd = gd * subst_poly(i.guard, mp)
            vs.append(self.substv(i.value, mp))
        return Iter('prod', binders=bs, guard=gd, value=Tup(vs))

    def substv(self, v, mp):
        if isinstance(v, Poly):
            return subst_poly(v, mp)
        if isinstance(v, Tup):
            return Tup([self.substv(x, mp) for x in v.items])
        if isinstance(v, Row):
            return Row(subst_poly(v.q, mp))
        if isinstance(v, PathV):
            return PathV(v.path, [i if isinstance(i, str) else subst_poly(i, mp) for i in v.idx])
        return v

    # ------------------------------------------------------------ expressions
    def ev(self, n):
        g = self.g
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                return Poly.const(int(v))
            if isinstance(v, (int, float, complex)):
                if isinstance(v, float) and abs(v - 3.141592653589793) < 1e-13:
                    return sym('pi')
                return Poly.const(v)
            if isinstance(v, str):
                return StrV(v)
            if v is None:
                return NONE
            return opaque('const')
        if isinstance(n, ast.Name):
            return self.name(n)
        if isinstance(n, ast.Attribute):
            b = self.ev(n.value)
            if isinstance(b, PathV) and n.attr in ('real', 'imag'):
                p = g.poly(b)
                return real_part(p) if n.attr == 'real' else imag_part(p)
            if isinstance(b, PathV) and (b.idx or n.attr in METHODS):
                return FnV('method', b, n.attr) if n.attr != 'shape' else g.attr(b, 'shape')
            if isinstance(b, PathV):
                p = g.attr(b, n.attr)
                return p
            return g.attr(b, n.attr, n)
        if isinstance(n, ast.BinOp):
            return self.binop(n.op, self.ev(n.left), self.ev(n.right), n)
        if isinstance(n, ast.UnaryOp):
            if isinstance(n.op, ast.Not):
                return not_(self.cond(n.operand))
            v = g.poly(self.ev(n.operand))
            if isinstance(n.op, ast.USub):
                return -v
            if isinstance(n.op, ast.UAdd):
                return v
            return call('~', [v])
        if isinstance(n, (ast.BoolOp, ast.Compare)):
            return self.cond(n)
        if isinstance(n, ast.IfExp):
            c = self.cond(n.test)
            if c == P1:
                return self.ev(n.body)
            if c == P0:
                return self.ev(n.orelse)
            return self.mergev(c, self.ev(n.body), self.ev(n.orelse))
        if isinstance(n, ast.Subscript):
            return self.index(self.ev(n.value), self.indices(n.slice), n)
        if isinstance(n, (ast.Tuple, ast.List)):
            return Tup([self.ev(x) for x in n.elts])
        if isinstance(n, ast.Dict) and all(k is not None for k in n.keys):
            return DictV([(self.ev(k), self.ev(v)) for k, v in zip(n.keys, n.values)])
        if isinstance(n, ast.Call):
            return self.call_(n)
        if isinstance(n, (ast.GeneratorExp, ast.ListComp)):
            return FnV('gen', (n, self), 'gen')
        if isinstance(n, ast.Lambda):
            return FnV('lambda', (n, self), 'lambda')
        if isinstance(n, ast.JoinedStr):
            return opaque('fstring')
        g.note('expression %s' % type(n).__name__, n)
        return opaque('expr')

    def name(self, n):
        g = self.g
        if n.id in self.env:
            return self.env[n.id]
        if n.id == 'True':
            return P1
        if n.id == 'False':
            return P0
        r = g.proj.resolve(self.module, n.id)
        if r is None:
            if n.id == 'pi':
                return sym('pi')
            if self.fn is not None and not self.module.is_cython and not hasattr(builtins, n.id) and \
                    n.id not in bound_names(self.fn.node) and not self.module.may_define(n.id):
                g.undefined.append((n.id, self.fn.qualname, self.where(n)))
            return FnV('ext', n.id, n.id)
        return g.from_resolved(r, n.id)

    def indices(self, s):
        if isinstance(s, ast.Tuple):
            return [x for e in s.elts for x in self.indices(e)]
        if isinstance(s, ast.Slice):
            if s.lower is None and s.upper is None:
                return ['*']
            lo = self.g.poly(self.ev(s.lower)) if s.lower is not None else sym('None')
            up = self.g.poly(self.ev(s.upper)) if s.upper is not None else sym('None')
            return [call('slice', [lo, up])]
        if isinstance(s, ast.Index):    # pragma: no cover (old ast)
            return self.indices(s.value)
        v = self.ev(s)
        if isinstance(v, Tup):
            return [self.g.poly(x) for x in v.items]
        if isinstance(v, StrV):
            return [Poly.atom(intern(('str', v.s)))]
        return [self.g.poly(v)]

    def index(self, v, idx, n=None):
        g = self.g
        if isinstance(v, PathV):
            if not self.module.is_cython and not v.path.endswith('statesdm'):
                nidx = []
                for k, i in enumerate(idx):
                    c = i.int_value() if isinstance(i, Poly) else None
                    if c is not None and c < 0:
                        i = self.shape_of(v.path, len(v.idx) + k) + i
                    nidx.append(i)
                idx = nidx
            full = self.compose(list(v.idx), idx)
            p = PathV(v.path, full)
            nd = g.w.ndim.get(v.path)
            if v.path in ('si.statesdm', 'si_elph.statesdm'):
                if len(full) == 1 and not isinstance(full[0], str):
                    return Row(full[0])
                if len(full) == 2 and full[1] != '*':
                    return elem(full[0], full[1])
                if len(full) == 2:
                    return Row(full[0])
            if nd is not None and len(full) >= nd and not any(i == '*' for i in full):
                return g.readpath(p)
            if nd is None and not any(i == '*' for i in full) and self.known_scalar_rank(v.path, len(full)):
                return g.readpath(p)
            return p
        if isinstance(v, Row):
            return elem(v.q, idx[0])
        if isinstance(v, Tup):
            k = idx[0].int_value() if isinstance(idx[0], Poly) else None
            if k is not None and -len(v.items) <= k < len(v.items):
                r = v.items[k]
                return self.index(r, idx[1:], n) if len(idx) > 1 else r
            return item(g.poly(v), idx)
        if isinstance(v, Loc):
            return g.read_local(v, idx)
        if isinstance(v, Poly):
            return item(v, idx)
        g.note('subscript of %s' % type(v).__name__, n)
        return opaque('subscript')

    def known_scalar_rank(self, path, k):
        return False

    # ---- operators
    def binop(self, op, a, b, n):
        g = self.g
        if isinstance(a, Tup) and isinstance(b, Tup) and isinstance(op, ast.Add):
            return Tup(a.items + b.items)
        if isinstance(a, StrV) or isinstance(b, StrV):
            return opaque('string')
        if isinstance(a, Loc) or isinstance(b, Loc):
            pass
        x, y = g.poly(a), g.poly(b)
        if isinstance(op, ast.Add):
            return x + y
        if isinstance(op, ast.Sub):
            return x - y
        if isinstance(op, ast.Mult):
            return x * y
        if isinstance(op, ast.Div):
            if self.module.is_cython and is_int(x) and is_int(y) and x.t and not (isinstance(n, ast.AST) and self.floaty(n)):
                return call('cdiv', [x, y])
            if not y.t:
                return call('div0', [x])
            return x * inverse(y)
        if isinstance(op, ast.FloorDiv):
            return call('floordiv', [x, y])
        if isinstance(op, ast.Mod):
            return call('mod', [x, y])
        if isinstance(op, ast.Pow):
            k = y.int_value()
            if k is not None and 0 <= k <= 4:
                r = P1
                for _ in range(k):
                    r = r * x
                return r
            if k is not None and -4 <= k < 0:
                r = P1
                for _ in range(-k):
                    r = r * inverse(x)
                return r
            c = y.const_value()
            if c == (Fraction(1, 2), Fraction(0)):
                return self.sqrtval(x)
            return call('pow', [x, y])
        return call(type(op).__name__, [x, y])

    @staticmethod
    def floaty(n):
        """does the C expression involve a floating point literal (1./3)?"""
        for x in (getattr(n, 'left', None), getattr(n, 'right', None)):
            if x is not None:
                for c in ast.walk(x):
                    if isinstance(c, ast.Constant) and isinstance(c.value, (float, complex)):
                        return True
        return False

    def cond(self, n):
        """-> indicator polynomial"""
        g = self.g
        if isinstance(n, ast.BoolOp):
            cs = []
            if isinstance(n.op, ast.And):
                r = P1
                for x in n.values:
                    r = r * self.cond(x)
                return r
            r = P0
            for x in n.values:
                c = self.cond(x)
                r = or_(r, c)
            return r
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return not_(self.cond(n.operand))
        if isinstance(n, ast.Compare):
            r = P1
            left = self.ev(n.left)
            for op, c in zip(n.ops, n.comparators):
                right = self.ev(c)
                r = r * self.compare(op, left, right, n)
                left = right
            return r
        v = self.ev(n)
        if isinstance(v, NoneV):
            return P0
        if isinstance(v, StrV):
            return P1 if v.s else P0
        if isinstance(v, Tup):
            return P1 if v.items else P0
        return truth(g.poly(v))

    def compare(self, op, a, b, n):
        g = self.g
        if isinstance(op, (ast.Is, ast.Eq)) or isinstance(op, (ast.IsNot, ast.NotEq)):
            neg = isinstance(op, (ast.IsNot, ast.NotEq))
            if isinstance(a, NoneV) and isinstance(b, NoneV):
                r = P1
            elif isinstance(a, NoneV) or isinstance(b, NoneV):
                o = b if isinstance(a, NoneV) else a
                if isinstance(o, (Tup, Loc, Obj, FnV)) or (isinstance(o, Poly) and o.const_value() is not None):
                    r = P0
                else:
                    r = truth(call('isnone', [g.as_arg(o)]))
            elif isinstance(a, StrV) and isinstance(b, StrV):
                r = P1 if a.s == b.s else P0
            else:
                x, y = g.poly(a), g.poly(b)
                r = None
                for u, w in ((x, y), (y, x)):
                    c = w.int_value()
                    at = u.single_atom()
                    if c is not None and at is not None and S(at)[0] == 'call' and S(at)[1] in ('dm0', 'dm0e'):
                        if c == -1:
                            s = S(at)
                            r = not_(incl('' if s[1] == 'dm0' else 'e', *[thaw(i) for i in s[2]]))
                    if c is not None and c in (0, 1) and self.is_indicator(u):
                        r = u if c == 1 else not_(u)
                if r is None:
                    r = ind_cmp('eq', x - y)
            return not_(r) if neg else r
        x, y = g.poly(a), g.poly(b)
        # index tests written as >= 0 / < 0 / > -1
        for u, w, fl in ((x, y, False), (y, x, True)):
            at = u.single_atom()
            c = w.int_value()
            if at is not None and c is not None and S(at)[0] == 'call' and S(at)[1] in ('dm0', 'dm0e'):
                s = S(at)
                inc = incl('' if s[1] == 'dm0' else 'e', *[thaw(i) for i in s[2]])
                o = type(op)
                if fl:
                    o = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(o, o)
                if (o is ast.GtE and c == 0) or (o is ast.Gt and c == -1):
                    return inc
                if (o is ast.Lt and c == 0) or (o is ast.LtE and c == -1):
                    return not_(inc)
        if isinstance(op, ast.LtE):
            return ind_cmp('le', x - y)
        if isinstance(op, ast.GtE):
            return ind_cmp('le', y - x)
        if isinstance(op, ast.Lt):
            return not_(ind_cmp('le', y - x))
        if isinstance(op, ast.Gt):
            return not_(ind_cmp('le', x - y))
        if isinstance(op, (ast.In, ast.NotIn)):
            r = None
            if isinstance(b, Tup):
                r = P0
                for i in b.items:
                    r = or_(r, self.compare(ast.Eq(), a, i, n))
            else:
                row = self.as_row(b)
                if row is not None:
                    r = truth(call('instates', [g.poly(a), row.q]))
                else:
                    r = truth(call('in', [g.as_arg(a), g.as_arg(b)]))
            return not_(r) if isinstance(op, ast.NotIn) else r
        g.note('comparison', n)
        return truth(opaque('cmp'))

    @staticmethod
    def is_indicator(p):
        if p.const_value() is not None:
            return p == P1
        return bool(p.t) and all(not m[2] and not m[0] for m in p.t)

    # ---- calls
    def call_(self, n):
        g = self.g
        fn = n.func
        fname = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else None
        # builtins taking comprehensions
        if fname in ('sum', 'any', 'all', 'max', 'min') and len(n.args) == 1 and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)):
            return self.genfold(fname, n.args[0], n)
        f = None
        if isinstance(fn, ast.Attribute):
            b = self.ev(fn.value)
            if isinstance(b, Obj):
                f = FnV('method', b, fn.attr)
        if f is None:
            f = self.ev(fn)
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                if isinstance(v, Tup):
                    args += v.items
                else:
                    args.append(opaque('star'))
            else:
                args.append(self.ev(a))
        for k in n.keywords:
            if k.arg is None:
                kwargs['**'] = self.ev(k.value)
            else:
                kwargs[k.arg] = self.ev(k.value)
        return self.apply(f, args, kwargs, n)

    def genfold(self, fname, ge, n):
        g = self.g
        env0 = dict(self.env)
        binders, guard = [], P1
        val = None
        def rec(k):
            nonlocal guard
            if k == len(ge.generators):
                return [(list(bs), gd, self.ev(ge.elt))]
            c = ge.generators[k]
            it = self.iterable(c.iter)
            if it is None:
                raise Note('gen')
            its = it.parts if it.kind == 'cat' else [it]
            out = []
            for i in its:
                alts = [([], P1, v) for v in i.values] if i.kind == 'unroll' else [(i.binders, i.guard, i.value)]
                for b, gg, v in alts:
                    self.assign(c.target, v, n)
                    x = gg
                    for t in c.ifs:
                        x = x * self.cond(t)
                    nonlocal_b = list(bs)
                    bs.extend(b)
                    old = gdl[0]
                    gdl[0] = gdl[0] * x
                    out += rec2(k + 1)
                    gdl[0] = old
                    del bs[len(nonlocal_b):]
            return out
        bs, gdl = [], [P1]
        gd = P1

        def rec2(k):
            if k == len(ge.generators):
                return [(list(bs), gdl[0], self.ev(ge.elt))]
            return rec(k)
        try:
            alts = rec2(0)
        except Note:
            self.env = env0
            g.note('generator', n)
            return opaque('gen')
        self.env = env0
        if fname == 'sum':
            r = Poly()
            for b, gd_, v in alts:
                r = r + g.bind(g.poly(v) * gd_, b)
            return r
        if fname in ('any', 'all'):
            r = P0
            for b, gd_, v in alts:
                c = truth(g.poly(v))
                r = or_(r, exists(g, (c if fname == 'any' else not_(c)) * gd_, b) if b else (c if fname == 'any' else not_(c)) * gd_)
            return r if fname == 'any' else not_(r)
        if len(alts) == 1 and alts[0][0] and alts[0][1] == P1:
            return call('v' + fname, [g.bind(g.poly(alts[0][2]), alts[0][0])])
        return opaque(fname + '_gen')

    def apply(self, f, args, kwargs, n):
        g = self.g
        # calls through an attribute path: handler / index / self methods
        if isinstance(f, PathV):
            base, _, meth = f.path.rpartition('.')
            return self.path_call(base, meth, args, kwargs, n)
        if isinstance(f, FnV):
            k = f.kind
            if k == 'gate':
                c, x, y = f.obj
                return self.mergev(c, self.apply(x, args, kwargs, n), self.apply(y, args, kwargs, n))
            if k == 'func':
                return self.func_call(f.obj, args, kwargs, n)
            if k == 'class':
                return self.construct(f.obj, args, kwargs, n)
            if k == 'lambda':
                node, fr = f.obj
                if isinstance(node, ast.Lambda):
                    sub = Frame(g, fr.fn, fr.module)
                    sub.env = dict(fr.env)
                    for a, v in zip(node.args.args, args):
                        sub.env[a.arg] = v
                    return sub.ev(node.body)
                sub = Frame(g, fr.fn, fr.module)
                sub.env = dict(fr.env)
                sub.env.pop('__ret__', None)
                names = [a.arg for a in node.args.args]
                for a, v in zip(names, args):
                    sub.env[a] = v
                for a, v in kwargs.items():
                    sub.env[a] = v
                for a, d in zip(names[len(names) - len(node.args.defaults):], node.args.defaults):
                    if a not in names[:len(args)] and a not in kwargs:
                        sub.env[a] = self.ev(d)
                g.depth += 1
                try:
                    if g.depth > g.maxdepth:
                        return opaque('depth')
                    sub.block(desugar(list(node.body), (ast.Return,)))
                finally:
                    g.depth -= 1
                return sub.env.get('__ret__', NONE)
            if k == 'method':
                return self.method(f.obj, f.name, args, kwargs, n)
            if k == 'ext':
                return self.ext_call(str(f.obj), f.name, args, kwargs, n)
            if k == 'module':
                return opaque('call')
        if isinstance(f, Poly):
            return call('apply', [f] + [g.as_arg(a) for a in args])
        if isinstance(f, Obj):
            return self.method(f, '__call__', args, kwargs, n)
        g.note('call of %s' % type(f).__name__, n)
        return opaque('call')

    def norm_args(self, fn, args, kwargs, drop_self=False):
        """positional argument list with defaults filled in"""
        a = fn.node.args
        names = [x.arg for x in a.args]
        if drop_self:
            names = names[1:]
        out = list(args[:len(names)])
        nd = len(a.defaults)
        defs = dict(zip([x.arg for x in a.args][len(a.args) - nd:], a.defaults))
        for nm in names[len(out):]:
            if nm in kwargs:
                out.append(kwargs[nm])
            elif nm in defs:
                fr = Frame(self.g, fn, fn.module)
                out.append(fr.ev(defs[nm]))
            else:
                break
        return out + list(args[len(names):])

    def out_params(self, fn):
        """indices of parameters the function stores into"""
        r = getattr(fn, '_outp', None)
        if r is None:
            names = fn.args
            st = set()
            for x in ast.walk(fn.node):
                if isinstance(x, ast.Assign):
                    for t0 in x.targets:
                        for t in ast.walk(t0):
                            if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and isinstance(t.ctx, ast.Store):
                                st.add(t.value.id)
                elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Subscript) and isinstance(x.target.value, ast.Name):
                    st.add(x.target.value.id)
            r = [k for k, nm in enumerate(names) if nm in st]
            fn._outp = r
        return r

    def func_call(self, fn, args, kwargs, n, selfbound=False):
        g = self.g
        if fn.cls is not None and not selfbound:
            # Class.method(self, ...)
            if args and isinstance(args[0], PathV) and args[0].path in ('kh', 'kh_elph', 'si', 'si_elph'):
                return self.path_call(args[0].path, fn.name, args[1:], kwargs, n)
        if fn.name in g.atoms or fn.qualname in g.atoms:
            return self.atom_call(fn, args, kwargs, n)
        if fn.name in g.no_inline:
            return call(fn.name, [g.as_arg(a) for a in self.norm_args(fn, args, kwargs)])
        return self.invoke(fn, args, kwargs)

    def atom_call(self, fn, args, kwargs, n):
        g = self.g
        a = self.norm_args(fn, args, kwargs)
        g.calls.append((fn.name, len(a)))
        outs = self.out_params(fn)
        ins = [g.as_arg(x) for k, x in enumerate(a) if k not in outs]
        r = call(fn.name, ins)
        for k in outs:
            if k < len(a):
                o = a[k]
                val = r if len(outs) == 1 else item(r, [Poly.const(k)])
                if isinstance(o, Loc):
                    # forget earlier content
                    g.effects[:] = [e for e in g.effects if not (isinstance(e.target, Loc) and e.target.ident == o.ident)]
                    o.src = val
                elif isinstance(o, PathV) and not o.idx:
                    self.setwhole(o.path, val)
        return r

    def setwhole(self, path, val):
        """path[...] := components of val"""
        g = self.g
        # drop earlier whole/element stores to this scratch array
        g.effects[:] = [x for x in g.effects if x.target != path]
        g.objstate[('scratch', path)] = val

    def construct(self, cls, args, kwargs, n):
        g = self.g
        init = g.proj.lookup(cls, '__init__')
        a = args
        if init is not None:
            a = self.norm_args(init, args, kwargs, drop_self=True)
        return Obj(g.newid(), cls.name, list(a))

    def method(self, obj, name, args, kwargs, n):
        g = self.g
        if isinstance(obj, Obj):
            ca = [g.as_arg(a) for a in obj.args] + [g.as_arg(a) for a in args] + [g.as_arg(v) for k, v in sorted(kwargs.items())]
            r = call('%s.%s' % (obj.cls, name), ca)
            g.objstate[obj.ident] = r
            for k in [k for k in g.objstate if isinstance(k, tuple) and k[0] == obj.ident]:
                del g.objstate[k]
            return r
        if name in ('conjugate', 'conj') and not args:
            return conj(g.poly(obj))
        if name == 'copy' and not args:
            if isinstance(obj, PathV):
                return obj
            return obj
        if name in ('fill',) and isinstance(obj, (PathV, Loc)):
            if isinstance(obj, Loc):
                self.store_loc(obj, ['*'] * (len(obj.shape) if obj.shape else 1), g.poly(args[0]), '=', n)
            else:
                nd = g.w.ndim.get(obj.path, 1)
                idx = list(obj.idx) + ['*'] * (nd - len(obj.idx))
                g.write(obj.path, idx, '=', g.poly(args[0]), self.where(n))
            return NONE
        if name == 'sum' and isinstance(obj, PathV):
            return self.vecsum(g.poly(obj), obj, n)
        if isinstance(obj, Poly) and name in ('sum', 'real', 'imag', 'dot', 'T'):
            return call('.' + name, [obj] + [g.as_arg(a) for a in args])
        if name == 'update' and isinstance(obj, PathV) and len(args) == 1 and isinstance(args[0], DictV):
            for k, v in args[0].items:
                g.write(obj.path, list(obj.idx) + [g.poly(k)], '=', g.poly(v), self.where(n))
            return NONE
        if name == 'append' and isinstance(obj, Tup):
            g.note('append', n)
            return NONE
        return call('.' + name, [g.as_arg(obj)] + [g.as_arg(a) for a in args])

    def vecsum(self, p, obj, n):
        """sum over the single starred axis"""
        g = self.g
        if isinstance(obj, PathV):
            nd = g.w.ndim.get(obj.path)
            idx = list(obj.idx)
            if nd:
                idx += ['*'] * (nd - len(idx))
            dims = self.dims(obj.path)
            if dims and len(dims) == len(idx) and idx.count('*') == 1:
                k = idx.index('*')
                x = fresh_var()
                q = subst_poly(p, {'*': Poly.atom(x)})
                return g.bind(q, [(x, ('range', P0.frozen(), dims[k].frozen()))])
        return call('.sum', [p])

    def ext_call(self, full, name, args, kwargs, n):
        g = self.g
        if name in ('abs', 'fabs', 'absolute'):
            p = g.poly(args[0])
            # |x| does not see the sign
            return self.absval(p)
        if name == 'sqrt' and len(args) == 1:
            return self.sqrtval(g.poly(args[0]))
        if name == 'len':
            r = self.as_row(args[0])
            if r is not None:
                return slen(r.q)
            if isinstance(args[0], Tup):
                return Poly.const(len(args[0].items))
            if isinstance(args[0], Loc) and args[0].shape:
                return args[0].shape[0]
            if isinstance(args[0], PathV):
                if args[0].path in ('si.statesdm', 'si_elph.statesdm') and not args[0].idx:
                    return sym('si.ncharge') + P1
                return self.shape_of(args[0].path, len(args[0].idx))
            return call('len', [g.as_arg(args[0])])
        if name in ('conj', 'conjugate') and len(args) == 1:
            return conj(g.poly(args[0]))
        if name in ('real',) and len(args) == 1:
            return real_part(g.poly(args[0]))
        if name in ('imag',) and len(args) == 1:
            return imag_part(g.poly(args[0]))
        if name in ('zeros', 'empty', 'zeros_like', 'empty_like', 'ones'):
            shp = None
            if args and not name.endswith('_like'):
                shp = [g.poly(x) for x in args[0].items] if isinstance(args[0], Tup) else [g.poly(args[0])]
            elif args and isinstance(args[0], Loc):
                shp = args[0].shape
            lo = Loc(g.newid(), name.startswith('zeros'), shp)
            lo.ones = name == 'ones'
            return lo
        if name == 'array' or name == 'asarray':
            if args and isinstance(args[0], Tup):
                return args[0]
            return args[0] if args else opaque('array')
        if name == 'sum' and len(args) == 1:
            if isinstance(args[0], PathV):
                return self.vecsum(g.poly(args[0]), args[0], n)
            if isinstance(args[0], FnV) and args[0].kind == 'gen':
                return self.genfold('sum', args[0].obj[0], n)
            if isinstance(args[0], Tup):
                r = Poly()
                for x in args[0].items:
                    r = r + g.poly(x)
                return r
        if name in ('__cast__',):
            ty = args[0].s if isinstance(args[0], StrV) else ''
            if ty in ('long_t', 'int_t', 'long', 'int', 'size_t'):
                p = g.poly(args[1])
                return p if is_int(p) else call('int', [p])
            return args[1]
        if name == 'int' and len(args) == 1:
            p = g.poly(args[0])
            return p if is_int(p) else call('int', [p])
        if name == 'float' and len(args) == 1:
            return g.poly(args[0])
        if name == 'complex' and len(args) in (1, 2):
            r = g.poly(args[0])
            if len(args) == 2:
                r = r + g.poly(args[1]).scale((Fraction(0), Fraction(1)))
            return r
        if name == 'bool' and len(args) == 1:
            return truth(g.poly(args[0]))
        if name in ('any', 'all') and len(args) == 1 and not kwargs and isinstance(args[0], Poly):
            p = truth(args[0])
            at = [a for a in all_refs(p) if '*' in S(a)[2]]
            if at and all(list(S(a)[2]).count('*') == 1 for a in at):
                a = sorted(at, key=str)[0]
                x = fresh_var()
                q = subst_poly(p, {'*': Poly.atom(x)})
                b = [(x, ('range', P0.frozen(), self.shape_of(S(a)[1], list(S(a)[2]).index('*')).frozen()))]
                return exists(g, q, b) if name == 'any' else not_(exists(g, not_(q), b))
        if name in ('max', 'min', 'amax', 'amin') and len(args) == 1 and not kwargs and isinstance(args[0], PathV):
            it = self.iter_value(args[0])
            if it is not None and it.binders:
                return call('vmax' if 'max' in name else 'vmin', [g.bind(g.poly(it.value), it.binders)])
        if name in ('max', 'min', 'fmax', 'fmin', 'maximum', 'minimum') and len(args) >= 2:
            nm = 'max' if 'max' in name else 'min'
            fr = sorted(g.poly(a).frozen() for a in args)
            return call(nm, [thaw(x) for x in fr])
        if name in ('print', 'print_warning', 'print_error'):
            return NONE
        if name in ('pow',) and len(args) == 2:
            return self.binop(ast.Pow(), args[0], args[1], n)
        if name == 'multiply' and len(args) == 2:
            return g.poly(args[0]) * g.poly(args[1])
        if name in ('isinstance', 'type', 'hasattr', 'getattr'):
            return call(name, [g.as_arg(a) for a in args])
        a = [g.as_arg(x) for x in args] + [call('kw', [Poly.atom(intern(('str', k))), g.as_arg(v)]) for k, v in sorted(kwargs.items())]
        return call(name if name in MATH_NAMES else self.shortname(full), a)

    @staticmethod
    def shortname(full):
        return full.split('.')[-1]

    def absval(self, p):
        a, b = p.frozen(), (-p).frozen()
        if a == b:
            return Poly()
        c = p.const_value()
        if c is not None and c[1] == 0:
            return Poly.const(abs(c[0]))
        if len(p.t) == 1:
            # the modulus of a product does not see conjugation or phases
            (m, c), = p.t.items()
            if not m[0] and not m[1] and (c[0] == 0 or c[1] == 0) and any(S(x)[0] == 'conj' for x, e in m[2]) or c[0] == 0:
                f = {}
                for x, e in m[2]:
                    x = S(x)[1] if S(x)[0] == 'conj' else x
                    f[x] = f.get(x, 0) + e
                return self.absval(Poly({(EMPTY, EMPTY, tuple(sorted(f.items()))): (abs(c[0]) + abs(c[1]), Fraction(0))}))
        return call('abs', [thaw(min(a, b))])

    def sqrtval(self, p):
        """sqrt(z conj(z)) = |z|"""
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if not m[0] and not m[1] and c == ONE:
                f = dict(m[2])
                z = {}
                for x, e in f.items():
                    y = conj_atom(x)
                    if y == x:
                        if e % 2:
                            break
                        z[x] = e // 2
                    else:
                        if f.get(y) != e:
                            break
                        z[S(x)[1] if S(x)[0] == 'conj' else x] = e
                else:
                    return self.absval(Poly({(EMPTY, EMPTY, tuple(sorted(z.items()))): ONE}))
        return call('sqrt', [p])

    # ---- calls on object paths
    def path_call(self, base, meth, args, kwargs, n):
        g = self.g
        if base in ('kh', 'kh_elph', 'si', 'si_elph'):
            r = self.handler(base, meth, args, kwargs, n)
            if r is not None:
                return r
            hc = g.handler_class(self.module)
            if hc is not None and base in ('kh', 'kh_elph'):
                fn = g.proj.lookup(hc, meth)
                if fn is not None and meth not in g.atoms:
                    return self.func_call(fn, [PathV(base)] + args, kwargs, n, selfbound=True)
        if base == g.root:
            if g.cls is not None:
                fn = g.proj.lookup(g.cls, meth)
                if fn is not None:
                    return self.func_call(fn, [PathV(base)] + args, kwargs, n, selfbound=True)
            if meth in g.atoms:
                return call(meth, [g.as_arg(a) for a in args])
        if meth in ('conjugate', 'conj') and not args:
            return conj(g.poly(PathV(base)))
        if meth in ('fill', 'sum', 'copy') or (meth == 'update' and len(args) == 1 and isinstance(args[0], DictV)):
            return self.method(PathV(base), meth, args, kwargs, n)
        if meth in ('print_error', 'print_warning'):
            return NONE
        a = [g.as_arg(x) for x in args] + [call('kw', [Poly.atom(intern(('str', k))), g.as_arg(v)]) for k, v in sorted(kwargs.items())]
        if base in ('np', 'numpy', 'math', 'itertools'):
            return self.ext_call(base + '.' + meth, meth, args, kwargs, n)
        g.note('call %s.%s' % (base, meth), n)
        return call('%s.%s' % (base, meth), a)

    def handler(self, base, meth, args, kwargs, n):
        g = self.g
        e = 'e' if base in ('kh_elph', 'si_elph') else ''
        P = lambda: [g.poly(a) for a in args]
        if meth == 'get_ind_dm0':
            mt = kwargs.get('maptype')
            a = P()
            if mt is None and len(a) == 4:
                mt = a[3]
            k = 1 if mt is None else g.poly(mt).int_value()
            x, y, q = a[:3]
            if k == 1:
                return call('dm0' + e, [x, y, q])
            if k == 2:
                return truth(call('uniq' + e, [x, y, q]))
            if k == 3:
                return truth(call('conjd' + e, [x, y, q]))
            if k == 0:
                return call('dmflat' + e, [x, y, q])
            return opaque('maptype')
        if meth == 'get_ind_dm0_conj':
            return truth(call('conjd' + e, P()[:3]))
        if meth == 'get_ind_dm0_bool':
            return truth(call('uniq' + e, P()[:3]))
        if meth == 'get_ind_dm1':
            return call('dm1' + e, P()[:3])
        if meth == 'is_included':
            a = self.norm_kw(P(), kwargs, ('b', 'bp', 'bcharge'))
            return incl(e, *a[:3])
        if meth == 'is_unique':
            a = self.norm_kw(P(), kwargs, ('b', 'bp', 'bcharge'))
            return truth(call('uniq' + e, a[:3]))
        if meth == 'get_phi0_element':
            a = self.norm_kw(P(), kwargs, ('b', 'bp', 'bcharge'))
            return call('phi0el' + e, a[:3])
        if base.startswith('si'):
            return None
        order = {'set_energy': ('energy', 'b', 'bp', 'bcharge'),
                 'set_matrix_element': ('fct', 'b', 'bp', 'bcharge', 'a', 'ap', 'acharge'),
                 'set_matrix_element_pauli': ('fctm', 'fctp', 'bb', 'aa'),
                 'set_matrix_element_dd': ('l', 'fctm', 'fctp', 'bb', 'aa', 'mi'),
                 'add_matrix_element': ('fct', 'l', 'b', 'bp', 'bcharge', 'a', 'ap', 'acharge', 'mi'),
                 'add_element_Lnn': ('a1', 'b1', 'charge', 'fct')}
        if meth in order:
            a = self.norm_kw(P(), kwargs, order[meth])
            w = self.where(n)
            if meth == 'set_energy':
                # no entry for the diagonal: the difference vanishes there
                g.write('kh.me_energy', a[1:4], '+=', a[0], w)
            elif meth == 'set_matrix_element':
                g.write('kh.me', a[1:7], '+=', a[0], w)
            elif meth == 'set_matrix_element_pauli':
                g.write('kh.pauli_m', a[2:4], '+=', a[0], w)
                g.write('kh.pauli_p', a[2:4], '+=', a[1], w)
            elif meth == 'set_matrix_element_dd':
                g.write('kh.dd_m', [a[0]] + a[3:6], '+=', a[1], w)
                g.write('kh.dd_p', [a[0]] + a[3:6], '+=', a[2], w)
            elif meth == 'add_matrix_element':
                mi = a[8].int_value() if len(a) > 8 else None
                if mi in (5, 6):
                    # only their sum over the leads is used
                    g.write('kh.rtd_sum', a[2:9], '+=', a[0], w)
                elif mi == 7 and a[2:5] == a[5:8]:
                    g.write('kh.Lnn', a[2:5], '+=', a[0], w)
                else:
                    g.write('kh.rtd', a[1:9], '+=', a[0], w)
            elif meth == 'add_element_Lnn':
                g.write('kh.Lnn', a[0:3], '+=', a[3], w)
            return NONE
        if meth == 'add_element_2nd_order':
            a = P()
            if len(a) == 9:
                a = a[1:] if True else a
            elif len(a) == 10:
                a = a[1:]
            g.write('kh.rtd2', [a[0]] + a[2:], '+=', a[1], self.where(n))
            return NONE
        if meth in ('set_phi0', 'set_kern', 'set_dphi0_dt', 'set_matrix_list'):
            g.write('kh.' + meth, (), '=', call('args', [g.as_arg(a) for a in args]), self.where(n))
            return NONE
        if meth == 'get_phi0_norm':
            return call('phi0norm', [])
        # a handler helper: inline the handler's own method
        return None

    def norm_kw(self, a, kwargs, names):
        a = list(a)
        for nm in names[len(a):]:
            if nm in kwargs:
                a.append(self.g.poly(kwargs[nm]))
        return a


PER_LEAD = {'leads.mulst', 'leads.tlst', 'leads.dlst', 'leads.Tba'}


def exists(g, c, binders):
    """indicator of: c holds for some element"""
    if c.const_value() is not None:
        return c
    binders = list(binders)
    for k, (v, d) in enumerate(binders):
        lo = thaw(d[1]) if d[0] == 'range' else None
        if lo is not None and lo.int_value() is not None and subst_poly(c, {v: lo}) == P0:
            # the first element never qualifies
            binders[k] = (v, ('range', (lo + P1).frozen(), d[2]))
    return Poly({(EMPTY, frozenset([('nz', g.bind(c, binders).frozen())]), ()): ONE})


def all_refs(p):
    from .compare import all_atoms
    return [a for a in all_atoms(p) if S(a)[0] == 'ref']


POSITIVE = {'tlst'}      # temperatures


def nonneg(p):
    return len(p.t) == 1 and all(c[1] == 0 and c[0] > 0 and len(m[2]) == 1 and S(m[2][0][0])[0] == 'ref' and
                                 S(m[2][0][0])[1].split('.')[-1] in POSITIVE for m, c in p.t.items())


def largest(post, acc, allacc):
    """('max'|'min', x) when the new value of the accumulator is the larger (smaller) of its old value and x"""
    A = Poly.atom(acc)
    out = Poly()
    lit = None
    for m, c in post.t.items():
        if (acc, 1) in m[2] and len(m[2]) == 1 and not m[0]:
            if len(m[1]) == 1:
                lit = next(iter(m[1]))
    for f in (lit,):
        if f is None:
            continue
        for neg in (False, True):
            x = Poly()
            for m, c in post.t.items():
                if (f in m[1]) != neg and not any(b == acc for b, e in m[2]):
                    x = x + Poly({(m[0], m[1] - {f}, m[2]): c})
            if free_atoms(x) & allacc or not x.t:
                continue
            for kind, want in (('max', gate(ind_cmp('le', x - A), A, x)), ('max', gate(ind_cmp('le', A - x), x, A)),
                               ('min', gate(ind_cmp('le', A - x), A, x)), ('min', gate(ind_cmp('le', x - A), x, A))):
                if want == post:
                    return kind, x
    for kind in ('max', 'min'):
        a = post.single_atom()
        if a is not None and S(a)[0] == 'call' and S(a)[1] == kind and len(S(a)[2]) == 2:
            xs = [thaw(y) for y in S(a)[2]]
            for i in (0, 1):
                if xs[i] == A and acc not in free_atoms(xs[1 - i]):
                    return kind, xs[1 - i]
    return None


METHODS = {'conjugate', 'conj', 'fill', 'copy', 'sum', 'dot', 'append', 'astype', 'tolist', 'reshape', 'T'}
SCALAR_C = {'double_t', 'long_t', 'int_t', 'complex_t', 'bool_t', 'double', 'int', 'long'}
