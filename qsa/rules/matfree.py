"""C06: the operator applied without storing the kernel is the kernel that would have been stored.

(a) element by element: what KernelHandler adds to the matrix, applied to any vector, is what KernelHandlerMatrixFree adds to the result;
(b) the norm read from the vector is the normalisation row of the matrix; (c) generate_vec applies that operator to its argument and only to it;
(d) the solution, not the last trial vector, is what remains in the handler; (e) generate_kern writes through the handler only;
(f) the handler is chosen by the matrix-free option."""
import ast
from ..frontend import AnchorMissing
from ..engine import World, Engine, Effect, PathV, Loc, sym, call
from ..values import *
from .laws import NotModelled, safe, wh, impls, extract
from .layout import LayoutModel, summary, run_model, norm, differ, cases, known_names, WORDS, KINDS, SIG, HPY, HCY, Invalid

PY, CY = 'qmeq.approach.aprclass', 'qmeq.approach.c_aprclass'


def apply_kern(M, f):
    out = {}
    for t, d in f.items():
        if t != 'kern':
            raise NotModelled('the handler writes %s' % t)
        for (r, c), v in d.items():
            out[(r,)] = out.get((r,), 0) + v * M.real('phi0', c)
    return {'dphi0_dt': {c: v for c, v in out.items() if abs(v) > 1e-12}}


def element(rep, world, mod, which, meth, n, signs):
    args = [sym(a) for a in SIG[meth]]
    m = summary(rep, world, mod, 'KernelHandler', meth, args)
    v = summary(rep, world, mod, 'KernelHandlerMatrixFree', meth, args)
    known_names(m + v, WORDS)
    name = '%s (%s)' % (meth, which)
    total = 0
    for k in range(n):
        for kind, indexing in KINDS + ([('Pauli', 'Lin')] if meth == 'set_matrix_element_pauli' else []):
            M = LayoutModel(3 + k, kind, indexing, sorted_ids=k % 2 == 1)
            for f in cases(M, meth):
                if meth == 'set_energy' and f['b'] == f['bp']:
                    f = dict(f, energy=0.0)       # the energy of a population is E[b]-E[b]
                try:
                    x = apply_kern(M, norm(run_model(M, m, f)))
                    y = norm(run_model(M, v, f))
                except Invalid as ex:
                    rep.finding('C06/%s/%s' % (which, meth), '%s: an element outside of the layout is addressed' % name, wh(m) + wh(v), '%s: %s' % (sorted(f.items()), ex))
                    return
                total += 1
                # the equations of the imaginary parts may be written with either sign, the same one everywhere
                fits = {sg for sg in signs if not differ(x, {t: {c: v * (sg if c[0] >= M.ndm0 else 1) for c, v in dd.items()} for t, dd in y.items()})}
                if fits:
                    signs &= fits
                else:
                    d = differ(x, y) or ('', ('sign',), '', '')
                    rep.finding('C06/%s/%s' % (which, meth), '%s: the matrix-free handler does not apply the element the matrix handler stores' % name, wh(m) + wh(v),
                                'arguments %s of a %s layout (%s indexing): row %r of the result is %r from the stored matrix and %r matrix-free' % (
                                    sorted(f.items()), kind, indexing, d[1], d[2], d[3]))
                    return
    rep.count('argument tuples', total)
    rep.ok('%s: stored element applied to a vector = matrix-free contribution' % name, '%d argument tuples' % total)


def normrow(rep, world, mod, hmod, which, n):
    ci = world.proj.find_class(mod, 'Approach')
    e = Engine(world, ci)
    e.run('generate_norm_vec', [])
    g = [x for x in e.effects if not isinstance(x.target, Loc)]
    s = summary(rep, world, hmod, 'KernelHandlerMatrixFree', 'get_phi0_norm', [])
    known_names(g + s, WORDS | {'norm_vec'})
    for k in range(2 * n):
        for kind, indexing in KINDS:
            M = LayoutModel(3 + k, kind, indexing)
            nv = norm(run_model(M, g, {})).get('norm_vec', {})
            want = sum(v * M.real('phi0', c[0]) for c, v in nv.items())
            trace = sum(M.real('phi0', M.get(b, b, q)[0]) for q, r in enumerate(M.rows) for b in r)
            got = sum(v for d in norm(run_model(M, s, {})).values() for v in d.values())
            for what, a in (('the matrix-free norm', got), ('the normalisation row of the kernel', want)):
                if abs(a - trace) > 1e-9 * (1 + abs(trace)):
                    rep.finding('C06/%s/norm' % which, '%s is not the total probability of the vector (%s)' % (what, which), wh(g if a is want else s),
                                '%s layout (%s indexing): %r instead of %r' % (kind, indexing, a, trace))
                    return
    rep.ok('normalisation row and matrix-free norm are the total probability (%s)' % which)


def genvec(rep, world, mod, which):
    ci = world.proj.find_class(mod, 'Approach')
    fn = world.proj.lookup(ci, 'generate_vec')
    if fn is None:
        raise AnchorMissing('%s.Approach.generate_vec' % mod)
    e = Engine(world, ci)
    e.run('generate_vec', [sym('PHI')])
    effs = [x for x in e.effects if not isinstance(x.target, Loc)]
    at = ['%s:%d' % (fn.module.relpath, fn.node.lineno)]
    pos = {'phi': [], 'zero': [], 'kern': [], 'row': []}
    row = None
    for i, x in enumerate(effs):
        leaf = x.target.split('.')[-1].lstrip('_')
        if x.target == 'kh.set_phi0':
            pos['phi'].append(i)
            if str(x.val) != 'args(PHI)':
                rep.finding('C06/%s/argument' % which, 'generate_vec does not apply the operator to its argument (%s)' % which, at, str(x.val)[:200])
                return
        elif x.target.startswith('kh.'):
            pos['kern'].append(i)
        elif leaf == 'dphi0_dt':
            whole = x.op == '=' and x.guard.frozen() == P1.frozen() and x.val.frozen() == P0.frozen() and whole_index(x)
            if whole:
                pos['zero'].append(i)
            else:
                pos['row'].append(i)
                row = x
    if not pos['kern']:
        raise NotModelled('generate_vec does not reach the kernel handler')

    def bad(key, msg, detail=''):
        rep.finding('C06/%s/%s' % (which, key), 'generate_vec (%s): %s' % (which, msg), at, detail)
    if not pos['phi'] or min(pos['phi']) > min(pos['kern']):
        return bad('argument', 'the vector is not given to the handler before the kernel is applied')
    if not pos['zero'] or max([z for z in pos['zero'] if z < min(pos['kern'])] or [-1]) < 0 or any(z > min(pos['kern']) for z in pos['zero']):
        return bad('zeroed', 'the result is not cleared before the kernel is applied to the new vector')
    late = [effs[i] for i in pos['row'] if i > max(pos['kern'])]
    if len(late) != 1 or late[0].op != '=' or len(pos['row']) != 1:
        return bad('row', 'the normalisation condition does not replace one row after the kernel was applied', str([str(x.val)[:80] for x in late]))
    r = late[0]
    if len(r.idx) != 1 or 'norm_row' not in str(r.idx[0]) or set(leaf_names(r.idx[0])) - {'funcp.norm_row', '_norm_row', 'norm_row'}:
        return bad('row', 'the row replaced by the normalisation condition is not norm_row', str(r.idx[0])[:200])
    want = call('phi0norm', []) - P1
    if r.val.frozen() != want.frozen():
        return bad('row', 'the normalisation row is not the norm minus one', str(r.val)[:200])
    rep.ok('generate_vec applies the kernel to its argument, once, from a cleared vector (%s)' % which)

    # what is returned must not be the work array itself: root finders keep it
    env = {}
    fresh = True
    for s in ast.walk(fn.node):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            env[s.targets[0].id] = s.value
    rets = [s for s in ast.walk(fn.node) if isinstance(s, ast.Return) and s.value is not None]

    def alias(x, depth=0):
        if isinstance(x, ast.Name) and x.id in env and depth < 5:
            return alias(env[x.id], depth + 1)
        if isinstance(x, ast.Attribute) and x.attr.lstrip('_') == 'dphi0_dt':
            return True
        if isinstance(x, ast.Attribute) and x.attr in ('base', 'T'):
            return alias(x.value, depth)
        if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Slice):
            return alias(x.value, depth)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('asarray', 'ravel', 'reshape', 'view', 'squeeze'):
            return any(alias(a, depth) for a in x.args) or alias(x.func.value, depth)
        return False
    if not rets:
        raise NotModelled('generate_vec returns nothing')
    for s in rets:
        if alias(s.value):
            return rep.finding('C06/%s/alias' % which, 'generate_vec (%s) returns its work array, which the next application overwrites while the root finder still uses it' % which,
                               ['%s:%d' % (fn.module.relpath, s.lineno)], ast.unparse(s))
    rep.ok('generate_vec returns a vector of its own (%s)' % which)


def leaf_names(x):
    from ..compare import names_of
    return names_of(x)[1] if isinstance(x, Poly) else {str(x)}


def whole_index(x):
    if len(x.idx) == 0:
        return True
    if len(x.idx) != 1:
        return False
    i = x.idx[0]
    if str(i) == '*':
        return True
    # a loop variable running over the whole array
    t = str(i)
    return t.startswith('x') and t[1:].isdigit()


def through_handler(rep, world, label, mod, cls):
    e = extract(rep, world, mod, cls, 'generate_kern')
    for x in e.effects:
        if isinstance(x.target, Loc):
            continue
        leaf = x.target.split('.')[-1].lstrip('_')
        if leaf in ('kern', 'bvec', 'dphi0_dt'):
            rep.finding('C06/%s/direct' % label.replace(' ', ''), '%s: generate_kern writes %s itself, which a matrix-free solve does not see' % (label, leaf), [x.where])
            return
    n = sum(1 for x in e.effects if not isinstance(x.target, Loc) and x.target.startswith('kh.'))
    if not n:
        raise NotModelled('nothing is given to the handler')
    rep.ok('%s: every kernel element goes through the handler' % label, '%d effects' % n)


def chosen(rep, world, mod, cls):
    fn = world.proj.lookup(world.proj.find_class(mod, cls), 'prepare_kernel_handler')
    if fn is None:
        raise AnchorMissing('%s.prepare_kernel_handler' % cls)
    label = '%s.%s.prepare_kernel_handler' % (mod.split('.')[-1], cls)
    got = []

    def name_of(x):
        return x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else ''

    def cond(t):
        """truth of a test for mfreeq in (True, False), or None"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            r = cond(t.operand)
            return None if r is None else (not r[0], not r[1])
        if name_of(t).lstrip('_') == 'mfreeq':
            return (True, False)
        if isinstance(t, ast.Name) and t.id in env:
            return cond(env[t.id])
        if isinstance(t, ast.Call) and name_of(t.func) == 'bool' and len(t.args) == 1:
            return cond(t.args[0])
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant):
            r = cond(t.left)
            c = t.comparators[0].value
            if r is None or c not in (True, False, 1, 0):
                return None
            if isinstance(t.ops[0], (ast.Eq, ast.Is)):
                return tuple(v == bool(c) for v in r)
            if isinstance(t.ops[0], (ast.NotEq, ast.IsNot)):
                return tuple(v != bool(c) for v in r)
        return None
    env = {s.targets[0].id: s.value for s in ast.walk(fn.node) if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)}

    def walk(stmts, live):
        for s in stmts:
            if isinstance(s, ast.If):
                c = cond(s.test)
                if c is None and any(isinstance(x, ast.Call) and name_of(x.func).startswith('KernelHandler') for x in ast.walk(s)):
                    raise NotModelled('the choice of handler depends on %s' % ast.unparse(s.test))
                c = c or (True, True)
                nc = tuple(not v for v in c) if cond(s.test) else (True, True)
                l1 = walk(s.body, tuple(a and b for a, b in zip(live, c)))
                l2 = walk(s.orelse, tuple(a and b for a, b in zip(live, nc)))
                live = tuple(a or b for a, b in zip(l1, l2))
                continue
            expr(s, live)
            if isinstance(s, ast.Return):
                return (False, False)
        return live

    def expr(s, live):
        for x in ast.walk(s):
            if isinstance(x, ast.IfExp) and cond(x.test):
                c = cond(x.test)
                expr(x.body, tuple(a and b for a, b in zip(live, c)))
                expr(x.orelse, tuple(a and not b for a, b in zip(live, c)))
                return
            if isinstance(x, ast.Call):
                nm = name_of(x.func)
                if isinstance(x.func, ast.IfExp):
                    return expr(x.func, live)
                if nm.startswith('KernelHandler'):
                    got.append((nm, live, x.lineno))
            if isinstance(x, ast.Name) and x.id.startswith('KernelHandler') and isinstance(s, ast.Name):
                got.append((x.id, live, x.lineno))
    walk(fn.node.body, (True, True))
    if not got:
        raise NotModelled('no kernel handler is made')
    for nm, live, line in got:
        free = nm == 'KernelHandlerMatrixFree'
        for v, l in zip((True, False), live):
            if l and v != free:
                rep.finding('C06/%s' % label, '%s makes %s when mfreeq is %s' % (label, nm, v), ['%s:%d' % (fn.module.relpath, line)])
                return
    rep.ok('%s chooses the handler by mfreeq' % label)


def c06(rep, project, tier):
    w = World(project)
    n = 2 if tier == 'quick' else 8
    for which, mod, hmod in (('Python', PY, HPY), ('compiled', CY, HCY)):
        signs = {1, -1}
        for meth in ('set_energy', 'set_matrix_element', 'set_matrix_element_pauli'):
            safe(rep, '%s %s' % (which, meth), element, rep, w, hmod, which, meth, n, signs)
        safe(rep, '%s norm' % which, normrow, rep, w, mod, hmod, which, n)
        safe(rep, '%s generate_vec' % which, genvec, rep, w, mod, which)
        for cls in ('Approach', 'ApproachElPh'):
            safe(rep, '%s %s handler' % (which, cls), chosen, rep, w, mod, cls)
    for label, mod, cls in impls(project):
        safe(rep, label, through_handler, rep, w, label, mod, cls)
    rep.assume('a root finder calls generate_vec with vectors of the length of phi0 and may keep what is returned')
