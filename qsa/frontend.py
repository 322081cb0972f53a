"""Front end: one syntax tree (CPython ``ast``) for .py and for .pyx/.pxd.

.py files go through ``ast.parse``.  .pyx/.pxd files go through the parser of
the Cython compiler that builds the project and the resulting tree is
transliterated, node by node, into ``ast`` nodes, so that every analysis in
this package sees a single language.  C-level facts that have no ast
counterpart are kept next to it:

* ``fn.ctypes``   declared C type of every argument / local variable,
* ``fn.nogil``    the function can run without the GIL,
* ``fn.directives`` compiler directives (boundscheck ...),
* casts      ``<T>x``      become calls ``__cast__('T', x)``,
* address-of ``&x``        become calls ``__addr__(x)``,
* ``sizeof`` become calls ``__sizeof__('T')``.
"""
import ast
import os
import re
from io import StringIO


class FrontendError(Exception):
    pass


class FuncInfo(object):
    def __init__(self, name, qualname, node, module, cls=None):
        self.name = name
        self.qualname = qualname
        self.node = node            # ast.FunctionDef
        self.module = module        # Module
        self.cls = cls              # ClassInfo or None
        self.ctypes = {}
        self.rettype = None
        self.nogil = False
        self.is_c = False           # cdef / cpdef
        self.inherited_const = None

    @property
    def args(self):
        return [a.arg for a in self.node.args.args]

    @property
    def path(self):
        return self.module.relpath

    def where(self, node=None):
        ln = getattr(node if node is not None else self.node, 'lineno', 0)
        return '%s:%s (%s)' % (self.module.relpath, ln, self.qualname)

    def __repr__(self):
        return '<Func %s:%s>' % (self.module.relpath, self.qualname)


class ClassInfo(object):
    def __init__(self, name, module):
        self.name = name
        self.module = module
        self.bases = []             # list of ast expressions
        self.methods = {}
        self.properties = {}        # name -> {'get':FuncInfo,'set':FuncInfo}
        self.consts = {}            # class level assignments name -> ast expr
        self.cattrs = {}            # cdef attributes name -> ctype
        self.csigs = {}             # cdef method declarations from .pxd
        self.is_cdef = False
        self.node = None

    def __repr__(self):
        return '<Class %s:%s>' % (self.module.relpath, self.name)


class Module(object):
    def __init__(self, name, relpath, tree, src):
        self.name = name            # dotted
        self.relpath = relpath
        self.tree = tree
        self.src = src
        self.functions = {}
        self.classes = {}
        self.imports = {}           # local name -> (module dotted, attr or None)
        self.consts = {}
        self.directives = {}
        self.is_cython = relpath.endswith('.pyx')

    def may_define(self, name):
        """could the module's own code bind this global name?"""
        if not hasattr(self, '_globals'):
            self._globals, star = set(), False
            for n in ast.walk(self.tree):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    self._globals.add(n.name)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for x in n.names:
                        star |= x.name == '*'
                        self._globals.add((x.asname or x.name).split('.')[0])
                elif isinstance(n, ast.Global):
                    self._globals |= set(n.names)
            todo = list(self.tree.body)
            while todo:
                n = todo.pop()
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    continue
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    self._globals.add(n.id)
                todo += list(ast.iter_child_nodes(n))
            self._star = star
        return self._star or name in self._globals or name.startswith('__')

    def __repr__(self):
        return '<Module %s>' % self.name


# --------------------------------------------------------------------------
# Cython tree -> ast
# --------------------------------------------------------------------------

_CY = {}


def _load_cython():
    if _CY:
        return _CY
    try:
        from Cython.Compiler.TreeFragment import StringParseContext
        from Cython.Compiler.Scanning import PyrexScanner, StringSourceDescriptor
        from Cython.Compiler import Parsing, Errors
    except ImportError as exc:
        raise FrontendError('the Cython compiler is not importable: %s' % exc)
    _CY.update(ctx=StringParseContext, scanner=PyrexScanner,
               desc=StringSourceDescriptor, parsing=Parsing, errors=Errors)
    return _CY


def _parse_cython(path, src, is_pxd):
    cy = _load_cython()
    if hasattr(cy['errors'], 'init_thread'):
        cy['errors'].init_thread()
    desc = cy['desc'](path, src)
    ctx = cy['ctx']('m')
    scope = ctx.find_module('m', pos=(desc, 1, 0), need_pxd=False)
    scn = cy['scanner'](StringIO(src), desc, source_encoding='UTF-8',
                        scope=scope, context=ctx, initial_pos=(desc, 1, 0))
    try:
        return cy['parsing'].p_module(scn, is_pxd, 'm')
    except Exception as exc:
        raise FrontendError('cannot parse %s: %s' % (path, exc))


_BINOP = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div,
          '//': ast.FloorDiv, '%': ast.Mod, '**': ast.Pow, '|': ast.BitOr,
          '&': ast.BitAnd, '^': ast.BitXor, '<<': ast.LShift, '>>': ast.RShift,
          '@': ast.MatMult}
_CMP = {'<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE, '==': ast.Eq,
        '!=': ast.NotEq, 'is': ast.Is, 'is_not': ast.IsNot, 'is not': ast.IsNot,
        'in': ast.In, 'not_in': ast.NotIn, 'not in': ast.NotIn}


class _Conv(object):
    def __init__(self, relpath):
        self.relpath = relpath
        self.fstack = []            # stack of dicts collecting ctypes
        self.nogil_depth = 0

    # -- helpers
    def loc(self, new, old):
        pos = getattr(old, 'pos', None)
        ln = pos[1] if pos else 0
        co = pos[2] if pos else 0
        new.lineno = ln
        new.col_offset = co
        new.end_lineno = ln
        new.end_col_offset = co
        return new

    def name(self, s, old, ctx=None):
        return self.loc(ast.Name(id=s, ctx=ctx or ast.Load()), old)

    def const(self, v, old):
        return self.loc(ast.Constant(value=v), old)

    def call(self, fname, args, old):
        return self.loc(ast.Call(func=self.name(fname, old), args=args, keywords=[]), old)

    # -- types
    def typ(self, base, declarator=None):
        t = type(base).__name__
        if t == 'CSimpleBaseTypeNode':
            s = '.'.join(list(base.module_path or []) + [base.name]) if base.name else 'object'
        elif t == 'MemoryViewSliceTypeNode':
            s = self.typ(base.base_type_node) + '[' + ','.join(':' for _ in base.axes) + ']'
        elif t == 'TemplatedTypeNode':
            nd = len(base.positional_args or [])
            kw = base.keyword_args
            dims = 1
            if kw is not None:
                for it in kw.key_value_pairs:
                    if getattr(it.key, 'value', None) == 'ndim':
                        try:
                            dims = int(it.value.value)
                        except Exception:
                            dims = 1
            pa = base.positional_args or []
            el = self.typ(pa[0]) if pa and hasattr(pa[0], 'pos') and 'Type' in type(pa[0]).__name__ else \
                getattr(pa[0], 'name', '?') if pa else '?'
            s = '%s[%s]' % (el, ','.join(':' for _ in range(dims)))
        elif t == 'CConstTypeNode' or t == 'CConstOrVolatileTypeNode':
            s = self.typ(base.base_type)
        else:
            s = t
        d = declarator
        while d is not None and type(d).__name__ == 'CPtrDeclaratorNode':
            s += '*'
            d = d.base
        return s

    def declname(self, d):
        while True:
            if hasattr(d, 'name') and type(d).__name__ == 'CNameDeclaratorNode':
                return d.name
            d = d.base

    # -- expressions
    def e(self, n, ctx=None):
        if n is None:
            return None
        k = type(n).__name__
        m = getattr(self, 'e_' + k, None)
        if m is None:
            return self.call('__unsupported__', [self.const(k, n)], n)
        r = m(n)
        if ctx is not None and hasattr(r, 'ctx'):
            self.setctx(r, ctx)
        return r

    def setctx(self, r, ctx):
        r.ctx = ctx
        if isinstance(r, (ast.Tuple, ast.List)):
            for x in r.elts:
                if hasattr(x, 'ctx'):
                    self.setctx(x, ctx)

    def e_NameNode(self, n):
        return self.name(n.name, n)

    def e_AttributeNode(self, n):
        return self.loc(ast.Attribute(value=self.e(n.obj), attr=n.attribute, ctx=ast.Load()), n)

    def e_NoneNode(self, n):
        return self.const(None, n)

    def e_BoolNode(self, n):
        return self.const(bool(n.value), n)

    def e_EllipsisNode(self, n):
        return self.const(Ellipsis, n)

    def e_IntNode(self, n):
        v = str(n.value)
        try:
            return self.const(int(v, 0), n)
        except ValueError:
            return self.const(int(v), n)

    def e_FloatNode(self, n):
        c = self.const(float(n.value), n)
        c.srctext = str(n.value)
        return c

    def e_ImagNode(self, n):
        return self.const(complex(0, float(n.value)), n)

    def e_StringNode(self, n):
        v = n.value
        return self.const(str(v), n)
    e_UnicodeNode = e_IdentifierStringNode = e_StringNode

    def e_BytesNode(self, n):
        return self.const(str(n.value), n)

    def e_TupleNode(self, n):
        return self.loc(ast.Tuple(elts=[self.e(x) for x in n.args], ctx=ast.Load()), n)

    def e_ListNode(self, n):
        return self.loc(ast.List(elts=[self.e(x) for x in n.args], ctx=ast.Load()), n)

    def e_DictNode(self, n):
        return self.loc(ast.Dict(keys=[self.e(i.key) for i in n.key_value_pairs],
                                 values=[self.e(i.value) for i in n.key_value_pairs]), n)

    def e_IndexNode(self, n):
        return self.loc(ast.Subscript(value=self.e(n.base), slice=self.e(n.index), ctx=ast.Load()), n)

    def e_SliceNode(self, n):
        def opt(x):
            return None if x is None or type(x).__name__ == 'NoneNode' else self.e(x)
        return self.loc(ast.Slice(lower=opt(n.start), upper=opt(n.stop), step=opt(n.step)), n)

    def e_SliceIndexNode(self, n):
        def opt(x):
            return None if x is None or type(x).__name__ == 'NoneNode' else self.e(x)
        sl = self.loc(ast.Slice(lower=opt(n.start), upper=opt(n.stop), step=None), n)
        return self.loc(ast.Subscript(value=self.e(n.base), slice=sl, ctx=ast.Load()), n)

    def e_SimpleCallNode(self, n):
        return self.loc(ast.Call(func=self.e(n.function), args=[self.e(a) for a in n.args], keywords=[]), n)

    def e_GeneralCallNode(self, n):
        pos = n.positional_args
        args = []
        if type(pos).__name__ == 'TupleNode':
            args = [self.e(a) for a in pos.args]
        else:
            args = [self.loc(ast.Starred(value=self.e(pos), ctx=ast.Load()), n)]
        kws = []
        if n.keyword_args is not None:
            if type(n.keyword_args).__name__ == 'DictNode':
                for it in n.keyword_args.key_value_pairs:
                    kws.append(ast.keyword(arg=str(it.key.value), value=self.e(it.value)))
            else:
                kws.append(ast.keyword(arg=None, value=self.e(n.keyword_args)))
        return self.loc(ast.Call(func=self.e(n.function), args=args, keywords=kws), n)

    def e_AsTupleNode(self, n):
        return self.e(n.arg)

    def _bin(self, n):
        op = _BINOP.get(n.operator)
        if op is None:
            return self.call('__unsupported__', [self.const('binop ' + str(n.operator), n)], n)
        return self.loc(ast.BinOp(left=self.e(n.operand1), op=op(), right=self.e(n.operand2)), n)
    e_AddNode = e_SubNode = e_MulNode = e_DivNode = e_PowNode = e_ModNode = _bin
    e_IntBinopNode = e_MatMultNode = e_NumBinopNode = _bin

    def e_UnaryMinusNode(self, n):
        return self.loc(ast.UnaryOp(op=ast.USub(), operand=self.e(n.operand)), n)

    def e_UnaryPlusNode(self, n):
        return self.loc(ast.UnaryOp(op=ast.UAdd(), operand=self.e(n.operand)), n)

    def e_TildeNode(self, n):
        return self.loc(ast.UnaryOp(op=ast.Invert(), operand=self.e(n.operand)), n)

    def e_NotNode(self, n):
        return self.loc(ast.UnaryOp(op=ast.Not(), operand=self.e(n.operand)), n)

    def e_AmpersandNode(self, n):
        return self.call('__addr__', [self.e(n.operand)], n)

    def e_TypecastNode(self, n):
        t = self.typ(n.base_type, n.declarator) if n.base_type is not None else '?'
        return self.call('__cast__', [self.const(t, n), self.e(n.operand)], n)

    def e_SizeofTypeNode(self, n):
        return self.call('__sizeof__', [self.const(self.typ(n.base_type, n.declarator), n)], n)

    def e_SizeofVarNode(self, n):
        return self.call('__sizeof__', [self.e(n.operand)], n)

    def e_PrimaryCmpNode(self, n):
        left = self.e(n.operand1)
        ops, comps = [], []
        c = n
        while c is not None:
            op = _CMP.get(str(c.operator))
            if op is None:
                return self.call('__unsupported__', [self.const('cmp', n)], n)
            ops.append(op())
            comps.append(self.e(c.operand2))
            c = c.cascade
        return self.loc(ast.Compare(left=left, ops=ops, comparators=comps), n)

    def e_BoolBinopNode(self, n):
        op = ast.And() if n.operator == 'and' else ast.Or()
        return self.loc(ast.BoolOp(op=op, values=[self.e(n.operand1), self.e(n.operand2)]), n)

    def e_CondExprNode(self, n):
        return self.loc(ast.IfExp(test=self.e(n.test), body=self.e(n.true_val), orelse=self.e(n.false_val)), n)

    def e_LambdaNode(self, n):
        return self.call('__unsupported__', [self.const('lambda', n)], n)

    # -- statements
    def block(self, n):
        if n is None:
            return []
        out = []
        k = type(n).__name__
        if k == 'StatListNode':
            for s in n.stats:
                out.extend(self.block(s))
            return out
        m = getattr(self, 's_' + k, None)
        if m is None:
            return [self.loc(ast.Expr(value=self.call('__unsupported__', [self.const(k, n)], n)), n)]
        r = m(n)
        if r is None:
            return []
        return r if isinstance(r, list) else [r]

    def body(self, n):
        b = self.block(n)
        return b

    def s_PassStatNode(self, n):
        return self.loc(ast.Pass(), n)

    def s_ContinueStatNode(self, n):
        return self.loc(ast.Continue(), n)

    def s_BreakStatNode(self, n):
        return self.loc(ast.Break(), n)

    def s_ReturnStatNode(self, n):
        return self.loc(ast.Return(value=self.e(n.value) if n.value is not None else None), n)

    def s_RaiseStatNode(self, n):
        return self.loc(ast.Raise(exc=self.e(n.exc_type) if n.exc_type is not None else None, cause=None), n)

    def s_ExprStatNode(self, n):
        return self.loc(ast.Expr(value=self.e(n.expr)), n)

    def s_PrintStatNode(self, n):
        args = self.e(n.arg_tuple)
        return self.loc(ast.Expr(value=self.call('print', args.elts if isinstance(args, ast.Tuple) else [args], n)), n)

    def s_SingleAssignmentNode(self, n):
        rk = type(n.rhs).__name__
        if rk == 'ImportNode':                       # import x as y
            modname = str(n.rhs.module_name.value)
            as_name = n.lhs.name
            return self.loc(ast.Import(names=[ast.alias(name=modname,
                                       asname=as_name if as_name != modname.split('.')[0] else None)]), n)
        if rk == 'PyClassNode':
            return None
        return self.loc(ast.Assign(targets=[self.e(n.lhs, ast.Store())], value=self.e(n.rhs)), n)

    def s_CascadedAssignmentNode(self, n):
        return self.loc(ast.Assign(targets=[self.e(x, ast.Store()) for x in n.lhs_list], value=self.e(n.rhs)), n)

    def s_ParallelAssignmentNode(self, n):
        out = []
        for s in n.stats:
            out.extend(self.block(s))
        return out

    def s_InPlaceAssignmentNode(self, n):
        op = _BINOP.get(n.operator)
        return self.loc(ast.AugAssign(target=self.e(n.lhs, ast.Store()), op=op(), value=self.e(n.rhs)), n)

    def s_IfStatNode(self, n):
        orelse = self.block(n.else_clause)
        for cl in reversed(n.if_clauses):
            node = self.loc(ast.If(test=self.e(cl.condition), body=self.body(cl.body), orelse=orelse), cl)
            orelse = [node]
        return orelse

    def s_ForInStatNode(self, n):
        it = n.iterator.sequence if hasattr(n.iterator, 'sequence') else n.iterator
        return self.loc(ast.For(target=self.e(n.target, ast.Store()), iter=self.e(it),
                                body=self.body(n.body), orelse=self.block(n.else_clause)), n)

    def s_WhileStatNode(self, n):
        return self.loc(ast.While(test=self.e(n.condition), body=self.body(n.body),
                                  orelse=self.block(n.else_clause)), n)

    def s_GILStatNode(self, n):
        item = ast.withitem(context_expr=self.name('nogil' if n.state == 'nogil' else 'gil', n), optional_vars=None)
        return self.loc(ast.With(items=[item], body=self.body(n.body)), n)

    def s_WithStatNode(self, n):
        item = ast.withitem(context_expr=self.e(n.manager),
                            optional_vars=self.e(n.target, ast.Store()) if n.target is not None else None)
        return self.loc(ast.With(items=[item], body=self.body(n.body)), n)

    def s_TryExceptStatNode(self, n):
        hs = []
        for c in n.except_clauses:
            pat = c.pattern
            pat = pat[0] if isinstance(pat, list) and pat else pat
            hs.append(ast.ExceptHandler(type=self.e(pat) if pat is not None else None,
                                        name=None, body=self.body(c.body)))
        return self.loc(ast.Try(body=self.body(n.body), handlers=hs, orelse=self.block(n.else_clause), finalbody=[]), n)

    def s_TryFinallyStatNode(self, n):
        return self.loc(ast.Try(body=self.body(n.body), handlers=[], orelse=[],
                                finalbody=self.block(n.finally_clause)), n)

    def s_AssertStatNode(self, n):
        return self.loc(ast.Pass(), n)

    def s_DelStatNode(self, n):
        return self.loc(ast.Pass(), n)

    def s_CTypeDefNode(self, n):
        return None

    def s_GlobalNode(self, n):
        return None

    def s_CVarDefNode(self, n):
        out = []
        for d in n.declarators:
            nm = self.declname(d)
            base_d = d
            ty = self.typ(n.base_type, base_d)
            if type(d).__name__ == 'CFuncDeclaratorNode':
                if self.fstack:
                    self.fstack[-1].setdefault('__sigs__', {})[nm] = (d, n)
                continue
            if type(d).__name__ == 'CPtrDeclaratorNode':
                dd = d
                while type(dd).__name__ == 'CPtrDeclaratorNode':
                    dd = dd.base
                if type(dd).__name__ == 'CFuncDeclaratorNode':
                    continue
            if self.fstack:
                self.fstack[-1][nm] = ty
            default = getattr(d, 'default', None)
            if default is None:
                dd = d
                while hasattr(dd, 'base') and type(dd).__name__ == 'CPtrDeclaratorNode':
                    dd = dd.base
                default = getattr(dd, 'default', None)
            if default is not None:
                out.append(self.loc(ast.Assign(targets=[self.name(nm, n, ast.Store())], value=self.e(default)), n))
        return out

    def s_CImportStatNode(self, n):
        nm = str(n.module_name)
        return self.loc(ast.Import(names=[ast.alias(name=nm, asname=str(n.as_name) if n.as_name else None)]), n)

    def s_FromCImportStatNode(self, n):
        names = []
        for it in n.imported_names:
            nm = it[1]
            asn = it[2]
            names.append(ast.alias(name=str(nm), asname=str(asn) if asn else None))
        lvl = getattr(n, 'relative_level', None) or 0
        mod = str(n.module_name)
        if lvl in (None, -1):
            lvl = 0
        return self.loc(ast.ImportFrom(module=mod, names=names, level=lvl), n)

    def s_FromImportStatNode(self, n):
        names = []
        for name, target in n.items:
            names.append(ast.alias(name=str(name), asname=str(target.name) if target.name != name else None))
        mod = str(n.module.module_name.value)
        lvl = n.module.level
        if lvl in (None, -1):
            lvl = 0
        if lvl == 0 and mod.startswith('.'):
            s = mod.lstrip('.')
            lvl = len(mod) - len(s)
            mod = s
        return self.loc(ast.ImportFrom(module=mod, names=names, level=lvl), n)

    def _args(self, args):
        a = ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[], kw_defaults=[],
                          kwarg=None, defaults=[])
        types = {}
        for x in args:
            nm = self.declname(x.declarator)
            if not nm:          # untyped python arg: name held in base_type
                nm = getattr(x.base_type, 'name', None) or '_'
                ty = None
            else:
                ty = self.typ(x.base_type, x.declarator)
            arg = self.loc(ast.arg(arg=nm, annotation=None), x)
            a.args.append(arg)
            if ty is not None:
                types[nm] = ty
            if x.default is not None:
                a.defaults.append(self.e(x.default))
        return a, types

    def s_DefNode(self, n):
        a, types = self._args(n.args)
        if n.star_arg is not None:
            a.vararg = ast.arg(arg=n.star_arg.name, annotation=None)
        if n.starstar_arg is not None:
            a.kwarg = ast.arg(arg=n.starstar_arg.name, annotation=None)
        self.fstack.append(dict(types))
        body = self.body(n.body)
        ct = self.fstack.pop()
        decos = []
        for d in (n.decorators or []):
            decos.append(self.e(d.decorator))
        f = self.loc(ast.FunctionDef(name=n.name, args=a, body=body or [ast.Pass()], decorator_list=decos,
                                     returns=None), n)
        f.c_types = ct
        f.c_nogil = False
        f.c_kind = 'def'
        f.c_ret = None
        return f

    def s_CFuncDefNode(self, n):
        d = n.declarator
        while type(d).__name__ != 'CFuncDeclaratorNode':
            d = d.base
        a, types = self._args(d.args)
        self.fstack.append(dict(types))
        body = self.body(n.body)
        ct = self.fstack.pop()
        decos = [self.e(x.decorator) for x in (n.decorators or [])]
        f = self.loc(ast.FunctionDef(name=self.declname(d), args=a, body=body or [ast.Pass()],
                                     decorator_list=decos, returns=None), n)
        f.c_types = ct
        f.c_nogil = bool(getattr(d, 'nogil', 0)) or bool(getattr(d, 'with_gil', 0)) and False
        f.c_kind = 'cpdef' if n.overridable else 'cdef'
        ptr = ''
        dd = n.declarator
        while type(dd).__name__ == 'CPtrDeclaratorNode':
            ptr += '*'
            dd = dd.base
        f.c_ret = self.typ(n.base_type) + ptr
        return f

    def s_CClassDefNode(self, n):
        self.fstack.append({})
        body = self.body(n.body) if n.body is not None else []
        ct = self.fstack.pop()
        bases = []
        b = getattr(n, 'bases', None)
        if b is not None and hasattr(b, 'args'):
            bases = [self.e(x) for x in b.args]
        elif getattr(n, 'base_class_name', None):
            nm = n.base_class_name
            bases = [self.name(str(nm), n)]
        c = self.loc(ast.ClassDef(name=n.class_name, bases=bases, keywords=[], body=body or [ast.Pass()],
                                  decorator_list=[]), n)
        c.c_attrs = {k: v for k, v in ct.items() if k != '__sigs__'}
        c.c_sigs = ct.get('__sigs__', {})
        c.c_cdef = True
        return c

    def s_PyClassDefNode(self, n):
        self.fstack.append({})
        body = self.body(n.body)
        self.fstack.pop()
        bases = []
        b = getattr(n, 'bases', None)
        if b is not None and hasattr(b, 'args'):
            bases = [self.e(x) for x in b.args]
        return self.loc(ast.ClassDef(name=n.name, bases=bases, keywords=[], body=body or [ast.Pass()],
                                     decorator_list=[]), n)

    def s_CDefExternNode(self, n):
        return self.block(n.body)

    def s_PropertyNode(self, n):
        return None


# --------------------------------------------------------------------------
# Project
# --------------------------------------------------------------------------

def _docless(body):
    return body


class Project(object):
    def __init__(self, root):
        self.root = os.path.abspath(root)
        self.modules = {}           # dotted -> Module ; pyx take dotted name of file
        self.pxd = {}               # dotted -> {'classes': {name: ClassDef}, 'funcs': {...}}
        self.files = []
        self._load()

    # ---- loading
    def _load(self):
        pkg = os.path.join(self.root, 'qmeq')
        if not os.path.isdir(pkg):
            raise FrontendError('no qmeq package below %s' % self.root)
        for d, dirs, files in os.walk(pkg):
            dirs[:] = sorted(x for x in dirs if x not in ('tests', '__pycache__'))
            for f in sorted(files):
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.root)
                if f.endswith('.py'):
                    self._load_py(p, rel)
                elif f.endswith('.pyx'):
                    self._load_pyx(p, rel)
                elif f.endswith('.pxd'):
                    self._load_pxd(p, rel)
        for m in self.modules.values():
            self._link_pxd(m)

    @staticmethod
    def _dotted(rel):
        d = rel[:rel.rindex('.')].replace(os.sep, '.')
        if d.endswith('.__init__'):
            d = d[:-9]
        return d

    def _load_py(self, p, rel):
        with open(p, encoding='utf-8') as fh:
            src = fh.read()
        self.files.append(rel)
        try:
            tree = ast.parse(src, filename=rel)
        except SyntaxError as exc:
            raise FrontendError('cannot parse %s: %s' % (rel, exc))
        m = Module(self._dotted(rel), rel, tree, src)
        m.is_pkg = rel.endswith('__init__.py')
        self._index(m)
        self.modules[m.name] = m

    def _load_pyx(self, p, rel):
        with open(p, encoding='utf-8') as fh:
            src = fh.read()
        self.files.append(rel)
        cyt = _parse_cython(rel, src, False)
        conv = _Conv(rel)
        conv.fstack.append({})
        body = conv.block(cyt.body)
        tree = ast.Module(body=body, type_ignores=[])
        m = Module(self._dotted(rel), rel, tree, src)
        m.is_pkg = False
        for line in src.splitlines():
            mm = re.match(r'#\s*cython\s*:\s*([a-z_]+)\s*=\s*(\w+)', line)
            if mm:
                m.directives[mm.group(1)] = mm.group(2)
            elif line.strip() and not line.startswith('#'):
                break
        m.ctypes = conv.fstack.pop()
        self._index(m)
        self.modules[m.name] = m

    def _load_pxd(self, p, rel):
        with open(p, encoding='utf-8') as fh:
            src = fh.read()
        self.files.append(rel)
        cyt = _parse_cython(rel, src, True)
        conv = _Conv(rel)
        conv.fstack.append({})
        body = conv.block(cyt.body)
        sigs = conv.fstack.pop()
        info = {'classes': {}, 'sigs': {}, 'imports': {}, 'relpath': rel}
        for s in body:
            if isinstance(s, ast.ClassDef):
                info['classes'][s.name] = s
            elif isinstance(s, (ast.ImportFrom, ast.Import)):
                info.setdefault('importnodes', []).append(s)
        info['sigs'] = sigs.get('__sigs__', {})
        info['conv'] = conv
        self.pxd[self._dotted(rel)] = info

    def _resolve_rel(self, m, mod, level):
        if not level:
            return mod
        parts = m.name.split('.')
        if not getattr(m, 'is_pkg', False):
            parts = parts[:-1]
        if level > 1:
            parts = parts[:-(level - 1)]
        return '.'.join(parts + ([mod] if mod else []))

    def _add_import(self, m, s):
        if isinstance(s, ast.Import):
            for a in s.names:
                if a.asname:
                    m.imports[a.asname] = (a.name, None)
                else:
                    m.imports[a.name.split('.')[0]] = (a.name.split('.')[0], None)
        else:
            mod = self._resolve_rel(m, s.module or '', s.level)
            for a in s.names:
                m.imports[a.asname or a.name] = (mod, a.name)

    def _index(self, m):
        for s in m.tree.body:
            self._index_stmt(m, s)

    def _index_stmt(self, m, s):
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            self._add_import(m, s)
        elif isinstance(s, ast.FunctionDef):
            m.functions[s.name] = self._fn(s, m, None)
        elif isinstance(s, ast.ClassDef):
            m.classes[s.name] = self._cls(s, m)
        elif isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) for t in s.targets):
            for t in s.targets:
                m.consts[t.id] = s.value
        elif isinstance(s, (ast.If, ast.Try)):
            for x in ast.iter_child_nodes(s):
                if isinstance(x, ast.stmt):
                    self._index_stmt(m, x)

    def _fn(self, s, m, cls):
        q = (cls.name + '.' if cls else '') + s.name
        f = FuncInfo(s.name, q, s, m, cls)
        f.ctypes = dict(getattr(s, 'c_types', {}) or {})
        f.nogil = bool(getattr(s, 'c_nogil', False))
        f.is_c = getattr(s, 'c_kind', 'def') != 'def' and hasattr(s, 'c_kind')
        f.rettype = getattr(s, 'c_ret', None)
        return f

    def _cls(self, s, m):
        c = ClassInfo(s.name, m)
        c.node = s
        c.bases = list(s.bases)
        c.is_cdef = bool(getattr(s, 'c_cdef', False))
        c.cattrs = dict(getattr(s, 'c_attrs', {}) or {})
        c.csigs = dict(getattr(s, 'c_sigs', {}) or {})
        for x in s.body:
            if isinstance(x, ast.FunctionDef):
                deco = None
                for d in x.decorator_list:
                    if isinstance(d, ast.Name) and d.id == 'property':
                        deco = ('get', x.name)
                    elif isinstance(d, ast.Attribute) and d.attr in ('setter', 'deleter') and isinstance(d.value, ast.Name):
                        deco = ('set' if d.attr == 'setter' else 'del', d.value.id)
                f = self._fn(x, m, c)
                if deco:
                    f.qualname = '%s.%s.%s' % (c.name, deco[1], deco[0])
                    c.properties.setdefault(deco[1], {})[deco[0]] = f
                else:
                    c.methods[x.name] = f
            elif isinstance(x, ast.Assign) and all(isinstance(t, ast.Name) for t in x.targets):
                for t in x.targets:
                    c.consts[t.id] = x.value
        return c

    def _link_pxd(self, m):
        if not m.is_cython:
            return
        info = self.pxd.get(m.name)
        if not info:
            return
        for s in info.get('importnodes', []):
            keep = dict(m.imports)
            self._add_import(m, s)
            m.imports.update(keep)
        for name, node in info['classes'].items():
            c = m.classes.get(name)
            if c is None:
                c = ClassInfo(name, m)
                c.node = node
                m.classes[name] = c
                c.decl_only = True
            c.is_cdef = True
            c.cattrs.update(getattr(node, 'c_attrs', {}))
            c.csigs.update(getattr(node, 'c_sigs', {}))
            if not c.bases:
                c.bases = list(node.bases)
            for mn, f in c.methods.items():
                if mn in c.csigs:
                    d, n = c.csigs[mn]
                    dd = d
                    while type(dd).__name__ != 'CFuncDeclaratorNode':
                        dd = dd.base
                    if getattr(dd, 'nogil', 0):
                        f.nogil = True
        for fn, (d, n) in info['sigs'].items():
            if fn in m.functions:
                dd = d
                while type(dd).__name__ != 'CFuncDeclaratorNode':
                    dd = dd.base
                if getattr(dd, 'nogil', 0):
                    m.functions[fn].nogil = True

    # ---- lookup
    def module(self, name):
        return self.modules.get(name)

    def resolve(self, m, name, depth=0):
        """Resolve a module level name to ('class'|'func'|'module'|'const', obj)."""
        if depth > 8 or m is None:
            return None
        if name in m.classes:
            return ('class', m.classes[name])
        if name in m.functions:
            return ('func', m.functions[name])
        if name in m.imports:
            mod, attr = m.imports[name]
            if attr is None:
                mm = self.modules.get(mod)
                return ('module', mm if mm is not None else mod)
            mm = self.modules.get(mod)
            if mm is not None:
                r = self.resolve(mm, attr, depth + 1)
                if r is not None:
                    return r
                sub = self.modules.get(mod + '.' + attr)
                if sub is not None:
                    return ('module', sub)
                return None
            sub = self.modules.get(mod + '.' + attr)
            if sub is not None:
                return ('module', sub)
            return ('ext', mod + '.' + attr)
        if name in m.consts:
            return ('const', (m, m.consts[name]))
        return None

    def mro(self, c):
        out, seen = [], set()

        def rec(x):
            if x is None or id(x) in seen:
                return
            seen.add(id(x))
            out.append(x)
            for b in x.bases:
                nm = b.id if isinstance(b, ast.Name) else (b.attr if isinstance(b, ast.Attribute) else None)
                if nm is None:
                    continue
                r = self.resolve(x.module, nm)
                if r and r[0] == 'class' and r[1] is not x:
                    rec(r[1])
        rec(c)
        return out

    def lookup(self, c, meth):
        for k in self.mro(c):
            if meth in k.methods:
                return k.methods[meth]
        return None

    def lookup_prop(self, c, name):
        for k in self.mro(c):
            if name in k.properties:
                return k.properties[name]
        return None

    def lookup_const(self, c, name):
        for k in self.mro(c):
            if name in k.consts:
                return k.consts[name]
        return None

    def cattr_type(self, c, name):
        for k in self.mro(c):
            if name in k.cattrs:
                return k.cattrs[name]
        return None

    def find_class(self, modname, cls):
        m = self.modules.get(modname)
        if m is None:
            raise AnchorMissing('module %s not found' % modname)
        if cls not in m.classes:
            r = self.resolve(m, cls)
            if r and r[0] == 'class':
                return r[1]
            raise AnchorMissing('class %s not found in %s' % (cls, m.relpath))
        return m.classes[cls]

    def find_func(self, modname, fn):
        m = self.modules.get(modname)
        if m is None:
            raise AnchorMissing('module %s not found' % modname)
        if '.' in fn:
            c, f = fn.split('.', 1)
            k = self.find_class(modname, c)
            r = self.lookup(k, f)
            if r is None:
                raise AnchorMissing('method %s not found in %s' % (fn, m.relpath))
            return r
        if fn not in m.functions:
            r = self.resolve(m, fn)
            if r and r[0] == 'func':
                return r[1]
            raise AnchorMissing('function %s not found in %s' % (fn, m.relpath))
        return m.functions[fn]

    def all_functions(self):
        for m in self.modules.values():
            for f in m.functions.values():
                yield f
            for c in m.classes.values():
                for f in c.methods.values():
                    yield f
                for p in c.properties.values():
                    for f in p.values():
                        yield f


class AnchorMissing(Exception):
    """An anchor the rule needs is gone: the check must fail, not pass."""
