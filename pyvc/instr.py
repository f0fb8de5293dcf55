"""Mechanical instrumentation of the real source.

A meta-path finder loads every module whose name starts with one of PREFIXES
from its ordinary file, rewrites the AST so that calls, subscripts, attribute
stores, loops and comprehensions go through ``pyvc.rt``, and executes the
result.  Nothing is dropped: with no symbolic value around, every hook falls
straight through to the native operation.
"""
import ast
import importlib.machinery
import importlib.util
import sys

PREFIXES = ('mmrazor', 'contracts')
RT = '_vc_rt_'
NATIVE_CALLS = {'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec'}


def _name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def _rt(attr):
    return ast.Attribute(value=_name(RT), attr=attr, ctx=ast.Load())


def _rtcall(attr, *args):
    return ast.Call(func=_rt(attr), args=list(args), keywords=[])


class _Assigned(ast.NodeVisitor):
    """Names assigned inside a statement list (not in nested scopes)."""

    def __init__(self):
        self.names = []
        self.has_scope_trick = False

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self.add(node.id)

    def visit_FunctionDef(self, node):
        self.add(node.name)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self.add(node.name)

    def visit_Lambda(self, node):
        pass

    def _comp(self, node):
        # comprehension targets are local to the comprehension, but walrus
        # targets are not
        for n in ast.walk(node):
            if isinstance(n, ast.NamedExpr):
                self.add(n.target.id)

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_ExceptHandler(self, node):
        if node.name:
            self.add(node.name)
        self.generic_visit(node)

    def visit_Import(self, node):
        for a in node.names:
            self.add((a.asname or a.name).split('.')[0])

    visit_ImportFrom = visit_Import


def assigned(stmts):
    v = _Assigned()
    for s in stmts:
        v.visit(s)
    return v.names


class Transformer(ast.NodeTransformer):

    def __init__(self, modname):
        self.modname = modname
        self.scope = []        # qualname parts
        self.funcs = []        # per function: dict(globals=set, loops=int)
        self.tmp = 0

    # ---- helpers
    def in_func(self):
        return bool(self.funcs)

    def fresh(self, base):
        self.tmp += 1
        return f'_vc_{base}{self.tmp}'

    def qual(self):
        return self.modname + ':' + '.'.join(self.scope)

    def loc(self, new, old):
        return ast.copy_location(new, old)

    # ---- scopes
    def visit_ClassDef(self, node):
        self.scope.append(node.name)
        # class bodies run natively; only the functions in them are rewritten
        saved, self.funcs = self.funcs, []
        node.body = [self.visit(s) if isinstance(
            s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.If))
            else s for s in node.body]
        node.body = [x for b in node.body
                     for x in (b if isinstance(b, list) else [b])]
        self.funcs = saved
        self.scope.pop()
        return node

    def visit_FunctionDef(self, node):
        self.scope.append(node.name)
        decl = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Global):
                decl |= set(n.names)
        self.funcs.append(dict(globals=decl, loops=0))
        # decorators, defaults and annotations stay native
        node.body = self._stmts(node.body)
        self.funcs.pop()
        self.scope.pop()
        return node

    def visit_AsyncFunctionDef(self, node):
        return node

    def visit_Lambda(self, node):
        if not self.in_func():
            return node
        node.body = self.visit(node.body)
        return node

    def _stmts(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out

    def generic_visit(self, node):
        for field, old in ast.iter_fields(node):
            if field in ('annotation', 'returns', 'type_comment'):
                continue
            if isinstance(old, list):
                new = []
                for v in old:
                    if isinstance(v, ast.AST):
                        v = self.visit(v)
                        if v is None:
                            continue
                        if isinstance(v, list):
                            new.extend(v)
                            continue
                    new.append(v)
                old[:] = new
            elif isinstance(old, ast.AST):
                new = self.visit(old)
                if new is None:
                    delattr(node, field)
                else:
                    setattr(node, field, new)
        return node

    # ---- expressions
    def visit_Call(self, node):
        if not self.in_func():
            return self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in NATIVE_CALLS:
            node.args = [self.visit(a) for a in node.args]
            return node
        self.generic_visit(node)
        new = ast.Call(func=_rt('call'), args=[node.func] + node.args,
                       keywords=node.keywords)
        return self.loc(new, node)

    def visit_Subscript(self, node):
        if not self.in_func():
            return node
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return self.loc(
                _rtcall('getitem', node.value, self._index(node.slice)), node)
        return node

    def _index(self, sl):
        if isinstance(sl, ast.Slice):
            none = ast.Constant(value=None)
            return ast.Call(func=_rt('slice'), keywords=[], args=[
                sl.lower or none, sl.upper or none, sl.step or none])
        if isinstance(sl, ast.Tuple):
            if any(isinstance(e, ast.Starred) for e in sl.elts):
                return ast.Tuple(elts=sl.elts, ctx=ast.Load())
            return ast.Tuple(elts=[self._index(e) for e in sl.elts],
                             ctx=ast.Load())
        return sl

    def visit_Compare(self, node):
        if not self.in_func():
            return node
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            new = _rtcall('contains', node.comparators[0], node.left)
            if isinstance(node.ops[0], ast.NotIn):
                new = _rtcall('notcontains', node.comparators[0], node.left)
            return self.loc(new, node)
        return node

    def _comp(self, node, kind):
        if not self.in_func():
            return node
        bad = any(isinstance(n, (ast.Yield, ast.Await, ast.NamedExpr,
                                 ast.YieldFrom)) or
                  (isinstance(n, ast.Name) and n.id in NATIVE_CALLS)
                  for n in ast.walk(node)) or any(
                      g.is_async for g in node.generators)
        self.generic_visit(node)
        if bad:
            return node
        it = node.generators[0].iter
        p = self.fresh('it')
        node.generators[0].iter = _name(p)
        lam = ast.Lambda(
            args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=p)],
                               kwonlyargs=[], kw_defaults=[], defaults=[]),
            body=node)
        return self.loc(_rtcall('comp', ast.Constant(value=kind), it, lam),
                        node)

    def visit_ListComp(self, node):
        return self._comp(node, 'list')

    def visit_SetComp(self, node):
        return self._comp(node, 'set')

    def visit_DictComp(self, node):
        return self._comp(node, 'dict')

    def visit_GeneratorExp(self, node):
        return self._comp(node, 'gen')

    # ---- statements
    def visit_AnnAssign(self, node):
        if not self.in_func():
            return node
        if node.value is None:
            node.target = self.visit(node.target)
            return node
        new = ast.Assign(targets=[node.target], value=node.value)
        return self.visit_Assign(self.loc(new, node))

    def _store(self, target, value):
        """Statements storing expression `value` into `target`."""
        if isinstance(target, ast.Attribute):
            if target.attr.startswith('__') and not target.attr.endswith('__'):
                return [ast.Assign(targets=[target], value=value)]
            return [ast.Expr(_rtcall('setattr', self.visit(target.value),
                                     ast.Constant(value=target.attr), value))]
        if isinstance(target, ast.Subscript):
            return [ast.Expr(_rtcall('setitem', self.visit(target.value),
                                     self._index(self.visit(target.slice)
                                                 if target.slice else None),
                                     value))]
        if isinstance(target, (ast.Tuple, ast.List)):
            simple = all(isinstance(e, (ast.Name, ast.Starred))
                         for e in target.elts)
            if simple:
                return [ast.Assign(targets=[target],
                                   value=_rtcall('unpack', value,
                                                 ast.Constant(value=len(
                                                     target.elts))))]
            names, post = [], []
            for e in target.elts:
                if isinstance(e, ast.Name):
                    names.append(e)
                else:
                    t = self.fresh('t')
                    if isinstance(e, ast.Starred):
                        names.append(ast.Starred(value=_name(t, ast.Store()),
                                                 ctx=ast.Store()))
                        e = e.value
                    else:
                        names.append(_name(t, ast.Store()))
                    post += self._store(e, _name(t))
            first = ast.Assign(
                targets=[ast.Tuple(elts=names, ctx=ast.Store())],
                value=_rtcall('unpack', value,
                              ast.Constant(value=len(names))))
            return [first] + post
        return [ast.Assign(targets=[target], value=value)]

    def _fix(self, stmts, node):
        for s in stmts:
            ast.copy_location(s, node)
            ast.fix_missing_locations(s)
        return stmts

    def visit_Assign(self, node):
        if not self.in_func():
            return self.generic_visit(node)
        value = self.visit(node.value)
        if len(node.targets) == 1:
            return self._fix(self._store(node.targets[0], value), node)
        t = self.fresh('t')
        out = [ast.Assign(targets=[_name(t, ast.Store())], value=value)]
        for tg in node.targets:
            out += self._store(tg, _name(t))
        return self._fix(out, node)

    def visit_AugAssign(self, node):
        if not self.in_func():
            return self.generic_visit(node)
        op = ast.Constant(value=type(node.op).__name__)
        value = self.visit(node.value)
        tg = node.target
        if isinstance(tg, ast.Name):
            new = ast.Assign(targets=[tg], value=_rtcall(
                'aug', op, _name(tg.id), value))
            return self._fix([new], node)
        o = self.fresh('o')
        out = [ast.Assign(targets=[_name(o, ast.Store())],
                          value=self.visit(tg.value))]
        if isinstance(tg, ast.Attribute):
            cur = ast.Attribute(value=_name(o), attr=tg.attr, ctx=ast.Load())
            out.append(ast.Expr(_rtcall(
                'setattr', _name(o), ast.Constant(value=tg.attr),
                _rtcall('aug', op, cur, value))))
        else:
            i = self.fresh('i')
            out.append(ast.Assign(targets=[_name(i, ast.Store())],
                                  value=self._index(self.visit(tg.slice))))
            out.append(ast.Expr(_rtcall(
                'setitem', _name(o), _name(i),
                _rtcall('aug', op, _rtcall('getitem', _name(o), _name(i)),
                        value))))
        return self._fix(out, node)

    def visit_Delete(self, node):
        if not self.in_func():
            return node
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(_rtcall('delitem', self.visit(t.value),
                                            self._index(self.visit(t.slice)))))
            elif isinstance(t, ast.Attribute):
                out.append(ast.Expr(_rtcall('delattr', self.visit(t.value),
                                            ast.Constant(value=t.attr))))
            else:
                out.append(ast.Delete(targets=[t]))
        return self._fix(out, node)

    def _accessors(self, names, node):
        """def _vc_set(k, v): nonlocal ...; and a dict of getters."""
        names = [n for n in names if n not in self.funcs[-1]['globals'] and
                 not n.startswith('_vc_')]
        setter = self.fresh('set')
        body = []
        if names:
            body.append(ast.Nonlocal(names=list(names)))
        for n in names:
            body.append(ast.If(
                test=ast.Compare(left=_name('_vc_k'), ops=[ast.Eq()],
                                 comparators=[ast.Constant(value=n)]),
                body=[ast.Assign(targets=[_name(n, ast.Store())],
                                 value=_name('_vc_v'))], orelse=[]))
        body.append(ast.Pass())
        fd = ast.FunctionDef(
            name=setter, decorator_list=[], returns=None, type_params=[],
            args=ast.arguments(posonlyargs=[],
                               args=[ast.arg(arg='_vc_k'),
                                     ast.arg(arg='_vc_v')],
                               kwonlyargs=[], kw_defaults=[], defaults=[]),
            body=body)
        getters = ast.Dict(
            keys=[ast.Constant(value=n) for n in names],
            values=[ast.Lambda(args=ast.arguments(
                posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[],
                defaults=[]), body=_name(n)) for n in names])
        return fd, getters, setter

    def visit_For(self, node):
        if not self.in_func():
            return self.generic_visit(node)
        self.funcs[-1]['loops'] += 1
        lid = f"{self.qual()}#{self.funcs[-1]['loops']}"
        names = assigned([node])
        simple_target = all(
            isinstance(n, (ast.Name, ast.Tuple, ast.List, ast.Starred,
                           ast.Store, ast.Load))
            for n in ast.walk(node.target))
        it = self.visit(node.iter)
        pre = []
        if not simple_target:
            t = self.fresh('t')
            pre = self._store(node.target, _name(t))
            node.target = _name(t, ast.Store())
        elif isinstance(node.target, (ast.Tuple, ast.List)):
            t = self.fresh('t')
            pre = self._store(node.target, _name(t))
            node.target = _name(t, ast.Store())
        body = pre + self._stmts(node.body)
        orelse = self._stmts(node.orelse)
        fd, getters, setter = self._accessors(names, node)
        new = ast.For(target=node.target,
                      iter=_rtcall('loop', it, ast.Constant(value=lid),
                                   getters, _name(setter)),
                      body=body, orelse=orelse)
        return self._fix([fd, new], node)

    def visit_While(self, node):
        if not self.in_func():
            return self.generic_visit(node)
        self.funcs[-1]['loops'] += 1
        lid = f"{self.qual()}#{self.funcs[-1]['loops']}"
        names = assigned([node])
        test = self.visit(node.test)
        body = self._stmts(node.body)
        orelse = self._stmts(node.orelse)
        fd, getters, setter = self._accessors(names, node)
        st = self.fresh('w')
        init = ast.Assign(targets=[_name(st, ast.Store())],
                          value=_rtcall('while_enter', ast.Constant(value=lid),
                                        getters, _name(setter)))
        head = ast.Call(func=ast.Attribute(value=_name(st), attr='head',
                                           ctx=ast.Load()),
                        args=[], keywords=[])
        new = ast.While(test=ast.BoolOp(op=ast.And(), values=[head, test]),
                        body=body, orelse=orelse)
        return self._fix([fd, init, new], node)


def transform(source, modname, filename):
    tree = ast.parse(source, filename)
    tr = Transformer(modname)
    tree.body = tr._stmts(tree.body)
    pos = 0
    for i, s in enumerate(tree.body):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) \
                and isinstance(s.value.value, str) and i == 0:
            pos = i + 1
        elif isinstance(s, ast.ImportFrom) and s.module == '__future__':
            pos = i + 1
    imp = ast.ImportFrom(module='pyvc', names=[
        ast.alias(name='rt', asname=RT)], level=0)
    tree.body.insert(pos, imp)
    ast.fix_missing_locations(tree)
    return tree


class Loader(importlib.machinery.SourceFileLoader):

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def source_to_code(self, data, path, *, _optimize=-1):
        src = importlib.util.decode_source(data)
        tree = transform(src, self.name, path)
        return compile(tree, path, 'exec', dont_inherit=True,
                       optimize=_optimize)


class Finder:

    @classmethod
    def find_spec(cls, fullname, path=None, target=None):
        if not fullname.split('.')[0] in PREFIXES:
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path, target)
        if spec is None or not isinstance(
                spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec

    @staticmethod
    def invalidate_caches():
        pass


def install():
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder)
