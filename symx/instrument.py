"""Import hook: compiles /repo's current sources with call sites, membership
tests, hash-container displays and loops routed through the symbolic run-time.
Nothing of the program's logic is rewritten."""
import ast
import functools
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

EXEMPT = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', 'dir', '__import__'}


def name(n):
    return ast.Name(id=n, ctx=ast.Load())


class T(ast.NodeTransformer):
    def __init__(self, module):
        self.module = module
        self.cls = []
        self.fn = []

    def _call(self, f, *args):
        return ast.Call(func=name(f), args=list(args), keywords=[])

    # scopes
    def visit_ClassDef(self, node):
        self.cls.append(node.name)
        self.fn.append(node.name)
        self.generic_visit(node)
        self.fn.pop()
        self.cls.pop()
        return node

    def visit_FunctionDef(self, node):
        self.fn.append(node.name)
        qual = '.'.join([self.module] + self.fn)
        self.generic_visit(node)
        self.fn.pop()
        stmt = ast.Expr(value=self._call('_sx_enter', ast.Constant(qual)))
        at = 0
        if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) \
                and isinstance(node.body[0].value.value, str):
            at = 1
        node.body.insert(at, stmt)
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    # loops
    def _loop(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.Expr(value=self._call('_sx_tick')))
        return node

    visit_While = _loop
    visit_For = _loop

    # calls
    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in EXEMPT:
            self.generic_visit(node)
            return node
        if isinstance(f, ast.Attribute) and not (
                isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super'):
            self.generic_visit(node)
            attr = node.func.attr
            if attr.startswith('__') and not attr.endswith('__') and self.cls:
                attr = '_%s%s' % (self.cls[-1].lstrip('_'), attr)
            new = ast.Call(func=name('_sx_mcall'),
                           args=[node.func.value, ast.Constant(attr)] + node.args,
                           keywords=node.keywords)
            return new
        self.generic_visit(node)
        return ast.Call(func=name('_sx_call'), args=[node.func] + node.args, keywords=node.keywords)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, (ast.Slice, ast.Tuple)):
            return self._call('_sx_getitem', node.value, node.slice)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            f = '_sx_in' if isinstance(node.ops[0], ast.In) else '_sx_notin'
            return self._call(f, node.left, node.comparators[0])
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call('_sx_mod', node.left, node.right)
        return node

    # displays
    def visit_Set(self, node):
        self.generic_visit(node)
        return self._call('_sx_mkset', *node.elts)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self._call('_sx_mkset_it', ast.ListComp(elt=node.elt, generators=node.generators))

    def visit_Dict(self, node):
        self.generic_visit(node)
        pairs = []
        for k, v in zip(node.keys, node.values):
            pairs.append(ast.Tuple(elts=[k if k is not None else name('_sx_UNPACK'), v], ctx=ast.Load()))
        return self._call('_sx_mkdict', ast.Tuple(elts=pairs, ctx=ast.Load()))

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return self._call('_sx_mkdict_it', ast.ListComp(
            elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators))

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = v.format_spec if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple(elts=[v.value, ast.Constant(v.conversion), spec], ctx=ast.Load()))
            else:
                parts.append(v)
        return self._call('_sx_fstr', *parts)

    # leave annotations and match patterns alone
    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def visit_Match(self, node):
        node.subject = self.visit(node.subject)
        for c in node.cases:
            if c.guard is not None:
                c.guard = self.visit(c.guard)
            c.body = [self.visit(s) for s in c.body]
        return node


def transform(source, filename, module):
    tree = ast.parse(source, filename)
    tree = T(module).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


def namespace():
    from . import rt
    return {
        '_sx_call': rt.call, '_sx_mcall': rt.mcall, '_sx_in': rt.contains,
        '_sx_notin': rt.not_contains, '_sx_mod': rt.mod, '_sx_mkset': rt.mkset,
        '_sx_mkset_it': rt.mkset_it, '_sx_mkdict': rt.mkdict, '_sx_mkdict_it': rt.mkdict_it,
        '_sx_fstr': rt.fstr, '_sx_enter': rt.enter, '_sx_tick': rt.tick,
        '_sx_UNPACK': rt._UNPACK, '_sx_getitem': rt.getitem,
    }


class Loader(importlib.abc.Loader):
    def __init__(self, fullname, path, is_pkg, pyx=False):
        self.fullname = fullname
        self.path = path
        self.is_pkg = is_pkg
        self.pyx = pyx

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        if self.pyx:
            from . import pyx
            src = pyx.to_python(src, self.path)
            module.__dict__.update(pyx.namespace())
        code = transform(src, self.path, self.fullname)
        module.__dict__.update(namespace())
        from . import state
        old = functools.lru_cache, functools.cache
        functools.lru_cache, functools.cache = state.lru_cache, state.cache
        try:
            exec(code, module.__dict__)
        finally:
            functools.lru_cache, functools.cache = old
        state.snapshot(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots      # {top level package: directory holding it}

    def find_spec(self, fullname, path, target=None):
        parts = fullname.split('.')
        root = self.roots.get(parts[0])
        if root is None:
            return None
        base = os.path.join(root, *parts)
        if os.path.isfile(os.path.join(base, '__init__.py')):
            p = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(
                fullname, p, loader=Loader(fullname, p, True),
                submodule_search_locations=[base])
        for ext in ('.py', '.pyx'):
            p = base + ext
            if os.path.isfile(p):
                return importlib.util.spec_from_file_location(
                    fullname, p, loader=Loader(fullname, p, False, ext == '.pyx'))
        return None


def install(repo, site=None):
    """Instrumented `fog`/`cfog` from `repo`, dependencies from `site`."""
    roots = {'fog': repo, 'cfog': repo}
    if site:
        for dep in ('phylactery', 'ebbe'):
            if os.path.isdir(os.path.join(site, dep)):
                roots[dep] = site
        if site not in sys.path:
            sys.path.append(site)
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder(roots))
    from . import rt
    rt.install_thirdparty()
    rt.setup_hooks()
