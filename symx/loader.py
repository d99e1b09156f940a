"""Imports infi.instruct and the harnesses from their current source, rewritten so that calls, subscripts, membership
tests and formatting pass through symx.hooks.  Everything else (control flow, operators, attribute access, classes,
exceptions) keeps its Python meaning; symbolic values fork where the interpreter asks for their truth value.
"""
import ast
import copy
import importlib
import importlib.abc
import importlib.machinery
import os
import sys
import types
from . import hooks

REPO = os.environ.get('REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENV_SITE = '/opt/venv/lib/python3.12/site-packages'
SKIP = {'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec', '__import__', 'breakpoint', 'compile'}


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


def _call(n, args, kw=()):
    return ast.Call(func=_name(n), args=list(args), keywords=list(kw))


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.scope = []
        self.count = 0

    # annotations are left alone
    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def visit_arg(self, node):
        return node

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            none = ast.Constant(value=None)
            return _call('__sx_slice__', [self.visit(x) if x is not None else none for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return ast.Tuple(elts=[self._slice(x) for x in s.elts], ctx=ast.Load())
        return self.visit(s)

    def visit_Subscript(self, node):
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(_call('__sx_sub__', [self.visit(node.value), self._slice(node.slice)]), node)
        return self.generic_visit(node)

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in SKIP:
            return self.generic_visit(node)
        self.generic_visit(node)
        return ast.copy_location(ast.Call(func=_name('__sx_call__'), args=[node.func] + node.args,
                                          keywords=node.keywords), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            r = _call('__sx_in__', [node.left, node.comparators[0]])
            if isinstance(node.ops[0], ast.NotIn):
                r = ast.UnaryOp(op=ast.Not(), operand=r)
            return ast.copy_location(r, node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(_call('__sx_mod__', [node.left, node.right]), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                conv = ast.Constant(value={-1: None, 115: 's', 114: 'r', 97: 'a'}[v.conversion])
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(value='')
                parts.append(ast.Tuple(elts=[self.visit(v.value), conv, spec], ctx=ast.Load()))
        return ast.copy_location(_call('__sx_fstr__', parts), node)

    def visit_Try(self, node):
        self.generic_visit(node)
        if node.handlers:
            node.handlers.insert(0, ast.ExceptHandler(type=_name('__sx_Abort__'), name=None, body=[ast.Raise()]))
        return node

    def _lambda(self, expr):
        empty = ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[])
        return _call('__sx_peek__', [ast.Lambda(args=empty, body=expr)])

    def _lambda_ok(self, expr):
        return self.scope and self.scope[-1][0] == 'f' and not any(
            isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) or
            (isinstance(n, ast.Name) and n.id in ('super', 'locals', '__class__')) for n in ast.walk(expr))

    def visit_Raise(self, node):
        ok = node.exc is not None and isinstance(node.exc, ast.Call) and self._lambda_ok(node.exc)
        self.generic_visit(node)
        if ok:
            node.exc = self._lambda(node.exc)
        return node

    def visit_Assert(self, node):
        ok = node.msg is not None and self._lambda_ok(node.msg)
        self.generic_visit(node)
        if ok:
            node.msg = self._lambda(node.msg)
        return node

    # Conditional assignments and expressions of plain scalars: both sides are computed and joined (hooks.sx_merge), so a
    # loop over bits does not fork at every bit.  Anything else, and anything that fails, forks as usual.
    def _plain(self, e):
        if isinstance(e, ast.Constant):
            return isinstance(e.value, (int, bool))
        if isinstance(e, ast.Name):
            return True
        if isinstance(e, ast.Attribute):
            return self._plain(e.value) and not isinstance(e.value, ast.Constant)
        if isinstance(e, ast.Subscript):
            return self._plain(e.value) and self._plain(e.slice)
        if isinstance(e, ast.BinOp):
            return self._plain(e.left) and self._plain(e.right)
        if isinstance(e, ast.UnaryOp):
            return self._plain(e.operand)
        if isinstance(e, ast.Compare):
            return len(e.ops) == 1 and not isinstance(e.ops[0], (ast.In, ast.NotIn)) and \
                self._plain(e.left) and self._plain(e.comparators[0])
        return False

    def _mergeable(self):
        return self.mod.startswith('infi.instruct') and self.scope and self.scope[-1][0] == 'f'

    def _assigned(self, body):
        """(target, value) of a block that is a single plain assignment."""
        if len(body) != 1:
            return None
        st = body[0]
        if isinstance(st, ast.Assign) and len(st.targets) == 1:
            t, v = st.targets[0], st.value
        elif isinstance(st, ast.AugAssign):
            t = st.target
            v = ast.BinOp(left=self._load(t), op=st.op, right=st.value)
        else:
            return None
        if not isinstance(t, (ast.Name, ast.Attribute, ast.Subscript)) or not self._plain(self._load(t)):
            return None
        return (t, v) if self._plain(v) else None

    def _load(self, t):
        t = copy.deepcopy(t)
        t.ctx = ast.Load()
        return t

    def _thunk(self, expr):
        empty = ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[])
        return ast.Lambda(args=empty, body=self.visit(copy.deepcopy(expr)))

    def visit_If(self, node):
        parts = None
        if self._mergeable():
            a = self._assigned(node.body)
            if a and not node.orelse:
                parts = a[0], a[1], self._load(a[0])
            elif a:
                b = self._assigned(node.orelse)
                if b and ast.dump(a[0]) == ast.dump(b[0]):
                    parts = a[0], a[1], b[1]
        if not parts:
            return self.generic_visit(node)
        target, new, old = parts
        self.count += 1
        c, m = '__sx_c%d' % self.count, '__sx_m%d' % self.count
        merge = _call('__sx_merge__', [_name(c), self._thunk(new), self._thunk(old)])
        stores = ast.Assign(targets=[self.visit(copy.deepcopy(target))], value=_name(m))
        test = self.visit(node.test)
        self.generic_visit(node)
        node.test = _name(c)
        first = ast.Assign(targets=[ast.Name(id=c, ctx=ast.Store())], value=test)
        second = ast.Assign(targets=[ast.Name(id=m, ctx=ast.Store())], value=merge)
        cond = ast.If(test=ast.Compare(left=_name(m), ops=[ast.Is()], comparators=[_name('__sx_FORK__')]),
                      body=[node], orelse=[stores])
        return [ast.copy_location(x, node) for x in (first, second, cond)]

    def visit_IfExp(self, node):
        ok = self._mergeable() and self._plain(node.body) and self._plain(node.orelse)
        if not ok:
            return self.generic_visit(node)
        return ast.copy_location(_call('__sx_ifexp__', [self.visit(node.test), self._thunk(node.body),
                                                        self._thunk(node.orelse)]), node)

    def visit_While(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.Expr(value=_call('__sx_tick__', [])))
        return node

    def visit_ClassDef(self, node):
        self.scope.append(('c', node.name))
        self.generic_visit(node)
        self.scope.pop()
        return node

    def visit_FunctionDef(self, node):
        qual = '.'.join([n for _, n in self.scope] + [node.name])
        in_error = self.scope and self.scope[-1][0] == 'c' and self.scope[-1][1].endswith('Error')
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        self.scope.append(('f', node.name))
        body = []
        for b in node.body:
            r = self.visit(b)
            body.extend(r if isinstance(r, list) else [r])
        self.scope.pop()
        doc = []
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            doc, body = body[:1], body[1:]
        n = node.name.strip('_')
        if n.endswith('repr') or (in_error and node.name == '__init__') or n == 'format_exception_call_stack':
            body = [ast.With(items=[ast.withitem(context_expr=_name('__sx_PEEK__'))], body=body or [ast.Pass()])]
        enter = ast.Expr(value=_call('__sx_enter__', [ast.Constant(value='%s:%s' % (self.mod, qual))]))
        node.body = doc + [enter] + body
        node.returns = None
        return node

    def visit_Lambda(self, node):
        self.scope.append(('f', '<lambda>'))
        self.generic_visit(node)
        self.scope.pop()
        return node


_codes = {}


def compile_source(path, modname):
    with open(path, 'rb') as f:
        src = f.read()
    key = (path, src)
    if key not in _codes:
        tree = ast.parse(src, path)
        tree = Rewriter(modname).visit(tree)
        ast.fix_missing_locations(tree)
        _codes[key] = compile(tree, path, 'exec', dont_inherit=True)
    return _codes[key]


def load_source(source, modname):
    """The globals of a piece of source, rewritten and run (for the self-test)."""
    tree = Rewriter(modname).visit(ast.parse(source))
    ast.fix_missing_locations(tree)
    g = dict(hooks.INJECT, __name__=modname)
    exec(compile(tree, modname, 'exec', dont_inherit=True), g)
    return g


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = compile_source(self.path, module.__name__)
        module.__dict__.update(hooks.INJECT)
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots   # module prefix -> directory of that package

    def find_spec(self, name, path=None, target=None):
        for prefix, d in self.roots.items():
            if name == prefix or name.startswith(prefix + '.'):
                base = os.path.join(d, *name[len(prefix):].strip('.').split('.')) if name != prefix else d
                init = os.path.join(base, '__init__.py')
                if os.path.isfile(init):
                    return _pkg_spec(name, init, base)
                if os.path.isfile(base + '.py'):
                    s = importlib.machinery.ModuleSpec(name, _Loader(base + '.py'), origin=base + '.py')
                    s.has_location = True
                    return s
        return None


def _pkg_spec(name, init, base):
    s = importlib.machinery.ModuleSpec(name, _Loader(init), origin=init, is_package=True)
    s.submodule_search_locations = [base]
    s.has_location = True
    return s


_finder = None


def install(repo=None, extra=None):
    """Makes infi.instruct (and the harness packages) importable in rewritten form."""
    global _finder
    repo = repo or REPO
    if _finder is not None:
        return
    if 'pkg_resources' not in sys.modules:
        m = types.ModuleType('pkg_resources')
        m.declare_namespace = lambda name: None
        sys.modules['pkg_resources'] = m
    infi = types.ModuleType('infi')
    infi.__path__ = [os.path.join(repo, 'src', 'infi'), os.path.join(VENV_SITE, 'infi')]
    sys.modules['infi'] = infi
    if VENV_SITE not in sys.path:
        sys.path.append(VENV_SITE)
    roots = {'infi.instruct': os.path.join(repo, 'src', 'infi', 'instruct'), 'props': os.path.join(VERIF, 'props')}
    roots.update(extra or {})
    _finder = _Finder(roots)
    sys.meta_path.insert(0, _finder)


def forget():
    """Forgets every rewritten module, so the next import runs its top level again."""
    for n in list(sys.modules):
        for p in _finder.roots:
            if n == p or n.startswith(p + '.'):
                del sys.modules[n]
                break
    infi = sys.modules['infi']
    if hasattr(infi, 'instruct'):
        del infi.instruct


def load(name):
    return importlib.import_module(name)
