"""Loads /repo's current source as a shadow package whose builtins and library
imports are the symbolic shims.  The source is re-read and re-compiled on every
run; nothing about the functions under test is written down here.
"""
import ast
import builtins as _b
import contextlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'uncertainties'
STR_METHODS = frozenset('''join format format_map replace startswith endswith translate split rsplit
 strip lstrip rstrip count find rfind index rindex ljust rjust zfill center partition rpartition
 removeprefix removesuffix splitlines astype'''.split())

_code_cache = {}
sources = {}


class _Tr(ast.NodeTransformer):
    """Only string operations on native receivers need rewriting: every other
    Python operation already dispatches on the proxies."""

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(
                ast.Name('__sx_mod__', ast.Load()), [node.left, node.right], []), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.copy_location(ast.Assign([node.target], ast.Call(
                ast.Name('__sx_mod__', ast.Load()),
                [ast.Name(node.target.id, ast.Load()), node.value], [])), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            call = ast.Call(ast.Name('__sx_in__', ast.Load()), [node.left, node.comparators[0]], [])
            if isinstance(node.ops[0], ast.NotIn):
                call = ast.Call(ast.Name('__sx_not__', ast.Load()), [call], [])
            return ast.copy_location(call, node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in STR_METHODS \
                and not (isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name)
                         and f.value.func.id == 'super'):
            return ast.copy_location(ast.Call(
                ast.Name('__sx_call__', ast.Load()),
                [f.value, ast.Constant(f.attr)] + node.args, node.keywords), node)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = v.format_spec if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple([v.value, ast.Constant(v.conversion), spec], ast.Load()))
            else:
                parts.append(v)
        return ast.copy_location(ast.Call(ast.Name('__sx_fstr__', ast.Load()), parts, []), node)

    def visit_FormattedValue(self, node):
        self.generic_visit(node)
        return node


def compile_source(path):
    with open(path, encoding='utf-8') as f:
        src = f.read()
    sources[path] = src
    tree = ast.parse(src, path)
    tree = ast.fix_missing_locations(_Tr().visit(tree))
    return compile(tree, path, 'exec', dont_inherit=True)


# ------------------------------------------------------------------ builtins
def _basestring():
    from . import strings

    class BM(type):
        def __instancecheck__(cls, inst):
            return isinstance(inst, (str, bytes, strings.SymStr))

        def __subclasscheck__(cls, sub):
            return issubclass(sub, (str, bytes, strings.SymStr))
    return BM('basestring', (), {})


def make_env():
    from . import shims, strings, npshim, values, rematch
    over = {
        'float': values.SymFloat, 'int': shims.IntShim, 'str': shims.StrShim,
        'id': shims.s_id, 'format': strings.s_format, 'repr': strings.s_repr,
        'round': shims.s_round, 'ord': strings.s_ord, 'chr': strings.s_chr,
        '__sx_mod__': strings.sx_mod, '__sx_in__': strings.sx_in, '__sx_call__': strings.sx_call,
        '__sx_fstr__': strings.sx_fstr, '__sx_not__': values.sym_not,
    }
    bmod = types.ModuleType('builtins')
    for k in dir(_b):
        setattr(bmod, k, over.get(k, getattr(_b, k)))
    pb = types.ModuleType('past.builtins')
    pb.basestring = _basestring()
    past = types.ModuleType('past')
    past.builtins = pb
    mods = {'math': shims.MATH, 'builtins': bmod, 're': rematch.RE,
            'past': past, 'past.builtins': pb}
    np = npshim.make()
    real_import = _b.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            if name in mods:
                return mods[name] if fromlist or '.' not in name else mods[name.split('.')[0]]
            if name == 'numpy' or name.startswith('numpy.'):
                if np is None:
                    raise ImportError('No module named numpy')
                real_import(name)
                if not fromlist or name == 'numpy':
                    return np
                o = np
                for part in name.split('.')[1:]:
                    o = getattr(o, part)
                return o
        return real_import(name, globals, locals, fromlist, level)
    over['__import__'] = imp
    bd = dict(vars(_b))
    bd.update(over)
    return bd


class _Loader(importlib.abc.Loader):
    def __init__(self, path, env):
        self.path, self.env = path, env

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__dict__['__builtins__'] = self.env
        code = _code_cache.get(self.path)
        if code is None:
            code = _code_cache[self.path] = compile_source(self.path)
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, env):
        self.env = env

    def find_spec(self, fullname, path=None, target=None):
        if fullname != PKG and not fullname.startswith(PKG + '.'):
            return None
        base = os.path.join(REPO, *fullname.split('.'))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            p = os.path.join(base, '__init__.py')
            spec = importlib.machinery.ModuleSpec(fullname, _Loader(p, self.env), origin=p,
                                                  is_package=True)
            spec.submodule_search_locations = [base]
        elif os.path.exists(base + '.py'):
            p = base + '.py'
            spec = importlib.machinery.ModuleSpec(fullname, _Loader(p, self.env), origin=p)
        else:
            return None
        spec.has_location = True
        return spec


def _grab():
    got = {}
    for k in list(sys.modules):
        if k == PKG or k.startswith(PKG + '.'):
            got[k] = sys.modules.pop(k)
    return got


class Shadow:
    """One freshly executed copy of the package."""
    _env = None

    def __init__(self):
        if Shadow._env is None:
            Shadow._env = make_env()
        self.finder = _Finder(Shadow._env)
        self.mods = {}

    @contextlib.contextmanager
    def active(self):
        saved = _grab()
        sys.modules.update(self.mods)
        sys.meta_path.insert(0, self.finder)
        try:
            yield self
        finally:
            sys.meta_path.remove(self.finder)
            self.mods = _grab()
            sys.modules.update(saved)


def native_path():
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
