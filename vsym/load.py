"""Loads /repo/src/kiutils for symbolic execution.

Each module is read from the working tree, its AST is rewritten so that the
few operations CPython would perform on raw str/dict objects in C go through
vsym.ops, and it is executed with stand-ins for the builtin type names.
"""
import ast
import builtins
import copy
import os
import sys
import types
from . import ops
from .rx import ReShim
from . import fs

REPO_SRC = os.environ.get('VSYM_SRC', '/repo/src')


class Rewriter(ast.NodeTransformer):
    def _vs(self, name):
        return ast.Attribute(ast.Name('__vs__', ast.Load()), name, ast.Load())

    def _call(self, name, *args):
        return ast.Call(self._vs(name), list(args), [])

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                conv = ast.Constant(chr(v.conversion) if v.conversion != -1 else None)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple([self.visit(v.value), conv, spec], ast.Load()))
        return self._call('fstr', *parts)

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Attribute) and not (f.attr.startswith('__') and not f.attr.endswith('__')):
            if not (isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super'):
                node.func = self._call('meth', self.visit(f.value), ast.Constant(f.attr))
                node.args = [self.visit(a) for a in node.args]
                node.keywords = [self.visit(k) for k in node.keywords]
                return node
        return self.generic_visit(node)

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and node.attr in ops.ATTR_NAMES and \
                not (isinstance(node.value, ast.Name) and node.value.id == '__vs__'):
            return self._call('meth', node.value, ast.Constant(node.attr))
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.Assign([node.target], self._call('mod', ast.Name(node.target.id, ast.Load()), node.value))
        return node

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return self._call('mkdict', ast.GeneratorExp(ast.Tuple([node.key, node.value], ast.Load()), node.generators))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self._call('mkset', ast.GeneratorExp(node.elt, node.generators))

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None or not isinstance(k, ast.Constant) for k in node.keys) and None not in node.keys:
            return self._call('mkdict', ast.List([ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)], ast.Load()))
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call('mod', node.left, node.right)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            o = node.ops[0]
            n = {ast.In: 'contains', ast.NotIn: 'not_contains', ast.Is: 'vs_is', ast.IsNot: 'vs_is_not'}.get(type(o))
            if n in ('vs_is', 'vs_is_not') and isinstance(node.comparators[0], ast.Constant) and node.comparators[0].value is None:
                return node
            if n:
                return self._call(n, node.left, node.comparators[0])
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            sl = node.slice
            if isinstance(sl, ast.Slice):
                n = ast.Constant(None)
                sl = ast.Call(self._vs('slice'), [sl.lower or n, sl.upper or n, sl.step or n], [])
            elif isinstance(sl, ast.Constant) and isinstance(sl.value, int):
                return node
            return self._call('getitem', node.value, sl)
        v = node.value
        while isinstance(v, ast.Attribute):
            v = v.value
        if isinstance(v, ast.Name) and not isinstance(node.slice, (ast.Slice, ast.Constant, ast.Tuple)):
            # d[k] = v, d[k] += v, del d[k]
            node.slice = self._call('skey', copy.deepcopy(node.value), node.slice)
            for x in ast.walk(node.slice):
                if hasattr(x, 'ctx'):
                    x.ctx = ast.Load()
        return node

    def visit_AnnAssign(self, node):
        # annotations are never executed for their value here
        node.value = self.visit(node.value) if node.value is not None else None
        node.target = self.visit(node.target)
        return node

    def visit_arg(self, node):
        return node

    def visit_FunctionDef(self, node):
        r = node.returns
        node.returns = None
        self.generic_visit(node)
        node.returns = r
        return node

    def visit_MatchValue(self, node):
        return node

    def visit_MatchClass(self, node):
        self.generic_visit(node)
        if isinstance(node.cls, ast.Name) and node.cls.id in ops.P:
            node.cls = ast.Attribute(ast.Name('__vs__', ast.Load()), 'P_' + node.cls.id, ast.Load())
        return node


VS = types.SimpleNamespace(
    fstr=ops.fstr, meth=ops.meth, mod=ops.mod, contains=ops.contains, not_contains=ops.not_contains,
    vs_is=ops.vs_is, vs_is_not=ops.vs_is_not, skey=ops.skey, mkdict=ops.mkdict, mkset=ops.mkset, getitem=ops.getitem, slice=slice,
    **{'P_' + k: v for k, v in ops.P.items()})


class SymPackage:
    """An instrumented copy of the kiutils package, regenerated from source."""

    def __init__(self, src=None, shims=None, extra_builtins=None):
        self.src = src or REPO_SRC
        self.mods = {}
        self.shims = {'re': ReShim()}
        self.shims.update(fs.SHIMS)
        self.shims.update(shims or {})
        b = dict(vars(builtins))
        b.update(ops.OVERRIDES)
        b['__vs__'] = VS
        b['__import__'] = self._import
        b['open'] = fs.fopen
        b.update(extra_builtins or {})
        self.builtins = b
        self.state = None

    def _path(self, name):
        p = os.path.join(self.src, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py'), True
        return p + '.py', False

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        path, pkg = self._path(name)
        if not os.path.exists(path):
            if pkg:
                src = ''
            else:
                raise ModuleNotFoundError('No module named %r' % name)
        else:
            with open(path, encoding='utf-8') as f:
                src = f.read()
        parent = None
        if '.' in name:
            parent = self.module(name.rsplit('.', 1)[0])
            if name in self.mods:
                return self.mods[name]
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = []
        m.__builtins__ = self.builtins
        self.mods[name] = m
        tree = ast.parse(src, path)
        tree = ast.fix_missing_locations(Rewriter().visit(tree))
        code = compile(tree, path, 'exec')
        saved = sys.modules.get(name)
        sys.modules[name] = m
        try:
            exec(code, m.__dict__)
        finally:
            if saved is not None:
                sys.modules[name] = saved
            else:
                sys.modules.pop(name, None)
        if parent is not None:
            setattr(parent, name.rsplit('.', 1)[1], m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals['__package__'].split('.')
            base = base[:len(base) - level + 1]
            name = '.'.join(base + ([name] if name else []))
        root = name.split('.')[0]
        if root == 'kiutils':
            m = self.module(name)
            if not fromlist:
                return self.module(root)
            for f in fromlist:
                if f != '*' and not hasattr(m, f):
                    try:
                        self.module(name + '.' + f)
                    except ModuleNotFoundError:
                        pass
            return m
        if name == 'os.path' and not fromlist:
            return self.shims['os']
        if name in self.shims:
            return self.shims[name]
        m = builtins.__import__(name, globals, locals, fromlist, 0)
        return m

    # -- module level mutable state is restored before every path ------------
    def snapshot(self):
        self.state = []
        self.caches = []
        self.classes = []
        seen = set()

        def note(v):
            if type(v) in (list, dict, set) and id(v) not in seen:
                seen.add(id(v))
                self.state.append((v, v.copy()))
            elif hasattr(v, 'cache_clear'):
                self.caches.append(v)
        for m in self.mods.values():
            g = dict((k, v) for k, v in m.__dict__.items() if not k.startswith('__'))
            self.state.append((m, g))
            for v in g.values():
                note(v)
                if isinstance(v, type) and getattr(v, '__module__', '').startswith('kiutils'):
                    for k, a in vars(v).items():
                        if k in ('__dataclass_fields__', '__annotations__', '__dict__'):
                            continue
                        note(a)
                        f = getattr(a, '__func__', a)
                        self.note_func(f, note)
                        for d in (getattr(f, '__defaults__', None) or ()):
                            note(d)
                    self.classes.append((v, {k: a for k, a in vars(v).items() if not k.startswith('__')}))
                elif isinstance(v, types.FunctionType):
                    self.note_func(v, note)
                    for d in (v.__defaults__ or ()):
                        note(d)

    def note_func(self, f, note):
        d = getattr(f, '__dict__', None)
        if isinstance(f, types.FunctionType):
            note(d)
            for x in d.values():
                note(x)

    def restore(self):
        for c, old in self.classes:
            cur = vars(c)
            for k in [k for k in cur if not k.startswith('__') and cur[k] is not old.get(k, self)]:
                if k in old:
                    setattr(c, k, old[k])
                else:
                    delattr(c, k)
        for v, c in self.state:
            if isinstance(v, types.ModuleType):
                d = v.__dict__
                for k, x in c.items():
                    if d.get(k) is not x:
                        d[k] = x
            elif type(v) is list:
                v[:] = c
            elif len(v) != len(c) or type(v) is dict:
                v.clear()
                v.update(c)
        for f in self.caches:
            f.cache_clear()
