"""Loader: reads the sources of os_urlpattern (and of the harness, and
urllib.parse) as they are now, rewrites the operations that would bypass
symbolic values into calls of the runtime (_vp) and executes them as modules of
a private registry.  Nothing else of the code is changed."""
import ast
import builtins
import os
import sys
import types

from . import models, symb
from .models import RT


class Tx(ast.NodeTransformer):
    KEEP_NAMES = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', 'dir', '__import__'}

    def __init__(self, modname, functions):
        self.stack = [modname]
        self.functions = functions

    @staticmethod
    def _rt(name):
        return ast.Attribute(value=ast.Name(id='_vp', ctx=ast.Load()), attr=name, ctx=ast.Load())

    def _c(self, node, name, *args):
        n = ast.Call(func=self._rt(name), args=list(args), keywords=[])
        return ast.copy_location(n, node)

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in self.KEEP_NAMES:
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute):
            new = ast.Call(func=self._rt('callm'),
                           args=[f.value, ast.Constant(self._mangle(f.attr))] + node.args, keywords=node.keywords)
        else:
            new = ast.Call(func=self._rt('call'), args=[f] + node.args, keywords=node.keywords)
        return ast.copy_location(new, node)

    def _mangle(self, attr):
        if attr.startswith('__') and not attr.endswith('__'):
            for s in reversed(self.stack):
                if s.startswith('class '):
                    return '_%s%s' % (s[6:].lstrip('_'), attr)
        return attr

    def visit_Compare(self, node):
        self.generic_visit(node)
        if not any(isinstance(o, (ast.In, ast.NotIn)) for o in node.ops):
            return node
        if len(node.ops) == 1:
            return self._c(node, 'in_' if isinstance(node.ops[0], ast.In) else 'notin',
                           node.left, node.comparators[0])
        parts, left = [], node.left
        for o, r in zip(node.ops, node.comparators):
            if isinstance(o, (ast.In, ast.NotIn)):
                parts.append(self._c(node, 'in_' if isinstance(o, ast.In) else 'notin', left, r))
            else:
                parts.append(ast.copy_location(ast.Compare(left=left, ops=[o], comparators=[r]), node))
            left = r
        return ast.copy_location(ast.BoolOp(op=ast.And(), values=parts), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, (ast.Slice, ast.Constant)):
            return self._c(node, 'getitem', node.value, node.slice)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._c(node, 'mod', node.left, node.right)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            load = ast.copy_location(ast.Name(id=node.target.id, ctx=ast.Load()), node)
            return ast.copy_location(ast.Assign(targets=[node.target],
                                                value=self._c(node, 'mod', load, node.value)), node)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                parts.append(ast.Tuple(elts=[v.value, ast.Constant(v.conversion),
                                             v.format_spec or ast.Constant(None)], ctx=ast.Load()))
            else:
                parts.append(v)
        return self._c(node, 'fstr', *parts)

    def visit_FormattedValue(self, node):
        self.generic_visit(node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        items = []
        for k, v in zip(node.keys, node.values):
            items.append(ast.Tuple(elts=[k, v] if k is not None else [v], ctx=ast.Load()))
        return self._c(node, 'mkdict', ast.List(elts=items, ctx=ast.Load()))

    def visit_DictComp(self, node):
        self.generic_visit(node)
        g = ast.GeneratorExp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
                             generators=node.generators)
        return self._c(node, 'mkdict', ast.copy_location(g, node))

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._c(node, 'mkset', ast.List(elts=node.elts, ctx=ast.Load()))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        g = ast.GeneratorExp(elt=node.elt, generators=node.generators)
        return self._c(node, 'mkset', ast.copy_location(g, node))

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        exc = ast.Name(id='Exception', ctx=ast.Load())
        if node.type is None or (isinstance(node.type, ast.Name) and node.type.id == 'BaseException'):
            node.type = ast.copy_location(exc, node)
        return node

    def _func(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        qn = '.'.join(s[6:] if s.startswith('class ') else s for s in self.stack)
        self.stack.pop()
        idx = len(self.functions)
        self.functions.append(qn)
        body = node.body
        at = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
            and isinstance(body[0].value.value, str) else 0
        hook = ast.Expr(value=ast.Call(func=ast.Name(id='_vp_F', ctx=ast.Load()),
                                       args=[ast.Constant(idx)], keywords=[]))
        body.insert(at, ast.copy_location(hook, node))
        return node

    visit_FunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append('class ' + node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_Match(self, node):
        # `case 'x':` compares with == and so works; the subject stays as it is.
        self.generic_visit(node)
        return node

    visit_MatchValue = visit_MatchMapping = visit_MatchClass = visit_MatchSequence = lambda self, node: node


_code_cache = {}


def compile_file(path, modname, functions):
    with open(path, 'rb') as f:
        src = f.read()
    tree = ast.parse(src, path)
    tree = Tx(modname, functions).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec', dont_inherit=True)


class World(object):
    """One instrumented import of everything."""

    def __init__(self, repo_src, extra=()):
        self.repo_src = repo_src
        self.pkg = os.path.join(repo_src, 'os_urlpattern')
        self.functions = []          # all function names
        self.hit = set()             # indices of executed ones
        self.codes = {}
        self.modules = {}
        self.natives = {}
        self.loads = 0
        self.builtins = dict(builtins.__dict__)
        self.builtins.update(models.BUILTINS)
        self.builtins['__import__'] = self._import
        self.extra = dict(extra)     # module name -> path (harness modules)
        self.persist = {}
        self.baseline = None

    # -- module sources
    def _find(self, name):
        if name in self.extra:
            return self.extra[name], False
        if name == 'os_urlpattern':
            return os.path.join(self.pkg, '__init__.py'), True
        if name.startswith('os_urlpattern.'):
            base = os.path.join(self.repo_src, *name.split('.'))
            if os.path.isfile(base + '.py'):
                return base + '.py', False
            if os.path.isfile(os.path.join(base, '__init__.py')):
                return os.path.join(base, '__init__.py'), True
            return None, False
        if name == 'urllib.parse':
            import urllib.parse
            return urllib.parse.__file__, False
        return None, False

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if name == 'urllib':
            m = self.modules[name] = types.ModuleType('urllib')
            m.__path__ = []
            m.parse = self.load('urllib.parse')
            return m
        path, is_pkg = self._find(name)
        if path is None:
            return None
        keep = name in self.persist
        if keep:
            m = self.modules[name] = self.persist[name]
            return m
        code = self.codes.get(name)
        if code is None:
            code = self.codes[name] = compile_file(path, name, self.functions)
        m = types.ModuleType(name)
        g = m.__dict__
        g['__file__'] = path
        g['__builtins__'] = self.builtins
        g['_vp'] = RT
        g['_vp_F'] = self.hit.add
        if is_pkg:
            m.__path__ = [os.path.dirname(path)]
            g['__package__'] = name
        else:
            g['__package__'] = name.rpartition('.')[0]
        if '.' in name and not name.startswith('urllib'):
            parent = self.load(name.rpartition('.')[0])
        else:
            parent = None
        if name in self.modules:        # imported by the parent meanwhile
            return self.modules[name]
        self.modules[name] = m
        try:
            exec(code, g)
        except BaseException:
            self.modules.pop(name, None)
            raise
        if parent is not None:
            setattr(parent, name.rpartition('.')[2], m)
        if name == 'urllib.parse':
            self.persist[name] = m
        return m

    def fresh(self):
        """Forget all modules: the next load executes them anew."""
        self.modules = {}
        self.baseline = None
        self.loads += 1
        models.fresh_world(self)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or ''
            parts = pkg.split('.')
            base = '.'.join(parts[:len(parts) - level + 1])
            full = base + ('.' + name if name else '')
        else:
            full = name
        m = self._get(full)
        if m is None:
            mod = models.module_for(full, self)
            if mod is None:
                mod = __import__(full, None, None, ['*'] if fromlist else [], 0)
                if not fromlist:
                    return models.wrap_toplevel(full, mod, self)
                return mod
            if fromlist or '.' not in full:
                return mod
            return models.module_for(full.split('.')[0], self) or sys.modules[full.split('.')[0]]
        if fromlist:
            for a in fromlist:
                if not hasattr(m, a) and hasattr(m, '__path__'):
                    self._get(full + '.' + a)
            return m
        top = full.split('.')[0] if not level else full
        return self._get(top)

    def _get(self, full):
        if full in self.extra or full in ('os_urlpattern', 'urllib', 'urllib.parse') \
                or full.startswith('os_urlpattern.'):
            m = self.load(full)
            if m is None:
                raise ModuleNotFoundError("No module named %r" % full, name=full)
            return m
        return None

    def functions_hit(self):
        return sorted({self.functions[i] for i in self.hit})

    # -- detection of state that survives a call
    def signature(self):
        sig = []
        seen = set()
        for name in sorted(self.modules):
            if name.startswith('os_urlpattern') or name == 'os_urlpattern':
                g = self.modules[name].__dict__
                sig.append(len(g))
                for k, v in list(g.items()):
                    if k[:3] != '_vp' and k != '__builtins__':
                        self._sig(v, sig, seen, 0)
        return sig

    def _sig(self, v, sig, seen, depth):
        t = type(v)
        if t in (str, int, float, bool, bytes, type(None)):
            return
        if t in (symb.SymStr, symb.SymBytes, symb.SymInt, symb.SymBool, symb.DigestTok, models.HashTok):
            sig.append('sym')
            return
        if id(v) in seen or depth > 6:
            return
        seen.add(id(v))
        if t in (list, tuple, dict, set, frozenset) or isinstance(v, (models.SDict, models.SSet)):
            sig.append(len(v))
            if isinstance(v, (dict, models.SDict)):
                if len(v) <= 64:
                    for x in v.values():
                        self._sig(x, sig, seen, depth + 1)
            elif len(v) <= 64:
                for x in v:
                    self._sig(x, sig, seen, depth + 1)
            return
        if isinstance(v, type):
            if '_vp' in getattr(sys.modules.get(v.__module__), '__dict__', {}) or \
                    str(v.__module__).startswith('os_urlpattern'):
                sig.append(len(v.__dict__))
                for x in list(v.__dict__.values()):
                    if not callable(x):
                        self._sig(x, sig, seen, depth + 1)
                    elif isinstance(x, types.FunctionType):
                        self._sig(x, sig, seen, depth + 1)
            return
        if isinstance(v, types.FunctionType):
            if v.__dict__:
                sig.append(len(v.__dict__))
                for x in v.__dict__.values():
                    self._sig(x, sig, seen, depth + 1)
            for x in v.__defaults__ or ():
                self._sig(x, sig, seen, depth + 1)
            for c in v.__closure__ or ():
                try:
                    self._sig(c.cell_contents, sig, seen, depth + 1)
                except ValueError:
                    pass
            return
        if str(t.__module__).startswith('os_urlpattern'):
            for x in getattr(v, '__dict__', {}).values():
                self._sig(x, sig, seen, depth + 1)
            for c in t.__mro__:
                for s in c.__dict__.get('__slots__', ()):
                    if isinstance(s, str):
                        try:
                            self._sig(getattr(v, s), sig, seen, depth + 1)
                        except AttributeError:
                            pass

    def mark_clean(self):
        self.baseline = self.signature()

    def dirty(self):
        return self.baseline is None or self.signature() != self.baseline
