"""Loads the Python modules of the code under test from its current source, rewritten so that calls,
subscripts and comparisons that meet a proxy are dispatched to rt.py."""
import ast
import builtins
import enum
import importlib.util
import operator
import os
import sys
from . import rt

REPO = os.environ.get('F15_REPO', '/repo')
NOREWRITE = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', 'dir'}


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname, record):
        self.cls = []
        self.qual = []
        self.modname = modname
        self.record = record

    def _n(self, name):
        return ast.Name(name, ast.Load())

    def _call(self, f, *args):
        return ast.Call(self._n(f), list(args), [])

    def visit_ClassDef(self, n):
        self.cls.append(n.name)
        self.qual.append(n.name)
        n.body = [self.visit(x) for x in n.body]
        n.bases = [self.visit(x) for x in n.bases]
        self.qual.pop()
        self.cls.pop()
        return n

    def _func(self, n):
        self.qual.append(n.name)
        body = []
        for x in n.body:
            body.append(self.visit(x))
        if self.record:
            q = self.modname + ':' + '.'.join(self.qual)
            body.insert(0, ast.Expr(ast.Call(ast.Attribute(self._n('__sx_seen__'), 'add', ast.Load()),
                                             [ast.Constant(q)], [])))
        n.body = body
        n.args.defaults = [self.visit(x) for x in n.args.defaults]
        n.args.kw_defaults = [self.visit(x) if x is not None else None for x in n.args.kw_defaults]
        self.qual.pop()
        return n

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        n.target = self.visit(n.target)
        return n

    def _mangle(self, a):
        if a.startswith('__') and not a.endswith('__') and self.cls:
            c = self.cls[-1].lstrip('_')
            if c:
                return '_%s%s' % (c, a)
        return a

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id in NOREWRITE:
            n.args = [self.visit(x) for x in n.args]
            return n
        args = [self.visit(x) for x in n.args]
        kws = [ast.keyword(k.arg, self.visit(k.value)) for k in n.keywords]
        if isinstance(n.func, ast.Attribute):
            obj = self.visit(n.func.value)
            return ast.Call(self._n('__sx_m__'), [obj, ast.Constant(self._mangle(n.func.attr))] + args, kws)
        return ast.Call(self._n('__sx_c__'), [self.visit(n.func)] + args, kws)

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            sl = n.slice
            if isinstance(sl, ast.Slice):
                sl = self._call('__sx_slice__', *[x if x is not None else ast.Constant(None)
                                                for x in (sl.lower, sl.upper, sl.step)])
            elif isinstance(sl, ast.Tuple) and any(isinstance(e, (ast.Slice, ast.Starred)) for e in sl.elts):
                return n
            return self._call('__sx_i__', n.value, sl)
        return n

    OPS = {ast.In: '__sx_in__', ast.NotIn: '__sx_notin__', ast.Is: '__sx_is__', ast.IsNot: '__sx_isnot__'}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.OPS:
            return self._call(self.OPS[type(n.ops[0])], n.left, n.comparators[0])
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return self._call('__sx_mod__', n.left, n.right)
        return n

    def _plain_sub(self, t):
        return isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice) and not (
            isinstance(t.slice, ast.Tuple) and any(isinstance(e, (ast.Slice, ast.Starred)) for e in t.slice.elts))

    def visit_Assign(self, n):
        if len(n.targets) == 1 and self._plain_sub(n.targets[0]):
            t = n.targets[0]
            return ast.copy_location(ast.Expr(self._call('__sx_set__', self.visit(n.value), self.visit(t.value),
                                                         self.visit(t.slice))), n)
        self.generic_visit(n)
        return n

    def visit_AugAssign(self, n):
        t = n.target
        if self._plain_sub(t):
            op = self.visit(ast.BinOp(ast.Name('a__', ast.Load()), n.op, ast.Name('b__', ast.Load())))
            if isinstance(n.op, (ast.Add, ast.BitOr)):
                op = self._call('__sx_iop__', ast.Constant(type(n.op).__name__), self._n('a__'), self._n('b__'))
            fn = ast.Lambda(ast.arguments([], [ast.arg('a__'), ast.arg('b__')], None, [], [], None, []), op)
            return ast.copy_location(ast.Expr(self._call('__sx_aug__', fn, self.visit(t.value), self.visit(t.slice),
                                                         self.visit(n.value))), n)
        self.generic_visit(n)
        return n

    def visit_Delete(self, n):
        if len(n.targets) == 1 and self._plain_sub(n.targets[0]):
            t = n.targets[0]
            return ast.copy_location(ast.Expr(self._call('__sx_del__', self.visit(t.value), self.visit(t.slice))), n)
        self.generic_visit(n)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        if any(k is None for k in n.keys) or all(isinstance(k, (ast.Constant, ast.Attribute)) for k in n.keys):
            return n
        return self._call('__sx_dict__', ast.List([ast.Tuple([k, v], ast.Load()) for k, v in zip(n.keys, n.values)],
                                                  ast.Load()))

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return self._call('__sx_dict__', ast.ListComp(ast.Tuple([n.key, n.value], ast.Load()), n.generators))

    def visit_Set(self, n):
        self.generic_visit(n)
        if all(isinstance(x, (ast.Constant, ast.Attribute)) for x in n.elts):
            return n
        return self._call('__sx_c__', ast.Name('__sx_settype__', ast.Load()), ast.List(n.elts, ast.Load()))

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return self._call('__sx_c__', ast.Name('__sx_settype__', ast.Load()), ast.ListComp(n.elt, n.generators))

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                conv = {-1: '', 115: 's', 114: 'r', 97: 'a'}[v.conversion]
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(self._call('__sx_fmt__', self.visit(v.value), ast.Constant(conv), spec))
        return self._call('__sx_cat__', *parts)

    def visit_match_case(self, n):
        n.body = [self.visit(x) for x in n.body]
        if n.guard is not None:
            n.guard = self.visit(n.guard)
        return n


RUNTIME = {'__sx_m__': rt.sx_m, '__sx_c__': rt.sx_c, '__sx_i__': rt.sx_i, '__sx_in__': rt.sx_in,
           '__sx_notin__': rt.sx_notin, '__sx_is__': rt.sx_is, '__sx_isnot__': rt.sx_isnot, '__sx_fmt__': rt.sx_fmt,
           '__sx_cat__': rt.sx_cat, '__sx_mod__': rt.sx_mod, '__sx_slice__': slice, '__sx_seen__': rt.SEEN,
           '__sx_set__': rt.sx_set, '__sx_aug__': rt.sx_aug, '__sx_iop__': rt.sx_iop, '__sx_del__': rt.sx_del,
           '__sx_dict__': rt.sx_dict, '__sx_settype__': set}


def _import(name, *a, **k):
    m = builtins.__import__(name, *a, **k)
    return rt.FUNCTOOLS if name == 'functools' else rt.IO if name == 'io' else m


BUILTINS = dict(builtins.__dict__, __import__=_import)


class Finder:
    """Meta path finder: modules under the given roots are loaded rewritten."""

    def __init__(self, roots):
        self.roots = roots          # list of (directory, record functions?)
        self.loaded = []

    def find_spec(self, name, path=None, target=None):
        rel = name.replace('.', '/')
        for root, record in self.roots:
            p = os.path.join(root, rel)
            if os.path.isdir(p) and (os.path.exists(p + '/__init__.py') or '.' not in name and
                                     any(f.endswith('.py') for f in os.listdir(p))):
                f = p + '/__init__.py'
                spec = importlib.util.spec_from_loader(name, self, origin=f, is_package=True)
                spec.submodule_search_locations = [p]
                spec.loader_state = (f if os.path.exists(f) else None, record)
                return spec
            if os.path.exists(p + '.py'):
                spec = importlib.util.spec_from_loader(name, self, origin=p + '.py')
                spec.loader_state = (p + '.py', record)
                return spec
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        f, record = mod.__spec__.loader_state
        mod.__file__ = f
        if f is None:
            return
        with open(f, encoding='utf-8') as fh:
            src = fh.read()
        tree = ast.parse(src, f)
        tree = ast.fix_missing_locations(Rewriter(mod.__name__, record).visit(tree))
        mod.__dict__.update(RUNTIME)
        mod.__dict__['__builtins__'] = BUILTINS
        exec(compile(tree, f, 'exec'), mod.__dict__)
        if record:
            self.loaded.append(mod)


FINDER = None


def install(verif):
    """Symbolic mode: rewritten modules from the repository and from the property directory."""
    global FINDER
    sys.dont_write_bytecode = True
    FINDER = Finder([(REPO, True), (os.path.join(verif, 'props'), False)])
    sys.meta_path.insert(0, FINDER)


def install_concrete(verif):
    """Concrete mode: the unmodified modules."""
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.path.join(verif, 'props'))
    sys.path.insert(0, REPO)


# -- restoring module / class state between paths ------------------------------------------
class Snapshot:
    """Mutable state reachable from module globals, class attributes and function defaults."""

    def __init__(self, mods):
        self.items = []
        self.seen = set()
        self.keep = []
        names = {m.__name__ for m in mods}
        self.names = names
        for m in mods:
            self._ns(m, m.__dict__)
        self.plain = [x for x in self.items if x[0] in ('list', 'dict', 'set')]
        self.spaces = [o.__dict__ for kind, o, _ in self.items if kind == 'ns']
        self.ids = None
        self.sizes = {id(o): self._size(o) for kind, o, _ in self.items if kind == 'ns'}

    def _ns(self, owner, d):
        self.keep.append(owner)
        saved = {}
        for k, v in list(d.items()):
            if k.startswith('__') and k.endswith('__') or k.startswith('__sx'):
                continue
            saved[k] = v
            self._walk(v)
        self.items.append(('ns', owner, saved))

    def _walk(self, v):
        if id(v) in self.seen:
            return
        t = type(v)
        if t in (int, str, float, bool, type(None), bytes):
            return
        if t is list:
            self.seen.add(id(v))
            self.items.append(('list', v, list(v)))
            for x in v:
                self._walk(x)
        elif t is dict:
            self.seen.add(id(v))
            self.items.append(('dict', v, dict(v)))
            for x in v.values():
                self._walk(x)
        elif t is set:
            self.seen.add(id(v))
            self.items.append(('set', v, set(v)))
        elif t is tuple:
            for x in v:
                self._walk(x)
        elif isinstance(v, type):
            if v.__module__ in self.names and not hasattr(v, '__members__'):
                self.seen.add(id(v))
                self._ns(v, v.__dict__)
        elif callable(v) and hasattr(v, '__code__'):
            self.seen.add(id(v))
            for x in v.__defaults__ or ():
                self._walk(x)
            for x in (v.__kwdefaults__ or {}).values():
                self._walk(x)
            for cell in v.__closure__ or ():
                try:
                    self._walk(cell.cell_contents)
                except ValueError:
                    pass
            if v.__dict__:
                self.items.append(('dict', v.__dict__, dict(v.__dict__)))
        elif isinstance(v, (staticmethod, classmethod)):
            self._walk(v.__func__)
        elif hasattr(v, 'cache_clear'):
            self.seen.add(id(v))
            self.items.append(('cache', v, None))
        elif type(v).__module__ in self.names and hasattr(v, '__dict__') and not isinstance(v, enum.Enum):
            self.seen.add(id(v))
            self.keep.append(v)
            self.items.append(('dict', v.__dict__, dict(v.__dict__)))
            for x in v.__dict__.values():
                self._walk(x)

    def state(self, *objs):
        """The present state, to be compared with a later one and restored."""
        items = [('dict', o.__dict__, None) for o in objs if hasattr(o, '__dict__')] + self.items
        out = []
        for kind, obj, saved in items:
            if kind == 'list':
                out.append((kind, obj, list(obj)))
            elif kind == 'dict':
                out.append((kind, obj, dict(obj)))
            elif kind == 'set':
                out.append((kind, obj, set(obj)))
            elif kind == 'ns':
                out.append((kind, obj, {k: v for k, v in obj.__dict__.items() if k in saved or not (
                    k.startswith('__') and k.endswith('__') or k.startswith('__sx'))}))
        return out

    @staticmethod
    def _size(o):
        return sum(1 for k in o.__dict__ if k[:2] != '__')

    def dirty(self, state=None):
        """Has anything changed since the given (the first) state?"""
        if state is None:
            ids = [list(map(id, o if k != 'dict' else o.values())) for k, o, _ in self.plain]
            ids += [list(map(id, d.values())) for d in self.spaces]
            if ids == self.ids:
                return False
            if not self.dirty(self.items):
                self.ids = ids
                return False
            return True
        for kind, obj, saved in state:
            if kind == 'cache':
                continue
            if kind == 'set':
                if len(obj) != len(saved):
                    return True
            elif kind == 'list':
                if len(obj) != len(saved) or not all(map(operator.is_, obj, saved)):
                    return True
            elif kind == 'dict':
                if len(obj) != len(saved) or not all(map(operator.is_, obj.values(), saved.values())):
                    return True
            else:
                d = obj.__dict__
                for k, v in saved.items():
                    if d.get(k, self) is not v:
                        return True
                if self._size(obj) != self.sizes.get(id(obj)):
                    return True
        return False

    def since(self, state):
        """Has anything changed since?  If so it is put back."""
        if self.dirty(state):
            self.restore(state)
            return True
        return False

    def restore(self, items=None):
        for kind, obj, saved in self.items if items is None else items:
            if kind == 'list':
                if len(obj) != len(saved) or any(a is not b for a, b in zip(obj, saved)):
                    obj[:] = saved
            elif kind == 'dict':
                if len(obj) != len(saved) or any(obj.get(k, self) is not v for k, v in saved.items()):
                    obj.clear()
                    obj.update(saved)
            elif kind == 'set':
                if len(obj) != len(saved):
                    obj.clear()
                    obj |= saved
            elif kind == 'cache':
                obj.cache_clear()
            else:
                d = obj.__dict__
                for k, v in saved.items():
                    if d.get(k) is not v:
                        setattr(obj, k, v)
                for k in [k for k in d if k not in saved and not k.startswith('__')]:
                    delattr(obj, k)
