"""Run time of the rewritten code: dispatches calls, subscripts and comparisons that involve proxies."""
import collections
import functools
import io
import math
import operator
import re
import sys
import types
import z3
from . import core
from . import values as V
from . import regex as R
from .core import cur
from .values import (Sym, SStr, SymBool, SymInt, SymFloat, KTab, Choice, b_not, b_or, b_and, mkbool, mkstr,
                     parts_of, UnsupportedString)

class Entered(set):
    """The functions of the code under test that were entered; `add` is called at every entry."""
    add = set.add


SEEN = Entered()


def on_entry(f):
    """Call f at every function entry from now on (None: stop)."""
    if f is None:
        SEEN.__dict__.pop('add', None)
    else:
        def add(q):
            set.add(SEEN, q)
            f()
        SEEN.add = add

try:
    from geographiclib.geodesic import Geodesic
except Exception:        # pragma: no cover
    Geodesic = ()


from .core import NeedFork


class OutText:
    """What the code under test printed (symbolic pieces kept)."""


def proxytype(x):
    if isinstance(x, SStr):
        return str
    if isinstance(x, SymBool):
        return bool
    if isinstance(x, SymInt):
        return int
    if isinstance(x, SymFloat):
        return float
    if isinstance(x, KTab):
        t = {type(v) for v in x.vals}
        if len(t) == 1:
            return t.pop()
        return type(x.resolve())
    if isinstance(x, R.MatchProxy):
        return re.Match if bool(x) else type(None)
    return type(x)


def _isinstance(x, t):
    return issubclass(proxytype(x), t) if isinstance(x, Sym) else isinstance(x, t)


def _len(x):
    if isinstance(x, SStr):
        return x.length()
    if isinstance(x, KTab):
        return KTab.make(x.var, [len(v) for v in x.vals])
    return len(x)


def _print(*args, sep=' ', end='\n', file=None, flush=False):
    if file is sys.stderr:
        return
    out = cur().notes.setdefault('stdout', []) if file is None or file is sys.stdout else []
    for i, a in enumerate(args):
        if i and sep != '':
            out.append(' ' if sep is None else sep)
        out.append(sx_c(str, a))
    out.append('\n' if end is None else end)
    if file is not None and file is not sys.stdout:
        for x in out:
            sx_m(file, 'write', x)


class StringIO(io.TextIOBase):
    """io.StringIO whose text may be symbolic (written at the end only)."""

    def __init__(self, text=''):
        self.out = [text]

    def write(self, s):
        self.out.append(s)
        return _len(s)

    def writelines(self, xs):
        self.out.extend(xs)

    def getvalue(self):
        return sx_cat(*self.out)

    def truncate(self, *a):
        raise UnsupportedString('io.StringIO.truncate')
    seek = read = readline = __next__ = truncate


def _bool(x=False):
    if isinstance(x, SymBool):
        return x
    return bool(x)


def _ord(x):
    if isinstance(x, SStr):
        cs = x.cells()
        if len(cs) == 1:
            return ord(cs[0]) if isinstance(cs[0], str) else SymInt(cs[0].e, cs[0].ranges[0][0], cs[0].ranges[-1][1])
    return ord(x)


def _chr(x):
    if isinstance(x, SymInt):
        lo = 0 if x.lo is None else x.lo
        hi = 0x10FFFF if x.hi is None else x.hi
        return SStr((V.CharCell(x.e, ((lo, hi),)),))
    return chr(x)


def _map(f, *its):
    return (sx_c(f, *a) for a in zip(*its))


def _repr(x):
    if isinstance(x, KTab):
        return repr(x.resolve())
    if isinstance(x, SStr):
        return V.repr_str(x)
    if isinstance(x, (SymInt, SymFloat)):
        return V.str_value(x)
    return repr(x)


def _sum(it, start=0):
    for x in it:
        start = start + x
    return start


def _str(x='', *a):
    return V.str_value(x)


def _getattr(o, n, *d):
    if isinstance(n, KTab):
        n = n.resolve()
    if isinstance(n, SStr):
        n = n.pinned('getattr')
    return getattr(o, n, *d)


def _minmax(f):
    def g(*a, key=None, **k):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not xs:
            return f(xs, **k)
        best = xs[0]
        kb = sx_c(key, best) if key else best
        for x in xs[1:]:
            kx = sx_c(key, x) if key else x
            if (kx < kb) if f is min else (kx > kb):
                best, kb = x, kx
        return best
    return g


def _fabs(x):
    return abs(SymFloat.of(x))


def _isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
    return abs(SymFloat.of(a) - b) <= max(rel_tol * max(SymFloat.of(a).mag(), SymFloat.of(b).mag()), abs_tol)


def _pow(a, b):
    return SymFloat.of(a) ** b if isinstance(a, Sym) else a ** b


def _modf(x):
    i = V.trunc_value(x).to_float() if isinstance(x, SymFloat) else x
    return x - i, i


# -- symbolic keys -----------------------------------------------------------------------
# A dictionary or set that holds symbolic keys stores them under their identity; every lookup in such a
# container compares with its keys one by one (and forks), instead of by hash.
SYMKEYED = {}


def symkey(k):
    return isinstance(k, Sym) or isinstance(k, tuple) and any(symkey(x) for x in k)


def _plain(k):
    if isinstance(k, KTab):
        return k.resolve()
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, tuple) and symkey(k):
        return tuple(_plain(x) for x in k)
    return k


def _same_key(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(_same_key(x, y) for x, y in zip(a, b))
    if isinstance(a, tuple) or isinstance(b, tuple):
        return False
    if isinstance(a, (str, SStr)) != isinstance(b, (str, SStr)):
        return False
    return bool(a == b if isinstance(a, Sym) else b == a if isinstance(b, Sym) else a == b)


def by_scan(obj, key):
    return symkey(key) or id(obj) in SYMKEYED and SYMKEYED[id(obj)] is obj


def _put(obj, key, *v):
    """Stores under a key that is not in obj."""
    if not symkey(key):
        return obj.add(key) if not v else obj.__setitem__(key, *v)
    SYMKEYED[id(obj)] = obj
    core.IDHASH += 1
    try:
        return obj.add(key) if not v else dict.__setitem__(obj, key, *v)
    finally:
        core.IDHASH -= 1


def keyed(f, *a):
    core.IDHASH += 1
    try:
        return f(*a)
    finally:
        core.IDHASH -= 1


def dict_store(obj, key, v):
    if by_scan(obj, key):
        key = _plain(key)
        ok, kk = _dict_find(obj, key)
        if not ok:
            return _put(obj, key, v)
        return keyed(dict.__setitem__, obj, kk, v)
    obj[key] = v


def sx_set(v, obj, key):
    if isinstance(obj, dict):
        dict_store(obj, key, v)
    else:
        obj[key] = v


def sx_aug(op, obj, key, v):
    sx_set(op(sx_i(obj, key), v), obj, key)


def sx_iop(op, a, b):
    return operator.iadd(a, b) if op == 'Add' else operator.ior(a, b)


def sx_del(obj, key):
    if isinstance(obj, dict) and by_scan(obj, key):
        ok, kk = _dict_find(obj, key)
        if not ok:
            raise KeyError(key)
        return keyed(dict.__delitem__, obj, kk)
    del obj[key]


def sx_dict(pairs):
    out = {}
    for k, v in pairs:
        dict_store(out, k, v)
    return out


def _dict(*a, **k):
    if len(a) == 1 and not isinstance(a[0], dict) and not hasattr(a[0], 'keys'):
        out = sx_dict(a[0])
        out.update(k)
        return out
    out = dict(*a, **k)
    if a and id(a[0]) in SYMKEYED:
        SYMKEYED[id(out)] = out
    return out


def set_add(obj, x):
    if not by_scan(obj, x):
        return obj.add(x)
    x = _plain(x)
    if not any(_same_key(x, y) for y in list(obj)):
        _put(obj, x)


def _has(xs, x):
    return any(_same_key(x, y) for y in xs)


class SxSet(set):
    """A set some of whose members are symbolic: its operators compare the members one by one."""
    __slots__ = ()

    def __and__(self, o):
        return _set([x for x in self if _has(o, x)]) if isinstance(o, (set, frozenset)) else NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        return _set(list(self) + list(o)) if isinstance(o, (set, frozenset)) else NotImplemented
    __ror__ = __or__

    def __sub__(self, o):
        return _set([x for x in self if not _has(o, x)]) if isinstance(o, (set, frozenset)) else NotImplemented

    def __rsub__(self, o):
        return _set([x for x in o if not _has(self, x)]) if isinstance(o, (set, frozenset)) else NotImplemented

    def __xor__(self, o):
        return (self - o) | (_set(o) - self) if isinstance(o, (set, frozenset)) else NotImplemented
    __rxor__ = __xor__

    def __le__(self, o):
        return all(_has(o, x) for x in self) if isinstance(o, (set, frozenset)) else NotImplemented

    def __ge__(self, o):
        return all(_has(self, x) for x in o) if isinstance(o, (set, frozenset)) else NotImplemented

    def __eq__(self, o):
        return isinstance(o, (set, frozenset)) and len(self) == len(o) and self <= o

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o):
        return self <= o and len(self) < len(o)

    def __gt__(self, o):
        return self >= o and len(self) > len(o)
    __hash__ = None

    def copy(self):
        return _set(self)

    def union(self, *os):
        return _set([x for o in (self,) + os for x in o])

    def intersection(self, *os):
        os = [list(o) for o in os]
        return _set([x for x in self if all(_has(o, x) for o in os)])

    def difference(self, *os):
        os = [list(o) for o in os]
        return _set([x for x in self if not any(_has(o, x) for o in os)])

    def symmetric_difference(self, o):
        return self ^ _set(o)

    def issubset(self, o):
        return self <= _set(o)

    def issuperset(self, o):
        return self >= _set(o)

    def isdisjoint(self, o):
        return not self & _set(o)


def _set(it=()):
    xs = list(it)
    if not any(symkey(x) for x in xs):
        return set(xs)
    out = SxSet()
    for x in xs:
        set_add(out, x)
    return out


def _frozenset(it=()):
    xs = list(it)
    return _set(xs) if any(symkey(x) for x in xs) else frozenset(xs)


def _plain_set_op(obj, name, a):
    """set.intersection and the like of a plain set with something symbolic."""
    a = [list(o) for o in a]
    if any(symkey(x) for o in a for x in o) or id(obj) in SYMKEYED:
        out = SxSet()
        for x in list(obj):
            _put(out, x)
        return getattr(out, name)(*a)
    return getattr(obj, name)(*a)


def _fromkeys(t, ks, v=None):
    out = t()
    for k in list(ks):
        dict_store(out, k, v)
    return out


def _counter(*a, **k):
    if len(a) == 1 and not isinstance(a[0], dict):
        a = (list(a[0]),)
    if len(a) == 1 and not isinstance(a[0], dict) and any(symkey(x) for x in a[0]):
        out = collections.Counter()
        for x in a[0]:
            x = _plain(x)
            ok, kk = _dict_find(out, x)
            if ok:
                keyed(dict.__setitem__, out, kk, keyed(dict.__getitem__, out, kk) + 1)
            else:
                _put(out, x, 1)
        out.update(**k)
        return out
    return collections.Counter(*a, **k)


def _ordered(*a, **k):
    if len(a) == 1 and not isinstance(a[0], dict):
        xs = list(a[0])
        if any(symkey(x) for x, _ in xs):
            return sx_dict(xs)
        a = (xs,)
    return collections.OrderedDict(*a, **k)


_SETOPS = ('union', 'intersection', 'difference', 'symmetric_difference', 'issubset', 'issuperset', 'isdisjoint')
_DESCR = type(str.upper)


INTERCEPT = {
    int: V.to_int, float: V.to_float, str: _str, len: _len, isinstance: _isinstance,
    type: lambda x, *a: proxytype(x), bool: _bool, repr: _repr, ord: _ord, chr: _chr, format: V.fmt_value,
    getattr: _getattr,
    math.sqrt: V.sqrt_value, math.floor: V.floor_value, math.ceil: lambda x: -V.floor_value(-x),
    math.trunc: V.trunc_value, math.fabs: _fabs, math.isnan: lambda x: False, math.isinf: lambda x: False,
    math.isfinite: lambda x: True, math.isclose: _isclose, math.pow: _pow, math.modf: _modf,
    math.radians: lambda x: x * (math.pi / 180), math.degrees: lambda x: x * (180 / math.pi),
    re.fullmatch: lambda p, s, flags=0: R.do('fullmatch', p, s, flags),
    re.match: lambda p, s, flags=0: R.do('match', p, s, flags),
    re.search: lambda p, s, flags=0: R.do('search', p, s, flags),
    re.sub: R.sub, re.split: R.split, re.findall: R.findall, re.finditer: R.finditer,
    re.compile: lambda p, flags=0: re.compile(p.pinned('regex') if isinstance(p, SStr) else p, flags),
}
# intercepted whether or not a direct argument is a proxy
ALWAYS = {print: _print, map: _map, sum: _sum, min: _minmax(min), max: _minmax(max), set: _set,
          frozenset: _frozenset, dict: _dict, collections.Counter: _counter,
          collections.OrderedDict: _ordered}

_PAT = ('fullmatch', 'match', 'search')


def has_sym(a, k):
    for x in a:
        if isinstance(x, Sym):
            return True
    if k:
        for x in k.values():
            if isinstance(x, Sym):
                return True
    return False


def unbound(f):
    """A method of str that C code is going to call on what may be symbolic."""
    return lambda x, *a, **k: sx_m(x, f.__name__, *a, **k)


def sx_c(f, *a, **k):
    try:
        g = ALWAYS.get(f)
    except TypeError:
        g = None
    if g is not None:
        return g(*a, **k)
    if isinstance(f, functools.partial):
        return sx_c(f.func, *f.args, *a, **dict(f.keywords, **k))
    for x in a:
        if type(x) is _DESCR:
            a = tuple(unbound(x) if type(x) is _DESCR and x.__objclass__ is str else x for x in a)
            break
    if type(f) is _DESCR and a and f.__objclass__ in (str, dict, set, frozenset):
        return sx_m(a[0], f.__name__, *a[1:], **k)
    if has_sym(a, k):
        try:
            g = INTERCEPT.get(f)
        except TypeError:
            g = None
        if g is not None:
            return g(*a, **k)
        if isinstance(f, KTab):
            f = f.resolve()
        if getattr(f, '__module__', None) == 'math':
            raise UnsupportedString('math.%s of a symbolic value' % f.__name__)
        s = getattr(f, '__self__', None)
        if s is not None and isinstance(s, (str, re.Pattern, dict)) and hasattr(f, '__name__'):
            return sx_m(s, f.__name__, *a, **k)
        if isinstance(f, type) and issubclass(f, int) and hasattr(f, '__members__'):
            x = a[0]
            if isinstance(x, KTab):
                return KTab.make(x.var, [f(v) for v in x.vals])
            return f(int(x))
    return f(*a, **k)


def _dict_find(d, key):
    """The key of d that equals the symbolic key on this path (forks), or None with False."""
    if not symkey(key):
        for kk in d:            # the same key without a comparison, if it is there
            if not symkey(kk) and type(kk) is type(key) and kk == key:
                return True, kk
    for kk in list(d):
        if (symkey(kk) or symkey(key)) and _same_key(kk, key):
            return True, kk
    return False, None


def _missing(d, key):
    """d[key] for a key that is not there."""
    if hasattr(type(d), '__missing__'):
        key = _plain(key)
        if type(d).__missing__ is collections.defaultdict.__missing__:
            if d.default_factory is None:
                raise KeyError(key)
            v = d.default_factory()
            _put(d, key, v)
            return v
        return type(d).__missing__(d, key)
    raise KeyError(key)


_MISSING = object()
SUMMARY = {}
SNAP = None


def _summarise(obj, name, s):
    """get_token_type on a token whose text depends on a kind variable: run the real method once per
    template and keep the result as a table over the kind."""
    c = cur()
    if not c.params.get('summary', True):
        return _MISSING
    ch = s.parts[0]
    key = (type(obj), name, ch.tkey)
    own = vars(obj) if hasattr(obj, '__dict__') else {}
    key += tuple((k, v) for k, v in own.items() if type(v) in (int, str, bool, float, type(None)))
    dirty = SNAP and SNAP.dirty()
    r = None if dirty else SUMMARY.get(key)
    if r is None:
        vals = []
        before = SNAP and SNAP.state(obj)
        c.no_fork += 1
        try:
            f = getattr(obj, name)
            for k in range(len(ch.templates)):
                vals.append(f(mkstr(ch.cells(k))))
        except NeedFork:
            vals = None
        finally:
            c.no_fork -= 1
        if before and SNAP.since(before):
            vals = None             # it remembers something: what it returns depends on what came before
        r = (vals, ch.templates)
        if not dirty:
            SUMMARY[key] = r
    if r[0] is None:
        return _MISSING
    vals = list(r[0])
    # group equal results so that identical kinds stay merged
    uniq = []
    for i, v in enumerate(vals):
        for u in uniq:
            if type(u) is type(v) and u == v:
                vals[i] = u
                break
        else:
            uniq.append(v)
    return KTab.make(ch.var, vals)


def sx_m(obj, name, *a, **k):
    if isinstance(obj, Sym):
        if isinstance(obj, SStr):
            if name in ('encode',):
                return obj.pinned('str.encode').encode(*a, **k)
            if hasattr(str, name):
                return V.str_method(obj, name, a, k)
        elif isinstance(obj, KTab):
            obj = obj.resolve()
            return sx_m(obj, name, *a, **k)
        return getattr(obj, name)(*a, **k)
    t = type(obj)
    if t is str:
        if name == 'join':
            xs = list(a[0])
            if has_sym(xs, None):
                return V.m_join(obj, xs)
            return obj.join(xs)
        if has_sym(a, k):
            return V.str_method(obj, name, a, k)
        return getattr(obj, name)(*a, **k)
    if isinstance(obj, dict) and a and name in ('get', 'pop', 'setdefault', '__getitem__', '__contains__',
                                                '__setitem__', '__delitem__') and by_scan(obj, a[0]):
        if name == '__setitem__':
            return dict_store(obj, *a)
        if name == '__delitem__':
            return sx_del(obj, *a)
        ok, kk = _dict_find(obj, a[0])
        if name == '__contains__':
            return ok
        if ok:
            return keyed(getattr(dict, name), obj, kk, *a[1:])
        if name == 'get':
            return a[1] if len(a) > 1 else None
        if name == 'pop' and len(a) > 1:
            return a[1]
        if name == 'setdefault':
            v = a[1] if len(a) > 1 else None
            dict_store(obj, a[0], v)
            return v
        if name == 'pop':
            raise KeyError(a[0])
        return _missing(obj, a[0])
    if isinstance(obj, dict) and name == 'update' and a:
        xs = a[0]
        if isinstance(xs, dict) and id(xs) in SYMKEYED or not hasattr(xs, 'keys'):
            for kk, v in list(xs.items() if isinstance(xs, dict) else xs):
                dict_store(obj, kk, v)
            return obj.update(**k)
    if t in (set, frozenset, SxSet) and a:
        if t is not SxSet and name in _SETOPS and not k:
            return _plain_set_op(obj, name, a)
        if name in ('add', 'discard', 'remove', '__contains__') and by_scan(obj, a[0]):
            if name == 'add':
                return set_add(obj, a[0])
            for x in list(obj):
                if _same_key(x, a[0]):
                    return True if name == '__contains__' else keyed(getattr(set if t is SxSet else t, name), obj, x)
            if name == 'remove':
                raise KeyError(a[0])
            return False if name == '__contains__' else None
        if name == 'update':
            for xs in a:
                for x in list(xs):
                    set_add(obj, x)
            return None
    if name == 'fromkeys' and isinstance(obj, type) and issubclass(obj, dict) and a:
        return _fromkeys(obj, *a)
    if obj is sys.stdout and name in ('write', 'writelines', 'flush'):
        if name != 'flush':
            _print(*(a if name == 'write' else a[0]), sep='', end='')
        return None
    if type(obj) is types.ModuleType and a:
        f = getattr(obj, name)
        for x in a:
            if type(x) is _DESCR:
                return sx_c(f, *a, **k)
    if obj is str and name != 'maketrans' and a:
        return sx_m(a[0], name, *a[1:], **k)
    if t is re.Pattern and has_sym(a, k):
        if name in _PAT:
            if len(a) > 1:
                raise UnsupportedString('pattern position arguments')
            return R.do(name, obj, *a)
        if name in ('sub', 'split', 'findall', 'finditer'):
            return getattr(R, name)(obj, *a, **k)
    if Geodesic and isinstance(obj, Geodesic) and has_sym(a, k):
        return geo(name, a, k)
    f = getattr(obj, name)
    if name == 'get_token_type' and len(a) == 1 and not k and isinstance(a[0], SStr) and len(a[0].parts) == 1 \
            and isinstance(a[0].parts[0], Choice):
        r = _summarise(obj, name, a[0])
        if r is not _MISSING:
            return r
    if has_sym(a, k) and (isinstance(obj, type(re)) or t in (list, set, frozenset, SxSet)):
        if t is list and name in ('append', 'insert', 'extend', 'pop', '__setitem__'):
            return f(*a, **k)
        return sx_c(f, *a, **k)
    if f is print or f is map or f is sum:
        return sx_c(f, *a, **k)
    return f(*a, **k)


def sx_i(obj, key):
    if isinstance(obj, KTab):
        if not isinstance(key, Sym):
            return obj._map(lambda v: v[key])
        obj = obj.resolve()
    if isinstance(obj, dict) and by_scan(obj, key):
        if isinstance(key, KTab):
            if id(obj) not in SYMKEYED and not hasattr(type(obj), '__missing__'):
                try:
                    return KTab.make(key.var, [obj[v] for v in key.vals])
                except (KeyError, TypeError):
                    pass
            key = key.resolve()
            if not by_scan(obj, key):
                return obj[key]
        ok, kk = _dict_find(obj, key)
        if ok:
            return keyed(dict.__getitem__, obj, kk)
        return _missing(obj, key)
    return obj[key]


def sx_in(a, b):
    if isinstance(b, KTab):
        b = b.resolve()
    if isinstance(b, (str, SStr)):
        if isinstance(a, Sym) or isinstance(b, Sym):
            return V.str_contains(b, a)
        return a in b
    if isinstance(b, (set, frozenset, dict)) and by_scan(b, a) and (not isinstance(a, Sym) or any(
            isinstance(x, tuple) for x in b)):
        return any(_same_key(x, a) for x in list(b))
    if isinstance(b, (tuple, list, set, frozenset, dict, type({}.keys()), type({}.values()))):
        if isinstance(a, Sym):
            return b_or(*[_eq(a, x) for x in b])
        if isinstance(b, (tuple, list)) and has_sym(b, None):
            return b_or(*[True if a is x else _eq(x, a) if isinstance(x, Sym) else a == x for x in b])
    return a in b


def _eq(a, x):
    r = a == x
    return r


def sx_notin(a, b):
    return b_not(sx_in(a, b))


def sx_is(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        if a is b:
            return True
        if not isinstance(a, Sym):
            a, b = b, a
        if isinstance(a, R.MatchProxy):
            return a.is_none() if b is None else False
        if isinstance(a, KTab):
            return a.same(b)
        if isinstance(b, KTab):
            return b.same(a)
        if isinstance(a, SymBool):
            if b is True:
                return a
            if b is False:
                return b_not(a)
            if isinstance(b, SymBool):
                return a == b
        return False
    return a is b


def sx_isnot(a, b):
    return b_not(sx_is(a, b))


def sx_fmt(v, conv, spec):
    if conv == 's':
        v = V.str_value(v)
    elif conv in ('r', 'a'):
        v = _repr(v)
    return V.fmt_value(v, spec)


def sx_cat(*parts):
    out = []
    for p in parts:
        out.extend(parts_of(p))
    return mkstr(out)


_PCT = re.compile(r'%(?:\((\w+)\))?([#0\- +]*)(\d+|\*)?(?:\.(\d+))?([a-zA-Z%])')


def sx_mod(a, b):
    if isinstance(a, str) and not isinstance(b, dict):
        args = b if isinstance(b, tuple) else (b,)
        if has_sym(args, None):
            out = []
            p = n = 0
            for m in _PCT.finditer(a):
                out.append(a[p:m.start()])
                p = m.end()
                if m.group(5) == '%':
                    out.append('%')
                    continue
                v = args[n]
                n += 1
                ty = m.group(5)
                width, prec, flags = m.group(3), m.group(4), m.group(2)
                if ty in 'di':
                    v = V.to_int(v)
                    prec = None
                spec = ('<' if '-' in flags else '>' if ty in 'sr' else '') + ('0' if '0' in flags else '') \
                    + (width or '') + ('.' + prec if prec else '')
                if ty == 's':
                    v = V.str_value(v)
                    out.append(V.fmt_value(v, spec if width or prec else ''))
                elif ty == 'r':
                    out.append(_repr(v))
                else:
                    out.append(V.fmt_value(v, spec + {'i': 'd'}.get(ty, ty)))
            out.append(a[p:])
            return sx_cat(*out)
    return a % b


# -- caches ------------------------------------------------------------------------------
def lru_cache(maxsize=128, typed=False):
    """functools.lru_cache whose keys may be symbolic: entries are found by comparison instead of by hash."""
    if callable(maxsize):
        return _cached(maxsize, 128, typed)
    return lambda f: _cached(f, maxsize, typed)


def _cached(f, maxsize, typed):
    entries = []

    def look(key):
        for i in range(len(entries)):
            k = entries[i][0]
            if len(k) == len(key) and all(x is y or (type(x) is type(y) or isinstance(x, Sym) or isinstance(y, Sym)
                                                     or not typed) and bool(x == y) for x, y in zip(k, key)):
                return i
        return None

    def wrapper(*a, **k):
        key = a + tuple(x for kv in k.items() for x in kv)
        for x in key:
            if not isinstance(x, Sym):
                hash(x)
        c = cur()
        if c is not None and c.no_fork:
            return f(*a, **k)       # a summary must not depend on what this path has seen
        i = look(key)
        if i is not None:
            e = entries.pop(i)
            entries.append(e)
            return e[1]
        r = f(*a, **k)
        if maxsize != 0:
            entries.append((key, r))
            if maxsize is not None and len(entries) > maxsize:
                entries.pop(0)
        return r

    functools.update_wrapper(wrapper, f)
    wrapper.cache_clear = entries.clear
    wrapper.cache_info = lambda: (None, None, maxsize, len(entries))
    wrapper.cache_parameters = lambda: {'maxsize': maxsize, 'typed': typed}
    return wrapper


class Functools(types.ModuleType):
    """functools for the code under test."""

    def __getattr__(self, name):
        return getattr(functools, name)


class Io(types.ModuleType):
    """io for the code under test."""

    def __getattr__(self, name):
        return getattr(io, name)


IO = Io('io')
IO.StringIO = StringIO
FUNCTOOLS = Functools('functools')
def singledispatch(f):
    g = functools.singledispatch(f)

    def wrapper(*a, **k):
        return g.dispatch(proxytype(a[0]))(*a, **k)
    functools.update_wrapper(wrapper, f)
    wrapper.register, wrapper.dispatch, wrapper.registry = g.register, g.dispatch, g.registry
    return wrapper


FUNCTOOLS.singledispatch = singledispatch
FUNCTOOLS.lru_cache = lru_cache
FUNCTOOLS.cache = lambda f: _cached(f, None, False)


# -- geodesics --------------------------------------------------------------------------
_R = z3.RealSort()
GEO = {}
for _n in ('lat2', 'lon2', 'azi2'):
    GEO['Direct', _n] = z3.Function('geo_direct_' + _n, _R, _R, _R, _R, _R)
for _n in ('azi1', 's12', 'azi2'):
    GEO['Inverse', _n] = z3.Function('geo_inverse_' + _n, _R, _R, _R, _R, _R)
RANGE = {'lat2': (-90, 90), 'lon2': (-180, 180), 'azi1': (-180, 180), 'azi2': (-180, 180), 's12': (0, 20010000)}


def geo(name, a, k):
    """The geodesic library on symbolic coordinates: uninterpreted functions of its four arguments."""
    names = {'Direct': ('lat1', 'lon1', 'azi1', 's12'), 'Inverse': ('lat1', 'lon1', 'lat2', 'lon2')}.get(name)
    if names is None:
        raise UnsupportedString('geographiclib %s on symbolic values' % name)
    vals = list(a[:4])
    for n in names[len(vals):]:
        vals.append(k[n])
    es = [SymFloat.of(v).e for v in vals]
    c = cur()
    out = dict(zip(names, vals))
    for (m, f), fn in GEO.items():
        if m == name:
            e = fn(*es)
            lo, hi = RANGE[f]
            c.assert_only(z3.And(e >= lo, e <= hi))
            out[f] = SymFloat(e, 0.0, lo, hi)
    c.geo_calls.append((name, es))
    return out


def geo_laws(calls):
    """What holds of every geodesic, to guide the search for a model that the library confirms."""
    laws = []
    for name, es in calls:
        if name == 'Inverse':
            s12, dlat = GEO['Inverse', 's12'](*es), es[0] - es[2]
            laws.append(z3.Implies(z3.And(dlat == 0, es[1] == es[3]), s12 == 0))
            laws.append(z3.And(s12 + 1 >= 110570 * dlat, s12 + 1 >= -110570 * dlat))
    return laws


def geo_facts(calls, m):
    """What the library really gives for the arguments these calls have in model m: a fact about the
    uninterpreted functions that holds in every execution (up to rounding)."""
    from geographiclib.geodesic import Geodesic
    facts = []
    for name, es in calls:
        vs = [m.eval(e, model_completion=True) for e in es]
        if not all(z3.is_rational_value(v) for v in vs):
            return None
        fl = [float(v.as_fraction()) for v in vs]
        if abs(fl[0]) > 90 or (name == 'Inverse' and abs(fl[2]) > 90):
            return None
        r = getattr(Geodesic.WGS84, name)(*fl)
        same = z3.And([e == v for e, v in zip(es, vs)])
        for (n, f), fn in GEO.items():
            if n == name:
                e = fn(*es)
                facts.append(z3.Implies(same, e == z3.RealVal(repr(r[f]))))
    return facts
