"""Symbolic proxy values: booleans, integers, (idealised) floats, strings, finite tables."""
import math
import re as _re
from fractions import Fraction
import z3
from . import core
from .core import cur

U = 2.0 ** -52            # unit bound used for one rounding (twice the true half-ulp bound)


class Sym:
    """Marker base class of every proxy."""
    __slots__ = ()


def is_sym(x):
    return isinstance(x, Sym)


# --------------------------------------------------------------------------------------
# booleans
# --------------------------------------------------------------------------------------
class SymBool(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def sx_bool(self):
        return self.e

    def __bool__(self):
        return cur().branch(self.e)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(self.e == o.e)
        if isinstance(o, (bool, int)):
            if o == 1:
                return self
            if o == 0:
                return mkbool(z3.Not(self.e))
            return False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return b_not(r) if r is not NotImplemented else r

    def __lt__(self, o):
        return int(bool(self)) < o

    def __gt__(self, o):
        return int(bool(self)) > o

    def __le__(self, o):
        return int(bool(self)) <= o

    def __ge__(self, o):
        return int(bool(self)) >= o

    def __and__(self, o):
        return b_and(self, o) if isinstance(o, (bool, SymBool)) else NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, o) if isinstance(o, (bool, SymBool)) else NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.Xor(self.e, core.as_expr(o)))
        return NotImplemented
    __rxor__ = __xor__

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def _num(self):
        return int(bool(self))

    def __add__(self, o):
        return self._num() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * o
    __rmul__ = __mul__

    def __deepcopy__(self, m):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return 'SymBool(%s)' % self.e


def mkbool(e):
    if isinstance(e, bool):
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def b_not(x):
    if isinstance(x, SymBool):
        return mkbool(z3.Not(x.e))
    return not x


def b_and(*xs):
    es = []
    for x in xs:
        if isinstance(x, SymBool):
            es.append(x.e)
        elif not x:
            return False
    if not es:
        return True
    return SymBool(es[0] if len(es) == 1 else z3.And(es))


def b_or(*xs):
    es = []
    for x in xs:
        if isinstance(x, SymBool):
            es.append(x.e)
        elif x:
            return True
    if not es:
        return False
    return SymBool(es[0] if len(es) == 1 else z3.Or(es))


def b_implies(a, b):
    return b_or(b_not(a), b)


# --------------------------------------------------------------------------------------
# numbers
# --------------------------------------------------------------------------------------
def _rat(x):
    return z3.RealVal(Fraction(x)) if not isinstance(x, int) else z3.RealVal(x)


class SymInt(Sym):
    """An integer; lo/hi are static bounds (None = unbounded)."""
    __slots__ = ('e', 'lo', 'hi')

    def __init__(self, e, lo=None, hi=None):
        self.e, self.lo, self.hi = e, lo, hi

    # arithmetic
    def _co(self, o):
        if isinstance(o, bool):
            return SymInt(z3.IntVal(int(o)), int(o), int(o))
        if isinstance(o, int):
            o = int(o)
            return SymInt(z3.IntVal(o), o, o)
        if isinstance(o, SymInt):
            return o
        if isinstance(o, SymBool):
            return SymInt(z3.If(o.e, z3.IntVal(1), z3.IntVal(0)), 0, 1)
        return None

    def to_float(self):
        return SymFloat(z3.ToReal(self.e), 0.0, self.lo, self.hi)

    def _bin(self, o, f, bound, refl=False):
        if isinstance(o, (float, SymFloat)):
            return None
        o = self._co(o)
        if o is None:
            return NotImplemented
        a, b = (o, self) if refl else (self, o)
        lo, hi = bound(a, b)
        return mkint(f(a.e, b.e), lo, hi)

    @staticmethod
    def _badd(a, b):
        return (None if a.lo is None or b.lo is None else a.lo + b.lo,
                None if a.hi is None or b.hi is None else a.hi + b.hi)

    @staticmethod
    def _bsub(a, b):
        return (None if a.lo is None or b.hi is None else a.lo - b.hi,
                None if a.hi is None or b.lo is None else a.hi - b.lo)

    @staticmethod
    def _bmul(a, b):
        if None in (a.lo, a.hi, b.lo, b.hi):
            return None, None
        p = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
        return min(p), max(p)

    def __add__(self, o):
        r = self._bin(o, lambda x, y: x + y, self._badd)
        return r if r is not None else self.to_float() + o

    __radd__ = __add__

    def __sub__(self, o):
        r = self._bin(o, lambda x, y: x - y, self._bsub)
        return r if r is not None else self.to_float() - o

    def __rsub__(self, o):
        r = self._bin(o, lambda x, y: x - y, self._bsub, True)
        return r if r is not None else o - self.to_float()

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * self.__index__()
        r = self._bin(o, lambda x, y: x * y, self._bmul)
        return r if r is not None else self.to_float() * o

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self.to_float() / o

    def __rtruediv__(self, o):
        return SymFloat.of(o) / self.to_float()

    def _divisor(self, o):
        if isinstance(o, SymInt):
            o = o.__index__()
        if isinstance(o, SymBool):
            o = int(o)
        return o

    def __floordiv__(self, o):
        if isinstance(o, (float, SymFloat)):
            return floor_value(self.to_float() / o).to_float()
        o = self._divisor(o)
        if o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if o < 0:
            return (-self).__floordiv__(-o)
        lo = None if self.lo is None else self.lo // o
        hi = None if self.hi is None else self.hi // o
        return mkint(self.e / z3.IntVal(o), lo, hi)

    def __mod__(self, o):
        if isinstance(o, (float, SymFloat)):
            return self.to_float() % o
        o = self._divisor(o)
        if o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if o < 0:
            return -((-self).__mod__(-o))
        return mkint(self.e % z3.IntVal(o), 0, o - 1)

    def __divmod__(self, o):
        return self.__floordiv__(o), self.__mod__(o)

    def __rfloordiv__(self, o):
        return o // self.__index__()

    def __rmod__(self, o):
        return o % self.__index__()

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return self.__index__() ** o

    def __neg__(self):
        return mkint(-self.e, None if self.hi is None else -self.hi, None if self.lo is None else -self.lo)

    def __pos__(self):
        return self

    def __abs__(self):
        hi = None if None in (self.lo, self.hi) else max(abs(self.lo), abs(self.hi))
        return mkint(z3.If(self.e >= 0, self.e, -self.e), 0, hi)

    def _cmp(self, o, f, ff):
        if isinstance(o, (float, SymFloat)):
            return ff(self.to_float(), o)
        o = self._co(o)
        if o is None:
            return NotImplemented
        return mkbool(z3.simplify(f(self.e, o.e)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)

    def __eq__(self, o):
        if isinstance(o, KTab):
            return o == self
        if not isinstance(o, (int, float, SymInt, SymFloat, SymBool)):
            return False
        return self._cmp(o, lambda a, b: a == b, lambda a, b: a == b)

    def __ne__(self, o):
        return b_not(self.__eq__(o))

    def __hash__(self):
        return core.serial(self) if core.IDHASH else hash(self.__index__())

    def __index__(self):
        return cur().pick(self.e)

    def __int__(self):
        return self.__index__()

    def __float__(self):
        return float(self.__index__())

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __bool__(self):
        return bool(mkbool(z3.simplify(self.e != 0)))

    def __deepcopy__(self, m):
        return self

    def __copy__(self):
        return self

    def __format__(self, spec):
        return format(self.__index__(), spec)

    def __str__(self):
        return str(self.__index__())

    def __repr__(self):
        return 'SymInt(%s)' % self.e


def mkint(e, lo=None, hi=None):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e, lo, hi)


class SymFloat(Sym):
    """An idealised double: `e` is the exact real value of the computed expression, `err` a bound on the
    accumulated rounding error of the double the code computes, lo/hi static bounds."""
    __slots__ = ('e', 'err', 'lo', 'hi')

    def __init__(self, e, err=0.0, lo=None, hi=None):
        self.e, self.err, self.lo, self.hi = e, err, lo, hi

    @staticmethod
    def of(o):
        if isinstance(o, SymFloat):
            return o
        if isinstance(o, SymInt):
            return o.to_float()
        if isinstance(o, SymBool):
            o = int(o)
        if isinstance(o, (int, float)):
            if isinstance(o, float) and (math.isnan(o) or math.isinf(o)):
                raise ArithmeticError('non finite float in symbolic arithmetic')
            return SymFloat(_rat(o), 0.0, o, o)
        return None

    def mag(self):
        if self.lo is None or self.hi is None:
            return 1e9
        return max(abs(float(self.lo)), abs(float(self.hi)))

    def _mk(self, e, lo, hi, err):
        r = SymFloat(z3.simplify(e), 0.0, lo, hi)
        r.err = err + r.mag() * U
        return r

    def _bin(self, o, op, refl=False):
        o = SymFloat.of(o)
        if o is None:
            return NotImplemented
        a, b = (o, self) if refl else (self, o)
        ab = None not in (a.lo, a.hi, b.lo, b.hi)
        if op == '+':
            return self._mk(a.e + b.e, a.lo + b.lo if ab else None, a.hi + b.hi if ab else None, a.err + b.err)
        if op == '-':
            return self._mk(a.e - b.e, a.lo - b.hi if ab else None, a.hi - b.lo if ab else None, a.err + b.err)
        if op == '*':
            lo = hi = None
            if ab:
                p = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
                lo, hi = min(p), max(p)
            return self._mk(a.e * b.e, lo, hi, a.err * b.mag() + b.err * a.mag() + a.err * b.err)
        if op == '/':
            if b.lo is not None and b.lo == b.hi:
                if b.lo == 0:
                    raise ZeroDivisionError('float division by zero')
            else:
                if bool(b == 0):
                    raise ZeroDivisionError('float division by zero')
            lo = hi = None
            if ab and (b.lo > 0 or b.hi < 0):
                p = [a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi]
                lo, hi = min(p), max(p)
                mb = min(abs(b.lo), abs(b.hi))
                err = (a.err + max(abs(lo), abs(hi)) * b.err) / mb * 1.01
            else:
                err = 1e-9
            return self._mk(a.e / b.e, lo, hi, err)

    def __add__(self, o):
        return self._bin(o, '+')
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, '-')

    def __rsub__(self, o):
        return self._bin(o, '-', True)

    def __mul__(self, o):
        return self._bin(o, '*')
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, '/')

    def __rtruediv__(self, o):
        return self._bin(o, '/', True)

    def __floordiv__(self, o):
        return floor_value(self / o).to_float()

    def __mod__(self, o):
        q = floor_value(self / o)
        return self - q * o

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        if o == 0.5:
            return sqrt_value(self)
        raise NotImplementedError('power of a symbolic float')

    def __neg__(self):
        return SymFloat(-self.e, self.err, None if self.hi is None else -self.hi, None if self.lo is None else -self.lo)

    def __pos__(self):
        return self

    def __abs__(self):
        hi = None if None in (self.lo, self.hi) else max(abs(self.lo), abs(self.hi))
        return SymFloat(z3.If(self.e >= 0, self.e, -self.e), self.err, 0, hi)

    def _cmp(self, o, op):
        o = SymFloat.of(o)
        if o is None:
            return NotImplemented
        err = self.err + o.err
        a, b = self.e, o.e
        f = {'<': lambda x, y: x < y, '<=': lambda x, y: x <= y, '>': lambda x, y: x > y,
             '>=': lambda x, y: x >= y, '==': lambda x, y: x == y}[op]
        e = z3.simplify(f(a, b))
        if err == 0.0 or z3.is_true(e) and False:
            return mkbool(e)
        if z3.is_true(e) or z3.is_false(e):
            return z3.is_true(e)
        # the comparison of the doubles may differ from that of the ideal values inside the error band
        band = z3.And(a - b <= _rat(err), b - a <= _rat(err))
        c = cur()
        flip = z3.Const('cmp!%d' % _next(c), z3.BoolSort())
        return mkbool(z3.simplify(z3.If(band, flip, e)))

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        if not isinstance(o, (int, float, SymInt, SymFloat, SymBool)):
            return False
        return self._cmp(o, '==')

    def __ne__(self, o):
        return b_not(self.__eq__(o))

    def __hash__(self):
        return 17

    def __bool__(self):
        return bool(self != 0)

    def __round__(self, n=None):
        if n is None or n == 0:
            r = round_half_even(self)
            return r if n is None else r.to_float()
        k = 10 ** n
        q = round_half_even(self * k)
        return q.to_float() / k

    def __floor__(self):
        return floor_value(self)

    def __ceil__(self):
        return -floor_value(-self)

    def __trunc__(self):
        return trunc_value(self)

    def is_integer(self):
        return self == floor_value(self)

    def __deepcopy__(self, m):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return 'SymFloat(%s)' % self.e


def _next(c):
    c.fresh_n += 1
    return c.fresh_n


def floor_value(x):
    if isinstance(x, int):
        return x
    if isinstance(x, float):
        return math.floor(x)
    if isinstance(x, SymInt):
        return x
    c = cur()
    lo = None if x.lo is None else math.floor(x.lo - 1e-6)
    hi = None if x.hi is None else math.floor(x.hi + 1e-6)
    n = z3.Int('floor!%d' % _next(c))
    r = z3.ToReal(n)
    err = _rat(x.err)
    cons = z3.And(r <= x.e + err, r > x.e - err - 1)
    c.assert_only(cons)
    return SymInt(n, lo, hi)


def trunc_value(x):
    if isinstance(x, (int, SymInt)):
        return x
    if isinstance(x, float):
        return int(x)
    if x.lo is not None and x.lo >= 0:
        return floor_value(x)
    if x >= 0:
        r = floor_value(SymFloat(x.e, x.err, 0, x.hi))
        return r
    return -floor_value(-x)


def round_half_even(x):
    if isinstance(x, (int, SymInt)):
        return x
    c = cur()
    n = z3.Int('round!%d' % _next(c))
    r = z3.ToReal(n)
    err = _rat(x.err)
    half = _rat(0.5)
    cons = z3.And(r <= x.e + half + err, r >= x.e - half - err)
    if x.err == 0.0:
        cons = z3.And(cons, z3.Implies(z3.Or(x.e - r == half, r - x.e == half), n % 2 == 0))
    c.assert_only(cons)
    lo = None if x.lo is None else math.floor(x.lo - 1)
    hi = None if x.hi is None else math.ceil(x.hi + 1)
    return SymInt(n, lo, hi)


_SQRT = z3.Function('sqrt', z3.RealSort(), z3.RealSort())


def sqrt_value(x):
    """Square root of a symbolic value: an uninterpreted function with the linear facts that bound it
    (range and the Lipschitz / monotonicity relation with every other root taken on the path)."""
    if isinstance(x, (int, float)):
        return math.sqrt(x)
    x = SymFloat.of(x)
    if x < 0:
        raise ValueError('math domain error')
    c = cur()
    lo = 0.0 if x.lo is None else max(0.0, float(x.lo))
    hi = 1e12 if x.hi is None else float(x.hi)
    if lo == 0.0 or hi > 4 * lo:
        # the path condition may bound the argument better than interval arithmetic did
        key = ('sqrtrange', x.e.get_id())
        r = c.notes.get(key)
        if r is None:
            for p in (0.75, 0.5, 0.1, 0.01, 1e-6):
                if p <= lo or c.solver.check(x.e < _rat(p))[0] == z3.unsat:
                    lo = max(lo, p)
                    break
            for p in (1.1, 2.0, 10.0, 1e3, 1e6):
                if p >= hi or c.solver.check(x.e > _rat(p))[0] == z3.unsat:
                    hi = min(hi, p)
                    break
            c.notes[key] = (lo, hi)
        else:
            lo, hi = r
    s = _SQRT(x.e)
    slo, shi = math.sqrt(lo) * (1 - 1e-12), math.sqrt(hi) * (1 + 1e-12)
    facts = [s >= _rat(slo), s <= _rat(shi)]
    roots = c.notes.setdefault('sqrt', [])
    if not any(e.eq(x.e) for e, _ in roots):
        for e, l in roots:
            m = min(l, lo)
            o = _SQRT(e)
            facts.append(z3.Implies(x.e <= e, s <= o))
            facts.append(z3.Implies(e <= x.e, o <= s))
            if m > 0:
                k = _rat(1.0 / (2 * math.sqrt(m)) * (1 + 1e-9))
                facts.append(z3.If(x.e >= e, s - o <= k * (x.e - e), o - s <= k * (e - x.e)))
        # tangent / chord facts tie the value to the argument: s*s == x
        if hi > lo and lo > 0:
            for i in range(9):
                p = lo + (hi - lo) * i / 8
                r = math.sqrt(p)
                facts.append(s <= _rat(r * (1 + 1e-14)) + (x.e - _rat(p)) * _rat(1 / (2 * r)) + _rat(1e-12))
                if i < 8:
                    p2 = lo + (hi - lo) * (i + 1) / 8
                    r2 = math.sqrt(p2)
                    facts.append(z3.Implies(z3.And(x.e >= _rat(p), x.e <= _rat(p2)),
                                            s >= _rat(r) + (x.e - _rat(p)) * _rat((r2 - r) / (p2 - p)) - _rat(1e-9)))
        roots.append((x.e, lo))
        c.assert_only(z3.And(facts))
    err = x.err / (2 * math.sqrt(lo)) * 1.01 if lo > 0 else math.sqrt(x.err) if x.err else 0.0
    r = SymFloat(s, 0.0, slo, shi)
    r.err = err + r.mag() * U
    return r


# --------------------------------------------------------------------------------------
# finite tables over a kind variable
# --------------------------------------------------------------------------------------
_in_cache = {}


def in_set(var, vals):
    """z3 condition var in vals (ints)."""
    vals = sorted(vals)
    key = (var.get_id(), tuple(vals))
    r = _in_cache.get(key)
    if r is not None:
        return r[0]
    parts = []
    i = 0
    while i < len(vals):
        j = i
        while j + 1 < len(vals) and vals[j + 1] == vals[j] + 1:
            j += 1
        if i == j:
            parts.append(var == vals[i])
        else:
            parts.append(z3.And(var >= vals[i], var <= vals[j]))
        i = j + 1
    e = z3.BoolVal(False) if not parts else parts[0] if len(parts) == 1 else z3.Or(parts)
    _in_cache[key] = (e, var)
    return e


class KTab(Sym):
    """The value vals[k] for a kind variable k (domain 0..len(vals)-1)."""
    __slots__ = ('var', 'vals')

    def __init__(self, var, vals):
        self.var, self.vals = var, tuple(vals)

    @staticmethod
    def make(var, vals):
        v0 = vals[0]
        if all(v is v0 for v in vals):
            return v0
        return KTab(var, vals)

    def where(self, pred):
        try:
            ks = [k for k, v in enumerate(self.vals) if pred(v)]
        except TypeError:
            return bool(pred(self.resolve()))
        if not ks:
            return False
        if len(ks) == len(self.vals):
            return True
        return mkbool(in_set(self.var, ks))

    def resolve(self):
        """Fork over the distinct values."""
        seen = []
        for v in self.vals:
            if not any(v is w or (type(v) is type(w) and v == w) for w in seen):
                seen.append(v)
        for v in seen[:-1]:
            if self.where(lambda w: w is v or (type(v) is type(w) and v == w)):
                return v
        return seen[-1]

    def __eq__(self, o):
        if isinstance(o, KTab):
            if o.var.eq(self.var) and len(o.vals) == len(self.vals):
                ks = [k for k in range(len(self.vals)) if self.vals[k] == o.vals[k]]
                if len(ks) == len(self.vals):
                    return True
                return mkbool(in_set(self.var, ks)) if ks else False
            out = []
            for v in set(self.vals):
                a = self.where(lambda w: w == v)
                b = o.where(lambda w: w == v)
                out.append(b_and(a, b))
            return b_or(*out)
        if is_sym(o):
            if isinstance(o, (SymInt, SymFloat)):
                return self.resolve() == o
            return self.resolve() == o
        return self.where(lambda v: v == o)

    def __ne__(self, o):
        return b_not(self.__eq__(o))

    def same(self, o):
        """identity test"""
        if isinstance(o, KTab):
            return self == o
        return self.where(lambda v: v is o or (v == o and type(v) is type(o)))

    def _c(self, o, f):
        if is_sym(o):
            return f(self.resolve(), o)
        return self.where(lambda v: f(v, o))

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def _map(self, f):
        try:
            return KTab.make(self.var, [f(v) for v in self.vals])
        except Exception:
            # some (infeasible) kinds do not support the operation
            return f(self.resolve())

    def __add__(self, o):
        return self._map(lambda v: v + o) if not is_sym(o) else self.resolve() + o

    def __radd__(self, o):
        return self._map(lambda v: o + v) if not is_sym(o) else o + self.resolve()

    def __sub__(self, o):
        return self._map(lambda v: v - o) if not is_sym(o) else self.resolve() - o

    def __rsub__(self, o):
        return self._map(lambda v: o - v) if not is_sym(o) else o - self.resolve()

    def __mul__(self, o):
        return self._map(lambda v: v * o) if not is_sym(o) else self.resolve() * o
    __rmul__ = __mul__

    def __hash__(self):
        return hash(self.resolve())

    def __index__(self):
        return int(self.resolve())

    def __int__(self):
        return int(self.resolve())

    def __bool__(self):
        r = self.where(bool)
        return bool(r)

    def __format__(self, spec):
        return format(self.resolve(), spec)

    def __str__(self):
        return str(self.resolve())

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.resolve(), name)

    def __call__(self, *a, **k):
        return self.resolve()(*a, **k)

    def __getitem__(self, i):
        if isinstance(i, Sym):
            return self.resolve()[i]
        return self._map(lambda v: v[i])

    def __iter__(self):
        return iter(self.resolve())

    def __len__(self):
        return len(self.resolve())

    def __deepcopy__(self, m):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return 'KTab(%s,%r)' % (self.var, self.vals)


# --------------------------------------------------------------------------------------
# characters
# --------------------------------------------------------------------------------------
FULL = ((0, 0xD7FF), (0xE000, 0x10FFFF))


def rnorm(rs):
    rs = sorted(rs)
    out = []
    for a, b in rs:
        if out and a <= out[-1][1] + 1:
            if b > out[-1][1]:
                out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return tuple(out)


def rinter(x, y):
    out = []
    for a, b in x:
        for c, d in y:
            l, h = max(a, c), min(b, d)
            if l <= h:
                out.append((l, h))
    return rnorm(out)


def rcompl(x):
    out = []
    p = 0
    for a, b in rnorm(x):
        if a > p:
            out.append((p, a - 1))
        p = b + 1
    if p <= 0x10FFFF:
        out.append((p, 0x10FFFF))
    return tuple(out)


def rof(s):
    return rnorm([(ord(ch), ord(ch)) for ch in s])


class CharCell:
    """One symbolic character; `ranges` is its static domain (also asserted in the solver)."""
    __slots__ = ('e', 'ranges')

    def __init__(self, e, ranges):
        self.e, self.ranges = e, ranges

    def inside(self, rs):
        """condition: the character lies in the (normalised) ranges rs"""
        i = rinter(self.ranges, rs)
        if not i:
            return False
        if i == self.ranges:
            return True
        n = rinter(self.ranges, rcompl(rs))
        if len(n) < len(i):
            return b_not(mkbool(_range_expr(self.e, n)))
        return mkbool(_range_expr(self.e, i))

    def __repr__(self):
        return '<%s>' % self.e


def _range_expr(e, rs):
    ps = [e == a if a == b else z3.And(e >= a, e <= b) for a, b in rs]
    return ps[0] if len(ps) == 1 else z3.Or(ps)


def cell_in(c, rs):
    if isinstance(c, str):
        o = ord(c)
        return any(a <= o <= b for a, b in rs)
    return c.inside(rs)


def cell_eq(a, b):
    if isinstance(a, str):
        if isinstance(b, str):
            return a == b
        a, b = b, a
    if isinstance(b, str):
        o = ord(b)
        return a.inside(((o, o),))
    if a.e.get_id() == b.e.get_id():
        return True
    if not rinter(a.ranges, b.ranges):
        return False
    return mkbool(a.e == b.e)


_chars = {}


def new_char(name, ranges):
    k = (name, ranges)
    r = _chars.get(k)
    if r is None:
        v = z3.Int(name)
        r = _chars[k] = (v, z3.And(v >= 0, _range_expr(v, ranges)))
        if len(_chars) > 100000:
            _chars.clear()
    cur().declare(name, r[0], r[1])
    return CharCell(r[0], ranges)


# --------------------------------------------------------------------------------------
# strings
# --------------------------------------------------------------------------------------
_interned = {}
_interned_by_id = {}


def intern_templates(ts):
    """One canonical tuple (and number) per set of templates."""
    r = _interned_by_id.get(id(ts))
    if r is not None and r[0] is ts:
        return r[1], r[2]
    t = tuple(tuple(x) for x in ts)
    n = _interned.get(t)
    if n is None:
        n = _interned[t] = (t, len(_interned))
    if len(_interned_by_id) < 5000:
        _interned_by_id[id(ts)] = (ts, n[0], n[1])
    return n


class Choice:
    """A string part whose text depends on a kind variable: templates[k] is a tuple of cells
    (one-character strings or range tuples, the latter standing for a symbolic character)."""
    __slots__ = ('var', 'name', 'templates', 'pfx', 'cellcache', 'minlen', 'lens', 'tkey')

    def __init__(self, var, name, templates, pfx):
        templates, self.tkey = intern_templates(templates)
        self.var, self.name, self.templates, self.pfx = var, name, templates, pfx
        self.cellcache = {}
        self.lens = [len(t) for t in templates]
        self.minlen = min(self.lens)

    def cells(self, k):
        r = self.cellcache.get(k)
        if r is None:
            c = cur()
            r = []
            for j, t in enumerate(self.templates[k]):
                if isinstance(t, str):
                    r.append(t)
                else:
                    n = '%s_%d_%d' % (self.pfx, k, j)
                    r.append(new_char(n, t))
            r = tuple(r)
            self.cellcache[k] = r
        return r

    def __repr__(self):
        return '{%s}' % self.name


class Opaque:
    """Text produced by formatting a symbolic number: unknown digits, known to contain only
    characters of `chars` and to be non-empty."""
    __slots__ = ('value', 'spec', 'conv')

    def __init__(self, value, spec, conv=''):
        self.value, self.spec, self.conv = value, spec, conv

    def __repr__(self):
        return '{num:%s}' % self.spec


class UnsupportedString(Exception):
    pass


def parts_of(x):
    if isinstance(x, SStr):
        return x.parts
    if isinstance(x, str):
        return (x,) if x else ()
    raise TypeError('not a string: %r' % (x,))


def mkstr(parts):
    """Normalise; returns a plain str when nothing is symbolic."""
    out = []
    for p in parts:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SStr(tuple(out))


class SStr(Sym):
    __slots__ = ('parts', '_cells')

    def __init__(self, parts):
        self.parts = parts
        self._cells = None

    # -- structure ------------------------------------------------------------------
    def cells(self):
        """Flatten to a tuple of cells, forking over the kinds of the choice parts."""
        if self._cells is not None and self._cells[0] is cur():
            return self._cells[1]
        out = []
        for p in self.parts:
            if isinstance(p, str):
                out.extend(p)
            elif isinstance(p, CharCell):
                out.append(p)
            elif isinstance(p, Choice):
                k = resolve_kind(p)
                out.extend(p.cells(k))
            else:
                out.extend(concretise_opaque(p))
        self._cells = (cur(), tuple(out))
        return self._cells[1]

    def fixed(self):
        return all(isinstance(p, (str, CharCell)) for p in self.parts)

    def minlen(self):
        n = 0
        for p in self.parts:
            n += len(p) if isinstance(p, str) else p.minlen if isinstance(p, Choice) else 1
        return n

    def length(self):
        n = 0
        tab = None
        for p in self.parts:
            if isinstance(p, str):
                n += len(p)
            elif isinstance(p, CharCell):
                n += 1
            elif isinstance(p, Choice) and tab is None:
                tab = KTab.make(p.var, p.lens)
                if not isinstance(tab, KTab):
                    n += tab
                    tab = None
            else:
                return len(self.cells())
        return n if tab is None else tab + n

    def pinned(self, why):
        """One concrete instance of this string (other instances are given up on)."""
        c = cur()
        out = []
        for p in self.cells():
            if isinstance(p, str):
                out.append(p)
            else:
                out.append(chr(c.pin(p.e, why)))
        return ''.join(out)

    # -- comparison -----------------------------------------------------------------
    def __eq__(self, o):
        if not isinstance(o, (str, SStr)):
            if isinstance(o, KTab):
                return self == o.resolve()
            return False
        return str_eq(self, o)

    def __ne__(self, o):
        return b_not(self.__eq__(o))

    def __lt__(self, o):
        return str_lt(self, o)

    def __gt__(self, o):
        return str_lt(o, self)

    def __le__(self, o):
        return b_not(str_lt(o, self))

    def __ge__(self, o):
        return b_not(str_lt(self, o))

    def __hash__(self):
        return core.serial(self) if core.IDHASH else hash(self.pinned('string used as a hash key'))

    def __bool__(self):
        if self.minlen() > 0:
            return True
        return len(self.cells()) > 0

    def __len__(self):
        return len(self.cells())

    def __iter__(self):
        return iter([cellstr(c) for c in self.cells()])

    def __add__(self, o):
        if isinstance(o, (str, SStr)):
            return mkstr(self.parts + parts_of(o))
        if isinstance(o, KTab):
            return self + o.resolve()
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (str, SStr)):
            return mkstr(parts_of(o) + self.parts)
        return NotImplemented

    def __mul__(self, n):
        return mkstr(self.parts * int(n))
    __rmul__ = __mul__

    def __getitem__(self, i):
        if isinstance(i, slice):
            cs = self.cells()
            f = lambda v: None if v is None else int(v)
            return mkstr(cs[f(i.start):f(i.stop):f(i.step)])
        cs = self.cells()
        return cellstr(cs[int(i)])

    def __contains__(self, o):
        return bool(str_contains(self, o))

    def __format__(self, spec):
        raise TypeError('native format of a symbolic string')

    def __str__(self):
        return self.pinned('native str() of a symbolic string')

    def __deepcopy__(self, m):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return 'SStr%r' % (self.parts,)

    def __mod__(self, a):
        return self.pinned('% formatting with symbolic template') % a

    # -- methods --------------------------------------------------------------------
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        f = STR_METHODS.get(name)
        if f is not None:
            return lambda *a, **k: f(self, *a, **k)
        if hasattr(str, name):
            s = self.pinned('str.%s' % name)
            return getattr(s, name)
        raise AttributeError("'str' object has no attribute %r" % name)


def cellstr(c):
    return c if isinstance(c, str) else SStr((c,))


def resolve_kind(p):
    c = cur()
    key = ('kind', p.var.get_id())
    r = c.notes.get(key)
    if r is None:
        r = c.pick(p.var)
        c.notes[key] = r
    return r


def digit_cells(c, e):
    """The decimal digits of the non-negative integer expression e; splits on their number."""
    n = 1
    while n < 19 and not bool(mkbool(z3.simplify(e < 10 ** n))):
        n += 1
    cells = []
    total = z3.IntVal(0)
    for i in range(n):
        d = c.fresh('Int', 'digit')
        c.solver.add(z3.And(d >= 48, d <= 57))
        total = total * 10 + (d - 48)
        cells.append(CharCell(d, ((48, 57),)))
    c.solver.add(total == e)
    c.model = None
    return cells


def number_text(p):
    """Characters of a formatted symbolic number, or None when the format is not understood."""
    v, spec = p.value, p.spec
    m = _SPEC.match(spec) if spec else None
    width, fill, align = 0, ' ', '>'
    ty, prec = '', None
    if spec:
        if not m or m.group(3):
            return None
        ty, prec = m.group(8) or '', m.group(7)
        if m.group(5):
            width = int(m.group(5))
        align = m.group(2) or '>'
        fill = m.group(1) or ('0' if m.group(4) else ' ')
        if align == '=':
            return None
    c = cur()
    if isinstance(v, SymInt) and ty in ('', 'd') and prec is None:
        k, neg, n = v.e, v.lo is None or v.lo < 0, 0
    elif isinstance(v, (SymInt, SymFloat)) and ty == 'f':
        n = 6 if prec is None else int(prec)
        f = SymFloat.of(v)
        k = c.fresh('Int', 'rounded')
        x = f.e * 10 ** n
        tol = _rat(0.5 + f.err * 10 ** n * 1.01)
        c.solver.add(z3.And(z3.ToReal(k) - x <= tol, x - z3.ToReal(k) <= tol))
        c.model = None
        v, neg = f, f.lo is None or f.lo < 0
    else:
        return None
    sign = ''
    if neg and bool(mkbool(z3.simplify(v.e < 0))):
        sign = '-'
        k = z3.If(k < 0, -k, k)
    if sign and fill == '0' and align == '>' and width:
        return None
    cells = digit_cells(c, k)
    while len(cells) <= n:
        cells.insert(0, '0')
    if n:
        cells.insert(len(cells) - n, '.')
    s = mkstr([sign] + cells)
    if width:
        s = _just(s, width, fill, align)
    return s if isinstance(s, str) else list(s.parts)


def concretise_opaque(p):
    c = cur()
    v = p.value
    if isinstance(v, (SymInt, SymFloat)):
        key = ('text', v.e.get_id(), p.spec)
        r = c.notes.get(key)
        if r is None:
            t = number_text(p)
            r = c.notes[key] = (v, t)
        if r[1] is not None:
            out = []
            for x in r[1]:
                out.extend(x if isinstance(x, str) else [x])
            return out
    if isinstance(v, SymInt):
        v = c.pin(v.e, 'text of a symbolic number inspected')
        return format(v, p.spec) if p.spec else str(v)
    if isinstance(v, SymFloat):
        v = 0.0
        note = 'text of a symbolic float inspected'
        if note not in c.incomplete:
            c.incomplete.append(note)
        raise core.StopPath()
    return format(v, p.spec)


def _same_part(a, b):
    if a is b:
        return True
    if isinstance(a, CharCell) and isinstance(b, CharCell):
        return a.e.get_id() == b.e.get_id()
    if isinstance(a, Choice) and isinstance(b, Choice):
        return a.var.get_id() == b.var.get_id() and a.templates is b.templates
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return a.value is b.value and a.spec == b.spec
    return isinstance(a, str) and isinstance(b, str) and a == b


def str_eq(x, y):
    if x is y:
        return True
    if isinstance(x, str) and isinstance(y, str):
        return x == y
    px, py = list(parts_of(x)), list(parts_of(y))
    # strip common prefix / suffix
    while px and py:
        a, b = px[0], py[0]
        if isinstance(a, str) and isinstance(b, str):
            n = min(len(a), len(b))
            if a[:n] != b[:n]:
                return False
            px[0], py[0] = a[n:], b[n:]
            if not px[0]:
                px.pop(0)
            if not py[0]:
                py.pop(0)
        elif _same_part(a, b):
            px.pop(0)
            py.pop(0)
        else:
            break
    while px and py:
        a, b = px[-1], py[-1]
        if isinstance(a, str) and isinstance(b, str):
            n = min(len(a), len(b))
            if a[len(a) - n:] != b[len(b) - n:]:
                return False
            px[-1], py[-1] = a[:len(a) - n], b[:len(b) - n]
            if not px[-1]:
                px.pop()
            if not py[-1]:
                py.pop()
        elif _same_part(a, b):
            px.pop()
            py.pop()
        else:
            break
    if not px and not py:
        return True
    x, y = mkstr(px), mkstr(py)
    if not px or not py:
        z = y if not px else x
        if isinstance(z, str):
            return z == ''
        if z.minlen() > 0:
            return False
        return len(z.cells()) == 0
    # a single choice against fixed text: a condition over the kind
    for u, v in ((x, y), (y, x)):
        if isinstance(u, SStr) and len(u.parts) == 1 and isinstance(u.parts[0], Choice):
            ch = u.parts[0]
            if isinstance(v, str) or v.fixed():
                vc = tuple(v) if isinstance(v, str) else v.cells()
                conds = []
                for k in range(len(ch.templates)):
                    if len(ch.templates[k]) != len(vc):
                        continue
                    if not _template_may_eq(ch.templates[k], vc):
                        continue
                    conds.append(b_and(mkbool(ch.var == k),
                                       *[cell_eq(a, b) for a, b in zip(ch.cells(k), vc)]))
                return b_or(*conds)
            if len(v.parts) == 1 and isinstance(v.parts[0], Choice):
                c2 = v.parts[0]
                conds = []
                for k in range(len(ch.templates)):
                    for k2 in range(len(c2.templates)):
                        if len(ch.templates[k]) != len(c2.templates[k2]):
                            continue
                        if not _template_may_eq(ch.templates[k], c2.templates[k2]):
                            continue
                        conds.append(b_and(mkbool(ch.var == k), mkbool(c2.var == k2),
                                           *[cell_eq(a, b) for a, b in zip(ch.cells(k), c2.cells(k2))]))
                return b_or(*conds)
    cx = tuple(x) if isinstance(x, str) else x.cells()
    cy = tuple(y) if isinstance(y, str) else y.cells()
    if len(cx) != len(cy):
        return False
    return b_and(*[cell_eq(a, b) for a, b in zip(cx, cy)])


def _rng(t):
    if isinstance(t, str):
        return ((ord(t), ord(t)),)
    if isinstance(t, CharCell):
        return t.ranges
    return t


def _template_may_eq(t, cs):
    return all(rinter(_rng(a), _rng(b)) for a, b in zip(t, cs))


def cell_lt(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a < b
    if isinstance(b, str):
        return a.inside(((0, ord(b) - 1),)) if b != '\0' else False
    if isinstance(a, str):
        return b.inside(((ord(a) + 1, 0x10FFFF),))
    return mkbool(z3.simplify(a.e < b.e))


def str_lt(x, y):
    cx = tuple(x) if isinstance(x, str) else x.cells()
    cy = tuple(y) if isinstance(y, str) else y.cells()
    # lexicographic
    res = len(cx) < len(cy)
    for a, b in reversed(list(zip(cx, cy))):
        res = b_or(cell_lt(a, b), b_and(cell_eq(a, b), res))
    return res


def str_contains(hay, needle):
    """needle in hay"""
    if isinstance(needle, KTab):
        needle = needle.resolve()
    if isinstance(hay, str) and isinstance(needle, str):
        return needle in hay
    if isinstance(needle, SStr) and len(needle.parts) == 1 and isinstance(needle.parts[0], CharCell) \
            and isinstance(hay, str):
        if not hay:
            return False
        return needle.parts[0].inside(rof(hay))
    if isinstance(hay, str) and isinstance(needle, SStr) and len(needle.parts) == 1 \
            and isinstance(needle.parts[0], Choice) and len(hay) <= 40:
        subs = {hay[i:j] for i in range(len(hay)) for j in range(i + 1, len(hay) + 1)}
        lens = set(needle.parts[0].lens)
        return b_or(*[str_eq(needle, s) for s in subs if len(s) in lens])
    ch = tuple(hay) if isinstance(hay, str) else hay.cells()
    cn = tuple(needle) if isinstance(needle, str) else needle.cells()
    if len(cn) > len(ch):
        return False
    return b_or(*[b_and(*[cell_eq(a, b) for a, b in zip(ch[i:], cn)]) for i in range(len(ch) - len(cn) + 1)])


def _cells(x):
    return tuple(x) if isinstance(x, str) else x.cells()


_pred_cache = {}


def pred_ranges(name):
    """Code points for which str.<name>() is true on the one-character string."""
    r = _pred_cache.get(name)
    if r is None:
        f = getattr(str, name)
        out = []
        start = None
        for o in range(0x110000):
            t = f(chr(o))
            if t and start is None:
                start = o
            elif not t and start is not None:
                out.append((start, o - 1))
                start = None
        if start is not None:
            out.append((start, 0x10FFFF))
        r = _pred_cache[name] = tuple(out)
    return r


def _all_pred(name):
    def m(s):
        if len(s.parts) == 1 and isinstance(s.parts[0], Choice):
            ch = s.parts[0]
            out = []
            for k, t in enumerate(ch.templates):
                if len(t) == 0:
                    continue
                cs = ch.cells(k)
                out.append(b_and(mkbool(ch.var == k), *[cell_in(c, pred_ranges(name)) for c in cs]))
            return b_or(*out)
        cs = s.cells()
        if not cs:
            return name == 'isascii'
        return b_and(*[cell_in(c, pred_ranges(name)) for c in cs])
    return m


def m_startswith(s, p, *rest):
    if rest:
        return m_startswith(s[rest[0]:(rest[1] if len(rest) > 1 else None)], p)
    if isinstance(p, tuple):
        return b_or(*[m_startswith(s, q) for q in p])
    cp = _cells(p)
    if isinstance(s, SStr) and len(s.parts) == 1 and isinstance(s.parts[0], Choice):
        ch = s.parts[0]
        out = []
        for k, t in enumerate(ch.templates):
            if len(t) < len(cp) or not _template_may_eq(t[:len(cp)], cp):
                continue
            out.append(b_and(mkbool(ch.var == k), *[cell_eq(a, b) for a, b in zip(ch.cells(k), cp)]))
        return b_or(*out)
    cs = _cells(s)
    if len(cp) > len(cs):
        return False
    return b_and(*[cell_eq(a, b) for a, b in zip(cs, cp)])


def m_endswith(s, p, *rest):
    if rest:
        return m_endswith(s[rest[0]:(rest[1] if len(rest) > 1 else None)], p)
    if isinstance(p, tuple):
        return b_or(*[m_endswith(s, q) for q in p])
    cp = _cells(p)
    if isinstance(s, SStr) and len(s.parts) == 1 and isinstance(s.parts[0], Choice):
        ch = s.parts[0]
        out = []
        for k, t in enumerate(ch.templates):
            if len(t) < len(cp) or not _template_may_eq(t[len(t) - len(cp):], cp):
                continue
            cs = ch.cells(k)
            out.append(b_and(mkbool(ch.var == k), *[cell_eq(a, b) for a, b in zip(cs[len(cs) - len(cp):], cp)]))
        return b_or(*out)
    cs = _cells(s)
    if len(cp) > len(cs):
        return False
    return b_and(*[cell_eq(a, b) for a, b in zip(cs[len(cs) - len(cp):], cp)])


def _may_contain(parts, pat):
    """Could a fixed pattern of length one occur inside non-text parts?"""
    for p in parts:
        if isinstance(p, Choice):
            o = ((ord(pat), ord(pat)),)
            if any(rinter(_rng(t), o) for tt in p.templates for t in tt):
                return True
        elif isinstance(p, CharCell):
            if rinter(p.ranges, ((ord(pat), ord(pat)),)):
                return True
        elif isinstance(p, Opaque):
            if pat in '0123456789.+-einfa ':
                return True
    return False


def m_replace(s, old, new, count=-1):
    if isinstance(s, str) and isinstance(old, str):
        # concrete text, symbolic replacement
        if old == '':
            raise UnsupportedString('replace of empty pattern')
        chunks = s.split(old) if count < 0 else s.split(old, count)
        out = []
        for i, c in enumerate(chunks):
            if i:
                out.extend(parts_of(new))
            out.append(c)
        return mkstr(out)
    if isinstance(old, str) and len(old) == 1 and count < 0 and not isinstance(s, str) and \
            not _may_contain(s.parts, old):
        out = []
        for p in s.parts:
            if isinstance(p, str):
                out.extend(parts_of(m_replace(p, old, new, count)))
            else:
                out.append(p)
        return mkstr(out)
    cs = _cells(s)
    co = _cells(old)
    if not co:
        raise UnsupportedString('replace of empty pattern')
    out = []
    i = 0
    n = 0
    while i < len(cs):
        if i + len(co) <= len(cs) and (count < 0 or n < count):
            c = b_and(*[cell_eq(a, b) for a, b in zip(cs[i:], co)])
            if c:
                out.extend(parts_of(new))
                i += len(co)
                n += 1
                continue
        out.append(cs[i])
        i += 1
    return mkstr(out)


def m_translate(s, table):
    if not isinstance(table, dict) or any(type(k) is not int for k in table):
        raise UnsupportedString('translate')
    hot = rnorm([(k, k) for k in table])

    def one(c):
        if isinstance(c, str):
            return c.translate(table)
        for k, v in table.items():
            if cell_eq(c, chr(k)):
                return '' if v is None else chr(v) if isinstance(v, int) else v
        return c
    parts = s.parts if isinstance(s, SStr) else [s]
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p.translate(table))
        elif isinstance(p, CharCell):
            r = one(p) if rinter(p.ranges, hot) else p
            out.append(r)
        elif isinstance(p, Choice) and all(not rinter(_rng(c), hot) for t in p.templates for c in t):
            out.append(p)
        elif isinstance(p, Opaque) and not any(_may_contain([p], chr(k)) for k in table):
            out.append(p)
        else:
            out.extend(one(c) for c in _cells(mkstr([p])))
    return mkstr(out)


def _strip(s, chars, left, right):
    if isinstance(s, SStr) and len(s.parts) > 0 and chars is not None and isinstance(chars, str):
        def edge_safe(p):
            rs = rof(chars) if chars else ()
            if isinstance(p, str):
                return None
            if isinstance(p, CharCell):
                return not rinter(p.ranges, rs)
            if isinstance(p, Choice):
                return p.minlen > 0 and all(not rinter(_rng(t[0]), rs) and not rinter(_rng(t[-1]), rs)
                                            for t in p.templates)
            return False
        parts = list(s.parts)
        ok = True
        if left:
            if isinstance(parts[0], str):
                q = parts[0].lstrip(chars)
                if q or (len(parts) > 1 and edge_safe(parts[1])):
                    parts[0] = q
                else:
                    ok = False
            elif not edge_safe(parts[0]):
                ok = False
        if right and ok:
            if isinstance(parts[-1], str):
                q = parts[-1].rstrip(chars)
                if q or (len(parts) > 1 and edge_safe(parts[-2])):
                    parts[-1] = q
                else:
                    ok = False
            elif not edge_safe(parts[-1]):
                ok = False
        if ok:
            return mkstr(parts)
    cs = list(_cells(s))
    rs = pred_ranges('isspace') if chars is None else None
    cc = None if chars is None else _cells(chars)

    def inset(c):
        if rs is not None:
            return cell_in(c, rs)
        return b_or(*[cell_eq(c, x) for x in cc])
    if left:
        while cs and inset(cs[0]):
            cs.pop(0)
    if right:
        while cs and inset(cs[-1]):
            cs.pop()
    return mkstr(cs)


def m_find(s, sub, start=0, end=None):
    cs = _cells(s)
    sb = _cells(sub)
    end = len(cs) if end is None else end
    start, end, _ = slice(start, end).indices(len(cs))
    for i in range(start, end - len(sb) + 1):
        if b_and(*[cell_eq(a, b) for a, b in zip(cs[i:], sb)]):
            return i
    return -1


def m_rfind(s, sub, start=0, end=None):
    cs = _cells(s)
    sb = _cells(sub)
    start, end, _ = slice(start, end).indices(len(cs))
    for i in range(end - len(sb), start - 1, -1):
        if b_and(*[cell_eq(a, b) for a, b in zip(cs[i:], sb)]):
            return i
    return -1


def m_index(s, sub, *a):
    r = m_find(s, sub, *a)
    if r < 0:
        raise ValueError('substring not found')
    return r


def m_count(s, sub, start=0, end=None):
    cs = _cells(s)[start:end]
    sb = _cells(sub)
    if not sb:
        raise UnsupportedString('count of the empty string')
    n = i = 0
    while i + len(sb) <= len(cs):
        if b_and(*[cell_eq(a, b) for a, b in zip(cs[i:], sb)]):
            n += 1
            i += len(sb)
        else:
            i += 1
    return n


def m_split(s, sep=None, maxsplit=-1):
    cs = _cells(s)
    out = []
    curp = []
    if sep is None:
        rs = pred_ranges('isspace')
        i = 0
        while i < len(cs):
            if cell_in(cs[i], rs) if isinstance(cs[i], str) else bool(cell_in(cs[i], rs)):
                if curp:
                    out.append(mkstr(curp))
                    curp = []
            else:
                if not curp and maxsplit >= 0 and len(out) == maxsplit:
                    rest = _strip(mkstr(cs[i:]), None, False, True)
                    out.append(rest)
                    return out
                curp.append(cs[i])
            i += 1
        if curp:
            out.append(mkstr(curp))
        return out
    sb = _cells(sep)
    if not sb:
        raise ValueError('empty separator')
    i = 0
    while i < len(cs):
        if i + len(sb) <= len(cs) and (maxsplit < 0 or len(out) < maxsplit) and \
                b_and(*[cell_eq(a, b) for a, b in zip(cs[i:], sb)]):
            out.append(mkstr(curp))
            curp = []
            i += len(sb)
        else:
            curp.append(cs[i])
            i += 1
    out.append(mkstr(curp))
    return out


def m_join(sep, items):
    out = []
    for i, it in enumerate(items):
        if i:
            out.extend(parts_of(sep))
        if isinstance(it, KTab):
            it = it.resolve()
        if not isinstance(it, (str, SStr)):
            raise TypeError('sequence item %d: expected str instance, %s found' % (i, type(it).__name__))
        out.extend(parts_of(it))
    return mkstr(out)


def _case(name):
    f = getattr(str, name)

    def m(s):
        out = []
        for c in _cells(s):
            if isinstance(c, str):
                out.append(f(c))
                continue
            asc = rinter(c.ranges, ((0, 127),))
            if asc == c.ranges:
                lo, hi, d = (97, 122, -32) if name == 'upper' else (65, 90, 32)
                t = c.inside(((lo, hi),))
                if t is False:
                    out.append(c)
                elif t:
                    out.append(CharCell(z3.simplify(c.e + d), rnorm([(max(a, lo) + d, min(b, hi) + d)
                                                                    for a, b in rinter(c.ranges, ((lo, hi),))])))
                else:
                    out.append(CharCell(c.e, rinter(c.ranges, rcompl(((lo, hi),)))))
            else:
                out.append(f(chr(cur().pin(c.e, 'str.%s of a non-ASCII character' % name))))
        return mkstr(out)
    return m


def m_swapcase(s):
    out = []
    for x in s.cells():
        up = cell_in(x, ((65, 90),))
        if isinstance(x, str) or not rinter(x.ranges, ((128, 0x10FFFF),)):
            out.extend(parts_of(STR_METHODS['lower' if up else 'upper'](SStr((x,))) if not isinstance(x, str)
                                else x.swapcase()))
        else:
            out.append(chr(cur().pin(x.e, 'str.swapcase')).swapcase())
    return mkstr(out)


def m_capitalize(s):
    return STR_METHODS['upper'](s[:1]) + STR_METHODS['lower'](s[1:]) if len(_cells(s)) else s


def repr_str(s):
    """repr(): quoted as it stands unless a character is escaped or a quote (forks on that)."""
    odd = rnorm(list(rcompl(pred_ranges('isprintable'))) + [(34, 34), (39, 39), (92, 92)])
    cs = []
    for p in s.parts:
        if isinstance(p, Choice) and all(not rinter(_rng(c), odd) for t in p.templates for c in t) or \
                isinstance(p, Opaque):
            continue
        cs.extend(_cells(mkstr([p])))
    if b_or(*[cell_in(c, odd) for c in cs]):
        return repr(s.pinned('repr of a character that is escaped'))
    return mkstr(("'",) + s.parts + ("'",))


def m_isupper(s):
    up, lo = pred_ranges('isupper'), pred_ranges('islower')
    cs = s.cells()
    return b_and(b_or(*[cell_in(c, up) for c in cs]), *[b_not(cell_in(c, lo)) for c in cs])


def m_islower(s):
    up, lo = pred_ranges('isupper'), pred_ranges('islower')
    cs = s.cells()
    return b_and(b_or(*[cell_in(c, lo) for c in cs]), *[b_not(cell_in(c, up)) for c in cs])


def _just(s, width, fill, mode):
    n = s.length() if isinstance(s, SStr) else len(s)
    if isinstance(n, KTab):
        n = n.resolve()
    pad = int(width) - n
    if pad <= 0:
        return s
    if mode == '<':
        return s + fill * pad
    if mode == '>':
        return fill * pad + s
    return fill * (pad // 2) + s + fill * (pad - pad // 2)


def m_partition(s, sep):
    i = m_find(s, sep)
    if i < 0:
        return s, '', ''
    return s[:i], sep, s[i + len(_cells(sep)):]


def m_rpartition(s, sep):
    i = m_rfind(s, sep)
    if i < 0:
        return '', '', s
    return s[:i], sep, s[i + len(_cells(sep)):]


def m_removeprefix(s, p):
    return s[len(_cells(p)):] if m_startswith(s, p) else s


def m_removesuffix(s, p):
    return s[:len(_cells(s)) - len(_cells(p))] if m_endswith(s, p) else s


def m_zfill(s, w):
    if len(_cells(s)) and b_or(cell_eq(_cells(s)[0], '+'), cell_eq(_cells(s)[0], '-')):
        return s[0] + _just(s[1:], w - 1, '0', '>')
    return _just(s, w, '0', '>')


def m_rsplit(s, sep=None, maxsplit=-1):
    if maxsplit < 0:
        return m_split(s, sep)
    if sep is None:
        raise UnsupportedString('rsplit at white space')
    out = []
    while maxsplit > 0:
        i = m_rfind(s, sep)
        if i < 0:
            break
        out.insert(0, s[i + len(_cells(sep)):])
        s = s[:i]
        maxsplit -= 1
    return [s] + out


LINES = rnorm([(10, 13), (28, 30), (0x85, 0x85), (0x2028, 0x2029)])


def m_splitlines(s, keepends=False):
    out, line, cr = [], [], False
    for x in _cells(s):
        if cr and cell_eq(x, '\n'):
            cr = False
            if keepends:
                out[-1] = out[-1] + cellstr(x)
            continue
        cr = False
        if cell_in(x, LINES):
            cr = bool(cell_eq(x, '\r'))
            out.append(mkstr(line + [x] if keepends else line))
            line = []
        else:
            line.append(x)
    if line:
        out.append(mkstr(line))
    return out


STR_METHODS = {
    'startswith': m_startswith, 'endswith': m_endswith, 'replace': m_replace,
    'strip': lambda s, c=None: _strip(s, c, True, True),
    'lstrip': lambda s, c=None: _strip(s, c, True, False),
    'rstrip': lambda s, c=None: _strip(s, c, False, True),
    'find': m_find, 'rfind': m_rfind, 'index': m_index, 'count': m_count, 'split': m_split, 'join': m_join,
    'upper': _case('upper'), 'lower': _case('lower'), 'casefold': _case('casefold'), 'swapcase': m_swapcase,
    'capitalize': m_capitalize,
    'isupper': m_isupper, 'islower': m_islower,
    'partition': m_partition, 'rpartition': m_rpartition,
    'removeprefix': m_removeprefix, 'removesuffix': m_removesuffix,
    'ljust': lambda s, w, f=' ': _just(s, w, f, '<'), 'rjust': lambda s, w, f=' ': _just(s, w, f, '>'),
    'center': lambda s, w, f=' ': _just(s, w, f, '^'),
    'zfill': m_zfill, 'rsplit': m_rsplit, 'splitlines': m_splitlines, 'translate': m_translate,
}
for _n in ('isdigit', 'isalpha', 'isalnum', 'isdecimal', 'isnumeric', 'isspace', 'isascii', 'isprintable'):
    STR_METHODS[_n] = _all_pred(_n)


def str_method(recv, name, args, kw):
    """A str method call where receiver or an argument is symbolic."""
    if name == 'format':
        return str_format(recv, args, kw)
    f = STR_METHODS.get(name)
    args = tuple(a.resolve() if isinstance(a, KTab) else a for a in args)
    if f is None:
        if isinstance(recv, SStr):
            recv = recv.pinned('str.%s' % name)
        args = [a.pinned('str.%s argument' % name) if isinstance(a, SStr) else a for a in args]
        return getattr(recv, name)(*args, **kw)
    if isinstance(recv, str) and name not in ('join', 'replace', 'startswith', 'endswith', 'find', 'rfind', 'index',
                                             'count', 'split', 'removeprefix', 'removesuffix', 'partition',
                                             'rpartition', 'strip', 'lstrip', 'rstrip'):
        args = [a.pinned('str.%s argument' % name) if isinstance(a, SStr) else int(a) if isinstance(a, SymInt) else a
                for a in args]
        return getattr(recv, name)(*args, **kw)
    return f(recv, *args, **kw)


# -- formatting -------------------------------------------------------------------------
_SPEC = _re.compile(r'(?:(.)?([<>^=]))?([+\- ])?#?(0)?(\d+)?([,_])?(?:\.(\d+))?([a-zA-Z%])?$')


def fmt_value(v, spec=''):
    if isinstance(v, KTab):
        return format(v.resolve(), spec)
    if isinstance(v, SymBool):
        return format(bool(v), spec)
    if isinstance(v, SStr):
        if not spec:
            return v
        m = _SPEC.match(spec)
        if not m or m.group(8) not in (None, 's') or m.group(3) or m.group(2) == '=':
            return format('', spec)      # raises exactly as python would
        if m.group(7):
            v = v[:int(m.group(7))]
            if isinstance(v, str):
                return format(v, spec)
        if m.group(5):
            fill = m.group(1) or ('0' if m.group(4) else ' ')
            return _just(v, int(m.group(5)), fill, m.group(2) or '<')
        return v
    if isinstance(v, SymInt):
        format(0, spec)                  # validate the spec
        return SStr((Opaque(v, spec),))
    if isinstance(v, SymFloat):
        format(0.5, spec)
        return SStr((Opaque(v, spec),))
    return format(v, spec)


def str_value(v):
    if isinstance(v, (SStr, str)):
        return v
    if isinstance(v, KTab):
        return str(v.resolve())
    if isinstance(v, SymBool):
        return str(bool(v))
    if isinstance(v, (SymInt, SymFloat)):
        return SStr((Opaque(v, ''),))
    return str(v)


def marked(tmpl):
    """A template with every symbolic part that holds no brace replaced by a private character (forks on braces)."""
    out, back = [], {}

    def hide(p):
        m = chr(0x10E000 + len(back))
        back[m] = p
        out.append(m)
    for p in tmpl.parts:
        if isinstance(p, str):
            out.append(p)
        elif not _may_contain([p], '{') and not _may_contain([p], '}'):
            hide(p)
        else:
            for x in _cells(mkstr([p])):
                if isinstance(x, str):
                    out.append(x)
                elif cell_eq(x, '{'):
                    out.append('{')
                elif cell_eq(x, '}'):
                    out.append('}')
                else:
                    hide(x)
    return ''.join(out), back


def str_format(tmpl, args, kw):
    import string as _string
    back = {}
    if isinstance(tmpl, SStr):
        tmpl, back = marked(tmpl)
    out = []
    auto = 0
    for lit, field, spec, conv in _string.Formatter().parse(tmpl):
        if lit:
            out.extend(back.get(x, x) for x in lit) if back else out.append(lit)
        if field is None:
            continue
        if back and any(x in back for x in field + (spec or '') + (conv or '')):
            raise UnsupportedString('format with a symbolic field')
        first = _re.match(r'[^.\[]*', field).group(0)
        rest = field[len(first):]
        if first == '':
            v = args[auto]
            auto += 1
        elif first.isdigit():
            v = args[int(first)]
        else:
            v = kw[first]
        for a, b in _re.findall(r'\.([^.\[]+)|\[([^\]]+)\]', rest):
            v = getattr(v, a) if a else v[int(b) if b.isdigit() else b]
        if conv == 's':
            v = str_value(v)
        elif conv in ('r', 'a'):
            v = repr(v)
        if spec and '{' in spec:
            spec = str_format(spec, args[auto:], kw)
        out.extend(parts_of(fmt_value(v, spec or '')))
    return mkstr(out)


# -- conversions ------------------------------------------------------------------------
DIGITS = ((48, 57),)


def digits_of(s):
    """(cells, True) when every character is an ASCII digit on this path (forks)."""
    cs = s.cells()
    if cs and b_and(*[cell_in(c, DIGITS) for c in cs]):
        return cs
    return None


PLUS, MINUS, UNDER, POINT = (((ord(c), ord(c)),) for c in '+-_.')
EXP = rnorm([(ord(c), ord(c)) for c in 'eEnNiI'])


def literal_text(x, point):
    """The characters of a number as int() and float() read them: the sign (1, -1), the digits before and
    after the point; None when the text is no number, and False when only CPython can say (forks)."""
    cs = list(_cells(str_method(x, 'strip', (), {})))
    sign = 1
    if cs and cell_in(cs[0], MINUS):
        sign = -1
        cs.pop(0)
    elif cs and cell_in(cs[0], PLUS):
        cs.pop(0)
    parts = [[], []]
    cur_ = parts[0]
    last = ''
    foreign = rnorm([r for r in pred_ranges('isdecimal') if r[0] > 127])
    for c in cs:
        if cell_in(c, DIGITS):
            cur_.append(c)
            last = 'd'
        elif last == 'd' and cell_in(c, UNDER):
            last = '_'
        elif point and cur_ is parts[0] and last != '_' and cell_in(c, POINT):
            cur_ = parts[1]
            last = '.'
        elif cell_in(c, foreign) or point and cell_in(c, EXP):
            return False
        else:
            return None
    if last == '_' or not parts[0] and not parts[1]:
        return None
    return sign, parts[0], parts[1]


def to_int(x, *base):
    if isinstance(x, SStr):
        if base and base[0] != 10:
            return int(x.pinned('int() with a base'), *base)
        cs = digits_of(x)
        if cs is None:
            r = literal_text(x, False)
            if r is None:
                raise ValueError('invalid literal for int() with base 10')
            if r is False:
                return int(x.pinned('int() of text with digits that are not ASCII'))
            v = to_int(mkstr(r[1]))
            return -v if r[0] < 0 else v
        e = None
        lo = hi = 0
        n = len(cs)
        const = 0
        terms = []
        for i, c in enumerate(cs):
            w = 10 ** (n - 1 - i)
            if isinstance(c, str):
                const += w * int(c)
                lo += w * int(c)
                hi += w * int(c)
            else:
                terms.append(w * (c.e - 48))
                a, b = rinter(c.ranges, DIGITS)[0][0], rinter(c.ranges, DIGITS)[-1][1]
                lo += w * (a - 48)
                hi += w * (b - 48)
        e = z3.Sum(terms + [z3.IntVal(const)])
        return mkint(e, lo, hi)
    if isinstance(x, SymFloat):
        return trunc_value(x)
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return mkint(z3.If(x.e, z3.IntVal(1), z3.IntVal(0)), 0, 1)
    if isinstance(x, KTab):
        return int(x.resolve())
    return int(x, *base)


def to_float(x):
    if isinstance(x, SStr):
        cs = digits_of(x)
        if cs is None:
            r = literal_text(x, True)
            if r is None:
                raise ValueError('could not convert string to float')
            if r is False:
                return float(x.pinned('float() of text that is not plain'))
            v = to_float(to_int(mkstr(r[1] + r[2])))
            v = v / float(10 ** len(r[2])) if r[2] else v
            return -v if r[0] < 0 else v
        r = to_int(x)
        return r.to_float() if isinstance(r, SymInt) else float(r)
    if isinstance(x, SymInt):
        return x.to_float()
    if isinstance(x, SymFloat):
        return x
    if isinstance(x, KTab):
        return float(x.resolve())
    if isinstance(x, SymBool):
        return float(bool(x))
    return float(x)
