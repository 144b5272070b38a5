"""The interface property harnesses are written against; one implementation runs on proxies (symbolic), the
other on ordinary values taken from a counterexample (concrete, for the replay on the unmodified code)."""
import importlib


class AssumeFailed(BaseException):
    pass


class ConcreteViolation(BaseException):
    def __init__(self, label):
        self.label = label


class Schedules:
    """Interleavings at function entries of the code under test."""

    def entries(self, run):
        """How many functions of the code under test does run() enter?"""
        n = [0]

        def count():
            n[0] += 1
        self._watch(count)
        try:
            run()
        finally:
            self._watch(None)
        return n[0]

    def interleave(self, run, other, at):
        """run(), interrupted at its at-th function entry by all of other()."""
        n = [0]

        def step():
            n[0] += 1
            if n[0] == at:
                self._watch(None)
                other()
        self._watch(step)
        try:
            run()
        finally:
            self._watch(None)
        if n[0] < at:
            other()

    def place(self, name, n):
        """One of 1..n, by halving."""
        k = self.int(name, 1, n)
        lo, hi = 1, n
        while lo < hi:
            mid = (lo + hi) // 2
            if self.true(k <= mid):
                hi = mid
            else:
                lo = mid + 1
        return lo


class Concrete(Schedules):
    symbolic = False

    def __init__(self, inputs, params):
        self.inputs = inputs
        self.params = params
        self.trace = []
        self.violations = []
        self.notes = {}
        self.witness = set()

    # inputs
    def kind(self, name, alphabet):
        """alphabet: list of templates (tuples of characters / range tuples)"""
        k = self.inputs.get(name, 0)
        t = alphabet[k]
        out = []
        for j, x in enumerate(t):
            if isinstance(x, str):
                out.append(x)
            else:
                out.append(chr(self.inputs.get('%s_%d_%d' % (name, k, j), x[0][0])))
        s = ''.join(out)
        self.trace.append('%s=%r' % (name, s))
        return s, k

    def text(self, name, template):
        out = []
        for j, x in enumerate(template):
            if isinstance(x, str):
                out.append(x)
            else:
                out.append(chr(self.inputs.get('%s_%d' % (name, j), x[0][0])))
        s = ''.join(out)
        self.trace.append('%s=%r' % (name, s))
        self.notes.setdefault('made', []).append(s)
        return s

    def made(self, s):
        """Is s a text this harness introduced?"""
        return any(s is x for x in self.notes.get('made', ()))

    def int(self, name, lo, hi):
        v = self.inputs.get(name, lo)
        self.trace.append('%s=%r' % (name, v))
        return v

    def bool(self, name):
        v = bool(self.inputs.get(name, 0))
        self.trace.append('%s=%r' % (name, v))
        return v

    def choose(self, name, n):
        return self.int(name, 0, n - 1)

    def table(self, k, vals):
        return vals[k]

    # schedules
    def _watch(self, f):
        import sys
        from . import loader

        def profile(frame, event, arg):
            if event == 'call':
                code = frame.f_code
                if code.co_filename.startswith(loader.REPO + '/') and code.co_name[0] != '<':
                    f()
        sys.setprofile(profile if f else None)

    # conditions
    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def check(self, cond, label):
        if not cond:
            self.violations.append(label)
            raise ConcreteViolation(label)

    def soft(self, cond, label):
        self.check(cond, label)

    def true(self, cond):
        return bool(cond)

    def reach(self, label):
        self.witness.add(label)

    def both(self, *xs):
        return all(bool(x) for x in xs)

    def any(self, *xs):
        return any(bool(x) for x in xs)

    def no(self, x):
        return not x

    def implies(self, a, b):
        return not a or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def clamp(self, x, lo, hi):
        return min(max(x, lo), hi)

    def stdout(self):
        return None

    def abs_le(self, x, tol):
        return abs(x) <= tol

    def sqrt(self, x):
        import math
        return math.sqrt(x)

    def geo(self, name, *args):
        from geographiclib.geodesic import Geodesic
        return getattr(Geodesic.WGS84, name)(*args)

    def note(self, s):
        self.trace.append(s)

    def unknown_text(self, v):
        """Whether v is a text with free characters."""
        return False


def symbolic_api():
    import z3
    from . import core, values as V, rt

    class Symbolic(Schedules, core.Ctx):
        def _watch(self, f):
            rt.on_entry(f)

        def kind(self, name, alphabet):
            var = z3.Int(name)
            if len(alphabet) > 1:
                self.declare(name, var, z3.And(var >= 0, var < len(alphabet)))
            else:
                self.declare(name, var, var == 0)
            ch = V.Choice(var, name, alphabet, name)
            return V.SStr((ch,)), var

        def text(self, name, template):
            parts = []
            for j, x in enumerate(template):
                if isinstance(x, str):
                    parts.append(x)
                else:
                    parts.append(V.new_char('%s_%d' % (name, j), x))
            s = V.mkstr(parts)
            self.notes.setdefault('made', []).append(s)
            return s

        def made(self, s):
            return any(s is x for x in self.notes.get('made', ()))

        def int(self, name, lo, hi):
            v = z3.Int(name)
            cs = []
            if lo is not None:
                cs.append(v >= lo)
            if hi is not None:
                cs.append(v <= hi)
            self.declare(name, v, z3.And(cs) if cs else None)
            return V.SymInt(v, lo, hi)

        def bool(self, name):
            v = z3.Int(name)
            self.declare(name, v, z3.And(v >= 0, v <= 1))
            return V.mkbool(v == 1)

        def choose(self, name, n):
            v = z3.Int(name)
            self.declare(name, v, z3.And(v >= 0, v < n))
            return self.pick(v)

        def table(self, k, vals):
            return V.KTab.make(k, list(vals))

        def assume(self, cond):
            core.Ctx.assume(self, cond)

        def soft(self, cond, label):
            self.check(cond, label)

        def true(self, cond):
            return bool(cond)

        def both(self, *xs):
            return V.b_and(*xs)

        def any(self, *xs):
            return V.b_or(*xs)

        def no(self, x):
            return V.b_not(x)

        def implies(self, a, b):
            return V.b_implies(a, b)

        def ite(self, c, a, b):
            if isinstance(c, V.SymBool):
                if isinstance(a, (V.SymFloat, float)) or isinstance(b, (V.SymFloat, float)):
                    a, b = V.SymFloat.of(a), V.SymFloat.of(b)
                    bd = None not in (a.lo, a.hi, b.lo, b.hi)
                    return V.SymFloat(z3.If(c.e, a.e, b.e), max(a.err, b.err), min(a.lo, b.lo) if bd else None,
                                      max(a.hi, b.hi) if bd else None)
                if isinstance(a, (V.SymInt, int)) and isinstance(b, (V.SymInt, int)):
                    ea = a.e if isinstance(a, V.SymInt) else z3.IntVal(a)
                    eb = b.e if isinstance(b, V.SymInt) else z3.IntVal(b)
                    la, ha = (a.lo, a.hi) if isinstance(a, V.SymInt) else (a, a)
                    lb, hb = (b.lo, b.hi) if isinstance(b, V.SymInt) else (b, b)
                    lo = None if la is None or lb is None else min(la, lb)
                    hi = None if ha is None or hb is None else max(ha, hb)
                    return V.SymInt(z3.If(c.e, ea, eb), lo, hi)
                return a if bool(c) else b
            return a if c else b

        def clamp(self, x, lo, hi):
            if not V.is_sym(x):
                return min(max(x, lo), hi)
            if isinstance(x, V.SymInt) and isinstance(lo, int) and isinstance(hi, int):
                return V.SymInt(z3.If(x.e > hi, z3.IntVal(hi), z3.If(x.e < lo, z3.IntVal(lo), x.e)), lo, hi)
            x = V.SymFloat.of(x)
            return V.SymFloat(z3.If(x.e > V._rat(hi), V._rat(hi), z3.If(x.e < V._rat(lo), V._rat(lo), x.e)), x.err,
                              float(lo), float(hi))

        def stdout(self):
            return self.notes.get('stdout', [])

        def abs_le(self, x, tol):
            """|x| <= tol for the double, decided on the ideal value; the accumulated rounding bound of x is
            part of the tolerance the caller chose."""
            if isinstance(x, V.KTab):
                x = x.resolve()
            if isinstance(x, (int, float)):
                return abs(x) <= tol
            x = V.SymFloat.of(x)
            t = V._rat(tol)
            return V.mkbool(z3.simplify(z3.And(x.e <= t, x.e >= -t)))

        def sqrt(self, x):
            return V.sqrt_value(x)

        def geo(self, name, *args):
            from geographiclib.geodesic import Geodesic
            return rt.sx_m(Geodesic.WGS84, name, *args)

        def note(self, s):
            pass

        def unknown_text(self, v):
            return isinstance(v, V.SStr)

    return Symbolic


class H:
    """A harness: one symbolic program fn(c, **params) whose every path must satisfy its checks."""

    def __init__(self, name, fn, bounds, summary=True, **params):
        self.name, self.fn, self.bounds, self.params = name, fn, bounds, params
        self.summary = summary
        self.setup = None

    def run(self, c):
        for f in H.reset:
            f()
        if self.setup is not None:
            self.setup()
        self.fn(c, **self.params)

    reset = []
