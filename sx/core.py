"""Path-exploring symbolic execution core.

The code under test is executed by CPython itself on proxy values (values.py); whenever a
Python-level decision depends on a symbolic value `Ctx.branch` asks z3 which outcomes are
feasible under the path condition, follows one of them and queues the other.  A path is
identified by the list of its decisions, so a path is resumed by re-execution.
"""
import time
import z3

z3.set_param('smt.random_seed', 1)
z3.set_param('sat.random_seed', 1)


class Infeasible(BaseException):
    """The path condition became unsatisfiable (only raised by assume)."""


class StopPath(BaseException):
    """The harness has seen enough of this path."""


class NeedFork(BaseException):
    """A decision was needed while forking is switched off."""


class PathTimeout(BaseException):
    """The code under test did not finish on this path in the allotted time."""


class Stats:
    FIELDS = ('paths', 'decisions', 'sat_checks', 'sat_time', 'obligations', 'oblig_queries',
              'trivial', 'unknown', 'concretised', 'aborted')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def as_dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}

    def add(self, d):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + d[f])


class SolverStack:
    """A z3 solver whose assertion stack is kept in step with the current path.

    Consecutive paths of a depth-first exploration share long prefixes, expressions are
    hash-consed by z3, so only the differing suffix is popped and pushed."""

    def __init__(self, timeout_ms=20000):
        self.s = z3.Solver()
        self.s.set('timeout', timeout_ms)
        self.stack = []
        self.pos = 0

    def rewind(self):
        self.pos = 0

    def add(self, e):
        if self.pos < len(self.stack):
            if self.stack[self.pos].get_id() == e.get_id():
                self.pos += 1
                return
            self._trim()
        self.s.push()
        self.s.add(e)
        self.stack.append(e)
        self.pos += 1

    def _trim(self):
        n = len(self.stack) - self.pos
        if n > 0:
            self.s.pop(n)
            del self.stack[self.pos:]

    def check(self, *extra):
        self._trim()
        st = CUR.stats
        t = time.perf_counter()
        if extra:
            self.s.push()
            self.s.add(*extra)
        r = self.s.check()
        m = self.s.model() if r == z3.sat else None
        if extra:
            self.s.pop()
        st.sat_checks += 1
        st.sat_time += time.perf_counter() - t
        if r == z3.unknown:
            st.unknown += 1
        return r, m


CUR = None          # the Ctx of the path being executed (None in concrete mode)


IDHASH = 0      # > 0 while a container is filled with symbolic keys, which are hashed by identity
SERIALS = {}


def serial(x):
    """The identity of a value as a number that is the same every time this path is executed."""
    r = SERIALS.get(id(x))
    if r is None or r[1] is not x:
        r = SERIALS[id(x)] = (len(SERIALS) + 1, x)
    return r[0]



def set_current(c):
    global CUR
    CUR = c


def cur():
    return CUR


class Ctx:
    """One symbolic path."""
    symbolic = True

    def __init__(self, solver, prefix, stats, params=None):
        self.solver = solver
        self.prefix = prefix
        self.stats = stats
        self.decisions = []
        self.pending = []
        self.vars = {}          # name -> z3 constant
        self.model = None
        self.obligations = []   # (z3 expr, label)
        self.failures = []      # labels that are concretely false on this path
        self.incomplete = []
        self.fresh_n = 0
        self.params = params or {}
        self.notes = {}
        self.witness = set()
        self.no_fork = 0
        self.geo_calls = []
        solver.rewind()

    # -- variables ------------------------------------------------------------------
    def declare(self, name, const, constraint=None):
        if name in self.vars:
            return self.vars[name]
        self.vars[name] = const
        if constraint is not None:
            self.assert_only(constraint)
        return const

    def fresh(self, sort='Int', hint='f'):
        self.fresh_n += 1
        n = '%s!%d' % (hint, self.fresh_n)
        return z3.Int(n) if sort == 'Int' else z3.Real(n)

    # -- path condition ---------------------------------------------------------------
    def assert_only(self, e):
        """Add a constraint known to be satisfiable together with the path condition."""
        if z3.is_true(e):
            return
        self.solver.add(e)
        if self.model is not None and not z3.is_true(self.model.eval(e, model_completion=True)):
            self.model = None

    def assume(self, e):
        e = as_expr(e)
        e = z3.simplify(e)
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise Infeasible()
        i = len(self.decisions)
        if i < len(self.prefix):
            self.decisions.append(self.prefix[i])
            self.solver.add(e)
            return
        self.solver.add(e)
        if self.model is None or not z3.is_true(self.model.eval(e, model_completion=True)):
            r, m = self.solver.check()
            if r == z3.unsat:
                raise Infeasible()
            self.model = m
        self.decisions.append((True, True))

    def branch(self, e):
        if isinstance(e, bool):
            return e
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.no_fork:
            raise NeedFork()
        i = len(self.decisions)
        st = self.stats
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append(d)
            if not d[1]:
                self.solver.add(e if d[0] else z3.Not(e))
            return d[0]
        st.decisions += 1
        if self.model is None:
            r, self.model = self.solver.check()
            if r == z3.unsat:
                raise Infeasible()
        side = None
        if self.model is not None:
            v = self.model.eval(e, model_completion=True)
            if z3.is_true(v):
                side = True
            elif z3.is_false(v):
                side = False
        ne = z3.Not(e)
        if side is None:
            rt, mt = self.solver.check(e)
            if rt == z3.unsat:
                self.decisions.append((False, True))
                return False
            rf, mf = self.solver.check(ne)
            if rf == z3.unsat:
                self.decisions.append((True, True))
                return True
            self.pending.append(self.decisions + [(False, False)])
            self.decisions.append((True, False))
            self.solver.add(e)
            self.model = mt
            return True
        r, m = self.solver.check(ne if side else e)
        if r == z3.unsat:
            self.decisions.append((side, True))
            return side
        # both outcomes feasible: keep the side of the model we hold
        self.pending.append(self.decisions + [(not side, False)])
        self.decisions.append((side, False))
        self.solver.add(e if side else ne)
        return side

    def some_value(self, e):
        """A feasible value (python int) of integer expression e; deterministic on replay
        because it is recorded as a decision."""
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append(d)
            return d[0]
        if self.model is None:
            r, self.model = self.solver.check()
            if r == z3.unsat:
                raise Infeasible()
            if self.model is None:
                raise StopPath()
        v = self.model.eval(e, model_completion=True).as_long()
        self.decisions.append((v, True))
        return v

    def pick(self, e):
        """Enumerate (by forking) the values of integer expression e; returns a python int."""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        while True:
            v = self.some_value(e)
            if self.branch(e == v):
                return v

    def pin(self, e, why):
        """Replace integer expression e by one feasible value and give up on the others."""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        if self.no_fork:
            raise NeedFork()
        v = self.some_value(e)
        self.assume(e == v)
        self.stats.concretised += 1
        if why not in self.incomplete:
            self.incomplete.append(why)
        return v

    # -- obligations ------------------------------------------------------------------
    def check(self, cond, label):
        """The property requires cond on every path."""
        self.stats.obligations += 1
        if isinstance(cond, bool):
            if not cond:
                self.failures.append(label)
                raise StopPath()
            self.stats.trivial += 1
            return
        e = z3.simplify(as_expr(cond))
        if z3.is_true(e):
            self.stats.trivial += 1
            return
        self.obligations.append((e, label))

    def reach(self, label):
        self.witness.add(label)


def as_expr(c):
    if isinstance(c, bool):
        return z3.BoolVal(c)
    if z3.is_expr(c):
        return c
    e = getattr(c, 'sx_bool', None)
    if e is not None:
        return e()
    raise TypeError('not a condition: %r' % (c,))
