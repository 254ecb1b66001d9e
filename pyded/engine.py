"""Core of the verifier: path exploration, solver, symbolic values.

A harness (a contract) is an ordinary Python function.  `Engine.explore`
re-executes it from the start once per path; every branch on a symbolic value
is decided by `Engine.decide`, which asks z3 which sides are feasible and
queues the other one.  `Engine.prove` is an obligation: it must be valid under
the path condition.
"""

import math
import numbers
import time
from fractions import Fraction

import z3


class DedControl(BaseException):
    """Base of the control-flow signals of the verifier (never caught by `except Exception`)."""


class PathEnd(DedControl):
    pass


class Restart(DedControl):
    pass


class Unsupported(DedControl):
    """The code left the subset the verifier understands."""


class Effect(Unsupported):
    """a test or value over a symbolic run changes something (the path is lost)"""


class NoFork(DedControl):
    pass


ENG = None  # the active engine (None in concrete mode)


def eng():
    if ENG is None:
        raise RuntimeError("no active engine")
    return ENG


# --------------------------------------------------------------------------
# symbolic values


def to_frac(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    if isinstance(x, float):
        return Fraction(x)
    # numpy scalars
    if hasattr(x, "item"):
        return to_frac(x.item())
    raise TypeError(type(x))


def is_pynum(x):
    if isinstance(x, (SymNum, SymBool)):
        return False
    if isinstance(x, (bool, int, float, Fraction)):
        return True
    return type(x).__module__ == "numpy" and hasattr(x, "item") and isinstance(
        x, numbers.Number
    )


def lift(x):
    """Python/symbolic number -> z3 arithmetic expression."""
    if isinstance(x, SymNum):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if is_pynum(x):
        if isinstance(x, float) and (math.isinf(x) or math.isnan(x)):
            raise Unsupported("infinite/nan constant in arithmetic")
        f = to_frac(x)
        if f.denominator == 1 and isinstance(x, (int, bool)):
            return z3.IntVal(f.numerator)
        return z3.RealVal(f"{f.numerator}/{f.denominator}")
    raise TypeError(f"cannot lift {type(x)}")


def coerce(a, b):
    if a.is_int() and b.is_int():
        return a, b
    if a.is_int():
        a = z3.ToReal(a)
    if b.is_int():
        b = z3.ToReal(b)
    return a, b


def as_real(e):
    return z3.ToReal(e) if e.is_int() else e


class Sym:
    __ded_leaf__ = True


class SymBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return eng().decide(self.e)

    def __and__(self, o):
        return SymBool(z3.And(self.e, boolx(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.e, boolx(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.e, boolx(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(self.e == boolx(o))
        if o is None:
            return False
        raise Unsupported("SymBool == " + str(type(o)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else SymBool(z3.Not(r.e))

    def __hash__(self):
        return hash(bool(self))

    # as a number: 0 or 1, decided on this path
    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))

    def __mul__(self, o):
        return int(bool(self)) * o

    __rmul__ = __mul__

    def __repr__(self):
        return f"SymBool({self.e})"


def boolx(x):
    """truth value -> z3 Bool, without forking when possible."""
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if z3.is_expr(x) and z3.is_bool(x):
        return x
    if type(x).__name__ in ("bool_", "bool"):
        return z3.BoolVal(bool(x))
    return z3.BoolVal(bool(x))


class SymNum(Sym):
    # shape: for the length of a sequence (minus `cut`), the segments counted
    __slots__ = ("e", "shape", "cut")

    def __init__(self, e):
        self.e = e

    # arithmetic ----------------------------------------------------------
    def _bin(self, o, f):
        try:
            b = lift(o)
        except TypeError:
            return NotImplemented
        a, b = coerce(self.e, b)
        return SymNum(f(a, b))

    def _rbin(self, o, f):
        try:
            b = lift(o)
        except TypeError:
            return NotImplemented
        a, b = coerce(self.e, b)
        return SymNum(f(b, a))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._rbin(o, lambda a, b: a + b)

    def __sub__(self, o):
        r = self._bin(o, lambda a, b: a - b)
        segs = getattr(self, "shape", None)
        if segs is not None and type(o) is int and 0 < o <= 3:
            r.shape, r.cut = segs, self.cut + o
        return r

    def __rsub__(self, o):
        return self._rbin(o, lambda a, b: a - b)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._rbin(o, lambda a, b: a * b)

    @staticmethod
    def _div(a, b):
        if eng().decide(b == 0):
            raise ZeroDivisionError("division by zero")
        return as_real(a) / as_real(b)

    def __truediv__(self, o):
        return self._bin(o, self._div)

    def __rtruediv__(self, o):
        return self._rbin(o, self._div)

    @staticmethod
    def _fdiv(a, b):
        if eng().decide(b == 0):
            raise ZeroDivisionError("division by zero")
        return z3.ToReal(z3.ToInt(as_real(a) / as_real(b)))

    def __floordiv__(self, o):
        return self._bin(o, self._fdiv)

    def __mod__(self, o):
        if self.e.is_int() and isinstance(o, int) and o > 0:
            return SymNum(self.e % o)
        return self._bin(o, lambda a, b: as_real(a) - as_real(b) * self._fdiv(a, b))

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 6:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        raise Unsupported("power")

    def __neg__(self):
        return SymNum(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymNum(z3.If(self.e >= 0, self.e, -self.e))

    # comparisons -----------------------------------------------------------
    def _cmp(self, o, f, inf=None):
        if isinstance(o, float) and math.isinf(o):
            return f(z3.IntVal(0), z3.IntVal(1 if o > 0 else -1)) if False else SymBool(
                z3.simplify(f(z3.RealVal(0), z3.RealVal(1 if o > 0 else -1)))
            )
        if isinstance(o, float) and math.isnan(o):
            return False
        try:
            b = lift(o)
        except TypeError:
            return NotImplemented
        a, b = coerce(self.e, b)
        return SymBool(f(a, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __bool__(self):
        return eng().decide(self.e != 0)

    def __hash__(self):
        if eng().hash_ok:
            return 0x5EED
        raise Unsupported("hash of a symbolic number")

    def __float__(self):
        raise Unsupported("float() of a symbolic number in native code")

    def __int__(self):
        raise Unsupported("int() of a symbolic number in native code")

    def __index__(self):
        raise Unsupported("index() of a symbolic number in native code")

    def __round__(self, n=None):
        # uninterpreted rounding within half a unit of the last digit
        return eng().sym_round(self, n)

    def __repr__(self):
        return f"<{self.e}>"

    __str__ = __repr__

    def __format__(self, spec):
        return f"<{self.e}>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


numbers.Number.register(SymNum)


class SymStr(Sym):
    """symbolic string (z3 sequence)"""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @staticmethod
    def _l(o):
        if isinstance(o, SymStr):
            return o.e
        if isinstance(o, str):
            return z3.StringVal(o)
        return None

    def __eq__(self, o):
        x = self._l(o)
        return False if x is None else SymBool(self.e == x)

    def __ne__(self, o):
        x = self._l(o)
        return True if x is None else SymBool(self.e != x)

    def __add__(self, o):
        x = self._l(o)
        return NotImplemented if x is None else SymStr(z3.Concat(self.e, x))

    def __radd__(self, o):
        x = self._l(o)
        return NotImplemented if x is None else SymStr(z3.Concat(x, self.e))

    def endswith(self, s):
        return SymBool(z3.SuffixOf(self._l(s), self.e))

    def startswith(self, s):
        return SymBool(z3.PrefixOf(self._l(s), self.e))

    def __contains__(self, s):
        return bool(SymBool(z3.Contains(self.e, self._l(s))))

    def __bool__(self):
        return eng().decide(self.e != z3.StringVal(""))

    def __hash__(self):
        if eng().hash_ok:
            return 0x57A
        raise Unsupported("hash of a symbolic string")

    def __repr__(self):
        return f"<str {self.e}>"

    __str__ = __repr__

    def __format__(self, spec):
        return f"<str {self.e}>"

    def __deepcopy__(self, memo):
        return self


class Poison:
    """A value the verifier abstracted away: any use of it is unsupported."""

    __ded_leaf__ = True

    def __init__(self, why):
        object.__setattr__(self, "_why", why)

    def _bad(self, *a, **k):
        raise Unsupported("use of abstracted value: " + object.__getattribute__(self, "_why"))

    def __getattr__(self, k):
        if k.startswith("__ded") or k in ("__class__",):
            raise AttributeError(k)
        raise Unsupported(
            "use of abstracted value: " + object.__getattribute__(self, "_why") + "." + k
        )

    __bool__ = __iter__ = __call__ = __len__ = __getitem__ = _bad
    __setitem__ = __delitem__ = __contains__ = _bad
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _bad
    __truediv__ = __rtruediv__ = __neg__ = _bad
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __hash__ = _bad


# --------------------------------------------------------------------------


class Failure:
    def __init__(self, name, model, decisions, abstract, detail):
        self.name = name
        self.model = model
        self.decisions = decisions
        self.abstract = abstract
        self.detail = detail

    def as_dict(self):
        return dict(
            name=self.name,
            model=self.model,
            abstract=self.abstract,
            detail=self.detail,
        )


class Engine:
    __ded_leaf__ = True

    def __init__(self, name, solver_timeout_ms=8000, max_paths=6000, budget_s=120):
        self.name = name
        self.solver_timeout_ms = solver_timeout_ms
        self.max_paths = max_paths
        self.budget_s = budget_s
        self.persist = {}
        self.hash_ok = False
        self.loop_limit = 6
        self.reset_results()
        self.z3_time = 0.0
        self.z3_calls = 0
        self.restarts = 0
        self.loops_seen = {}

    def reset_results(self):
        self.obl = {}  # name -> [total, discharged, undecided]
        self.failures = []
        self.undecided = []
        self.paths = 0
        self.completed_paths = 0
        self.reached = set()
        self.inv_checks = 0
        self.used_assumptions = {}

    # -- exploration ---------------------------------------------------------
    def explore(self, fn):
        global ENG
        t0 = time.time()
        self.t0 = t0
        ENG = self
        try:
            while True:
                try:
                    self._explore_once(fn)
                    break
                except Restart:
                    self.restarts += 1
                    if self.restarts > 400:
                        raise Unsupported("too many invariant-inference restarts")
                    self.reset_results()
                    continue
        finally:
            ENG = None
            self.wall = time.time() - t0

    def _explore_once(self, fn):
        work = [[]]
        refused, left = None, 60
        while work:
            if refused is not None:
                # the rest may show that a loop has to be looked at again
                left -= 1
                if left < 0:
                    raise refused
            if time.time() - self.t0 > self.budget_s:
                raise Unsupported(f"time budget {self.budget_s}s exhausted")
            if self.paths >= self.max_paths:
                raise Unsupported(f"more than {self.max_paths} paths")
            self.prefix = work.pop()
            self.work = work
            self._start_path()
            self.paths += 1
            try:
                fn()
                self.completed_paths += 1
            except PathEnd:
                pass
            except Unsupported as ex:
                if refused is None:
                    refused = ex
                if not self.loops_here:
                    raise
        if refused is not None:
            raise refused

    def _start_path(self):
        self.trace = []
        self.solver = z3.Solver()
        self.solver.set("timeout", self.solver_timeout_ms)
        self.names = {}
        self.live_idx = []
        self.loops_here = False
        self.occurs = {}
        self.inputs = {}  # name -> (kind, z3 expr or python value)
        self.nofork = 0
        self.abstract = False
        self.loop_stack = []
        self.roots = {}
        self.invariants = []
        self.psums = []
        self.dirty = {}
        self.uid = 0

    def next_uid(self):
        self.uid += 1
        return self.uid

    # -- solver ---------------------------------------------------------------
    def add(self, c):
        self.solver.add(c)

    def check(self, *cs):
        t = time.time()
        r = self.solver.check(*cs)
        self.z3_time += time.time() - t
        self.z3_calls += 1
        return r

    def feasible(self, c):
        return self.check(c) != z3.unsat

    def valid(self, c):
        """True iff c is entailed by the path condition (unknown -> False)."""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        return self.check(z3.Not(c)) == z3.unsat

    def decide(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.nofork:
            if self.check(z3.Not(c)) == z3.unsat:
                return True
            if self.check(c) == z3.unsat:
                return False
            raise NoFork()
        pos = len(self.trace)
        if pos < len(self.prefix):
            v = self.prefix[pos]
            self.trace.append(v)
            self.add(c if v else z3.Not(c))
            return v
        ft = self.feasible(c)
        ff = self.feasible(z3.Not(c))
        if ft and ff:
            self.work.append(self.trace + [False])
            v = True
        elif ft:
            v = True
        elif ff:
            v = False
        else:
            raise PathEnd("infeasible")
        self.trace.append(v)
        self.add(c if v else z3.Not(c))
        return v

    def choose(self, n, name=None):
        """n-way nondeterministic choice."""
        if self.nofork:
            raise NoFork()
        pos = len(self.trace)
        if pos < len(self.prefix):
            v = self.prefix[pos]
        else:
            v = 0
            for k in range(n - 1, 0, -1):
                self.work.append(self.trace + [k])
        self.trace.append(v)
        return v

    def spec_eval(self, fn):
        """Evaluate fn without forking; returns (ok, value)."""
        self.nofork += 1
        try:
            return True, fn()
        except NoFork:
            return False, None
        finally:
            self.nofork -= 1

    # -- symbols ---------------------------------------------------------------
    def uname(self, base):
        k = self.names.get(base, 0)
        self.names[base] = k + 1
        return base if k == 0 else f"{base}!{k}"

    def fresh_real(self, base):
        return SymNum(z3.Real(self.uname(base)))

    def fresh_int(self, base):
        return SymNum(z3.Int(self.uname(base)))

    def fresh_bool(self, base):
        return SymBool(z3.Bool(self.uname(base)))

    def sym_round(self, x, n):
        import functools

        nd = n or 0
        f = z3.Function(f"round{nd}", z3.RealSort(), z3.RealSort())
        r = f(as_real(x.e))
        half = z3.RealVal(Fraction(1, 2) / (Fraction(10) ** nd))
        self.add(r - as_real(x.e) <= half)
        self.add(as_real(x.e) - r <= half)
        small = z3.And(as_real(x.e) < half, as_real(x.e) > -half)
        self.add(z3.Implies(small, r == 0))
        return SymNum(r)

    # -- obligations -------------------------------------------------------------
    def assume(self, c):
        c = boolx(c)
        self.add(c)
        if z3.is_false(z3.simplify(c)):
            raise PathEnd("assume false")

    def assume_feasible(self, c):
        self.assume(c)
        if not self.feasible(z3.BoolVal(True)):
            raise PathEnd("infeasible")

    def prove(self, name, c, detail=None):
        self.reached.add(name)
        rec = self.obl.setdefault(name, [0, 0, 0])
        rec[0] += 1
        c = boolx(c)
        s = z3.simplify(c)
        if z3.is_true(s):
            rec[1] += 1
            return True
        r = self.check(z3.Not(c))
        if r == z3.unknown:
            r = self.second_opinion(z3.Not(c))
        if r == z3.unsat:
            rec[1] += 1
            return True
        if r == z3.unknown:
            rec[2] += 1
            self.undecided.append(name)
        else:
            m = self.nice_model(z3.Not(c))
            if m is None:
                rec[2] += 1
                self.undecided.append(name)
            else:
                self.failures.append(
                    Failure(name, m, list(self.trace), self.abstract, detail)
                )
        self.add(c)
        if not self.feasible(z3.BoolVal(True)):
            raise PathEnd("after failure")
        return False

    def second_opinion(self, negc):
        s = z3.SolverFor("QF_NRA")
        s.set("timeout", self.solver_timeout_ms)
        for a in self.solver.assertions():
            s.add(a)
        s.add(negc)
        t = time.time()
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.z3_time += time.time() - t
        self.z3_calls += 1
        return r if r == z3.unsat else z3.unknown

    def nice_model(self, negc):
        """model of the path condition and negc, preferring small integral inputs"""
        nums = [e for k, (kind, e) in self.inputs.items() if kind in ("real",)]
        soft = [z3.And(z3.ToReal(z3.ToInt(e)) == e, e <= 1000, e >= -1000) for e in nums]
        self.solver.set("timeout", 1500)
        m = None
        try:
            if soft:
                if self.check(negc, *soft) == z3.sat:
                    m = self.solver.model()
                else:
                    soft2 = [z3.And(z3.ToReal(z3.ToInt(e * 8)) == e * 8, e <= 100000, e >= -100000) for e in nums]
                    if self.check(negc, *soft2) == z3.sat:
                        m = self.solver.model()
        finally:
            self.solver.set("timeout", self.solver_timeout_ms)
        if m is None:
            if self.check(negc) == z3.sat:
                m = self.solver.model()
            else:
                return None
        out = {}
        for k, (kind, e) in self.inputs.items():
            if kind == "py":
                out[k] = e
                continue
            v = m.eval(e, model_completion=True)
            out[k] = py_value(v)
        return out

    def fail_exact(self, name, detail=None):
        """unconditional failure of an obligation on this path"""
        return self.prove(name, z3.BoolVal(False), detail)


def py_value(v):
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        f = Fraction(v.numerator_as_long(), v.denominator_as_long())
        return float(f)
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    if z3.is_string_value(v):
        return v.as_string()
    return str(v)
