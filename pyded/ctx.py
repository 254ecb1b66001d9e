"""Contexts: the same contract runs symbolically (all inputs) or concretely
(one input, on the uninstrumented code, to replay a counterexample or to
sample when a function is outside the verifier's subset)."""

import os
import random
import re
from fractions import Fraction

import z3

from . import engine as E
from .engine import SymBool, SymNum, SymStr, boolx, eng, lift


class Skip(Exception):
    """concrete inputs that do not satisfy the precondition"""


class Violation(Exception):
    def __init__(self, name, detail=None):
        super().__init__(name)
        self.name = name
        self.detail = detail


class SymCtx:
    symbolic = True
    __ded_leaf__ = True

    def __init__(self, en):
        self.en = en
        self.info = {}

    def current(self, key, value=None):
        """an object of the path being explored"""
        d = self.en.__dict__.setdefault("current", {})
        if value is not None:
            d[key] = value
        return d[key]

    @staticmethod
    def term(j):
        return z3.simplify(lift(j) if not z3.is_expr(j) else j).sexpr()

    @staticmethod
    def at(e, j, k):
        return z3.simplify(z3.substitute(lift(e) if not z3.is_expr(e) else e, (j, k)))

    def same(self, a, b):
        return self.en.valid((lift(a) if not z3.is_expr(a) else a) == (lift(b) if not z3.is_expr(b) else b))

    # inputs
    def real(self, name, lo=None, hi=None, gt=None, lt=None):
        v = z3.Real(self.en.uname(name))
        self.en.inputs[v.decl().name()] = ("real", v)
        if lo is not None:
            self.en.add(v >= lift(lo))
        if hi is not None:
            self.en.add(v <= lift(hi))
        if gt is not None:
            self.en.add(v > lift(gt))
        if lt is not None:
            self.en.add(v < lift(lt))
        return SymNum(v)

    def int(self, name, lo=None, hi=None):
        v = z3.Int(self.en.uname(name))
        self.en.inputs[v.decl().name()] = ("int", v)
        if lo is not None:
            self.en.add(v >= lift(lo))
        if hi is not None:
            self.en.add(v <= lift(hi))
        return SymNum(v)

    def bool(self, name):
        v = z3.Bool(self.en.uname(name))
        self.en.inputs[v.decl().name()] = ("bool", v)
        return SymBool(v)

    def choice(self, name, options):
        options = list(options)
        i = self.en.choose(len(options)) if len(options) > 1 else 0
        self.en.inputs[self.en.uname("choice:" + name)] = ("py", i)
        return options[i]

    def func(self, name, arity=1):
        """an arbitrary (uninterpreted) real function of real arguments"""
        f = z3.Function(name, *([z3.RealSort()] * (arity + 1)))
        return lambda *a: SymNum(f(*[E.as_real(lift(x)) for x in a]))

    def assume(self, c):
        self.en.assume(c)

    def require(self, c):
        self.en.assume_feasible(c)

    # obligations
    def check(self, name, c, detail=None):
        return self.en.prove(name, c, detail)

    def fail(self, name, detail=None):
        return self.en.prove(name, False, detail)

    def eq(self, a, b):
        if a is b:
            return True
        if isinstance(a, (SymNum, SymBool, SymStr)) or isinstance(b, (SymNum, SymBool, SymStr)):
            return a == b
        return a == b

    def le(self, a, b):
        return a <= b

    def lt(self, a, b):
        return a < b

    lt_strict = lt

    def and_(self, *cs):
        return SymBool(z3.And(*[boolx(c) for c in cs])) if cs else True

    def or_(self, *cs):
        return SymBool(z3.Or(*[boolx(c) for c in cs])) if cs else False

    def not_(self, c):
        return SymBool(z3.Not(boolx(c)))

    def implies(self, a, b):
        return SymBool(z3.Implies(boolx(a), boolx(b)))

    def iff(self, a, b):
        return SymBool(boolx(a) == boolx(b))

    def max(self, *a):
        r = lift(a[0])
        for x in a[1:]:
            p, q = E.coerce(r, lift(x))
            r = z3.If(q > p, q, p)
        return SymNum(r)

    def min(self, *a):
        r = lift(a[0])
        for x in a[1:]:
            p, q = E.coerce(r, lift(x))
            r = z3.If(q < p, q, p)
        return SymNum(r)

    def ite(self, c, a, b):
        p, q = E.coerce(lift(a), lift(b))
        return SymNum(z3.If(boolx(c), p, q))

    def is_true(self, c):
        """branch on a condition inside a contract"""
        return bool(c)

    def seq(self, *parts):
        """list built from ('one', v) and ('run', label, maker) parts.

        maker(ctx, idx) builds the anonymous element at index idx."""
        from .seq import Run, SymList

        segs = []
        for p in parts:
            if p[0] == "one":
                segs.append(("one", p[1]))
            else:
                _, label, maker = p[:3]
                facts = p[3] if len(p) > 3 else []
                n = z3.Int(self.en.uname("len." + label))
                self.en.inputs[n.decl().name()] = ("int", n)
                self.en.add(n >= 0)
                run = Run(z3.IntVal(0), n, (lambda j, maker=maker: maker(SymNum(j))), facts, label)
                if len(p) > 4:
                    run.pairs = list(p[4])
                segs.append(("run", run))
        return SymList(segs)

    def wrap_list(self, vals):
        from .seq import SymList

        return SymList.of(list(vals))

    def len(self, s):
        from .seq import segs_len, segs_of

        n = segs_len(segs_of(s))
        return SymNum(n) if isinstance(n, z3.ExprRef) else n

    def frozen(self, s):
        """the present contents of a list, to compare a later state with"""
        from .seq import segs_of

        return list(segs_of(s))

    def starts_with(self, s, frozen):
        """s begins with exactly the elements of `frozen`"""
        from .seq import segs_of

        segs = list(segs_of(s))
        if len(segs) < len(frozen):
            return False
        cs = []
        for a, b in zip(segs, frozen):
            if a[0] != b[0] or a[0] == "one" and a[1] is not b[1]:
                return False
            if a[0] == "run":
                if a[1].gen is not b[1].gen:
                    # the same element at an arbitrary index?
                    j = self.en.fresh_int("any.j").e
                    if a[1].elem(j) is not b[1].elem(j):
                        return False
                cs += [SymBool(a[1].lo == b[1].lo), SymBool(a[1].hi == b[1].hi)]
        return self.and_(*cs) if cs else True

    def invariant(self, name, f):
        self.en.invariants.append((name, f))

    def root(self, name, obj):
        self.en.roots[name] = obj


def findings():
    """the open findings: name -> description"""
    out = {}
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "KNOWN_FINDINGS")) as f:
        for line in f:
            m = re.match(r"open: property=\S+ \[(.*?)\] (.*)", line)
            if m:
                out[m.group(1)] = m.group(2)
    return out


class ConcCtx:
    symbolic = False

    def current(self, key, value=None):
        return value
    __ded_leaf__ = True

    def __init__(self, values=None, seed=0, maxrun=2):
        self.values = values or {}
        self.rng = random.Random(seed)
        self.names = {}
        self.log = {}
        self.maxrun = maxrun
        self.failures = []
        self.known = []
        self.checked = {}

    def uname(self, base):
        k = self.names.get(base, 0)
        self.names[base] = k + 1
        return base if k == 0 else f"{base}!{k}"

    def _get(self, name, draw):
        n = self.uname(name)
        v = self.values[n] if n in self.values else draw()
        self.log[n] = v
        return v

    def real(self, name, lo=None, hi=None, gt=None, lt=None):
        def draw():
            a = lo if lo is not None else (gt if gt is not None else None)
            b = hi if hi is not None else (lt if lt is not None else None)
            r = self.rng
            if a is None and b is None:
                a, b = -20, 60
            elif a is None:
                a = b - 50
            elif b is None:
                b = a + r.choice([1, 4, 60, 5000])
            k = r.random()
            if k < 0.12 and lo is not None:
                return float(lo)
            if k < 0.18 and hi is not None:
                return float(hi)
            span = b - a
            v = a + span * r.randint(0, 16) / 16.0
            if k > 0.8:
                v = round(a + span * r.random(), 3)
            if gt is not None and v <= gt:
                v = a + span / 16.0
            if lt is not None and v >= lt:
                v = b - span / 16.0
            return float(v)

        v = self._get(name, draw)
        if (
            (lo is not None and v < lo)
            or (hi is not None and v > hi)
            or (gt is not None and v <= gt)
            or (lt is not None and v >= lt)
        ):
            raise Skip(name)
        return v

    def int(self, name, lo=None, hi=None):
        def draw():
            a = lo if lo is not None else 0
            b = hi if hi is not None else a + 5
            return self.rng.randint(int(a), int(max(a, min(b, a + 8))))

        v = int(self._get(name, draw))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip(name)
        return v

    def bool(self, name):
        return bool(self._get(name, lambda: self.rng.random() < 0.5))

    def choice(self, name, options):
        options = list(options)
        i = self._get("choice:" + name, lambda: self.rng.randrange(len(options)))
        if i >= len(options):
            raise Skip(name)
        return options[int(i)]

    def func(self, name, arity=1):
        base = self.uname("fn:" + name)
        seed = int(self._get("fnseed:" + name, lambda: self.rng.randrange(10**6)))
        cache = {}

        def f(*a):
            if a not in cache:
                # a smooth injective-ish positive function
                r = random.Random(hash((base, seed)) & 0xFFFFFF)
                cs = [r.randint(1, 7) for _ in a]
                cache[a] = r.randint(1, 9) + sum(c * x for c, x in zip(cs, a)) + sum(
                    abs(x) ** 0.5 for x in a
                )
            return cache[a]

        return f

    def assume(self, c):
        if not c:
            raise Skip("assume")

    require = assume

    def check(self, name, c, detail=None):
        self.checked[name] = self.checked.get(name, 0) + 1
        if not c:
            self.failures.append((name, detail() if callable(detail) else detail))
            return False
        return True

    def fail(self, name, detail=None):
        return self.check(name, False, detail)

    def check_known(self, name, finding, ok, as_known):
        """as check, but a failure listed as open in KNOWN_FINDINGS under `finding`
        is reported as such if it is exactly the one described there (as_known)"""
        if not ok and as_known() and finding in findings():
            self.checked[name] = self.checked.get(name, 0) + 1
            if findings()[finding] not in self.known:
                self.known.append(findings()[finding])
            return True
        return self.check(name, ok)

    TOL = 1e-6

    def _tol(self, a, b):
        return self.TOL * max(1.0, abs(a), abs(b))

    def eq(self, a, b):
        if a is b:
            return True
        num = (int, float, Fraction)
        if (
            isinstance(a, num)
            and isinstance(b, num)
            and not isinstance(a, bool)
            and not isinstance(b, bool)
        ):
            return abs(a - b) <= self._tol(a, b)
        return a == b

    def le(self, a, b):
        return a <= b + self._tol(a, b)

    def lt(self, a, b):
        return a < b + self._tol(a, b)

    def lt_strict(self, a, b):
        return a < b

    def and_(self, *cs):
        return all(cs)

    def or_(self, *cs):
        return any(cs)

    def not_(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def max(self, *a):
        return max(a)

    def min(self, *a):
        return min(a)

    def ite(self, c, a, b):
        return a if c else b

    def is_true(self, c):
        return bool(c)

    def seq(self, *parts):
        out = []
        for p in parts:
            if p[0] == "one":
                out.append(p[1])
            else:
                _, label, maker = p[:3]
                n = int(self._get("len." + label, lambda: self.rng.randint(0, self.maxrun)))
                n = max(0, min(n, 12))
                for i in range(n):
                    v = maker(i)
                    for f in p[3] if len(p) > 3 else []:
                        if not f(i, v):
                            raise Skip("fact")
                    out.append(v)
        return out

    def wrap_list(self, vals):
        return list(vals)

    def len(self, s):
        return len(s)

    def frozen(self, s):
        return list(s)

    def starts_with(self, s, frozen):
        return len(s) >= len(frozen) and all(a is b for a, b in zip(s, frozen))

    def invariant(self, name, f):
        pass

    def root(self, name, obj):
        pass
