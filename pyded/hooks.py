"""Run-time hooks called by the instrumented source."""

import builtins
import sys
import types

import z3

from . import engine as E
from .engine import SymBool, SymNum, SymStr, Unsupported, boolx, eng, lift
from .loops import ForLoop, WhileLoop, cells_of, no_effects
from .seq import (
    OneRunMap,
    Run,
    SymList,
    SymMapView,
    SymSeq,
    drop_first,
    is_symseq,
    poly,
    run_split_first,
    segs_of,
    shape_of_len,
    stable_sorted,
)


def active():
    return E.ENG is not None


class _NativeFor:
    """outside exploration (import time): no symbolic handling"""

    sym = None

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return builtins.iter(self.it)


def enter_for(lid, it, pred=None, acc=None):
    if not active():
        return _NativeFor(it)
    if isinstance(it, OneRunMap):
        it = it.keys()
    if isinstance(it, SymSet):
        it = SymSeq(it.dedup())
    if acc is not None:
        acc = lambda run, grow, acc=acc: accumulate(run, grow, *acc)
    return ForLoop(lid, it, pred, acc)


def accumulate(run, grow, cond, vals, lists, unpack):
    """for x in run: if cond(x): l1.append(v1(x)); l2.append(v2(x)); ..."""
    ls = [l() for l in lists]
    if builtins.any(not isinstance(l, SymList) or l is grow for l in ls) or len({id(l) for l in ls}) != len(ls):
        raise Unsupported("not a plain list")
    if cond is None:
        more = [_comp(v, SymSeq([("run", run)]), None, unpack) for v in vals]
    else:
        both = _comp(lambda *a: builtins.tuple(v(*a) for v in vals), SymSeq([("run", run)]), cond, unpack)
        pick = lambda k, v, i: ("one", v[i]) if k == "one" else ("run", v.map(lambda e, j: e[i]))
        more = [[pick(k, v, i) for k, v in both] for i in builtins.range(len(vals))]
    fns = builtins.list(vals) + ([] if cond is None else [cond])
    # what is appended must not matter to the tests and values
    en = eng()
    j0 = en.fresh_int(run.label + ".q").e
    en.solver.push()
    en.live_idx.append(j0)
    try:
        en.add(run.inside(j0))
        e0 = run.elem(j0)
        before = [en.spec_eval(lambda: _apply(f, e0, unpack)) for f in fns]
        for l, m in builtins.zip(ls, more):
            l.segs.extend(m)
        after = [en.spec_eval(lambda: _apply(f, e0, unpack)) for f in fns]
        same = builtins.all(a[0] and b[0] and still(a[1], b[1]) for a, b in builtins.zip(before, after))
    finally:
        en.live_idx.pop()
        run.cache.pop(z3.simplify(j0).sexpr(), None)
        en.solver.pop()
    if not same:
        for l, m in builtins.zip(ls, more):
            del l.segs[len(l.segs) - len(m):]
        raise Unsupported("an appending loop that reads what it appends to")


def enter_while(lid):
    return WhileLoop(lid)


def mklist(*a):
    if not active():
        return builtins.list(a)
    return SymList.of(a)


def has_run(x):
    return is_symseq(x) and any(k == "run" for k, _ in segs_of(x))


def _apply(f, x, unpack):
    return f(*x) if unpack else f(x)


def _comp(f, it, cond, unpack):
    """segments of [f(x) for x in it if cond(x)]"""
    if isinstance(it, OneRunMap):
        it = it.keys()
    if isinstance(it, SymSet):
        it = SymSeq(it.dedup())
    if not is_symseq(it):
        return [
            ("one", _apply(f, x, unpack))
            for x in it
            if cond is None or _apply(cond, x, unpack)
        ]
    out = []
    if isinstance(it, SymList) and not it.has_run():
        for x in it:
            if cond is None or _apply(cond, x, unpack):
                out.append(("one", _apply(f, x, unpack)))
        return out
    segs = segs_of(it)
    for i, (k, v) in enumerate(segs):
        if k == "one":
            if cond is None or _apply(cond, v, unpack):
                out.append(("one", _apply(f, v, unpack)))
            continue
        run = v
        if cond is not None:
            c = no_effects([cond], lambda: generic_truth(run, lambda e: _apply(cond, e, unpack)))
            if c is False:
                continue
            if c is None:
                # split: nothing passes, or a first witness passes
                j = run_split_first(run, lambda e: _apply(cond, e, unpack))
                if j is None:
                    continue
                out.append(("one", _apply(f, run.elem(j), unpack)))
                rest = run.sub(j + 1, run.hi)
                c2 = generic_truth(rest, lambda e: _apply(cond, e, unpack))
                if c2 is False:
                    continue
                if c2 is None:
                    out.append(("run", filtered(rest, freeze(f), freeze(cond), unpack)))
                    continue
                run = rest
        out.append(("run", lazy_map(run, freeze(f), unpack)))
    return out


def freeze(f):
    """the element function with the variables it captures as they are now
    (its elements are made later than Python would)"""
    if not isinstance(f, types.FunctionType) or not f.__closure__:
        return f
    cells = []
    for c in f.__closure__:
        try:
            cells.append(types.CellType(c.cell_contents))
        except ValueError:
            cells.append(c)
    return types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, builtins.tuple(cells))


def lazy_map(run, f, unpack):
    e0, v0 = check_pure(run, f, unpack)

    def make(e, j):
        # whatever the element expression reads must still be the same
        ok, v1 = eng().spec_eval(lambda: _apply(f, e0, unpack))
        if not ok or not still(v0, v1):
            raise Unsupported("an element expression over a symbolic run reads state that has changed")
        return _apply(f, e, unpack)

    return run.map(make)


def still(a, b):
    if a is b:
        return True
    if isinstance(a, (SymNum, SymBool, SymStr)):
        return type(a) is type(b) and (a.e.eq(b.e) or eng().valid(a.e == b.e))
    if type(a) is not type(b):
        return False
    if isinstance(a, (builtins.tuple, builtins.list)) and not has_run(a):
        return builtins.len(a) == builtins.len(b) and builtins.all(still(x, y) for x, y in builtins.zip(a, b))
    if isinstance(a, builtins.dict):
        return builtins.list(a) == builtins.list(b) and builtins.all(still(a[k], b[k]) for k in a)
    if isinstance(a, (builtins.str, builtins.int, builtins.float, builtins.bool)):
        return a == b
    return True


def filtered(run, f, cond, unpack):
    """abstract filtered tail: unknown length, elements satisfy cond"""
    en = eng()
    en.abstract = True
    n = en.fresh_int(run.label + ".flen").e
    en.add(z3.And(n >= 0, n <= run.length()))
    sel = z3.Function(en.uname(run.label + ".fsel"), z3.IntSort(), z3.IntSort())

    def gen(k):
        s = sel(k)
        en.add(run.inside(s))
        e = run.elem(s)
        en.add(boolx(_apply(cond, e, unpack)))
        return _apply(f, e, unpack)

    return Run(z3.IntVal(0), n, gen, [], run.label + ".filtered")


def generic_truth(run, pred):
    """True/False when pred holds for all/no elements of the run, else None"""
    en = eng()
    j0 = en.fresh_int(run.label + ".q").e
    en.solver.push()
    en.live_idx.append(j0)
    try:
        en.add(run.inside(j0))
        e0 = run.elem(j0)
        c = poly(lambda: pred(e0))
        if c is None:
            raise Unsupported("undetermined filter over a symbolic run")
        if en.check(c) == z3.unsat:
            return False
        if en.check(z3.Not(c)) == z3.unsat:
            return True
        return None
    finally:
        en.live_idx.pop()
        run.cache.pop(z3.simplify(j0).sexpr(), None)
        en.solver.pop()


def check_pure(run, f, unpack):
    """the element expression is evaluated lazily, so it must neither fork nor
    have effects on the world: evaluate it once and compare the heap"""
    en = eng()
    j0 = en.fresh_int(run.label + ".q").e
    en.solver.push()
    en.live_idx.append(j0)
    try:
        en.add(run.inside(j0))
        e0 = run.elem(j0)
        ok, v0 = no_effects([f], lambda: en.spec_eval(lambda: _apply(f, e0, unpack)))
        if not ok:
            raise Unsupported("branching element expression over a symbolic run")
    finally:
        en.live_idx.pop()
        run.cache.pop(z3.simplify(j0).sexpr(), None)
        en.solver.pop()
    return e0, v0


def listcomp(f, it, cond, unpack):
    if not active():
        if unpack:
            return [f(*x) for x in it if cond is None or cond(*x)]
        return [f(x) for x in it if cond is None or cond(x)]
    en = eng()
    lid = f"comp:{f.__code__.co_qualname}:{f.__code__.co_firstlineno}"
    if not en.persist.get(("effects", lid)):
        try:
            return SymList(_comp(f, it, cond, unpack))
        except E.Effect:
            en.persist[("effects", lid)] = True
            raise E.Restart()
    if isinstance(it, OneRunMap):
        it = it.keys()
    return loop_comp(lid, f, it, cond, unpack)


def loop_comp(lid, f, it, cond, unpack):
    """a comprehension whose test or value has effects: the loop it stands for"""
    comp = SymList()
    loop = ForLoop(lid, it)
    loop.env = lambda: {**cells_of(f, cond), "comp": comp}
    for x in loop:
        if loop.top(loop.env()):
            raise Unsupported("a comprehension that changes variables")
        if cond is None or _apply(cond, x, unpack):
            comp.append(_apply(f, x, unpack))
    return comp


class LazyGen:
    """generator expression passed to a consuming builtin"""

    def __init__(self, f, it, cond, unpack):
        self.f, self.it, self.cond, self.unpack = f, it, cond, unpack

    def native(self):
        return not (isinstance(self.it, OneRunMap) or has_run(self.it))

    def __iter__(self):
        if not self.native():
            raise Unsupported("native iteration over a symbolic generator")
        f, cond = self.f, self.cond
        it = self.it
        for x in it:
            if cond is None or _apply(cond, x, self.unpack):
                yield _apply(f, x, self.unpack)

    def segs(self):
        return _comp(self.f, self.it, self.cond, self.unpack)


def genexp(f, it, cond, unpack):
    return LazyGen(f, it, cond, unpack)


def norm(x):
    """-> ('native', iterable) | ('segs', segments)"""
    if isinstance(x, LazyGen):
        return ("native", x) if x.native() else ("segs", x.segs())
    if isinstance(x, OneRunMap):
        x = x.keys()
    if isinstance(x, SymSet):
        x = SymSeq(x.dedup())
    if has_run(x):
        return "segs", segs_of(x)
    return "native", x


def b_len(x):
    if not active():
        return builtins.len(x)
    if isinstance(x, LazyGen):
        x = SymSeq(x.segs())
    if isinstance(x, OneRunMap):
        return x.keys().len_expr()
    if isinstance(x, SymSet):
        return SymSeq(x.dedup()).len_expr()
    if is_symseq(x) and not isinstance(x, SymMapView):
        return x.len_expr()
    f = getattr(type(x), "__ded_len__", None)
    return builtins.len(x) if f is None else f(x)


def b_isinstance(x, t):
    if isinstance(x, SymNum):
        ts = t if isinstance(t, builtins.tuple) else (t,)
        isint = x.e.is_int()
        for c in ts:
            if c is float and not isint:
                return True
            if c is int and isint:
                return True
            if c not in (int, float, bool, builtins.str) and builtins.isinstance(x, c):
                return True
        return False
    if isinstance(x, SymStr):
        ts = t if isinstance(t, builtins.tuple) else (t,)
        return builtins.str in ts or builtins.isinstance(x, t)
    if isinstance(x, SymBool):
        ts = t if isinstance(t, builtins.tuple) else (t,)
        return bool in ts or int in ts
    if isinstance(x, OneRunMap):
        ts = t if isinstance(t, builtins.tuple) else (t,)
        return builtins.dict in ts
    return builtins.isinstance(x, t)


def b_list(*a):
    if not active() or not a:
        return builtins.list(*a) if not active() else SymList()
    k, v = norm(a[0])
    if k == "segs":
        return SymList(v)
    return SymList.of(builtins.list(v))


def b_tuple(*a):
    if not active() or not a:
        return builtins.tuple(*a)
    k, v = norm(a[0])
    if k == "segs":
        return SymSeq(v)
    return builtins.tuple(v)


def b_set(*a):
    if not active() or not a:
        return builtins.set(*a)
    k, v = norm(a[0])
    if k == "segs":
        return SymSet(v)
    vals = builtins.list(v)
    if any_sym(vals):
        return SymSet([("one", x) for x in vals])
    return builtins.set(vals)


def any_sym(vals):
    return builtins.any(isinstance(x, (SymNum, SymStr, SymBool)) for x in vals)


class SymSet:
    """set of possibly equal symbolic values (only membership and length)"""

    def __init__(self, segs):
        self.segs = segs

    def __contains__(self, x):
        return x in SymList(self.segs)

    def has_run(self):
        return builtins.any(k == "run" for k, _ in self.segs)

    def dedup(self):
        """segments without duplicates (provably)"""
        if not self.has_run():
            return [("one", v) for v in self.distinct()]
        out = []
        for k, v in self.segs:
            if k == "one" and builtins.any(l == "one" and (v is w or bool(v == w)) for l, w in out):
                continue
            out.append((k, v))
        for i, (k, v) in enumerate(out):
            for l, w in out[i:]:
                if k == l == "one":
                    continue
                if not apart(k, v, l, w):
                    raise Unsupported("set of a symbolic run with possible duplicates")
        return out

    def __sub__(self, o):
        other = o.segs if isinstance(o, SymSet) else [("one", x) for x in o]
        out = []
        for k, v in self.segs:
            if k == "one":
                if v not in SymList(other):
                    out.append((k, v))
                continue
            if builtins.all(apart(k, v, l, w) for l, w in other):
                out.append((k, v))
            elif not builtins.any(l == "run" and within(v, w) for l, w in other):
                raise Unsupported("difference of symbolic sets")
        return SymSet(out)

    def __rsub__(self, o):
        return SymSet([("one", x) for x in o]) - self

    def distinct(self):
        if builtins.any(k == "run" for k, _ in self.segs):
            raise Unsupported("set of a symbolic run")
        out = []
        for _, v in self.segs:
            if not builtins.any(v is o or bool(v == o) for o in out):
                out.append(v)
        return out

    def __len__(self):
        return len(self.distinct())

    def __iter__(self):
        return builtins.iter(self.distinct())


def _scoped(f):
    en = eng()
    en.solver.push()
    try:
        return f(en)
    finally:
        en.solver.pop()


def _any_elem(run, en):
    j = en.fresh_int(run.label + ".q").e
    en.add(run.inside(j))
    e = run.elem(j)
    run.cache.pop(z3.simplify(j).sexpr(), None)
    return j, e


def apart(k, v, l, w):
    """provably no element of one segment equals one of the other (or, for a
    run and itself, its elements are pairwise different)"""

    def go(en):
        i = j = None
        x, y = v, w
        if k == "run":
            i, x = _any_elem(v, en)
        if l == "run":
            j, y = _any_elem(w, en)
        if k == l == "run" and v is w:
            en.add(i != j)
        c = poly(lambda: x == y)
        return c is not None and en.check(c) == z3.unsat

    return _scoped(go)


def within(v, w):
    """provably every element of run v is the element of run w at that index"""

    def go(en):
        i, x = _any_elem(v, en)
        y = w.elem(i)
        w.cache.pop(z3.simplify(i).sexpr(), None)
        c = poly(lambda: x == y)
        return c is not None and en.check(z3.Not(z3.And(w.inside(i), c))) == z3.unsat

    return _scoped(go)


def b_sorted(x, *, key=None, reverse=False):
    if not active():
        return builtins.sorted(x, key=key, reverse=reverse)
    k, v = norm(x)
    if k == "segs":
        if reverse:
            raise Unsupported("sorted() of a symbolic run, descending")
        return SymList(stable_sorted(v, key))
    return SymList.of(builtins.sorted(v, key=key, reverse=reverse))


def b_enumerate(x, start=0):
    if not active():
        return builtins.enumerate(x, start)
    k, v = norm(x)
    if k == "native":
        return builtins.enumerate(v, start)
    out = []
    off = lift(start)
    for kd, s in v:
        o = z3.simplify(off)
        if kd == "one":
            idx = o.as_long() if z3.is_int_value(o) else SymNum(o)
            out.append(("one", (idx, s)))
            off = off + 1
        else:
            out.append(("run", s.map(lambda e, j, o=o, s=s: (SymNum(z3.simplify(o + j - s.lo)), e))))
            off = off + s.length()
    return SymSeq(out)


def b_zip(*its, strict=False):
    if not active():
        return builtins.zip(*its, strict=strict)
    ns = [norm(x) for x in its]
    if builtins.all(k == "native" for k, _ in ns):
        return builtins.zip(*[v for _, v in ns], strict=strict)
    return SymSeq(zip_segs([v if k == "segs" else [("one", x) for x in v] for k, v in ns]))


def zip_segs(lists):
    """align segment lists positionally; supports runs of provably equal length,
    or views shifted by one element (pairwise iteration)"""
    en = eng()
    lists = [builtins.list(l) for l in lists]
    out = []
    while True:
        # drop empty runs
        for l in lists:
            while l and l[0][0] == "run" and not en.decide(l[0][1].lo < l[0][1].hi):
                l.pop(0)
        if builtins.any(not l for l in lists):
            return out
        heads = [l[0] for l in lists]
        if builtins.all(k == "one" for k, _ in heads):
            out.append(("one", builtins.tuple(v for _, v in heads)))
            for l in lists:
                l.pop(0)
            continue
        if builtins.all(k == "run" for k, _ in heads):
            runs = [v for _, v in heads]
            n = runs[0].length()
            if builtins.all(en.valid(r.length() == n) for r in runs[1:]):
                m = runs[0].length()
                out.append(("run", pair_run(runs, m)))
                for l in lists:
                    l.pop(0)
                continue
            # shortest head decides
            if len(runs) == 2:
                if en.decide(runs[0].length() < runs[1].length()):
                    a, b = 0, 1
                else:
                    a, b = 1, 0
                m = runs[a].length()
                out.append(("run", pair_run(runs, m)))
                lists[a].pop(0)
                r = runs[b]
                lists[b][0] = ("run", r.sub(r.lo + m, r.hi))
                continue
            raise Unsupported("zip of symbolic runs of unequal length")
        # a mixture: peel one element of each run
        tup = []
        for l in lists:
            k, v = l[0]
            if k == "one":
                tup.append(v)
                l.pop(0)
            else:
                tup.append(v.elem(z3.simplify(v.lo)))
                l[0] = ("run", v.sub(z3.simplify(v.lo + 1), v.hi))
        out.append(("one", builtins.tuple(tup)))


def pair_run(runs, m):
    lo0 = runs[0].lo
    return Run(
        lo0,
        z3.simplify(lo0 + m),
        lambda j: builtins.tuple(r.elem(z3.simplify(r.lo + j - lo0)) for r in runs),
        [],
        "zip(" + runs[0].label + ")",
    )


def b_range(*a):
    if not active() or not builtins.any(isinstance(x, SymNum) for x in a):
        return builtins.range(*[int(x) if False else x for x in a])
    if len(a) == 1:
        lo, hi = z3.IntVal(0), a[0]
    elif len(a) == 2:
        lo, hi = lift(a[0]), a[1]
    else:
        raise Unsupported("range with a symbolic step")
    n = a[-1]
    segs = shape_of_len(n) if isinstance(n, SymNum) else None
    first = a[0] if builtins.len(a) == 2 else 0
    if segs is not None and isinstance(first, int) and 0 <= first <= 3:
        # the positions of a sequence: in the same segments
        out = []
        off = z3.IntVal(first)
        for _ in builtins.range(first):
            segs = drop_first(segs)
        for k, v in segs:
            o = z3.simplify(off)
            if k == "one":
                out.append(("one", o.as_long() if z3.is_int_value(o) else SymNum(o)))
                off = off + 1
            else:
                out.append(("run", Run(v.lo, v.hi, lambda j, o=o, v=v: SymNum(z3.simplify(o + j - v.lo)), [], v.label)))
                off = off + v.length()
        return SymSeq(out)
    hi = lift(hi)
    if not hi.is_int() or not lo.is_int():
        raise TypeError("'float' object cannot be interpreted as an integer")
    return SymSeq([("run", Run(lo, hi, lambda j: SymNum(j), [], "range"))])


def b_sum(x, start=0):
    if not active():
        return builtins.sum(x, start)
    k, v = norm(x)
    if k == "native":
        t = start
        for e in v:
            t = t + e
        return t
    t = start
    for kd, s in v:
        if kd == "one":
            t = t + s
        else:
            t = t + run_sum(s)
    return t


def run_sum(run):
    en = eng()
    j0 = en.fresh_int(run.label + ".q").e
    en.solver.push()
    match = None
    try:
        en.add(run.inside(j0))
        e0 = run.elem(j0)
        for nm, S in en.psums:
            if en.check(E.as_real(lift(e0)) != E.as_real(S(j0 + 1) - S(j0))) == z3.unsat:
                match = S
                break
    finally:
        run.cache.pop(z3.simplify(j0).sexpr(), None)
        en.solver.pop()
    if match is None:
        raise Unsupported("sum over a symbolic run without a known prefix sum")
    if not en.decide(run.lo < run.hi):
        return 0
    return SymNum(match(run.hi) - match(run.lo))


def b_any(x):
    if not active():
        return builtins.any(x)
    k, v = norm(x)
    if k == "native":
        return builtins.any(v)
    for kd, s in v:
        if kd == "one":
            if s:
                return True
        elif run_split_first(s, lambda e: e) is not None:
            return True
    return False


def b_all(x):
    if not active():
        return builtins.all(x)
    k, v = norm(x)
    if k == "native":
        return builtins.all(v)
    for kd, s in v:
        if kd == "one":
            if not s:
                return False
        elif run_split_first(s, lambda e: SymBool(z3.Not(boolx(e)))) is not None:
            return False
    return True


def b_next(x, *d):
    if not active() or not isinstance(x, LazyGen):
        return builtins.next(x, *d)
    if x.native():
        return builtins.next(builtins.iter(x), *d)
    segs = segs_of(x.it) if not isinstance(x.it, OneRunMap) else segs_of(x.it.keys())
    for kd, s in segs:
        if kd == "one":
            if x.cond is None or _apply(x.cond, s, x.unpack):
                return _apply(x.f, s, x.unpack)
        else:
            if x.cond is None:
                if eng().decide(s.lo < s.hi):
                    return _apply(x.f, s.elem(z3.simplify(s.lo)), x.unpack)
                continue
            j = no_effects([x.cond], lambda: run_split_first(s, lambda e: _apply(x.cond, e, x.unpack)))
            if j is not None:
                return _apply(x.f, s.elem(j), x.unpack)
    if d:
        return d[0]
    raise StopIteration


def b_float(*a):
    if a and isinstance(a[0], SymNum):
        return SymNum(E.as_real(a[0].e))
    return builtins.float(*a)


def b_int(*a):
    if a and isinstance(a[0], SymNum):
        e = a[0].e
        if e.is_int():
            return a[0]
        return SymNum(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))
    if a and isinstance(a[0], SymBool):
        return SymNum(lift(a[0]))
    return builtins.int(*a)


def b_bool(*a):
    return builtins.bool(*a)


def b_str(*a):
    if a and isinstance(a[0], SymStr):
        return a[0]
    return builtins.str(*a)


def b_round(x, n=None):
    if isinstance(x, SymNum):
        return eng().sym_round(x, n)
    return builtins.round(x, n) if n is not None else builtins.round(x)


def b_abs(x):
    return builtins.abs(x)


def b_reversed(x):
    if active() and is_symseq(x):
        segs = segs_of(x)
        out = []
        for k, v in builtins.reversed(segs):
            if k == "one":
                out.append((k, v))
            else:
                out.append(
                    (
                        "run",
                        Run(
                            z3.IntVal(0),
                            v.length(),
                            lambda j, v=v: v.elem(z3.simplify(v.hi - 1 - j)),
                            [],
                            v.label + "~",
                        ),
                    )
                )
        return SymSeq(out)
    return builtins.reversed(x)


def b_iter(x, *a):
    if active() and has_run(x):
        raise Unsupported("iter() of a symbolic run")
    return builtins.iter(x, *a)


def b_map(f, *its):
    if active() and len(its) == 1 and (isinstance(its[0], (LazyGen, OneRunMap)) or has_run(its[0])):
        return SymSeq(_comp(f, its[0], None, False))
    return builtins.map(f, *its)


def b_filter(f, it):
    if active() and has_run(it):
        return SymSeq(_comp(lambda x: x, it, f if f is not None else (lambda x: x), False))
    return builtins.filter(f, it)


def b_dict(*a, **k):
    if a and isinstance(a[0], OneRunMap):
        m = OneRunMap([builtins.list(s) for s in a[0].segs])
        for kk, v in k.items():
            m[kk] = v
        return m
    return builtins.dict(*a, **k)


def b_min(*a, **k):
    return _minmax(builtins.min, a, k, True)


def b_max(*a, **k):
    return _minmax(builtins.max, a, k, False)


def _minmax(f, a, k, ismin):
    if not active():
        return f(*a, **k)
    if len(a) == 1:
        kd, v = norm(a[0])
        if kd == "segs":
            raise Unsupported("min/max over a symbolic run")
        a = (v,)
        vals = builtins.list(v)
    else:
        vals = builtins.list(a)
    if not k and any_sym(vals) and builtins.all(
        isinstance(x, SymNum) or (E.is_pynum(x) and not (isinstance(x, float) and abs(x) == float("inf")))
        for x in vals
    ):
        r = lift(vals[0])
        for x in vals[1:]:
            p, q = E.coerce(r, lift(x))
            r = z3.If(q < p, q, p) if ismin else z3.If(q > p, q, p)
        return SymNum(r)
    return f(vals, **k)


def fstr(*parts):
    out = ""
    for p in parts:
        v = p[0] if isinstance(p, builtins.tuple) else p
        if isinstance(v, SymStr):
            out = out + v if not isinstance(out, builtins.str) or out else v
        elif isinstance(out, SymStr):
            out = out + (v if isinstance(v, builtins.str) else format(v))
        else:
            out = out + (v if isinstance(v, builtins.str) else format(v))
    return out


def is_bool(x, c, neg):
    if isinstance(x, SymBool):
        r = bool(x) is c
    else:
        r = x is c
    return (not r) if neg else r


def contains(x, c, neg):
    if not active():
        r = x in c
    elif isinstance(c, (SymList, SymSet, OneRunMap)):
        r = x in c
    elif isinstance(c, (SymSeq, LazyGen)):
        r = x in SymList(c.segs if isinstance(c, SymSeq) else c.segs())
    elif isinstance(x, (SymStr, SymNum)) and isinstance(
        c, (builtins.list, builtins.tuple, builtins.set, builtins.dict, builtins.frozenset)
    ):
        r = False
        for y in c:
            if y is x or bool(x == y):
                r = True
                break
    else:
        r = x in c
    return (not r) if neg else r


# -- shims for C functions used by the modules under contract -----------------

SHIMS = []


def after_exec(module):
    for f in SHIMS:
        f(module)
