"""Segmented sequences: lists made of concrete elements and symbolic runs.

A run [lo, hi) stands for arbitrarily many elements gen(j); facts about the
element at index j are asserted when that element is materialised, so no
quantifiers are needed.
"""

import z3

from . import engine as E
from .engine import PathEnd, SymBool, SymNum, Unsupported, boolx, eng, lift


class Run:
    __slots__ = ("lo", "hi", "gen", "facts", "pairs", "uid", "label", "cache")
    __ded_leaf__ = True

    def __init__(self, lo, hi, gen, facts=None, label="run", cache=None):
        self.lo = lift(lo) if not z3.is_expr(lo) else lo
        self.hi = lift(hi) if not z3.is_expr(hi) else hi
        self.gen = gen
        self.facts = list(facts) if facts is not None else []
        self.pairs = []  # facts about two elements, the first before the second
        self.uid = eng().next_uid()
        self.label = label
        self.cache = cache if cache is not None else {}

    def length(self):
        return self.hi - self.lo

    def inside(self, j):
        return z3.And(self.lo <= j, j < self.hi)

    def _apply(self, f, j, v):
        c = f(j, v)
        if c is not None:
            eng().add(z3.Implies(self.inside(j), boolx(c)))

    def elem(self, j):
        """materialise the element at index term j (facts are asserted)"""
        k = z3.simplify(j).sexpr()
        if k in self.cache:
            return self.cache[k][1]
        v = self.gen(j)
        self.cache[k] = (j, v)
        for f in list(self.facts):
            self._apply(f, j, v)
        for f in self.pairs:
            for i, w in list(self.cache.values()):
                if w is not v:
                    eng().add(z3.Implies(z3.And(self.inside(i), self.inside(j), i < j), boolx(f(w, v))))
                    eng().add(z3.Implies(z3.And(self.inside(i), self.inside(j), j < i), boolx(f(v, w))))
        return v

    def add_fact(self, f):
        """f holds for every element of this run (on this path)"""
        self.facts.append(f)
        for j, v in list(self.cache.values()):
            self._apply(f, j, v)

    def fresh_elem(self, label=None):
        j = eng().fresh_int((label or self.label) + ".j").e
        eng().add(self.inside(j))
        return j, self.elem(j)

    def sub(self, lo, hi):
        r = Run(lo, hi, self.gen, self.facts, self.label, self.cache)
        r.pairs = self.pairs
        return r

    def map(self, f):
        src = self
        return Run(self.lo, self.hi, lambda j: f(src.elem(j), j), [], self.label + "'")


def poly(pred):
    """evaluate pred() to a z3 Bool without forking; None when it would fork"""
    ok, v = eng().spec_eval(lambda: boolx_nf(pred()))
    return v if ok else None


def boolx_nf(v):
    return boolx(v)


class SymSeq:
    """immutable view"""

    def __init__(self, segs):
        self.segs = segs  # list of ('one', v) | ('run', Run)

    def has_run(self):
        return any(k == "run" for k, _ in self.segs)

    # -- builtins used by hooks
    def len_expr(self):
        n = z3.IntVal(0)
        c = 0
        for k, v in self.segs:
            if k == "one":
                c += 1
            else:
                n = n + v.length()
        if not self.has_run():
            return c
        r = SymNum(z3.simplify(n + c))
        r.shape, r.cut = list(self.segs), 0
        return r

    def values(self):
        if self.has_run():
            raise Unsupported("native iteration over a symbolic sequence")
        return [v for _, v in self.segs]

    def __iter__(self):
        return iter(self.values())

    def __len__(self):
        n = self.len_expr()
        if isinstance(n, int):
            return n
        raise Unsupported("native len() of a symbolic sequence")

    def __bool__(self):
        n = self.len_expr()
        if isinstance(n, int):
            return n > 0
        return eng().decide(n.e > 0)

    def mapped(self, f):
        out = []
        for k, v in self.segs:
            out.append(("one", f(v)) if k == "one" else ("run", v.map(lambda x, j: f(x))))
        return out

    def locate(self, i):
        """element position -> (kind, segindex, value or (run, j)); IndexError"""
        if isinstance(i, SymNum):
            ie = i.e
            if not ie.is_int():
                raise Unsupported("real-valued index")
            if eng().decide(ie < 0):
                n = self.len_expr()
                ie = ie + lift(n)
                if eng().decide(ie < 0):
                    raise IndexError("list index out of range")
            off = z3.IntVal(0)
            for si, (k, v) in enumerate(self.segs):
                if k == "one":
                    if eng().decide(ie == off):
                        return "one", si, v
                    off = off + 1
                else:
                    if eng().decide(ie < off + v.length()):
                        return "run", si, (v, z3.simplify(v.lo + ie - off))
                    off = off + v.length()
            raise IndexError("list index out of range")
        if hasattr(i, "__index__"):
            i = i.__index__()
        segs = list(enumerate(self.segs))
        if i < 0:
            k = -i - 1  # distance from the end
            back = 0
            off = z3.IntVal(0)
            allone = True
            for si, (kd, v) in reversed(segs):
                if kd == "one":
                    if allone:
                        if back == k:
                            return "one", si, v
                        back += 1
                    else:
                        if eng().decide(off + back == k):
                            return "one", si, v
                        back += 1
                else:
                    allone = False
                    if eng().decide(off + back + v.length() > k):
                        return "run", si, (v, z3.simplify(v.hi - 1 - (k - off - back)))
                    off = off + v.length()
            raise IndexError("list index out of range")
        if not self.has_run():
            if i >= len(self.segs):
                raise IndexError("list index out of range")
            return "one", i, self.segs[i][1]
        return self.locate(SymNum(z3.IntVal(i)))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.slice(i)
        kind, si, v = self.locate(i)
        if kind == "one":
            return v
        run, j = v
        return run.elem(j)

    def slice(self, s):
        if not self.has_run():
            if any(isinstance(x, SymNum) for x in (s.start, s.stop, s.step)):
                raise Unsupported("symbolic slice bounds")
            return SymList.of([v for _, v in self.segs][s])
        if s.step not in (None, 1):
            raise Unsupported("slice step on a symbolic list")
        segs = list(self.segs)
        start, stop = s.start, s.stop
        if isinstance(start, SymNum) or isinstance(stop, SymNum):
            raise Unsupported("symbolic slice bounds")
        out = segs
        if stop is not None and stop >= 0 and not (start is not None and start < 0):
            return SymList(take_first(out, stop)).slice(slice(start, None))
        if start is not None and start < 0 and stop is None:
            return SymList(take_last(out, -start))
        if start is not None and start < 0 or stop is not None and stop >= 0:
            raise Unsupported("slice of a symbolic list from both ends")
        for _ in range(-stop if stop is not None else 0):
            out = drop_last(out)
        for _ in range(start or 0):
            out = drop_first(out)
        return SymList(out)


def take_first(segs, n):
    """the first n elements (all, if there are fewer)"""
    out = []
    for k, v in segs:
        if n <= 0:
            break
        if k == "one":
            out.append((k, v))
            n -= 1
        elif eng().decide(v.length() > n):
            out.append((k, v.sub(v.lo, v.lo + n)))
            n = 0
        elif len(segs) > 1 and segs[-1][1] is not v:
            # how many it contributes decides how many are still wanted
            c = 0
            while c < n and eng().decide(v.length() > c):
                c += 1
            out.append((k, v))
            n -= c
        else:
            out.append((k, v))
    return out


def take_last(segs, n):
    out = []
    for i in range(len(segs) - 1, -1, -1):
        k, v = segs[i]
        if n <= 0:
            break
        if k == "one":
            out.insert(0, (k, v))
            n -= 1
        elif eng().decide(v.length() > n):
            out.insert(0, (k, v.sub(v.hi - n, v.hi)))
            n = 0
        elif i > 0:
            c = 0
            while c < n and eng().decide(v.length() > c):
                c += 1
            out.insert(0, (k, v))
            n -= c
        else:
            out.insert(0, (k, v))
    return out


def drop_first(segs):
    segs = list(segs)
    while segs:
        k, v = segs[0]
        if k == "one":
            return segs[1:]
        if eng().decide(v.lo < v.hi):
            r = v.sub(v.lo + 1, v.hi)
            return [("run", r)] + segs[1:]
        segs = segs[1:]
    return segs


def drop_last(segs):
    segs = list(segs)
    while segs:
        k, v = segs[-1]
        if k == "one":
            return segs[:-1]
        if eng().decide(v.lo < v.hi):
            r = v.sub(v.lo, v.hi - 1)
            return segs[:-1] + [("run", r)]
        segs = segs[:-1]
    return segs


class SymList(list):
    """mutable segmented list; the built-in storage stays empty"""

    def __init__(self, segs=()):
        list.__init__(self)
        self.segs = list(segs)

    @classmethod
    def of(cls, vals):
        return cls([("one", v) for v in vals])

    has_run = SymSeq.has_run
    len_expr = SymSeq.len_expr
    values = SymSeq.values
    mapped = SymSeq.mapped
    locate = SymSeq.locate
    slice = SymSeq.slice
    __len__ = SymSeq.__len__
    __bool__ = SymSeq.__bool__
    __getitem__ = SymSeq.__getitem__

    def __iter__(self):
        # live native iteration (supports growth during iteration)
        i = 0
        while i < len(self.segs):
            k, v = self.segs[i]
            if k == "run":
                raise Unsupported("native iteration over a symbolic list")
            yield v
            i += 1

    def __reversed__(self):
        return iter(list(self.values())[::-1])

    def __repr__(self):
        return "SymList(" + ", ".join(
            repr(v) if k == "one" else f"<{v.label}[{v.lo},{v.hi})>" for k, v in self.segs
        ) + ")"

    def append(self, v):
        self.segs.append(("one", v))

    def extend(self, o):
        self.segs.extend(segs_of(o))

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        if not isinstance(o, (list, SymSeq)):
            return NotImplemented
        return SymList(self.segs + segs_of(o))

    def __radd__(self, o):
        if not isinstance(o, (list, SymSeq)):
            return NotImplemented
        return SymList(segs_of(o) + self.segs)

    def __mul__(self, n):
        if isinstance(n, SymNum):
            if len(self.segs) == 1 and self.segs[0][0] == "one":
                v = self.segs[0][1]
                return SymList([("run", Run(z3.IntVal(0), n.e, lambda j: v))])
            raise Unsupported("list * symbolic")
        return SymList(self.segs * n)

    __rmul__ = __mul__

    def insert(self, i, v):
        if isinstance(i, int) and i == 0:
            self.segs.insert(0, ("one", v))
        elif not self.has_run() and isinstance(i, int):
            self.segs.insert(i, ("one", v))
        else:
            raise Unsupported("insert into a symbolic list")

    def split_run(self, si, j):
        """isolate element j of the run at segment si; returns its segment index"""
        k, r = self.segs[si]
        a = r.sub(r.lo, j)
        b = r.sub(j + 1, r.hi)
        v = r.elem(j)
        self.segs[si : si + 1] = [("run", a), ("one", v), ("run", b)]
        return si + 1

    def pop(self, i=-1):
        if not self.segs:
            raise IndexError("pop from empty list")
        kind, si, v = self.locate(i)
        if kind == "run":
            run, j = v
            si = self.split_run(si, j)
            v = self.segs[si][1]
        del self.segs[si]
        return v

    def __delitem__(self, i):
        self.pop(i)

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            raise Unsupported("slice assignment")
        kind, si, x = self.locate(i)
        if kind == "run":
            si = self.split_run(si, x[1])
        self.segs[si] = ("one", v)

    def find(self, x):
        """segment index of the first element equal to x, or None (forks)"""
        for si, (k, v) in enumerate(list(self.segs)):
            if k == "one":
                if v is x or bool(v == x):
                    return si
            else:
                j = run_split_first(v, lambda e: (True if e is x else e == x))
                if j is not None:
                    return self.split_run(si, j)
        return None

    def remove(self, x):
        si = self.find(x)
        if si is None:
            raise ValueError("list.remove(x): x not in list")
        del self.segs[si]

    def index(self, x, *a):
        if a or self.has_run():
            raise Unsupported("list.index")
        for i, (k, v) in enumerate(self.segs):
            if v is x or bool(v == x):
                return i
        raise ValueError("not in list")

    def count(self, x):
        return sum(1 for v in self.values() if v is x or bool(v == x))

    def __contains__(self, x):
        for k, v in self.segs:
            if k == "one":
                if v is x or bool(v == x):
                    return True
            elif run_has(v, lambda e: (True if e is x else e == x)) is not None:
                return True
        return False

    def clear(self):
        self.segs = []

    def copy(self):
        return SymList(self.segs)

    def reverse(self):
        self.segs = [("one", v) for v in self.values()[::-1]]

    def sort(self, *, key=None, reverse=False):
        if self.has_run():
            if reverse:
                raise Unsupported("sort of a symbolic run, descending")
            self.segs = stable_sorted(self.segs, key)
            return
        self.segs = [("one", v) for v in sorted(self.values(), key=key, reverse=reverse)]

    def __eq__(self, o):
        if not isinstance(o, (list,)):
            return False
        a, b = self.segs, segs_of(o)
        if all(k == "one" for k, _ in a) and all(k == "one" for k, _ in b):
            if len(a) != len(b):
                return False
            for (_, x), (_, y) in zip(a, b):
                if not (x is y or bool(x == y)):
                    return False
            return True
        if len(b) == 0 or len(a) == 0:
            n = self.len_expr() if len(b) == 0 else segs_len(b)
            return eng().decide(lift(n) == 0)
        raise Unsupported("equality of symbolic lists")

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None

    def __deepcopy__(self, memo):
        import copy

        return SymList.of([copy.deepcopy(v, memo) for v in self.values()])


def stable_sorted(segs, key):
    """contract of sorted(): ascending, elements with equal keys in their order
    (insertion of each element into what is provably sorted before it)"""
    key = key or (lambda v: v)
    en = eng()

    def any_of(k, v):
        if k == "one":
            return None, v
        j = en.fresh_int(v.label + ".q").e
        en.add(v.inside(j))
        e = v.elem(j)
        return j, e

    def ordered(k, v, l, w):
        """provably every element of the first is at most every one of the second"""
        en.solver.push()
        made = []
        try:
            i, x = any_of(k, v)
            j, y = any_of(l, w)
            made = [(r, t) for r, t in ((v, i), (w, j)) if t is not None]
            if v is w:
                en.add(i < j)
            c = poly(lambda: key(x) <= key(y))
            return c is not None and en.check(z3.Not(c)) == z3.unsat
        finally:
            for r, t in made:
                r.cache.pop(z3.simplify(t).sexpr(), None)
            en.solver.pop()

    out = []
    for k, v in segs:
        if k == "run" and not ordered(k, v, k, v):
            raise Unsupported("sorted() of a symbolic run in unknown order")
        if all(ordered(l, w, k, v) for l, w in out):
            out.append((k, v))
            continue
        if k == "run":
            raise Unsupported("sorted() of symbolic runs in unknown order")
        for i, (l, w) in enumerate(out):
            if l == "one":
                if bool(key(v) < key(w)):
                    out.insert(i, (k, v))
                    break
            else:
                j = run_split_first(w, lambda e: key(v) < key(e))
                if j is not None:
                    out[i : i + 1] = [("run", w.sub(w.lo, j)), (k, v), ("run", w.sub(j, w.hi))]
                    break
        else:
            out.append((k, v))
    return out


def shape_of_len(n):
    """segments (with the position of each) of the sequence n is the length of"""
    segs = getattr(n, "shape", None)
    if segs is None:
        return None
    for _ in range(n.cut):
        segs = drop_last(segs)
    return segs


def positions(segs, skip=0):
    """[(offset, kind, value)] of the segments"""
    off = z3.IntVal(0)
    out = []
    for k, v in segs:
        out.append((z3.simplify(off), k, v))
        off = off + (1 if k == "one" else v.length())
    return out


def segs_len(segs):
    return SymSeq(segs).len_expr()


def run_split_first(run, pred):
    """First index of the run satisfying pred, or None.

    Forks: either no element satisfies pred (recorded as a fact of the run) or
    a witness index is returned with the elements before it failing pred.
    """
    en = eng()
    # quick refutation: no element can satisfy it
    j0 = en.fresh_int(run.label + ".q").e
    en.solver.push()
    try:
        en.add(z3.And(run.lo <= j0, j0 < run.hi))
        e0 = run.elem(j0)
        c = poly(lambda: pred(e0))
        refuted = c is not None and en.check(c) == z3.unsat
    finally:
        run.cache.pop(z3.simplify(j0).sexpr(), None)
        en.solver.pop()
    if refuted:
        return None
    if c is None:
        raise Unsupported("undetermined predicate over a symbolic run")
    if en.choose(2) == 0:
        run.add_fact(lambda j, e: z3.Not(poly_req(lambda: pred(e))))
        recheck(run)
        return None
    j, e = run.fresh_elem("wit")
    en.assume_feasible(boolx(pred(e)))
    # elements before the witness fail pred
    run.add_fact(lambda jj, ee: z3.Implies(jj < j, z3.Not(poly_req(lambda: pred(ee)))))
    return j


def run_has(run, pred):
    """index of an element satisfying pred, or None (forks only when neither
    is provable)"""
    en = eng()
    for j in list(en.live_idx) + [j for j, _ in run.cache.values()]:
        c = poly(lambda: pred(run.elem(j)))
        if c is not None and en.valid(z3.And(run.inside(j), c)):
            return j
    return run_split_first(run, pred)


def recheck(run):
    if not eng().feasible(z3.BoolVal(True)):
        raise PathEnd("infeasible")


def poly_req(p):
    c = poly(p)
    if c is None:
        raise Unsupported("undetermined predicate over a symbolic run")
    return c


def segs_of(o):
    if isinstance(o, (SymList, SymSeq)):
        return list(o.segs)
    if isinstance(o, SymMapView):
        return o.get_segs()
    return [("one", v) for v in o]


def is_symseq(o):
    return isinstance(o, (SymList, SymSeq, SymMapView))


class SymMapView:
    def get_segs(self):
        raise NotImplementedError


class OneRunMap:
    """Segmented dict: explicit (key, value) entries plus runs of other entries.

    Keys are compared with == (forking); run entries have facts."""

    def __init__(self, segs):
        self.segs = segs  # list of ['one', key, value] | ['run', Run of (key, value)]

    def _find(self, key):
        for i, s in enumerate(self.segs):
            if s[0] == "one":
                if s[1] is key or bool(s[1] == key):
                    return i
            else:
                j = run_split_first(s[1], lambda kv: kv[0] == key)
                if j is not None:
                    r = s[1]
                    a = r.sub(r.lo, j)
                    b = r.sub(j + 1, r.hi)
                    k, v = r.elem(j)
                    self.segs[i : i + 1] = [["run", a], ["one", k, v], ["run", b]]
                    return i + 1
        return None

    def setdefault(self, key, default=None):
        i = self._find(key)
        if i is None:
            self.segs.append(["one", key, default])
            return default
        return self.segs[i][2]

    def _lookup(self, key):
        """(value,) or None; reading does not change the representation"""
        for s in self.segs:
            if s[0] == "one":
                if s[1] is key or bool(s[1] == key):
                    return (s[2],)
            else:
                j = run_has(s[1], lambda kv: kv[0] == key)
                if j is not None:
                    return (s[1].elem(j)[1],)
        return None

    def get(self, key, default=None):
        v = self._lookup(key)
        return default if v is None else v[0]

    def __contains__(self, key):
        return self._lookup(key) is not None

    def __getitem__(self, key):
        v = self._lookup(key)
        if v is None:
            raise KeyError(key)
        return v[0]

    def __setitem__(self, key, value):
        i = self._find(key)
        if i is None:
            self.segs.append(["one", key, value])
        else:
            self.segs[i][2] = value

    def pop(self, key, *d):
        i = self._find(key)
        if i is None:
            if d:
                return d[0]
            raise KeyError(key)
        v = self.segs[i][2]
        del self.segs[i]
        return v

    def __delitem__(self, key):
        self.pop(key)

    def items(self):
        return SymSeq(
            [("one", (s[1], s[2])) if s[0] == "one" else ("run", s[1]) for s in self.segs]
        )

    def keys(self):
        return SymSeq(
            [
                ("one", s[1]) if s[0] == "one" else ("run", s[1].map(lambda kv, j: kv[0]))
                for s in self.segs
            ]
        )

    def values(self):
        return SymSeq(
            [
                ("one", s[2]) if s[0] == "one" else ("run", s[1].map(lambda kv, j: kv[1]))
                for s in self.segs
            ]
        )

    def __iter__(self):
        return iter(self.keys())
