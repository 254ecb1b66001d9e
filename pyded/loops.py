"""Loop rule: havoc + inferred inductive invariants (Houdini), with the last
iteration kept exact (loops are rotated).

For a run segment of a `for` loop, or a `while` loop marked "cut", the body is
executed once from an arbitrary iteration: every heap location or local that
some iteration may change is havocked, the surviving candidate invariants are
assumed, and at the back edge they are checked again.  The set of changed
locations and the set of surviving candidates are found by restarting the
exploration until both are stable.
"""

import enum
import sys
import types
from fractions import Fraction

import z3

from . import engine as E
from .engine import (
    PathEnd,
    Poison,
    Restart,
    SymBool,
    SymNum,
    SymStr,
    Unsupported,
    boolx,
    eng,
    is_pynum,
    lift,
)
from .seq import OneRunMap, Run, SymList, SymSeq, is_symseq, positions, run_split_first, segs_of, shape_of_len

LEAF_TYPES = (
    type(None),
    bool,
    int,
    float,
    str,
    bytes,
    Fraction,
    type,
    types.FunctionType,
    types.BuiltinFunctionType,
    types.ModuleType,
    types.GeneratorType,
    types.CodeType,
    enum.Enum,
)


class Snap:
    def __init__(self):
        self.vals = {}  # path -> leaf repr
        self.set = {}  # path -> setter(value)
        self.raw = {}  # path -> raw value


def snapshot(roots):
    """canonical picture of the heap reachable from roots (name -> object)"""
    sn = Snap()
    seen = {}
    keep = []
    queue = [(("root", k), v, None) for k, v in roots.items() if first_roots(k)]
    # what can be reached from the object itself has its path from there
    late = [(("root", k), v, None) for k, v in roots.items() if not first_roots(k)]
    qi = 0
    while qi < len(queue) or late:
        if qi >= len(queue):
            queue, late, qi = late, [], 0
        path, v, setter = queue[qi]
        qi += 1
        if setter is not None:
            sn.set[path] = setter
        sn.raw[path] = v
        if isinstance(v, Poison):
            sn.vals[path] = ("poison",)
            continue
        if isinstance(v, SymNum):
            sn.vals[path] = ("num", z3.simplify(v.e))
            continue
        if isinstance(v, SymBool):
            sn.vals[path] = ("bool", z3.simplify(v.e))
            continue
        if isinstance(v, SymStr):
            sn.vals[path] = ("str", z3.simplify(v.e))
            continue
        if isinstance(v, bool):
            sn.vals[path] = ("bool", z3.BoolVal(v))
            continue
        if is_pynum(v) and not isinstance(v, enum.Enum):
            try:
                sn.vals[path] = ("num", z3.simplify(lift(v)))
            except Unsupported:
                sn.vals[path] = ("py", repr(v))
            continue
        if isinstance(v, enum.Enum):
            sn.vals[path] = ("id", id(v))
            keep.append(v)
            continue
        if v is None or isinstance(v, (str, bytes)):
            sn.vals[path] = ("py", v)
            continue
        if isinstance(v, types.MethodType):
            sn.vals[path] = ("method", v.__func__.__qualname__)
            queue.append((path + (("self",),), v.__self__, None))
            continue
        if isinstance(v, LEAF_TYPES) or getattr(type(v), "__ded_leaf__", False) or z3.is_expr(v):
            if isinstance(v, types.FunctionType) and "<lambda>" in v.__qualname__:
                sn.vals[path] = ("fn", v.__code__.co_code, v.__qualname__)
            else:
                sn.vals[path] = ("id", id(v))
            keep.append(v)
            continue
        if id(v) in seen:
            sn.vals[path] = ("ref", seen[id(v)])
            continue
        seen[id(v)] = path
        keep.append(v)
        if isinstance(v, SymList):
            kinds = []
            for i, (k, x) in enumerate(v.segs):
                if k == "one":
                    kinds.append("o")
                    queue.append(
                        (path + (("s", i),), x, (lambda val, L=v, i=i: L.segs.__setitem__(i, ("one", val))))
                    )
                else:
                    kinds.append(run_key(x))
            sn.vals[path] = ("symlist", tuple(kinds))
            continue
        if isinstance(v, OneRunMap):
            kinds = []
            for i, s in enumerate(v.segs):
                if s[0] == "one":
                    kinds.append("o")
                    queue.append((path + (("mk", i),), s[1], None))
                    queue.append(
                        (path + (("mv", i),), s[2], (lambda val, s=s: s.__setitem__(2, val)))
                    )
                else:
                    kinds.append(run_key(s[1]))
            sn.vals[path] = ("symmap", tuple(kinds))
            continue
        if isinstance(v, SymSeq):
            sn.vals[path] = ("symseq", tuple("o" if k == "one" else run_key(x) for k, x in v.segs))
            for i, (k, x) in enumerate(v.segs):
                if k == "one":
                    queue.append((path + (("s", i),), x, None))
            continue
        if isinstance(v, (list, tuple)):
            sn.vals[path] = (type(v).__name__, len(v))
            for i, x in enumerate(v):
                st = (lambda val, L=v, i=i: L.__setitem__(i, val)) if isinstance(v, list) else None
                queue.append((path + (("i", i),), x, st))
            continue
        if isinstance(v, dict):
            keys = []
            for i, (k, x) in enumerate(v.items()):
                kk = dkey(k, i)
                keys.append(kk)
                if not isinstance(k, (str, int, float, bool, type(None), enum.Enum)):
                    queue.append((path + (("key", kk),), k, None))
                queue.append(
                    (path + (("k", kk),), x, (lambda val, D=v, k=k: D.__setitem__(k, val)))
                )
            sn.vals[path] = ("dict", tuple(keys))
            continue
        if isinstance(v, (set, frozenset)):
            sn.vals[path] = ("set", frozenset(id(x) if not isinstance(x, (str, int)) else x for x in v))
            keep.extend(v)
            continue
        # generic object
        attrs = getattr(type(v), "__ded_attrs__", None)
        d = getattr(v, "__dict__", None)
        sn.vals[path] = ("obj", type(v))
        if d is not None:
            for a in sorted(d):
                if attrs is not None and a not in attrs:
                    continue
                if a in SKIP_ATTRS:
                    continue
                queue.append(
                    (path + (("a", a),), d[a], (lambda val, D=d, a=a: D.__setitem__(a, val)))
                )
    sn.keep = keep
    return sn


SKIP_ATTRS = {"_logger"}


def run_key(r):
    return ("run", r.label, z3.simplify(r.lo).sexpr(), z3.simplify(r.hi).sexpr())


def dkey(k, i):
    if isinstance(k, (str, int, float, bool, type(None))):
        return k
    if isinstance(k, enum.Enum):
        return str(k)
    return ("obj", i)


def same_leaf(a, b):
    if a[0] != b[0]:
        return False
    if a[0] in ("num", "bool", "str"):
        x, y = a[1], b[1]
        if x.eq(y):
            return True
        if x.sort() != y.sort():
            return False
        return eng().valid(x == y)
    return a == b


def diff(a, b):
    """paths whose value differs (shallowest for structural differences)"""
    out = set()
    bad = []
    for p in list(a.vals) + [p for p in b.vals if p not in a.vals]:
        if any(p[: len(q)] == q for q in bad):
            continue
        x, y = a.vals.get(p), b.vals.get(p)
        if x is None or y is None:
            # present on one side only: blame the parent container (already
            # reported when its shape differs); otherwise report it
            par = p[:-1]
            if par in bad:
                continue
            out.add(p)
            bad.append(p)
            continue
        if not same_leaf(x, y):
            out.add(p)
            if not (x[0] == y[0] and x[0] in ("num", "bool", "str")):
                bad.append(p)
    return out


class LoopRecord:
    """what the exploration has learnt about one loop"""

    def __init__(self, lid):
        self.lid = lid
        self.changed = {}  # path -> kind
        self.dropped = set()
        self.templates = {}  # path of an append-only list -> template of the appended values


def record(lid):
    return eng().persist.setdefault(("loop", lid), LoopRecord(lid))


def all_roots(loc):
    r = {}
    if "self" in loc:
        r["local:self"] = loc["self"]
    for k, v in eng().roots.items():
        r["world:" + k] = v
    for k in sorted(loc):
        if k.startswith(("__", ".", "ded__")) or k == "self":
            continue
        r["local:" + k] = loc[k]
    return r


def first_roots(k):
    return k == "local:self" or k.startswith("world:")


class Generic:
    """one generic iteration of a loop"""

    def __init__(self, lid, loc, assigned, index=None, before=None, run=None):
        en = eng()
        self.run = run
        from .sim import new_epoch

        new_epoch()
        self.before = dict(en.names) if before is None else before
        en.occurs[lid] = en.occurs.get(lid, 0) + 1
        self.base = lid
        if en.persist.get(("occ", lid)):
            lid = f"{lid}@{en.occurs[lid]}"
        self.lid = lid
        self.rec = record(lid)
        self.index = index  # (j, lo, hi) for a run of a for loop
        self.entry = snapshot(all_roots(loc))
        self.entry_inv = self.eval_invs()
        en.loops_seen.setdefault(lid, 0)
        en.loops_seen[lid] += 1
        en.loops_here = True
        over = {}
        if self.rec.changed:
            en.abstract = True
        self.havoced = []
        self.listpaths = []
        self.carried = []
        for p, kind in sorted(self.rec.changed.items(), key=lambda kv: (len(kv[0]), repr(kv[0]))):
            self.havoc(p, kind, over)
        # drop overrides for names the code of the loop does not assign
        self.over = over
        loc2 = dict(loc)
        loc2.update(over)
        self.loc0 = loc2
        # candidate invariants
        self.cands = self.candidates()
        for nm, head, _ in self.cands:
            if nm not in self.rec.dropped:
                en.add(head)
        for (nm, f), e0 in zip(en.invariants, self.entry_inv):
            key = ("inv", nm)
            if key in self.rec.dropped:
                continue
            if e0 is None or not en.valid(e0):
                self.rec.dropped.add(key)
                raise Restart()
            en.add(boolx(f()))
        self.head = snapshot(all_roots(loc2))

    def eval_invs(self):
        out = []
        for nm, f in eng().invariants:
            ok, v = eng().spec_eval(lambda: boolx(f()))
            out.append(v if ok else None)
        return out

    def havoc(self, p, kind, over):
        en = eng()
        cur = self.entry.raw.get(p)
        ent = self.entry.vals.get(p)
        name = f"hv.{self.lid}." + path_name(p)
        if kind == "num" and ent is not None and ent[0] == "num":
            v = en.fresh_int(name) if ent[1].is_int() and not self.rec.changed_real(p) else en.fresh_real(name)
            self.havoced.append((p, v, ent[1]))
        elif kind == "bool" and ent is not None and ent[0] == "bool":
            v = en.fresh_bool(name)
        elif kind == "list" and ent is not None and ent[0] == "symlist" and p in self.rec.templates and self.index is not None:
            L = self.entry.raw[p]
            tpl = self.rec.templates[p]
            j, lo, hi = self.index
            L.segs.append(("run", Run(lo, j, lambda k, r=self.run: tpl.at(k, r), [], "acc." + path_name(p))))
            self.listpaths.append((p, L, len(L.segs)))
            return
        elif kind == "carry" and self.index is not None:
            # what the previous iteration left, the first time: what was there
            j, lo, hi = self.index
            self.carried.append(p)
            if en.decide(j == lo):
                return
            v = self.rec.templates[p].at(z3.simplify(j - 1), self.run)
        else:
            v = Poison(f"{path_name(p)} after a generic iteration of {self.lid}")
        if len(p) == 2 and p[0] == "root" and p[1].startswith("local:"):
            over[p[1][6:]] = v
            return
        st = self.entry.set.get(p)
        if st is None:
            # attribute or item created by the loop
            par = self.entry.raw.get(p[:-1])
            if par is None and p[:-1] not in self.entry.raw:
                return
            step = p[-1]
            if step[0] == "a":
                par.__dict__[step[1]] = v
            elif step[0] == "k" and isinstance(par, dict) and not isinstance(step[1], tuple):
                par[step[1]] = v
            else:
                raise Unsupported(f"loop {self.lid} changes {path_name(p)} structurally")
            return
        st(v)

    def candidates(self):
        out = []
        hv = self.havoced
        for p, v, e in hv:
            out.append((("ge", p), self._c(v.e, e, "ge"), ("ge", p, e)))
            out.append((("le", p), self._c(v.e, e, "le"), ("le", p, e)))
            if self.index is not None:
                j, lo, hi = self.index
                for c in (1, -1):
                    out.append(
                        (("idx", p, c), self._lin(v.e, e, c, j - lo), ("idx", p, e, c))
                    )
                for nm, S in eng().psums:
                    out.append(
                        (("psum", p, nm), self._lin(v.e, e, 1, S(j) - S(lo)), ("psum", p, e, S))
                    )
        for i, (p, v, e) in enumerate(hv[:14]):
            for p2, v2, e2 in hv[:i]:
                out.append(
                    (("dif", p, p2), self._dif(v.e, e, v2.e, e2), ("dif", p, e, p2, e2))
                )
        return out

    @staticmethod
    def _c(v, e, op):
        a, b = E.coerce(v, e)
        return a >= b if op == "ge" else a <= b

    @staticmethod
    def _lin(v, e, c, k):
        return E.as_real(v) == E.as_real(e) + c * E.as_real(k)

    @staticmethod
    def _dif(v, e, v2, e2):
        return E.as_real(v) - E.as_real(e) == E.as_real(v2) - E.as_real(e2)

    def backedge(self, loc):
        en = eng()
        for p, L, n in self.listpaths:
            pass
        end = snapshot(all_roots(loc))
        # append-only lists with a template
        skip = []
        for p, L, n in self.listpaths:
            cur = end.raw.get(p)
            tpl = self.rec.templates[p]
            j, lo, hi = self.index
            if cur is L and len(L.segs) == n + 1 and L.segs[n][0] == "one" and tpl.matches(L.segs[n][1], j, self.run) and templ_ok(with_refs(L.segs[n][1], self.run, j), j, self.before):
                skip.append(p)
            else:
                del self.rec.templates[p]
                self.rec.changed[p] = "poison"
                if not en.persist.get(("occ", self.base)):
                    # perhaps another time the same loop is run
                    en.persist[("occ", self.base)] = True
                raise Restart()
        for p in self.carried:
            j, lo, hi = self.index
            if p not in end.raw or not struct_eq(self.rec.templates[p].at(j, self.run), end.raw[p]):
                del self.rec.templates[p]
                self.rec.changed[p] = "poison"
                raise Restart()
            skip.append(p)
        new = {}
        for p in sorted({self.whole(p, end) for p in diff(self.head, end)}, key=repr):
            if any(p[: len(q)] == q for q in skip):
                continue
            x, y = self.head.vals.get(p), end.vals.get(p)
            if (
                self.index is not None
                and x is not None
                and y is not None
                and x[0] == "symlist"
                and y[0] == "symlist"
                and self.rec.changed.get(p) is None
            ):
                L = end.raw[p]
                n0 = len(x[1])
                if len(L.segs) == n0 + 1 and L.segs[n0][0] == "one":
                    j, lo, hi = self.index
                    tpl = make_template(L.segs[n0][1], j, self.before, self.run)
                    if tpl is not None:
                        self.rec.templates[p] = tpl
                        new[p] = "list"
                        continue
            if p in self.rec.changed:
                if self.rec.changed[p] == "num" and y is not None and y[0] == "num":
                    if x[1].sort() != y[1].sort():
                        self.rec.real.add(p)
                        raise Restart()
                    continue
                if self.rec.changed[p] == "bool" and y is not None and y[0] == "bool":
                    continue
                if self.rec.changed[p] == "poison":
                    continue
                self.rec.changed[p] = "poison"
                raise Restart()
            if x is not None and y is not None and x[0] == y[0] and x[0] in ("num", "bool"):
                new[p] = x[0]
            else:
                new[p] = "poison"
                if self.index is not None and x is not None and p in end.raw and len(p) == 2:
                    tpl = make_template(end.raw[p], self.index[0], self.before, self.run)
                    if tpl is not None:
                        self.rec.templates[p] = tpl
                        new[p] = "carry"
        if new:
            self.rec.changed.update(new)
            raise Restart()
        # inductiveness of the candidates
        vals = {p: end.vals.get(p) for p, _, _ in self.havoced}
        bad = False
        for nm, _, spec in self.cands:
            if nm in self.rec.dropped:
                continue
            c = self.at_end(spec, vals)
            en.inv_checks += 1
            if c is None or not en.valid(c):
                self.rec.dropped.add(nm)
                bad = True
        for nm, f in en.invariants:
            key = ("inv", nm)
            if key in self.rec.dropped:
                continue
            ok, c = en.spec_eval(lambda: boolx(f()))
            en.inv_checks += 1
            if not ok or not en.valid(c):
                self.rec.dropped.add(key)
                bad = True
        if bad:
            raise Restart()
        raise PathEnd("back edge")

    def whole(self, p, end):
        """a part of a tuple changes: the tuple is another one"""
        for i in range(2, len(p)):
            if any(isinstance(sn.raw.get(p[:i]), tuple) for sn in (self.head, end)):
                return p[:i]
        return p

    def settle(self):
        """after the last iteration: what it appended belongs to the run, too"""
        if self.index is None:
            return
        j, lo, hi = self.index
        for p, L, n in self.listpaths:
            if len(L.segs) != n + 1 or L.segs[n][0] != "one" or L.segs[n - 1][0] != "run":
                continue
            tpl, v = self.rec.templates[p], L.segs[n][1]
            acc = L.segs[n - 1][1]
            if constant(with_refs(v, self.run, j)) and tpl.matches(v, j, self.run) and acc.hi.eq(j):
                L.segs[n - 1 :] = [("run", Run(lo, hi, acc.gen, [], acc.label))]

    def at_end(self, spec, vals):
        def num(p):
            v = vals.get(p)
            return v[1] if v is not None and v[0] == "num" else None

        v = num(spec[1])
        if v is None:
            return None
        k = spec[0]
        if k in ("ge", "le"):
            return self._c(v, spec[2], k)
        j = lo = None
        if self.index is not None:
            j, lo, hi = self.index
        if k == "idx":
            return self._lin(v, spec[2], spec[3], j + 1 - lo)
        if k == "psum":
            S = spec[3]
            return self._lin(v, spec[2], 1, S(j + 1) - S(lo))
        if k == "dif":
            w = num(spec[3])
            return None if w is None else self._dif(v, spec[2], w, spec[4])


def _changed_real(self, p):
    return p in self.real


LoopRecord.changed_real = _changed_real
_old_init = LoopRecord.__init__


def _init(self, lid):
    _old_init(self, lid)
    self.real = set()


LoopRecord.__init__ = _init


def path_name(p):
    out = str(p[1])
    for s in p[2:]:
        out += "." + str(s[-1])
    return out


# -- templates: a value as a function of the loop index ----------------------


class Template:
    def __init__(self, j, v):
        self.j = j
        self.v = v

    def at(self, k, run=None):
        return subst(self.v, self.j, k, run)

    def matches(self, v, k, run=None):
        return struct_eq(self.at(k, run), v)


class ElemRef:
    """in a template: the element of the loop itself (or a member of it)"""

    def __init__(self, path):
        self.path = path

    def of(self, e):
        for i in self.path:
            e = e[i]
        return e

    @staticmethod
    def find(v, run, j):
        if run is None or isinstance(v, (SymNum, SymBool, SymStr, tuple, str, int, float, type(None))):
            return None
        todo = [((), run.elem(j))]
        while todo:
            path, e = todo.pop()
            if e is v:
                return ElemRef(path)
            if type(e) is tuple:
                todo += [(path + (i,), x) for i, x in enumerate(e)]
        return None


def subst(v, j, k, run=None):
    if isinstance(v, ElemRef):
        return v.of(run.elem(k))
    f = getattr(v, "__ded_at__", None)
    if f is not None:
        return f(j, k)
    if isinstance(v, SymNum):
        return SymNum(z3.substitute(v.e, (j, k)))
    if isinstance(v, SymBool):
        return SymBool(z3.substitute(v.e, (j, k)))
    if isinstance(v, SymStr):
        return SymStr(z3.substitute(v.e, (j, k)))
    if isinstance(v, dict):
        return {a: subst(b, j, k, run) for a, b in v.items()}
    if isinstance(v, tuple):
        return tuple(subst(b, j, k, run) for b in v)
    if isinstance(v, SymList):
        return SymList([("one", subst(x, j, k, run)) for kk, x in v.segs])
    return v


def make_template(v, j, before, run=None):
    v = with_refs(v, run, j)
    return Template(j, v) if templ_ok(v, j, before) else None


def with_refs(v, run, j):
    r = ElemRef.find(v, run, j)
    if r is not None:
        return r
    if type(v) is tuple:
        return tuple(with_refs(b, run, j) for b in v)
    if type(v) is dict:
        return {a: with_refs(b, run, j) for a, b in v.items()}
    if isinstance(v, SymList) and not v.has_run():
        return SymList([(k, with_refs(x, run, j)) for k, x in v.segs])
    return v


def old_symbols(e, j, before):
    """every constant of e is the loop index or existed before the iteration"""
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if x.eq(j):
                continue
            n = x.decl().name()
            base, k = n, 0
            if "!" in n and n.rsplit("!", 1)[1].isdigit():
                base, k = n.rsplit("!", 1)
            if int(k) >= before.get(base, 0):
                return False
        todo.extend(x.children())
    return True


def templ_ok(v, j, before):
    if isinstance(v, ElemRef):
        return True
    if getattr(v, "__ded_at__", None) is not None:
        return True
    if isinstance(v, (SymNum, SymBool, SymStr)):
        return old_symbols(v.e, j, before)
    if isinstance(v, (str, int, float, bool, type(None), bytes)):
        return True
    if isinstance(v, dict):
        return all(isinstance(a, str) and templ_ok(b, j, before) for a, b in v.items())
    if isinstance(v, tuple):
        return all(templ_ok(b, j, before) for b in v)
    if isinstance(v, SymList):
        return not v.has_run() and all(templ_ok(x, j, before) for _, x in v.segs)
    return False


def constant(v):
    """no two of it can be told apart by changing one"""
    if type(v) is tuple:
        return all(map(constant, v))
    return isinstance(v, (ElemRef, SymNum, SymBool, SymStr, str, int, float, type(None), bytes))


def struct_eq(a, b):
    if a is b:
        return True
    f = getattr(a, "__ded_same__", None)
    if f is not None:
        return f(b)
    if isinstance(a, (SymNum, SymBool, SymStr)):
        if type(a) is not type(b):
            return False
        return eng().valid(a.e == b.e)
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(struct_eq(a[k], b[k]) for k in a)
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and all(map(struct_eq, a, b))
    if isinstance(a, SymList):
        return (
            isinstance(b, SymList)
            and not b.has_run()
            and len(a.segs) == len(b.segs)
            and all(struct_eq(x[1], y[1]) for x, y in zip(a.segs, b.segs))
        )
    return type(a) is type(b) and a == b


def cells_of(*fns):
    """what the functions capture, by name"""
    out, todo, seen = {}, list(fns), set()
    while todo:
        f = todo.pop()
        if type(f) in (tuple, list):
            todo += f
        elif isinstance(f, types.FunctionType) and f.__closure__ and id(f) not in seen:
            seen.add(id(f))
            for n, c in zip(f.__code__.co_freevars, f.__closure__):
                try:
                    v = c.cell_contents
                except ValueError:
                    continue
                out[n if out.get(n, v) is v else f"{n}.{len(out)}"] = v
                todo.append(v)
    return out


def no_effects(fns, thunk):
    """thunk(), which must not change the world or what fns capture"""
    roots = lambda: all_roots(cells_of(*fns))
    before = snapshot(roots())
    r = thunk()
    if diff(before, snapshot(roots())):
        raise E.Effect("effectful expression over a symbolic run")
    return r


# -- loop handles --------------------------------------------------------------


def same_seg(a, b):
    return a[0] == b[0] and a[1] is b[1]


class ForLoop:
    __ded_leaf__ = True
    grow = env = None

    def __init__(self, lid, iterable, pred=None, acc=None):
        self.lid = lid
        if (pred or acc) and eng().persist.get(("effects", lid)):
            pred = acc = None
        self.acc = acc
        self.pred = pred
        self.sym = None
        self.native = None
        self.live = None
        self.gen = None
        self.cur = None
        if isinstance(iterable, SymList) and not iterable.has_run():
            self.live = iterable
            self.pos = 0
        elif is_symseq(iterable):
            # a list is iterated live: what is appended meanwhile is visited too
            self.grow = iterable if isinstance(iterable, SymList) else None
            self.sym = list(segs_of(iterable))
            self.pos = 0
        else:
            self.native = iter(iterable)

    def __iter__(self):
        return self

    def __next__(self):
        if self.native is not None:
            return next(self.native)
        if self.live is not None:
            if self.pos >= len(self.live.segs):
                raise StopIteration
            k, v = self.live.segs[self.pos]
            if k == "run":
                raise Unsupported("list grew a symbolic run while being iterated")
            self.pos += 1
            return v
        en = eng()
        if self.cur is not None:
            loc = sys._getframe(1).f_locals if self.env is None else self.env()
            j, lo, hi = self.cur
            g = self.gen
            self.cur = self.gen = None
            if not en.decide(j == hi - 1):
                if g is None:
                    raise Unsupported("generic iteration without havoc")
                g.backedge(dict(loc))
            elif g is not None:
                g.settle()
        if self.grow is not None:
            now = self.grow.segs
            if len(now) < len(self.sym) or any(not same_seg(a, b) for a, b in zip(self.sym, now)):
                raise Unsupported("a symbolic list is changed while it is iterated")
            self.sym = list(now)
        while self.pos < len(self.sym):
            k, v = self.sym[self.pos]
            self.pos += 1
            if k == "one":
                return v
            if self.acc is not None:
                # nothing but appending to lists: the comprehension
                try:
                    self.acc(v, self.grow)
                except E.Effect:
                    eng().persist[("effects", self.lid)] = True
                    raise Restart()
                except Unsupported:
                    self.acc = None
                else:
                    continue
            if not en.decide(v.lo < v.hi):
                continue
            if self.pred is not None:
                # a search: the first element that satisfies the test, if any
                try:
                    j = no_effects([self.pred], lambda: run_split_first(v, self.pred))
                except E.Effect:
                    eng().persist[("effects", self.lid)] = True
                    raise Restart()
                except Unsupported:
                    self.pred = None
                else:
                    if j is None:
                        continue
                    return v.elem(j)
            self.before = dict(en.names)
            j = en.fresh_int(f"{self.lid}.j").e
            en.add(v.inside(j))
            self.cur, self.run = (j, v.lo, v.hi), v
            self.want = f"{self.lid}/{v.label}"
            return v.elem(j)
        raise StopIteration

    def top(self, loc):
        if self.cur is None or self.gen is not None:
            return None
        self.gen = Generic(self.want, loc, None, self.cur, self.before, self.run)
        return self.gen.over


MAX_SHAPES = 5


def shape_of(sn):
    """heap shape: everything but the numeric contents (selects the loop
    invariant a state is checked against; the check itself is `backedge`)"""
    out = []
    for p, v in sn.vals.items():
        k = v[0]
        if k in ("num", "bool", "str", "id", "poison"):
            v = (k,)
        elif k == "fn":
            v = (k, v[2])
        elif k == "set":
            v = (k, len(v[1]))
        elif k == "obj":
            v = (k, v[1].__qualname__)
        out.append((p, v))
    return tuple(sorted(out, key=repr))


def stable_hash(sig):
    import hashlib

    return hashlib.sha1(repr(sig).encode()).hexdigest()[:8]


class WhileLoop:
    __ded_leaf__ = True

    def __init__(self, lid):
        self.lid = lid
        self.n = 0
        self.cur = None
        self.last = None

    def index_top(self, loc, name, bound):
        """`while i < len(s)` with i counting up by one: like a `for` loop over
        the positions of s (checked, not assumed: otherwise the general rule)"""
        en = eng()

        def give_up():
            en.persist[("noindex", self.lid)] = True
            raise Restart()

        i = loc.pop(name, None)
        n = bound()
        if type(i) is int and type(n) is int and self.cur is None and (self.last is None or type(self.last) is int and i > self.last):
            self.last = i  # counts up to a known number: unrolled
            return None
        segs = shape_of_len(n) if isinstance(n, SymNum) else None
        if segs is None or not (isinstance(i, SymNum) or type(i) is int):
            if self.cur is not None:
                give_up()
            return False
        i = lift(i)
        if not i.is_int():
            give_up()
        if self.cur is not None:
            j, lo, hi, off, g = self.cur
            self.cur = None
            if not en.valid(i == off + j - lo + 1):
                give_up()
            if not en.decide(j == hi - 1):
                g.backedge(loc)
            g.settle()
        elif self.last is not None and not en.valid(i == self.last + 1):
            give_up()
        self.last = i
        for off, k, v in positions(segs):
            if not en.valid(i == off):
                continue
            if k == "one":
                return None
            if not en.decide(v.lo < v.hi):
                continue
            before = dict(en.names)
            j = en.fresh_int(f"{self.lid}.j").e
            en.add(v.inside(j))
            g = Generic(f"{self.lid}/{v.label}", loc, None, (j, v.lo, v.hi), before, v)
            self.cur = (j, v.lo, v.hi, off, g)
            return {**g.over, name: SymNum(z3.simplify(off + j - v.lo))}
        if en.valid(i == lift(n)):
            return None
        give_up()

    def top(self, loc, name=None, bound=None):
        if E.ENG is None:
            return None
        en = eng()
        if name is not None and not en.persist.get(("noindex", self.lid)):
            r = self.index_top(dict(loc), name, bound)
            if r is not False:
                return r
        self.n += 1
        mode = en.persist.get(("mode", self.lid), "native")
        if mode == "native":
            if self.n > en.loop_limit:
                en.persist[("mode", self.lid)] = "cut"
                raise Restart()
            return None
        loc = dict(loc)
        if self.n == 1:
            self.first = set(loc)
            self.gens = []
        sig = shape_of(snapshot(all_roots({k: v for k, v in loc.items() if k in self.first})))
        for g, gs in self.gens:
            if gs == sig:
                g.backedge(loc)
        if len(self.gens) >= MAX_SHAPES:
            self.gens[-1][0].backedge(loc)
        key = self.lid if not self.gens else f"{self.lid}~{len(self.gens)}~{stable_hash(sig)}"
        g = Generic(key, loc, None)
        self.gens.append((g, sig))
        return g.over

    def infeasible(self):
        raise PathEnd("loop condition")
