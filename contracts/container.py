"""Contracts of EventsContainer / HasContainer on the real simpy FilterStore."""

from pyded.sim import OutOfContract, mark

from .common import *

TARGETS = [
    "openclsim.core.events_container.EventsContainer.put",
    "openclsim.core.events_container.EventsContainer.get",
    "openclsim.core.events_container.EventsContainer.get_level",
    "openclsim.core.events_container.EventsContainer.get_capacity",
    "openclsim.core.events_container.EventsContainer.container_list",
    "openclsim.core.events_container.EventsContainer.get_container_event",
    "openclsim.core.events_container.EventsContainer.get_empty_event",
    "openclsim.core.events_container.EventsContainer.get_full_event",
    "openclsim.core.events_container.EventsContainer.update_container_events",
    "simpy.resources.store.FilterStore._do_get",
    "simpy.resources.store.Store._do_put",
]

RES = "_reservations"


class Anon:
    """the other kinds of content in an arbitrary container"""

    def __init__(self, K, label):
        self.K, self.label = K, label
        if K.symbolic:
            import z3

            en = K.en
            # other ids: arbitrary strings different from the watched ones
            self.idf = z3.Function(en.uname(label + ".id"), z3.IntSort(), z3.StringSort())
            self.lev = z3.Function(en.uname(label + ".lev"), z3.IntSort(), z3.RealSort())
            self.cap = z3.Function(en.uname(label + ".cap"), z3.IntSort(), z3.RealSort())

    def make(self, j):
        K = self.K
        from pyded.engine import SymNum, SymStr

        e = j.e
        return {"id": SymStr(self.idf(e)), "capacity": SymNum(self.cap(e)), "level": SymNum(self.lev(e))}

    @staticmethod
    def fact(ids, res):
        import z3

        def f(j, v):
            suf = z3.SuffixOf(z3.StringVal(RES), v["id"].e)
            return z3.And(suf if res else z3.Not(suf), *[v["id"].e != z3.StringVal(i) for i in ids])

        return f


class CWorld:
    """an arbitrary container with two watched kinds of content w and y; every
    other kind (arbitrarily many) is anonymous"""

    def __init__(self, K, others=True):
        import openclsim.core as core

        self.K = K
        self.env, self.t0 = new_env(K)
        self.ids = ["w", "y", "w" + RES, "y" + RES]
        self.val = {}
        for i in ("w", "y"):
            cap = K.real(f"cap.{i}", gt=0)
            lev = K.real(f"lvl.{i}", lo=0, hi=cap)
            self.val[i] = [cap, lev]
            self.val[i + RES] = [cap, lev]
        order = K.choice("order", [("w", "y"), ("y", "w")] if others else [("y", "w")])
        if K.symbolic:
            # representation invariant of the container after initialisation:
            # one record per kind and one for its reservations, in any order
            n = K.int("store_capacity", lo=1)
            c = core.EventsContainer(self.env, store_capacity=n)
            A, B = Anon(K, "A"), Anon(K, "B")
            ids = self.ids + ["elsewhere"]
            kinds, resv = [Anon.fact(ids, False)], [Anon.fact(ids, True)]

            def one(i):
                return ("one", {"id": i, "capacity": self.val[i][0], "level": self.val[i][1]})

            first, second = order
            its = [one(first), one(first + RES), one(second), one(second + RES)]
            if others:
                # which side of the watched records the anonymous kinds and
                # reservations stand on is arbitrary
                its.insert(0, ("run", "itemsA", A.make, kinds))
                its.insert(3, ("run", "itemsB", B.make, resv))
            its = K.seq(*its)
            for k, r in its.segs:
                if k == "run":
                    K.en.add(r.lo < r.hi)  # no other kinds: C04/default-content
            from pyded.engine import SymNum, lift

            K.assume(SymNum(lift(its.len_expr())) <= 2 * n)
            c.items = its
            from pyded.seq import OneRunMap

            if not isinstance(getattr(c, "_container_events", None), dict):
                raise OutOfContract("representation of the outstanding level events")
            c._container_events = OneRunMap([["run", self.anon_events("E")]])
        else:
            c = core.EventsContainer(self.env, store_capacity=4)
            names = K.choice("others", [[], ["a"], ["a", "b"]])
            pos = K.choice("pos", [0, 1, 2])
            ids = list(order)
            for nm in names:
                ids.insert(min(pos, len(ids)), nm)
                self.val[nm] = [9.0, 4.0]
            c.initialize_container([{"id": i, "capacity": self.val[i][0], "level": self.val[i][1]} for i in ids])
            self.names = names
        self.c = c
        self.order = order
        K.root("container", c)
        for i, (cap, lev) in self.val.items():
            if i == "y" + RES or (K.symbolic and i == "y"):
                continue
            if not (K.eq(c.get_level(i), lev) is not False and K.eq(c.get_capacity(i), cap) is not False):
                raise OutOfContract("representation of the container")
        if K.symbolic:
            ok = K.and_(*[K.eq(c.get_level(i), v[1]) for i, v in self.val.items()])
            from pyded.engine import boolx

            if not K.en.valid(boolx(ok)):
                raise OutOfContract("representation of the container")

    def anon_events(self, label):
        import z3
        from pyded.seq import Run

        K = self.K
        # the other events: all waiting, all due, or all fired already
        st = K.choice("other events", ["waiting", "due", "fired"])
        self.anon_true, self.anon_triggered = st != "waiting", st == "fired"
        n = K.en.fresh_int("len.events").e
        K.en.add(n >= 1)
        return Run(z3.IntVal(0), n, lambda j: (AnonKey(self, j), AnonEvent(self, j)), [], "events" + label)

    def level_spec(self, when=""):
        K, c = self.K, self.c
        for i, (cap, lev) in self.val.items():
            K.check(f"level of {'the watched' if i[0] == 'w' else 'any other'} content{when}", K.eq(c.get_level(i), lev))
            K.check("capacities never change", K.eq(c.get_capacity(i), cap))

    def change(self, kind, amount, id_):
        v = self.val[id_]
        v[1] = v[1] + amount if kind == "put" else v[1] - amount
        if id_ == "default":
            return getattr(self.c, kind)(amount)
        return getattr(self.c, kind)(amount, id_)


class AnonKey(tuple):
    """key of an outstanding event other than the watched one (its content is
    not in the container, so its level counts as 0)"""

    __ded_leaf__ = True

    def __new__(cls, W, j):
        self = tuple.__new__(cls, ("elsewhere", 1, "lt" if W.anon_true else "gt"))
        self.j = j
        return self

    def __eq__(self, o):
        if self is o or not isinstance(o, AnonKey):
            return self is o
        from pyded.engine import SymBool

        return SymBool(self.j == o.j)

    def __ne__(self, o):
        r = self.__eq__(o)
        return not r if isinstance(r, bool) else ~r

    __hash__ = tuple.__hash__


class AnonEvent:
    """any other outstanding level event"""

    __ded_leaf__ = True

    def __init__(self, W, j):
        self.W = W

    @property
    def triggered(self):
        return self.W.anon_triggered

    processed = triggered

    def succeed(self, value=None):
        K = self.W.K
        K.check("an event fires only when its condition holds", self.W.anon_true)
        K.check("an event fires once", not self.W.anon_triggered)
        return self


def holds(op, lev, bound, K):
    return {"gt": lev > bound, "ge": lev >= bound, "lt": lev < bound, "le": lev <= bound}[op]


@contract("C04", "levels", TARGETS, budget=200)
def levels(K):
    """put/get change one level, by exactly the amount, at once"""
    W = CWorld(K)
    W.level_spec(" at the start")
    K.check("a kind that is not there has level 0 and capacity 0", K.and_(K.eq(W.c.get_level("elsewhere"), 0), K.eq(W.c.get_capacity("elsewhere"), 0)))
    kind = K.choice("kind", ["put", "get"])
    a = K.real("amount")
    id_ = K.choice("id", ["w", "w" + RES])
    ev = W.change(kind, a, id_)
    W.level_spec(" after a put or get")
    K.check("the change is immediate", ev.triggered)
    K.check("the change takes no time", K.eq(ev.ded_T, W.env.now))
    if K.choice("processed", [True, False]):
        mark(ev)
        W.level_spec(" after a put or get was processed")
    names = list_names(K, W)
    K.check("the kinds of content stay listed", names)


def list_names(K, W):
    l = W.c.container_list
    if K.symbolic:
        return "w" in l and "y" in l and "w" + RES not in l
    return sorted(l) == sorted(["w", "y"] + W.names)


@contract("C04", "default-content", TARGETS, budget=100)
def default_content(K):
    """a container with one kind of content (HasContainer)"""
    import openclsim.core as core

    env, t0 = new_env(K)
    cap = K.real("capacity", gt=0)
    lev = K.real("level", lo=0, hi=cap)
    nm = K.choice("store_capacity", [None, 1, 4])
    kw = {} if nm is None else dict(store_capacity=nm)
    ob = core.HasContainer(env=env, capacity=cap, level=lev, **kw)
    c = ob.container
    K.check("initial level", K.eq(c.get_level(), lev))
    K.check("initial capacity", K.eq(c.get_capacity(), cap))
    K.check("initial reservations equal the level", K.eq(c.get_level("default" + RES), lev))
    K.check("state shows the level", K.eq(ob.get_state().get("container level"), lev))
    kind = K.choice("kind", ["put", "get"])
    a = K.real("amount")
    getattr(c, kind)(a) if K.choice("how", [0, 1]) else getattr(c, kind)(amount=a, id_="default")
    new = lev + a if kind == "put" else lev - a
    K.check("level after a put or get", K.eq(c.get_level(), new))
    K.check("reservations unaffected", K.eq(c.get_level("default" + RES), lev))
    K.check("state follows the level", K.eq(ob.get_state().get("container level"), new))


@contract("C04", "multi-content", TARGETS, budget=100)
def multi_content(K):
    """HasMultiContainer: initial contents of up to three kinds"""
    import openclsim.core as core

    env, t0 = new_env(K)
    n = K.choice("kinds", [1, 2, 3])
    ini = []
    for i in range(n):
        cap = K.real(f"capacity{i}", gt=0)
        lev = K.real(f"level{i}", lo=0, hi=cap)
        ini.append({"id": f"c{i}", "capacity": cap, "level": lev})
    want = [dict(d) for d in ini]
    ob = core.HasMultiContainer(env=env, initials=K.wrap_list(ini))
    c = ob.container
    w = K.choice("which", list(range(n)))
    kind = K.choice("kind", ["none", "put", "get"])
    if kind != "none":
        a = K.real("amount")
        getattr(c, kind)(a, f"c{w}")
        want[w]["level"] = want[w]["level"] + a if kind == "put" else want[w]["level"] - a
    st = ob.get_state()["container level"]
    for i, d in enumerate(want):
        K.check("level per kind", K.eq(c.get_level(d["id"]), d["level"]))
        K.check("capacity per kind", K.eq(c.get_capacity(d["id"]), d["capacity"]))
        K.check("reservations start at the level", K.eq(c.get_level(d["id"] + RES), ini[i]["level"]))
        K.check("state shows the level per kind", K.eq(st.get(d["id"]), d["level"]))


KINDS = ["gt", "ge", "lt", "le", "full", "empty"]


def events_world(K, kinds=KINDS):
    # by C04/levels other kinds of content do not influence these levels
    W = CWorld(K, others=False)
    kind = K.choice("event", kinds)
    if kind == "full":
        op, bound = "ge", W.val["w"][0]
        req = lambda: W.c.get_full_event(id_="w")
    elif kind == "empty":
        op, bound = "le", 0
        req = lambda: W.c.get_empty_event(id_="w")
    else:
        op, bound = kind, K.real("bound")
        req = lambda: W.c.get_container_event(level=bound, operator=op, id_="w")
    cond = lambda: holds(op, W.val["w"][1], bound, K)
    return W, req, cond


def kernel(K, ev):
    """the kernel processes a triggered event"""
    if ev.callbacks is not None:
        mark(ev)


@contract("C04", "events", TARGETS, budget=400)
def events(K):
    """a level event fires exactly when its condition first holds"""
    W, req, cond = events_world(K)
    E = req()
    c0 = cond()
    K.check("an event fires at once exactly when its condition already holds", K.iff(E.triggered, c0))
    if E.triggered and K.choice("drain", [True, False]):
        kernel(K, E)
    was = E.triggered
    id_ = K.choice("id", ["w", "y"])
    ev = W.change(K.choice("kind", ["put", "get"]), K.real("amount"), id_)
    K.check("the level is changed at once", K.eq(W.c.get_level("w"), W.val["w"][1]))
    kernel(K, ev)
    if was:
        K.check("a fired event stays fired", E.triggered)
    else:
        K.check("the event fires as soon as a change makes its condition true, and not before", K.iff(E.triggered, cond()))


@contract("C04", "events-burst", TARGETS, budget=400)
def events_burst(K):
    """several changes at one instant"""
    W, req, cond = events_world(K, ["ge", "lt", "full"])
    E = req()
    if E.triggered:
        return
    held = cond()
    evs = []
    for i in range(2):
        evs.append(W.change(K.choice("kind", ["put", "get"]), K.real("amount"), "w"))
        held = K.or_(held, cond())
    for ev in evs:
        kernel(K, ev)
    K.check("the event has fired when its condition holds", K.implies(cond(), E.triggered))
    K.check("the event fires only when its condition held at this instant", K.implies(E.triggered, held))


@contract("C04", "events-again", TARGETS, budget=400)
def events_again(K):
    """asking again for the same condition after it came and went"""
    W, req, cond = events_world(K)
    E = req()
    fired_at_start = E.triggered
    if E.triggered:
        kernel(K, E)
    ev = W.change(K.choice("kind", ["put", "get"]), K.real("amount"), "w")
    kernel(K, ev)
    if E.triggered:
        kernel(K, E)
    c1 = cond()
    F = req()
    K.check("a new request is fired when its condition holds", K.implies(c1, F.triggered))
    K.check("a new request waits when its condition does not hold", K.implies(K.not_(c1), not F.triggered))
    if not F.triggered:
        ev = W.change(K.choice("kind2", ["put", "get"]), K.real("amount2"), "w")
        kernel(K, ev)
        K.check("the new event fires as soon as its condition holds", K.iff(F.triggered, cond()))
        if not fired_at_start and not E.triggered:
            K.check("earlier waiters are not forgotten", K.iff(E.triggered, cond()))
    # asking for the condition does not disturb the contents
    W.level_spec(" after level events")


@contract("C04", "events-two", TARGETS, budget=400)
def events_two(K):
    """two waiting conditions are both served"""
    W, req, cond = events_world(K, ["ge", "le"])
    op2 = K.choice("op2", ["ge", "lt"])
    b2 = K.real("bound2")
    E = req()
    id2 = K.choice("id2", ["w", "y"])
    F = W.c.get_container_event(level=b2, operator=op2, id_=id2)
    c2 = lambda: holds(op2, W.val[id2][1], b2, K)
    wasE, wasF = E.triggered, F.triggered
    K.check("second event fires at once exactly when its condition holds", K.iff(wasF, c2()))
    ev = W.change(K.choice("kind", ["put", "get"]), K.real("amount"), K.choice("id", ["w", "y"]))
    kernel(K, ev)
    if not wasE:
        K.check("the first event fires exactly when its condition holds", K.iff(E.triggered, cond()))
    if not wasF:
        K.check("the second event fires exactly when its condition holds", K.iff(F.triggered, c2()))
