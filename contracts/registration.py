"""Contracts of the registration of activities (C16)."""

import openclsim.model.base_activities as model_

from .common import *
from .trees import build, forests

B = "openclsim.model."
T_REG = [B + "helpers.register_processes", B + "helpers.get_subprocesses"]
T_ONE = [
    B + "base_activities.GenericActivity.register_process",
    B + "base_activities.GenericActivity.delayed_process",
]


class RItem(model_.GenericActivity):
    """an activity as registration sees it (never initialised)"""

    __ded_leaf__ = True

    def __init__(self, W, label, children):
        self.W, self.name, self.id = W, label, label + "-id"
        if children is not None:
            self.sub_processes = children
        self.main_process = "old"
        self.tries = 0
        self.registered = 0
        self.needs = None
        self.fails = 0

    def register_process(self):
        K, W = self.W.K, self.W
        K.check("an activity that is registered is not registered again", self.registered == 0)
        self.tries += 1
        for i in W.items:
            K.check("no process of an earlier registration is left when registering", i.main_process is i.fresh())
        if self.needs is not None and self.needs.registered == 0:
            raise RuntimeError("not yet")
        if self.tries <= self.fails:
            raise KeyError("not yet")
        self.registered += 1
        self.main_process = self

    def fresh(self):
        return self if self.registered else None


class RNest(RItem, model_.RegisterSubProcesses):
    __ded_leaf__ = True


class RWorld:
    def __init__(self, K):
        self.K = K
        self.items = []


def world(K, sizes, names="distinct"):
    n = K.choice("activities", sizes)
    f = K.choice("tree", forests(n))
    W = RWorld(K)

    def mk(path, children):
        it = (RItem if children is None else RNest)(W, "n" + "-".join(map(str, path)), children)
        W.items.append(it)
        return it

    return W, build(f, mk)


def given(K, tops):
    return tops[0] if len(tops) == 1 and K.choice("given", ["list", "single"]) == "single" else tops


def tree_register(K, sizes):
    import openclsim.model as model

    W, tops = world(K, sizes)
    items = W.items
    hard = K.choice("order", ["any", "needs next", "needs previous", "fails twice"])
    for a, b in zip(items, items[1:]):
        if hard == "needs next":
            a.needs = b
        elif hard == "needs previous":
            b.needs = a
    if hard == "fails twice":
        for i in items:
            i.fails = 2
    before = [(i, list(i.sub_processes)) for i in items if hasattr(i, "sub_processes")]
    top = list(tops)
    model.register_processes(given(K, tops))
    for i in items:
        K.check("every activity at every depth is registered exactly once", i.registered == 1)
        K.check("every activity has a fresh process", i.main_process is i)
    K.check("the given lists are not changed", all(i.sub_processes == s for i, s in before) and tops == top)


@contract("C16", "tree", T_REG, budget=200, bounded="every tree of at most 4 activities; failing first attempts in 3 patterns")
def reg_tree(K):
    tree_register(K, [1, 2, 3, 4])


@contract("C16", "tree-large", T_REG, budget=200, bounded="random trees of 5 to 7 activities", concrete=True)
def reg_tree_large(K):
    tree_register(K, [5, 6, 7])


@contract("C16", "refused", T_REG, budget=200, bounded="every tree of at most 4 activities")
def reg_refused(K):
    """two activities of one name, or one that cannot be registered at all"""
    import openclsim.model as model

    W, tops = world(K, [2, 3, 4])
    items = W.items
    why = K.choice("why", ["same name", "impossible"])
    i = K.choice("i", range(len(items)))
    if why == "same name":
        j = K.choice("j", [k for k in range(len(items)) if k > i] or [None])
        if j is None:
            return
        items[j].name = items[i].name
    else:
        items[i].fails = 10**9
    try:
        model.register_processes(given(K, tops))
    except AssertionError:
        K.check("refused for the name", why == "same name")
        K.check("nothing is scheduled when refused", all(x.registered == 0 and x.tries == 0 for x in items))
    except ValueError:
        K.check("refused because it cannot be registered", why == "impossible")
    else:
        K.fail("refused")


class Names:
    """pairwise different names of any number of activities"""

    def __init__(self, K):
        self.K = K
        if K.symbolic:
            import z3

            S, I = z3.StringSort(), z3.IntSort()
            self.f = {}
            self.at = z3.Function("name.at", S, I)
            self.kind = z3.Function("name.kind", S, I)

    def name(self, label, j):
        if not self.K.symbolic:
            return f"{label}{j}"
        import z3
        from pyded.engine import SymStr

        f = self.f.setdefault(label, z3.Function("name." + label, z3.IntSort(), z3.StringSort()))
        return SymStr(f(j.e))

    def fact(self, label):
        if not self.K.symbolic:
            return lambda j, v: True
        import z3

        k = ord(label[0])
        fixed = [z3.StringVal(n) for n in ("w", "s", "x")]
        return lambda j, v: z3.And(self.at(v.name.e) == j, self.kind(v.name.e) == k, *[v.name.e != n for n in fixed])


class Any(model_.GenericActivity):
    """one of any number of activities; it can be registered in pass `ready`"""

    __ded_leaf__ = True
    main_process = None

    def __init__(self, R, name, ready, j=0):
        self.R, self.name, self.id, self.ready, self.j = R, name, "id", ready, j

    def __setattr__(self, k, v):
        if k == "main_process":
            self.R.K.check("earlier processes are forgotten first", v is None and self.R.now() == 0)
        else:
            object.__setattr__(self, k, v)

    def register_process(self):
        self.R.attempt(self)


class Watched(RItem):
    """a watched one"""

    __ded_leaf__ = False
    __ded_attrs__ = ("main_process", "tries", "registered")

    def __init__(self, R, name, ready):
        super().__init__(R, name, None)
        self.R, self.ready = R, ready

    def register_process(self):
        self.tries += 1
        self.R.attempt(self)
        K = self.R.K
        K.check("an activity that is registered is not registered again", self.registered == 0)
        K.check("no process of an earlier registration is left when registering", self.main_process is None)
        self.registered += 1
        self.main_process = self


class Reg:
    def __init__(self, K):
        self.K = K
        self.g = Box(A=0, B=0)
        K.root("ghost.registered", self.g)

    def now(self):
        """number of the present pass: the sentinel comes first in each"""
        return self.s.tries

    def attempt(self, it):
        K = self.K
        n = self.now()
        K.check("what is registered is not tried again", n <= it.ready)
        if n < it.ready:
            raise RuntimeError("not yet")
        for c in "AB":
            if it.name is not None and getattr(it, "cls", None) == c:
                setattr(self.g, c, getattr(self.g, c) + 1)


def any_world(K, R):
    N = Names(K)

    def anon(label, ready):
        def make(j):
            a = Any(R, N.name(label, j), ready, j)
            a.cls = label
            return a

        return ("run", label, make, [N.fact(label)])

    R.s = Watched(R, "s", 3)
    return anon("A", 1), anon("B", 2)


@contract("C16", "register-any", T_REG, budget=100)
def reg_any(K):
    """any number of activities, of which some can be registered at once, others
    only after others, in some order"""
    import openclsim.model as model

    R = Reg(K)
    A, B = any_world(K, R)
    w = Watched(R, "w", K.choice("ready", [1, 2, 3]))
    order = K.choice("order", ["A w B", "B w A"])
    tops = K.seq(("one", R.s), *([A, ("one", w), B] if order == "A w B" else [B, ("one", w), A]))
    K.root("sentinel", R.s)
    K.root("watched", w)
    before = K.frozen(tops)
    na = K.len(tops)
    model.register_processes(tops)
    K.check("every activity at every depth is registered exactly once", K.and_(K.eq(w.registered, 1), K.eq(R.s.registered, 1)))
    K.check("and has a fresh process", w.main_process is w)
    K.check("also all the others", K.eq(R.g.A + R.g.B + 2, na))
    K.check("the given lists are not changed", K.and_(K.starts_with(tops, before), K.eq(K.len(tops), na)))


@contract("C16", "refused-any", T_REG, budget=100)
def refused_any(K):
    """two of one name among any number of others"""
    import openclsim.model as model

    R = Reg(K)
    A, B = any_world(K, R)
    w, x = Watched(R, "w", 1), Watched(R, "w" if K.choice("same", [True, False]) else "x", 1)
    R.s.name = K.choice("sentinel", ["s", "x", "w"])
    same = len({w.name, x.name, R.s.name}) < 3
    tops = K.seq(("one", R.s), A, ("one", w), B, ("one", x))
    K.root("sentinel", R.s)
    try:
        model.register_processes(tops)
    except AssertionError:
        K.check("refused for the name", same)
        K.check("nothing is scheduled when refused", w.tries == x.tries == R.s.tries == 0)
    else:
        K.check("refused", not same)


def make(K, env, what, reg, subs):
    import openclsim.model as model

    kw = dict(env=env, registry=reg, name="act", id="act-id")
    if what == "Basic":
        return model.BasicActivity(duration=1, **kw)
    if what == "Sequential":
        return model.SequentialActivity(sub_processes=subs, **kw)
    if what == "Parallel":
        return model.ParallelActivity(sub_processes=subs, **kw)
    if what == "Repeat":
        return model.RepeatActivity(sub_processes=subs, repetitions=2, **kw)
    if what == "While":
        return model.WhileActivity(sub_processes=subs, condition_event=env.event(), **kw)


KINDS = ["Basic", "Sequential", "Parallel", "Repeat", "While"]


@contract("C16", "activity", T_ONE, budget=150)
def reg_activity(K):
    """one activity: one process, that runs the activity once; fresh events;
    entries in the registry; one reservation"""
    env, t0 = new_env(K)
    what = K.choice("activity", KINDS)
    other = object()
    names = K.choice("registry", ["empty", "other", "same name", "again"])
    reg = {}
    if names == "other":
        reg = {"name": {"x": {other}}, "id": {"x-id": {other}}}
    elif names == "same name":
        reg = {"name": {"act": {other}}, "id": {"x-id": {other}}}
    elif names == "again":
        reg = {"name": {}, "id": {}}
    act = make(K, env, what, reg, [])
    if names == "again":
        reg["name"]["act"] = {act}
        reg["id"]["act-id"] = {act}
    started = []
    reserved = []
    n_runs = []

    class Proc:
        __ded_leaf__ = True

    def process(gen):
        p = Proc()
        started.append((gen, p))
        return p

    env.process = process
    if K.choice("shift", [False, True]):
        act.make_container_reservation = lambda: reserved.append(len(started))
        K.want = 1
    else:
        K.want = 0

    def run(activity_log, env):
        n_runs.append((activity_log, env))
        yield EnvEvent(env, K.real("T.run", lo=env.now), "run")

    act.main_process_function = run
    old = act.done_event
    ev = None
    for a in ("start_sequence", "start_parallel"):
        if hasattr(act, a):
            ev = a
    state = "none"
    if ev is not None:
        e0 = getattr(act, ev)
        state = K.choice("event", ["new", "triggered", "processed"])
        if state != "new":
            e0.succeed()
        if state == "processed":
            e0.callbacks = None
    act.register_process()
    K.check("exactly one process is scheduled", len(started) == 1)
    K.check("it is the process of the activity", act.main_process is started[0][1])
    K.check("a fresh done event", act.done_event is not old and not act.done_event.triggered)
    K.check("the reservation is made once, before the process exists", len(reserved) == K.want and all(r == 0 for r in reserved))
    if ev is not None:
        e1 = getattr(act, ev)
        K.check("a start event that has been used is replaced", (e1 is not e0 and not e1.triggered) if state == "processed" else e1 is e0)
    by = lambda k, x: set(reg.get(k, {}).get(x, ()))
    K.check("findable by name", act in by("name", "act"))
    K.check("findable by id", by("id", "act-id") == {act})
    if names == "other":
        K.check("other activities stay findable", by("name", "x") == {other} and by("id", "x-id") == {other})
    if names == "same name":
        K.check("others of the same name stay findable", by("name", "act") == {other, act} and by("id", "x-id") == {other})
    K.check("nothing else is registered", set(reg) == {"name", "id"} and len(reg["name"]) == (2 if names == "other" else 1))
    K.check("nothing runs before the process does", not n_runs)
    Driver(K, env).run(started[0][0])
    K.check("the process runs the activity exactly once", n_runs == [(act, env)])


@contract("C16", "subprocesses", [B + "helpers.get_subprocesses"], budget=100)
def reg_subprocesses(K):
    """flattening a list of activities of any length: nothing lost, nothing
    twice, the given lists unchanged (children of arbitrary many leaves)"""
    import openclsim.model.helpers as h

    class Leaf(model_.GenericActivity):
        __ded_leaf__ = True

        def __init__(self):
            pass

    class Node(model_.GenericActivity, model_.RegisterSubProcesses):
        __ded_leaf__ = True

        def __init__(self):
            pass

    cache = {}

    def leaf(label, j):
        if not K.symbolic:
            return Leaf()
        return cache.setdefault((label, str(j)), Leaf())

    run = lambda l: ("run", l, lambda j: leaf(l, j))
    x = Node()
    y = Leaf()
    x.sub_processes = K.seq(run("E"), ("one", y))
    w = Node()
    w.sub_processes = K.seq(run("C"), ("one", x), run("D"))
    tops = K.seq(run("A"), ("one", w), run("B"))
    f0, f1, f2 = K.frozen(tops), K.frozen(w.sub_processes), K.frozen(x.sub_processes)
    got = h.get_subprocesses(tops)
    K.check("every activity is listed, once: first the given ones, then their sub-activities",
            K.and_(K.starts_with(got, f0 + f1 + f2), K.eq(K.len(got), K.len(tops) + K.len(w.sub_processes) + K.len(x.sub_processes))))
    K.check("the given lists are not changed", K.and_(K.starts_with(tops, f0), K.starts_with(w.sub_processes, f1)))
    K.check("and not lengthened", K.and_(len(K.frozen(tops)) == len(f0), len(K.frozen(w.sub_processes)) == len(f1)))
