"""Contracts of the structural activities: sequential, while, repeat, parallel."""

import openclsim.model.base_activities as model_
import simpy

from .common import *
from pyded.sim import ProcEvent

from .world import OutOfContract
from .gates import fires

B = "openclsim.model."
T_SEQ = [
    B + "sequential_activity.SequentialActivity.__init__",
    B + "sequential_activity.SequentialActivity.main_process_function",
    B + "base_activities.RegisterSubProcesses.register_sequential_subprocesses",
    B + "base_activities.GenericActivity.parse_expression",
]
T_PAR = [
    B + "parallel_activity.ParallelActivity.__init__",
    B + "parallel_activity.ParallelActivity.main_process_function",
    B + "base_activities.RegisterSubProcesses.register_parallel_subprocesses",
    B + "base_activities.GenericActivity.parse_expression",
]
T_LOOP = [
    B + "while_activity.ConditionProcessMixin.main_process_function",
    B + "while_activity.WhileActivity.__init__",
    B + "while_activity.RepeatActivity.__init__",
    B + "base_activities.RegisterSubProcesses.register_sequential_subprocesses",
    B + "base_activities.GenericActivity.parse_expression",
]


class AName(str):
    """name (or id) of an anonymous sub-activity"""

    __ded_leaf__ = True

    def __new__(cls, txt, owner):
        s = str.__new__(cls, txt)
        s.owner = owner
        return s

    # the same name of another element of the run (for loop-carried values)
    def __ded_at__(self, j, k):
        o = self.owner.__ded_at__(j, k)
        return o.name if self is self.owner.name else o.id

    def __ded_same__(self, o):
        return isinstance(o, AName) and str(o) == str(self) and self.owner.__ded_same__(o.owner)


class Sub(model_.GenericActivity):
    """A sub-activity by contract: a name, an id and a process that ends at
    some time.  Anything else is internal to it (an activity that was never
    initialised: only what is set here exists)."""

    __ded_leaf__ = True

    def __init__(self, W, label, j=None):
        self.W, self.label, self.j = W, label, j
        if j is None:
            self.name, self.id = label, label + "-id"
        else:
            self.name, self.id = AName(label + "[]", self), AName(label + "[]-id", self)
        self.ev = None
        self.gate = []
        self.nreg = 0

    def __ded_at__(self, j, k):
        W = self.W.K.current("world")
        if self.j is None:
            return W.named[self.label]
        return W.anon(self.label, self.W.K.at(self.j, j, k))

    def __ded_same__(self, o):
        return self is o or (isinstance(o, Sub) and self.j is not None and o.j is not None and self.label == o.label and self.W.K.same(self.j, o.j))

    @property
    def main_process(self):
        W = self.W
        if self.ev is None:
            self.ev = W.end_of(self)
        return self.ev

    @main_process.setter
    def main_process(self, v):
        raise OutOfContract("assigning main_process")

    @property
    def start_event_parent(self):
        if not self.gate:
            raise AttributeError("start_event_parent")
        return self.gate[-1]

    @start_event_parent.setter
    def start_event_parent(self, v):
        self.gate.append(v)

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("ded"):
            raise AttributeError(k)
        if k in ("register_subprocesses", "sub_processes", "additional_logs", "start_event_parent"):
            raise AttributeError(k)
        raise OutOfContract(f"sub-activity.{k}")


class NestSub(Sub, model_.RegisterSubProcesses):
    """a structural sub-activity: its own gates are set up on request"""

    __ded_leaf__ = True

    def register_subprocesses(self):
        self.nreg += 1


class Names(dict):
    """registry[...]: name -> set of activities, including the anonymous ones"""

    __ded_leaf__ = True

    def get(self, key, default=None):
        if isinstance(key, AName):
            return {key.owner} if self.anon(key) else default
        return dict.get(self, key, default)

    def __getitem__(self, key):
        if isinstance(key, AName):
            if self.anon(key):
                return {key.owner}
            raise KeyError(key)
        return dict.__getitem__(self, key)

    def __contains__(self, key):
        return self.anon(key) if isinstance(key, AName) else dict.__contains__(self, key)

    which = "name"

    def anon(self, key):
        return key is getattr(key.owner, self.which)


class Ids(Names):
    __ded_leaf__ = True
    which = "id"


class SubWorld:
    """an environment, a registry and a list of sub-activities"""

    def __init__(self, K, shapes, cls=Sub):
        self.K = K
        K.current("world", self)
        self.env, self.t0 = new_env(K)
        self.T = {}
        shape = self.shape = K.choice("subs", shapes)
        one = lambda l, c=cls: ("one", self.mk(l, c))
        run = lambda l: ("run", l, lambda j: self.anon(l, j))
        self.named = {}
        self.anons = {}
        parts = []
        for p in shape.split():
            parts.append(run(p) if p.isupper() else one(p))
        self.subs = K.seq(*parts)
        nm, ids = Names(), Ids()
        for s in self.named.values():
            nm[s.name] = {s}
            ids[s.id] = {s}
        if not K.symbolic:
            for s in self.subs:
                nm.setdefault(s.name, {s})
                ids.setdefault(s.id, {s})
        self.registry = {"name": nm, "id": ids}

    def mk(self, label, cls):
        s = cls(self, label)
        self.named[label] = s
        return s

    def anon(self, label, j):
        if not self.K.symbolic:
            s = Sub(self, f"{label}{j}")
            return s
        k = (label, self.K.term(j))
        if k not in self.anons:
            self.anons[k] = Sub(self, label, j)
        return self.anons[k]

    def end_of(self, s):
        """the process of s ends at an arbitrary time"""
        K = self.K
        if s.j is not None:
            f = K.func("T." + s.label, 1)
            T = f(s.j)
        else:
            T = K.real("T." + s.label, lo=0)
        s.T = T
        return EnvEvent(self.env, T, s.label)


SEQ_SHAPES = ["", "w", "w x", "A w x B", "A w x B z"]


@contract("C06", "gates", T_SEQ, budget=100)
def seq_gates(K):
    """each sub-activity may start exactly when its predecessor is done, the
    first when the sequence starts"""
    import openclsim.model as model

    what = K.choice("activity", ["Sequential", "While", "Repeat"])
    # arbitrary neighbours w, x; x may itself be structural
    W = SubWorld(K, ["f", "f x", "w x", "f A w x B", "f A w x"], Sub)
    env = W.env
    again = K.choice("again", [False, True])
    if "x" in W.named:
        x = W.named["x"]
        if K.choice("structural", [False, True]):
            x.__class__ = NestSub
    kw = dict(env=env, registry=W.registry, name="seq", id="seq-id", sub_processes=W.subs)
    if what == "Sequential":
        act = model.SequentialActivity(**kw)
    elif what == "While":
        act = model.WhileActivity(condition_event=EnvEvent(env, K.real("T.c"), "c"), **kw)
    else:
        act = model.RepeatActivity(repetitions=2, **kw)
    K.check("the given sub-activities are used", K.starts_with(act.sub_processes, K.frozen(W.subs)) and K.is_true(K.eq(K.len(act.sub_processes), K.len(W.subs))))
    if again:
        act.register_subprocesses()
    n = 2 if again else 1
    for s in W.named.values():
        K.check("the gate of every sub-activity is set", len(s.gate) >= 1)
        if s.__class__ is NestSub:
            K.check("structural sub-activities set up their own gates", s.nreg == n)
    f = W.named.get("f")
    if f is not None:
        g = act.parse_expression(f.start_event_parent)
        K.check("the first waits for the start of the sequence", waits_for(K, env, g, act.start_sequence))
    if "x" in W.named:
        prev = W.named["w"] if "w" in W.named else f
        prev.main_process
        got = act.parse_expression(W.named["x"].start_event_parent)
        K.check("the next waits for the end of its predecessor", K.eq(fires(K, got), K.max(env.now, prev.T)))
    K.check("the sequence has not started yet", not act.start_sequence.triggered)


def waits_for(K, env, ev, target):
    """ev fires exactly when target fires"""
    while isinstance(ev, (simpy.AllOf, simpy.AnyOf)) and len(ev._events) == 1:
        ev = ev._events[0]
    return ev is target


class SubLog:
    """ghost automaton of the log of a sequence: outer START/STOP and one
    START/STOP pair per watched sub-activity"""

    def __init__(self, K, W, act, passes=False):
        self.K, self.W, self.act = K, W, act
        self.g = Box(main=0, t0=0, t1=0, last=0)
        self.s = {}
        K.root("ghost.seq", self.g)
        for l in W.named:
            b = self.s[l] = Box(n=0, t0=0, t1=0)
            K.root("ghost.sub." + l, b)
        ghost_log(K, act, self.on)

    def on(self, obj, t, aid, state, label):
        K, g, W = self.K, self.g, self.W
        K.check("entry carries the activity id", K.eq(aid, self.act.id))
        K.check("entry stamped with the current time", K.eq(t, W.env.now))
        K.check("only START and STOP", state in ("START", "STOP"))
        if no_label(label):
            K.check("START first, STOP last, once each", K.eq(g.main, 0 if state == "START" else 1))
            g.main = 1 if state == "START" else 2
            if state == "START":
                g.t0 = t
            else:
                g.t1 = t
            return
        ok = isinstance(label, dict) and label.get("type") == "subprocess"
        K.check("sub-activity entries are labelled as such", ok)
        K.check("sub-activity entries lie between START and STOP", K.eq(g.main, 1))
        ref = label.get("ref")
        for l, s in W.named.items():
            if ref == s.id and not isinstance(ref, AName):
                self.sub(l, state, t)
                return
        if K.symbolic:
            K.check("entries refer to a sub-activity", isinstance(ref, AName) and ref is ref.owner.id)
        else:
            K.check("entries refer to a sub-activity", any(ref == s.id for s in W.subs))

    def sub(self, l, state, t):
        K, b = self.K, self.s[l]
        K.check(f"sub-activity {l}: START, then STOP, once", K.eq(b.n, 0 if state == "START" else 1))
        b.n = b.n + 1
        if state == "START":
            b.t0 = t
        else:
            b.t1 = t


@contract("C06", "run", T_SEQ, budget=300)
def seq_run(K):
    import openclsim.model as model

    W = SubWorld(K, SEQ_SHAPES)
    env = W.env
    act = model.SequentialActivity(env=env, registry=W.registry, name="seq", id="seq-id", sub_processes=W.subs)
    L = SubLog(K, W, act)
    P = Plugins(K, env, act, on_post=lambda: K.check("STOP is logged before the after-plugins run", K.eq(L.g.main, 2)))
    start = act.start_sequence
    rec = Box(n=0, t=0)
    K.root("ghost.start", rec)
    watch_succeed(K, env, start, rec)
    Driver(K, env).run(act.main_process_function(activity_log=act, env=env))
    g = L.g
    K.check("START and STOP were logged", K.eq(g.main, 2))
    K.check("START directly after the before-plugins", K.eq(g.t0, P.g.t_pre1))
    K.check("the sequence is started once, at START", K.and_(K.eq(rec.n, 1), K.eq(rec.t, g.t0)))
    K.check("plugins ran", K.and_(K.eq(P.g.pre, 1), K.eq(P.g.post, 1), K.eq(P.g.sa, g.t0), K.eq(P.g.sp, P.g.t_pre0)))
    K.check("after-plugins start at STOP", K.eq(P.g.t_post, g.t1))
    for l, b in L.s.items():
        s = W.named[l]
        s.main_process
        K.check("every sub-activity has a START and a STOP", K.eq(b.n, 2))
        K.check("a sub-activity stops when its process ends", K.eq(b.t1, K.max(b.t0, s.T)))
        K.check("the sequence outlasts its sub-activities", K.and_(K.le(g.t0, b.t0), K.le(b.t1, g.t1)))
    if W.shape.startswith("w"):
        K.check("the first starts with the sequence", K.eq(L.s["w"].t0, g.t0))
    if "x" in L.s:
        K.check("the next starts when its predecessor stops", K.eq(L.s["x"].t0, L.s["w"].t1))
    last = W.shape.split()[-1:] or [""]
    if last[0] in L.s:
        K.check("the sequence stops with its last sub-activity", K.eq(L.s[last[0]].t1, g.t1))
    if not W.shape:
        K.check("an empty sequence takes no time", K.eq(g.t0, g.t1))


def watch_succeed(K, env, ev, rec):
    """count and time the success of a start event"""
    orig = ev.succeed

    def succeed(value=None):
        rec.n = rec.n + 1
        rec.t = env.now
        return orig(value)

    ev.succeed = succeed


# -- while and repeat
class PassSub(Sub):
    """a sub-activity that is run again in every pass: its process in pass p
    ends at an arbitrary time that depends on p"""

    __ded_leaf__ = True

    @property
    def main_process(self):
        return EnvEvent(self.W.env, self.T, self.label)

    @main_process.setter
    def main_process(self, v):
        raise OutOfContract("assigning main_process")

    @property
    def T(self):
        W = self.W
        if self.j is None:
            return W.K_func(self.label, 1)(W.passes.n)
        return W.K_func(self.label, 2)(W.passes.n, self.j)

    @property
    def start_event_parent(self):
        raise OutOfContract("reading start_event_parent")

    @start_event_parent.setter
    def start_event_parent(self, v):
        if self.j is None:
            setattr(self.W.gatebox, self.label, v)


class PassNest(PassSub, model_.RegisterSubProcesses):
    """... and is structural itself: its own gates are set up on request"""

    __ded_leaf__ = True

    def register_subprocesses(self):
        if self.j is None:
            self.W.nested.fresh = 1


class LoopWorld(SubWorld):
    def __init__(self, K, shapes):
        self.passes = Box(n=1)
        self.gatebox = Box()
        self.nested = Box(fresh=0)
        self.funcs = {}
        super().__init__(K, shapes, PassSub)
        if "w" in self.named:
            self.named["w"].__class__ = PassNest
        K.root("ghost.passes", self.passes)
        K.root("ghost.gates", self.gatebox)
        K.root("ghost.nested", self.nested)

    def K_func(self, label, ar):
        if label not in self.funcs:
            self.funcs[label] = self.K.func("T." + label, ar)
        return self.funcs[label]

    def anon(self, label, j):
        if not self.K.symbolic:
            return PassSub(self, f"{label}{j}")
        k = (label, self.K.term(j))
        if k not in self.anons:
            self.anons[k] = PassSub(self, label, j)
        return self.anons[k]


class StartEvent(simpy.Event):
    """an event of which the success is observed"""

    def __init__(self, env, on):
        super().__init__(env)
        self.ded_on = on

    def succeed(self, value=None):
        self.ded_on(self)
        return super().succeed(value)


def patch_everywhere(name, orig, new):
    """rebind a public function in every module of the package that uses it"""
    import sys

    undo = []
    for m in list(sys.modules.values()):
        if getattr(m, "__name__", "").startswith("openclsim") and getattr(m, name, None) is orig:
            setattr(m, name, new)
            undo.append(m)
    return lambda: [setattr(m, name, orig) for m in undo]


def loop_run(K, kind, shapes, form="event"):
    import openclsim.model as model

    W = LoopWorld(K, shapes)
    env = W.env
    started = Box(n=0)
    K.root("ghost.started", started)
    acts = []

    def on_start(ev):
        if acts and ev is acts[0].start_sequence:
            started.n = started.n + 1
            if "w" in W.named:
                K.check("structural sub-activities are set up again for every pass", K.eq(W.nested.fresh, 1))
                W.nested.fresh = 0

    env.event = lambda: StartEvent(env, on_start)
    t_own = K.real("T.own", lo=0)
    cond = EnvEvent(env, K.real("T.cond", lo=0), "cond")
    kw = dict(env=env, registry=W.registry, name="loop", id="loop-id", sub_processes=W.subs)
    if kind == "Repeat":
        n = K.int("repetitions", lo=1)
        act = model.RepeatActivity(repetitions=n, **kw)
    else:
        n = 1_000_000
        ce = cond
        if form == "container":

            class Tank:
                __ded_leaf__ = True

                class container:
                    __ded_leaf__ = True

                    @staticmethod
                    def get_container_event(level, operator, id_="default"):
                        K.check("the condition is about the given level", level == 5 and operator == "ge" and id_ == "c")
                        return cond

            ce = {"type": "container", "concept": Tank(), "state": "ge", "level": 5, "id_": "c"}
        act = model.WhileActivity(condition_event=ce, **kw)
    acts.append(act)
    K.invariant("no more passes than allowed", lambda: W.passes.n <= n)
    K.invariant("every finished pass was started", lambda: K.eq(started.n, W.passes.n))
    K.invariant("the next pass is still to be started", lambda: K.eq(started.n, W.passes.n - 1))

    class Own:
        __ded_leaf__ = True

        @property
        def main_process(self):
            # the process of the loop itself: does not end before the loop
            return EnvEvent(env, t_own, "own")

    own = Own()
    W.registry["name"]["loop"] = {own}
    W.registry["id"]["loop-id"] = {own}
    L = SubLog(K, W, act)
    g = L.g
    P = Plugins(K, env, act, on_post=lambda: K.check("STOP is logged before the after-plugins run", K.eq(g.main, 2)))
    last = W.shape.split()[-1]
    def end_of_pass():
        for l, b in L.s.items():
            K.check("every sub-activity ran in every pass", K.eq(b.n, 2))
            K.check("a sub-activity stops when its process of this pass ends", K.eq(b.t1, K.max(b.t0, W.named[l].T)))
        if "x" in L.s:
            K.check("the next starts when its predecessor stops", K.eq(L.s["x"].t0, L.s["w"].t1))
        K.check("every pass is started, once", K.eq(started.n, W.passes.n))
        if last in L.s:
            K.check("a pass ends with its last sub-activity", K.eq(L.s[last].t1, env.now))

    def again(processes):
        # contract of register_processes: every sub-activity gets a new process
        same = processes is act.sub_processes or (
            K.starts_with(processes, K.frozen(act.sub_processes)) and K.eq(K.len(processes), K.len(act.sub_processes))
        )
        K.check("the sub-activities are registered again", same)
        K.check("another pass only between START and STOP", K.eq(g.main, 1))
        end_of_pass()
        for b in L.s.values():
            b.n = 0
        if kind == "Repeat":
            K.check("another pass only while repetitions are left", W.passes.n < n)
        else:
            K.check("another pass only if the condition has not occurred before", K.le(env.now, cond.T))
        W.passes.n = W.passes.n + 1

    def on_yield(ev):
        if not K.is_true(K.eq(g.main, 1)):
            return
        K.check("every pass is started, once", K.eq(started.n, W.passes.n))
        if W.shape.startswith("w"):
            K.check("the first sub-activity waits for the start of this pass", waits_for(K, env, act.parse_expression(W.gatebox.w), act.start_sequence))

    undo = patch_everywhere("register_processes", model.register_processes, again)
    try:
        Driver(K, env, on_yield=on_yield).run(act.main_process_function(activity_log=act, env=env))
    finally:
        undo()
    K.check("START and STOP were logged", K.eq(g.main, 2))
    K.check("START directly after the before-plugins", K.eq(g.t0, P.g.t_pre1))
    K.check("plugins ran", K.and_(K.eq(P.g.pre, 1), K.eq(P.g.post, 1), K.eq(P.g.sa, g.t0), K.eq(P.g.sp, P.g.t_pre0)))
    K.check("after-plugins start at STOP", K.eq(P.g.t_post, g.t1))
    for l, b in L.s.items():
        K.check("every sub-activity ran in the last pass", K.eq(b.n, 2))
        K.check("no sub-activity outlasts the loop", K.le(b.t1, g.t1))
    if last in L.s:
        K.check("the loop stops with its last sub-activity", K.eq(L.s[last].t1, g.t1))
    if kind == "Repeat":
        K.check("exactly the given number of passes", K.eq(W.passes.n, n))
    else:
        K.check("stops after a pass only if the condition occurred by then", K.or_(K.le(cond.T, g.t1), K.eq(W.passes.n, n)))


@contract("C08", "repeat", T_LOOP, budget=300, loop_limit=1)
def c08_repeat(K):
    loop_run(K, "Repeat", ["w", "A w x B"])


@contract("C08", "while", T_LOOP, budget=300, loop_limit=1)
def c08_while(K):
    loop_run(K, "While", ["w", "A w x B"])


@contract("C08", "while-container", T_LOOP, budget=300, loop_limit=1)
def c08_while_container(K):
    loop_run(K, "While", ["w x"], "container")


@contract("C08", "many-passes", T_LOOP, budget=60, bounded="real runs of at most 30000 passes", concrete=True)
def c08_many(K):
    """the same loops in a real simulation, with many passes"""
    import openclsim.model as model

    env = simpy.Environment(initial_time=K.choice("start", [0, 1000]))
    t0 = env.now
    n = K.choice("passes", [1, 3, 12, 70, 130, 300, 1030, 1500, 3000] + [10030, 30000] * (K.choice("very many", range(12)) == 0))
    kind = K.choice("kind", ["Repeat", "time", "container"])
    kw = dict(env=env, registry={}, name="loop")
    passes = Box(n=0)

    class Body(model.BasicActivity):
        def main_process_function(self, activity_log, env):
            passes.n += 1
            yield env.timeout(1)
            if kind == "container" and passes.n == n:
                done.succeed()

    done = env.event()
    subs = [Body(env=env, registry=kw["registry"], name="body", duration=1)]
    if kind == "Repeat":
        act = model.RepeatActivity(sub_processes=subs, repetitions=n, **kw)
    else:
        ce = done if kind == "container" else {"type": "time", "start_time": t0 + n - 0.5}
        act = model.WhileActivity(sub_processes=subs, condition_event=ce, **kw)
    model.register_processes([act])
    env.run()
    K.check("exactly as many passes as asked for", passes.n == n)
    K.check("the loop ends with its last pass", env.now == t0 + n)


# -- parallel
@contract("C07", "gates", T_PAR, budget=100)
def par_gates(K):
    """every sub-activity may start exactly when the parallel activity starts"""
    import openclsim.model as model

    W = SubWorld(K, ["", "w", "A w x B"], Sub)
    env = W.env
    if "x" in W.named and K.choice("structural", [False, True]):
        W.named["x"].__class__ = NestSub
    act = model.ParallelActivity(env=env, registry=W.registry, name="par", id="par-id", sub_processes=W.subs)
    K.check("the given sub-activities are used", K.starts_with(act.sub_processes, K.frozen(W.subs)) and K.is_true(K.eq(K.len(act.sub_processes), K.len(W.subs))))
    n = K.choice("again", [1, 2])
    if n == 2:
        act.register_subprocesses()
    K.check("the parallel activity has not started yet", not act.start_parallel.triggered)
    for s in W.named.values():
        K.check("the gate of every sub-activity is set", len(s.gate) >= 1)
        if s.__class__ is NestSub:
            K.check("structural sub-activities set up their own gates", s.nreg == n)
        K.check("it waits for the start of the parallel activity, only", waits_for(K, env, act.parse_expression(s.gate[-1]), act.start_parallel))


class ParWorld(SubWorld):
    def end_of(self, s):
        ev = super().end_of(s)
        return ProcEvent(self.env, ev.T, s.label)


@contract("C07", "run-small", T_PAR, budget=300, bounded="at most 3 sub-activities (all durations)")
def par_run(K):
    par_check(K, ["", "w", "w x", "w x z"])


@contract("C07", "run-large", T_PAR, budget=300, bounded="random runs of 4 to 8 sub-activities", concrete=True)
def par_run_large(K):
    par_check(K, ["w x y z", "w x y z p q", "w x y z p q r s"])


def par_check(K, shapes):
    import openclsim.model as model

    W = ParWorld(K, shapes)
    env = W.env
    act = model.ParallelActivity(env=env, registry=W.registry, name="par", id="par-id", sub_processes=W.subs)
    L = SubLog(K, W, act)
    P = Plugins(K, env, act, on_post=lambda: K.check("STOP is logged before the after-plugins run", K.eq(L.g.main, 2)))
    rec = Box(n=0, t=0)
    K.root("ghost.start", rec)
    watch_succeed(K, env, act.start_parallel, rec)
    Driver(K, env).run(act.main_process_function(activity_log=act, env=env))
    g = L.g
    K.check("START and STOP were logged", K.eq(g.main, 2))
    K.check("START directly after the before-plugins", K.eq(g.t0, P.g.t_pre1))
    K.check("everything is started once, at START", K.and_(K.eq(rec.n, 1), K.eq(rec.t, g.t0)))
    K.check("plugins ran", K.and_(K.eq(P.g.pre, 1), K.eq(P.g.post, 1), K.eq(P.g.sa, g.t0), K.eq(P.g.sp, P.g.t_pre0)))
    K.check("after-plugins start at STOP", K.eq(P.g.t_post, g.t1))
    ends = []
    for l, b in L.s.items():
        s = W.named[l]
        s.main_process
        ends.append(s.T)
        K.check("every sub-activity has a START and a STOP", K.eq(b.n, 2))
        K.check("every sub-activity starts with the parallel activity", K.eq(b.t0, g.t0))
        K.check("a sub-activity stops when its process ends", K.eq(b.t1, K.max(g.t0, s.T)))
    K.check("the parallel activity stops when the last sub-activity is done", K.eq(g.t1, K.max(g.t0, *ends) if ends else g.t0))
