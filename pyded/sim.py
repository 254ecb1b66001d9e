"""Contract of the simulation kernel seen by one process function.

`KEnv` is a simpy.Environment whose clock may be symbolic and which never runs
a queue; `Driver` executes one generator under the rely that at each yield of
an event E the process is resumed exactly at max(now, T(E)), where T is the
exact expiry of a Timeout, the (arbitrary) firing time of an environment
event, the maximum of T for AllOf and the minimum for AnyOf.
"""

import simpy
from simpy.events import AllOf, AnyOf, Condition, Event, Timeout

from .ctx import Skip


EPOCH = [0]
CHECKED = {}


def new_epoch():
    EPOCH[0] += 1
    CHECKED.clear()


class KEnv(simpy.Environment):
    __ded_attrs__ = ("_now",)

    def __init__(self, K, t0):
        super().__init__()
        self._now = t0
        self.K = K
        self.sched = []
        new_epoch()

    def schedule(self, event, priority=1, delay=0):
        self.sched.append(event)
        event.ded_T = self._now + delay

    def run(self, *a, **k):
        raise AssertionError("env.run inside a process function")

    step = run


class EnvEvent(Event):
    """An event fired by the environment of the function under contract at
    time T (arbitrary unless the contract says more)."""

    def __init__(self, env, T, label=None, value=None):
        super().__init__(env)
        self.T = T
        self.label = label
        self.fval = value
        self.seen = False
        self.on_fire = None

    def _state(self):
        """forks: has it been processed at the current time?"""
        K = self.env.K
        if self.seen:
            return True
        if K.is_true(self.T < self.env.now):
            self.seen = True
        elif K.is_true(self.T > self.env.now):
            return False
        else:
            # simultaneous: either order, but nothing is processed while the
            # process under contract runs
            if CHECKED.get(id(self), (None, None))[1] == EPOCH[0]:
                return False
            if K.is_true(K.bool(f"order.{self.label}")):
                self.seen = True
            else:
                CHECKED[id(self)] = (self, EPOCH[0])
        return self.seen

    @property
    def triggered(self):
        return self._state()

    @property
    def processed(self):
        return self._state()

    @property
    def ok(self):
        return True

    @property
    def value(self):
        return self.fval


class ProcEvent(EnvEvent):
    """An EnvEvent that can be composed: like a simpy event it has no callbacks
    once it was processed, so conditions built on it count it at once."""

    @property
    def callbacks(self):
        if self._state():
            self._ok = True
            self._value = self.fval
            return None
        return self._cbs

    @callbacks.setter
    def callbacks(self, v):
        self._cbs = v


class OutOfContract(BaseException):
    """the code used a part of a stub that its contract does not describe"""


def fire_time(K, ev, now, pending=None):
    """time at which the kernel resumes a process that yields ev"""
    if isinstance(ev, EnvEvent):
        return now if ev.seen else ev.T
    if isinstance(ev, AllOf):
        ts = [fire_time(K, e, now, pending) for e in ev._events]
        return K.max(now, *ts) if ts else now
    if isinstance(ev, AnyOf):
        ts = [fire_time(K, e, now, pending) for e in ev._events]
        return K.min(*ts) if ts else now
    if isinstance(ev, Event):
        if ev.callbacks is None:
            return now
        T = getattr(ev, "ded_T", None)
        if T is not None:
            return T
        if pending is not None:
            T = pending(ev)
            if T is not None:
                ev.ded_T = T
                return T
    raise StuckEvent(ev)


class StuckEvent(Exception):
    """the function waits for an event nothing will ever trigger"""


class Driver:
    __ded_leaf__ = True

    def __init__(self, K, env, on_yield=None, on_resume=None, pending=None, owner=None):
        self.owner = owner
        self.pending = pending
        self.K = K
        self.env = env
        self.on_yield = on_yield
        self.on_resume = on_resume
        self.nyield = 0

    def run(self, gen):
        """drive a process function to its end"""
        val = None
        while True:
            try:
                ev = gen.send(val)
            except StopIteration as e:
                return e.value
            val = self.wait(ev)

    def wait(self, ev):
        K, env = self.K, self.env
        self.nyield += 1
        if self.nyield > 20000 and not K.symbolic:
            # e.g. rounding: level <= capacity - (capacity - level) can be false in floats
            raise Skip("a concrete run without end")
        if not isinstance(ev, Event):
            raise TypeError(f"process yielded {type(ev).__name__}, not an event")
        if self.owner is not None:
            attributed(K, ev, self.owner)
        if self.on_yield is not None:
            self.on_yield(ev)
        now = env._now
        new_epoch()
        T = fire_time(K, ev, now, self.pending)
        env._now = K.max(now, T)
        mark(ev)
        if self.on_resume is not None:
            self.on_resume(ev, now)
        if isinstance(ev, Condition):
            return None
        return ev.value if not isinstance(ev, EnvEvent) else ev.fval


def attributed(K, ev, owner):
    """time that passes carries the id of the activity that takes it"""
    if isinstance(ev, Condition):
        for e in ev._events:
            attributed(K, e, owner)
    elif isinstance(ev, Timeout):
        K.check("time that passes is attributed to the activity", K.or_(K.eq(ev._delay, 0), K.eq(ev._value, owner)))


def mark(ev):
    """the kernel processed ev (and, for AllOf, everything it waits for)"""
    if isinstance(ev, EnvEvent):
        ev.seen = True
        if ev.on_fire is not None:
            ev.on_fire()
        return
    if isinstance(ev, AllOf):
        for e in ev._events:
            mark(e)
    if isinstance(ev, AnyOf) and ev._events and isinstance(ev.env, KEnv):
        # the kernel processed one of the events that are due: any one
        K, now = ev.env.K, ev.env._now
        due = [e for e in ev._events if K.is_true(fire_time(K, e, now) <= now)]
        if due:
            mark(K.choice("due", due))
    cbs, ev.callbacks = ev.callbacks, None
    if not ev.triggered:
        ev._ok, ev._value = True, None
    if isinstance(ev, Condition):
        return
    for c in cbs or ():
        if getattr(c, "__self__", None).__class__ in (AllOf, AnyOf, Condition):
            continue
        c(ev)
