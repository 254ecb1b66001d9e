"""Contracts of the recording environment (C18)."""

import simpy
from simpy.core import EmptySchedule, StopSimulation

from .common import *

B = "openclsim.critical_path.dependencies_from_simpy_step.CriticalPathEnvironment."
T_STEP = [B + "__init__", B + "step", B + "_monitor_cause_effect", B + "_monitor_step"]
BOUND = "one step from every queue of at most 3 events that schedules one new one (at most 2 for one event; all times, ties included)"


def scenario(K):
    """draws a queue and what the next event does; returns a builder"""
    t0 = K.real("t0", lo=0)
    n = K.choice("queued", [0, 1, 2, 3])
    whens = [K.real("delay", lo=0) for _ in range(n)]
    prios = [K.choice("prio", [0, 1]) if n == 2 else 1 for i in range(n)]
    kinds = [K.choice("kind", ["timeout", "event"]) if i == 0 and n == 1 else "timeout" for i in range(n)]
    what = K.choice("does", ["nothing", "schedules", "stops", "fails", "raises"]) if n else "nothing"
    m = K.choice("new", [1, 2] if n == 1 else [1]) if what != "nothing" else 0
    news = [K.real("next", lo=0) for _ in range(m)]

    def build(cls):
        env = cls(initial_time=t0)

        def effect(ev):
            for d in news:
                env.timeout(d, value="new")
            if what == "stops":
                raise StopSimulation("halt")
            if what == "raises":
                raise ZeroDivisionError("in a callback")

        evs = []
        for w, p, k in zip(whens, prios, kinds):
            ev = simpy.Event(env)
            if k == "timeout":
                ev.__class__ = simpy.events.Timeout
                ev._delay = w
            ev._ok = what != "fails"
            ev._value = "v" if what != "fails" else KeyError("failed")
            ev.callbacks.append(effect)
            env.schedule(ev, p, w)
            evs.append(ev)
        return env, evs

    return build


def outcome(env):
    try:
        env.step()
    except (EmptySchedule, StopSimulation, ZeroDivisionError, KeyError) as ex:
        return type(ex), ex.args
    return None


@contract("C18", "step", T_STEP, budget=200, bounded=BOUND)
def one_step(K):
    from openclsim.critical_path.dependencies_from_simpy_step import CriticalPathEnvironment as Rec

    build = scenario(K)
    plain, pe = build(simpy.Environment)
    rec, re = build(Rec)
    K.check("nothing recorded yet", rec.data_step == [] and rec.data_cause_effect == [])
    before = list(rec._queue)
    t_before = rec.now
    a = outcome(plain)
    b = outcome(rec)
    K.check("the step ends in the same way", a == b)
    K.check("the clock shows the same time", K.eq(plain.now, rec.now))
    K.check("the same events are scheduled", len(plain._queue) == len(rec._queue))
    for p, q in zip(sorted(plain._queue, key=lambda x: x[2]), sorted(rec._queue, key=lambda x: x[2])):
        K.check("the same events are scheduled at the same times", K.and_(K.eq(p[0], q[0]), p[1] == q[1], p[2] == q[2], type(p[3]) is type(q[3])))
    for p, q in zip(pe, re):
        K.check("the same events are processed", p.processed == q.processed)
    if a is not None:
        return
    done = [e for e in before if e[3].processed]
    K.check("one event is processed", len(done) == 1)
    t, prio, eid, ev = done[0]
    K.check("one record per step", len(rec.data_step) == 1)
    r = rec.data_step[0]
    K.check("times before and after the step", K.and_(K.eq(r[0], t_before), K.eq(r[1], rec.now), K.eq(r[1], t)))
    K.check("id, kind, value and priority of the event", r[2] == eid and r[3] is type(ev) and r[4] == ev.value and r[5] == prio)
    K.check("the event itself", len(r) == 7 and r[6] is ev)
    new = sorted(e[2] for e in rec._queue if e[2] not in [x[2] for x in before])
    K.check("every newly scheduled event is recorded with its cause", sorted(rec.data_cause_effect) == [(eid, x) for x in new])


@contract("C18", "step-any", T_STEP, budget=100)
def any_step(K):
    """one step from a queue of any length that schedules any number of new
    events; the step of the plain environment by its contract"""
    from openclsim.critical_path.dependencies_from_simpy_step import CriticalPathEnvironment as Rec

    t0 = K.real("t0", lo=0)
    t1 = K.real("t1", lo=t0)
    eid = K.int("eid", lo=0)
    prio = K.int("prio", lo=0)
    bound = K.int("bound", lo=0)
    K.assume(eid < bound)
    qid, nid = K.func("qid"), K.func("nid")
    shape = K.choice("queue", ["empty", "head", "head and others"])
    raises = K.choice("raises", [None, StopSimulation, ZeroDivisionError])

    class Ev:
        __ded_leaf__ = True
        value = "v"

    ev = Ev()
    tup = lambda f, lab: (lambda j: (K.func("t." + lab)(j), 1, f(j), lab))
    if not K.symbolic:
        qid, nid = (lambda j: eid - 1 - j), (lambda j: bound + j)
        tup = lambda f, lab: (lambda j: (t1, 1, f(j), lab))
    parts = [] if shape == "empty" else [("one", (t1, prio, eid, ev))]
    if shape == "head and others":
        old = lambda i, v: K.and_(v[2] < bound, K.not_(K.eq(v[2], eid)))
        parts.append(("run", "Q", tup(qid, "q"), [old]))
    new = K.seq(("run", "N", tup(nid, "n"), [lambda i, v: v[2] >= bound]))
    if K.symbolic:
        # different events have different ids
        i, j = K.en.fresh_int("i").e, K.en.fresh_int("j").e
        import z3
        f = z3.Function("nid", z3.RealSort(), z3.RealSort())
        inv = z3.Function("nid.inv", z3.RealSort(), z3.RealSort())
        new.segs[0][1].facts.append(lambda k, v: inv(v[2].e) == z3.ToReal(k))
    env = Rec(initial_time=t0)
    queue = env._queue = K.seq(*parts)
    K.root("env", env)
    steps = []
    orig = simpy.Environment.step

    def step(self):
        # contract of simpy.Environment.step
        if not K.is_true(K.len(self._queue) > 0):
            raise EmptySchedule()
        steps.append(self)
        if len(steps) == 1:
            self._queue.pop(0)
            self._queue.extend(new)
            self._now = t1
            if raises is not None:
                raise raises("x")

    simpy.Environment.step = step
    try:
        env.step()
    except (EmptySchedule, StopSimulation, ZeroDivisionError) as ex:
        want = EmptySchedule if shape == "empty" else raises
        K.check("an exception of the step is passed on", type(ex) is want)
        return
    finally:
        simpy.Environment.step = orig
    K.check("no exception is swallowed", shape != "empty" and raises is None)
    K.check("the plain step is made exactly once", steps == [env])
    K.check("the clock is left alone", K.eq(env.now, t1))
    K.check("one record", len(env.data_step) == 1)
    r = env.data_step[0]
    K.check("times before and after the step", K.and_(K.eq(r[0], t0), K.eq(r[1], t1)))
    K.check("id, kind, value and priority of the event", K.and_(K.eq(r[2], eid), r[3] is Ev, r[4] == "v", K.eq(r[5], prio)))
    K.check("the event itself", len(r) == 7 and r[6] is ev)
    n = K.len(new)
    pairs = env.data_cause_effect
    K.check("one pair per newly scheduled event", K.eq(K.len(pairs), n))
    if K.symbolic:
        if K.is_true(n > 0):
            j = K.int("any", lo=0)
            K.assume(j < n)
            p = pairs[j]
            K.check("every newly scheduled event is recorded with its cause", K.and_(len(p) == 2, K.eq(p[0], eid), K.eq(p[1], new[j][2])))
    else:
        K.check("every newly scheduled event is recorded with its cause", sorted(pairs) == [(eid, e[2]) for e in new])


@contract("C18", "steps", T_STEP, budget=100, bounded="three consecutive steps, each scheduling at most one event, with at most one event scheduled from outside between two steps")
def more_steps(K):
    """records are appended, earlier ones stay; only what a step itself
    schedules is its effect"""
    from openclsim.critical_path.dependencies_from_simpy_step import CriticalPathEnvironment as Rec

    env = Rec(initial_time=K.real("t0", lo=0))
    made = {}  # id of an event -> id of the event in whose step it was scheduled
    running = [None]
    counter = [0]

    def schedule(depth=0):
        e = env.timeout(K.real("d", lo=0))
        e.ident = counter[0]
        counter[0] += 1
        if running[0] is not None:
            made[e.ident] = running[0]
        more = K.choice("schedules", [False, True]) if depth < 2 else False
        e.callbacks.append(lambda ev: (running.__setitem__(0, e.ident), more and schedule(depth + 1)))
        return e

    schedule()
    schedule(2)
    n = 0
    last = env.now
    for i in range(3):
        if i and K.choice("outside", [False, True]):
            running[0] = None
            schedule(2)
        if not env._queue:
            break
        steps, causes = list(env.data_step), list(env.data_cause_effect)
        before = set(made)
        env.step()
        n += 1
        K.check("one record per step", len(env.data_step) == n)
        K.check("earlier records stay", all(x is y for x, y in zip(env.data_step, steps)) and env.data_cause_effect[: len(causes)] == causes)
        r = env.data_step[-1]
        K.check("the record starts where the last ended", K.and_(K.eq(r[0], last), K.eq(r[1], env.now)))
        K.check("the event that was processed", r[2] == running[0] and r[6].ident == running[0])
        K.check("a pair for every event the step scheduled, and no other", sorted(env.data_cause_effect[len(causes):]) == sorted((made[e], e) for e in set(made) - before))
        last = env.now
