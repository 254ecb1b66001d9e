"""Contracts of the critical path: dependencies and longest chains.

pandas and networkx run for real, on frames and graphs whose times are
arbitrary (symbolic runs: columns of arbitrary numbers)."""

import datetime
import itertools

import pandas as pd
import simpy

from .common import *

B = "openclsim.critical_path."
G = B + "simulation_graph.SimulationGraph."
T_CP = [
    G + "__init__",
    G + "__check_recorded_activities_df",
    G + "__prepare_recorded_activities_df",
    G + "__check_dependency_list",
    G + "__construct_graph",
    G + "__create_activity_edges",
    G + "__link_activity_edges",
    G + "__find_critical_edges",
    G + "get_list_critical_activities",
    B + "base_cp.BaseCP.get_critical_path_df",
    B + "base_cp.BaseCP._set_critical_path_df",
    B + "base_cp.BaseCP.__compute_critical_path",
    B + "base_cp.BaseCP._remove_duplicate_activities",
]
T_REC = [B + "dependencies_from_recorded_activities.DependenciesFromRecordedActivities.__set_dependency_list"]
T_SIM = [
    B + "dependencies_from_simpy_step.DependenciesFromSimpy.__set_dependency_list",
    B + "dependencies_from_simpy_step.DependenciesFromSimpy._find_cp_act",
]
COLUMNS = ["ActivityID", "Activity", "SimulationObject", "start_time", "end_time", "duration", "state", "cp_activity_id"]


def column(K, vals):
    s = pd.Series(list(vals), dtype=object)
    return s if K.symbolic else s.infer_objects()


def frame(K, rows):
    """rows: (activity id, object, start, end, state, cp id)"""
    cols = dict(
        ActivityID=[r[0] for r in rows],
        Activity=["name of " + r[0] for r in rows],
        SimulationObject=[r[1] for r in rows],
        start_time=[r[2] for r in rows],
        end_time=[r[3] for r in rows],
        duration=[r[3] - r[2] for r in rows],
        state=[r[4] for r in rows],
        cp_activity_id=[r[5] for r in rows],
    )
    return pd.DataFrame({c: column(K, cols[c]) for c in COLUMNS})


def stamp(t):
    return pd.Timestamp(datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t))


def numbers_are_numeric(K):
    """exact numbers are numbers, also for pandas"""
    import openclsim.critical_path.simulation_graph as m

    if K.symbolic and not hasattr(m, "ded_numeric"):
        m.ded_numeric = m.is_numeric_dtype
        m.is_numeric_dtype = lambda col: True if getattr(col, "dtype", None) == object else m.ded_numeric(col)


def chains(n, succ):
    """all chains of dependent activities, with repetition excluded"""
    out = []

    def extend(ch):
        out.append(tuple(ch))
        for b in succ[ch[-1]]:
            if b not in ch:
                extend(ch + [b])

    for a in range(n):
        extend([a])
    return out


def marked(K, rows, deps):
    """runs the real critical path on these rows; -> the resulting frame"""
    import openclsim.critical_path.base_cp as m

    numbers_are_numeric(K)

    class Given(m.BaseCP):
        def get_dependency_list(self):
            self.dependency_list = list(deps)
            return self.dependency_list

    cp = Given(None, [], [])
    cp.recorded_activities_df = frame(K, rows)
    return cp.get_critical_path_df()


def judge(K, n, start, dur, deps, rows, df, names):
    """deps: pairs of numbers of activities; df: the result"""
    crit = {r.cp_activity_id: bool(r.is_critical) for r in df.itertuples()}
    for r in df.itertuples():
        K.check("one verdict per activity", crit[r.cp_activity_id] == bool(r.is_critical))
    # rows of the objects are all there; those of an activity by itself only if critical
    on_object = [r for r in rows if r[1] != "Activity"]
    got = [(r.ActivityID, r.SimulationObject, r.cp_activity_id) for r in df.itertuples()]
    for r in on_object:
        K.check("each row of an object is kept, once", got.count((r[0], r[1], r[5])) == on_object.count(r))
    shown = {r[5] for r in on_object}
    for g in got:
        if g[1] == "Activity":
            K.check("an activity that an object has recorded is not repeated", g[2] not in shown)
    K.check("no other rows", len(got) - len(on_object) == sum(1 for g in got if g[1] == "Activity"))
    for i, nm in enumerate(names):
        crit.setdefault(nm, False)  # left out: not critical
    for r in df.itertuples():
        i = names.index(r.cp_activity_id)
        K.check("the times are those recorded", K.and_(K.eq(num(r.start_time), start[i]), K.eq(num(r.end_time), start[i] + dur[i])))
    succ = {i: [b for a, b in deps if a == i] for i in range(n)}
    cs = chains(n, succ)
    tot = {c: sum([dur[i] for i in c[1:]], dur[c[0]]) for c in cs}
    end = {c: start[c[-1]] + dur[c[-1]] for c in cs}
    # a chain that only goes on with activities that take no time is the same chain
    best = K.max(*tot.values(), 0)
    none = K.and_(*[K.eq(d, 0) for d in dur])
    some = []
    for e in {c[-1] for c in cs}:
        E = start[e] + dur[e]
        conj = []
        for i in range(n):
            long_ = [K.and_(K.eq(tot[c], best), K.eq(end[c], E)) for c in cs if i in c]
            near = [K.and_(tot[c] >= best - 0.01, K.eq(end[c], E)) for c in cs if i in c]
            if crit[names[i]]:
                conj.append(K.and_(K.or_(*near), dur[i] > 0))
            else:
                conj.append(K.or_(K.not_(K.or_(*long_)), K.eq(dur[i], 0)))
        some.append(K.and_(*conj))
    K.check("critical are exactly the activities on the longest chains", K.or_(none, *some))
    for i in range(n):
        if crit[names[i]]:
            K.check("what takes no time is not critical", dur[i] > 0)


def num(t):
    if isinstance(t, pd.Timestamp):
        return (t - pd.Timestamp(0)).total_seconds()
    return t


def critical(K, sizes, structures):
    n = K.choice("activities", sizes)
    start, dur = [], []
    deps = []
    if K.symbolic:
        start = [K.real(f"start", lo=0) for _ in range(n)]
        dur = [K.real("duration", lo=0) for _ in range(n)]
        for d in dur:
            # not closer to zero than the clock can tell
            K.assume(K.or_(K.eq(d, 0), d >= 0.01))
        deps = K.choice("dependencies", structures(n))
        for a, b in deps:
            K.assume(K.eq(start[a] + dur[a], start[b]))
        when = lambda t: t
    else:
        stamps = K.choice("times", ["numbers", "stamps"])
        grid = K.choice("grid", [1, 0.25, 60])
        for i in range(n):
            prev = K.choice("after", [None, *range(i)])
            start.append(K.int("start", lo=0, hi=4) * grid if prev is None else start[prev] + dur[prev])
            dur.append(K.int("duration", lo=0, hi=4) * grid)
        p = K.choice("density", [0.3, 0.7, 1.0])
        for a in range(n):
            for b in range(n):
                if a != b and start[a] + dur[a] == start[b] and K.real("dep", lo=0, hi=1) <= p:
                    deps.append((a, b))
        when = (lambda t: t) if stamps == "numbers" else stamp
    # of zero-time activities a chain is a path through them
    names = [f"cp{i}" for i in range(n)]
    rows = []
    order = K.choice("order", ["as is", "reverse"])
    for i in range(n):
        how = K.choice("recorded by", ["object", "activity", "both", "two"]) if not K.symbolic else ["both", "object", "two", "activity"][i % 4]
        for o in dict(object=["o1"], activity=["Activity"], both=["Activity", "o1"], two=["o1", "o2", "Activity"])[how]:
            state = "ACTIVE" if i % 3 else "WAITING"
            rows.append((f"a{i}", o, when(start[i]), when(start[i] + dur[i]), state, names[i]))
    if order == "reverse":
        rows.reverse()
        deps = deps[::-1]
    df = marked(K, rows, [(names[a], names[b]) for a, b in deps])
    judge(K, n, start, dur, deps, rows, df, names)


def dags(n):
    pairs = list(itertools.combinations(range(n), 2))
    return [tuple(s) for k in range(len(pairs) + 1) for s in itertools.combinations(pairs, k)]


@contract("C17", "critical", T_CP, budget=250, bounded="at most 3 activities, every list of dependencies, all times and durations")
def critical3(K):
    critical(K, [1, 2, 3], dags)


@contract("C17", "critical-large", T_CP, budget=200, bounded="random sets of at most 9 activities", concrete=True)
def critical_large(K):
    critical(K, [1, 2, 3, 4, 5, 6, 7, 8, 9], None)


# -- what the recorded simulation says about who waited for whom ------------------


def arbitrary_rounding():
    """columns of arbitrary numbers are rounded number by number"""
    if hasattr(pd.Series, "ded_round"):
        return
    plain = pd.Series.ded_round = pd.Series.round

    def round_(self, decimals=0, *a, **k):
        if self.dtype == object:
            return self.map(lambda v: round(v, decimals))
        return plain(self, decimals, *a, **k)

    pd.Series.round = round_


class Ns:
    """recorded rows whose times are arbitrary: the times as integer nanoseconds
    are 10**9 times the time (symbolic runs only)"""

    def __init__(self, df):
        self.__dict__["df"] = df

    def copy(self, deep=True):
        return Ns(self.df.copy())

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("ded"):
            raise AttributeError(k)
        v = getattr(self.df, k)
        return Times(v) if k in ("start_time", "end_time") and not self.done(k) else v

    def done(self, k):
        return k in self.__dict__.get("assigned", ())

    def __setattr__(self, k, v):
        self.__dict__.setdefault("assigned", set()).add(k)
        self.df[k] = v

    def __getitem__(self, k):
        return getattr(self, k) if isinstance(k, str) else self.df[k]

    __setitem__ = __setattr__


class Times:
    def __init__(self, s):
        self.s = s

    def astype(self, t):
        if t not in ("int64", int, "int"):
            raise OutOfContract(f"times as {t}")
        return self.s * 10**9

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("ded"):
            raise AttributeError(k)
        raise OutOfContract(f"times.{k}")


def forest(K, n):
    """a finished simulation of n events, as the recording environment kept it:
    every event has no cause or one that was processed before it"""
    from openclsim.critical_path.dependencies_from_simpy_step import CriticalPathEnvironment, DependenciesFromSimpy

    zero = K.choice("initial time", [0, 1.6e9]) if not K.symbolic else 0
    grid = K.choice("grid", [1, None]) if not K.symbolic else None
    amount = lambda nm, **k: K.int(nm, lo=1, hi=5) if grid else K.real(nm, **k)
    parent, timed, t, delay, act, evs = [], [], [], [], [], []
    env = CriticalPathEnvironment(initial_time=zero)
    rows = []
    for e in range(n):
        p = K.choice("cause", [None, *range(e)])
        kind = K.choice("kind", ["takes time", "event", "timeout of 0"])
        d = amount("delay", lo=0.01, hi=1000) if kind == "takes time" else 0
        t.append((t[p] if p is not None else zero) + d)
        if e and K.symbolic:
            K.assume(t[e] >= t[e - 1])  # processed in this order
        parent.append(p), timed.append(kind == "takes time"), delay.append(d)
        act.append(K.choice("activity", ["A", "B"] if K.symbolic else ["A", "B", "C", "D"]) if kind == "takes time" else None)
        ev = simpy.Event(env)
        if kind != "event":
            ev.__class__ = simpy.events.Timeout
            ev._delay = d
        ev._ok, ev._value = True, act[e] or "?"
        evs.append(ev)
    mark = (lambda x: x) if K.symbolic else stamp
    if not K.symbolic:
        # in the order in which they were processed
        o = sorted(range(n), key=lambda e: (t[e], e))
        parent = [None if parent[e] is None else o.index(parent[e]) for e in o]
        timed, delay, act, evs, t = ([x[e] for e in o] for x in (timed, delay, act, evs, t))
    for e in range(n):
        if not timed[e]:
            continue
        for f in range(e):
            if timed[f] and act[f] == act[e]:
                # an activity does one thing at a time
                apart = K.or_(t[e] - delay[e] >= t[f], t[f] - delay[f] >= t[e])
                if K.symbolic:
                    K.assume(apart)
                elif not apart:
                    act[e] = evs[e]._value = f"X{e}"
                    break
        rows.append((act[e], "Activity", mark(t[e] - delay[e]), mark(t[e]), "ACTIVE", f"cp{e}"))
        extra = K.choice("also recorded", ["no", "by an object", "without time"])
        if extra == "by an object":
            rows.append((act[e], "o1", mark(t[e] - delay[e]), mark(t[e]), "ACTIVE", f"cp{e}"))
        elif extra == "without time":
            rows.insert(0, (act[e], "Activity", mark(t[e]), mark(t[e]), "ACTIVE", f"none{e}"))
    if not rows:
        K.assume(False)
    order = sorted(range(n), key=lambda e: -1 if parent[e] is None else parent[e])
    eid = {e: 3 + i for i, e in enumerate(order)}
    for e in range(n):
        env.data_step.append((t[e - 1] if e else zero, t[e], eid[e], type(evs[e]), evs[e]._value, 1, evs[e]))
        env.data_cause_effect += [(eid[e], eid[f]) for f in order if parent[f] == e]
    cp = DependenciesFromSimpy(env, [], [])
    df = frame(K, rows)
    if K.symbolic:
        arbitrary_rounding()
    cp.recorded_activities_df = Ns(df) if K.symbolic else df
    got = cp.get_dependency_list()
    want = []
    for e in range(n):
        p = parent[e]
        while p is not None and not timed[p]:
            p = parent[p]
        if timed[e] and p is not None:
            want.append((f"cp{p}", f"cp{e}"))
    K.check("what took time depends on what took time last in its chain of causes", sorted(got) == sorted(want))
    K.check("asked again, the same", cp.get_dependency_list() is got)


@contract("C23", "forest", T_SIM, budget=250, bounded="at most 3 events; all causes, kinds and times")
def forest3(K):
    forest(K, K.choice("events", [1, 2, 3]))


@contract("C23", "forest-large", T_SIM, budget=200, bounded="random recordings of at most 12 events", concrete=True)
def forest_large(K):
    forest(K, K.choice("events", [2, 3, 4, 5, 6, 8, 12]))


@contract("C23", "shift", ["openclsim.core.processor.Processor.process"], budget=200)
def owner_shift(K):
    from . import shift

    shift.scenario(K, {"owner"}, phases=("duration", "loading", "unloading"), amount=("given",))


@contract("C23", "move", ["openclsim.core.movable.Movable.move"], budget=100)
def owner_move(K):
    from . import move

    move.scenario(K, {"owner"}, kinds=("mover", "vessel"), keep=("none",))


@contract("C23", "basic", ["openclsim.model.basic_activity.BasicActivity.main_process_function", "openclsim.model.base_activities.PluginActivity.delay_processing", "openclsim.plugins.delay.DelayPlugin.post_process"], budget=60)
def owner_basic(K):
    """a basic activity with a delay, and its waiting for the weather"""
    import openclsim.model as model
    import openclsim.plugins as plugins

    env, t0 = new_env(K)

    class Act(plugins.HasDelayPlugin, model.BasicActivity):
        pass

    p = K.real("percentage", lo=0)
    act = Act(env=env, registry={}, name="act", id="act-id", duration=K.real("duration", lo=0), delay_percentage=p)
    act.register_plugin(Waits(K.real("waiting", gt=0)), priority=3)
    ghost_log(K, act, lambda *a: None)
    Driver(K, env, owner=act.id).run(act.main_process_function(activity_log=act, env=env))
    K.check("time passed", env.now >= t0)


@contract("C23", "start", ["openclsim.model.base_activities.GenericActivity.parse_expression", "openclsim.model.base_activities.GenericActivity.delayed_process"], budget=60)
def owner_start(K):
    """waiting for a time to start at"""
    import openclsim.model as model

    env, t0 = new_env(K)
    t = [{"type": "time", "start_time": K.real("start", lo=0)} for _ in range(2)]
    how = K.choice("start", ["time", "and", "or"])
    ev = t[0] if how == "time" else [{how: t}]
    act = model.BasicActivity(env=env, registry={}, name="act", id="act-id", duration=K.real("duration", lo=0), start_event=ev)
    ghost_log(K, act, lambda *a: None)
    Driver(K, env, owner=act.id).run(act.delayed_process(activity_log=act, env=env))
    K.check("it starts when it may", env.now >= K.max(t0, t[0]["start_time"]) if how != "or" else True)


class Waits:
    def __init__(self, d):
        self.d = d

    def pre_process(self, env, activity_log, activity, *a, **k):
        import openclsim.core as core

        yield from activity.delay_processing(env, {"type": "plugin", "ref": "other"}, activity_log, self.d)

    def post_process(self, *a, **k):
        return []


# -- dependencies from the recorded activities alone ------------------------------


def inferred(K, n):
    import openclsim.critical_path.dependencies_from_recorded_activities as m

    stamps = not K.symbolic and K.choice("times", ["numbers", "stamps"]) == "stamps"
    mark = stamp if stamps else (lambda x: x)
    rows, spans, used = [], [], []
    for i in range(n):
        again = K.choice("records", ["new", *range(len(spans))]) if i else "new"
        if again == "new":
            if K.symbolic:
                a = K.real("start", lo=0)
                d = K.real("duration", lo=0)
            else:
                a, d = K.int("start", lo=0, hi=4), K.int("duration", lo=0, hi=3)
            spans.append((a, a + d, K.choice("state", ["ACTIVE", "WAITING"] if n != 3 or i < 2 else ["ACTIVE"])))
            used.append(set())
            again = len(spans) - 1
        a, b, st = spans[again]
        objs = ["o1", "o2", "Activity"] if n < 3 else ["o1", "o2"] if n == 3 else ["o1", "o2", "o3", "Activity"]
        o = K.choice("object", objs[:1] if n == 3 and i == 0 else objs)
        if o in used[again]:
            o = f"p{i}"
        used[again].add(o)
        rows.append((f"a{again}", o, mark(a), mark(b), st, f"cp{again}"))
    df = frame(K, rows)
    before = df.copy()
    cp = m.DependenciesFromRecordedActivities(None, [], [])
    cp.recorded_activities_df = df
    got = cp.get_dependency_list()
    K.check("each dependency once", len(set(got)) == len(got))
    on = [r for r in rows if r[1] != "Activity"]
    want = set()
    for r in on:
        a = spans[int(r[5][2:])][0]
        prior = [p for p in on if K.is_true(K.eq(spans[int(p[5][2:])][1], a))]
        same = [p for p in prior if p[1] == r[1]]
        if any(p[4] == "WAITING" for p in same):
            same = prior
        want |= {(p[5], r[5]) for p in same if p[5] != r[5]}
    K.check("an activity depends on those that end when it starts at the same object, or anywhere after waiting", set(got) == want)
    K.check("asked again, the same", cp.get_dependency_list() is got)
    K.check("the recorded activities are not changed", cp.recorded_activities_df is df and df.shape == before.shape)


@contract("C24", "inferred", T_REC, budget=250, bounded="at most 3 recorded rows; all times")
def inferred3(K):
    inferred(K, K.choice("rows", [1, 2, 3]))


@contract("C24", "inferred-large", T_REC, budget=200, bounded="random records of at most 12 rows", concrete=True)
def inferred_large(K):
    inferred(K, K.choice("rows", [2, 3, 4, 5, 6, 8, 12]))
