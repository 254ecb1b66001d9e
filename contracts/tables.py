"""Contracts of the exported logs, tables and charts (C25), and of the table of
recorded activities (C26).  pandas runs for real; in symbolic runs the times
in the tables are arbitrary."""

import datetime
import io
import os
import tempfile

import pandas as pd
import simpy

from .common import *
from .export import node, pid, pname, TNest, TNode
from .trees import build, forests

EPOCH = datetime.datetime(1970, 1, 1)
LOGFRAME = "openclsim.plot.log_dataframe.get_log_dataframe"
IO = "openclsim.io."


class At:
    """a time stamp at an arbitrary time (symbolic runs)"""

    def __init__(self, t):
        self.t = t

    def __hash__(self):
        return 7

    def __eq__(self, o):
        return isinstance(o, At) and bool(self.t == o.t)

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o):
        return bool(self.t < o.t)

    def __gt__(self, o):
        return bool(self.t > o.t)

    def __le__(self, o):
        return bool(self.t <= o.t)

    def __ge__(self, o):
        return bool(self.t >= o.t)

    def __sub__(self, o):
        return For(self.t - o.t)


class For:
    """a span of time"""

    def __init__(self, t):
        self.t = t

    def total_seconds(self):
        return self.t


def at(K, t):
    return At(t) if K.symbolic else EPOCH + datetime.timedelta(seconds=t)


def seconds(t):
    return t.t if isinstance(t, (At, For)) else (pd.Timestamp(t) - pd.Timestamp(0)).total_seconds()


class Logged:
    """something with a log (symbolic runs; else a real object with a log)"""

    def __init__(self, name, container):
        self.name, self.id, self.entries, self.has = name, name + "-id", [], container

    def entry(self, t, activity, state, level, label=None):
        st = {"container level": level, "geometry": "somewhere"} if self.has else {}
        self.entries.append((At(t), activity, state, st, label or {}))

    @property
    def log(self):
        c = list(zip(*self.entries)) or [()] * 5
        return dict(zip(["Timestamp", "ActivityID", "ActivityState", "ObjectState", "ActivityLabel"], map(list, c)))


def logged(K, name, container=True):
    if K.symbolic:
        return Logged(name, container)
    import openclsim.core as core
    import shapely.geometry as sg

    C = logged.__dict__.setdefault("classes", {})
    if "L" not in C:
        C["L"] = type("L", (core.Identifiable, core.Locatable, core.HasContainer, core.Log), {"__module__": "user"})
    if not container:
        o = core.Log(env=simpy.Environment())
        o.name, o.id = name, name + "-id"
        return writes_log(o)
    o = C["L"](env=simpy.Environment(), name=name, id=name + "-id", geometry=sg.Point(4, 52), capacity=1000, level=0)

    def entry(t, activity, state, level, label=None):
        now = o.container.get_level()
        if level > now:
            o.container.put(level - now)
        elif level < now:
            o.container.get(now - level)
        o.log_entry_v1(t=t, activity_id=activity, activity_state=core.LogState[state], activity_label=label)

    o.entry = entry
    return o


def writes_log(o):
    import openclsim.core as core

    o.entry = lambda t, activity, state, level, label=None: o.log_entry_v1(
        t=t, activity_id=activity, activity_state=core.LogState[state], activity_label=label
    )
    return o


def instants(K, n):
    """n times, in order"""
    if K.symbolic:
        ts = [K.real("time", lo=0) for _ in range(n)]
        for a, b in zip(ts, ts[1:]):
            K.assume(a <= b)
        return ts
    grid = K.choice("grid", [1, 0.5, 3600])
    gap = K.choice("gaps", [[0, 1], [0, 0, 0, 1], [1, 2, 3]])
    t, ts = K.choice("first", [0, 1000.0]), []
    for _ in range(n):
        t += K.choice("gap", gap) * grid
        ts.append(t)
    return ts


# -- the log of one object --------------------------------------------------------


class LNode(TNode):
    __ded_leaf__ = True
    log = None


class LNest(TNest):
    __ded_leaf__ = True
    log = None


class Named:
    def __init__(self, id_, name, subs=None):
        self.id, self.name = id_, name
        if subs is not None:
            self.sub_processes = subs


def activity(id_, name, subs=None):
    import openclsim.model as model

    kw = dict(env=simpy.Environment(), registry={}, id=id_, name=name)
    return model.BasicActivity(duration=1, **kw) if subs is None else model.SequentialActivity(sub_processes=subs, **kw)


def resolving(K):
    """-> the id map as given, and the names it stands for"""
    ids = ["a0", "a1", "a2"]
    names = {i: "name of " + i for i in ids}
    how = K.choice("id map", ["none", "list", "nested", "dict", "manual", "some"])
    act = Named if K.symbolic else activity
    acts = [act(i, names[i]) for i in ids]
    if how == "none":
        return None, {}
    if how == "list":
        return acts, names
    if how == "nested":
        return [act("top", "Top", [acts[0], act("deep", "Deep", [acts[1]])]), acts[2]], names
    if how == "dict":
        return {a.name: a for a in acts}, names
    if how == "manual":
        return dict(names), names
    del names["a1"]
    return {k: v for k, v in names.items()}, names


def log_frame(K, sizes):
    import openclsim.plot.log_dataframe as m

    n = K.choice("entries", sizes)
    o = logged(K, "obj")
    given, names = resolving(K)
    rows = []
    ts = [K.real("time", lo=0) for _ in range(n)] if K.symbolic else instants(K, n)
    late = not K.symbolic and K.choice("late", [False, True])  # waiting is logged when it is over
    for i, t in enumerate(ts):
        if late and i and K.choice("is late", [False, True]):
            t = ts[i - 1]
        a = K.choice("activity", ["a0", "a1", "a2"] if not K.symbolic else ["a0", "a1"][: 1 + i])
        st = "START" if K.symbolic else K.choice("state", ["START", "STOP", "WAIT_START", "WAIT_STOP"])
        lv = i if K.symbolic else K.int("level", lo=0, hi=9)
        label = {"type": "subprocess", "ref": "x"} if not K.symbolic and K.choice("label", [0, 1]) else None
        o.entry(t, a, st, lv, label)
        rows.append((t, a, st, lv, label))
    before = len(o.log["Timestamp"])
    df = m.get_log_dataframe(o, given) if given is not None or K.choice("explicit", [0, 1]) else m.get_log_dataframe(o)
    K.check("one row for each entry", len(df) == n)
    order = sorted(range(n), key=lambda i: at(K, rows[i][0]))
    for r, i in zip(df.to_dict("records"), order):
        t, a, st, lv, label = rows[i]
        K.check("in order of time, at equal times as they were logged", K.eq(seconds(r["Timestamp"]), t))
        K.check("the activity, by its name if that is known", r["Activity"] == names.get(a, a))
        K.check("its state", r["ActivityState"] == st)
        K.check("the state of the object", K.eq(r["container level"], lv))
        if label:
            K.check("the label", r["type"] == label["type"] and r["ref"] == label["ref"])
    K.check("the log is not changed", len(o.log["Timestamp"]) == before)


@contract("C25", "log", [LOGFRAME], budget=150, bounded="at most 3 entries at any times")
def log3(K):
    log_frame(K, [1, 2, 3])


@contract("C25", "log-large", [LOGFRAME], budget=150, bounded="random logs of at most 60 entries", concrete=True)
def log_large(K):
    log_frame(K, [0, 1, 2, 5, 17, 25, 60])


# -- periods --------------------------------------------------------------------


def periods(K, plan, o, unfinished=None):
    """logs periods of activities on o; plan: activity -> number of periods, or
    (activity, sub-activity it refers to) -> number of periods.
    -> [[activity, start, stop, level at start, level at stop]], in the order logged"""
    todo = [(a, k) for a, n in plan.items() for k in range(n)]
    out, events = [], []

    def entry(t, a, state, level):
        a, ref = a if isinstance(a, tuple) else (a, None)
        o.entry(t, a, state, level, {"type": "subprocess", "ref": ref} if ref else None)

    def period(a, start, stop, l0, l1):
        out.append([a[0] if isinstance(a, tuple) else a, start, stop, l0, l1])
        return out[-1]

    if K.symbolic:
        parts = []
        for a, n in plan.items():
            ts = instants(K, 2 * n)
            parts.append([(a, ts[2 * k], ts[2 * k + 1]) for k in range(n)])
        if len(parts) > 1 and K.choice("logged", ["one by one", "the other first"]) == "the other first":
            parts.reverse()
        for part in parts:
            for a, t0, t1 in part:
                period(a, t0, t1, 0, 1)
                events += [(t0, a, "START", 0), (t1, a, "STOP", 1)]
        for e in events:
            entry(*e)
        return out
    # at random: at each instant something starts or stops
    ts = iter(instants(K, 2 * len(todo)))
    run, left, level = {}, dict(plan), 0
    while any(left.values()) or run:
        can = [("STOP", a) for a in run] + [("START", a) for a in left if left[a] and a not in run]
        what, a = K.choice("next", can)
        t = next(ts)
        level = K.int("level", lo=0, hi=9)
        if what == "START":
            left[a] -= 1
            run[a] = period(a, t, None, level, None)
            entry(t, a, "START", level)
        else:
            p = run.pop(a)
            if unfinished == a and not left[a]:
                continue
            p[2], p[4] = t, level
            entry(t, a, "STOP", level)
            if K.choice("then waits", [0, 0, 1]):
                entry(t, a, "WAIT_START", level)
                entry(t, a, "WAIT_STOP", level)
    return out


def activities(plan):
    return list(dict.fromkeys(a[0] if isinstance(a, tuple) else a for a in plan))


def of(K, ps, a):
    """the periods of an activity, in order of their starts"""
    return sorted([p for p in ps if p[0] == a], key=lambda p: at(K, p[1]))


def ranges(K, plans):
    import openclsim.io as oio

    plan = K.choice("periods", plans)
    o = logged(K, "obj")
    un = None if K.symbolic else K.choice("unfinished", [None, *[a for a in plan if plan[a]]])
    ps = periods(K, plan, o, un)
    given, names = resolving(K) if not K.symbolic else (None, {})
    levels = True
    df = oio.get_ranges_dataframe(o, given) if given is not None else oio.get_ranges_dataframe(o)
    recs = df.to_dict("records")
    K.check("one row for each period", len(recs) == len(ps))
    for a, b in zip(recs, recs[1:]):
        K.check("in order of their starts", seconds(a["TimestampStart"]) <= seconds(b["TimestampStart"]))
    for a in activities(plan):
        mine = of(K, ps, a)
        rows = sorted([r for r in recs if r["Activity"] == names.get(a, a)], key=lambda r: r["trip"])
        K.check("the periods of each activity, by its name if that is known", len(rows) == len(mine))
        for k, (r, p) in enumerate(zip(rows, mine)):
            K.check("numbered from one on", r["trip"] == k + 1)
            K.check("it starts with its START", K.eq(seconds(r["TimestampStart"]), p[1]))
            K.check("level at the start", K.eq(r["ContainerLevelStart"], p[3]))
            if p[2] is None:
                K.check("what has not stopped has no stop", pd.isnull(r["TimestampStop"]) and pd.isnull(r["TimestampDt"]))
                continue
            K.check("it stops with its STOP", K.eq(seconds(r["TimestampStop"]), p[2]))
            K.check("level at the stop", K.eq(r["ContainerLevelStop"], p[4]))
            K.check("duration in seconds", K.eq(r["TimestampDt"], p[2] - p[1]))


@contract("C25", "ranges", [IO + "get_ranges_dataframe"], budget=150, bounded="at most 2 periods at any times")
def ranges2(K):
    ranges(K, [dict(a0=1), dict(a0=2), dict(a0=1, a1=1), {"a0": 1, ("a0", "x"): 1}, {("a0", "x"): 1, ("a0", "y"): 1}])


PLANS = [dict(a0=0), dict(a0=1), dict(a0=3), dict(a0=2, a1=2), dict(a0=12), dict(a0=9, a1=1, a2=6), {"a0": 1, ("a0", "x"): 1, ("a0", "y"): 1}, {"a0": 2, ("a0", "x"): 3, ("a0", "y"): 2, ("a0", "z"): 2, ("a1", "x"): 2}]


@contract("C25", "ranges-large", [IO + "get_ranges_dataframe"], budget=150, bounded="random logs of at most 16 periods", concrete=True)
def ranges_large(K):
    ranges(K, PLANS)


def written(K, table, keys):
    """table(ofile=...) -> the table, which the file has as well (the rows in any order)"""
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "table.csv")
        df = table(ofile=f)
        got = pd.read_csv(f, dtype=str, keep_default_na=False)
    want = pd.read_csv(io.StringIO(df[keys].to_csv(index=False)), dtype=str, keep_default_na=False)
    K.check("the file has the columns of the table, no others", set(keys) <= set(got.columns) <= set(df.columns))
    rows = lambda t: sorted(map(tuple, t[keys].values))  # noqa: E731
    K.check("the file has the rows of the table", set(keys) <= set(got.columns) and rows(got) == rows(want))


# -- tables of activities -----------------------------------------------------------


ROLES = dict(basic=(), move=("mover", "destination"), shift=("processor", "origin", "destination"))


def tables(K, sizes):
    import openclsim.io as oio

    n = K.choice("activities", sizes)
    f = K.choice("tree", forests(n))
    concepts = [Named(f"c{i}-id", f"c{i}") if K.symbolic else logged(K, f"c{i}") for i in range(3)]
    nodes = []

    def mk(path, children):
        roles = {}
        if children is None:
            kind = K.choice("kind", list(ROLES))
            for r in ROLES[kind]:
                roles[r] = concepts[len(nodes) % 3] if K.symbolic else K.choice("concept", concepts)
        it = node(K, "n" + "-".join(map(str, path)), len(path) - 1, children, roles)
        it.roles = roles
        for c in children or ():
            c.parent = it
        nodes.append(it)
        return it

    tops = build(f, mk)
    given = tops if K.choice("given", ["list", "dict"]) == "list" else {t.name: t for t in tops}
    order = list(oio.get_tree_as_list(given)["activity"])  # by contract (C19)
    df = oio.get_activities(given)
    recs = df.to_dict("records")
    K.check("one row for each activity", [r["ActivityID"] for r in recs] == [a.id for a in order])
    for r, a in zip(recs, order):
        K.check("its name, class and parent", (r["ActivityName"], r["ActivityClass"]) == (a.name, type(a).__name__) and r["ParentName"] == pname(a))
        K.check("its parent's id", (r["ParentId"] if not pd.isnull(r["ParentId"]) else None) == pid(a))
        for role in ("mover", "processor", "origin", "destination"):
            c = a.roles.get(role)
            K.check(
                f"its {role}, if it has one",
                (r[role.title() + "ID"], r[role.title() + "Name"]) == ((c.id, c.name) if c else (None, ""))
                or (c is None and pd.isnull(r[role.title() + "ID"]) and r[role.title() + "Name"] == ""),
            )
    if not K.symbolic:
        ks = ["ActivityID", "ActivityName", "ActivityClass", "ParentId", "ParentName", "ParentLevel"]
        written(K, lambda ofile: oio.get_activities(given, ofile), ks + [c + k for c in ("Mover", "Processor", "Origin", "Destination") for k in ("ID", "Name")])
    res = oio.get_activity_resources(given)
    if not K.symbolic:
        written(K, lambda ofile: oio.get_activity_resources(given, ofile), ["ActivityID", "ActivityName", "ActivityClass", "ConceptID", "ConceptName", "ConceptMode"])
    got = sorted(tuple(r[k] for k in ("ActivityID", "ActivityName", "ActivityClass", "ConceptID", "ConceptName", "ConceptMode")) for r in res.to_dict("records"))
    want = sorted((a.id, a.name, type(a).__name__, c.id, c.name, role) for a in nodes for role, c in a.roles.items())
    K.check("each activity with each object it uses, once", got == want)
    cs = concepts[: K.choice("concepts", [1, 3])]
    ns = K.choice("namespace", ["", "Vessel"])
    t = oio.get_concepts(cs if K.choice("as", ["list", "dict"]) == "list" else {c.name: c for c in cs}, ns) if ns else oio.get_concepts(cs)
    K.check("the table of objects", [(r[ns + "Name"], r[ns + "ID"], r[ns + "Class"]) for r in t.to_dict("records")] == [(c.name, c.id, type(c).__name__) for c in cs])
    if not K.symbolic:
        written(K, lambda ofile: oio.get_concepts(cs, ns, ofile), [ns + "Name", ns + "ID", ns + "Class"])


T_TABLES = [IO + "get_activities", IO + "get_activity_resources", IO + "get_concepts"]


@contract("C25", "tables", T_TABLES, budget=150, bounded="every tree of at most 3 activities")
def tables3(K):
    tables(K, [1, 2, 3])


@contract("C25", "tables-large", T_TABLES, budget=150, bounded="random trees of at most 8 activities", concrete=True)
def tables_large(K):
    tables(K, [1, 2, 3, 5, 8])


def activity_log(K, sizes, plans):
    """the periods of all activities of a tree"""
    import openclsim.io as oio

    n = K.choice("activities", sizes)
    f = K.choice("tree", forests(n))
    nodes = []
    all_ = []

    def mk(path, children):
        label = "n" + "-".join(map(str, path))
        if K.symbolic:
            it = (LNode if children is None else LNest)(label, None, len(path) - 1, children)
        else:
            it = node(K, label, len(path) - 1, children)
        for c in children or ():
            c.parent = it
        nodes.append(it)
        if not K.symbolic and K.choice("not started", [0, 0, 0, 1]):
            return it
        src = logged(K, it.name, container=False) if K.symbolic else writes_log(it)
        un = None if K.symbolic else K.choice("unfinished", [None, None, it.id])
        plan = {it.id: K.choice("periods", plans)}
        if children and not K.symbolic and plan[it.id]:
            plan.update({(it.id, c.id): K.choice("periods", plans) for c in children})
        for p in periods(K, plan, src, un):
            all_.append((it, p))
        if K.symbolic:
            it.log = src.log
        return it

    tops = build(f, mk)
    df = oio.get_activity_log(tops)
    if not K.symbolic:
        written(K, lambda ofile: oio.get_activity_log(tops, ofile), ["trip", "ActivityID", "ActivityName", "ActivityClass", "TimestampStart", "TimestampStop", "TimestampDt"])
    recs = df.to_dict("records")
    K.check("one row for each period of each activity", len(recs) == len(all_))
    for a, b in zip(recs, recs[1:]):
        K.check("in order of their starts", seconds(a["TimestampStart"]) <= seconds(b["TimestampStart"]))
    for it in nodes:
        mine = of(K, [p for _, p in all_], it.id)
        rows = sorted([r for r in recs if r["ActivityID"] == it.id], key=lambda r: r["trip"])
        K.check("the periods of each activity", len(rows) == len(mine))
        for k, (r, p) in enumerate(zip(rows, mine)):
            K.check("name and class of the activity", (r["ActivityName"], r["ActivityClass"]) == (it.name, type(it).__name__))
            K.check("start, number", K.and_(K.eq(seconds(r["TimestampStart"]), p[1]), r["trip"] == k + 1))
            if p[2] is None:
                K.check("what has not stopped has no stop", pd.isnull(r["TimestampStop"]) and pd.isnull(r["TimestampDt"]))
                continue
            K.check("stop", K.eq(seconds(r["TimestampStop"]), p[2]))
            K.check("duration in seconds", K.eq(r["TimestampDt"], p[2] - p[1]))


@contract("C25", "activity-log", [IO + "get_activity_log"], budget=150, bounded="at most 2 activities with at most 2 periods at any times")
def activity_log2(K):
    activity_log(K, [1, 2], [1] if K.symbolic else [1, 2])


@contract("C25", "activity-log-large", [IO + "get_activity_log"], budget=150, bounded="random trees of at most 6 activities", concrete=True)
def activity_log_large(K):
    activity_log(K, [1, 2, 4, 6], [0, 1, 2, 10])


# -- charts -------------------------------------------------------------------------


def blocks(trace):
    """the blocks drawn: (object, from, to)"""
    out, b = [], None
    for x, y in zip(trace.x, trace.y):
        if y is None:
            b = None
        elif b is None:
            b = [y, x, x]
            out.append(b)
        else:
            b[2] = x
    return out


def gantt(K, objects, plans):
    import openclsim.plot.vessel_planning as m

    objs, ps = [], []
    names = dict(a0="name of a0", a1="name of a1", a2="name of a2")
    for k in range(K.choice("objects", objects)):
        o = logged(K, f"obj{k}")
        ps += [(o, p) for p in periods(K, K.choice("periods", plans), o)]
        objs.append(o)
    if not any(o.log["Timestamp"] for o in objs):
        K.assume(False)
    shown = [o for o in objs if o.log["Timestamp"]]
    kw = {}
    used = sorted({p[0] for _, p in ps})
    if K.choice("activities given", [False, True]):
        kw["activities"] = used if K.choice("as", ["list", "dict"]) == "list" else {a: a for a in used}
    named = K.choice("id map", [False, True])
    if named:
        acts = [Named(a, names[a]) if K.symbolic else activity(a, names[a]) for a in used]
        kw["id_map"] = dict(list=acts, dict={a.name: a for a in acts}, manual={a: names[a] for a in used})[K.choice("given as", ["list", "dict", "manual"])]
    scale = K.choice("scale", ["text", "numbers"])
    given = objs if K.choice("concepts", ["list", "dict"]) == "list" else {o.name: o for o in objs}
    res = m.get_gantt_chart(given, static=True, y_scale=scale, **kw)
    y = {id(o): o.name if scale == "text" else -k for k, o in enumerate(shown)}
    got = {}
    for t in res["data"]:
        got.setdefault(t.name, blocks(t))
    K.check("a trace for each activity, by its name if that is known", set(got) == {names[a] if named else a for a in used})
    for a in used:
        bs = got[names[a] if named else a]
        want = [(y[id(o)], p[1], p[2]) for o, p in ps if p[0] == a]
        K.check("a block for each period of each object, no others", len(bs) == len(want))
        if not K.symbolic:  # the order in which blocks are drawn does not matter
            bs = sorted((b[0], seconds(b[1]), seconds(b[2])) for b in bs)
            bs = [(y_, at(K, s), at(K, e)) for y_, s, e in bs]
            want.sort()
        for b, w in zip(bs, want):
            K.check("the block of an object", b[0] == w[0])
            K.check("the block runs from the start to the stop", K.and_(K.eq(seconds(b[1]), w[1]), K.eq(seconds(b[2]), w[2])))
    lo, hi = res["layout"].xaxis.range if not K.symbolic else (None, None)
    if lo is not None:
        ts = [seconds(t) for o in objs for t in o.log["Timestamp"]]
        K.check("the chart shows the whole time", seconds(lo) <= min(ts) and seconds(hi) >= max(ts))


T_GANTT = ["openclsim.plot.vessel_planning.get_gantt_chart", "openclsim.plot.vessel_planning.get_segments"]


@contract("C25", "gantt", T_GANTT, budget=150, bounded="one object with at most 2 periods at any times")
def gantt1(K):
    gantt(K, [1], [dict(a0=2), dict(a0=1, a1=1)])


@contract("C25", "gantt-large", T_GANTT, budget=150, bounded="at most 4 objects with at most 16 periods", concrete=True)
def gantt_large(K):
    gantt(K, [1, 2, 4], PLANS)


@contract("C25", "steps", ["openclsim.plot.step_chart.get_step_chart"], budget=150, bounded="at most 3 objects with random logs of at most 30 entries", concrete=True)
def steps(K):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.dates as md
    import matplotlib.pyplot as plt
    import openclsim.core as core
    import openclsim.plot.step_chart as m

    want = []
    objs = []
    C = logged.__dict__.setdefault("multi", {})
    if not C:
        C["M"] = type("M", (core.Identifiable, core.HasMultiContainer, core.Log), {"__module__": "user"})
    for k in range(K.choice("objects", [1, 2, 3])):
        many = K.choice("contents", [False, True])
        ts = instants(K, K.choice("entries", [1, 3, 20, 30]))
        if many:
            ids = ["sand", "clay"]
            o = C["M"](
                env=simpy.Environment(), name=f"obj{k}", store_capacity=4,
                initials=[dict(id=i, level=K.int("level", lo=0, hi=9), capacity=1000) for i in ids],
            )
        else:
            ids = ["default"]
            o = logged(K, f"obj{k}")
        lv = {i: [] for i in ids}
        for t in ts:
            i = K.choice("content", ids)
            put = K.int("put", lo=1, hi=5)
            o.container.put(put, i)
            o.log_entry_v1(t=t, activity_id="a", activity_state=core.LogState.START)
            for j in ids:
                lv[j].append(o.container.get_level(j))
        objs.append(o)
        for i in ids:
            want.append((o.name, i, ts, lv[i]))
    named = K.choice("names", [False, True])
    fig = m.get_step_chart(objs, {"default": "", "sand": "the sand"}) if named else m.get_step_chart(objs)
    (ax,) = fig.axes
    lines = {ln.get_label(): ln for ln in ax.get_lines()}
    K.check("a line for each content of each object", len(lines) == len(want) == len(ax.get_lines()))
    for name, i, ts, lv in want:
        ln = lines.get(f"{name} " + ({"default": "", "sand": "the sand"} if named else {"default": ""}).get(i, i))
        K.check("its label", ln is not None)
        if ln is not None:
            xs = [md.date2num(x) if not isinstance(x, float) else x for x in ln.get_xdata()]
            K.check("levels over time", len(xs) == len(ts) and list(ln.get_ydata()) == lv)
            K.check("times", all(abs(x - t / 86400) < 1e-6 for x, t in zip(xs, ts)))
    plt.close(fig)


# -- the table of recorded activities (C26) --------------------------------------------


def recorded(K, plans, concepts):
    """plans: for each activity its periods (kinds)"""
    import openclsim.critical_path.base_cp as m

    class Given(m.BaseCP):
        def get_dependency_list(self):
            return []

    objs = [logged(K, f"obj{k}", container=K.symbolic or k % 2 == 0) for k in range(K.choice("objects", concepts))]
    plan = K.choice("activities", plans)
    acts, want, todo = [], [], []
    alike = len(plan) > 1 and K.choice("activities of one name", [False, True])
    for i, kinds in enumerate(plan):
        a = Logged(f"act{i}", False) if K.symbolic else logged(K, f"act{i}", False)
        if alike:
            a.name = "act"
        a.kind = kinds
        acts.append(a)
        times = instants(K, len(kinds) + 1) if K.symbolic or K.choice("back to back", [0, 1]) else None
        if times is None:
            times = instants(K, 2 * len(kinds))
            spans = list(zip(times[::2], times[1::2]))
        else:
            spans = list(zip(times, times[1:]))
        if i and len(kinds) == len(last) and not K.symbolic and K.choice("together", [0, 1]):
            spans = last
        last = spans
        for kind, (s, e) in zip(kinds, spans):
            by = [o for o in objs if K.symbolic or K.choice("by", [0, 1])]
            w = "WAIT_" if kind == "W" else ""
            for o in by + [a]:
                todo.append((s, len(todo), o, a, w + "START"))
                todo.append((e, len(todo), o, a, w + "STOP"))
                want.append((a.id, a.name, "Activity" if o is a else o.name, s, e, "WAITING" if w else "ACTIVE"))
    # logs are in order of time (waiting may be logged when it is over)
    for t, _, o, a, state in todo if K.symbolic else sorted(todo, key=lambda x: x[:2]):
        o.entry(t, a.id, state, 0)
    tops = list(acts)
    if len(acts) > 1 and K.choice("nested", [0, 1]):
        tops = [acts[0]]
        acts[0].sub_processes = acts[1:]
    cp = Given(None, objs, tops)
    if len(objs) > 1 and K.choice("same names", [0, 0, 0, 1]):
        objs[1].name = objs[0].name
        try:
            cp.get_recorded_activity_df()
            K.check("objects of the same name are refused", False)
        except ValueError:
            K.check("objects of the same name are refused", True)
        return
    df = cp.get_recorded_activity_df()
    recs = df.to_dict("records")
    K.check("one row for each period in each log", len(recs) == len(want))
    for r, s in zip(recs, recs[1:]):
        K.check("in order of their starts", seconds(r["start_time"]) <= seconds(s["start_time"]))
    left = list(recs)
    for w in want:
        hit = None
        for r in left:
            if (r["ActivityID"], r["Activity"], r["SimulationObject"], r["state"]) == (w[0], w[1], w[2], w[5]):
                if K.is_true(K.and_(K.eq(seconds(r["start_time"]), w[3]), K.eq(seconds(r["end_time"]), w[4]))):
                    hit = r
                    break
        K.check("each period with its activity, object, times and state", hit is not None)
        if hit is None:
            return
        left = [r for r in left if r is not hit]
        K.check("its duration", K.eq(seconds_of(hit["duration"]), w[4] - w[3]))
    for i, r in enumerate(recs):
        for s in recs[:i]:
            same = r["ActivityID"] == s["ActivityID"] and r["start_time"] == s["start_time"] and r["end_time"] == s["end_time"]
            K.check("one id for each activity and period", (r["cp_activity_id"] == s["cp_activity_id"]) == same)
    K.check("asked again, the same", cp.get_recorded_activity_df() is df)


def seconds_of(d):
    return d.t if isinstance(d, For) else pd.Timedelta(d).total_seconds()


B = "openclsim.critical_path.base_cp.BaseCP."
T_TABLE = [B + k for k in ("_make_recorded_activities_df", "combine_logs", "get_log_dataframe_activity", "reshape_log", "add_unique_activity", "get_recorded_activity_df")]


@contract("C26", "recorded", T_TABLE, budget=240, bounded="at most 2 periods at any times, at most one object")
def recorded2(K):
    recorded(K, [["A"], ["W"], ["AA"], ["WA"], ["A", "A"]], [1])


@contract("C26", "recorded-large", T_TABLE, budget=240, bounded="at most 4 activities with at most 12 periods, at most 4 objects", concrete=True)
def recorded_large(K):
    recorded(K, [["A"], ["WA", "WA"], ["WAWAWA", "A", "AW"], ["WA", "AA", "A"], ["AAWAAWWAAAWA"], ["A", "WAW", "W", "AAA"]], [1, 2, 4])
