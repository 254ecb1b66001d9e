"""Contract of Log.log_entry_v1: one entry, a snapshot, appended last."""

import datetime

from . import geo
from fractions import Fraction

from .common import *
from .world import *


class Stamp:
    """the UTC datetime of t seconds after the epoch"""

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return self.t == o.t if isinstance(o, Stamp) else NotImplemented

    __hash__ = None

    def __add__(self, o):
        return Stamp(self.t + o.t) if isinstance(o, Span) else NotImplemented

    __radd__ = __add__


class Span:
    """contract of datetime.timedelta"""

    UNIT = dict(days=86400, seconds=1, microseconds=Fraction(1, 10**6), milliseconds=Fraction(1, 1000), minutes=60, hours=3600, weeks=604800)

    def __init__(self, days=0, seconds=0, **kw):
        kw.update(days=days, seconds=seconds)
        self.t = sum(self.UNIT[k] * v for k, v in kw.items())

    def total_seconds(self):
        return self.t


class _DT:
    """contract of datetime.datetime, as far as time stamps need it"""

    def __call__(self, year, month, day, *a, **kw):
        try:
            d = datetime.datetime(year, month, day, *a, **kw)
        except TypeError:
            raise OutOfContract("datetime()")
        if d.tzinfo is not None:
            raise OutOfContract("datetime()")
        return Stamp((d - datetime.datetime(1970, 1, 1)) // datetime.timedelta(microseconds=1) * Fraction(1, 10**6))

    @staticmethod
    def utcfromtimestamp(t):
        return Stamp(t)

    @staticmethod
    def fromtimestamp(t, tz=None):
        if tz is None:
            raise OutOfContract("local time")
        return _Aware(t, tz)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise OutOfContract("datetime." + k)


class _Aware:
    def __init__(self, t, tz):
        if tz is not datetime.timezone.utc:
            raise OutOfContract("time zone")
        self.t = t

    def replace(self, tzinfo=0):
        if tzinfo is not None:
            raise OutOfContract("time zone")
        return Stamp(self.t)


class _Mod:
    __ded_leaf__ = True
    timezone = datetime.timezone
    UTC = datetime.timezone.utc
    datetime = _DT()
    timedelta = Span

    def __getattr__(self, k):
        raise OutOfContract("datetime." + k)


def stamp_of(K, s, t):
    if K.symbolic:
        return K.eq(s.t, t) if isinstance(s, Stamp) else False
    return K.eq((s - datetime.datetime(1970, 1, 1)).total_seconds(), t) if isinstance(s, datetime.datetime) and s.tzinfo is None else False


def clock(K):
    if K.symbolic:
        import openclsim.core.log as m

        if m.datetime is datetime:
            m.datetime = _Mod()
        elif m.datetime is datetime.datetime:
            m.datetime = _DT()
        if getattr(m, "timedelta", None) is datetime.timedelta:
            m.timedelta = Span


TARGETS = [
    "openclsim.core.log.Log.log_entry_v1",
    "openclsim.core.log.Log.get_state",
    "openclsim.core.locatable.Locatable.get_state",
    "openclsim.core.container.HasContainer.get_state",
    "openclsim.core.container.HasMultiContainer.get_state",
]


def same_dict(K, d, want):
    if not isinstance(d, dict) or set(d) != set(want):
        return False
    cs = []
    for k, v in want.items():
        if isinstance(v, dict):
            cs.append(same_dict(K, d[k], v))
        elif k == "geometry":
            cs.append(d[k] is v)
        else:
            cs.append(K.eq(d[k], v))
    return K.and_(*cs) if cs else True


@contract("C21", "entry", TARGETS, budget=100)
def entry(K):
    import openclsim.core as core

    clock(K)
    env, t0 = new_env(K)
    C = classes()
    pos, pos2 = geo.point(K, "pos"), geo.point(K, "pos2")
    kind = K.choice("kind", ["activity", "site", "vessel", "multi"])
    base = dict(env=env, name="o", id="o-id")
    state0 = {}
    o = None
    if kind == "activity":
        import openclsim.model as model

        o = model.BasicActivity(registry={}, duration=1, **base)
    else:
        node = K.choice("node", [None, "n1"])
        state0["geometry"] = pos
        if node is not None:
            state0["node"] = node
        lev, cap = K.real("level", lo=0), K.real("cap", gt=0)
        if kind in ("site", "vessel"):
            o = C["Site" if kind == "site" else "Vessel"](
                **base, geometry=pos, node=node, capacity=cap, level=lev, nr_resources=1,
                **(dict(compute_v=lambda x: 1, loading_rate=1, unloading_rate=1) if kind == "vessel" else {}))
            o.container = GhostContainer(K, env, [("default", cap, lev)], "o")
            state0["container level"] = lev
        else:
            lev2 = K.real("level2", lo=0)
            o = C["MultiSite"](**base, geometry=pos, node=node, nr_resources=1,
                               initials=K.wrap_list([{"id": "a", "capacity": 5, "level": 1}]))
            o.container = GhostContainer(K, env, [("a", cap, lev), ("b", cap, lev2)], "o")
            state0["container level"] = {"a": lev, "b": lev2}
    # arbitrary earlier entries
    before = K.seq(("run", "earlier", lambda j: {"Timestamp": 0}), ("one", {"watched": 1}), ("run", "earlier2", lambda j: {"Timestamp": 0}))
    o.logbook = before
    n0 = K.len(before)
    old = K.frozen(before)
    aid = K.choice("aid", ["act-1", None, 7])
    st = K.choice("state", list(core.LogState))
    t = K.real("t", lo=0, hi=4e9)
    add = K.choice("additional", ["none", "empty", "new", "override"])
    extra = {"none": None, "empty": {}, "new": {"x": 3}, "override": {"container level": 9}}[add]
    lab = K.choice("label", ["none", "subprocess", "other"])
    label = {"none": None, "subprocess": {"type": "subprocess", "ref": "r"}, "other": {"type": "plugin", "ref": "q"}}[lab]
    kw = {}
    if lab != "none":
        kw["activity_label"] = label
    if add != "none":
        kw["additional_state"] = extra
    o.log_entry_v1(t, aid, st, **kw)
    K.check("exactly one entry is added", K.eq(K.len(o.logbook), n0 + 1))
    e = o.logbook[-1]
    K.check("the entry has the five documented fields", isinstance(e, dict) and set(e) == {"Timestamp", "ActivityID", "ActivityState", "ObjectState", "ActivityLabel"})
    want = dict(state0)
    want.update(extra or {})

    def look(when):
        K.check(f"{when}: timestamp is the UTC time of t", stamp_of(K, e["Timestamp"], t))
        K.check(f"{when}: activity id", e["ActivityID"] == aid)
        K.check(f"{when}: activity state is the state's name", e["ActivityState"] == st.name)
        K.check(f"{when}: object state is the state at the time of logging", same_dict(K, e["ObjectState"], want))
        K.check(f"{when}: label", e["ActivityLabel"] == (label or {}))

    look("when logged")
    # later changes of the object
    if kind != "activity":
        o.geometry = pos2
        o.node = "elsewhere"
        c = o.container
        c.put(K.real("later", gt=0), "default" if kind in ("site", "vessel") else "a")
    o.log_entry_v1(t, "later", core.LogState.STOP)
    look("after later changes")
    K.check("the second entry comes after it", o.logbook[-1]["ActivityID"] == "later")
    K.check("two entries were added", K.eq(K.len(o.logbook), n0 + 2))
    K.check("the object's own state is not affected by logging", kind == "activity" or o.geometry is pos2)
    K.check("earlier entries are kept, in order", K.starts_with(o.logbook, old))


@contract("C21", "label", TARGETS[:1], budget=60)
def bad_label(K):
    """a label without type or ref is refused and nothing is logged"""
    import openclsim.core as core

    clock(K)
    env, t0 = new_env(K)
    o = classes()["Mover"](env=env, name="o", id="o-id", geometry=None, v=1, nr_resources=1)
    label = K.choice("label", [{"type": "x"}, {"ref": "x"}, {"type": None, "ref": 1}, {"type": "a", "ref": None}])
    n0 = K.len(o.logbook)
    try:
        o.log_entry_v1(0, "a", core.LogState.START, activity_label=label)
        K.fail("incomplete label refused")
    except AssertionError:
        pass
    K.check("nothing logged", K.eq(K.len(o.logbook), n0))
