"""Whole simulations at random, against the schedule that follows from the plan: the contracts of the single functions
taken together (concrete runs of the real code on real simpy with real floats; never counted as proved)."""

import datetime
import random

import simpy

from .common import *
from .decimals import ship_class
from .tables import IO, LOGFRAME, T_GANTT, T_TABLE, blocks

EPOCH = datetime.datetime(1970, 1, 1)
TOL = 1e-4  # log entries keep microseconds
M = "openclsim.model."
T_WHOLE = [
    M + "base_activities.GenericActivity.delayed_process",
    M + "base_activities.GenericActivity.parse_expression",
    M + "sequential_activity.SequentialActivity.main_process_function",
    M + "parallel_activity.ParallelActivity.main_process_function",
    M + "while_activity.RepeatActivity.main_process_function",
    M + "basic_activity.BasicActivity.main_process_function",
    M + "move_activity.MoveActivity.main_process_function",
    M + "shift_amount_activity.ShiftAmountActivity.main_process_function",
]


class Plan:
    """activities together with what they should do; a spec is (kind, name, condition, children or duration, ...)"""

    def __init__(self, seed, kinds, delays, conditions, trips):
        import shapely.geometry as sg

        import openclsim.model as model
        import openclsim.plugins as plugin

        self.model = model
        self.r = random.Random(seed)
        self.kinds, self.delays, self.conditions, self.trips = kinds, delays, conditions, trips
        self.env = simpy.Environment(initial_time=self.r.choice([0, 0, 1000]))
        self.t0 = self.env.now
        self.kw = dict(env=self.env, registry={})
        self.n, self.digits = 0, self.r.choice([0, 0, 1, 2, 3])
        self.places = sg.Point(4, 52), sg.Point(4.1, 52.1)
        c = Plan.__dict__.get("classes")
        if c is None:
            c = [type(b.__name__ + "D", (plugin.HasDelayPlugin, b), {}) for b in (model.BasicActivity, model.ShiftAmountActivity, model.MoveActivity)]
            Plan.classes = c
        self.Basic, self.Shift, self.Move = c
        self.acts, self.specs, self.objs = [], [], []
        for _ in range(self.r.randint(1, 4)):
            a, s = self.tree(self.r.choice([0, 1, 2, 2, 3]), [s[1] for s in self.specs])
            self.acts.append(a)
            self.specs.append(s)

    def num(self, a, b):
        return round(self.r.uniform(a, b), self.digits) if self.digits else self.r.randint(a, b)

    def name(self, kind):
        self.n += 1
        return f"{kind}{self.n}"

    def delay(self):
        return self.r.choice([None, None, 10, 50, 12.5]) if self.delays else None

    def start(self, names):
        """a start condition over activities that are planned already, or none"""
        if not self.conditions:
            return None, None
        k = self.r.choice(["none"] * 4 + ["time", "act", "all", "any"])
        if k == "none":
            return None, None
        if k == "act" and names:
            n = self.r.choice(names)
            return {"type": "activity", "state": "done", "name": n}, ("act", n)
        if k in ("time", "act"):
            t = self.t0 + self.num(0, 60)
            return {"type": "time", "start_time": t}, ("time", t)
        xs = [x for x in [self.start(names), self.start(names)] if x[0] is not None]
        if not xs:
            return None, None
        if k == "any":
            return {"or": [x[0] for x in xs]}, ("any", [x[1] for x in xs])
        return self.r.choice([{"and": [x[0] for x in xs]}, [x[0] for x in xs]]), ("all", [x[1] for x in xs])

    def leaf(self, names):
        if self.trips and self.r.choice([0, 0, 1]):
            return self.trip(names)
        n, d, p = self.name("basic"), self.num(0, 20), self.delay()
        e, c = self.start(names)
        return self.Basic(name=n, duration=d, delay_percentage=p, start_event=e, **self.kw), ("leaf", n, c, d, p)

    def trip(self, names):
        """there and back with a load, by a ship and at sites nobody else uses"""
        import pyproj

        Ship, Site = ship_class()
        core = __import__("openclsim.core").core

        class Loader(core.LoadingFunction, core.UnloadingFunction, Ship):
            pass

        n, hold = self.name("trip"), self.num(2, 9) or 3
        pa, pb = self.places
        a = Site(env=self.env, name="A" + n, id="A" + n, geometry=pa, capacity=1e6, level=5e5)
        b = Site(env=self.env, name="B" + n, id="B" + n, geometry=pb, capacity=1e6, level=0)
        v = Loader(env=self.env, name="V" + n, id="V" + n, geometry=pa, capacity=hold, level=0, compute_v=lambda x: 2 + x * 3,
                   loading_rate=self.num(1, 4) or 1, unloading_rate=self.num(1, 4) or 1)
        amount, timed = self.r.choice([None, self.num(1, 12) or 1]), self.r.choice([False, True])
        self.objs += [a, b, v]
        q = hold if amount is None else min(amount, hold)
        far = pyproj.Geod(ellps="WGS84").inv(pa.x, pa.y, pb.x, pb.y)[2]
        subs, specs = [], []

        def shift(o, d, phase, rate):
            n, p, t = self.name("shift"), self.delay(), self.num(1, 9)
            how = dict(duration=t) if timed else dict(phase=phase)
            subs.append(self.Shift(name=n, processor=v, origin=o, destination=d, amount=amount, delay_percentage=p, **how, **self.kw))
            specs.append(("leaf", n, None, t if timed else q / rate, p))

        def move(d, level):
            n, p = self.name("move"), self.delay()
            subs.append(self.Move(name=n, mover=v, destination=d, delay_percentage=p, **self.kw))
            specs.append(("leaf", n, None, far / (2 + level / hold * 3), p))

        shift(a, v, "loading", v.loading_rate)
        move(b, q)
        shift(v, b, "unloading", v.unloading_rate)
        move(a, 0)
        e, c = self.start(names)
        return self.model.SequentialActivity(name=n, sub_processes=subs, start_event=e, **self.kw), ("seq", n, c, specs)

    def tree(self, depth, names):
        k = self.r.choice(["leaf", *self.kinds]) if depth else "leaf"
        if k == "leaf":
            return self.leaf(names)
        n, r = self.name(k), self.r.randint(1, 3)
        kids = [self.tree(depth - 1, names) for _ in range(self.r.randint(1, 3))]
        e, c = self.start(names)
        kw = dict(name=n, sub_processes=[x[0] for x in kids], start_event=e, **self.kw)
        spec = (k, n, c, [x[1] for x in kids], r)
        if k == "seq":
            return self.model.SequentialActivity(**kw), spec
        if k == "par":
            return self.model.ParallelActivity(**kw), spec
        return self.model.RepeatActivity(repetitions=r, **kw), spec

    def schedule(self):
        """for each activity its periods of waiting (W) and work (A)"""
        done, rec = {}, {}

        def holds(c):
            if c is None:
                return self.t0
            k, x = c
            if k == "time":
                return x
            if k == "act":
                return done[x]
            return (max if k == "all" else min)(holds(y) for y in x)

        def go(s, t):
            kind, name, cond, body, x = (*s, None)[:5]
            R = rec.setdefault(name, [])
            b = max(t, holds(cond))
            if b > t:
                R.append(("W", t, b))
            if kind == "leaf":
                R.append(("A", b, b + body))
                if x:
                    R.append(("W", b + body, b + body + body * x / 100))
                return R[-1][2]
            e = b
            if kind == "par":
                e = max(go(k, b) for k in body)
            else:
                for _ in range(x if kind == "rep" else 1):
                    for k in body:
                        e = go(k, e)
            R.append(("A", b, e))
            return e

        for s in self.specs:
            done[s[1]] = go(s, self.t0)
        return rec


def periods(K, act):
    """what an activity's own log says about itself"""
    out, began = [], {}
    log = act.log
    for ts, st, i, label in zip(log["Timestamp"], log["ActivityState"], log["ActivityID"], log["ActivityLabel"]):
        if i != act.id or (label and label.get("type") == "subprocess"):
            continue
        t = (ts - EPOCH).total_seconds()
        k = "W" if "WAIT" in st else "A"
        if st.endswith("START"):
            K.check("no start before the stop of the one before", k not in began)
            began[k] = t
        else:
            K.check("no stop without a start", k in began)
            if k in began:
                out.append((k, began.pop(k), t))
    K.check("every start has its stop", not began)
    return out


def whole(K, *kinds, delays=False, conditions=False, trips=False):
    import openclsim.model as model

    P = Plan(K.choice("plan", range(10**6)), kinds, delays, conditions, trips)
    model.register_processes(P.acts)
    P.env.run(until=1e9)
    rec = P.schedule()
    acts = {a.name: a for a in model.get_subprocesses(P.acts)}
    K.check("all activities of the plan", sorted(acts) == sorted(rec))
    for n, want in rec.items():
        K.check("the activity is done", acts[n].main_process.processed)
        got = sorted(periods(K, acts[n]))
        want = sorted(want)
        K.check("each activity works and waits when the plan says", len(got) == len(want) and all(
            g[0] == w[0] and abs(g[1] - w[1]) < TOL and abs(g[2] - w[2]) < TOL for g, w in zip(got, want)))


def cross_check(prop, *a, **k):
    @contract(prop, "whole", T_WHOLE, budget=60, bounded="whole simulations at random, against the schedule of the plan", concrete=True)
    def f(K):
        whole(K, *a, **k)


cross_check("C05", "seq", trips=True)
cross_check("C06", "seq", "seq", "rep")
cross_check("C07", "par", "par", "seq")
cross_check("C08", "rep", "rep", "seq")
cross_check("C09", "seq", "par", "rep", conditions=True)
cross_check("C10", "seq", conditions=True)
cross_check("C12", "seq", "rep", trips=True)
cross_check("C13", "seq", trips=True)
cross_check("C14", "seq", "par", delays=True, trips=True)


# -- what is made of the logs of whole simulations ------------------------------------


def in_log(o):
    """the periods in the log of o: (activity, waiting?, sub-activity it is about, start, stop), in order of the starts"""
    out, began = [], {}
    log = o.log
    for ts, i, st, label in zip(log["Timestamp"], log["ActivityID"], log["ActivityState"], log["ActivityLabel"]):
        k = (i, "WAIT" in st, (label or {}).get("ref"))
        if st.endswith("START"):
            began.setdefault(k, []).append(len(out))
            out.append([*k, ts, None])
        else:
            out[began[k].pop(0)][4] = ts
    return out


@contract("C26", "whole", T_TABLE, budget=60, bounded="random whole simulations", concrete=True)
def recorded_whole(K):
    import openclsim.critical_path.base_cp as m
    import openclsim.model as model

    class Given(m.BaseCP):
        def get_dependency_list(self):
            return []

    P = Plan(K.choice("plan", range(10**6)), ("seq", "par", "rep"), True, True, True)
    model.register_processes(P.acts)
    P.env.run(until=1e9)
    acts = model.get_subprocesses(P.acts)
    objs = [o for o in P.objs if o.log["Timestamp"]]
    K.assume(objs)
    recs = Given(P.env, objs, P.acts).get_recorded_activity_df().to_dict("records")
    rows = {}
    for r in recs:
        rows.setdefault((r["SimulationObject"], r["ActivityID"], r["state"]), []).append(r)
    for a, b in zip(recs, recs[1:]):
        K.check("in order of their starts", a["start_time"] <= b["start_time"])
    names = {a.id: a.name for a in acts}
    n = 0
    for o, label in [(o, o.name) for o in objs] + [(a, "Activity") for a in acts]:
        groups = {}
        for i, w, ref, s, e in in_log(o):
            groups.setdefault((label, i, "WAITING" if w else "ACTIVE"), []).append((ref, s, e))
        for k, ps in groups.items():
            mine = rows.get(k, [])
            n += len(mine)
            K.check("the name of the activity", all(r["Activity"] == names[k[1]] for r in mine))
            K.check("its duration", all(r["duration"] == r["end_time"] - r["start_time"] for r in mine))
            got = sorted((r["start_time"], r["end_time"]) for r in mine)
            mixed = list(zip(sorted(s for _, s, _ in ps), sorted(e for _, _, e in ps)))
            K.check_known(
                "one row for each period in each log", "C26-composite", got == sorted((s, e) for _, s, e in ps),
                lambda: any(ref for ref, _, _ in ps) and got == mixed,
            )
    K.check("no other rows", n == len(recs))
    ids = {}
    for r in recs:
        ids.setdefault(r["cp_activity_id"], set()).add((r["ActivityID"], r["start_time"], r["end_time"]))
    K.check("one id for each activity and period", all(len(v) == 1 for v in ids.values()) and len(set().union(*ids.values())) == len(ids))


@contract("C25", "whole", [LOGFRAME, IO + "get_activity_log", IO + "get_ranges_dataframe", *T_GANTT], budget=60, bounded="random whole simulations", concrete=True)
def exported_whole(K):
    import openclsim.io as io
    import openclsim.model as model
    import openclsim.plot as plot

    P = Plan(K.choice("plan", range(10**6)), ("seq", "par", "rep"), True, True, True)
    acts = model.get_subprocesses(P.acts)
    K.assume(len(acts) <= 12)
    model.register_processes(P.acts)
    P.env.run(until=1e9)
    want = [(a.id, a.name, type(a).__name__, s, e) for a in acts for _, w, _, s, e in in_log(a) if not w]
    cols = ("ActivityID", "ActivityName", "ActivityClass", "TimestampStart", "TimestampStop")
    recs = io.get_activity_log(P.acts).to_dict("records")
    got = [tuple(r[c] for c in cols) for r in recs]
    K.check("duration in seconds", all(abs(r["TimestampDt"] - (r["TimestampStop"] - r["TimestampStart"]).total_seconds()) < TOL for r in recs))
    K.check("one row for each period of each activity", sorted(got) == sorted(want))
    objs = [o for o in P.objs if o.log["Timestamp"]]
    for o in objs:
        want = sorted((i, s, e) for i, w, _, s, e in in_log(o) if not w)
        got = sorted((r["Activity"], r["TimestampStart"], r["TimestampStop"]) for r in io.get_ranges_dataframe(o).to_dict("records"))
        K.check("one row for each period of an object", got == want)
    drawn = [o for o in objs + acts if o.log["Timestamp"]]
    names = {a.id: a.name for a in acts}
    want = sorted((names[i], o.name, s, e) for o in drawn for i, w, _, s, e in in_log(o) if not w)
    got = {}
    for t in plot.get_gantt_chart(drawn, id_map=P.acts, static=True)["data"]:
        got.setdefault(t.name, blocks(t))
    K.check("a block for each period of each object", sorted((i, *b) for i, bs in got.items() for b in bs) == want)
