"""Contracts of condition expressions and of the gate in front of an activity."""

import simpy

from .common import *
from .world import GhostContainer, OutOfContract

T_EXPR = ["openclsim.model.base_activities.GenericActivity.parse_expression"]
T_GATE = ["openclsim.model.base_activities.GenericActivity.delayed_process"] + T_EXPR


def make(K, env, registry=None, **kw):
    import openclsim.model as model

    return model.BasicActivity(env=env, registry={} if registry is None else registry, name="act", id="act-id",
                               duration=K.real("duration", lo=0), **kw)


class CondEnv(KEnv):
    """all_of/any_of over lists of unknown length: kept as descriptions"""

    def all_of(self, events):
        return self._cond("all", events, super().all_of)

    def any_of(self, events):
        return self._cond("any", events, super().any_of)

    def _cond(self, kind, events, native):
        if self.K.symbolic:
            from pyded.seq import SymSeq, is_symseq, segs_of

            if is_symseq(events) and any(s[0] == "run" for s in segs_of(events)):
                ev = EnvEvent(self, self.K.real("T." + kind), kind)
                ev.kind, ev.parts = kind, segs_of(events)
                return ev
        return native(list(events))


class Leaves:
    """children of an expression: events e(0), e(1), ... each firing at an
    arbitrary time"""

    def __init__(self, K, env, label):
        self.K, self.env, self.label = K, env, label
        self.f = K.func("T." + label, 1)
        self.made = {}

    def at(self, j):
        k = str(j)
        if k not in self.made:
            e = EnvEvent(self.env, self.f(j), self.label)
            e.idx = j
            self.made[k] = e
        return self.made[k]


def small(K, env, label, lo=0, hi=3):
    n = K.choice("n." + label, list(range(lo, hi + 1)))
    return [EnvEvent(env, K.real("T." + label, lo=0), f"{label}{i}") for i in range(n)]


def fires(K, ev):
    """when does a process waiting for ev, from now on, resume?"""
    from pyded.sim import fire_time

    return K.max(ev.env.now, fire_time(K, ev, ev.env.now))


def latest(K, env, evs):
    return K.max(env.now, *[e.T for e in evs]) if evs else env.now


def earliest(K, env, evs):
    return K.max(env.now, K.min(*[e.T for e in evs])) if evs else env.now


def is_event(K, ev):
    K.check("the condition is an event to wait for", isinstance(ev, simpy.Event))


@contract("C10", "connectives", T_EXPR, budget=100)
def connectives(K):
    """lists and 'and' fire when the last, 'or' when the first part fires;
    parts are arbitrary conditions (any number up to 3, nested to depth 2)"""
    env, t0 = new_env(K)
    act = make(K, env)
    evs = small(K, env, "part")
    inner = small(K, env, "inner", 1, 2)
    form = K.choice("form", ["event", "list", "and", "or", "list/or", "and/list", "or/and", "or/list", "and/or"])
    if form == "event":
        e = EnvEvent(env, K.real("T.e", lo=0), "e")
        got = act.parse_expression(e)
        is_event(K, got)
        K.check("an event stands for itself", K.eq(fires(K, got), K.max(t0, e.T)))
        return
    if "/" not in form:
        expr = {"list": evs, "and": {"and": evs}, "or": {"or": evs}}[form]
        want = (earliest if form == "or" else latest)(K, env, evs)
    else:
        o, i = form.split("/")
        sub = {"list": inner, "and": {"and": inner}, "or": {"or": inner}}[i]
        isub = (earliest if i == "or" else latest)(K, env, inner)
        allp = [sub] + evs
        expr = {"list": allp, "and": {"and": allp}, "or": {"or": allp}}[o]
        ts = [isub] + [e.T for e in evs]
        want = K.max(t0, *ts) if o != "or" else K.max(t0, K.min(*ts))
    got = act.parse_expression(expr)
    is_event(K, got)
    K.check(f"{form}: fires when it should", K.eq(fires(K, got), want))


@contract("C10", "any-length", T_EXPR, budget=100)
def any_length(K):
    """lists of arbitrary length: every part, and nothing else, is waited for"""
    t0 = K.real("t0", lo=0)
    env = CondEnv(K, t0)
    K.root("env", env)
    act = make(K, env)
    A, B = Leaves(K, env, "a"), Leaves(K, env, "b")
    w = EnvEvent(env, K.real("T.w", lo=0), "w")
    parts = K.seq(("run", "a", A.at), ("one", w), ("run", "b", B.at))
    want = K.frozen(parts)
    form = K.choice("form", ["list", "and", "or"])
    got = act.parse_expression({"list": parts, "and": {"and": parts}, "or": {"or": parts}}[form])
    is_event(K, got)
    if not K.symbolic:
        from pyded.sim import fire_time

        ts = [e.T for e in parts]
        K.check("fires when it should", K.eq(fires(K, got), K.max(t0, (min if form == "or" else max)(ts))))
        return
    from pyded.engine import SymBool

    ev, kind = got, None
    # all_of([x]) is x
    while isinstance(ev, (simpy.AllOf, simpy.AnyOf)) and len(ev._events) == 1:
        ev = ev._events[0]
    if not hasattr(ev, "parts"):
        raise OutOfContract("condition built in another way")
    K.check("the right connective", ev.kind == ("any" if form == "or" else "all"))
    K.check("one condition per part", [s[0] for s in ev.parts] == [s[0] for s in want])
    for s, t in zip(ev.parts, want):
        if s[0] == "one":
            K.check("the watched part is waited for", s[1] is t[1])
        else:
            K.check("the same parts", K.and_(SymBool(s[1].lo == t[1].lo), SymBool(s[1].hi == t[1].hi)))
            e = s[1].fresh_elem()
            if isinstance(e, tuple):
                e = e[-1]
            K.check("each part stands for its own event", isinstance(e, EnvEvent) and e is (A if s is ev.parts[0] else B).at(e.idx))


class Tank:
    def __init__(self, c):
        self.container = c


class WhenAsked:
    """a container whose level comes and goes: when the level event fires
    depends on when it was asked for"""

    __ded_leaf__ = True

    def __init__(self, K, env):
        self.K, self.env = K, env
        self.f = K.func("T.asked", 1)

    def get_container_event(self, level, operator, id_="default"):
        T = self.f(self.env.now)
        self.K.assume(T >= self.env.now)
        return EnvEvent(self.env, T, "level")

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("ded"):
            raise AttributeError(k)
        raise OutOfContract(f"EventsContainer.{k}")


class AskedContainer(GhostContainer):
    """records which level event is asked for"""

    def __init__(self, *a):
        super().__init__(*a)
        self.asked = []
        self.given = None

    def get_container_event(self, level, operator, id_="default"):
        self.asked.append((operator, level, id_))
        self.given = EnvEvent(self.env, self.K.real("T.cond", lo=self.env.now), "cond")
        return self.given

    def get_full_event(self, id_="default"):
        return self.get_container_event(self.get_capacity(id_), "ge", id_)

    def get_empty_event(self, id_="default"):
        return self.get_container_event(0, "le", id_)


@contract("C10", "container", T_EXPR, budget=100)
def container_expr(K):
    env, t0 = new_env(K)
    act = make(K, env)
    capd, cap2 = K.real("cap", gt=0), K.real("cap2", gt=0)
    c = AskedContainer(K, env, [("default", capd, K.real("lev", lo=0)), ("sand", cap2, K.real("lev2", lo=0))], "tank")
    st = K.choice("state", ["gt", "ge", "lt", "le", "full", "empty"])
    expr = {"type": "container", "concept": Tank(c), "state": st}
    lvl = None
    if st not in ("full", "empty"):
        lvl = expr["level"] = K.real("level")
    id_ = K.choice("id_", [None, "default", "sand"])
    if id_ is not None:
        expr["id_"] = id_
    got = act.parse_expression(expr)
    is_event(K, got)
    K.check("one level condition is asked for", len(c.asked) == 1)
    op, l, i = c.asked[0]
    want_id = id_ or "default"
    K.check("for the named content", i == want_id)
    if st == "full":
        K.check("full: level reaches the capacity", op == "ge" and K.is_true(K.eq(l, capd if want_id == "default" else cap2)))
    elif st == "empty":
        K.check("empty: level at most zero", op == "le" and K.is_true(K.eq(l, 0)))
    else:
        K.check("the comparison and level that were given", K.and_(op == st, K.eq(l, lvl)))
    K.check("fires when the container says so", K.eq(fires(K, got), K.max(t0, c.given.T)))


@contract("C10", "activity", T_EXPR, budget=100)
def activity_expr(K):
    """done conditions look an activity up by id, else by name, and fire when
    all activities found are done"""
    env, t0 = new_env(K)
    import openclsim.model as model

    def mk(l):
        a = model.BasicActivity(env=env, registry={}, name=l.upper(), id=l + "-id", duration=K.real("duration", lo=0))
        a.main_process = EnvEvent(env, K.real("T." + l, lo=0), l)
        return a

    p, q, r = mk("p"), mk("q"), mk("r")
    how = K.choice("how", ["name", "id as name", "ID", "ID=name", "two of a name", "id before name", "ID over name", "unknown", "no registry", "state", "no state"])
    reg = {"name": {"P": {p}, "Q": {q}, "PQ": {p, q}, "x": {r}}, "id": {"p-id": {p}, "q-id": {q}, "x": {p}}}
    if how == "no registry":
        reg = {}
    act = make(K, env, registry=reg)
    e = {"type": "activity", "state": "done"}
    e.update({"name": {"name": "P"}, "id as name": {"name": "p-id"}, "ID": {"ID": "p-id"}, "ID=name": {"ID": "P"},
              "two of a name": {"name": "PQ"}, "id before name": {"name": "x"}, "ID over name": {"ID": "p-id", "name": "Q"},
              "unknown": {"name": "nobody"}, "no registry": {"name": "P"}, "state": {"name": "P", "state": "started"},
              "no state": {"name": "P"}}[how])
    if how == "no state":
        del e["state"]
    if how in ("unknown", "no registry", "state", "no state"):
        try:
            act.parse_expression(e)
            K.fail("refused")
        except Exception:  # noqa: BLE001
            K.check("refused", True)
        return
    got = act.parse_expression(e)
    is_event(K, got)
    want = K.max(p.main_process.T, q.main_process.T) if how == "two of a name" else p.main_process.T
    K.check(f"{how}: fires when the activity is done", K.eq(fires(K, got), K.max(t0, want)))


@contract("C10", "time", T_EXPR, budget=100)
def time_expr(K):
    env, t0 = new_env(K)
    act = make(K, env)
    s = K.real("start", lo=0)
    e = {"type": "time", "start_time": s}
    form = K.choice("form", ["plain", "or", "and"])
    other = EnvEvent(env, K.real("T.o", lo=0), "o")
    got = act.parse_expression({"plain": e, "or": {"or": [e, other]}, "and": [other, e]}[form])
    is_event(K, got)
    want = {"plain": s, "or": K.min(s, other.T), "and": K.max(s, other.T)}[form]
    K.check("fires at the given time, at once when that has passed", K.eq(fires(K, got), K.max(t0, want)))


@contract("C10", "invalid", T_EXPR, budget=60)
def invalid_expr(K):
    env, t0 = new_env(K)
    act = make(K, env)
    c = AskedContainer(K, env, [("default", 1, 0)], "tank")
    bad = K.choice("bad", [None, 3, "text", (), {"type": "what"}, {}, {"type": "container", "concept": Tank(c), "state": "half"},
                           {"type": "container", "concept": Tank(c), "state": "lt"}, [3], {"or": [None]}, {"and": [{}]}])
    try:
        act.parse_expression(bad)
        K.fail("an expression without meaning is refused")
    except ValueError:
        K.check("an expression without meaning is refused", True)


# -- the gate of an activity
@contract("C09", "gate", T_GATE, budget=200)
def gate(K):
    """waits for the parent, then for its own start condition, logs exactly the
    time waited for the condition, then runs"""
    env, t0 = new_env(K)
    form = K.choice("start", ["none", "event", "list", "or", "time", "level"])
    e1 = EnvEvent(env, K.real("T.s1", lo=0), "s1")
    e2 = EnvEvent(env, K.real("T.s2", lo=0), "s2")
    st = K.real("start_time", lo=0)
    tank = Tank(WhenAsked(K, env))
    lev = {"type": "container", "concept": tank, "state": "ge", "level": 5}
    expr = {"level": lev, "none": None, "event": e1, "list": [e1, e2], "or": {"or": [e1, e2]}, "time": {"type": "time", "start_time": st}}[form]
    ts = {"level": tank.container.f(t0), "none": t0, "event": e1.T, "list": K.max(e1.T, e2.T), "or": K.min(e1.T, e2.T), "time": st}[form]
    extra = K.choice("logs", ["none", "some"])
    holder = {}
    logs = None
    if extra == "some":
        watched = GhostLog(K, lambda *a: holder["x"](*a), "x")
        logs = K.seq(("run", "A", lambda j: AnonLog(K)), ("one", watched), ("run", "B", lambda j: AnonLog(K)))
    act = make(K, env, start_event=expr, additional_logs=logs)
    par = K.choice("parent", ["none", "event", "expr"])
    tp = t0
    if par != "none":
        ep = EnvEvent(env, K.real("T.parent", lo=0), "parent")
        act.start_event_parent = ep if par == "event" else [ep]
        tp = K.max(t0, ep.T)
    g = Box(m=0, x=0, m0=0, m1=0, x0=0, x1=0, ran=0, t=0)
    K.root("ghost.gate", g)

    def on(which, label_want):
        def f(obj, t, aid, state, label):
            n = getattr(g, which)
            K.check(f"{which}: entry carries the activity id", K.eq(aid, act.id))
            K.check(f"{which}: entry label", label_want(label))
            K.check(f"{which}: WAIT_START, then WAIT_STOP, once", K.and_(state in ("WAIT_START", "WAIT_STOP"), K.eq(n, 0 if state == "WAIT_START" else 1)))
            K.check(f"{which}: waiting is logged before the activity runs", K.eq(g.ran, 0))
            setattr(g, which + ("0" if state == "WAIT_START" else "1"), t)
            setattr(g, which, n + 1)

        return f

    ghost_log(K, act, on("m", no_label))
    if extra == "some":
        holder["x"] = on("x", lambda lab: label_ok(K, lab, "additional log", act.id))

    def main_process_function(activity_log, env):
        K.check("the activity runs once", K.eq(g.ran, 0))
        K.check("the activity runs in its own log and environment", activity_log is act and env is act.env)
        g.ran = 1
        g.t = env.now
        yield EnvEvent(env, env.now, "body")

    act.main_process_function = main_process_function
    Driver(K, env).run(act.delayed_process(activity_log=act, env=env))
    ts = K.max(tp, ts)
    K.check("the activity ran", K.eq(g.ran, 1))
    K.check("it starts as soon as parent and start condition are done, not before", K.eq(g.t, ts))
    K.check("waiting is logged iff it waited for its condition", K.iff(K.eq(g.m, 2), K.lt_strict(tp, ts)))
    K.check("no half logged waiting", K.or_(K.eq(g.m, 0), K.eq(g.m, 2)))
    K.check("the logged waiting is from the parent's start to the condition", K.implies(K.eq(g.m, 2), K.and_(K.eq(g.m0, tp), K.eq(g.m1, ts))))
    if extra == "some":
        K.check("additional logs show the same waiting", K.and_(K.eq(g.x, g.m), K.eq(g.x0, g.m0), K.eq(g.x1, g.m1)))
