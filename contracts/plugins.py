"""Contracts of the plugin mechanism, the delay plugin and the weather plugin's waiting."""

from .common import *

T_PLUG = [
    "openclsim.model.base_activities.PluginActivity.pre_process",
    "openclsim.model.base_activities.PluginActivity.post_process",
    "openclsim.model.base_activities.PluginActivity.register_plugin",
]
T_DELAY = [
    "openclsim.plugins.delay.HasDelayPlugin.__init__",
    "openclsim.plugins.delay.DelayPlugin.__init__",
    "openclsim.plugins.delay.DelayPlugin.post_process",
    "openclsim.model.base_activities.PluginActivity.delay_processing",
]


def plugin_class():
    import openclsim.model as model

    class Plug(model.AbstractPluginClass):
        """A plugin taking arbitrary time, reporting to the observer."""

        __ded_leaf__ = True

        def __init__(self, K, env, label, seen, watched=True):
            self.K, self.env, self.label, self.seen, self.watched = K, env, label, seen, watched

        def pre_process(self, *a, **k):
            return self.go("pre", a, k)

        def post_process(self, *a, **k):
            return self.go("post", a, k)

        def go(self, which, a, k):
            K = self.K
            # generator: nothing happens until it is driven
            if self.watched:
                self.seen(self, which, "in", a, k)
            T = K.real(f"T.{which}.{self.label}", lo=self.env.now)
            yield EnvEvent(self.env, T, which)
            if self.watched:
                self.seen(self, which, "out", a, k)

    return Plug


def make_activity(K, env, **kw):
    import openclsim.model as model

    return model.BasicActivity(env=env, registry={}, name="act", id="act-id", duration=K.real("duration", lo=0), **kw)


@contract("C20", "run", T_PLUG[:2], budget=100)
def run_all(K):
    """before/after plugins run one after the other, in list order, each once"""
    env, t0 = new_env(K)
    act = make_activity(K, env)
    Plug = plugin_class()
    which = K.choice("which", ["pre", "post"])
    g = Box(step=0, t=0, prev=0)
    K.root("ghost.order", g)
    # w and x are arbitrary neighbours
    order = {"w": 0, "x": 2}
    argd = {"env": env, "activity_log": act, "activity": act}
    if which == "post":
        argd["start_preprocessing"] = K.real("sp")
        argd["start_activity"] = K.real("sa")

    def seen(p, wh, edge, a, k):
        K.check("the right hook is called", wh == which)
        K.check("each plugin runs once, in list order, one after the other", K.eq(g.step, order[p.label] + (edge == "out")))
        K.check("plugins get the activity's arguments", len(a) == 0 and set(k) == set(argd) and all(k[n] is argd[n] for n in argd))
        g.step = g.step + 1
        if p.label == "x" and edge == "in":
            K.check("the next plugin starts when the previous one is done", K.eq(env.now, g.t))
        g.t = env.now
        if p.label == "w" and edge == "in" and not K.is_true(g.prev):
            K.check("the first plugin starts at once", K.eq(env.now, t0))

    w, x = Plug(K, env, "w", seen), Plug(K, env, "x", seen)
    item = lambda p: {"priority": 0, "plugin": p}
    anon = lambda j: item(Plug(K, env, "anon", seen, False))
    shape = K.choice("shape", ["first", "inner", "none"])
    if shape == "inner":
        g.prev = True
        lst = K.seq(("run", "before", anon), ("one", item(w)), ("one", item(x)), ("run", "after", anon))
    elif shape == "first":
        g.prev = False
        lst = K.seq(("one", item(w)), ("one", item(x)), ("run", "after", anon))
    else:
        lst = K.seq()
    # the representation of the plugin list, as the public API builds it
    probe = make_activity(K, env)
    probe.register_plugin(w, priority=0)
    if [dict(i) for i in probe.plugins] != [item(w)]:
        raise OutOfContract("representation of the plugin list")
    act.plugins = lst
    gen = act.pre_process(argd) if which == "pre" else act.post_process(**argd)
    Driver(K, env).run(gen)
    K.check("every plugin ran", K.eq(g.step, 0 if shape == "none" else 4))
    if shape == "none":
        K.check("no plugin, no time passes", K.eq(env.now, t0))


@contract("C20", "order", T_PLUG, budget=100, bounded="at most 4 plugins (any priorities from -3 to 6)")
def order_of(K):
    """plugins run by ascending priority, equal priorities in order of registration
    (four plugins, arbitrary priorities)"""
    env, t0 = new_env(K)
    act = make_activity(K, env)
    Plug = plugin_class()
    ran = []
    n = K.choice("n", [1, 2, 3, 4])
    ps = []
    for i in range(n):
        p = Plug(K, env, str(i), lambda p, wh, edge, a, k: ran.append((p, wh)) if edge == "in" else None)
        p.prio = K.int("priority", lo=-3, hi=6)
        ps.append(p)
        act.register_plugin(plugin=p, priority=p.prio)
    argd = {"env": env, "activity_log": act, "activity": act}
    for which in ("pre", "post"):
        del ran[:]
        gen = act.pre_process(argd) if which == "pre" else act.post_process(**argd, start_preprocessing=t0, start_activity=t0)
        Driver(K, env).run(gen)
        K.check("every registered plugin runs exactly once", len(ran) == n and all(sum(r[0] is p for r in ran) == 1 for p in ps) and all(r[1] == which for r in ran))
        for (a, _), (b, _) in zip(ran, ran[1:]):
            K.check("ascending priority, ties in order of registration",
                    K.or_(a.prio < b.prio, K.and_(K.eq(a.prio, b.prio), ps.index(a) < ps.index(b))))


@contract("C20", "insert", T_PLUG[2:], budget=60)
def insert(K):
    """any number of plugins in order of priority stay so when one is registered,
    which comes after those of its own priority (induction step; the list is
    empty at first)"""
    env, t0 = new_env(K)
    act = make_activity(K, env)
    Plug = plugin_class()
    K.check("no plugins at first", len(act.plugins) == 0)
    pr = K.func("pr")
    if not K.symbolic:
        ps = sorted(K.int("other", lo=-3, hi=6) for _ in range(12))
        pr = lambda j: ps[j]
    item = lambda p, q: {"priority": q, "plugin": p}
    anon = lambda j: item(Plug(K, env, "anon", None, False), pr(j))
    lst = K.seq(("run", "P", anon, [], [lambda v, w: v["priority"] <= w["priority"]]))
    p = Plug(K, env, "p", None, False)
    q = K.real("priority") if K.symbolic else K.int("priority", lo=-3, hi=6)
    probe = make_activity(K, env)
    probe.register_plugin(p, priority=q)
    if [dict(i) for i in probe.plugins] != [item(p, q)]:
        raise OutOfContract("representation of the plugin list")
    act.plugins = lst
    before = K.frozen(lst)
    if K.choice("default", [False, True]):
        K.assume(K.eq(q, 0))
        act.register_plugin(p)
    else:
        act.register_plugin(p, q) if K.choice("positional", [False, True]) else act.register_plugin(priority=q, plugin=p)
    after = K.frozen(act.plugins)
    if not K.symbolic:
        at = [i for i, x in enumerate(after) if x["plugin"] is p]
        K.check("the plugin is registered once", len(at) == 1 and after[at[0]]["priority"] == q)
        rest = [x for x in after if x["plugin"] is not p]
        K.check("the others stay, in their order", len(rest) == len(before) and all(x is y for x, y in zip(rest, before)))
        K.check("those before it have at most its priority", all(x["priority"] <= q for x in after[:at[0]]))
        K.check("those after it have a greater one", all(x["priority"] > q for x in after[at[0] + 1:]))
        return
    from pyded.engine import SymBool, SymNum

    at = [i for i, (k, x) in enumerate(after) if k == "one" and x["plugin"] is p]
    K.check("the plugin is registered once", len(at) == 1 and K.is_true(K.eq(after[at[0]][1]["priority"], q)))
    rest = [s for s in after if s[0] == "run"]
    if len(rest) + 1 != len(after):
        raise OutOfContract("representation of the plugin list")
    src = before[0][1]
    pos = src.lo
    same = []
    for _, r in rest:
        same += [r.cache is src.cache, SymBool(r.lo == pos)]
        pos = r.hi
    K.check("the others stay, in their order", K.and_(*same, SymBool(pos == src.hi)))
    for i, (k, r) in enumerate(after):
        if k == "run" and K.is_true(SymNum(r.length()) > 0):
            e = r.fresh_elem("any")[1]["priority"]
            if i < at[0]:
                K.check("those before it have at most its priority", e <= q)
            else:
                K.check("those after it have a greater one", e > q)


class WaitLog:
    """ghost automaton of WAIT_START/WAIT_STOP on the activity log"""

    def __init__(self, K, env, act, ref):
        self.K, self.env, self.act, self.ref = K, env, act, ref
        self.g = Box(phase=0, t0=0, t1=0, main=0, ms=0, me=0)
        K.root("ghost.wait", self.g)
        ghost_log(K, act, self.on)

    def on(self, obj, t, aid, state, label):
        K, g = self.K, self.g
        K.check("entry carries the activity id", K.eq(aid, self.act.id))
        K.check("entry stamped with the current time", K.eq(t, self.env.now))
        if state in ("START", "STOP"):
            K.check("START/STOP carry no label", no_label(label))
            if state == "START":
                g.ms = t
            else:
                g.me = t
            g.main = g.main + 1
            return
        K.check("waiting is labelled with the plugin", label_ok(K, label, "plugin", self.ref))
        if state == "WAIT_START":
            K.check("WAIT_START once", K.eq(g.phase, 0))
            g.phase, g.t0 = 1, t
        elif state == "WAIT_STOP":
            K.check("WAIT_STOP follows WAIT_START", K.eq(g.phase, 1))
            g.phase, g.t1 = 2, t
        else:
            K.fail("known state", state)


@contract("C14", "activity", T_DELAY, budget=100)
def delay_activity(K):
    """an activity with a delay percentage, end to end through its process"""
    import openclsim.model as model
    import openclsim.plugins as plugins

    env, t0 = new_env(K)
    p = K.real("percentage", lo=0) if K.choice("percentage", ["given", "none"]) == "given" else None

    class Act(plugins.HasDelayPlugin, model.BasicActivity):
        pass

    d = K.real("duration", lo=0)
    act = Act(env=env, registry={}, name="act", id="act-id", duration=d, delay_percentage=p)
    W = WaitLog(K, env, act, "delay")
    # another plugin that takes time before and after
    Plug = plugin_class()
    early = Plug(K, env, "early", lambda pl, wh, edge, a, k: setattr(pl, "t", env.now) if (wh, edge) == ("post", "out") else None)
    late = Plug(K, env, "late", lambda pl, wh, edge, a, k: setattr(pl, "t", env.now) if (wh, edge) == ("post", "in") else None)
    act.register_plugin(early, priority=0)
    act.register_plugin(late, priority=9)
    Driver(K, env).run(act.main_process_function(activity_log=act, env=env))
    g = W.g
    K.check("START and STOP logged", K.eq(g.main, 2))
    K.check("the activity itself is not delayed", K.eq(g.me, g.ms + d))
    if p is None:
        K.check("no percentage, no waiting", K.eq(g.phase, 0))
        K.check("no percentage, no time passes", K.eq(early.t, late.t))
    else:
        K.check("one waiting period", K.eq(g.phase, 2))
        K.check("waiting begins when the earlier plugins are done", K.eq(g.t0, early.t))
        # elapsed since START at that moment
        K.check("waits the percentage of the time since START", K.eq((g.t1 - g.t0) * 100, (g.t0 - g.ms) * p))
        K.check("later plugins run after the delay", K.eq(late.t, g.t1))


@contract("C14", "hook", T_DELAY[2:], budget=100)
def delay_hook(K):
    """the delay only depends on the time since the activity's START"""
    import openclsim.model as model
    import openclsim.plugins.delay as delay

    env, t0 = new_env(K)
    p = K.real("percentage", lo=0)
    act = make_activity(K, env)
    W = WaitLog(K, env, act, "delay")
    plug = delay.DelayPlugin(delay_percentage=p)
    sa = K.real("start", lo=0)
    K.assume(sa <= t0)
    sp = K.real("start_preprocessing", lo=0)
    K.assume(sp <= sa)
    r = plug.pre_process(env=env, activity_log=act, activity=act)
    K.check("nothing before the activity", not list(r))
    Driver(K, env).run(iter_of(plug.post_process(env=env, activity_log=act, activity=act, start_activity=sa, start_preprocessing=sp)))
    K.check("waits (now - START) * percentage / 100", K.eq((env.now - t0) * 100, (t0 - sa) * p))
    K.check("waiting logged over exactly that period", K.and_(K.eq(W.g.phase, 2), K.eq(W.g.t0, t0), K.eq(W.g.t1, env.now)))


def iter_of(x):
    yield from x
