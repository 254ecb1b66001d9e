"""Shared contract vocabulary: ghost logs, stub plugins, worlds."""

from pyded.registry import contract
from pyded.sim import Driver, EnvEvent, KEnv, OutOfContract, StuckEvent


class Box:
    """ghost state (its attributes are part of the verified heap)"""

    def __init__(self, **k):
        self.__dict__.update(k)


def label_ok(K, label, typ, ref):
    if not isinstance(label, dict):
        return False
    return K.and_(K.eq(label.get("type"), typ), K.eq(label.get("ref"), ref))


def no_label(label):
    return label is None or (isinstance(label, dict) and len(label) == 0)


def state_name(s):
    return getattr(s, "name", s)


class GhostLog:
    """Contract of Log.log_entry_v1 (verified separately): precondition on the
    label, effect = exactly one entry handed to the ghost observer."""

    def __init__(self, K, observer, name):
        self.K = K
        self.observer = observer
        self.name = name

    def log_entry_v1(
        self,
        t,
        activity_id=None,
        activity_state=None,
        additional_state=None,
        activity_label=None,
    ):
        pre_label(self.K, activity_label)
        self.observer(self, t, activity_id, state_name(activity_state), activity_label)


def pre_label(K, label):
    if label is not None:
        K.check(
            "pre(Log.log_entry_v1): label carries type and ref",
            isinstance(label, dict)
            and label.get("type") is not None
            and label.get("ref") is not None,
        )


def ghost_log(K, obj, observer):
    """replace obj.log_entry_v1 by its contract"""
    g = GhostLog(K, lambda s, *a: observer(obj, *a), getattr(obj, "name", "?"))
    obj.log_entry_v1 = g.log_entry_v1
    return obj


class Interval:
    """ghost automaton of a START/STOP pair on one log"""

    def __init__(self, K, env, tag, activity_id, check_label, now_check=True):
        self.K, self.env, self.tag = K, env, tag
        self.activity_id = activity_id
        self.check_label = check_label
        self.now_check = now_check
        self.g = Box(phase=0, t0=0, t1=0)
        K.root("ghost." + tag, self.g)

    def on(self, obj, t, aid, state, label):
        K, g, tag = self.K, self.g, self.tag
        K.check(f"{tag}: entry carries the activity id", K.eq(aid, self.activity_id))
        K.check(f"{tag}: entry label", self.check_label(label))
        if self.now_check:
            K.check(f"{tag}: entry stamped with the current time", K.eq(t, self.env.now))
        if state == "START":
            K.check(f"{tag}: START before STOP, once", K.eq(g.phase, 0))
            g.phase = 1
            g.t0 = t
        elif state == "STOP":
            K.check(f"{tag}: STOP follows START, once", K.eq(g.phase, 1))
            g.phase = 2
            g.t1 = t
        else:
            K.fail(f"{tag}: only START/STOP entries", state)


class Plugins:
    """The before/after plugins of an activity, by contract: one stub plugin,
    registered through the public API, in which arbitrary nonnegative time
    passes (the chaining of several plugins is verified separately)."""

    def __init__(self, K, env, act, tag="", on_pre=None, on_post=None):
        self.K, self.env, self.act = K, env, act
        self.g = Box(pre=0, post=0, t_pre0=0, t_pre1=0, t_post=0, t_post1=0, sp=0, sa=0)
        K.root("ghost.plugins" + tag, self.g)
        self.on_pre, self.on_post = on_pre, on_post
        self.tag = tag
        act.register_plugin(self)

    __ded_leaf__ = True

    def pre_process(self, env, activity_log, activity, *args, **kwargs):
        K, g = self.K, self.g
        K.check("plugins: pre_process runs once", K.eq(g.pre, 0))
        K.check(
            "plugins: pre_process receives the activity, its log and the environment",
            env is self.env and activity is self.act and activity_log is self.act,
        )
        g.pre = 1
        g.t_pre0 = self.env.now
        if self.on_pre:
            self.on_pre()
        return self._pass("pre")

    def _pass(self, which):
        K, g = self.K, self.g
        T = K.real(f"T.{which}{self.tag}", lo=self.env.now)
        yield EnvEvent(self.env, T, which)
        if which == "pre":
            g.t_pre1 = self.env.now
        else:
            g.t_post1 = self.env.now

    def post_process(
        self,
        env,
        activity_log,
        activity,
        start_preprocessing,
        start_activity,
        *args,
        **kwargs,
    ):
        K, g = self.K, self.g
        K.check(
            "plugins: post_process runs once, after pre_process",
            K.and_(K.eq(g.post, 0), K.eq(g.pre, 1)),
        )
        K.check(
            "plugins: post_process receives the activity, its log and the environment",
            env is self.env and activity is self.act and activity_log is self.act,
        )
        g.post = 1
        g.sa = start_activity
        g.sp = start_preprocessing
        g.t_post = self.env.now
        if self.on_post:
            self.on_post()
        return self._pass("post")

    def validate(self):
        pass


def new_env(K):
    t0 = K.real("t0", lo=0)
    env = KEnv(K, t0)
    K.root("env", env)
    return env, t0


class Elem:
    """anonymous list element: attributes are functions of the index"""

    def __init__(self, **k):
        self.__dict__.update(k)


class AnonLog:
    """an anonymous log of a symbolic run: its entries are not observed"""

    __ded_leaf__ = True

    def __init__(self, K):
        self.K = K

    def log_entry_v1(
        self,
        t,
        activity_id=None,
        activity_state=None,
        additional_state=None,
        activity_label=None,
    ):
        pre_label(self.K, activity_label)
