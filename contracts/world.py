"""Real simulation objects with ghost resources and logs."""

from pyded.sim import EnvEvent, OutOfContract

from .common import *


class GhostResource:
    """Contract of simpy.Resource: a request is granted at some later time,
    release gives it back; ghost state `held`: 0 free, 1 requested, 2 held."""

    def __init__(self, K, env, name, on_request=None, on_release=None):
        self.K, self.env, self.name = K, env, name
        self.on_request, self.on_release = on_request, on_release
        held = 0
        self.held = held
        self.req = None

    def request(self):
        K = self.K
        K.check(f"resource {self.name}: not requested while already held", K.eq(self.held, 0))
        self.held = 1
        T = K.real(f"T.req.{self.name}", lo=self.env.now)
        ev = EnvEvent(self.env, T, "req." + self.name)
        ev.on_fire = self._granted
        self.req = ev
        if self.on_request is not None:
            self.on_request(self, False)
        return ev

    def _granted(self):
        self.held = 2
        if self.on_request is not None:
            self.on_request(self, True)

    def release(self, req):
        K = self.K
        K.check(f"resource {self.name}: released only when held, with its own request", self.req is req and K.eq(self.held, 2))
        self.held = 0
        self.req = None
        if self.on_release is not None:
            self.on_release(self)
        return EnvEvent(self.env, self.env.now, "rel." + self.name)

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("ded"):
            raise AttributeError(k)
        raise OutOfContract(f"Resource.{k}")


_CLS = {}


def classes():
    """user-style mixin classes over the real core classes"""
    import openclsim.core as core

    if _CLS.get("core") is not core:
        _CLS["core"] = core
        I, L, R = core.Identifiable, core.Locatable, core.HasResource
        P = (core.Processor, core.LoadingFunction, core.UnloadingFunction, R, core.Log)

        def mk(name, *bases):
            _CLS[name] = type(name, bases, {"__module__": "user"})

        mk("Site", I, core.Log, L, core.HasContainer, R)
        mk("MultiSite", I, core.Log, L, core.HasMultiContainer, R)
        mk("Vessel", I, core.ContainerDependentMovable, core.Processor, core.LoadingFunction, core.UnloadingFunction, R)
        mk("MultiVessel", I, core.MultiContainerDependentMovable, core.Processor, core.LoadingFunction,
           core.UnloadingFunction, R)
        mk("Mover", I, core.Movable, R)
        mk("PSite", I, L, core.HasContainer, *P)
        mk("MultiPSite", I, L, core.HasMultiContainer, *P)
        mk("Proc", I, L, *P)
    return _CLS


HERE = None


def here():
    import shapely.geometry

    return shapely.geometry.Point(4.0, 52.0)


class GhostContainer:
    """Contract of EventsContainer as its clients see it (verified against the
    real class by C04/*): put/get change one level by exactly the amount,
    immediately; a level event fires at an instant at which the condition holds."""

    def __init__(self, K, env, items, name):
        self.K, self.env, self.name = K, env, name
        # id -> [capacity, level]; reservations start at the level
        self.levels = {}
        self.caps = {}
        for id_, cap, lev in items:
            self.levels[id_] = lev
            self.caps[id_] = cap
        for id_, cap, lev in items:
            self.levels[id_ + "_reservations"] = lev
            self.caps[id_ + "_reservations"] = cap
        self.watch = None

    @property
    def container_list(self):
        return self.K.wrap_list([k for k in self.levels if not k.endswith("_reservations")])

    def get_level(self, id_="default"):
        return self.levels.get(id_, 0)

    def get_capacity(self, id_="default"):
        return self.caps.get(id_, 0)

    def get_container_event(self, level, operator, id_="default"):
        K = self.K
        K.check("pre(EventsContainer.get_container_event): known operator", operator in ("gt", "ge", "lt", "le"))
        cur = self.get_level(id_)
        now = {"gt": cur > level, "ge": cur >= level, "lt": cur < level, "le": cur <= level}[operator]
        if K.is_true(now):
            return EnvEvent(self.env, self.env.now, "cond." + self.name)
        T = K.real("T.cond." + self.name, lo=self.env.now)
        return EnvEvent(self.env, T, "cond." + self.name)

    def get_empty_event(self, id_="default"):
        return self.get_container_event(0, "le", id_)

    def get_full_event(self, id_="default"):
        return self.get_container_event(self.get_capacity(id_), "ge", id_)

    def put(self, amount, id_="default"):
        return self._change(amount, id_)

    def get(self, amount, id_="default"):
        return self._change(0 - amount, id_)

    def _change(self, delta, id_):
        self.K.check("pre(EventsContainer.put/get): the content exists", id_ in self.levels)
        self.levels[id_] = self.levels[id_] + delta
        return EnvEvent(self.env, self.env.now, "store." + self.name)

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("ded"):
            raise AttributeError(k)
        raise OutOfContract(f"EventsContainer.{k}")
