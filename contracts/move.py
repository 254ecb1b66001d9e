"""Contracts of MoveActivity and Movable."""

from . import geo
from .common import *
from .world import *

TARGETS = [
    "openclsim.model.move_activity.MoveActivity.main_process_function",
    "openclsim.core.movable.Movable.move",
    "openclsim.core.movable.Movable.compute_duration",
    "openclsim.core.movable.Movable.compute_distance",
    "openclsim.core.movable.Movable.v",
    "openclsim.core.movable.ContainerDependentMovable.v",
    "openclsim.core.movable.MultiContainerDependentMovable.v",
    "openclsim.model.base_activities.GenericActivity._request_resource",
    "openclsim.model.base_activities.GenericActivity._release_resource",
]


class ContentId:
    """name of an anonymous kind of content"""

    __ded_leaf__ = True

    def __init__(self, j):
        self.j = j

    def endswith(self, s):
        return False


class AnyContents:
    """container with arbitrarily many kinds of content (levels and capacities
    arbitrary), by its public contract"""

    __ded_leaf__ = True

    def __init__(self, K, env):
        self.K, self.env = K, env
        if K.symbolic:
            import z3

            en = K.en
            self.f = {}
            for nm in ("level", "capacity"):
                v = z3.Function(f"content.{nm}", z3.IntSort(), z3.RealSort())
                S = z3.Function(f"content.sum.{nm}", z3.IntSort(), z3.RealSort())
                en.psums.append((f"content.{nm}", S))
                self.f[nm] = (v, S)
            n = K.int("contents", lo=0)
            lastl, lastc = K.real("last.level", lo=0), K.real("last.capacity", gt=0)
            self.last = (lastl, lastc)
            self.list = K.seq(("run", "contents", lambda j: self.anon(j)), ("one", "last"))
            r = self.list.segs[0][1]
            from pyded.engine import SymNum

            self.totals = []
            for nm, l in (("level", lastl), ("capacity", lastc)):
                v, S = self.f[nm]
                self.totals.append(SymNum(S(r.hi) - S(r.lo)) + l)
            K.en.add(self.totals[1].e > 0)  # capacities are positive, so is their sum
        else:
            n = K.int("contents", lo=0, hi=3)
            self.vals = {f"c{i}": (K.real("level", lo=0), K.real("capacity", gt=0)) for i in range(n)}
            self.vals["last"] = (K.real("last.level", lo=0), K.real("last.capacity", gt=0))
            self.list = list(self.vals)
            self.totals = [sum(v[i] for v in self.vals.values()) for i in (0, 1)]

    def anon(self, j):
        K = self.K
        e = j.e
        for nm, (v, S) in self.f.items():
            K.en.add(S(e + 1) == S(e) + v(e))
        K.en.add(self.f["capacity"][0](e) > 0)
        K.en.add(self.f["level"][0](e) >= 0)
        return ContentId(e)

    def _get(self, id_, i):
        if id_ == "last":
            return self.last[i] if self.K.symbolic else self.vals[id_][i]
        if self.K.symbolic and isinstance(id_, ContentId):
            from pyded.engine import SymNum

            return SymNum(self.f[("level", "capacity")[i]][0](id_.j))
        return self.vals[id_][i] if not self.K.symbolic and id_ in self.vals else 0

    def get_level(self, id_="default"):
        return self._get(id_, 0)

    def get_capacity(self, id_="default"):
        return self._get(id_, 1)

    @property
    def container_list(self):
        return self.list

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("ded"):
            raise AttributeError(k)
        raise OutOfContract(f"EventsContainer.{k}")


def make_mover(K, env, kind, pos, eo=None, name="mover"):
    """-> (mover, function giving the expected top speed now)"""
    C = classes()
    common = dict(env=env, name=name, id=name + "-id", geometry=pos, nr_resources=1)
    if eo is not None:
        common["engine_order"] = eo
    if kind == "mover":
        v = K.real("v", gt=0)
        m = C["Mover"](v=v, **common)
        return m, lambda: v
    cv = K.func("compute_v", 1)
    seen = []

    def compute_v(x):
        r = cv(x)
        K.assume(r > 0)
        return r

    rates = dict(loading_rate=1, unloading_rate=1)
    if kind == "vessel":
        cap = K.real("cap", gt=0)
        lev = K.real("lvl", lo=0, hi=cap)
        m = C["Vessel"](compute_v=compute_v, capacity=cap, level=lev, **rates, **common)
        m.container = GhostContainer(K, env, [("default", cap, lev)], name)
        return m, lambda: compute_v(lev / cap)
    m = C["MultiVessel"](compute_v=compute_v, initials=K.wrap_list([{"id": "last", "capacity": 1, "level": 0}]), **rates, **common)
    m.container = c = AnyContents(K, env)
    return m, lambda: compute_v(c.totals[0] / c.totals[1])


class MoveWorld:
    def __init__(self, K, want, kinds=("mover",), durations=("given", "none"), keep=("none", "="), kept=("none",)):
        import openclsim.model as model

        self.K, self.want = K, want
        self.env, self.t0 = new_env(K)
        env = self.env
        self.a, self.b = geo.two_points(K)
        self.kind = K.choice("kind", kinds)
        self.m, self.speed = make_mover(K, env, self.kind, self.a)
        C = classes()
        self.site = C["Site"](
            env=env, name="site", id="site-id", geometry=self.b, capacity=5, level=2, nr_resources=1
        )
        self.site.resource = GhostResource(K, env, "site")
        self.res = GhostResource(K, env, "mover", on_release=self.on_release)
        self.m.resource = self.res
        rr = {}
        if K.choice("held", kept) != "none":
            self.res.held = 2
            self.res.req = EnvEvent(env, env.now, "kept")
            self.res.req.seen = True
            rr[self.res] = self.res.req
        self.rr = rr
        keep = self.keep = K.choice("keep", keep)
        karg = {"none": None, "=": self.m, "[]": K.wrap_list([self.m]), "other": self.site,
                "[other]": K.wrap_list([self.site])}[keep]
        self.kept = keep in ("=", "[]")
        self.eo = K.real("engine_order", gt=0) if K.choice("order", ["default", "given"]) == "given" else None
        args = dict(env=env, registry={}, name="move", id="move-id", mover=self.m, destination=self.site,
                    requested_resources=rr, keep_resources=karg)
        if self.eo is not None:
            args["engine_order"] = self.eo
        self.dur = None
        if K.choice("dur", durations) == "given":
            self.dur = args["duration"] = K.real("duration", lo=0)
        self.act = model.MoveActivity(**args)
        K.root("w.mover", self.m)
        K.root("w.act", self.act)

    def on_release(self, res):
        K = self.K
        K.check("the mover's resource is not released between START and STOP", K.not_(K.eq(self.main.g.phase, 1)))
        K.check("the mover's resource is not released before the after-plugins ran", K.eq(self.plug.g.post, 1))

    def run(self):
        K, act, env = self.K, self.act, self.env
        self.main = Interval(K, env, "activity log", act.id, no_label)
        self.mlog = Interval(K, env, "mover log", act.id, no_label)

        def held(what):
            if "resources" in self.want:
                K.check(f"the mover's resource is held {what}", K.eq(self.res.held, 2))

        def on_main(obj, t, aid, state, label):
            self.main.on(obj, t, aid, state, label)
            held("at " + state)
            if "move" in self.want:
                if state == "START":
                    self.want_d = self.expected()
                    K.check("at START the mover is where it was", geo.same_place(K, self.m.geometry, self.a))
                else:
                    K.check("at STOP the mover is at its destination", geo.same_place(K, self.m.geometry, self.b))

        def on_mover(obj, t, aid, state, label):
            self.mlog.on(obj, t, aid, state, label)
            if "move" in self.want:
                want = self.a if state == "START" else self.b
                K.check(f"the mover logs its true position at {state}", geo.same_place(K, self.m.geometry, want))

        ghost_log(K, act, on_main)
        ghost_log(K, self.m, on_mover)
        self.plug = Plugins(K, env, act, on_pre=lambda: held("when the before-plugins run"), on_post=lambda: held("when the after-plugins run"))

        def on_yield(ev):
            # whoever holds the mover labels its log entries
            if not K.is_true(K.eq(self.res.held, 2)):
                self.m.activity_id = "somebody else"
            if "move" in self.want and not K.is_true(K.eq(self.main.g.phase, 2)):
                K.check("the mover does not jump while waiting or sailing", geo.same_place(K, self.m.geometry, self.a))

        Driver(K, env, on_yield=on_yield, owner=act.id if "owner" in self.want else None).run(act.main_process_function(activity_log=act, env=env))

    def expected(self):
        K = self.K
        if self.dur is not None:
            return self.dur
        v = self.speed() * (self.eo if self.eo is not None else 1)
        return geo.distance(K, self.a, self.b) / v

    def post(self):
        K, g, m = self.K, self.main.g, self.mlog.g
        if "logs" in self.want:
            K.check("START and STOP were logged", K.eq(g.phase, 2))
            K.check("START directly after the before-plugins", K.eq(g.t0, self.plug.g.t_pre1))
            K.check("after-plugins start at STOP", K.eq(self.plug.g.t_post, g.t1))
            K.check("the mover's log has the same START/STOP", K.and_(K.eq(m.phase, 2), K.eq(m.t0, g.t0), K.eq(m.t1, g.t1)))
            p = self.plug.g
            K.check("plugins ran and were told the true start", K.and_(
                K.eq(p.pre, 1), K.eq(p.post, 1), K.eq(p.sa, g.t0), K.eq(p.sp, p.t_pre0)))
        if "move" in self.want:
            K.check("the move takes the given duration, or distance / speed", K.eq(g.t1 - g.t0, self.want_d))
            K.check("the mover ends at its destination", geo.same_place(K, self.m.geometry, self.b))
            K.check("the destination stays where it is", geo.same_place(K, self.site.geometry, self.b))
        if "resources" in self.want:
            if self.kept:
                K.check("a kept mover is still held", K.and_(K.eq(self.res.held, 2), self.res in self.rr))
                K.check("the kept request is passed on", self.rr.get(self.res) is self.res.req)
            else:
                K.check("the mover is released", K.and_(K.eq(self.res.held, 0), self.res not in self.rr))
            K.check("the caller's table of held resources is used", self.act.requested_resources is self.rr)
            K.check("only the mover is claimed", K.eq(self.site.resource.held, 0))


def scenario(K, want, **kw):
    W = MoveWorld(K, want, **kw)
    W.run()
    W.post()


@contract("C05", "move", TARGETS, budget=200)
def c05(K):
    scenario(K, {"logs"}, kinds=("mover", "vessel"))


@contract("C11", "move", TARGETS, budget=200)
def c11(K):
    scenario(K, {"resources"}, keep=("none", "=", "[]", "other", "[other]"), kept=("none", "held"), durations=("given",))


@contract("C12", "move", TARGETS, budget=200)
def c12(K):
    scenario(K, {"move"}, kinds=("mover", "vessel", "multivessel"), keep=("none",))


@contract("C12", "own-engine-order", TARGETS[1:7], budget=200)
def c12_own(K):
    """moving an object directly, at the engine order it was made with"""
    env, t0 = new_env(K)
    a, b = geo.two_points(K)
    kind = K.choice("kind", ["mover", "vessel"])
    eo = K.real("engine_order", gt=0) if K.choice("order", ["default", "given"]) == "given" else None
    m, speed = make_mover(K, env, kind, a, eo)
    m.activity_id = "a"
    times = []
    ghost_log(K, m, lambda obj, t, aid, state, label: times.append((state, t)))
    C = classes()
    site = C["Site"](env=env, name="site", id="site-id", geometry=b, capacity=5, level=2, nr_resources=1)
    d = geo.distance(K, a, b) / (speed() * (eo if eo is not None else 1))
    K.check("speed is top speed times engine order", K.eq(m.v, speed() * (eo if eo is not None else 1)))
    Driver(K, env).run(m.move(destination=site))
    K.check("the move takes distance / speed", K.eq(env.now, t0 + d))
    K.check("START and STOP are logged", [s for s, _ in times] == ["START", "STOP"])
    K.check("the mover ends at its destination", geo.same_place(K, m.geometry, b))
