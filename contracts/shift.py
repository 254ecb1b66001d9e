"""Contracts of ShiftAmountActivity and Processor (material shifting)."""

from .common import *
from .world import *

TARGETS = [
    "openclsim.model.shift_amount_activity.ShiftAmountActivity.main_process_function",
    "openclsim.model.shift_amount_activity.ShiftAmountActivity.make_container_reservation",
    "openclsim.model.shift_amount_activity.ShiftAmountActivity._shift_amount",
    "openclsim.model.shift_amount_activity.ShiftAmountActivity._get_shiftamount_fcn",
    "openclsim.model.base_activities.GenericActivity._request_resource",
    "openclsim.model.base_activities.GenericActivity._release_resource",
    "openclsim.core.processor.Processor.process",
    "openclsim.core.processor.Processor.check_possible_shift",
    "openclsim.core.processor.Processor.determine_processor_amount",
    "openclsim.core.processor.Processor.determine_reservation_amount",
    "openclsim.core.processor.LoadingFunction.loading",
    "openclsim.core.processor.UnloadingFunction.unloading",
    "openclsim.core.events_container.EventsContainer.put",
    "openclsim.core.events_container.EventsContainer.get",
    "openclsim.core.events_container.EventsContainer.get_container_event",
    "openclsim.core.events_container.EventsContainer.update_container_events",
    "simpy.resources.store.FilterStore._do_get",
    "simpy.resources.store.Store._do_put",
]


class ShiftWorld:
    """A shift activity over real sites/processors with arbitrary levels; other
    activities interfere arbitrarily with everything that is not protected by a
    resource this activity holds, and with all reservations."""

    def __init__(
        self,
        K,
        want,
        alias=("distinct", "proc=dest", "proc=origin"),
        phases=("duration", "loading", "unloading"),
        rates=("const",),
        kept=("none",),
        keep=("none",),
        amount=("given", "none"),
        multi=False,
        quiet=False,
        names=("distinct",),
    ):
        import openclsim.model as model

        C = classes()
        self.K, self.want, self.quiet = K, want, quiet
        self.env, self.t0 = new_env(K)
        env = self.env
        self.alias = K.choice("alias", alias)
        self.capo = K.real("cap_o", gt=0)
        self.capd = K.real("cap_d", gt=0)
        self.lo0 = K.real("lvl_o", lo=0, hi=self.capo)
        self.ld0 = K.real("lvl_d", lo=0, hi=self.capd)
        self.ro0 = K.real("res_o")
        self.rd0 = K.real("res_d")
        self.id_ = "sand" if multi else "default"
        self.mode = K.choice("mode", phases)
        self.ratekind = K.choice("rates", rates) if self.mode != "duration" else "const"
        if self.ratekind == "const":
            self.rate = rate = K.real("rate", gt=0)
        else:
            f = K.func("rate", 2)
            calls = []

            def rate(a, b):
                r = f(a, b)
                K.assume(r >= 0)
                return r

            self.rate = rate
        self.man = man = K.real("man", lo=0)
        # the other function of the processor differs, so a mix-up shows
        rate2, man2 = K.real("rate2", gt=0), K.real("man2", lo=0)
        if self.mode == "unloading":
            kw = dict(loading_rate=rate2, unloading_rate=rate, load_manoeuvring=man2, unload_manoeuvring=man)
        else:
            kw = dict(loading_rate=rate, unloading_rate=rate2, load_manoeuvring=man, unload_manoeuvring=man2)
        self.named = K.choice("names", names)

        def mk(name, cap, lev, proc):
            role, name = name, self.called(name)
            k = dict(env=env, name=name, id=role + "-id", geometry=here(), nr_resources=1, **(kw if proc else {}))
            return (C["PSite"] if proc else C["Site"])(capacity=cap, level=lev, **k)

        self.o = mk("origin", self.capo, self.lo0, self.alias == "proc=origin")
        self.d = mk("dest", self.capd, self.ld0, self.alias == "proc=dest")
        if self.alias == "proc=origin":
            self.p = self.o
        elif self.alias == "proc=dest":
            self.p = self.d
        else:
            self.p = C["Proc"](env=env, name=self.called("proc"), id="proc-id", geometry=here(), nr_resources=1, **kw)
        self.objs = [self.o, self.d] + ([self.p] if self.alias == "distinct" else [])
        for role, ob in self.roles():
            ob.resource = GhostResource(K, env, role, self.on_request, self.on_release)
        for ob, cap, lev, res in ((self.o, self.capo, self.lo0, self.ro0), (self.d, self.capd, self.ld0, self.rd0)):
            items = [(self.id_, cap, lev)]
            if multi:
                items.append(("rock", K.real("cap_other", gt=0), K.real("lvl_other", lo=0)))
            ob.container = GhostContainer(K, env, items, "origin" if ob is self.o else "dest")
            ob.container.levels[self.id_ + "_reservations"] = res
        mine = (self.id_, self.id_ + "_reservations")
        self.others = [
            (ob.container, k, v) for ob in (self.o, self.d) for k, v in ob.container.levels.items() if k not in mine
        ]
        self.amount = K.real("amount", gt=0) if K.choice("amt", amount) == "given" else None
        self.dur = K.real("duration", lo=0)
        # resources kept from an earlier activity of the cycle
        self.kept_at_entry = K.choice("kept", kept)
        rr = {}
        for k, ob in (("o", self.o), ("d", self.d), ("p", self.p)):
            if k in self.kept_at_entry and self.kept_at_entry != "none" and ob.resource not in rr:
                r = ob.resource
                r.held = 2
                r.req = EnvEvent(env, env.now, "kept")
                r.req.seen = True
                rr[r] = r.req
        self.rr = rr
        self.keepkind = K.choice("keep", keep)
        kk = []
        for k, ob in (("o", self.o), ("d", self.d), ("p", self.p)):
            if k in self.keepkind and self.keepkind != "none" and ob not in kk:
                kk.append(ob)
        self.kept = kk
        keep_arg = None if not kk and self.keepkind == "none" else (kk[0] if self.keepkind.startswith("=") else K.wrap_list(kk))
        args = dict(
            env=env,
            registry={},
            name="shift",
            id="shift-id",
            processor=self.p,
            origin=self.o,
            destination=self.d,
            amount=self.amount,
            requested_resources=rr,
            keep_resources=keep_arg,
            id_=self.id_,
        )
        if self.mode == "duration":
            args["duration"] = self.dur
        else:
            args["phase"] = self.mode
        self.act = model.ShiftAmountActivity(**args)
        self.g = Box(
            lo=0, ld=0, ro=0, rd=0, out=0, inn=0, dro=0, drd=0, M=0, tout=0, tin=0, outs=0, ins=0, started=0,
            lo_start=0, ld_start=0, lo_out=0, granted=0,
        )
        K.root("w.g", self.g)
        K.root("w.o", self.o)
        K.root("w.d", self.d)
        K.root("w.p", self.p)
        K.root("w.act", self.act)
        self.remember()

    def called(self, role):
        """objects may share a name: nothing identifies them but themselves"""
        return role if self.named == "distinct" else "same"

    def roles(self):
        return list(zip(("origin", "dest", "proc"), self.objs))

    # ghost: what this activity itself changed since the last yield
    def cur(self):
        o, d, i = self.o.container, self.d.container, self.id_
        j = i + "_reservations"
        return o.levels[i], d.levels[i], o.levels[j], d.levels[j]

    def remember(self):
        g = self.g
        g.lo, g.ld, g.ro, g.rd = self.cur()

    def check(self, group, name, c, detail=None):
        if group in self.want:
            self.K.check(name, c, detail)

    def possible(self):
        """min(limit, available, free space) right now"""
        K = self.K
        lo, ld, _, _ = self.cur()
        m = K.min(lo, self.capd - ld)
        return m if self.amount is None else K.min(m, self.amount)

    def attempt(self):
        """the instant at which an attempt to shift begins"""
        self.g.M = self.possible()

    def invariants(self):
        K, g = self.K, self.g

        def levels():
            lo, ld, _, _ = self.cur()
            return K.and_(K.le(0, lo), K.le(lo, self.capo), K.le(0, ld), K.le(ld, self.capd))

        K.invariant("levels within bounds", levels)
        K.invariant("attempt", lambda: K.eq(g.M, self.possible()))

    def on_request(self, res, granted):
        K, g = self.K, self.g
        if granted and res is self.d.resource:
            if not K.is_true(K.eq(g.granted, 1)) and not self.started():
                g.granted = 1
                self.attempt()

    def started(self):
        return bool(self.main.g.phase != 0) if self.main is not None else False

    main = None

    def on_release(self, res):
        K = self.K
        ph = self.main.g.phase
        if "resources" in self.want:
            K.check("no resource is released between START and STOP", K.not_(K.eq(ph, 1)))
        if not self.started():
            self.attempt()

    def segment(self):
        """obligations on the own changes since the last resumption"""
        K, g = self.K, self.g
        lo, ld, ro, rd = self.cur()
        dlo, dld = lo - g.lo, ld - g.ld
        ph = self.main.g.phase
        self.check("conserve", "origin is only taken from", K.le(dlo, 0))
        self.check("conserve", "destination is only added to", K.le(0, dld))
        self.check(
            "resources",
            "origin content changes only while its resource is held",
            K.or_(K.eq(dlo, 0), K.eq(self.o.resource.held, 2)),
        )
        self.check(
            "resources",
            "destination content changes only while its resource is held",
            K.or_(K.eq(dld, 0), K.eq(self.d.resource.held, 2)),
        )
        self.check(
            "resources",
            "content changes only while the processor's resource is held",
            K.or_(K.and_(K.eq(dlo, 0), K.eq(dld, 0)), K.eq(self.p.resource.held, 2)),
        )
        self.check("bounds", "origin level never below zero", K.le(0, lo))
        self.check("bounds", "destination level never above capacity", K.le(ld, self.capd))
        self.check("bounds", "origin level never above capacity", K.le(lo, self.capo))
        self.check("bounds", "destination level never below zero", K.le(0, ld))
        if "conserve" in self.want or "timing" in self.want:
            for c, k, l0 in self.others:
                self.check("conserve", "other content of the containers is untouched", K.eq(c.levels[k], l0))
            g.out = g.out - dlo
            g.inn = g.inn + dld
            self.check("conserve", "nothing is put before it was taken", K.le(g.inn, g.out))
            outs = K.ite(K.eq(dlo, 0), 0, 1)
            ins = K.ite(K.eq(dld, 0), 0, 1)
            g.tout = K.ite(K.eq(outs, 1), self.env.now, g.tout)
            g.tin = K.ite(K.eq(ins, 1), self.env.now, g.tin)
            g.outs = g.outs + outs
            g.ins = g.ins + ins
        else:
            g.out = g.out - dlo
            g.inn = g.inn + dld
        g.dro = g.dro + (ro - g.ro)
        g.drd = g.drd + (rd - g.rd)

    # rely: what others may do while this process waits
    def interfere(self, ev=None):
        K = self.K
        self.segment()
        if not self.quiet:
            for ob, cap, nm in ((self.o, self.capo, "o"), (self.d, self.capd, "d")):
                if not K.is_true(K.eq(ob.resource.held, 2)):
                    ob.container.levels[self.id_] = K.real(f"havoc.{nm}", lo=0, hi=cap)
                if "reservations" in self.want:
                    ob.container.levels[self.id_ + "_reservations"] = K.real(f"havocres.{nm}")
        if "logs" in self.want or "owner" in self.want:
            for ob in self.objs:
                if hasattr(ob, "activity_id") and not K.is_true(K.eq(ob.resource.held, 2)):
                    ob.activity_id = "somebody else"
        self.remember()

    def driver(self):
        return Driver(self.K, self.env, on_yield=self.interfere, owner=self.act.id if "owner" in self.want else None)

    def on_main(self, obj, t, aid, state, label):
        K, g = self.K, self.g
        self.main.on(obj, t, aid, state, label)
        if state == "START":
            self.segment()
            self.remember()
            g.lo_start, g.ld_start, _, _ = self.cur()
            for nm, ob in (("origin", self.o), ("destination", self.d), ("processor", self.p)):
                self.check("resources", f"{nm} resource is held at START", K.eq(ob.resource.held, 2))
            self.check("amount", "enough content and space at START", K.and_(
                K.le(g.M, g.lo_start), K.le(g.M, self.capd - g.ld_start)))
        elif state == "STOP":
            self.segment()
            self.remember()
            for nm, ob in (("origin", self.o), ("destination", self.d), ("processor", self.p)):
                self.check("resources", f"{nm} resource is held at STOP", K.eq(ob.resource.held, 2))
            self.check("conserve", "at STOP everything taken has been put", K.eq(g.inn, g.out))

    def run(self):
        """register (reservations), execute, check; returns False on ValueError"""
        K, act, env, g = self.K, self.act, self.env, self.g
        self.main = Interval(K, env, "activity log", act.id, no_label)
        ghost_log(K, act, self.on_main)
        self.olog = {}
        for role, ob in self.roles():
            iv = Interval(K, env, role + " log", act.id, no_label)
            self.olog[role] = iv
            ghost_log(K, ob, iv.on)
        self.plug = Plugins(K, env, act, on_pre=self.pre_hook, on_post=self.post_hook)
        # the reservation made when the activity is registered
        act.make_container_reservation()
        lo, ld, ro, rd = self.cur()
        R = self.amount if self.amount is not None else K.min(self.capo, self.capd)
        self.check("reservations", "planned amount is reserved in the destination", K.eq(rd, self.rd0 + R))
        self.check("reservations", "planned amount is claimed from the origin", K.eq(ro, self.ro0 - R))
        self.check(
            "reservations", "reserving moves nothing", K.and_(K.eq(lo, self.lo0), K.eq(ld, self.ld0))
        )
        g.dro, g.drd = ro - self.ro0, rd - self.rd0
        self.remember()
        if not self.quiet:
            # arbitrary time passes before the activity gets its turn
            T = K.real("T.begin", lo=env.now)
            env._now = T
            self.interfere()
        self.attempt()
        self.R = R
        self.invariants()
        try:
            self.driver().run(act.main_process_function(activity_log=act, env=env))
        except ValueError:
            lo, ld, _, _ = self.cur()
            K.check(
                "an activity that gives up has shifted nothing",
                K.and_(K.eq(self.main.g.phase, 0), K.eq(g.out, 0), K.eq(g.inn, 0)),
            )
            K.check(
                "giving up only when the origin is empty or the destination full",
                K.or_(K.le(lo, 0), K.le(self.capd, ld)),
            )
            return False
        self.segment()
        self.remember()
        return True

    def pre_hook(self):
        K = self.K
        for nm, ob in (("origin", self.o), ("destination", self.d), ("processor", self.p)):
            self.check("resources", f"{nm} resource is held when the before-plugins run", K.eq(ob.resource.held, 2))

    def post_hook(self):
        K = self.K
        for nm, ob in (("origin", self.o), ("destination", self.d), ("processor", self.p)):
            self.check("resources", f"{nm} resource is held when the after-plugins run", K.eq(ob.resource.held, 2))

    def post(self):
        K, g, act = self.K, self.g, self.act
        m = self.main.g
        K.check("a completed shift logged START and STOP", K.eq(m.phase, 2))
        # C01
        self.check("conserve", "destination gains exactly what the origin lost", K.eq(g.inn, g.out))
        self.check("conserve", "one withdrawal and one delivery", K.and_(K.eq(g.outs, 1), K.eq(g.ins, 1)))
        self.check("conserve", "withdrawal at START", K.eq(g.tout, m.t0))
        self.check("conserve", "delivery at STOP", K.eq(g.tin, m.t1))
        # C02
        self.check("amount", "the amount is positive", K.lt(0, g.out))
        self.check("amount", "amount = min(limit, available, free space)", K.eq(g.out, g.M))
        if self.amount is not None:
            self.check("amount", "never more than the requested amount", K.le(g.out, self.amount))
        # C03
        self.check("reservations", "reservations end up at the amount really delivered", K.eq(g.drd, g.inn))
        self.check("reservations", "claims end up at the amount really taken", K.eq(g.dro, 0 - g.out))
        # C13
        if "duration" in self.want:
            amt = g.out
            if self.mode == "duration":
                want = self.dur
            elif self.ratekind == "const":
                want = amt / self.rate + self.man * 60
            elif self.mode == "loading":
                want = self.rate(g.ld_start, g.ld_start + amt) + self.man * 60
            else:
                want = self.rate(g.lo_start, g.lo_start - amt) + self.man * 60
            self.check("duration", "STOP - START is the documented duration", K.eq(m.t1 - m.t0, want))
        # C05
        if "logs" in self.want:
            K.check("START directly after the before-plugins", K.eq(m.t0, self.plug.g.t_pre1))
            K.check("after-plugins start at STOP", K.eq(self.plug.g.t_post, m.t1))
            K.check(
                "plugins ran and were told the true start",
                K.and_(
                    K.eq(self.plug.g.pre, 1), K.eq(self.plug.g.post, 1),
                    K.eq(self.plug.g.sa, m.t0), K.eq(self.plug.g.sp, self.plug.g.t_pre0),
                ),
            )
            for role, ob in self.roles():
                x = self.olog[role].g
                K.check(
                    f"{role} log has the same START/STOP",
                    K.and_(K.eq(x.phase, 2), K.eq(x.t0, m.t0), K.eq(x.t1, m.t1)),
                )
        # C11
        if "resources" in self.want:
            for nm, ob in (("origin", self.o), ("destination", self.d), ("processor", self.p)):
                r = ob.resource
                if ob in self.kept:
                    K.check(f"kept {nm} resource is still held", K.and_(K.eq(r.held, 2), r in act.requested_resources))
                    K.check(f"kept {nm} resource: its request is passed on", act.requested_resources.get(r) is r.req)
                else:
                    K.check(f"{nm} resource is released", K.and_(K.eq(r.held, 0), r not in act.requested_resources))
            K.check("the caller's table of held resources is used", act.requested_resources is self.rr)


def scenario(K, want, **kw):
    W = ShiftWorld(K, want, **kw)
    if W.run():
        W.post()


@contract("C01", "shift", TARGETS, budget=300)
def c01(K):
    scenario(K, {"conserve"}, phases=("duration",))


@contract("C01", "shift-phase", TARGETS, budget=300)
def c01p(K):
    """loading/unloading of one of several kinds of content"""
    scenario(K, {"conserve"}, phases=("loading", "unloading"), amount=("given",), multi=True, rates=("const", "function"))


@contract("C02", "shift", TARGETS, budget=300)
def c02(K):
    scenario(K, {"bounds", "amount"}, phases=("duration",))


@contract("C02", "shift-phase", TARGETS, budget=300)
def c02p(K):
    scenario(K, {"bounds", "amount"}, phases=("loading", "unloading"), amount=("given",), multi=True, rates=("const", "function"))


@contract("C03", "shift", TARGETS, budget=300)
def c03(K):
    scenario(K, {"reservations"}, phases=("duration", "loading"))


@contract("C03", "shift-multi", TARGETS, budget=300)
def c03m(K):
    scenario(K, {"reservations", "conserve"}, phases=("duration",), multi=True, alias=("distinct",))


KEPT = ("none", "d", "p", "o", "dp", "dop")


@contract("C11", "shift", TARGETS, budget=400)
def c11(K):
    scenario(K, {"resources"}, phases=("duration",), amount=("given",), kept=("none", "d", "p", "o", "dop"))


@contract("C11", "shift-keep", TARGETS, budget=400)
def c11k(K):
    scenario(
        K, {"resources"}, phases=("duration",), amount=("given",), kept=("none", "dop"),
        keep=("=o", "=p", "=d", "o", "p", "d", "op", "dop"), quiet=True,
    )


@contract("C13", "shift", TARGETS, budget=300)
def c13(K):
    scenario(K, {"duration"}, phases=("loading", "unloading"), amount=("given",), alias=("distinct",))


@contract("C13", "shift-quiet", TARGETS, budget=300)
def c13q(K):
    """all combinations, without interference while waiting"""
    scenario(K, {"duration"}, rates=("const", "function"), amount=("given", "none"), quiet=True)


@contract("C13", "shift-multi", TARGETS, budget=300)
def c13m(K):
    """rate functions see the level of the content that is shifted"""
    scenario(
        K, {"duration"}, phases=("loading", "unloading"), rates=("function",), amount=("given",),
        alias=("distinct", "proc=dest"), multi=True, quiet=True,
    )


@contract("C05", "shift", TARGETS, budget=300)
def c05(K):
    scenario(K, {"logs"}, phases=("duration", "loading"), amount=("given",), names=("distinct", "same"))
