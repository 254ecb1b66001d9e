"""Contract of whole simulations with amounts that are not whole numbers: the other contracts treat floats as
mathematical reals; here they are what they are (concrete runs only)."""

import simpy

from .common import *
from .shift import TARGETS
from .world import classes

EPS = 1e-6


def decimal(K, name, lo, hi):
    k = K.choice(name + ".digits", [1, 2, 3])
    return K.choice(name, range(lo * 10**k, hi * 10**k + 1)) / 10**k


def ship_class():
    import openclsim.core as core

    class Ship(core.Identifiable, core.ContainerDependentMovable, core.Processor, core.HasResource, core.Log):
        pass

    class Site(core.Identifiable, core.Log, core.Locatable, core.HasContainer, core.HasResource):
        pass

    return Ship, Site


@contract("C02", "decimals", TARGETS, budget=60, bounded="real simulations at random, with one ship between two sites", concrete=True)
def c02_decimals(K):
    import openclsim.model as model
    import shapely.geometry as sg

    Ship, Site = ship_class()
    env, reg = simpy.Environment(), {}
    pa, pb = sg.Point(4, 52), sg.Point(4.1, 52.1)
    kind = K.choice("kind", ["one", "empty", "full"])
    stock = decimal(K, "stock", 20, 60) if kind != "full" else decimal(K, "much", 200, 900)
    space = decimal(K, "space", 5, 60) if kind == "full" else 1000
    a = Site(env=env, name="A", id="a", geometry=pa, capacity=1000, level=stock)
    b = Site(env=env, name="B", id="b", geometry=pb, capacity=space, level=decimal(K, "there", 0, 4))
    v = Ship(env=env, name="V", id="v", geometry=pa, capacity=decimal(K, "hold", 3, 9), compute_v=lambda x: 10,
             level=decimal(K, "aboard", 0, 2))
    total = a.container.get_level() + b.container.get_level() + v.container.get_level()
    kw = dict(env=env, registry=reg)
    amounts = [None, None] if kind != "one" else [decimal(K, "amount", 1, 9) if K.choice("given", [0, 1]) else None for _ in "ab"]
    want = []

    def shift(name, o, d, amount):
        return model.ShiftAmountActivity(name=name, processor=v, origin=o, destination=d, amount=amount, duration=10, **kw)

    load, unload = shift("load", a, v, amounts[0]), shift("unload", v, b, amounts[1])
    subs = [load, model.MoveActivity(name="there", mover=v, destination=b, **kw), unload]
    if kind == "one":
        acts = [model.SequentialActivity(name="trip", sub_processes=subs, **kw)]
        l0 = v.container.get_level()
        n1 = min(x for x in (amounts[0], stock, v.container.get_capacity() - l0) if x is not None)
        n2 = min(x for x in (amounts[1], l0 + n1, space - b.container.get_level()) if x is not None)
        want = [(a, stock - n1), (b, b.container.get_level() + n2)]
    else:
        body = model.SequentialActivity(name="trip", sub_processes=[model.MoveActivity(name="back", mover=v, destination=a, **kw)] + subs, **kw)
        site = a if kind == "empty" else b
        acts = [model.WhileActivity(name="loop", sub_processes=[body], condition_event=[{"type": "container", "concept": site, "state": kind}], **kw)]
        want = [(site, 0 if kind == "empty" else space)]
    model.register_processes(acts)
    env.run(until=1e7)
    K.check("whatever is in stock and fits is shifted", acts[0].main_process.processed)
    for site, level in want:
        K.check("the contents in the end", abs(site.container.get_level() - level) < EPS)
    K.check("nothing is lost", abs(sum(o.container.get_level() for o in (a, b, v)) - total) < EPS)
