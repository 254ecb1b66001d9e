"""Contracts of Routable: sailing over a route (nodes of a graph) or a path."""

from . import geo
from .common import *
from .world import *

M = "openclsim.core.movable."
TARGETS = [
    M + "Routable.__init__",
    M + "Routable.compute_distance",
    M + "Movable.move",
    M + "Movable.compute_duration",
    M + "Movable.v",
]


class Node:
    """any node of a route but its ends"""

    __ded_leaf__ = True

    def __init__(self, j):
        self.j = j


class Graph:
    """a graph of which any number of nodes and legs are on the route: their
    lengths are arbitrary (symbolic runs only; else a real networkx graph)"""

    __ded_leaf__ = True

    def __init__(self, K, a, b):
        import z3

        self.K = K
        self.ends = {"first": a, "last": b}
        self.leg = z3.Function("leg", z3.IntSort(), z3.RealSort())
        self.sum = z3.Function("legs", z3.IntSort(), z3.RealSort())
        K.en.psums.append(("legs", self.sum))
        self.nodes = Nodes(self)
        self.edges = Edges(self)

    def pos(self, n):
        """position on the route"""
        import z3

        if n == "first":
            return z3.IntVal(0)
        if n == "last":
            return self.n + 1
        if isinstance(n, Node):
            return n.j + 1
        raise OutOfContract("graph node")

    def edge(self, a, b):
        import z3

        if not (isinstance(a, (str, Node)) and isinstance(b, (str, Node))):
            raise OutOfContract("graph edge")
        en = self.K.en
        p, q = self.pos(a), self.pos(b)
        if en.valid(q == p + 1):
            lo = p
        elif en.valid(p == q + 1):
            lo = q
        else:
            raise KeyError((a, b))
        lo = z3.simplify(lo)
        d = self.leg(lo)
        en.add(self.sum(lo) == self.sum(z3.simplify(lo - 1)) + d)
        en.add(d >= 0)
        ends = [self.ends.get(x) or geo.GPoint(NotImplemented, NotImplemented) for x in (a, b)]
        g = geo.GLine(*ends, "leg")
        g.length_of = d
        return {"geometry": g}

    def __getitem__(self, a):
        return Adjacent(self, a)

    def get_edge_data(self, a, b, default=None):
        return self.edge(a, b)

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("ded"):
            raise AttributeError(k)
        raise OutOfContract(f"graph.{k}")


class Nodes:
    __ded_leaf__ = True

    def __init__(self, G):
        self.G = G

    def __getitem__(self, n):
        if n == "first" or n == "last":
            return {"geometry": self.G.ends[n]}
        raise OutOfContract("graph node")

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("ded"):
            raise AttributeError(k)
        raise OutOfContract(f"graph.nodes.{k}")


class Edges(Nodes):
    __ded_leaf__ = True

    def __getitem__(self, e):
        return self.G.edge(*e)


class Adjacent:
    __ded_leaf__ = True

    def __init__(self, G, a):
        self.G, self.a = G, a

    def __getitem__(self, b):
        return self.G.edge(self.a, b)


class GPath:
    """a line with arbitrarily many points"""

    __ded_leaf__ = True

    def __init__(self, K):
        self.K = K
        self.length = K.real("path.length", gt=0)
        self.length_of = K.real("path.metres", lo=0).e

    def line_locate_point(self, p, normalized=False):
        """contract: some distance along the line, the same for the same point"""
        K = self.K
        s = K.func("path.at", 2)(p.x, p.y)
        K.assume(K.and_(s >= 0, s <= self.length))
        return s / self.length if normalized else s

    project = line_locate_point

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("ded"):
            raise AttributeError(k)
        raise OutOfContract(f"LineString.{k}")


def routable():
    C = classes()
    if "Routed" not in C:
        import openclsim.core as core

        I, R, L = core.Identifiable, core.HasResource, core.Locatable
        C["Routed"] = type("Routed", (core.movable.Routable, core.Movable, I, core.Log, R), {"__module__": "user"})
        C["RoutedVessel"] = type(
            "RoutedVessel",
            (core.movable.Routable, core.ContainerDependentMovable, I, core.Log, R),
            {"__module__": "user"},
        )
    return C


def sail(K, env, a, b, start, end, metres, refused=False, **kw):
    C = routable()
    kind = K.choice("kind", ["plain", "loaded"])
    eo = K.real("engine_order", gt=0)
    args = dict(env=env, name="mover", id="mover-id", geometry=start, nr_resources=1, engine_order=eo, **kw)
    if kind == "plain":
        v = K.real("v", gt=0)
        m = C["Routed"](v=v, **args)
    else:
        v = K.real("v.loaded", gt=0)
        m = C["RoutedVessel"](capacity=4, level=2, compute_v=lambda x: v * x * 2, **args)
    m.activity_id = "a"
    times = []
    ghost_log(K, m, lambda obj, t, aid, state, label: times.append((state, t)))
    site = C["Site"](env=env, name="site", id="site-id", geometry=end, capacity=5, level=2, nr_resources=1)
    t0 = env.now
    try:
        Driver(K, env).run(m.move(destination=site))
    except (AssertionError, ValueError):
        K.check("only a move between other places is refused", refused)
        K.check("the refused mover stays where it is", K.and_(geo.same_place(K, m.geometry, start), K.eq(env.now, t0)))
        return
    K.check("a move between other places than the ends of the route is refused", not refused)
    K.check("the move takes the distance over the route divided by the speed", K.eq(env.now - t0, metres() / (v * eo)))
    K.check("the mover ends at its destination", geo.same_place(K, m.geometry, end))
    K.check("START and STOP are logged", [s for s, _ in times] == ["START", "STOP"])


@contract("C22", "route", TARGETS, budget=200)
def route(K):
    """a route of any number of nodes, in both directions"""
    env, t0 = new_env(K)
    a, b, c = geo.point(K, "first"), geo.point(K, "last"), geo.point(K, "elsewhere")
    far = lambda p, q: K.or_(p.x - q.x > 0.5, q.x - p.x > 0.5, p.y - q.y > 0.5, q.y - p.y > 0.5)
    K.assume(K.and_(far(a, b), far(b, c), far(a, c)))
    where = K.choice("from to", ["first last", "last first", "first elsewhere", "elsewhere last", "elsewhere first"])
    P = dict(first=a, last=b, elsewhere=c)
    start, end = (P[w] for w in where.split())
    # a hundredth of a degree away is still there
    dx, dy = (K.real("off " + c, lo=-0.007, hi=0.007) for c in "xy")
    off = K.choice("off", ["no", "start", "end"])
    if off == "start":
        start = type(start)(start.x + dx, start.y + dy)
    elif off == "end":
        end = type(end)(end.x + dx, end.y + dy)
    if K.symbolic:
        import z3
        from pyded.engine import SymNum

        G = Graph(K, a, b)
        r = K.seq(("one", "first"), ("run", "node", lambda j: Node(j.e)), ("one", "last"))
        G.n = r.segs[1][1].hi
        metres = lambda: SymNum(G.sum(G.n) - G.sum(z3.IntVal(-1)))
    else:
        import networkx as nx
        import pyproj
        import shapely.geometry as sg

        G = nx.Graph()
        r = ["first", "last"]
        G.add_node("first", geometry=a)
        G.add_node("last", geometry=b)
        for i in range(K.int("len.node", lo=0, hi=4)):
            # also through the same places again, over the same legs
            again = K.choice("again", [None, None, *r[: i + 1]])
            if again is not None and again != r[i]:
                r.insert(1 + i, again)
                continue
            r.insert(1 + i, f"n{i}")
            G.add_node(f"n{i}", geometry=sg.Point(K.real("lon", lo=-170, hi=170), K.real("lat", lo=-80, hi=80)))
        total = 0.0
        if r[-2] == "last":
            del r[-2]
        for p, q in zip(r[:-1], r[1:]):
            x, y = G.nodes[p]["geometry"], G.nodes[q]["geometry"]
            if not G.has_edge(p, q):
                line = sg.LineString([x, (x.x + 1, y.y - 1), y])
                if K.choice("way", [0, 1]):
                    line = sg.LineString(list(line.coords)[::-1])
                G.add_edge(p, q, geometry=line)
            total += pyproj.Geod(ellps="WGS84").geometry_length(G.edges[p, q]["geometry"])
        metres = lambda: total
    env.graph = G
    sail(K, env, a, b, start, end, metres, refused='elsewhere' in where, route=r)


@contract("C22", "path", TARGETS, budget=200)
def path(K):
    """a path (with or without a route besides)"""
    env, t0 = new_env(K)
    both = K.choice("route, too", [False, True])
    kw = {}
    if both:
        env.graph = object() if K.symbolic else __import__("networkx").Graph()
        kw["route"] = ["n0", "n1"]
    a, b = geo.two_points(K)
    if K.symbolic:
        from pyded.engine import SymNum

        line = GPath(K)
        s, t = line.line_locate_point(a), line.line_locate_point(b)
        metres = lambda: abs(s - t) / line.length * SymNum(line.length_of)
    else:
        import pyproj
        import shapely.geometry as sg

        n = K.int("points", lo=2, hi=5)
        pts = [(K.real("lon", lo=-170, hi=170), K.real("lat", lo=-80, hi=80)) for _ in range(n)]
        if n > 2 and K.choice("closed", [False, True]):
            pts.append(pts[0])
        line = sg.LineString(pts)
        if not line.length > 0:
            K.assume(False)
        share = abs(line.project(a) - line.project(b)) / line.length
        metres = lambda: share * pyproj.Geod(ellps="WGS84").geometry_length(line)
    sail(K, env, a, b, a, b, metres, path=line, **kw)


@contract("C22", "neither", TARGETS, budget=100)
def neither(K):
    """without a route and a path there is nothing to sail over"""
    env, t0 = new_env(K)
    a, b = geo.two_points(K)
    sail(K, env, a, b, a, b, lambda: 0, refused=True)


@contract("C22", "along", TARGETS + [M + "Routable.move_to_geometry", M + "Routable.pass_linestring"], budget=100)
def along(K):
    """sailing to a place, and along a line, by itself"""
    env, t0 = new_env(K)
    a, b = geo.two_points(K)
    start = geo.point(K, "start")
    v, eo = K.real("v", gt=0), K.real("engine_order", gt=0)
    m = routable()["Routed"](v=v, env=env, name="m", id="m", geometry=start, nr_resources=1, engine_order=eo)
    if K.choice("how", ["to", "along"]) == "to":
        metres, end = geo.distance(K, start, b), b
        gen = m.move_to_geometry(b)
        first = start
    else:
        if K.symbolic:
            from pyded.engine import SymNum

            line = geo.GLine(a, b, "line")
            line.length_of = K.real("metres", lo=0).e
            metres = SymNum(line.length_of)
        else:
            import pyproj
            import shapely.geometry as sg

            mid = [(K.real("lon", lo=-170, hi=170), K.real("lat", lo=-80, hi=80)) for _ in range(K.int("points", lo=0, hi=3))]
            line = sg.LineString([(a.x, a.y), *mid, (b.x, b.y)])
            metres = pyproj.Geod(ellps="WGS84").geometry_length(line)
        gen = m.pass_linestring(line)
        first, end = a, b
    where = []
    Driver(K, env, on_yield=lambda *x: where.append(m.geometry)).run(gen)
    K.check("it takes the distance divided by the speed", K.eq(env.now - t0, metres / (v * eo)))
    K.check("it ends at the end", geo.same_place(K, m.geometry, end))
    for w in where:
        K.check("until then it is at the beginning", geo.same_place(K, w, first))
