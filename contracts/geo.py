"""Geometry: positions are arbitrary points; the geodesic library is external.

Assumed contract of the libraries (symbolic mode): pyproj.Geod.inv and
geometry_length return a nonnegative distance that is a function of the
coordinates and of the ellipsoid, symmetric, and zero exactly when the two
positions are the same; shapely.geometry.shape returns a point at
the same coordinates; equals_exact compares the positions within the
tolerance; line_locate_point is a function of the point within the line; the
length of a line of two points is their distance.  In concrete mode the real
libraries run.
"""

import pyproj
import shapely
import shapely.geometry

from pyded.sim import OutOfContract


class GPoint:
    """a point with symbolic coordinates"""

    def __init__(self, x, y):
        self.x, self.y = x, y

    @property
    def wkt(self):
        return "POINT"

    @property
    def __geo_interface__(self):
        return {"type": "Point", "coordinates": (self.x, self.y)}

    @property
    def geom_type(self):
        return "Point"

    type = geom_type

    @property
    def coords(self):
        return [(self.x, self.y)]

    def equals_exact(self, o, tolerance=0.0):
        return shapely.equals_exact(self, o, tolerance)

    def __eq__(self, o):
        if not isinstance(o, GPoint):
            return NotImplemented
        return (self.x == o.x) & (self.y == o.y)

    def __hash__(self):
        raise OutOfContract("hash of a point")

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("ded"):
            raise AttributeError(k)
        raise OutOfContract(f"Point.{k}")


class GLine:
    """a line with symbolic end points and length"""

    __ded_leaf__ = True

    def __init__(self, a, b, tag):
        self.a, self.b, self.tag = a, b, tag

    @property
    def coords(self):
        return [(self.a.x, self.a.y), (self.b.x, self.b.y)]


_DONE = []


def install(K):
    """replace the geodesic functions by their contract"""
    if not K.symbolic or _DONE:
        return
    _DONE.append(1)
    import z3

    from pyded.engine import SymNum, as_real, eng, lift

    def is_sym(x):
        return isinstance(x, SymNum)

    def key(g):
        return f"{g.a:.6f},{g.f:.12f}"

    inv0 = pyproj.Geod.inv
    len0 = pyproj.Geod.geometry_length
    shape0 = shapely.geometry.shape
    point0 = shapely.geometry.Point

    def inv(self, lons1, lats1, lons2, lats2, *a, **k):
        cs = (lons1, lats1, lons2, lats2)
        if not any(map(is_sym, cs)):
            return inv0(self, *cs, *a, **k)
        f = z3.Function("geod_inv[" + key(self) + "]", *([z3.RealSort()] * 5))
        r = [as_real(lift(c)) for c in cs]
        d = f(*r)
        eng().add(d >= 0)
        eng().add((d == 0) == z3.And(r[0] == r[2], r[1] == r[3]))
        eng().add(d == f(r[2], r[3], r[0], r[1]))
        return NotImplemented, NotImplemented, SymNum(d)

    def geometry_length(self, g, *a, **k):
        if getattr(g, "length_of", None) is not None:
            return SymNum(g.length_of)
        if isinstance(g, GLine):
            f = z3.Real("geod_length[" + key(self) + "]" + g.tag)
            eng().add(f >= 0)
            return SymNum(f)
        return len0(self, g, *a, **k)

    def shape(context):
        if isinstance(context, GPoint):
            return GPoint(context.x, context.y)
        return shape0(context)

    line0 = shapely.geometry.LineString

    class Kind(type):
        def __instancecheck__(cls, x):
            return isinstance(x, (line0, GLine))

    class LineString(metaclass=Kind):
        """of two symbolic points: their geodesic; else the real one"""

        def __new__(cls, coords=None, *a, **k):
            if isinstance(coords, (list, tuple)) and len(coords) == 2 and any(isinstance(c, GPoint) for c in coords):
                g = GLine(*coords, "geodesic")
                g.length_of = inv(WGS84, coords[0].x, coords[0].y, coords[1].x, coords[1].y)[2].e
                return g
            return line0(coords, *a, **k)

    class PointKind(type):
        def __instancecheck__(cls, x):
            return isinstance(x, (point0, GPoint))

    class Point(metaclass=PointKind):
        def __new__(cls, *a, **k):
            c = a[0] if len(a) == 1 else a
            if isinstance(c, GPoint):
                return GPoint(c.x, c.y)
            if isinstance(c, (list, tuple)) and len(c) == 2 and any(map(is_sym, c)):
                return GPoint(*c)
            return point0(*a, **k)

    WGS84 = pyproj.Geod(ellps="WGS84")
    shapely.geometry.LineString = LineString
    shapely.geometry.Point = Point
    eq0, at0 = shapely.equals_exact, shapely.line_locate_point

    def equals_exact(a, b, tolerance=0.0, **k):
        if not (isinstance(a, GPoint) and isinstance(b, GPoint)):
            return eq0(a, b, tolerance, **k)
        dx, dy = a.x - b.x, a.y - b.y
        return dx * dx + dy * dy <= tolerance * tolerance

    def line_locate_point(line, other, normalized=False):
        if hasattr(line, "length_of"):
            return line.line_locate_point(other, normalized=normalized)
        return at0(line, other, normalized=normalized)

    shapely.equals_exact = equals_exact
    shapely.line_locate_point = line_locate_point
    pyproj.Geod.inv = inv
    pyproj.Geod.geometry_length = geometry_length
    shapely.geometry.shape = shape


def point(K, name):
    install(K)
    x, y = K.real(name + ".lon", lo=-170, hi=170), K.real(name + ".lat", lo=-80, hi=80)
    if K.symbolic:
        return GPoint(x, y)
    return shapely.geometry.Point(x, y)


def two_points(K):
    a = point(K, "from")
    if not K.symbolic and "to.lon" not in K.values:
        # nearby and equal positions are worth trying, too
        how = K.choice("apart", ["far", "near", "same"])
        if how != "far":
            r = 0.0009 if how == "near" else 0.0
            return a, shapely.geometry.Point(a.x + r * K.real("dlon", lo=-1, hi=1), a.y + r * K.real("dlat", lo=-1, hi=1))
    return a, point(K, "to")


def same_place(K, a, b):
    return K.and_(K.eq(a.x, b.x), K.eq(a.y, b.y))


def distance(K, a, b):
    """great-circle distance on the WGS84 ellipsoid"""
    return pyproj.Geod(ellps="WGS84").inv(a.x, a.y, b.x, b.y)[2]
