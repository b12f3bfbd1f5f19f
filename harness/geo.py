"""geometric constructions of shapely used by the example fields, exact"""
from shapely.geometry import Polygon, LineString, Point
from shapely.geometry.base import BaseGeometry


class Cut(LineString):
    """points of a outside of b"""

    def __init__(self, a, b):
        LineString.__init__(self, a._all())
        self.a, self.b = a, b


class Disc(BaseGeometry):
    type = 'Polygon'

    def __init__(self, c, r):
        self.c, self.r = c, r

    is_empty = property(lambda s: False)
    _all = lambda s: [(s.c[0] - s.r, s.c[1] - s.r), (s.c[0] + s.r, s.c[1] + s.r)]
    _key = lambda s: (s.c, s.r)


def grow(g, r):
    assert g.type == 'Point', 'only the buffer of a point is modelled'
    return Disc((g.x, g.y), r)


def hull(g):
    """convex hull by Andrew's monotone chain"""
    pts = []
    for p in g._all():
        if not any(bool(p[0] == q[0]) and bool(p[1] == q[1]) for q in pts):
            pts.append(p)
    for i in range(1, len(pts)):
        j = i
        while j > 0 and (pts[j][0] < pts[j - 1][0] or (pts[j][0] == pts[j - 1][0] and pts[j][1] < pts[j - 1][1])):
            pts[j], pts[j - 1] = pts[j - 1], pts[j]
            j -= 1

    def chain(ps):
        out = []
        for p in ps:
            while len(out) > 1 and (out[-1][0] - out[-2][0]) * (p[1] - out[-2][1]) - (out[-1][1] - out[-2][1]) * (p[0] - out[-2][0]) <= 0:
                out.pop()
            out.append(p)
        return out[:-1]
    ring = chain(pts) + chain(pts[::-1])
    if len(ring) < 3:
        return LineString(pts) if len(pts) > 1 else Point(pts[0])
    return Polygon(ring)
