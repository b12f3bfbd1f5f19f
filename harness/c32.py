"""C32 geometry JSON"""
import os
from shapely.geometry import Point, LineString, LinearRing, Polygon, MultiPoint, MultiLineString, MultiPolygon, GeometryCollection
from crowddynamics.io import save_geometry_json, load_geometry_json
from symx.reg import harness


def point(S, n):
    return Point(S.real(n + 'x', -9, 9), S.real(n + 'y', -9, 9))


def line(S, n, k=3):
    return LineString([(S.real('%sx%d' % (n, i), -9, 9), S.real('%sy%d' % (n, i), -9, 9)) for i in range(k)])


def polygon(S, n, hole=False):
    x, y = S.real(n + 'x', -9, 9), S.real(n + 'y', -9, 9)
    shell = [(x, y), (x + 8, y), (x + 8, y + 8), (x, y + 9)]
    return Polygon(shell, [[(x + 1, y + 1), (x + 3, y + 1), (x + 2, y + 4)], [(x + 5, y + 5), (x + 6, y + 5), (x + 6, y + 7)]] if hole else None)


MAKE = {
    'point': point,
    'line': line,
    'ring': lambda S, n: LinearRing([(S.real(n + 'x', -9, -1), 0.0), (5.0, 1.0), (2.0, S.real(n + 'y', 2, 9))]),
    'polygon': polygon,
    'holes': lambda S, n: polygon(S, n, True),
    'points': lambda S, n: MultiPoint([point(S, n), point(S, n + 'b')]),
    'lines': lambda S, n: MultiLineString([line(S, n, 2), line(S, n + 'b', 3)]),
    'polygons': lambda S, n: MultiPolygon([polygon(S, n), polygon(S, n + 'b', True)]),
    'collection': lambda S, n: GeometryCollection([point(S, n), line(S, n + 'b'), polygon(S, n + 'c')]),
}


def same(S, a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and S.and_(*[same(S, a[k], b[k]) for k in a])
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and S.and_(*[same(S, x, y) for x, y in zip(a, b)])
    if type(a) is not type(b):
        return False
    if hasattr(a, 'geoms'):
        return len(a.geoms) == len(b.geoms) and S.and_(*[same(S, x, y) for x, y in zip(a.geoms, b.geoms)])
    if a.type == 'Polygon':
        return S.and_(S.eq(list(a.exterior.coords), list(b.exterior.coords)), len(a.interiors) == len(b.interiors),
                      *[S.eq(list(x.coords), list(y.coords)) for x, y in zip(a.interiors, b.interiors)])
    return S.eq(list(a.coords), list(b.coords))


def saved(S, data):
    S.exact_mode = True         # numbers come back as they were
    f = os.path.join(S.scratch.new(), 'geometry.json')
    save_geometry_json(f, data)
    back = load_geometry_json(f)
    S.check('names in order', list(back) == list(data))
    for k in data:
        S.check('equal geometry', same(S, data[k], back[k]))
    return f


@harness(configs=[dict(kind=k) for k in sorted(MAKE)], bounds='one geometry of each kind with any position, between missing values')
def single(S, kind):
    saved(S, {'domain': MAKE[kind](S, 'a'), 'nothing': None, 'second': Point(1.0, 2.0)})


@harness(configs=[dict(a=a, b=b) for a, b in [('polygon', 'line'), ('lines', 'point'), ('holes', 'polygons'), ('ring', 'collection'), ('points', 'polygon')]],
         bounds='lists and name mappings of up to five geometries (some of them equal) of two kinds, any positions, in any order of entries')
def nested(S, a, b):
    x, y = MAKE[a](S, 'a'), MAKE[b](S, 'b')
    data = {'targets': [x, y, x, Point(3.0, 4.0), Point(3.0, 4.0)], 'mapping': {'z': x, 'A': y, 'type': x, 'coordinates': y}, 'empty list': [], 'one': [y], 'single': x, 'no domain': None}
    order = S.permutation('order', sorted(data)[:4])
    saved(S, {k: data[k] for k in order + sorted(data)[4:]})


@harness(configs=[dict(a=a, b=b) for a, b in [('polygon', 'line'), ('lines', 'holes')]], bounds='a second save with fewer or with more entries, any positions')
def again(S, a, b):
    x, y = MAKE[a](S, 'a'), MAKE[b](S, 'b')
    f = saved(S, {'first': x, 'list': [x, y]})
    new = S.choice('new', [{'first': y}, {'Other': [y], 'type': x, 'geometries': None}, {}])
    save_geometry_json(f, new)
    back = load_geometry_json(f)
    S.check('names in order', list(back) == list(new))
    for k in new:
        S.check('equal geometry', same(S, new[k], back[k]))
