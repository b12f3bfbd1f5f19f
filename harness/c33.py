"""C33 geometries to segments, obstacles and coordinate arrays"""
from shapely.geometry import Point, LineString, LinearRing, Polygon, MultiPoint, MultiLineString, MultiPolygon, GeometryCollection
from crowddynamics.core.geometry import geom_to_linesegment, geom_to_linear_obstacles, geom_to_array, draw_geom, union, GeomTypes
from harness.c32 import MAKE
from symx.reg import harness


def pieces(g):
    """(marker, points) of every ring, line or point in order"""
    if hasattr(g, 'geoms'):
        return [p for x in g.geoms for p in pieces(x)]
    if g.type == 'Point':
        return [(GeomTypes.POINT, list(g.coords))]
    if g.type == 'Polygon':
        return [(GeomTypes.POLYGON_HOLE, list(h.coords)) for h in g.interiors] + [(GeomTypes.POLYGON_SHELL, list(g.exterior.coords))]
    return [(GeomTypes.LINESTRING, list(g.coords))]


def rings(g):
    if hasattr(g, 'geoms'):
        return [p for x in g.geoms for p in rings(x)]
    if g.type == 'Point':
        return []
    if g.type == 'Polygon':
        return [list(g.exterior.coords)] + [list(h.coords) for h in g.interiors]
    return [list(g.coords)]


def nested(S):
    return GeometryCollection([MAKE['lines'](S, 'a'), GeometryCollection([MAKE['holes'](S, 'd'), MAKE['point'](S, 'e')]), MAKE['polygons'](S, 'f')])


def many(S):
    """a polygon with seven holes, a line of 60 points, a ring of 40, and a collection of 20 points"""
    x, y = S.real('x', -9, 9), S.real('y', -9, 9)
    holes = [[(2 * k + 1, 1 + y), (2 * k + 2, 1), (2 * k + 1.5, 3)] for k in range(7)]
    return GeometryCollection([Polygon([(x - 20, -20), (40, -20), (40, 20), (x - 20, 20)], holes),
                               LineString([(0.5 * k, x if k == 33 else k % 3) for k in range(60)]),
                               LinearRing([(k, 0.25 * k * k + (y if k == 39 else 0)) for k in range(40)]),
                               MultiPoint([(k, y) for k in range(20)])])


KINDS = sorted(MAKE) + ['nested', 'union', 'many']


def make(S, kind):
    if kind == 'nested':
        return nested(S)
    if kind == 'union':
        return MAKE['line'](S, 'a') | MAKE['holes'](S, 'b')
    return many(S) if kind == 'many' else MAKE[kind](S, 'a')


@harness(configs=[dict(kind=k) for k in KINDS], bounds='points, lines, rings, polygons with up to two holes, collections of up to three (also nested), any position; also seven holes, 60 points and 20 members')
def segments(S, kind):
    g = make(S, kind)
    want = [s for r in rings(g) for s in zip(r[:-1], r[1:])]
    got = list(geom_to_linesegment(g))
    S.check('number of segments', len(got) == len(want))
    for a, b in zip(got, want):
        S.equal('segment', [list(a[0]), list(a[1])], [list(b[0]), list(b[1])])
    obs = geom_to_linear_obstacles(g)
    S.check('number of obstacles', tuple(obs.shape) == (len(want),) and tuple(obs.dtype.names) == ('p0', 'p1'))
    for i, b in enumerate(want):
        S.equal('obstacle', [obs['p0'][i], obs['p1'][i]], [list(b[0]), list(b[1])])


@harness(configs=[dict(kind=k) for k in KINDS], bounds='as for segments')
def coordinates(S, kind):
    g = make(S, kind)
    arr = geom_to_array(g)
    want = []
    for mark, pts in pieces(g):
        want.append([float('nan'), mark])
        want += [[p[0], p[1]] for p in pts]
    S.check('shape', tuple(arr.shape) == (len(want), 2))
    S.equal('rings and lines, each headed by its marker', arr, want)


@harness(bounds='no geometry, objects that are no geometry')
def others(S):
    none = geom_to_linear_obstacles(None)
    S.check('no obstacles', tuple(none.shape) == (0,) and tuple(none.dtype.names) == ('p0', 'p1'))
    S.check('types are different', len({GeomTypes.POINT, GeomTypes.LINESTRING, GeomTypes.POLYGON_HOLE, GeomTypes.POLYGON_SHELL}) == 4)
    for x in ('text', 3, None, [1, 2]):
        S.check('no segments', S.raises(TypeError, lambda: list(geom_to_linesegment(x))) is not None)
        S.check('no array', S.raises(TypeError, geom_to_array, x) is not None)
