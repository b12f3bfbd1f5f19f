"""C48 strategies for test data"""
import math
import random
from shapely.geometry import Point, LineString, Polygon
from crowddynamics import testing
from crowddynamics.simulation.agents import Circular, ThreeCircle
from symx import stubs
from symx.reg import harness


def source(S, tops=None):
    """what hypothesis draws: any number a strategy allows"""
    n = [0]

    def draw(kind, lo, hi, special):
        n[0] += 1
        name = 'draw%d' % n[0]
        if special and S.branch(S.bool(name + '.special')):
            return {'nan': float('nan'), 'inf': float('inf')}[S.choice(name + '.which', special)]
        if kind != 'float':
            return S.choice(name, list(range(lo or 0, (hi if hi is not None else 3) + 1)))
        return S.real(name, -50 if lo is None else lo, 50 if hi is None else hi)
    stubs.HOOKS['draw'] = draw
    stubs.HOOKS['assume'] = S.assume
    return n


SHAPES = [None, 3, (1, 2), (2, 2), ()]


@harness(configs=[dict(k=k, exclude=e) for k in range(5) for e in (None, 'exact', 'near')],
         bounds='scalars and arrays of up to four numbers, any of four ranges, zero excluded exactly, nearly or not; any number hypothesis may draw')
def numbers(S, k, exclude):
    source(S)
    lo, hi = S.choice('range', [(None, None), (0.5, 2.0), (-3.0, 1.0), (None, 4.0), (-1.0, None), (0.0, 5.0)])
    kw = {}
    if lo is not None:
        kw['min_value'] = lo
    if hi is not None:
        kw['max_value'] = hi
    if exclude:
        kw['exclude_zero'] = exclude
    shape = SHAPES[k]
    hook, seen = stubs.HOOKS['draw'], []
    stubs.HOOKS['draw'] = lambda *a: seen.append(hook(*a)) or seen[-1]

    def keep(condition):
        x = seen[-1]
        if S.branch(S.finite(x)):
            S.check('only zeros are thrown away', S.or_(condition, S.le(S.max([x, -x]), 1.1e-8 if exclude == 'near' else 0)))
        S.assume(condition)
    stubs.HOOKS['assume'] = keep
    v = testing.reals(shape=shape, **kw).example()
    if shape is None:
        items = [v]
    else:
        S.check('shape', tuple(v.shape) == ((shape,) if isinstance(shape, int) else shape))
        items = list(v.flatten())
    for x in items:
        S.check('finite', S.finite(x))
        S.check('in range', S.and_(lo is None or S.le(lo, x), hi is None or S.le(x, hi)))
        if exclude:
            S.check('not zero', S.ne(x, 0))
        if exclude == 'near':
            S.check('not nearly zero', S.lt(0.9e-8, S.max([x, -x])))


@harness(bounds='ranges that are empty or turned around are refused')
def ranges(S):
    source(S)
    a, b = S.choice('a', [0.0, 1.0, -2.0]), S.choice('b', [0.0, 1.0, 3.0])
    e = S.raises(AssertionError, lambda: testing.reals(a, b).example())
    S.check('refused', (e is not None) == (b <= a))


@harness(bounds='any range of angles of three, any angle in it')
def unit_vectors(S):
    source(S)
    lo, hi = S.choice('range', [(None, None), (0.5, 1.5), (-2.0, 0.25)])
    hook, seen = stubs.HOOKS['draw'], []
    stubs.HOOKS['draw'] = lambda *a: seen.append(hook(*a)) or seen[-1]
    v = testing.unit_vectors(**({} if lo is None else dict(min_angle=lo, max_angle=hi))).example()
    S.check('plane vector', tuple(v.shape) == (2,))
    S.check('length', S.eq(v[0] * v[0] + v[1] * v[1], 1))
    S.check('one angle', len(seen) == 1)
    S.check('angle in the range', S.and_(S.le(0.0 if lo is None else lo, seen[0]), S.le(seen[0], 2 * math.pi if lo is None else hi)))
    S.check('vector of the angle', S.and_(S.eq(v[0], S.np.cos(seen[0])), S.eq(v[1], S.np.sin(seen[0]))))


@harness(bounds='points, lines with two to four vertices (open and closed) and polygons of three to five vertices; four ranges of coordinates, zero excluded or not')
def shapes(S):
    count = source(S)
    lo, hi = S.choice('range', [(None, None), (1.0, 2.0), (-3.0, -1.0)])
    kw = {} if lo is None else dict(min_value=lo, max_value=hi)
    if S.branch(S.bool('exclude')):
        kw['exclude_zero'] = 'exact'
    kind = S.choice('kind', ['point', 'line', 'closed', 'polygon'])
    n = 1
    if kind == 'point':
        g = testing.points(**kw).example()
        S.check('type', type(g) is Point)
        pts = list(g.coords)
    elif kind == 'polygon':
        n = S.choice('vertices', [3, 4, 5])
        g = testing.polygons(num_verts=n, **kw).example()
        S.check('type', type(g) is Polygon and len(g.interiors) == 0)
        pts = list(g.exterior.coords)
    else:
        n = S.choice('vertices', [2, 3, 4])
        g = testing.linestrings(num_verts=n, closed=kind == 'closed', **kw).example()
        S.check('type', type(g) is LineString)
        pts = list(g.coords)
    closed = kind in ('closed', 'polygon')
    if kind == 'polygon':
        S.assume(S.or_(S.ne(pts[0][0], pts[n - 1][0]), S.ne(pts[0][1], pts[n - 1][1])))
    S.check('vertices', len(pts) == n + closed)
    if closed:
        S.check('ends at its start', S.and_(S.eq(pts[0][0], pts[-1][0]), S.eq(pts[0][1], pts[-1][1])))
    S.check('every coordinate drawn on its own', count[0] == 2 * n)
    for p in pts:
        for x in p:
            S.check('finite', S.finite(x))
            S.check('in range', S.and_(lo is None or S.le(lo, x), hi is None or S.le(x, hi)))
            if 'exclude_zero' in kw:
                S.check('not zero', S.ne(x, 0))


@harness(configs=[dict(n=n) for n in (3, 4, 5)], bounds='a triangle of any coordinates in [1, 9] with a hole of three to five vertices, all draws; shells that cannot be triangulated')
def holes(S, n):
    source(S)
    S.coarse(200)
    fails = S.branch(S.bool('flat'))
    from scipy.spatial.qhull import QhullError

    def mesh(pts):
        if fails:
            raise QhullError('flat')
        return [(0, 1, 2)]
    stubs.HOOKS['delaunay'] = mesh
    old = random.randint
    asked = []
    random.randint = lambda a, b: asked.append((a, b)) or n
    try:
        g = testing.polygons(min_value=1.0, max_value=9.0, has_holes=True).example()
    finally:
        random.randint = old
    S.check('number of vertices of the hole', asked in ([(3, 5)], []))
    shell = [S.np.array(p) for p in list(g.exterior.coords)[:3]]
    S.check('one hole if there is a triangulation', len(g.interiors) == (0 if fails else 1))
    if fails:
        return
    hole = list(g.interiors[0].coords)
    S.check('vertices of the hole', len(hole) in (n, n + 1))
    a, b, c = shell
    d = S.cross(b - a, c - a)
    S.assume(S.lt(0.5, d))
    for p in hole[:1]:
        p = S.np.array(p)
        S.check('inside the shell', S.and_(*[S.le(0, S.cross(v - u, p - u)) for u, v in ((a, b), (b, c), (c, a))]))


@harness(configs=[dict(kind=k, n=n) for k in ('Circular', 'ThreeCircle') for n in (0, 1, 3)], bounds='arrays of up to three agents of both types with any position, radius and mass')
def agents(S, kind, n):
    source(S)
    cls = dict(Circular=Circular, ThreeCircle=ThreeCircle)[kind]
    drawn = []
    log = lambda name, s: s.map(lambda v: drawn.append((name, v)) or v)
    attributes = dict(radius=log('radius', testing.reals(0.125, 1.0)), mass=log('mass', testing.reals(50.0, 90.0)), position=log('position', testing.reals(-9.0, 9.0, shape=2)))
    size = stubs.Strategy(lambda: n)
    a = testing.agents(size, cls, attributes).example()
    S.check('length', tuple(a.shape) == (n,))
    S.check('records of the type', a.dtype.names == cls.dtype().names)
    S.check('every attribute drawn once for each agent', len(drawn) == 3 * n)
    for name in ('radius', 'mass', 'position'):
        values = [v for k, v in drawn if k == name]
        for i in range(n):
            S.equal('drawn values', a[name][i], values[i])
    for i in range(n):
        alone = S.np.array(cls(**{k: [v for q, v in drawn if q == k][i] for k in attributes}))
        for f in a.dtype.names:
            S.equal('as an agent made of the drawn values', a[f][i], alone[f][0] if len(alone.shape) else alone[f])
        S.check('other values are the defaults', S.and_(S.eq(a['target'][i], -1), S.eq(a['index_leader'][i], -1)))
        S.check('default flags', bool(a['active'][i]))
    S.check('base type refused', S.raises(AssertionError, lambda: testing.agents(size, testing.AgentType, {}).example()) is not None)
