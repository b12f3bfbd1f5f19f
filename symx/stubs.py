"""Stand-ins for libraries that are not installed here, identical in the symbolic and in the replay world.

They implement the documented contract of the third-party function; randomness becomes a harness input.
"""
import functools
import math
import os
import sys
import types

np = None          # set by the loader: the NumPy of this world
SYM = False
LOG = []           # calls to the environment that a harness may inspect: (name, details)
HOOKS = {}         # name -> callable supplied by a harness (skfmm, voronoi, ...)


def _S():
    from . import api
    return api.S


def _mod(name, **kw):
    m = types.ModuleType(name)
    m.__path__ = []
    m.__dict__.update(kw)
    sys.modules[name] = m
    if '.' in name:
        p, c = name.rsplit('.', 1)
        setattr(sys.modules[p], c, m)
    return m


def install():
    install_numba()
    install_cells()
    install_shapely()
    install_scipy()
    install_skimage()
    _mod('pandas', Series=type('Series', (), {}), DataFrame=type('DataFrame', (), {}))
    _mod('xarray', Dataset=type('Dataset', (), {}), DataArray=type('DataArray', (), {}))
    _mod('matplotlib')
    _mod('matplotlib.path', Path=Path)
    _mod('matplotlib.pyplot')
    install_hypothesis()
    _mod('skfmm', distance=lambda phi, dx=1.0, **k: HOOKS['skfmm'](phi, dx))
    install_bokeh()


# ---------------------------------------------------------------------------------------------------------------- #
# bokeh 0.12 subset: figures record what is drawn

class Range1d(object):
    def __init__(self, start=0.0, end=1.0, **k):
        self.start, self.end = start, end


class Figure(object):
    def __init__(self, plot_width=600, plot_height=600, **k):
        self.plot_width, self.plot_height, self.options = plot_width, plot_height, k
        self.grid = self.legend = None
        self.grid, self.legend = type('Grid', (), {})(), type('Legend', (), {})()
        self.glyphs = []

    def _add(self, kind, **k):
        self.glyphs.append((kind, k))

    def circle(self, x, y, **k):
        self._add('circle', x=x, y=y, style=k)

    def line(self, x, y, **k):
        self._add('line', x=x, y=y, style=k)

    def patch(self, x, y, **k):
        self._add('patch', x=x, y=y, style=k)

    def multi_line(self, xs, ys, **k):
        for x, y in zip(xs, ys):
            self.line(x, y, **k)

    def patches(self, xs, ys, **k):
        for x, y in zip(xs, ys):
            self.patch(x, y, **k)

    def image(self, image, x, y, dw, dh, **k):
        one = lambda v: v[0] if isinstance(v, (list, tuple)) else v
        self._add('image', image=image[0], x=one(x), y=one(y), dw=one(dw), dh=one(dh), style=k)

    def segment(self, x0, y0, x1, y1, **k):
        self._add('segment', x0=x0, y0=y0, x1=x1, y1=y1, style=k)

    def triangle(self, x, y, size=4, angle=0.0, **k):
        self._add('triangle', x=x, y=y, size=size, angle=angle, style=k)


def install_bokeh():
    _mod('bokeh')
    _mod('bokeh.io', output_file=lambda filename, title='Bokeh Plot', **k: LOG.append(('output_file', filename, title)),
         show=lambda obj, **k: LOG.append(('show', obj)), save=lambda obj, *a, **k: LOG.append(('save', obj)))
    _mod('bokeh.models', Range1d=Range1d)
    _mod('bokeh.plotting', Figure=Figure, figure=Figure, output_file=sys.modules['bokeh.io'].output_file,
         show=sys.modules['bokeh.io'].show, save=sys.modules['bokeh.io'].save)


# ---------------------------------------------------------------------------------------------------------------- #
# hypothesis subset: a strategy produces any value it may produce (HOOKS['draw'](kind, lo, hi, allowed specials))


class Strategy(object):
    def __init__(self, fn):
        self.do_draw = fn

    def filter(self, condition):
        def fn():
            v = self.do_draw()
            HOOKS['assume'](condition(v))
            return v
        return Strategy(fn)

    def map(self, f):
        return Strategy(lambda: f(self.do_draw()))

    def flatmap(self, f):
        return Strategy(lambda: f(self.do_draw()).do_draw())

    def example(self):
        return self.do_draw()


def st_floats(min_value=None, max_value=None, allow_nan=None, allow_infinity=None, **k):
    nan = allow_nan if allow_nan is not None else min_value is None and max_value is None
    inf = allow_infinity if allow_infinity is not None else min_value is None or max_value is None
    return Strategy(lambda: HOOKS['draw']('float', min_value, max_value, (['nan'] if nan else []) + (['inf'] if inf else [])))


def st_composite(f):
    import functools

    @functools.wraps(f)
    def accept(*a, **k):
        return Strategy(lambda: f(lambda s: s.do_draw(), *a, **k))
    return accept


def st_arrays(dtype, shape, elements=None, **k):
    def fn():
        dims = (shape,) if isinstance(shape, int) else tuple(shape)
        n = 1
        for d in dims:
            n *= d
        return np.array([elements.do_draw() for i in range(n)], dtype=float).reshape(dims)
    return Strategy(fn)


def install_hypothesis():
    _mod('hypothesis')
    _mod('hypothesis.strategies', floats=st_floats, composite=st_composite, just=lambda v: Strategy(lambda: v), SearchStrategy=Strategy,
         integers=lambda min_value=None, max_value=None: Strategy(lambda: HOOKS['draw']('int', min_value, max_value, [])),
         lists=lambda e, min_size=0, max_size=None, **k: Strategy(lambda: [e.do_draw() for i in range(HOOKS['draw']('size', min_size, max_size, []))]),
         tuples=lambda *e: Strategy(lambda: tuple(x.do_draw() for x in e)))
    _mod('hypothesis.extra')
    _mod('hypothesis.extra.numpy', arrays=st_arrays)


# ---------------------------------------------------------------------------------------------------------------- #
# numba: compiled functions are the Python functions

class TypeTag(object):
    def __init__(self, name='T'):
        self.name = name

    def __call__(self, *a, **k):
        return TypeTag('%s()' % self.name)

    def __getitem__(self, i):
        return TypeTag('%s[]' % self.name)

    def __repr__(self):
        return self.name


def jit(*a, **k):
    if len(a) == 1 and callable(a[0]) and not isinstance(a[0], TypeTag) and not k:
        return a[0]

    def wrap(f):
        return f
    return wrap


class NbFloat(TypeTag):
    pass


class NbArray(TypeTag):
    ndim = 1


def nb_type(x):
    if hasattr(x, 'shape') and getattr(x, 'shape') != ():
        t = NbArray('array')
        t.ndim = len(x.shape)
        return t
    return NbFloat('float64')


def generated_jit(*a, **k):
    def wrap(gen):
        @functools.wraps(gen)
        def call(*args):
            return gen(*[nb_type(x) for x in args])(*args)
        return call
    if len(a) == 1 and callable(a[0]) and not k:
        return wrap(a[0])
    return wrap


def nb_vectorize(*a, **k):
    def wrap(f):
        @functools.wraps(f)
        def call(*xs):
            if any(hasattr(x, 'shape') and x.shape != () for x in xs):
                return np.vectorize(f, otypes=[float])(*xs)
            return f(*[x.item() if hasattr(x, 'item') and getattr(x, 'shape', None) == () and not SYM else x for x in xs])
        return call
    if len(a) == 1 and callable(a[0]) and not k and not isinstance(a[0], TypeTag):
        return wrap(a[0])
    return wrap


def install_numba():
    f8 = TypeTag('f8')
    tags = dict(f8=f8, f4=TypeTag(), i8=TypeTag('i8'), i4=TypeTag(), u8=TypeTag(), void=TypeTag('void'), boolean=TypeTag('boolean'),
                float64=f8, int64=TypeTag('i8'), float32=TypeTag(), int32=TypeTag(), b1=TypeTag(),
                optional=TypeTag('optional'), typeof=lambda x: TypeTag('typeof'))
    m = _mod('numba', jit=jit, njit=jit, vectorize=nb_vectorize, guvectorize=jit, generated_jit=generated_jit,
             prange=range, from_dtype=lambda d: TypeTag(), **tags)
    _mod('numba.types', Float=NbFloat, Array=NbArray, Tuple=TypeTag('Tuple'), UniTuple=TypeTag('UniTuple'), Integer=type('Integer', (TypeTag,), {}),
         Number=NbFloat, **{k: v for k, v in tags.items() if k != 'typeof'})
    _mod('numba.typing')
    _mod('numba.typing.typeof', typeof=lambda x, *a: TypeTag('typeof'))
    m.typing.typeof = sys.modules['numba.typing.typeof']


# ---------------------------------------------------------------------------------------------------------------- #
# cell_lists: grid of cells of the given size; pairs in the same or in adjacent cells, each once

def add_to_cells(points, cell_size):
    n = len(points)
    d = points.shape[1]
    idx = []
    for i in range(n):
        idx.append([int(points[i][k] // cell_size) for k in range(d)])
    mn = [min(r[k] for r in idx) for k in range(d)] if n else [0] * d
    mx = [max(r[k] for r in idx) for k in range(d)] if n else [0] * d
    shape = tuple(mx[k] - mn[k] + 1 for k in range(d))
    total = 1
    for s in shape:
        total *= s
    cells = [[] for _ in range(total)]
    for i, r in enumerate(idx):
        flat = 0
        for k in range(d):
            flat = flat * shape[k] + (r[k] - mn[k])
        cells[flat].append(i)
    points_indices = [i for c in cells for i in c]
    cells_count = [len(c) for c in cells]
    cells_offset = [0]
    for c in cells:
        cells_offset.append(cells_offset[-1] + len(c))
    A = lambda v: np.array(v, dtype=np.int64)
    return A(points_indices), A(cells_count), A(cells_offset), A(shape)


def neighboring_cells(grid_shape):
    """for every cell the list of (flat) indices of itself and its adjacent cells with a larger index, as a flat array
    of pairs (cell, neighbour)"""
    shape = [int(s) for s in grid_shape]
    if len(shape) == 1:
        shape = shape + [1]
    n, m = shape
    out = []
    for i in range(n):
        for j in range(m):
            for di in (-1, 0, 1):
                for dj in (-1, 0, 1):
                    a, b = i + di, j + dj
                    if 0 <= a < n and 0 <= b < m and a * m + b > i * m + j:
                        out.append((i * m + j, a * m + b))
    flat = [v for p in out for v in p]
    return np.array(flat, dtype=np.int64)


def iter_nearest_neighbors(cell_indices, neigh_cells, points_indices, cells_count, cells_offset):
    nb = [int(v) for v in neigh_cells]
    pairs = list(zip(nb[::2], nb[1::2]))

    def members(c):
        o = int(cells_offset[c])
        return [int(points_indices[k]) for k in range(o, o + int(cells_count[c]))]
    flip = HOOKS.get('cell_order', False)
    for c in [int(v) for v in cell_indices]:
        pts = members(c)
        for x in range(len(pts)):
            for y in range(x + 1, len(pts)):
                yield (pts[y], pts[x]) if flip else (pts[x], pts[y])
        for a, b in pairs:
            if a == c:
                for i in pts:
                    for j in members(b):
                        yield (j, i) if flip else (i, j)


def install_cells():
    _mod('cell_lists', add_to_cells=add_to_cells, neighboring_cells=neighboring_cells,
         iter_nearest_neighbors=iter_nearest_neighbors)


# ---------------------------------------------------------------------------------------------------------------- #
# shapely 1.x subset

class CoordinateSequence(object):
    def __init__(self, pts):
        self._pts = [tuple(p) for p in pts]

    def __len__(self):
        return len(self._pts)

    def __iter__(self):
        return iter(self._pts)

    def __getitem__(self, k):
        return self._pts[k]

    def __array__(self, dtype=None, copy=None):
        return np.array(self._pts, dtype=float)

    def _symx_array(self):
        return [list(p) for p in self._pts]

    @property
    def xy(self):
        return [p[0] for p in self._pts], [p[1] for p in self._pts]


def _num(v):
    if SYM:
        return v if hasattr(v, 'p') else float(v)
    return float(v)


def _pts(xs):
    if isinstance(xs, BaseGeometry):
        xs = xs.coords
    return [(_num(p[0]), _num(p[1])) for p in xs]


BEYOND = set('boundary centroid simplify representative_point minimum_rotated_rectangle minimum_clearance hausdorff_distance symmetric_difference '
             'parallel_offset project interpolate relate relate_pattern touches overlaps equals_exact almost_equals normalize wkb wkb_hex svg '
             'array_interface ctypes has_z is_closed is_ring is_simple length area intersects contains covers covered_by within contains_properly '
             'is_ccw oriented_envelope segmentize offset_curve dwithin'.split())


def _beyond(name):
    """real shapely has it, the stand-in has not"""
    if SYM:
        from symx.core import Inconclusive
        raise Inconclusive('shapely: ' + name)
    raise NotImplementedError('shapely: ' + name)


class BaseGeometry(object):
    type = 'BaseGeometry'
    _valid = True

    @property
    def geom_type(self):
        return self.type

    @property
    def is_valid(self):
        return self._valid

    @property
    def is_empty(self):
        return True

    def _all(self):
        return []

    @property
    def bounds(self):
        ps = self._all()
        if not ps:
            return ()
        xs = [p[0] for p in ps]
        ys = [p[1] for p in ps]
        return (min(xs), min(ys), max(xs), max(ys))

    def __or__(self, o):
        return union([self, o])

    union = __or__

    def __sub__(self, o):
        if 'difference' in HOOKS:
            return HOOKS['difference'](self, o)
        return self

    difference = __sub__

    def __and__(self, o):
        return HOOKS['intersection'](self, o)

    intersection = __and__

    def buffer(self, r, *a, **k):
        grown = HOOKS['buffer'](self, r)
        if a or k:
            try:
                grown.options = (a, k)
            except AttributeError:
                pass
        return grown

    @property
    def convex_hull(self):
        return HOOKS['convex_hull'](self)

    def __eq__(self, o):
        return type(o) is type(self) and self._key() == o._key()

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return id(self)

    def equals(self, o):
        return self == o

    def __bool__(self):
        return not self.is_empty

    __nonzero__ = __bool__

    def _key(self):
        return ()

    def __repr__(self):
        return '<%s %r>' % (self.type, self._key())

    wkt = property(__repr__)

    @property
    def __geo_interface__(self):
        return mapping(self)

    def distance(self, o):
        return HOOKS['distance'](self, o)

    @property
    def envelope(self):
        b = self.bounds
        if not b:
            _beyond('envelope')
        return Polygon([(b[0], b[1]), (b[2], b[1]), (b[2], b[3]), (b[0], b[3])])

    def disjoint(self, o):
        return not self.intersects(o)

    def crosses(self, o):
        _beyond('crosses')

    def __getattr__(self, name):
        if name in BEYOND:
            _beyond(name)
        raise AttributeError("%r object has no attribute %r" % (type(self).__name__, name))


class Point(BaseGeometry):
    type = 'Point'

    def __init__(self, *a):
        if len(a) == 1:
            a = a[0]
            if isinstance(a, Point):
                a = a._p
            elif len(a) == 1:
                a = a[0]
        self._p = (_num(a[0]), _num(a[1])) if len(a) else None

    @property
    def is_empty(self):
        return self._p is None

    @property
    def coords(self):
        return CoordinateSequence([self._p])

    xy = property(lambda s: s.coords.xy)
    x = property(lambda s: s._p[0])
    y = property(lambda s: s._p[1])

    def _all(self):
        return [self._p]

    def _key(self):
        return self._p

    def __array__(self, dtype=None, copy=None):
        return np.array(self._p, dtype=float)

    def _symx_array(self):
        return list(self._p)

    def within(self, o):
        return o.contains(self)

    def intersects(self, o):
        return self.equals(o) if isinstance(o, Point) else o.intersects(self)


class LineString(BaseGeometry):
    type = 'LineString'

    def __init__(self, coordinates=None):
        self._c = _pts(coordinates) if coordinates is not None else []

    @property
    def is_empty(self):
        return not self._c

    @property
    def coords(self):
        return CoordinateSequence(self._c)

    def _all(self):
        return self._c

    def _key(self):
        return tuple(self._c)

    def __array__(self, dtype=None, copy=None):
        return np.array(self._c, dtype=float)

    def _symx_array(self):
        return [list(p) for p in self._c]

    xy = property(lambda s: s.coords.xy)

    @property
    def length(self):
        t = 0.0
        for a, b in zip(self._c[:-1], self._c[1:]):
            t = t + np.hypot(b[0] - a[0], b[1] - a[1])
        return t


class LinearRing(LineString):
    type = 'LinearRing'

    def __init__(self, coordinates=None):
        c = _pts(coordinates) if coordinates is not None else []
        if c and not (_same(c[0], c[-1]) and len(c) > 3):
            c = c + [c[0]]
        self._c = c


def _same(a, b):
    return a is b or bool(a[0] == b[0]) and bool(a[1] == b[1])


class Polygon(BaseGeometry):
    type = 'Polygon'

    def __init__(self, shell=None, holes=None):
        if isinstance(shell, Polygon):
            shell, holes = shell.exterior, shell.interiors
        self.exterior = shell if isinstance(shell, LinearRing) else LinearRing(shell)
        self.interiors = [h if isinstance(h, LinearRing) else LinearRing(h) for h in (holes if holes is not None else [])]

    @property
    def is_empty(self):
        return self.exterior.is_empty

    @property
    def coords(self):
        raise NotImplementedError('Component rings have coordinate sequences, but the polygon does not')

    def _all(self):
        return self.exterior._c

    def _key(self):
        return (self.exterior._key(), tuple(h._key() for h in self.interiors))

    @property
    def area(self):
        return _shoelace(self.exterior._c) - sum(_shoelace(h._c) for h in self.interiors)

    def contains(self, g):
        """interior test for a single point (even-odd rule, boundary excluded)"""
        x, y = g.coords[0][:2]
        if not _ring_inside(self.exterior._c, x, y):
            return False
        return not any(_ring_inside(h._c, x, y) or _ring_on(h._c, x, y) for h in self.interiors)

    def covers(self, g):
        """the same with the boundary"""
        x, y = g.coords[0][:2]
        if not (_ring_on(self.exterior._c, x, y) or _ring_inside(self.exterior._c, x, y)):
            return False
        return not any(_ring_inside(h._c, x, y) for h in self.interiors)

    intersects = covers


def _shoelace(c):
    t = 0.0
    for a, b in zip(c[:-1], c[1:]):
        t = t + a[0] * b[1] - b[0] * a[1]
    return abs(t) / 2


def _ring_on(c, x, y):
    for a, b in zip(c[:-1], c[1:]):
        cr = (b[0] - a[0]) * (y - a[1]) - (b[1] - a[1]) * (x - a[0])
        if cr == 0 and min(a[0], b[0]) <= x and x <= max(a[0], b[0]) and min(a[1], b[1]) <= y and y <= max(a[1], b[1]):
            return True
    return False


def _ring_inside(c, x, y):
    if _ring_on(c, x, y):
        return False
    ins = False
    for a, b in zip(c[:-1], c[1:]):
        up, dn = a[1] > y, b[1] > y
        if bool(up) != bool(dn):
            # x < intersection abscissa
            lhs = (x - a[0]) * (b[1] - a[1])
            rhs = (y - a[1]) * (b[0] - a[0])
            if (lhs < rhs) if b[1] > a[1] else (lhs > rhs):
                ins = not ins
    return ins


class BaseMultipartGeometry(BaseGeometry):
    type = 'Multi'

    def __init__(self, geoms=()):
        self.geoms = [self._part(g) for g in geoms]

    def _part(self, g):
        return g

    @property
    def is_empty(self):
        return all(g.is_empty for g in self.geoms)

    @property
    def is_valid(self):
        return self._valid and all(g.is_valid for g in self.geoms)

    def __iter__(self):
        return iter(self.geoms)

    def __len__(self):
        return len(self.geoms)

    def __getitem__(self, i):
        return self.geoms[i]

    def _all(self):
        return [p for g in self.geoms for p in g._all()]

    def _key(self):
        return tuple((g.type, g._key()) for g in self.geoms)

    def contains(self, p):
        return any(g.contains(p) for g in self.geoms if isinstance(g, (Polygon, BaseMultipartGeometry)))

    def intersects(self, p):
        return any(g.intersects(p) for g in self.geoms)

    @property
    def coords(self):
        raise NotImplementedError('Multi-part geometries do not provide a coordinate sequence')

    @property
    def area(self):
        return sum(g.area if isinstance(g, (Polygon, BaseMultipartGeometry)) else 0.0 for g in self.geoms)


class MultiPoint(BaseMultipartGeometry):
    type = 'MultiPoint'

    def _part(self, g):
        return g if isinstance(g, Point) else Point(g)


class MultiLineString(BaseMultipartGeometry):
    type = 'MultiLineString'

    def _part(self, g):
        return g if isinstance(g, LineString) else LineString(g)


class MultiPolygon(BaseMultipartGeometry):
    type = 'MultiPolygon'

    def _part(self, g):
        return g if isinstance(g, Polygon) else Polygon(g[0], g[1] if len(g) > 1 else None)


class GeometryCollection(BaseMultipartGeometry):
    type = 'GeometryCollection'


def union(gs):
    parts = []
    for g in gs:
        if isinstance(g, BaseMultipartGeometry):
            parts.extend(g.geoms)
        elif not g.is_empty:
            parts.append(g)
    uniq = []
    for p in parts:
        if not any(p is q for q in uniq):
            uniq.append(p)
    if len(uniq) == 1:
        return uniq[0]
    kinds = set('LineString' if g.type == 'LinearRing' else g.type for g in uniq)
    if len(kinds) == 1:
        k = kinds.pop()
        return {'Point': MultiPoint, 'LineString': MultiLineString, 'Polygon': MultiPolygon}[k](uniq)
    return GeometryCollection(uniq)


def mapping(g):
    t = g.type
    if t == 'Point':
        return {'type': t, 'coordinates': g._p}
    if t in ('LineString', 'LinearRing'):
        return {'type': t, 'coordinates': tuple(g._c)}
    if t == 'Polygon':
        return {'type': t, 'coordinates': (tuple(g.exterior._c),) + tuple(tuple(h._c) for h in g.interiors)}
    if t == 'GeometryCollection':
        return {'type': t, 'geometries': [mapping(x) for x in g.geoms]}
    return {'type': t, 'coordinates': tuple(mapping(x)['coordinates'] for x in g.geoms)}


def shape(d):
    if hasattr(d, '__geo_interface__'):
        d = d.__geo_interface__
    t = d['type']
    c = d.get('coordinates')
    if t == 'Point':
        return Point(c)
    if t == 'LineString':
        return LineString(c)
    if t == 'LinearRing':
        return LinearRing(c)
    if t == 'Polygon':
        return Polygon(c[0], c[1:])
    if t == 'MultiPoint':
        return MultiPoint(c)
    if t == 'MultiLineString':
        return MultiLineString(c)
    if t == 'MultiPolygon':
        return MultiPolygon([(p[0], p[1:]) for p in c])
    if t == 'GeometryCollection':
        return GeometryCollection([shape(x) for x in d['geometries']])
    raise ValueError('Unknown geometry type: %s' % t)


def install_shapely():
    g = dict(BaseGeometry=BaseGeometry, BaseMultipartGeometry=BaseMultipartGeometry, Point=Point, LineString=LineString,
             LinearRing=LinearRing, Polygon=Polygon, MultiPoint=MultiPoint, MultiLineString=MultiLineString,
             MultiPolygon=MultiPolygon, GeometryCollection=GeometryCollection, mapping=mapping, shape=shape,
             asShape=shape, box=lambda a, b, c, d: Polygon([(c, b), (c, d), (a, d), (a, b)]))
    _mod('shapely')
    _mod('shapely.speedups', available=False, enable=lambda: None)
    _mod('shapely.geometry', **g)
    for n in ('base', 'point', 'linestring', 'polygon', 'multipolygon', 'multilinestring', 'multipoint', 'collection'):
        _mod('shapely.geometry.' + n, **g)
    _mod('shapely.prepared', prep=lambda g: g, PreparedGeometry=BaseGeometry)
    _mod('shapely.ops', cascaded_union=lambda gs: union(list(gs)), unary_union=lambda gs: union(list(gs)))


# ---------------------------------------------------------------------------------------------------------------- #
# matplotlib.path

class Path(object):
    def __init__(self, vertices, *a, **k):
        self.vertices = np.asarray(vertices)

    def contains_point(self, p, *a, **k):
        vs = [(v[0], v[1]) for v in self.vertices]
        if not _same(vs[0], vs[-1]):
            vs.append(vs[0])
        return _ring_inside(vs, p[0], p[1])

    def contains_points(self, points, *a, **k):
        pts = np.asarray(points)
        return np.array([bool(self.contains_point(pts[i])) for i in range(len(pts))], dtype=np.bool_)


# ---------------------------------------------------------------------------------------------------------------- #
# scipy

class QhullError(RuntimeError):
    pass


class Delaunay(object):
    """vertices in convex position: fan triangulation (a triangulation of the hull that uses every vertex)"""

    def __init__(self, points):
        if 'delaunay' in HOOKS:
            s = HOOKS['delaunay'](points)
        else:
            n = len(points)
            s = [(0, i, i + 1) for i in range(1, n - 1)]
        self.points = points
        self.simplices = np.array(s, dtype=np.int64).reshape((-1, 3))


class _TruncNorm(object):
    @staticmethod
    def rvs(a, b, loc=0.0, scale=1.0, size=1, random_state=None, **k):
        S = _S()
        if all(np.ndim(v) == 0 for v in (a, b)) and not a < b:
            raise ValueError('Domain error in arguments.')
        LOG.append(('truncnorm', dict(a=a, b=b, loc=loc, scale=scale, size=size, random_state=random_state)))
        shape_ = (size,) if not isinstance(size, (tuple, list)) else tuple(size)
        shape_ = tuple(int(s) for s in shape_)
        n = 1
        for s in shape_:
            n *= s
        z = [a + (b - a) * S.draw(0, 1, 'truncnorm') for _ in range(n)]
        LOG.append(('truncnorm_z', list(z)))
        return loc + scale * np.array(z).reshape(shape_)


class NearestNDInterpolator(object):
    def __init__(self, x, y, rescale=False, tree_options=None):
        self.points, self.values = x, y
        n = len(x[0])
        size = [max(float(p[i]) for p in x) - min(float(p[i]) for p in x) for i in range(n)]
        self.scale = [(s or 1.0) if rescale else 1.0 for s in size]

    def __call__(self, *args):
        a = args[0] if len(args) == 1 else args
        if isinstance(a, tuple):
            q = list(zip(*[[float(v) for v in c] for c in a]))
        else:
            q = [tuple(float(c) for c in r) for r in a]
        out = []
        for p in q:
            best = None
            for k in range(len(self.points)):
                r = self.points[k]
                d = sum(((float(r[i]) - p[i]) / self.scale[i]) ** 2 for i in range(len(p)))
                if best is None or d < best[0]:
                    best = (d, k)
            out.append(self.values[best[1]])
        return np.array(out)


def Voronoi(points, *a, **k):
    return HOOKS['voronoi'](points)


def install_scipy():
    _mod('scipy')
    _mod('scipy.stats', truncnorm=_TruncNorm())
    _mod('scipy.spatial', Delaunay=Delaunay, Voronoi=Voronoi, QhullError=QhullError)
    _mod('scipy.spatial.qhull', Delaunay=Delaunay, QhullError=QhullError)
    _mod('scipy.interpolate', NearestNDInterpolator=NearestNDInterpolator)
    _mod('scipy.misc')


# ---------------------------------------------------------------------------------------------------------------- #
# scikit-image (concrete indices)

def sk_line(r0, c0, r1, c1):
    r0, c0, r1, c1 = int(r0), int(c0), int(r1), int(c1)
    dr, dc = abs(r1 - r0), abs(c1 - c0)
    n = max(dr, dc)
    rr, cc = [], []
    steep = dr > dc
    if not steep:
        r, c = r0, c0
        sr = 1 if r1 > r0 else -1
        sc = 1 if c1 > c0 else -1
        d = 2 * dr - dc
        for _ in range(dc):
            rr.append(r)
            cc.append(c)
            while d >= 0:
                r += sr
                d -= 2 * dc
            c += sc
            d += 2 * dr
    else:
        r, c = r0, c0
        sr = 1 if r1 > r0 else -1
        sc = 1 if c1 > c0 else -1
        d = 2 * dc - dr
        for _ in range(dr):
            rr.append(r)
            cc.append(c)
            while d >= 0:
                c += sc
                d -= 2 * dr
            r += sr
            d += 2 * dc
    rr.append(r1)
    cc.append(c1)
    return np.array(rr, dtype=np.int64), np.array(cc, dtype=np.int64)


def sk_polygon(r, c, shape=None):
    r = [int(v) for v in r]
    c = [int(v) for v in c]
    ring = list(zip(r, c))
    if ring[0] != ring[-1]:
        ring.append(ring[0])
    rr, cc = [], []
    for i in range(min(r), max(r) + 1):
        for j in range(min(c), max(c) + 1):
            if _cring_inside(ring, i, j) or _cring_on(ring, i, j):
                rr.append(i)
                cc.append(j)
    return np.array(rr, dtype=np.int64), np.array(cc, dtype=np.int64)


_cring_inside, _cring_on = _ring_inside, _ring_on


def sk_perimeter(r, c, shape=None, clip=False):
    r = [int(v) for v in r]
    c = [int(v) for v in c]
    ring = list(zip(r, c))
    if ring[0] != ring[-1]:
        ring.append(ring[0])
    rr, cc = [], []
    for a, b in zip(ring[:-1], ring[1:]):
        x, y = sk_line(a[0], a[1], b[0], b[1])
        rr.extend(int(v) for v in x)
        cc.extend(int(v) for v in y)
    return np.array(rr, dtype=np.int64), np.array(cc, dtype=np.int64)


def find_boundaries(label_img, connectivity=1, mode='thick', background=0):
    """mode 'outer' of a boolean mask: background pixels and object pixels next to one another; 'outer' marks
    background pixels adjacent to the object"""
    a = [[bool(v) for v in row] for row in label_img]
    n, m = len(a), len(a[0])
    out = [[False] * m for _ in range(n)]
    for i in range(n):
        for j in range(m):
            nb = [(i + 1, j), (i - 1, j), (i, j + 1), (i, j - 1)]
            if not a[i][j] and any(0 <= x < n and 0 <= y < m and a[x][y] for x, y in nb):
                out[i][j] = True
    return np.array(out, dtype=np.bool_)


def install_skimage():
    _mod('skimage')
    _mod('skimage.draw', line=sk_line, polygon=sk_polygon, polygon_perimeter=sk_perimeter)
    _mod('skimage.segmentation', find_boundaries=find_boundaries)


# ---------------------------------------------------------------------------------------------------------------- #
# randomness: every draw is a harness input

class Random(object):
    def _n(self, size):
        if size is None:
            return None
        if isinstance(size, (tuple, list)):
            return tuple(int(s) for s in size)
        return (int(size),)

    def _fill(self, size, one):
        sh = self._n(size)
        if sh is None:
            return one()
        n = 1
        for s in sh:
            n *= s
        return np.array([one() for _ in range(n)]).reshape(sh)

    def _u(self):
        S = _S()
        if 'u' in HOOKS:
            return HOOKS['u']()
        x = S.draw(0, 1, 'random')
        S.assume(x < 1)
        return x

    def random(self, size=None):
        r = self._fill(size, self._u)
        LOG.append(('random', r))
        return r

    def rand(self, *shape):
        return self.random(shape or None)

    def uniform(self, low=0.0, high=1.0, size=None):
        r = self._fill(size, lambda: low + (high - low) * self._u())
        LOG.append(('uniform', dict(low=low, high=high, size=size, result=r)))
        return r

    def exponential(self, scale=1.0, size=None):
        S = _S()
        def one():
            e = S.pos('exponential#%d' % self._count(), 40)
            if 'exponential' in HOOKS:
                HOOKS['exponential'](e)
            return scale * e
        r = self._fill(size, one)
        LOG.append(('exponential', dict(scale=scale, result=r)))
        return r

    def _count(self):
        S = _S()
        S.ndraw += 1
        return S.ndraw

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._fill(size, lambda: loc + scale * _S().draw(-40, 40, 'normal'))

    def randint(self, low, high=None, size=None, **k):
        if high is None:
            low, high = 0, low
        return self._fill(size, lambda: _S().draw_int(low, int(high) - 1, 'randint'))

    def choice(self, a, size=None, replace=True, p=None):
        S = _S()
        xs = list(range(int(a))) if not hasattr(a, '__len__') else list(a)
        LOG.append(('choice', dict(a=a, p=p, size=size)))
        one = lambda: xs[int(S.draw_int(0, len(xs) - 1, 'choice'))] if len(xs) > 1 else xs[0]
        return self._fill(size, one)

    def _perm(self, name, n):
        given = HOOKS.get('permutation')      # a harness with many elements gives one order
        return given(n) if given else _S().permutation('%s#%d' % (name, self._count()), range(n))

    def shuffle(self, x):
        perm = self._perm('shuffle', len(x))
        vals = [x[i] for i in perm]
        for i, v in enumerate(vals):
            x[i] = v
        LOG.append(('order', list(vals)))

    def permutation(self, x):
        xs = list(range(int(x))) if not hasattr(x, '__len__') else [x[i] for i in range(len(x))]
        vals = [xs[i] for i in self._perm('perm', len(xs))]
        LOG.append(('order', list(vals)))
        return np.array(vals)

    def seed(self, *a):
        pass

    def namespace(self):
        m = types.ModuleType('numpy.random')
        for n in ('random', 'rand', 'uniform', 'exponential', 'normal', 'randint', 'choice', 'shuffle', 'permutation', 'seed'):
            setattr(m, n, getattr(self, n))
        m.random_sample = m.sample = m.ranf = self.random
        m.randn = lambda *s: self.normal(size=s or None)
        m.standard_normal = lambda size=None: self.normal(size=size)
        m.standard_exponential = lambda size=None: self.exponential(size=size)
        return m


# ---------------------------------------------------------------------------------------------------------------- #
# np.save / np.load of symbolic arrays: the file holds a token

STORE = {}


def np_save(file, arr, *a, **k):
    arr = np.asarray(arr)
    key = 'symx-npy-%d' % len(STORE)
    STORE[key] = arr.copy()
    if hasattr(file, 'write'):
        file.write(key.encode())
        return
    file = os.fspath(file)
    if not file.endswith('.npy'):
        file += '.npy'
    with open(file, 'w') as f:
        f.write(key)


def np_load(file, *a, **k):
    if hasattr(file, 'read'):
        key = file.read().decode()
    else:
        with open(os.fspath(file)) as f:
            key = f.read()
    if key not in STORE:
        raise ValueError('Cannot load file containing pickled data when allow_pickle=False')
    return STORE[key].copy()
