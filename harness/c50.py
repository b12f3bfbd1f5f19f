"""C50 cells of a grid that a geometry covers"""
import math
from shapely.geometry import Point, LineString, LinearRing, Polygon, MultiPoint, MultiLineString, MultiPolygon, GeometryCollection
from crowddynamics.core.geometry import draw_geom
from crowddynamics.core.steering.quickest_path import meshgrid
from symx.reg import harness

ROWS, COLS = 8, 9


def mesh(step, origin):
    """COLS x ROWS cells; the far corner half a cell before the last node"""
    x, y = origin
    m = meshgrid(step, x, y, x + (COLS - 1.5) * step, y + (ROWS - 1.5) * step)
    assert tuple(m.shape) == (ROWS, COLS)
    return m


def cell(z):
    return int(math.floor(z))


def box(x0, y0, x1, y1):
    return [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]


def block(x0, y0, x1, y1):
    return {(i, j) for i in range(cell(y0), cell(y1) + 1) for j in range(cell(x0), cell(x1) + 1)}


def rim(x0, y0, x1, y1):
    return {(i, j) for i, j in block(x0, y0, x1, y1) if i in (cell(y0), cell(y1)) or j in (cell(x0), cell(x1))}


SHAPES = {}


def shape(f):
    SHAPES[f.__name__] = f
    return f


# every shape: geometry in units of cells -> (geometry, cells it covers)

@shape
def rectangle(S, put):
    x0, y0 = S.real('x0', 0, 4.875), S.real('y0', 1.125, 2.875)
    x1, y1 = S.real('x1', 5.0625, 7.375), S.real('y1', 3, 6.375)
    b = (x0, y0, x1, y1)
    return Polygon(put(box(*b))), block(*b)


@shape
def small(S, put):
    """a box anywhere, narrower than a cell"""
    x, y = S.real('x', 0.5, 6.75), S.real('y', 0.5, 5.75)
    b = (x, y, x + 0.375, y + 0.5)
    return Polygon(put(box(*b))), block(*b)


@shape
def corner(S, put):
    """a box without one of its quarters"""
    x, y = S.real('x', 3.125, 4.875), S.real('y', 2.125, 3.875)
    pts = [(1.5, 1.25), (6.5, 1.25), (6.5, y), (x, y), (x, 5.5), (1.5, 5.5)]
    return Polygon(put(pts)), block(1.5, 1.25, 6.5, y) | block(1.5, 1.25, x, 5.5)


def frame(S, name, outer, lo, hi, slack):
    """a box with a hole whose corners are anywhere within the slack"""
    h = (S.real(name + 'hx0', lo[0], lo[0] + slack), S.real(name + 'hy0', lo[1], lo[1] + slack),
         S.real(name + 'hx1', hi[0], hi[0] + slack), S.real(name + 'hy1', hi[1], hi[1] + slack))
    return outer, h, (block(*outer) - block(*h)) | rim(*outer) | rim(*h)


@shape
def hole(S, put):
    outer, h, cells = frame(S, '', (0.5, 0.5, 7.25, 6.25), (1.25, 1.5), (4.25, 3.5), 1.5)
    return Polygon(put(box(*outer)), [put(box(*h))]), cells


@shape
def wall(S, put):
    """walls thinner than a cell"""
    e = S.real('e', 0.03125, 0.25)
    outer = (0.5, 0.5, 7.25, 6.25)
    h = (0.5 + e, 0.5 + e, 7.25 - e / 2, 6.25 - e / 2)
    return Polygon(put(box(*outer)), [put(box(*h))]), rim(*outer) | rim(*h)


@shape
def holes(S, put):
    outer = (0.25, 0.25, 7.25, 6.25)
    a = (1.25, 1.5, S.real('ax', 2.125, 3.875), 4.5)
    b = (5.125, S.real('by', 1.125, 2.875), 6.75, 5.5)
    cells = (block(*outer) - block(*a) - block(*b)) | rim(*outer) | rim(*a) | rim(*b)
    return Polygon(put(box(*outer)), [put(box(*a)), put(box(*b))]), cells


def island(S, put, order):
    """a ring of walls around a pillar, in either order"""
    outer, h, cells = frame(S, '', (0.5, 0.5, 7.25, 6.25), (1.25, 1.5), (5.25, 4.5), 0.5)
    p = (3.25, S.real('py', 2.125, 2.875), S.real('px', 3.5, 4.5), 3.5)
    parts = [Polygon(put(box(*outer)), [put(box(*h))]), Polygon(put(box(*p)))]
    return MultiPolygon(parts[::order]), cells | block(*p)


@shape
def island_last(S, put):
    return island(S, put, 1)


@shape
def island_first(S, put):
    return island(S, put, -1)


@shape
def collection(S, put):
    """a pillar, a wall line and a place inside of a room, nested"""
    outer, h, cells = frame(S, '', (0.5, 0.5, 7.25, 6.25), (1.25, 1.5), (5.25, 4.5), 0.5)
    y = S.real('ly', 2.125, 3.875)
    p = (4.125, 2.25, 4.5, S.real('py', 2.5, 3.75))
    line = LineString(put([(2.5, y), (S.real('lx', 2.625, 3.75), y)]))
    room = Polygon(put(box(*outer)), [put(box(*h))])
    g = GeometryCollection([line, GeometryCollection([Polygon(put(box(*p))), Point(put([(3.5, 3.5)])[0])]), room])
    return g, cells | block(*p) | along(put, line)


def along(put, line):
    (ax, ay), (bx, by) = put.back(line.coords[0]), put.back(line.coords[-1])
    return block(ax, ay, bx, by)


@shape
def lines(S, put):
    x, y = S.real('x', 0.0625, 7.375), S.real('y', 0.0625, 6.375)
    g = MultiLineString([put([(x, 0.5), (x, 5.5)]), put([(0.5, y), (3.5, y), (3.5, 1.5)])])
    lo, hi = (y, 1.5) if y < 1.5 else (1.5, y)
    return g, block(x, 0.5, x, 5.5) | block(0.5, y, 3.5, y) | block(3.5, lo, 3.5, hi)


@shape
def ring(S, put):
    b = (S.real('x', 0.125, 2.875), 1.5, 5.5, S.real('y', 3.125, 6.25))
    return LinearRing(put(box(*b))), rim(*b)


@shape
def points(S, put):
    return MultiPoint(put([(S.real('x', 0, 7.25), 2.5), (3.5, S.real('y', 0, 6.25))])), set()


@shape
def many(S, put):
    """14 pillars and lines within single cells, one of them anywhere"""
    parts, cells = [], set()
    for i in range(13):
        x, y = 0.25 + i % 7, 0.25 + 2 * (i // 7)
        parts.append(Polygon(put(box(x, y, x + 0.5, y + 0.5))) if i % 2 else LineString(put([(x, y), (x + 0.5, y + 0.25)])))
        cells |= block(x, y, x + 0.5, y + 0.5)
    x, y = S.real('x', 0.25, 6.75), 5.25
    parts.append(Polygon(put(box(x, y, x + 0.375, y + 0.5))))
    return GeometryCollection(parts), cells | block(x, y, x + 0.375, y + 0.5)


class Put(object):
    """cells to coordinates"""

    def __init__(self, step, origin):
        self.step, self.origin = step, origin

    def __call__(self, pts):
        return [(self.origin[0] + x * self.step, self.origin[1] + y * self.step) for x, y in pts]

    def back(self, p):
        return (p[0] - self.origin[0]) / self.step, (p[1] - self.origin[1]) / self.step


STEPS = [(1.0, (0.0, 0.0)), (0.5, (-2.0, 3.0)), (0.125, (8.0, -4.5))]


@harness(configs=[dict(kind=k, s=i % 3) for i, k in enumerate(sorted(SHAPES))], thorough=[dict(kind=k, s=s) for k in sorted(SHAPES) for s in range(3)],
         bounds='grids of 9 x 8 cells of three sizes and places; boxes, angled shapes, rings, walls of any thickness, up to two holes, a pillar within a hole drawn before or after it, nested collections, '
                'lines along the axes; corners anywhere in one to eight cells')
def cells(S, kind, s):
    step, origin = STEPS[s]
    m = mesh(step, origin)
    geom, want = SHAPES[kind](S, Put(step, origin))
    value = S.real('value', -9, 9)
    grid = S.np.array([[100.0 * i + j for j in range(COLS)] for i in range(ROWS)])
    got = draw_geom(geom, grid, m.indicer, value)
    S.check('drawn in place', got is None)
    for i in range(ROWS):
        for j in range(COLS):
            if (i, j) in want:
                S.check('cell of the geometry', S.eq(grid[i, j], value))
            else:
                S.check('any other cell', S.eq(grid[i, j], 100.0 * i + j))
    mask = S.np.zeros((ROWS, COLS), dtype=bool)
    draw_geom(geom, mask, m.indicer, True)
    S.check('the same cells of a mask', all(bool(mask[i, j]) == ((i, j) in want) for i in range(ROWS) for j in range(COLS)))


@harness(configs=[dict(a=a, b=b) for a, b in (((1, 1), (6, 4)), ((6, 5), (1, 3)), ((2, 6), (4, 0)), ((5, 1), (2, 4)), ((3, 3), (3, 3)))],
         bounds='sloping lines between any points of two cells')
def slope(S, a, b):
    step, origin = STEPS[1]
    m = mesh(step, origin)
    put = Put(step, origin)
    p = [(c[0] + S.real(n + 'x', 0.0625, 0.9375), c[1] + S.real(n + 'y', 0.0625, 0.9375)) for n, c in (('a', a), ('b', b))]
    mask = S.np.zeros((ROWS, COLS), dtype=bool)
    draw_geom(LineString(put(p)), mask, m.indicer, True)
    got = [(j, i) for i in range(ROWS) for j in range(COLS) if bool(mask[i, j])]
    dx, dy = b[0] - a[0], b[1] - a[1]
    n = max(abs(dx), abs(dy))
    S.check('both ends', tuple(a) in got and tuple(b) in got)
    S.check('one cell per column (or row) in between', len(got) == n + 1)
    S.check('along the line', all(abs(dx * (y - a[1]) - dy * (x - a[0])) * 2 <= max(n, 1) for x, y in got))


@harness(bounds='a text, a number, nothing')
def others(S):
    m = mesh(1.0, (0.0, 0.0))
    for x in ('text', 3, None):
        grid = S.np.zeros((ROWS, COLS))
        S.check('refused', S.raises(TypeError, draw_geom, x, grid, m.indicer, 1.0) is not None)
