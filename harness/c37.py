"""C37 density measures"""
import itertools
import math
from types import SimpleNamespace
from shapely.geometry import Polygon
from crowddynamics.core import quantities as q
from crowddynamics.core.geom2D import polygon_area
from symx import stubs
from symx.reg import harness


def points(S, n, box, step=None):
    p = S.np.zeros((n, 2))
    for i in range(n):
        for c in (0, 1):
            lo, hi = box[c]
            p[i, c] = S.real('p%d%s' % (i, 'xy'[c]), lo, hi)
    return p


def cells(S, p, size):
    """integer cell of every point (one path per arrangement)"""
    out = []
    for i in range(len(p)):
        k = []
        for c in (0, 1):
            f = S.np.floor(p[i, c] / size)
            k.append(int(f))
        out.append(tuple(k))
    return out


def grid_of(ks):
    lo = [min(k[c] for k in ks) for c in (0, 1)]
    hi = [max(k[c] for k in ks) for c in (0, 1)]
    return lo, (hi[0] - lo[0] + 1, hi[1] - lo[1] + 1)


WIDE, FLAT = ((-1.4, 0.9), (-1.1, 0.9)), ((-1.4, 0.9), (-0.25, 0.25))


@harness(configs=[dict(n=n, size=s) for n, s in [(1, 1.0), (2, 1.0), (2, 0.5), (3, 1.0), (2, 0.0625)]], thorough=[dict(n=n, size=s) for n, s in [(1, 0.25), (2, 0.5), (3, 1.0), (3, 0.75), (4, 1.0)]],
         bounds='up to 3 (thorough: 4) points in [-1.4, 0.9] x [-1.1, 0.9] (three or more: in a band across the x axis), cells of 1 and 0.5, and of 1/16 in a small region')
def classical(S, n, size):
    p = points(S, n, ((-0.09, 0.1), (0.4, 0.49)) if size < 0.1 else WIDE if n < 3 else FLAT)
    keep = p.copy()
    d = q.density_classical(p, size)
    ks = cells(S, p, size)
    lo, shape = grid_of(ks)
    S.check('one entry per cell of the bounding grid', tuple(d.shape) == shape)
    for i in range(shape[0]):
        for j in range(shape[1]):
            S.equal('points of the cell over its area', d[i, j] * size * size, sum(1 for k in ks if k == (lo[0] + i, lo[1] + j)))
    S.equal('points kept', p, keep)
    S.observe('density', d)


@harness(configs=[dict(n=n) for n in (140, 300)], thorough=[dict(n=n) for n in (140, 300, 70000)], bounds='crowds of 140 and 300 (thorough: 70000) in one cell, one more agent anywhere in [-1.4, 1.4]')
def crowded(S, n):
    x = S.real('x', -1.4, 1.4)
    p = S.np.array([[0.25 + 0.5 * i / n, 0.125] for i in range(n)] + [[x, 0.5]])
    d = q.density_classical(p, 1.0)
    c = q._core_2(p, 1.0, S.np.array([0.25] * (n + 1)), S.np.arange(n + 1))
    k = int(S.np.floor(x))
    lo = min(k, 0)
    for name, got, unit in (('classical', d, 1), ('core', c, 0.25)):
        S.check('one entry per cell of the bounding grid', tuple(got.shape) == (abs(k) + 1, 1))
        for i in range(abs(k) + 1):
            m = (n if lo + i == 0 else 0) + (1 if lo + i == k else 0)
            S.equal(name, got[i, 0], m if name == 'classical' else 4.0 if m else 0.0)


@harness(configs=[dict(n=n, dim=d) for n in (1, 2, 3) for d in (1, 2, 3)], bounds='up to three points in up to three dimensions, components in [-50, 50]')
def box(S, n, dim):
    p = S.np.array([[S.real('p%d_%d' % (i, c), -50, 50) for c in range(dim)] for i in range(n)])
    b = q.bounding_box(p)
    S.check('shape', tuple(b.shape) == (dim, 2))
    for c in range(dim):
        S.check('bounds', S.and_(*[S.between(b[c, 0], p[i, c], b[c, 1]) for i in range(n)]))
        S.check('attained', S.and_(*[S.or_(*[S.eq(b[c, k], p[i, c]) for i in range(n)]) for k in (0, 1)]))


@harness(configs=[dict(n=n, size=s) for n, s in [(1, 1.0), (2, 0.5), (2, 2.0), (3, 1.0)]], thorough=[dict(n=n, size=s) for n, s in [(2, 0.5), (3, 1.0), (3, 0.75)]],
         bounds='as for classical, any region areas (also very small and large) and region numbers')
def core(S, n, size):
    p = points(S, n, WIDE if n < 3 else FLAT)
    area = S.np.array([S.pos('area%d' % i, (9, 1e6, 1e-3)[i]) for i in range(n)])
    region = S.np.array(S.choice('region', [list(range(1, n + 1)), list(range(n, 0, -1))]))
    d = q._core_2(p, size, area, region)
    second(S, d, p, size, area)


def second(S, d, p, size, area):
    ks = cells(S, p, size)
    lo, shape = grid_of(ks)
    S.check('one entry per cell of the bounding grid', tuple(d.shape) == shape)
    for i in range(shape[0]):
        for j in range(shape[1]):
            mine = [k for k in range(len(ks)) if ks[k] == (lo[0] + i, lo[1] + j)]
            if mine:
                S.equal('points of the cell over the area of their regions', d[i, j] * S.sum([area[k] for k in mine]), len(mine))
            else:
                S.equal('no points', d[i, j], 0)
    S.observe('density', d)


def strips(S, p, xs, order, low=-2.0, high=2.0):
    """stand-in for qhull: finite rectangular region number k between xs[k] and xs[k + 1]; order[k]: region of point k"""
    vertices = []
    for x in xs:
        vertices += [[x, low], [x, high]]
    regions = [[]] + [[2 * k, 2 * k + 2, 2 * k + 3, 2 * k + 1] for k in range(len(xs) - 1)]
    extra = [len(regions) + k for k in range(len(p) - len(order))]          # any further points are far away
    regions += [[-1, 0, 1]] * len(extra)
    return SimpleNamespace(points=p, vertices=S.np.array(vertices), regions=regions, point_region=S.np.array([1 + k for k in order] + extra),
                           ridge_points=S.np.zeros((0, 2), dtype=S.np.int64), ridge_vertices=[])


def overlap(a, b):
    """intersection of upright rectangles"""
    (x0, y0, x1, y1), (u0, v0, u1, v1) = a.bounds, b.bounds
    lo = [x0 if x0 > u0 else u0, y0 if y0 > v0 else v0]
    hi = [x1 if x1 < u1 else u1, y1 if y1 < v1 else v1]
    if hi[0] <= lo[0] or hi[1] <= lo[1]:
        return Polygon()
    return Polygon([(lo[0], lo[1]), (lo[0], hi[1]), (hi[0], hi[1]), (hi[0], lo[1])])


@harness(configs=[dict(order=o) for o in ((0, 1, 2), (2, 0, 1))], bounds='three points in their own strips of any width, point order in two ways, negative and positive cells')
def second_density(S, order):
    xs = [-1.5, S.real('cut0', -0.9, -0.1), S.real('cut1', 0.1, 0.9), 1.5]
    p = S.np.zeros((3, 2))
    for k, r in enumerate(order):
        p[k, 0] = S.real('x%d' % k, (-1.4, -0.05, 0.95)[r], (-0.95, 0.05, 1.4)[r])
        p[k, 1] = S.real('y%d' % k, -0.5, 0.5)
    stubs.HOOKS['voronoi'] = lambda pts: strips(S, pts, xs, order)
    d = q.density_voronoi_2(p, 1.0)
    second(S, d, p, 1.0, [(xs[r + 1] - xs[r]) * 4 for r in order])


@harness(configs=[dict(order=o, size=s) for o, s in [((0, 1, 2), 1.0), ((2, 0, 1), 1.0), ((1, 2, 0), 0.75)]],
         bounds='three points in their own strips of any width, negative and positive cells; strips overlap several cells')
def first_density(S, order, size):
    xs = [-2.0, S.real('cut0', -0.7, -0.1), S.real('cut1', 0.1, 0.7), 2.0]
    p = S.np.zeros((3, 2))
    for k, r in enumerate(order):
        p[k, 0] = 0.0 if r == 1 else S.real('x0', -1.4, -0.8) if r == 0 else S.real('x2', 0.8, 1.4)
        p[k, 1] = (-0.625, 0.25, 0.875)[r]
    stubs.HOOKS['voronoi'] = lambda pts: strips(S, pts, xs, order)
    stubs.HOOKS['intersection'] = overlap
    d = q.density_voronoi_1(p, size)
    x0, x1 = p[order.index(0), 0], p[order.index(2), 0]
    lo = [int(S.np.floor(x0 / size)), int(math.floor(-0.625 / size))]
    hi = [int(S.np.floor(x1 / size)), int(math.floor(0.875 / size))]
    S.check('one entry per cell of the bounding grid', tuple(d.shape) == (hi[0] - lo[0] + 1, hi[1] - lo[1] + 1))
    xs = [x0] + xs[1:3] + [x1]

    def common(a, b, u, v):
        t = S.min([b, v]) - S.max([a, u])
        return S.ite(S.lt(0, t), t, 0.0)
    for i in range(hi[0] - lo[0] + 1):
        for j in range(hi[1] - lo[1] + 1):
            cx, cy = (lo[0] + i) * size, (lo[1] + j) * size
            h = max(0.0, min(0.875, cy + size) - max(-0.625, cy))
            want = S.sum([common(xs[k], xs[k + 1], cx, cx + size) * h / ((xs[k + 1] - xs[k]) * 1.5) for k in range(3)])
            S.equal('share of the regions inside of the cell', d[i, j] * size * size, want)
    S.equal('every point counts once', S.sum([d[i, j] for i in range(d.shape[0]) for j in range(d.shape[1])]) * size * size, 3)


@harness(configs=[dict(tall=t, radius=r) for t in (1.5, 0.5, -1.0) for r in (None, 3.0)] + [dict(tall=t, radius=r, lo=2.125) for t in (1.5, -0.75) for r in (None, 3.0)],
         bounds='three points, two fixed and one anywhere on a line at height 1.5, 0.5, -3/4 or -1; sharp and blunt triangles')
def regions(S, tall, radius, lo=0.125):
    """unbounded regions are closed by points far out on the bisectors"""
    s = S.real('s', lo, lo + 1.75)
    p = S.np.array([[0.0, 0.0], [2.0, 0.0], [s, tall]])
    if abs(tall) < 1.0:
        S.assume(S.or_(S.lt(s, 0.9), S.lt(1.1, s)))
    cy = (s * s - 2 * s + tall * tall) / (2 * tall)
    number = (2, 3, 1)
    vor = SimpleNamespace(points=p, vertices=S.np.array([[1.0, cy]]), regions=[[]] + [[-1, 0]] * 3, point_region=S.np.array(number),
                          ridge_points=S.np.array([[0, 1], [2, 0], [1, 2]]), ridge_vertices=[[-1, 0], [-1, 0], [-1, 0]])
    polys, v = q.voronoi_finite_polygons_2d(vor, radius)
    S.check('one region per point', len(polys) == 3 and all(len(r) == 3 and 0 in r for r in polys))
    far = radius if radius is not None else 2 * S.max([abs(S.max([p[i, c] for i in range(3)]) - S.min([p[i, c] for i in range(3)])) for c in (0, 1)])
    for k in range(3):
        out = [v[i] for i in polys[k] if i != 0]
        for o in out:
            d = [S.dot(o - p[i], o - p[i]) for i in range(3)]
            S.check('on a bisector of the point', S.or_(*[S.eq(d[k], d[m]) for m in range(3) if m != k]))
            if radius is not None:
                w = o - v[0]
                S.equal('at the distance asked for', S.dot(w, w), radius * radius)
                S.check('nearest to the point', S.and_(*[S.le(d[k], d[m]) for m in range(3)]))
        a, b, c = [v[i] for i in polys[k]]
        S.check('counterclockwise', S.le(0, S.cross(b - a, c - a)))


def diagram(S, p):
    """stand-in for qhull: the Voronoi diagram of a few fixed points"""
    P = [(float(q[0]), float(q[1])) for q in p]
    n = len(P)
    vertices, edges, mine = [], {}, {k: [] for k in range(n)}
    for t in itertools.combinations(range(n), 3):
        (ax, ay), (bx, by), (cx, cy) = [P[k] for k in t]
        d = 2 * ((bx - ax) * (cy - ay) - (by - ay) * (cx - ax))
        if d == 0:
            continue
        b2, c2 = (bx - ax) ** 2 + (by - ay) ** 2, (cx - ax) ** 2 + (cy - ay) ** 2
        ux, uy = ((cy - ay) * b2 - (by - ay) * c2) / d, ((bx - ax) * c2 - (cx - ax) * b2) / d
        if all((x - ax - ux) ** 2 + (y - ay - uy) ** 2 > (ux * ux + uy * uy) * (1 - 1e-12) for k, (x, y) in enumerate(P) if k not in t):
            for e in itertools.combinations(t, 2):
                edges.setdefault(e, []).append(len(vertices))
            for k in t:
                mine[k].append(len(vertices))
            vertices.append((ax + ux, ay + uy))
    regions = [[]]
    for k in range(n):
        c = [sum(vertices[i][m] for i in mine[k]) / len(mine[k]) for m in (0, 1)]
        r = sorted(mine[k], key=lambda i: math.atan2(vertices[i][1] - c[1], vertices[i][0] - c[0]))
        regions.append(([-1] if any(len(v) == 1 for e, v in edges.items() if k in e) else []) + r)
    return SimpleNamespace(points=p, vertices=S.np.array([list(v) for v in vertices]), regions=regions, point_region=S.np.array(list(range(1, n + 1))),
                           ridge_points=S.np.array([list(e) for e in edges]), ridge_vertices=[([-1] + v)[-2:] for v in edges.values()])


def clip(ring, inside, cut):
    out = []
    for a, b in zip(ring, ring[1:] + ring[:1]):
        if inside(a):
            out.append(a)
        if inside(a) != inside(b):
            out.append(cut(a, b))
    return out


def within(ring, box):
    """part of a convex polygon inside of a box"""
    for c in (0, 1):
        for sign, v in ((1, box[c]), (-1, box[c + 2])):
            def cut(a, b):
                t = (v - a[c]) / (b[c] - a[c])
                q = [a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])]
                q[c] = v
                return tuple(q)
            ring = clip(ring, lambda q: sign * (q[c] - v) >= 0, cut)
    return ring


def size_of(ring):
    return abs(sum(a[0] * b[1] - a[1] * b[0] for a, b in zip(ring, ring[1:] + ring[:1]))) / 2


CROWDS = [[(0.0, 0.0), (2.0, 0.125), (1.0, 0.25)], [(0.0, 0.0), (4.0, 0.0), (1.25, 0.0625), (2.5, -0.03125)], [(-1.0, -0.5), (0.75, 1.0), (0.25, -0.25)],
          [(-0.0625, -3.0), (0.0625, 1.0), (0.0, -1.125), (0.03125, 0.25), (-0.03125, -2.0)], [(0.0, 0.0), (1.0, 0.0), (0.9375, 0.5), (0.25, 1.125), (0.5, 0.5625)]]


@harness(configs=[dict(k=k, size=s) for k, s in ((0, 0.5), (1, 1.0), (2, 1.0), (3, 1.0), (4, 0.5))], thorough=[dict(k=k, size=s) for k in range(5) for s in (0.5, 0.75, 1.0)],
         bounds='five fixed crowds of three to five points, also in thin and blunt shapes; any place in the bounding box')
def shares(S, k, size):
    """the regions in the bounding box are those of the nearest point"""
    P = CROWDS[k]
    n = len(P)
    p = S.np.array([list(q) for q in P])
    box = [min(q[0] for q in P), min(q[1] for q in P), max(q[0] for q in P), max(q[1] for q in P)]
    rings = []

    def meet(a, b):
        rs = [[(float(q[0]), float(q[1])) for q in g._all()] for g in (a, b)]
        for r in rs:
            if len(r) > 1 and r[0] == r[-1]:
                r.pop()
        bounds = [(min(q[0] for q in r), min(q[1] for q in r), max(q[0] for q in r), max(q[1] for q in r)) for r in rs]
        upright = [len(r) == 4 and all(q[0] in (e[0], e[2]) and q[1] in (e[1], e[3]) for q in r) for r, e in zip(rs, bounds)]
        w = 1 if upright[1] else 0
        if list(bounds[w]) == box:
            rings.append(rs[1 - w])
        r = within(rs[1 - w], bounds[w])
        return Polygon(r) if len(r) > 2 and size_of(r) > 0 else Polygon()
    stubs.HOOKS['voronoi'] = lambda pts: diagram(S, pts)
    stubs.HOOKS['intersection'] = meet
    d = q.density_voronoi_1(p, size)
    S.check('one region per point', len(rings) == n)
    x = S.np.array([S.real('x', box[0], box[2]), S.real('y', box[1], box[3])])
    order = []
    for r in rings:
        inside = [i for i in range(n) if all((b[0] - a[0]) * (P[i][1] - a[1]) - (b[1] - a[1]) * (P[i][0] - a[0]) > -1e-9 for a, b in zip(r, r[1:] + r[:1]))]
        S.check('region of a point', len(inside) == 1)
        order.append(inside[0])
    S.check('one region for each point', sorted(order) == list(range(n)))
    for k, r in zip(order, rings):
        far = [S.dot(x - p[m], x - p[m]) - S.dot(x - p[k], x - p[k]) for m in range(n) if m != k]
        sides = [(b[0] - a[0]) * (x[1] - a[1]) - (b[1] - a[1]) * (x[0] - a[0]) for a, b in zip(r, r[1:] + r[:1])]
        S.check('places nearest to the point are inside', S.implies(S.and_(*[S.le(1e-6, v) for v in far]), S.and_(*[S.le(-1e-6, v) for v in sides])))
        S.check('places nearest to others are outside', S.implies(S.and_(*[S.le(1e-6, v) for v in sides]), S.and_(*[S.le(-1e-6, v) for v in far])))
    total = sum(float(d[i, j]) for i in range(d.shape[0]) for j in range(d.shape[1])) * size * size
    S.check('every point counts once', abs(total - n) < 1e-6)
