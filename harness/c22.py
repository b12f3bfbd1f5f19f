"""C22 sampling of shapes"""
from crowddynamics.core.sampling import (random_sample_triangle, random_sample_line, polygon_sample, linestring_sample,
                                         triangle_area_cumsum, linestring_length_cumsum)
from symx import stubs
from symx.reg import harness


def numbers(S):
    """the uniform draws so far"""
    out = []
    for name, r in stubs.LOG:
        if name in ('random', 'uniform'):
            r = r['result'] if name == 'uniform' else r
            out += [r[i] for i in range(len(r))] if hasattr(r, '__len__') else [r]
    return out


def inside_triangle(S, p, a, b, c):
    d = S.cross(b - a, c - a)
    w = [S.cross(b - p, c - p), S.cross(c - p, a - p), S.cross(a - p, b - p)]
    if S.branch(S.lt(d, 0)):
        w = [-x for x in w]
    return S.and_(*[S.le(0, x) for x in w])


def on_segment(S, p, a, b):
    return S.and_(S.eq(S.cross(b - a, p - a), 0), S.between(0, S.dot(b - a, p - a), S.dot(b - a, b - a)))


TRIANGLES = [((0, 0), (3, 1), (1, 4)), ((-2, 5), (-3, -1), (4, 0.5)), ((1, 1), (1, 6), (1.5, 2)), ((0, 0), (0, -4), (-4, 0))]


@harness(configs=[dict(k=k) for k in range(4)], bounds='four triangles of both orientations with one corner anywhere in [-4, 4]^2 (no zero area), all draws')
def triangle(S, k):
    S.coarse(100)
    a, b, c = [S.np.array(p, dtype=S.np.float64) for p in TRIANGLES[k]]
    if k == 1:
        b = S.vec('b', -4, 4)
    elif k == 2:
        c = S.vec('c', -4, 4)
    elif k == 3:
        a = S.vec('a', -4, 4)
    S.assume(S.ne(S.cross(b - a, c - a), 0))
    stubs.LOG[:] = []
    p = random_sample_triangle(a, b, c)
    S.check('inside the triangle', inside_triangle(S, p, a, b, c))
    r = numbers(S)
    if k == 0 and len(r) == 2 and S.branch(S.and_(S.between(0.125, r[0], 0.25), S.between(0.0625, r[1], 0.125))):
        S.check('not only on the edges', S.and_(*[S.ne(S.cross(v - u, p - u), 0) for u, v in ((a, b), (b, c), (c, a))]))
    S.observe('p', p)


@harness(bounds='any segment with end points in [-5, 5]^2, all draws')
def line(S):
    a, b = S.vec('a', -5, 5), S.vec('b', -5, 5)
    stubs.LOG[:] = []
    p = random_sample_line(a, b)
    S.check('on the segment', on_segment(S, p, a, b))
    r = numbers(S)
    if len(r) == 1:  # every place equally likely
        S.check('fraction of the segment', S.or_(S.eq(p - a, r[0] * (b - a)), S.eq(p - b, r[0] * (a - b))))
    S.observe('p', p)


POLYGONS = [[(0, 0), (4, 0), (4, 3), (0, 5)], [(0, 0), (-1, 4), (-6, 5), (-6, -1), (-3, -2)], [(0, 0), (8, 0), (8, 1), (0, 1)]]
MESH = [[(0, 1, 2), (0, 2, 3)], [(2, 1, 0), (4, 2, 0), (2, 3, 4)], [(1, 3, 2), (1, 0, 3)]]


@harness(configs=[dict(k=k) for k in range(3)],
         bounds='three convex polygons with up to 5 corners (one with a symbolic corner), a triangulation of up to 3 triangles in mixed orientation, all draws, two samples')
def polygon(S, k):
    S.coarse(100)
    vs = S.np.array(POLYGONS[k], dtype=S.np.float64)
    if k == 2:
        vs[2] = S.vec('corner', 6, 9)
        vs[2, 1] = vs[2, 1] - 5
        S.assume(S.and_(S.lt(0, S.cross(vs[2] - vs[1], vs[3] - vs[2])), S.lt(0, S.cross(vs[1] - vs[0], vs[2] - vs[1])),
                        S.lt(0, S.cross(vs[3] - vs[2], vs[0] - vs[3]))))
    keep = vs.copy()
    stubs.HOOKS['delaunay'] = lambda pts: MESH[k]
    areas = []
    for t in MESH[k]:
        c = S.cross(vs[t[1]] - vs[t[0]], vs[t[2]] - vs[t[0]])
        areas.append(S.ite(S.lt(c, 0), -c, c))
    gen = polygon_sample(vs)
    for turn in range(2 if k == 0 else 1):
        stubs.LOG[:] = []
        p = next(gen)
        draws = numbers(S)
        S.check('draws', len(draws) == 3)
        x, r1, r2 = draws
        part = pick(S, x, areas)
        S.check('inside the triangle chosen by area', inside_triangle(S, p, *[vs[i] for i in MESH[k][part]]))
        S.observe('p', p)
    S.check('vertices kept', S.eq(keep, vs))


def pick(S, x, sizes):
    """part chosen by a draw x of [0, 1): intervals proportional to the sizes (the boundaries are left open)"""
    total = S.sum(sizes)
    upto = 0
    for i, s in enumerate(sizes):
        upto = upto + s
        if i == len(sizes) - 1 or S.branch(S.lt(x * total, upto)):
            return i
        S.assume(S.lt(upto, x * total))


STRINGS = [[(0, 0), (3, 4), (3, 2)], [(0, 0), (-5, 12), (-5, 9), (11, 9)], [(1, 1), (1, 2), (9, 2), (9, 3), (3, 3)]]


@harness(configs=[dict(k=k) for k in range(3)], bounds='three open lines of up to 4 segments, one with its last point anywhere in a box, all draws, two samples')
def linestring(S, k):
    S.coarse(100)
    vs = S.np.array(STRINGS[k], dtype=S.np.float64)
    if k == 0:
        vs[2] = S.vec('end', 4, 9)
    keep = vs.copy()
    sizes = [S.norm(vs[i + 1] - vs[i]) for i in range(len(vs) - 1)]
    gen = linestring_sample(vs)
    for turn in range(2):
        stubs.LOG[:] = []
        p = next(gen)
        draws = numbers(S)
        S.check('draws', len(draws) == 2)
        part = pick(S, draws[0], sizes)
        S.check('on the segment chosen by length', on_segment(S, p, vs[part], vs[part + 1]))
        if S.branch(S.between(0.125, draws[1], 0.875)):
            S.check('not only at the ends', S.and_(S.or_(*[S.ne(p[c], vs[part][c]) for c in (0, 1)]), S.or_(*[S.ne(p[c], vs[part + 1][c]) for c in (0, 1)])))
        S.observe('p', p)
    S.check('vertices kept', S.eq(keep, vs))


@harness(configs=[dict(n=n) for n in (1, 2, 3)], bounds='up to 3 triangles or segments with any coordinates in [-4, 4] (for the last; others fixed)')
def sizes(S, n):
    S.coarse(100)
    mesh = S.np.array([TRIANGLES[i] for i in range(n)], dtype=S.np.float64)
    mesh[n - 1] = S.pts('t', 3, -4, 4)
    got = triangle_area_cumsum(mesh)
    want = 0
    for i in range(n):
        a, b, c = mesh[i]
        d = S.cross(b - a, c - a)
        want = want + S.ite(S.lt(d, 0), -d, d) / 2
        S.equal('areas up to each triangle', got[i], want)
    vs = mesh.reshape((3 * n, 2))
    got = linestring_length_cumsum(vs)
    want = 0
    S.check('one length per segment', len(got) == 3 * n - 1)
    for i in range(3 * n - 1):
        want = want + S.norm(vs[i + 1] - vs[i])
        S.equal('lengths up to each segment', got[i], want)


@harness(configs=[dict(n=40, at=k) for k in (0, 20, 39)], thorough=[dict(n=n, at=k) for n in (40, 300) for k in (0, 7, n // 2, n - 1)],
         bounds='lines of 40 and strips of 40 triangles (thorough: also 300) of different sizes, all draws that choose the first, the middle or the last part')
def many(S, n, at):
    S.coarse(100)
    vs = S.np.array([(0.5 * i * (i + 1) / 8, 0.0) for i in range(n + 1)])     # part i is (i + 1) / 8 long
    total = 0.5 * n * (n + 1)
    lo, hi = (0.5 * at * (at + 1) + 0.25) / total, (0.5 * (at + 1) * (at + 2) - 0.25) / total
    for shape in ('line', 'strip'):
        if shape == 'line':
            gen = linestring_sample(vs)
        else:
            # triangle i has area (i + 1) / 8 between y = 0 and y = 2 with its base on one of them in turn
            top, bottom, mesh = [(0.0, 2.0)], [(0.0, 0.0)], []
            pts, last = [(0.0, 2.0), (0.0, 0.0)], [0, 1]
            for i in range(n):
                k = i % 2
                y = 0.0 if k else 2.0
                side = last[1 if k else 0]
                pts.append((pts[side][0] + (i + 1) / 8, y))
                mesh.append((last[0], last[1], len(pts) - 1))
                last[1 if k else 0] = len(pts) - 1
            stubs.HOOKS['delaunay'] = lambda p: mesh
            gen = polygon_sample(S.np.array(pts))
        stubs.LOG[:] = []
        seen = []

        def u():
            x = S.draw(0, 1, 'random')
            S.assume(S.lt(x, 1) if seen else S.between(lo, x, hi))
            seen.append(x)
            return x
        stubs.HOOKS['u'] = u
        p = next(gen)
        if shape == 'line':
            S.check('on the segment chosen by length', on_segment(S, p, vs[at], vs[at + 1]))
        else:
            S.check('inside the triangle chosen by area', inside_triangle(S, p, *[S.np.array(pts[i]) for i in mesh[at]]))
