"""C06 polygon area"""
from crowddynamics.core.geom2D import polygon_area
from symx.reg import harness

SIZES = [dict(n=n) for n in range(0, 7)]
MORE = [dict(n=n) for n in range(0, 13)]


def signed2(v):
    n = len(v)
    return sum(v[i][0] * v[(i + 1) % n][1] - v[(i + 1) % n][0] * v[i][1] for i in range(n))


@harness(configs=SIZES, thorough=MORE, bounds='n vertices in [-100, 100]^2')
def area(S, n):
    v = S.pts('v', n, -100, 100) if n else S.np.zeros((0, 2))
    a = polygon_area(v)
    if n < 3:
        S.equal('fewer than three vertices', a, 0.0)
        return
    s = signed2(v)
    S.check('absolute shoelace value', S.and_(S.le(0, a), S.eq(a, S.ite(S.le(0, s), s / 2, -s / 2))))
    S.observe('a', a)


@harness(configs=SIZES[3:6], thorough=MORE[3:], bounds='n vertices in [-100, 100]^2, shift vector in [-100, 100]^2')
def invariance(S, n):
    v = S.pts('v', n, -100, 100)
    t = S.vec('t', -100, 100)
    a = polygon_area(v)
    w = v.copy()
    S.equal('translation', polygon_area(v + t), a)
    S.equal('reversal', polygon_area(v[::-1].copy()), a)
    S.equal('cyclic shift', polygon_area(S.np.array([v[(i + 1) % n] for i in range(n)])), a)
    S.equal('vertices kept', v, w)


@harness(configs=[dict(n=n, k=k) for n, k in ((40, 0), (40, 21), (40, 39), (130, 70), (260, 255))], thorough=[dict(n=n, k=k) for n in (40, 500) for k in (0, 1, 21, n - 2, n - 1)],
         bounds='40 to 260 (thorough: also 500) vertices on a zigzag outline, one of them anywhere in [-100, 100]^2')
def many(S, n, k):
    h = n // 2
    pts = [(i, 0.5 * (i % 2)) for i in range(h)] + [(n - h - 1 - i, 7.0 + 0.75 * (i % 3)) for i in range(n - h)]
    v = S.np.array(pts, dtype=S.np.float64)
    v[k] = S.vec('v', -100, 100)
    s = signed2(v)
    a = polygon_area(v)
    S.check('absolute shoelace value', S.and_(S.le(0, a), S.eq(a, S.ite(S.le(0, s), s / 2, -s / 2))))
