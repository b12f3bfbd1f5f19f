"""C04 distance from an agent to a wall segment"""
from crowddynamics.core.distance import distance_circle_line, distance_three_circle_line
from symx.reg import harness


def foot(S, x, p, q):
    """nearest point of the segment as (numerators, denominator > 0)"""
    d = q - p
    l2 = d[0] * d[0] + d[1] * d[1]
    t = S.dot(x - p, d)
    if S.branch(S.le(t, 0)):
        return [p[0], p[1]], 1
    if S.branch(S.le(l2, t)):
        return [q[0], q[1]], 1
    return [p[0] * l2 + t * d[0], p[1] * l2 + t * d[1]], l2


@harness(bounds='centre and end points in [-20, 20]^2, segment longer than 0.1, radius in (0, 5]')
def circle(S):
    x, p, q = S.vec('x', -20, 20), S.vec('p', -20, 20), S.vec('q', -20, 20)
    d = q - p
    S.assume(S.lt(0.01, d[0] * d[0] + d[1] * d[1]))
    r = S.pos('r', 5)
    h, n = distance_circle_line(x, r, p, q)
    f, den = foot(S, x, p, q)
    D = h + r
    v = [x[0] * den - f[0], x[1] * den - f[1]]         # den * (x - nearest point)
    S.check('distance to the nearest point', S.and_(S.le(0, D), S.eq(D * D * den * den, v[0] * v[0] + v[1] * v[1])))
    away = S.or_(S.ne(v[0], 0), S.ne(v[1], 0))
    S.check('normal from the nearest point to the centre',
            S.implies(away, S.and_(S.eq(n[0] * D * den, v[0]), S.eq(n[1] * D * den, v[1]))))
    S.observe('h', h)


@harness(bounds='grid points in [-3, 3]^2 (touching and collinear cases included), radius 1/2', configs=[dict(axis=0), dict(axis=1)])
def circle_axis(S, axis):
    """axis-parallel segments on grid points, compared exactly"""
    S.exact_mode = True
    a, b, k = S.grid('a', -3, 3), S.grid('b', -3, 3), S.grid('k', -3, 3)
    S.assume(S.ne(a, b))
    x = S.gvec('x', -3, 3)
    lo, hi = S.min([a, b]), S.max([a, b])
    if axis == 0:
        p, q = S.np.array([a, k]), S.np.array([b, k])
    else:
        p, q = S.np.array([k, a]), S.np.array([k, b])
    h, n = distance_circle_line(x, 0.5, p, q)
    u, w = x[axis], x[1 - axis] - k
    if S.branch(S.and_(S.le(lo, u), S.le(u, hi))):
        S.equal('distance beside the segment', h + 0.5, S.ite(S.le(0, w), w, -w))
        if S.branch(S.ne(w, 0)):
            S.equal('normal', [n[axis], n[1 - axis]], [0.0, S.ite(S.lt(0, w), 1.0, -1.0)])
    else:
        e = S.ite(S.lt(u, lo), u - lo, u - hi)
        if S.branch(S.eq(w, 0)):
            S.equal('distance beyond the end', h + 0.5, S.ite(S.le(0, e), e, -e))
            S.equal('normal', [n[axis], n[1 - axis]], [S.ite(S.lt(0, e), 1.0, -1.0), 0.0])


@harness(configs=[dict(seg=(0, 0, 2, 0)), dict(seg=(-1, 1, 2, 5))],
         thorough=[dict(seg=(0, 0, 2, 0)), dict(seg=(-1, 1, 2, 5)), dict(seg=(3, 2, 0, -2)), dict(seg=(0, 3, 0, 1)), dict(seg=(4, -3, -4, 3))],
         bounds='three circles anywhere in [-5, 5]^2, radii in (0, 1], segments of rational length in several directions')
def three_circle(S, seg):
    S.coarse()
    x = [S.vec('x%d' % i, -5, 5) for i in range(3)]
    p, q = S.np.array([float(seg[0]), float(seg[1])]), S.np.array([float(seg[2]), float(seg[3])])
    for i in range(3):
        for e in (p, q):
            S.assume(S.lt(0, S.norm(x[i] - e)))
    rt, rs = S.pos('rt', 1), S.pos('rs', 1)
    r = (rt, rs, rs)
    h, n, m = distance_three_circle_line(tuple(x), r, p, q)
    single = [distance_circle_line(x[i], r[i], p, q) for i in range(3)]
    for hi, ni in single:
        S.check('minimum over the circles', S.le(h, hi))
    S.check('attained with the normal and lever arm of a minimising circle',
            S.or_(*[S.and_(S.eq(h, hi), S.eq(n, ni), S.eq(m, x[i] - r[i] * n - x[0])) for i, (hi, ni) in enumerate(single)]))
    S.observe('h', h)
