"""C03 skin distance between agents"""
from crowddynamics.core.distance import distance_circles, distance_three_circles
from symx.reg import harness


@harness(bounds='centres in [-50, 50]^2, radii in (0, 5]')
def circles(S):
    x0, x1 = S.vec('x', -50, 50), S.vec('y', -50, 50)
    r0, r1 = S.pos('r0', 5), S.pos('r1', 5)
    h, n = distance_circles(x0, r0, x1, r1)
    d = h + r0 + r1
    dx = x0 - x1
    S.check('centre distance minus radii', S.and_(S.le(0, d), S.eq(d * d, dx[0] * dx[0] + dx[1] * dx[1])))
    if S.branch(S.and_(S.eq(dx[0], 0), S.eq(dx[1], 0))):
        S.equal('zero normal for equal centres', n, [0.0, 0.0])
    else:
        S.equal('unit normal from the second to the first', [n[0] * d, n[1] * d], [dx[0], dx[1]])
    S.observe('h', h)


def body(S, name, lim=3):
    c = [S.vec('%s%d' % (name, i), -lim, lim) for i in range(3)]
    rt, rs = S.pos(name + 't', 1), S.pos(name + 's', 1)
    return c, (rt, rs, rs)


def want(S, x0, r0, x1, r1):
    out = []
    for i in range(3):
        for j in range(3):
            d = S.norm(x0[i] - x1[j])
            out.append((d - (r0[i] + r1[j]), d, i, j))
    return out


def verify(S, x0, r0, x1, r1, full=True):
    h, n, m0, m1 = distance_three_circles(tuple(x0), r0, tuple(x1), r1)
    pairs = want(S, x0, r0, x1, r1)
    for hp, d, i, j in pairs:
        S.check('minimum: lower bound over the nine pairs', S.le(h, hp))
    cases = []
    for hp, d, i, j in pairs:
        nn = (x0[i] - x1[j])
        cases.append(S.and_(S.eq(h, hp), S.eq(n[0] * d, nn[0]), S.eq(n[1] * d, nn[1]),
                            S.eq(m0, x0[i] + r0[i] * n - x0[0]), S.eq(m1, x1[j] - r1[j] * n - x1[0])))
    S.check('attained by a pair with this normal and these lever arms', S.or_(*cases))
    S.observe('h', h)


@harness(bounds='two bodies of three circles anywhere in [-3, 3]^2 with distinct centres, radii in (0, 1]')
def three_circles(S):
    S.coarse()
    x0, r0 = body(S, 'a')
    x1, r1 = body(S, 'b')
    for a in x0:
        for b in x1:
            S.assume(S.lt(0, S.norm(a - b)))
    verify(S, x0, r0, x1, r1)


SHAPES = [((0.0, 0.0), (-0.5, 0.0), (0.5, 0.0)), ((0.0, 0.0), (0.0, -0.375), (0.0, 0.375)), ((0.0, 0.0), (0.25, 0.5), (-0.25, -0.5)), ((0.0, 0.0), (0.75, -0.25), (-0.75, 0.25))]
FAR = [(0, 0, (0.25, 0.5)), (1, 0, (-1.0, 0.25)), (2, 1, (1.0, -1.0)), (3, 2, (0.5, -0.125)), (0, 3, (-0.25, 1.0))]


@harness(configs=[dict(a=a, b=b, way=w) for a, b, w in FAR], thorough=[dict(a=a, b=b, way=w) for a in range(4) for b in range(4) for w in ((1.0, 0.25), (-0.5, 1.0), (-0.5, -0.75))],
         bounds='two bodies with fixed orientations and radii, one fixed, the other at any place of a line from -24 to 24 past the first one')
def apart(S, a, b, way):
    S.coarse()
    t = S.real('t', -24, 24)
    at = (S.np.array([t * way[0] + 0.03125, t * way[1] - 0.0625]))
    x0 = [S.np.array(c) for c in SHAPES[a]]
    x1 = [at + S.np.array(c) for c in SHAPES[b]]
    for p in x0:
        for q in x1:
            S.assume(S.lt(0, S.norm(p - q)))
    r0, r1 = (0.375, 0.25, 0.25), (0.5, 0.3125, 0.3125)
    h, n, m0, m1 = distance_three_circles(tuple(x0), r0, tuple(x1), r1)
    pairs = want(S, x0, r0, x1, r1)
    for hp, d, i, j in pairs:
        S.check('nearest: lower bound over the nine pairs', S.le(h, hp))
    for hp, d, i, j in pairs:
        nn = x0[i] - x1[j]
        others = S.and_(*[S.lt(hp, g) for g, _, k, m in pairs if (k, m) != (i, j)])
        S.check('attained', S.implies(others, S.and_(S.eq(h, hp), S.eq(n[0] * d, nn[0]), S.eq(n[1] * d, nn[1]),
                                                     S.eq(m0, x0[i] + r0[i] * n - x0[0]), S.eq(m1, x1[j] - r1[j] * n - x1[0]))))
    S.observe('h', h)
