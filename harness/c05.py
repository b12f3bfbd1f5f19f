"""C05 line of sight"""
from crowddynamics.core.geom2D import line_intersect
from crowddynamics.core.sensory_region import is_obstacle_between_points
from symx.reg import harness
from harness.util import obstacles


def orient(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def share_point(S, a, b, c, d):
    """non-parallel segments: each has its end points on different sides of (or on) the other's line"""
    def apart(u, v):
        return S.or_(S.and_(S.le(u, 0), S.le(0, v)), S.and_(S.le(v, 0), S.le(0, u)))
    return S.and_(apart(orient(a, b, c), orient(a, b, d)), apart(orient(c, d, a), orient(c, d, b)))


def signs(S, u, v):
    """explore the three signs of the cross product separately"""
    return S.branch(S.lt(0, S.cross(u, v))) or S.branch(S.lt(S.cross(u, v), 0))


def run(S, a, b, c, d):
    signs(S, b - a, d - c)
    got = line_intersect(a, b, c, d)
    u, v = b - a, d - c
    par = S.eq(S.cross(u, v), 0)
    want = share_point(S, a, b, c, d)
    S.check('non-parallel segments', S.implies(S.not_(par), S.iff(got, want)))
    # parallel, on different lines or degenerate without common point
    S.check('parallel segments on different lines', S.implies(S.and_(par, S.ne(orient(a, b, c), 0)), S.not_(got)))
    S.check('degenerate segments without a common point',
            S.implies(S.and_(S.eq(u[0], 0), S.eq(u[1], 0), S.ne(orient(c, d, a), 0)), S.not_(got)))
    S.observe('got', 1.0 if S.branch(got) else 0.0)
    return got


@harness(bounds='all four end points on the integer grid [-4, 4]^2 (touching, parallel, degenerate cases included), exact')
def intersect_exact(S):
    S.exact_mode = True
    a, b, c, d = [S.gvec(k, -4, 4) for k in 'abcd']
    run(S, a, b, c, d)


@harness(configs=[dict(e=e) for e in (-10, -24)], bounds='end points on the grid [-4, 4]^2 in units of 2^-10 and 2^-24, exact')
def tiny(S, e):
    S.exact_mode = True
    run(S, *[S.gvec(k, -4, 4) * 2.0 ** e for k in 'abcd'])


@harness(configs=[dict(e=e) for e in (10, 26)], bounds='nearly parallel segments: as long as 2^10 or 2^26 steps of the grid, with end points anywhere within 3 steps of two axes-parallel strips, exact')
def slim(S, e):
    S.exact_mode = True
    far = S.np.array([2.0 ** e, 0.0])
    a, b, c, d = [S.gvec(k, -3, 3) for k in 'abcd']
    run(S, a, b + far, c, d + far)


@harness(bounds='end points in [-20, 20]^2')
def intersect(S):
    a, b, c, d = [S.vec(k, -20, 20) for k in 'abcd']
    run(S, a, b, c, d)


@harness(configs=[dict(how='swap'), dict(how='reverse first'), dict(how='reverse second')],
         bounds='end points on the integer grid [-4, 4]^2, exact')
def symmetric(S, how):
    S.exact_mode = True
    a, b, c, d = [S.gvec(k, -4, 4) for k in 'abcd']
    signs(S, b - a, d - c)
    one = line_intersect(a, b, c, d)
    two = line_intersect(c, d, a, b) if how == 'swap' else line_intersect(b, a, c, d) if how == 'reverse first' else line_intersect(a, b, d, c)
    S.check('same answer', S.iff(one, two))


@harness(configs=[dict(n=0), dict(n=1), dict(n=2)], thorough=[dict(n=0), dict(n=1), dict(n=2), dict(n=3), dict(n=4)],
         bounds='n obstacles; sight line and obstacles with end points on the integer grid [-3, 3]^2, exact')
def sight(S, n):
    S.exact_mode = True
    p, q = S.gvec('p', -3, 3), S.gvec('q', -3, 3)
    segs = [(S.gvec('o%d' % i, -3, 3), S.gvec('u%d' % i, -3, 3)) for i in range(n)]
    for s, e in segs:
        signs(S, q - p, e - s)
    got = is_obstacle_between_points(p, q, obstacles(S, segs))
    blocked = [S.and_(S.ne(S.cross(q - p, e - s), 0), share_point(S, p, q, s, e)) for s, e in segs]
    free = [S.or_(S.and_(S.ne(S.cross(q - p, e - s), 0), S.not_(share_point(S, p, q, s, e))),
                  S.and_(S.eq(S.cross(q - p, e - s), 0), S.ne(orient(p, q, s), 0))) for s, e in segs]
    S.check('blocked by any obstacle', S.implies(S.or_(False, *blocked), got))
    S.check('free if clear of every obstacle', S.implies(S.and_(True, *free), S.not_(got)))


@harness(configs=[dict(n=40, at=k) for k in (0, 17, 39)], thorough=[dict(n=n, at=k) for n in (40, 300) for k in (0, 9, 17, 39)],
         bounds='a fixed sight line among 40 (thorough: also 300) obstacles clear of it, one at the start, in the middle or at the end of the list anywhere on the integer grid [-4, 4]^2')
def crowded(S, n, at):
    S.exact_mode = True
    p, q = S.np.array([-3.0, 0.5]), S.np.array([3.0, 0.25])
    s, e = S.gvec('o', -4, 4), S.gvec('u', -4, 4)
    segs = [((-3.0 + (i % 13) * 0.5, 1.0 + i % 7), (2.0 - (i % 5), 1.25 + i % 3)) if i % 2 else ((-1.0 - i, -0.5), (4.0, -1.0 - i)) for i in range(n)]
    segs[at] = (s, e)
    signs(S, q - p, e - s)
    got = is_obstacle_between_points(p, q, obstacles(S, segs))
    S.check('blocked exactly by that obstacle', S.iff(got, S.and_(S.ne(S.cross(q - p, e - s), 0), share_point(S, p, q, s, e))))
