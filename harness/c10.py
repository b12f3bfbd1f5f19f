"""C10 angle wrapping and 2D vector algebra"""
import math

from crowddynamics.core import vector2D as v2
from symx.reg import harness

PI = math.pi
PLANE = 'components in [-50, 50]'


@harness(bounds='angle in [-60, 60] (about 19 turns)')
def wrap(S):
    rad = S.real('rad', -60, 60)
    r = v2.wrap_to_pi(rad)
    S.observe('r', r)
    S.check('in [-pi, pi]', S.between(-PI, r, PI))
    k = S.np.floor((rad - r) / (2 * PI) + 0.5)
    S.check('congruent modulo 2 pi', S.eq(rad - r, 2 * PI * k))
    S.check('identity inside (-pi, pi)', S.implies(S.and_(S.lt(-PI, rad), S.lt(rad, PI)), S.eq(r, rad)))


@harness(configs=[dict(at=a) for a in (-1e6, -20000.0, -700.0, 700.0, 20000.0, 1e6)], bounds='angles within 4 of -1000000, -20000, -700, 700, 20000 and 1000000')
def far(S, at):
    rad = at + S.real('rad', -4, 4)
    r = v2.wrap_to_pi(rad)
    S.check('in [-pi, pi]', S.between(-PI, r, PI))
    k = S.np.floor((rad - r) / (2 * PI) + 0.5)
    S.check('congruent modulo 2 pi', S.between(-1e-9 * abs(at), rad - r - 2 * PI * k, 1e-9 * abs(at)))


@harness(bounds='odd multiples (2k+1) pi, |2k+1| <= 9')
def wrap_odd(S):
    k = S.int('k', -5, 4)
    rad = (2 * k + 1) * PI
    r = v2.wrap_to_pi(rad)
    S.check('odd positive multiples at pi, negative at -pi', S.eq(r, S.ite(S.ge(k, 0), PI, -PI)))


@harness(configs=[dict(n=2)], thorough=[dict(n=3), dict(n=4)], bounds='arrays of n angles in [-20, 20]')
def wrap_array(S, n):
    a = S.np.array([S.real('a%d' % i, -20, 20) for i in range(n)])
    r = v2.wrap_to_pi(a)
    for i in range(n):
        S.check('elementwise', S.eq(r[i], v2.wrap_to_pi(a[i])))


@harness(bounds=PLANE)
def rotations(S):
    v = S.vec('v', -50, 50)
    w = v.copy()
    a, b = v2.rotate90(v), v2.rotate270(v)
    S.observe('rot', [a, b])
    S.equal('counterclockwise', a, [-w[1], w[0]])
    S.equal('clockwise', b, [w[1], -w[0]])
    S.equal('input kept', v, w)
    S.equal('inverse', v2.rotate270(a), w)


@harness(bounds=PLANE)
def products(S):
    a, b = S.vec('a', -50, 50), S.vec('b', -50, 50)
    S.equal('dot', v2.dot(a, b), a[0] * b[0] + a[1] * b[1])
    S.equal('cross', v2.cross(a, b), a[0] * b[1] - a[1] * b[0])
    l = v2.length(a)
    S.check('length', S.and_(S.le(0, l), S.eq(l * l, a[0] * a[0] + a[1] * a[1])))


@harness(configs=[dict(n=2)], thorough=[dict(n=4)], bounds='arrays of n vectors, ' + PLANE)
def products_array(S, n):
    a, b = S.pts('a', n, -50, 50), S.pts('b', n, -50, 50)
    d, c, l = v2.dot(a, b), v2.cross(a, b), v2.length(a)
    S.equal('shape', [d.shape, c.shape, l.shape], [(n,), (n,), (n,)])
    for i in range(n):
        S.equal('dot', d[i], a[i, 0] * b[i, 0] + a[i, 1] * b[i, 1])
        S.equal('cross', c[i], a[i, 0] * b[i, 1] - a[i, 1] * b[i, 0])
        S.check('length', S.and_(S.le(0, l[i]), S.eq(l[i] * l[i], a[i, 0] * a[i, 0] + a[i, 1] * a[i, 1])))


@harness(bounds='nonzero vectors, ' + PLANE)
def angle(S):
    v = S.vec('v', -50, 50)
    S.assume(S.lt(0.01, v[0] * v[0] + v[1] * v[1]))
    t = v2.angle(v)
    S.observe('t', t)
    l = S.norm(v)
    S.check('range', S.between(-PI, t, PI))
    S.equal('direction', [l * S.np.cos(t), l * S.np.sin(t)], [v[0], v[1]])


@harness(configs=[dict(n=2)], bounds='array of n nonzero vectors, ' + PLANE)
def angle_array(S, n):
    v = S.pts('v', n, -50, 50)
    for i in range(n):
        S.assume(S.lt(0.01, v[i, 0] * v[i, 0] + v[i, 1] * v[i, 1]))
    t = v2.angle(v)
    for i in range(n):
        S.equal('direction', S.norm(v[i]) * S.np.cos(t[i]), v[i, 0])
        S.equal('direction', S.norm(v[i]) * S.np.sin(t[i]), v[i, 1])


@harness(bounds='any angle')
def unit_vector(S):
    t = S.real('t', -10, 10)
    u = v2.unit_vector(t)
    S.equal('shape', u.shape, (2,))
    S.equal('cos, sin', u, [S.np.cos(t), S.np.sin(t)])


@harness(configs=[dict(n=2), dict(n=3)], bounds='arrays of n angles')
def unit_vector_array(S, n):
    t = S.np.array([S.real('t%d' % i, -10, 10) for i in range(n)])
    u = v2.unit_vector(t)
    S.equal('shape', u.shape, (n, 2))
    for i in range(n):
        S.equal('cos, sin', u[i], [S.np.cos(t[i]), S.np.sin(t[i])])


@harness(bounds=PLANE)
def weighted(S):
    a, b = S.vec('a', -50, 50), S.vec('b', -50, 50)
    w = S.real('w', 0, 1)
    r = v2.weighted_average(a, b, w)
    S.equal('weighted average', r, [w * a[0] + (1 - w) * b[0], w * a[1] + (1 - w) * b[1]])


@harness(configs=[dict(n=2)], bounds=PLANE)
def weighted_array(S, n):
    a, b = S.pts('a', n, -50, 50), S.pts('b', n, -50, 50)
    w = S.real('w', 0, 1)
    r = v2.weighted_average(a, b, w)
    for i in range(n):
        S.equal('weighted average', r[i], [w * a[i, 0] + (1 - w) * b[i, 0], w * a[i, 1] + (1 - w) * b[i, 1]])


@harness(bounds=PLANE)
def normalize(S):
    v = S.vec('v', -50, 50)
    w = v.copy()
    u = v2.normalize(v)
    l2 = w[0] * w[0] + w[1] * w[1]
    zero = S.and_(S.eq(w[0], 0), S.eq(w[1], 0))
    S.equal('input kept', v, w)
    if S.branch(zero):
        S.equal('zero unchanged', u, [0.0, 0.0])
    else:
        S.check('unit length', S.eq(u[0] * u[0] + u[1] * u[1], 1))
        S.check('same direction', S.and_(S.eq(u[0] * w[1], u[1] * w[0]), S.le(0, u[0] * w[0] + u[1] * w[1])))
    S.observe('u', u)


@harness(bounds=PLANE + ', limit in (0, 60]')
def truncate(S):
    v = S.vec('v', -50, 50)
    w = v.copy()
    l = S.pos('l', 60)
    v2.truncate(v, l)
    n2 = w[0] * w[0] + w[1] * w[1]
    S.check('short vectors unchanged', S.implies(S.le(n2, l * l), S.eq(v, w)))
    S.check('long vectors get the limit length', S.implies(S.lt(l * l, n2), S.eq(v[0] * v[0] + v[1] * v[1], l * l)))
    S.check('same direction', S.and_(S.eq(v[0] * w[1], v[1] * w[0]), S.le(0, v[0] * w[0] + v[1] * w[1])))
    S.observe('v', v)
