"""C11 circular social force"""
from crowddynamics.core.motion.power_law import force_social_circular, time_to_collision_circle_circle, potential, magnitude
from crowddynamics.core.vector2D import truncate
from symx.reg import harness
from harness.util import crowd, unchanged

FMAX = 2000


def quadratic(S, x, v, R):
    """|x + t v|^2 = R^2:  A t^2 - 2 B t + C = 0"""
    A = v[0] * v[0] + v[1] * v[1]
    B = -(x[0] * v[0] + x[1] * v[1])
    C = x[0] * x[0] + x[1] * x[1] - R * R
    return A, B, C, B * B - A * C


@harness(bounds='relative position in [-20, 20]^2, relative velocity in [-10, 10]^2, radius sum in (0, 5]')
def time_to_collision(S):
    x, v, R = S.vec('x', -20, 20), S.vec('v', -10, 10), S.pos('R', 5)
    t, g = time_to_collision_circle_circle(x, v, R)
    A, B, C, D = quadratic(S, x, v, R)
    hit = S.and_(S.lt(0, A), S.lt(0, D), S.lt(0, B), S.lt(0, C))
    if S.branch(S.isnan(t)):
        S.check('undefined only without a collision ahead', S.not_(hit))
    else:
        S.check('defined only for a collision ahead', hit)
        S.check('positive root', S.and_(S.lt(0, t), S.eq(A * t * t - 2 * B * t + C, 0)))
        S.check('first root', S.le(A * t, B))
        S.observe('t', t)


@harness(bounds='tau, tau_0 in (0, 50], k in (0, 10]')
def laws(S):
    tau, t0, k = S.pos('tau', 50), S.pos('t0', 50), S.pos('k', 10)
    e = S.np.exp(-tau / t0)
    S.equal('potential', potential(k, tau, t0) * tau * tau, k * e)
    S.equal('magnitude', magnitude(tau, t0) * tau * tau * tau * t0, (2 * t0 + tau) * e)


def pair(S, frame, same=False, way=None):
    """frame 0/1: one agent anywhere, the other at rest in the origin; frame 2: fixed relative motion, anywhere in the plane"""
    par = dict(mass='pos', k_soc=(0, 5), tau_0='pos', force=(-9, 9))
    if frame < 2:
        par.update(mass=lambda i: (80.0, 64.0)[i], k_soc=lambda i: (1.5, 1.25)[i], tau_0=lambda i: (3.0, 2.0)[i])
    if same:
        par.update(mass=S.pos('m', 100), k_soc=S.real('k', 0, 5), tau_0=S.pos('t0', 10))
    if frame == 3:
        m, k = S.pos('m', 200000), S.real('k', 0, 20)
        par.update(mass=lambda i: (80.0, m)[i], k_soc=lambda i: (k, 1.5)[i], tau_0=lambda i: (3.0, 2.0)[i], radius=lambda i: (0.5, 0.25)[i] if way[0] != 0.25 else (0.75, 0.5)[i],
                   position=lambda i: ((1.0, 2.0), (5.0, 2.25 if way[0] != 0.25 else 2.75))[i], velocity=lambda i: tuple(way[2 * i:2 * i + 2]))
        return crowd(S, 'circular', 2, par)
    if frame < 2:
        p, v, r = S.vec('p', -10, 10), S.np.array(way) * S.pos('s', 2) if way else S.vec('v', -5, 5), S.pos('r', 5)
        par.update(position=lambda i: p if i == frame else (0.0, 0.0), velocity=lambda i: v if i == frame else (0.0, 0.0),
                   radius=lambda i: r if i == frame else 0.25)
    else:
        p, v = S.vec('p', -10, 10), S.vec('v', -5, 5)
        r0, r1 = S.pos('r0', 1), S.pos('r1', 1)
        par.update(position=lambda i: p if i else p + S.np.array([4.0, 1.0]), velocity=lambda i: v if i else v + S.np.array([-2.0, 0.25]),
                   radius=lambda i: r1 if i else r0)
    return crowd(S, 'circular', 2, par)


def limited(S, name, f, w):
    """f is w shortened to at most FMAX (the truncation of a vector is the subject of C10)"""
    w = S.np.array([w[0], w[1]])
    truncate(w, FMAX)
    S.equal(name, f, w)


@harness(configs=[dict(frame=0, swap=False, way=(2.0, 0.5)), dict(frame=1, swap=False, way=(-1.0, -1.5)),
                  dict(frame=0, swap=True, way=(-0.5, 2.0)), dict(frame=2, swap=False)] +
                 [dict(frame=3, swap=s, way=w) for s, w in ((True, (2.0, 0.25, 0.0, 0.125)), (False, (0.25, 0.125, -4.0, 0.125)), (False, (0.25, 0.0, 0.0, 0.0)))],
         thorough=[dict(frame=0, swap=False), dict(frame=1, swap=False), dict(frame=0, swap=True), dict(frame=2, swap=False)],
         bounds='two agents; one anywhere in [-10, 10]^2 with radius to 5 and a velocity of any size along three directions '
                '(thorough: any velocity in [-5, 5]^2), fixed motion with collisions after 0.4 to 13 seconds, any mass to 2e5 and any k_soc; the other at rest with fixed attributes; or any masses, k_soc, tau_0, radii to 1 and '
                'common motion for one fixed relative motion')
def force(S, frame, swap, way=None):
    S.coarse(200)
    a = pair(S, frame, way=way)
    b = a.copy()
    i, j = (1, 0) if swap else (0, 1)
    fi, fj = force_social_circular(a, i, j)
    unchanged(S, 'agents kept', a, b)
    x = a['position'][i] - a['position'][j]
    v = a['velocity'][i] - a['velocity'][j]
    A, B, C, D = quadratic(S, x, v, a['radius'][i] + a['radius'][j])
    hit = S.branch(S.lt(0, D)) and S.branch(S.ne(A, 0))
    if hit:
        d = S.sqrt(D)
        tau = (B - d) / A       # the first root (see time_to_collision)
        hit = S.branch(S.and_(S.lt(0, tau), S.le(tau, 30)))
    if not hit:
        S.equal('no force without a collision ahead', [fi, fj], [[0.0, 0.0], [0.0, 0.0]])
        return
    grad = [(x[c] + tau * v[c]) / d for c in (0, 1)]
    for name, f, n, s in (('first agent', fi, i, 1), ('second agent', fj, j, -1)):
        mag = a['k_soc'][n] * a['mass'][n] * magnitude(tau, a['tau_0'][n])      # the formula of magnitude is the subject of laws
        limited(S, name, f, [s * mag * grad[0], s * mag * grad[1]])
    S.observe('f', fi)


@harness(configs=[dict(frame=0), dict(frame=2)], bounds='two agents with equal mass, k_soc and tau_0 of any size; motion as for force')
def cancel(S, frame):
    S.coarse()
    a = pair(S, frame, True)
    fi, fj = force_social_circular(a, 0, 1)
    S.equal('forces cancel', [fi[0] + fj[0], fi[1] + fj[1]], [0.0, 0.0])
