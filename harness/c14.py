"""C14 pair interactions"""
from crowddynamics.core import interactions as ia
from crowddynamics.core.distance import distance_circles, distance_circle_line, distance_three_circle_line, distance_three_circles
from crowddynamics.core.motion.contact import force_contact
from crowddynamics.core.motion.power_law import force_social_circular, force_social_three_circle
from symx.reg import harness
from harness.util import crowd, unchanged, bodies, obstacles
from harness.c12 import turned, ANGLE

COEFF = dict(mu=(0, 200000), kappa=(0, 100000), damping=(0, 1000))


def three(S, n, i, j, turn, at, slide, vel, lo, hi, kind='three_circle', **more):
    """n agents; agent i slides along a line relative to agent j; the rest far away"""
    s = S.real('s', lo, hi)
    par = dict(COEFF, force=(-9, 9), torque=(-9, 9), mass=lambda k: (80.0, 64.0, 70.0)[k], k_soc=lambda k: (1.5, 1.25, 1.0)[k],
               tau_0=lambda k: (3.0, 2.0, 2.5)[k], radius=lambda k: (0.25, 0.375, 0.25)[k], r_t=lambda k: (0.125, 0.1875, 0.15)[k], r_s=lambda k: (0.0625, 0.078125, 0.09375)[k],
               r_ts=0.15625, orientation=lambda k: ANGLE[turn[k % 2]])
    par.update(more)
    base = S.np.array([0.25, -0.5])
    par['position'] = lambda k: (base if k == j else S.np.array([base[0] + at[0] + s * slide[0], base[1] + at[1] + s * slide[1]]) if k == i
                                 else base + S.np.array([-1.0, 0.25]))
    par['velocity'] = lambda k: (0.5, 1.0) if k != i else (0.5 + vel[0], 1.0 + vel[1])
    a = crowd(S, kind, n, par)
    if kind == 'three_circle':
        for k in range(n):
            t = turned(S, turn[k % 2])
            for c in (0, 1):
                a['position_ls'][k, c] = a['position'][k, c] - 0.15625 * t[c]
                a['position_rs'][k, c] = a['position'][k, c] + 0.15625 * t[c]
    return a


def others(S, a, b, touched, fields):
    unchanged(S, 'other attributes', a, b, skip=fields)
    for f in fields:
        for k in range(len(a)):
            if k not in touched:
                S.check('other agents: ' + f, S.eq(a[f][k], b[f][k]))


def contact(S, b, k, h, n, v):
    return force_contact(h, n, v, S.np.array([n[1], -n[0]]), b['mu'][k], b['kappa'][k], b['damping'][k])


PAIRS = [dict(i=0, j=1, at=(0.0, 0.125), slide=(1.0, 0.0), vel=(-1.0, 0.0), lo=-4, hi=4),
         dict(i=2, j=0, at=(0.5, 0.0), slide=(0.6, 0.8), vel=(0.5, -1.0), lo=-5, hi=5),
         dict(i=1, j=2, at=(3.0, 0.0), slide=(1.0, 0.0), vel=(-1.0, 0.125), lo=-0.5, hi=0.75),
         dict(i=0, j=2, at=(0.25, 0.0), slide=(0.0, 1.0), vel=(0.0, 0.0), lo=-1, hi=1)]


DEEP = [dict(PAIRS[0], radii=(1.0, 4.0, 0.25), lo=-2, hi=2), dict(PAIRS[1], radii=(3.0, 0.5, 2.0), lo=-2, hi=2)]


@harness(configs=PAIRS + DEEP, bounds='three agents (radii 1/4 to 4, overlaps from none to nearly whole); one anywhere on a line past another (touching, near and beyond 3 m), fixed masses and relative velocity, '
                               'any contact coefficients and accumulated forces')
def agents_circular(S, i, j, at, slide, vel, lo, hi, radii=None):
    S.coarse(200)
    a = three(S, 3, i, j, (0, 0), at, slide, vel, lo, hi, 'circular', **({'radius': lambda k: radii[k]} if radii else {}))
    b = a.copy()
    ia.interaction_agent_agent_circular(i, j, a)
    h, n = distance_circles(b['position'][i], b['radius'][i], b['position'][j], b['radius'][j])
    others(S, a, b, (i, j), ('force',))
    near, touch = S.branch(S.lt(h, 3)), S.branch(S.lt(h, 0))
    fi, fj = S.np.zeros(2), S.np.zeros(2)
    if near:
        fi, fj = force_social_circular(b.copy(), i, j)
    if touch:
        v = b['velocity'][i] - b['velocity'][j]
        fi = fi + contact(S, b, i, h, n, v)
        fj = fj - contact(S, b, j, h, n, v)
    for k, f in ((i, fi), (j, fj)):
        S.equal('force', a['force'][k], [b['force'][k, c] + f[c] for c in (0, 1)])
    S.observe('force', a['force'][i])


@harness(configs=[dict(PAIRS[0], turn=(0, 1), lo=-1, hi=1), dict(PAIRS[1], turn=(4, 2), lo=-1, hi=1), dict(PAIRS[2], turn=(1, 0)), dict(PAIRS[3], turn=(3, 5))],
         thorough=[dict(p, turn=t) for p in PAIRS for t in ((0, 1), (4, 2), (3, 5))],
         bounds='three bodies of fixed shape and orientation; one anywhere on a line past another, any contact coefficients and accumulated forces and torques')
def agents_three_circle(S, i, j, at, slide, vel, lo, hi, turn):
    S.coarse(100)
    a = three(S, 3, i, j, turn, at, slide, vel, lo, hi)
    b = a.copy()
    ia.interaction_agent_agent_three_circle(i, j, a)
    xi, ri = bodies(b, i)
    xj, rj = bodies(b, j)
    h, n, mi, mj = distance_three_circles(xi, ri, xj, rj)
    others(S, a, b, (i, j), ('force', 'torque'))
    near, touch = S.branch(S.lt(h, 3)), S.branch(S.lt(h, 0))
    fi, fj = S.np.zeros(2), S.np.zeros(2)
    if near:
        fi, fj = force_social_three_circle(b.copy(), i, j)
    if touch:
        v = b['velocity'][i] - b['velocity'][j]
        fi = fi + contact(S, b, i, h, n, v)
        fj = fj - contact(S, b, j, h, n, v)
    for k, f, m in ((i, fi, mi), (j, fj, mj)):
        S.equal('force', a['force'][k], [b['force'][k, c] + f[c] for c in (0, 1)])
        S.equal('torque', a['torque'][k], b['torque'][k] + m[0] * f[1] - m[1] * f[0])
    S.observe('force', a['force'][i])


WALLS = [((-1.0, 0.0), (2.0, 0.0)), ((0.5, -1.0), (0.5, 2.0)), ((0.0, 0.0), (3.0, 4.0))]


@harness(configs=[dict(kind=k, w=w) for k in ('circular', 'three_circle') for w in (0, 1, 2)],
         bounds='two agents and three walls; the agent anywhere on a line across the wall, any velocity, contact coefficients and accumulated force')
def wall(S, kind, w):
    S.coarse(200)
    i = w % 2
    o = obstacles(S, WALLS)
    a = three(S, 2, i, 1 - i, (4, 1), ((0.5, 0.25), (0.0, 0.5), (1.0, 1.0))[w], ((0.25, 1.0), (1.0, 0.125), (-0.8, 0.6))[w], (0.0, 0.0), -2, 2, kind)
    v = S.vec('v', -3, 3)
    a['velocity'][i, 0] = v[0]
    a['velocity'][i, 1] = v[1]
    b, p = a.copy(), o.copy()
    fields = ('force',)
    if kind == 'circular':
        ia.interaction_agent_circular_obstacle(i, w, a, o)
        h, n = distance_circle_line(b['position'][i], b['radius'][i], o['p0'][w], o['p1'][w])
        m = None
    else:
        ia.interaction_agent_three_circle_obstacle(i, w, a, o)
        x, r = bodies(b, i)
        h, n, m = distance_three_circle_line(x, r, o['p0'][w], o['p1'][w])
        fields = ('force', 'torque')
    others(S, a, b, (i,), fields)
    S.check('obstacles kept', S.and_(S.eq(o['p0'], p['p0']), S.eq(o['p1'], p['p1'])))
    f = S.np.zeros(2)
    if S.branch(S.lt(h, 0)):
        f = contact(S, b, i, h, n, b['velocity'][i])
    S.equal('force', a['force'][i], [b['force'][i, c] + f[c] for c in (0, 1)])
    if m is not None:
        S.equal('torque', a['torque'][i], b['torque'][i] + m[0] * f[1] - m[1] * f[0])
    S.observe('force', a['force'][i])
