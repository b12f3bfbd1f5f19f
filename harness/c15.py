"""C15 crowd-level interactions"""
from crowddynamics.core import interactions as ia
from crowddynamics.exceptions import InvalidType
from symx.reg import harness
from symx import stubs
from harness.util import crowd, unchanged, obstacles, KINDS

PLACES = [(0.125, 0.25), (0.875, 0.375), (-0.25, 1.125)]


def still(S, kind, n, size, where, prefix='a'):
    """n agents at rest, touching exactly below the distance `size`"""
    half = 0.5 * size
    par = dict(mu=lambda k: S.pos('mu%d' % k, 1000), force=(-9, 9), torque=(-9, 9), mass=80.0, k_soc=1.5, tau_0=3.0, kappa=1000.0, damping=10.0,
               radius=half, r_t=half, r_s=0.0625 * size, r_ts=lambda k: 0.25 * size, velocity=lambda k: (0.5, -0.25), position=lambda k: where[k])
    a = crowd(S, kind, n, par, prefix, fill='any')
    if kind == 'three_circle':
        for k in range(n):
            a['position_ls'][k, 0] = a['position'][k, 0]
            a['position_ls'][k, 1] = a['position'][k, 1] + 0.25 * size
            a['position_rs'][k, 0] = a['position'][k, 0]
            a['position_rs'][k, 1] = a['position'][k, 1] - 0.25 * size
    return a


def same_sum(S, a, b, parts):
    """a = b with the forces (and torques) of all parts added"""
    fields = ('force',) + (('torque',) if 'torque' in a.dtype.names else ())
    unchanged(S, 'other attributes', a, b, skip=fields)
    for k in range(len(a)):
        for c in (0, 1):
            S.equal('force', a['force'][k, c], b['force'][k, c] + sum((p['force'][k, c] for p in parts), 0))
        if 'torque' in fields:
            S.equal('torque', a['torque'][k], b['torque'][k] + sum((p['torque'][k] for p in parts), 0))


def alone(a):
    p = a.copy()
    p['force'][:] = 0
    if 'torque' in p.dtype.names:
        p['torque'][:] = 0
    return p


@harness(configs=[dict(kind='circular', size=1.0, n=3, flip=False), dict(kind='circular', size=0.75, n=3, flip=True), dict(kind='circular', size=0.5, n=2, flip=False), dict(kind='circular', size=3.75, n=3, flip=False), dict(kind='three_circle', size=4.5, n=2, flip=False),
                  dict(kind='three_circle', size=1.0, n=2, flip=False), dict(kind='three_circle', size=0.75, n=2, flip=True)],
         thorough=[dict(kind='circular', size=s, n=n, flip=f) for s in (1.0, 0.75) for n in (3, 4) for f in (False, True)] +
                  [dict(kind='three_circle', size=s, n=n, flip=True) for s in (1.0, 0.625) for n in (2, 3)],
         bounds='2 to 4 agents at rest, one anywhere in a region of several grid cells (cell sizes 0.5, 0.75, 1) including negative coordinates, any mu and '
                'accumulated force; both visiting orders of the neighbour list', assumes=['cell_lists: stand-in with its documented meaning'])
def agents(S, kind, size, n, flip):
    S.coarse(100)
    x = S.vec('x', -1.5 * size, 2 * size) if kind == 'circular' else S.np.array([S.real('x', -1.5 * size, 2 * size), 0.25])
    where = [x if k == n - 1 else (PLACES[k][0] * size * 2, PLACES[k][1] * size * 2) for k in range(n)]
    for k in range(n - 1):
        d = S.np.array([x[0] - where[k][0], x[1] - where[k][1]])
        S.assume(S.lt(0, S.norm(d)))
    a = still(S, kind, n, size, where)
    b = a.copy()
    stubs.HOOKS['cell_order'] = flip
    ia.agent_agent_block_list(a, size)
    stubs.HOOKS.pop('cell_order', None)
    pair = ia.interaction_agent_agent_circular if kind == 'circular' else ia.interaction_agent_agent_three_circle
    parts = []
    for i in range(n):
        for j in range(i + 1, n):
            p = alone(b)
            pair(i, j, p)
            parts.append(p)
    same_sum(S, a, b, parts)
    S.observe('force', a['force'][n - 1])


@harness(configs=[dict(kind=k, n=n, m=m) for k in KINDS for n, m in ((2, 2), (1, 3), (3, 1), (2, 0), (1, 5), (2, 6))],
         bounds='1 to 3 agents and up to 5 obstacles (some listed twice, or without extent), one agent anywhere on a line, any mu and accumulated force')
def walls(S, kind, n, m):
    S.coarse(100)
    o = obstacles(S, [((-1.0, 0.0), (1.0, 0.0)), ((0.25, -1.0), (0.25, 1.5)), ((-2.0, -2.0), (1.0, 2.0))][:m] +
                  ([((-2.0, -2.0), (1.0, 2.0)), ((-1.0, 0.0), (1.0, 0.0))] if m == 5 else [((0.5, 0.5), (0.5, 0.5))] if m == 6 else []))
    if m == 6:
        o = o[[3, 0, 3, 1, 2, 1]]
    x = S.real('x', -2, 2)
    a = still(S, kind, n, 1.0, [(x, 0.5 * x + 0.25), (0.5, 0.125), (-0.25, -0.375)])
    b = a.copy()
    ia.agent_obstacle(a, o)
    pair = ia.interaction_agent_circular_obstacle if kind == 'circular' else ia.interaction_agent_three_circle_obstacle
    parts = []
    for i in range(n):
        for w in range(m):
            p = alone(b)
            pair(i, w, p, o)
            parts.append(p)
    same_sum(S, a, b, parts)


@harness(bounds='arrays of points and of obstacles instead of agents')
def other_types(S):
    a = S.np.zeros(2, dtype=[('position', S.np.float64, 2), ('radius', S.np.float64), ('force', S.np.float64, 2)])
    a['position'][0, 0] = S.real('x', -2, 2)
    a['position'][1, 1] = S.real('y', -2, 2)
    o = obstacles(S, [((-1.0, 0.0), (1.0, 0.0))])
    for name, fn in (('agents', lambda: ia.agent_agent_block_list(a, 1.0)), ('obstacles', lambda: ia.agent_obstacle(a, o)),
                     ('obstacles as agents', lambda: ia.agent_obstacle(o, o))):
        S.check('refused: ' + name, S.raises(InvalidType, fn) is not None)


@harness(configs=[dict(kind=k, m=40, at=w) for k in KINDS for w in (0, 39)], thorough=[dict(kind=k, m=m, at=w) for k in KINDS for m in (40, 150) for w in (0, 17, m - 1)],
         bounds='one agent anywhere on a line among 40 (thorough: 150) walls, only the first, one in the middle or the last of them near')
def many_walls(S, kind, m, at):
    S.coarse(100)
    o = obstacles(S, [((-1.0, 0.0), (1.0, 0.0)) if k == at else ((10.0 + k, -1.0), (10.0 + k, 1.0 + k)) for k in range(m)])
    x = S.real('x', -2, 2)
    a = still(S, kind, 1, 1.0, [(x, 0.25)])
    b = a.copy()
    ia.agent_obstacle(a, o)
    p = alone(b)
    (ia.interaction_agent_circular_obstacle if kind == 'circular' else ia.interaction_agent_three_circle_obstacle)(0, at, p, o)
    same_sum(S, a, b, [p])


@harness(configs=[dict(kind=k, n=n, at=w) for k in KINDS for n, w in ((24, 0), (24, 23), (30, 11))], thorough=[dict(kind=k, n=60, at=w) for k in KINDS for w in (0, 30, 59)],
         bounds='24 or 30 (thorough: 60) agents, all but one in a row out of reach of each other, that one anywhere along the row; walls next to two of them',
         assumes=['cell_lists: stand-in with its documented meaning'])
def many_agents(S, kind, n, at):
    S.coarse(100)
    x = S.real('x', 4, 6)
    a = still(S, kind, n, 1.0, [(x, 0.5) if k == at else (1.25 * (k if k < at else k - 1) + 0.0625, 0.125) for k in range(n)])
    o = obstacles(S, [((1.0, -0.0625), (2.0, -0.0625)), ((1.25 * (n - 2), -0.125), (1.25 * n, -0.125))])
    b = a.copy()
    ia.agent_agent_block_list(a, 1.0)
    ia.agent_obstacle(a, o)
    parts = []
    for i in range(n):
        for j in range(i + 1, n):
            if at in (i, j) and 3 < float(b['position'][i + j - at, 0]) < 7:
                parts.append(alone(b))
                (ia.interaction_agent_agent_circular if kind == 'circular' else ia.interaction_agent_agent_three_circle)(i, j, parts[-1])
        for w in range(2):
            parts.append(alone(b))
            (ia.interaction_agent_circular_obstacle if kind == 'circular' else ia.interaction_agent_three_circle_obstacle)(i, w, parts[-1], o)
    same_sum(S, a, b, parts)
