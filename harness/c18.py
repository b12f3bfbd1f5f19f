"""C18 followers follow the nearest visible leader that heads away"""
import math
from types import SimpleNamespace
from shapely.geometry import LineString
from crowddynamics.core.steering.collective_motion import leader_follower_interaction, herding_relationship
from crowddynamics.core.vector2D import normalize
from crowddynamics.core.sensory_region import is_obstacle_between_points
from crowddynamics.simulation.agents import NO_LEADER, NO_TARGET
from crowddynamics.simulation.logic import LeaderFollower
from symx.reg import harness
from harness.util import crowd, unchanged, obstacles

WALLS = [((2.0, -1.0), (2.0, 3.0)), ((-1.0, 1.5), (1.0, 2.5)), ((2.5, -1.0), (2.5, 3.0))]


def behind(S, x1, x2, v1, v2, phi):
    """agent 2 does not head towards agent 1; an agent at rest has no such relation"""
    if not S.branch(S.lt(0, S.norm(v1))) or not S.branch(S.lt(0, S.norm(v2))):
        return False
    e, u = x2 - x1, unit(S, v2)
    toward2 = S.lt(math.cos(phi) * S.norm(e), -(e[0] * u[0] + e[1] * u[1]))
    # only if agent 2 heads towards agent 1 (alone or mutually) there is nothing to follow
    return S.not_(toward2)


def unit(S, v):
    """the unit vector (normalisation itself is the subject of C10)"""
    u = normalize(S.np.array([v[0], v[1]]))
    return [u[0], u[1]]


@harness(configs=[dict(phi=0.45 * math.pi, v=((1.0, 0.0), (0.6, 0.8))), dict(phi=math.pi / 2, v=((-0.75, 1.0), (0.0, 2.0))),
                  dict(phi=2.0, v=((1.0, 0.5), (-1.0, 0.25))), dict(phi=0.45 * math.pi, v=((2.0 ** -10, 0.0), (0.0, 2.0 ** -7))), dict(phi=1.0, v=((-2.0 ** -20, 2.0 ** -21), (30.0, 40.0))), dict(phi=0.3, v=((0.0, 0.0), (1.0, 0.25)))],
         bounds='two agents, relative position in [-5, 5]^2, fixed velocities from 2^-21 to 50, limit angles 0.3, 0.45 pi, pi/2, 2')
def relationship(S, phi, v):
    S.coarse(100)
    x1, x2 = S.np.array([0.5, -0.25]), S.vec('x', -5, 5)
    v1, v2 = S.np.array(v[0]), S.np.array(v[1])
    e = x2 - x1
    S.assume(S.lt(0, S.norm(e)))
    away1, away2 = herding_relationship(x1, x2, v1, v2, phi)
    if v[0] == (0.0, 0.0):
        S.check('at rest', S.not_(S.or_(away1, away2)))
        return
    c = math.cos(phi)
    t1 = S.lt(c * S.norm(e) * S.norm(v1), S.dot(e, v1))
    t2 = S.lt(c * S.norm(e) * S.norm(v2), -S.dot(e, v2))
    S.check('first heads away', S.iff(away1, S.not_(t2)))
    S.check('second heads away', S.iff(away2, S.not_(t1)))


SCENES = [
    dict(n=3, roles='fll', w=0, pos=((1.5, 0.5), (-1.0, 2.0)), vel=((1.0, 0.0), (0.6, 0.8), (1.0, 0.5))),
    dict(n=3, roles='lfl', w=1, pos=((3.0, 0.0), (-2.0, 1.0)), vel=((0.0, 1.0), (0.8, -0.6), (-1.0, 0.0))),
    dict(n=3, roles='lfo', w=1, pos=((3.0, 1.0), (1.0, 1.0)), vel=((1.0, 0.0), (0.6, 0.8), (-1.0, 0.0))),
    dict(n=3, roles='ffl', w=2, pos=((0.0, 0.5), (3.0, 2.0)), vel=((0.75, 1.0), (0.5, 0.0), (1.0, 0.25))),
    dict(n=2, roles='fl', w=1, pos=((0.0, 0.0),), vel=((0.0, 0.0), (1.0, 0.0))),
    dict(n=6, roles='flllll', w=3, pos=((2.25, 0.5), (2.25, 1.0), (2.25, 0.0), (2.25, 0.75), (-6.0, 1.0)), vel=((1.0, 0.0), (0.6, 0.8), (1.0, 0.5), (1.0, 0.0), (0.0, 1.0), (-1.0, 0.5))),
]


def scene(S, n, roles, w, pos, vel):
    """agents; the first follower anywhere on a line; any targets, remembered leaders and familiar exits"""
    f = roles.index('f')
    at = list(pos[:f]) + [None] + list(pos[f:])
    x = S.real('x', -4, 4)
    at[f] = S.np.array([x, 0.25 * x + 0.5])
    par = dict(is_follower=lambda i: roles[i] == 'f', is_leader=lambda i: roles[i] == 'l', position=lambda i: at[i], velocity=lambda i: vel[i],
               target=lambda i: S.int('target%d' % i, -1, 2), familiar_exit=lambda i: S.int('exit%d' % i, -1, 2), target_direction=(-1, 1),
               index_leader=lambda i: S.choice('memory%d' % i, [NO_LEADER] + [k for k in range(n) if roles[k] != 'f'][:3]) if roles[i] == 'f' else NO_LEADER)
    return crowd(S, 'circular', n, par), obstacles(S, WALLS[:w])


def expected(S, b, o, i, roles, sight, phi=0.45 * math.pi, weight=0.40):
    """(target, remembered leader, direction or None) of follower i"""
    p = b['position'][i]
    leaders = [k for k in range(len(roles)) if roles[k] == 'l']
    dist = {k: S.norm(p - b['position'][k]) for k in leaders}
    memory = int(b['index_leader'][i])
    todo = [k for k in leaders if S.branch(S.le(dist[k], sight))]
    while todo:
        k = todo[0]
        for m in todo[1:]:
            if S.branch(S.lt(dist[m], dist[k])):
                k = m
        todo.remove(k)
        if is_obstacle_between_points(p, b['position'][k], o):
            if memory == k:
                return b['target'][k], memory, None
        elif S.branch(behind(S, p, b['position'][k], b['velocity'][i], b['velocity'][k], phi)):
            u, v = unit(S, b['position'][k] - p), unit(S, b['velocity'][k])
            return NO_TARGET, k, [weight * u[c] + (1 - weight) * v[c] for c in (0, 1)]
    if memory != NO_LEADER:
        return b['target'][memory], memory, None
    return b['familiar_exit'][i], memory, None


def compare(S, a, b, o, roles, sight, direction):
    unchanged(S, 'other attributes', a, b, skip=('target', 'index_leader', 'target_direction'))
    for i in range(len(roles)):
        if roles[i] != 'f':
            S.check('not a follower: unchanged', S.and_(S.eq(a['target'][i], b['target'][i]), S.eq(a['index_leader'][i], b['index_leader'][i])))
            continue
        # a leader keeps its target, so that the order of the followers does not matter
        target, leader, way = expected(S, b, o, i, roles, sight)
        S.check('target', S.eq(a['target'][i], target))
        S.check('remembered leader', S.eq(a['index_leader'][i], leader))
        d = direction[i]
        if way is None:
            S.equal('no direction of its own', d, [0.0, 0.0])
        else:
            n = S.norm(S.np.array(way))
            S.assume(S.lt(0, n))
            S.equal('direction', [d[0] * n, d[1] * n], way)


@harness(configs=SCENES, bounds='2 to 6 agents, the follower anywhere on a line of length 8, leaders and up to two walls fixed, any sight, targets, '
                                'remembered leaders and familiar exits')
def interaction(S, n, roles, w, pos, vel):
    S.coarse(60)
    a, o = scene(S, n, roles, w, pos, vel)
    b = a.copy()
    sight = S.pos('sight', 20)
    for i in range(n):
        for k in range(n):
            if roles[i] == 'f' and roles[k] == 'l':
                S.assume(S.lt(0, S.norm(a['position'][i] - a['position'][k])))
    direction = leader_follower_interaction(a, o, sight)
    compare(S, a, b, o, roles, sight, direction)
    unchanged(S, 'directions of the array', a, b, skip=('target', 'index_leader'))
    S.observe('target', a['target'])


@harness(configs=[dict(SCENES[1], n=3), dict(SCENES[4])], bounds='the same in a simulation with a field with or without walls')
def node(S, n, roles, w, pos, vel):
    S.coarse(60)
    a, o = scene(S, n, roles, w, pos, vel)
    b = a.copy()
    sight = S.pos('sight', 20)
    for i in range(n):
        for k in range(n):
            if roles[i] == 'f' and roles[k] == 'l':
                S.assume(S.lt(0, S.norm(a['position'][i] - a['position'][k])))
    walls = LineString(WALLS[0]) if w else None
    sim = SimpleNamespace(agents=SimpleNamespace(array=a), field=SimpleNamespace(obstacles=walls), data={})
    LeaderFollower(sim, sight=sight).update()
    compare(S, a, b, o, roles, sight, [a['target_direction'][i] for i in range(n)])
    for i in range(n):
        if roles[i] != 'f':
            S.equal('not a follower: direction', a['target_direction'][i], b['target_direction'][i])
