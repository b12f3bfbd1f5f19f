"""C19 herding"""
import math
from types import SimpleNamespace
from cell_lists import add_to_cells, neighboring_cells
from shapely.geometry import LineString
from crowddynamics.core.steering.collective_motion import find_nearest_neighbors, herding_interaction, leader_follower_with_herding_interaction
from crowddynamics.core.sensory_region import is_obstacle_between_points
from crowddynamics.simulation.agents import NO_LEADER, NO_TARGET
from crowddynamics.simulation.logic import LeaderFollowerWithHerding
from symx import stubs
from symx.reg import harness
from harness.util import crowd, unchanged, obstacles
from harness.c18 import unit, expected, behind, WALLS

MISSING = -1


def table(S, p, sight, k, o, flip=False):
    points, count, offset, shape = add_to_cells(p, sight)
    stubs.HOOKS['cell_order'] = flip
    t = find_nearest_neighbors(p, sight, k, S.np.arange(len(count)), neighboring_cells(shape), points, count, offset, o)
    stubs.HOOKS.pop('cell_order', None)
    return t


@harness(configs=[dict(n=4, k=2, w=0, flip=False), dict(n=4, k=1, w=1, flip=True), dict(n=4, k=3, w=1, flip=False), dict(n=3, k=3, w=0, flip=True),
                  dict(n=3, k=0, w=0, flip=False), dict(n=10, k=8, w=0, flip=False)],
         thorough=[dict(n=n, k=k, w=w, flip=f) for n in (4, 5) for k in (1, 2, 3) for w in (0, 1) for f in (False, True)],
         bounds='3 to 5 agents, one anywhere on a line of length 8, tables of 0 to 3 neighbours (also ten agents, a line of length 1 and tables of 8), sight 1.5, up to one wall, both visiting orders',
         assumes=['cell_lists: stand-in with its documented meaning', 'two agents at exactly the same distance: either may be listed'])
def nearest(S, n, k, w, flip):
    S.coarse(60)
    x = S.real('x', -4, 4) if n < 6 else S.real('x', -0.5, 0.5)
    p = S.np.zeros((n, 2))
    for i, q in enumerate([(x, 0.25 * x + 0.5), (1.0, 0.5), (-0.5, 1.0), (0.25, -0.75), (2.0, 0.0), (0.0, 0.25), (0.3125, 0.1875), (-0.1875, 0.4375), (0.5, 0.0), (0.125, 0.625)][:n]):
        p[i, 0] = q[0]
        p[i, 1] = q[1]
    sight = 1.5
    o = obstacles(S, [((0.5, -1.0), (0.5, 0.75))][:w])
    t = table(S, p, sight, k, o, flip)
    S.check('shape of the table', tuple(t.shape) == (n, k))
    for i in range(n):
        d = {j: S.norm(p[i] - p[j]) for j in range(n) if j != i}
        near = [j for j in d if S.branch(S.lt(d[j], sight)) and not is_obstacle_between_points(p[i], p[j], o)]
        got = [int(t[i, c]) for c in range(k)]
        listed = [j for j in got if j != MISSING]
        S.check('nobody twice', len(set(listed)) == len(listed))
        S.check('only visible agents within sight', all(j in near for j in listed))
        S.check('as many as there are', len(listed) == min(k, len(near)))
        if all(j in d for j in listed):
            for m in near:
                if m not in listed:
                    S.check('the nearest ones', S.and_(*[S.le(d[j], d[m]) for j in listed]))
    S.observe('table', t)


def heads_away(S, b, i, j, phi):
    """the leader-follower relationship, first agent"""
    return S.branch(behind(S, b['position'][i], b['position'][j], b['velocity'][i], b['velocity'][j], phi))


def herd(S, b, i, neighbors, weight, phi):
    """direction of a herding agent, or None"""
    found = [j for j in neighbors if j != MISSING and heads_away(S, b, i, j, phi)]
    if not found:
        return None
    p = [sum(b['position'][j, c] for j in found) / len(found) - b['position'][i, c] for c in (0, 1)]
    v = [sum(b['velocity'][j, c] for j in found) for c in (0, 1)]
    for q in (p, v):
        S.assume(S.lt(0, S.norm(S.np.array(q))))
    p, v = unit(S, p), unit(S, v)
    way = [weight * p[c] + (1 - weight) * v[c] for c in (0, 1)]
    S.assume(S.lt(0, S.norm(S.np.array(way))))
    return way


def parallel(S, name, got, way):
    """got = way / |way|"""
    n = S.norm(S.np.array(way))
    S.equal(name, [got[0] * n, got[1] * n], way)


GROUPS = [dict(neighbors=((-1, 1), (-1, 0), (-1, 0)), vel=((1.0, 0.0), (0.6, 0.8), (1.0, -0.5)), phi=0.45 * math.pi),
          dict(neighbors=((1, 2), (0, -1), (-1, -1)), vel=((1.0, 0.0), (0.6, 0.8), (1.0, -0.5)), phi=0.45 * math.pi),
          dict(neighbors=((-1, 1), (2, 0), (0, 1)), vel=((0.0, 0.0), (1.0, 0.0), (-1.0, 0.5)), phi=0.45 * math.pi),
          dict(neighbors=((1, 2), (0, 2), (-1, 1)), vel=((2.0 ** -9, 0.0), (0.6 * 2.0 ** -6, 0.8 * 2.0 ** -6), (2.0 ** -12, -2.0 ** -13)), phi=0.45 * math.pi),
          dict(neighbors=((2, 1, -1), (0, 2, -1), (1, 0, -1)), vel=((0.5, 0.5), (1.0, 0.25), (0.0, 0.0)), phi=1.0)]


@harness(configs=GROUPS, bounds='three agents, one anywhere on a line of length 8, fixed velocities and neighbour tables, any set of herding agents, any weight')
def direction(S, neighbors, vel, phi):
    S.coarse(60)
    x = S.real('x', -4, 4)
    b = crowd(S, 'circular', 3, dict(position=lambda i: [(x, 0.25 * x + 0.5), (1.0, 0.5), (-0.5, 1.0)][i], velocity=lambda i: vel[i],
                                     is_follower='bool'))
    for i, j in ((0, 1), (0, 2)):
        S.assume(S.lt(0, S.norm(b['position'][i] - b['position'][j])))
    weight = S.choice('weight', [0.15, 0.75])
    want = {i: herd(S, b, i, neighbors[i], weight, phi) for i in range(3) if S.branch(b['is_follower'][i])}
    way, has = herding_interaction(b['is_follower'], b['position'], b['velocity'], S.np.array([list(r) for r in neighbors]), weight, phi)
    for i in range(3):
        w = want.get(i)
        S.check('has a new direction', S.iff(has[i], w is not None))
        if w is None:
            S.equal('no direction', way[i], [0.0, 0.0])
        else:
            parallel(S, 'direction', way[i], w)
    S.observe('has', has)


@harness(configs=[dict(roles='ffl', w=0, k=2, vel=((1.0, 0.0), (0.6, 0.8), (1.0, 0.5))), dict(roles='fof', w=1, k=1, vel=((0.75, 1.0), (1.0, 0.0), (0.5, 1.0))),
                  dict(roles='flf', w=1, k=2, vel=((0.5, 0.25), (1.0, 0.0), (0.0, 0.0))),
                 dict(roles='ffo', w=0, k=2, vel=((1.0, 0.0), (0.6, 0.8), (1.0, 0.5)), sight=7.0)],
         bounds='a simulation with three agents, one anywhere on a line of length 8, fixed velocities, one wall or none, any targets, remembered leaders and '
                'familiar exits')
def node(S, roles, w, k, vel, sight=1.75):
    S.coarse(60)
    x = S.real('x', -4, 4)
    m = 1.0 if sight < 2 else 4.0
    at = [(m * x, m * (0.25 * x + 0.5)), (m * 1.0, m * 0.5), (m * -0.5, m * 1.0)]
    leaders = [i for i in range(3) if roles[i] == 'l']
    a = crowd(S, 'circular', 3, dict(is_follower=lambda i: roles[i] == 'f', is_leader=lambda i: roles[i] == 'l', position=lambda i: at[i],
                                     velocity=lambda i: vel[i], target=lambda i: S.int('target%d' % i, -1, 2), familiar_exit=lambda i: S.int('exit%d' % i, -1, 2),
                                     target_direction=(-1, 1),
                                     index_leader=lambda i: S.choice('memory%d' % i, [NO_LEADER] + leaders) if roles[i] == 'f' else NO_LEADER))
    for i, j in ((0, 1), (0, 2)):
        S.assume(S.lt(0, S.norm(a['position'][i] - a['position'][j])))
    b = a.copy()
    lines = [((0.5, -1.0), (0.5, 0.75))][:w]
    o = obstacles(S, lines)
    t = table(S, b['position'], sight, k, o)
    sim = SimpleNamespace(agents=SimpleNamespace(array=a), field=SimpleNamespace(obstacles=LineString(lines[0]) if w else None), data={})
    LeaderFollowerWithHerding(sim, sight_follower=sight, size_nearest_other=k).update()
    unchanged(S, 'other attributes', a, b, skip=('target', 'index_leader', 'target_direction'))
    for i in range(3):
        if roles[i] != 'f':
            S.check('not a follower: unchanged', S.and_(S.eq(a['target'][i], b['target'][i]), S.eq(a['index_leader'][i], b['index_leader'][i]),
                                                        S.eq(a['target_direction'][i, 0], b['target_direction'][i, 0]),
                                                        S.eq(a['target_direction'][i, 1], b['target_direction'][i, 1])))
            continue
        h = herd(S, b, i, [int(v) for v in t[i]], 0.15, 0.45 * math.pi)
        c = b.copy()
        if h is not None:
            c['target'][i] = NO_TARGET
        target, leader, l = expected(S, c, o, i, roles, 20.0)
        if l is None and leader == NO_LEADER:
            target = b['familiar_exit'][i] if h is None else NO_TARGET
        S.check('target', S.eq(a['target'][i], target))
        S.check('remembered leader', S.eq(a['index_leader'][i], leader))
        way = [0.0, 0.0]
        for part, share in ((l, 0.65), (h, 0.35)):
            if part is not None:
                n = S.norm(S.np.array(part))
                S.assume(S.lt(0, n))
                way = [way[0] + share * part[0] / n, way[1] + share * part[1] / n]
        if l is None and h is None:
            S.equal('no direction of its own', a['target_direction'][i], [0.0, 0.0])
        else:
            S.assume(S.lt(0, S.norm(S.np.array(way))))
            parallel(S, 'direction', a['target_direction'][i], way)
    S.observe('target', a['target'])
