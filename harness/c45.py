"""C45 example simulations start with the agents they declare"""
from crowddynamics.core.geometry import geom_to_linear_obstacles
from crowddynamics.core.distance import distance_circle_line, distance_three_circle_line
from crowddynamics.core.vector2D import unit_vector
from crowddynamics.examples import fields, simulations, collective_motion, validation
from crowddynamics.simulation import field as field_module
from crowddynamics.simulation.agents import Circular, ThreeCircle, NO_TARGET, NO_LEADER
from shapely.geometry import Polygon
from harness import geo
from symx import stubs
from symx.reg import harness

KIND = {'Circular': Circular, 'ThreeCircle': ThreeCircle}
BODY = dict(radius=(0.255, 0.035), target_velocity=(1.25, 0.3), mass=(73.5, 8.0))
RATIO = dict(r_t=0.5882, r_s=0.3725, r_ts=0.6275)
# sides of the spawn on which a wall runs along its whole length
WALLED = {'OutdoorField': '', 'HallwayField': 'bt', 'ClosedRoom': 'lrbt', 'RoomWithOneExit': 'lbt', 'Rounding': 'lb', 'AvoidObstacle': 'l',
          'FourExitsField': ''}


class Grown(object):
    def __init__(self, g, r):
        self.g, self.r = g, r


class Room(object):
    """spawn without the grown obstacles; its hull is the spawn without a strip along every walled side"""

    def __init__(self, np, spawn, grown, sides):
        self.np, self.spawn, self.grown, self.sides = np, spawn, grown, sides

    is_empty = False

    def intersects(self, p):
        """in the spawn (with its border), not closer to an obstacle than the radius"""
        (x, y), (x0, y0, x1, y1) = p.coords[0], self.spawn.bounds
        if not (x0 - 1e-9 <= x <= x1 + 1e-9 and y0 - 1e-9 <= y <= y1 + 1e-9):
            return False
        at = self.np.array((x, y))
        return all(distance_circle_line(at, self.grown.r, o['p0'], o['p1'])[0] >= -1e-9 for o in geom_to_linear_obstacles(self.grown.g))

    covers = contains = intersects

    @property
    def convex_hull(self):
        x0, y0, x1, y1 = self.spawn.bounds
        r = self.grown.r
        x0, y0 = x0 + ('l' in self.sides) * r, y0 + ('b' in self.sides) * r
        x1, y1 = x1 - ('r' in self.sides) * r, y1 - ('t' in self.sides) * r
        door = doorway(self.grown.g, self.spawn) if self.sides == 'lbt' else None
        if door and door[0] + r < door[1] - r:  # bulges into the doorway on the right
            return Polygon([(x0, y0), (x0, y1), (x1 - r, y1), (x1, door[1] - r), (x1, door[0] + r), (x1 - r, y0)])
        return Polygon([(x0, y0), (x0, y1), (x1, y1), (x1, y0)])


def doorway(obstacles, spawn):
    """the gap between the two blocks right of the room"""
    ys = sorted(g.bounds[k] for g in obstacles.geoms if g.type == 'Polygon' for k in (1, 3))
    return ys[1:3] if len(ys) == 4 else None


def environment(S, scene, where):
    """samples come from the rectangle that is given; `where` lists the places (fractions of its sides) of the samples, in order"""
    stubs.HOOKS['buffer'] = Grown
    stubs.HOOKS['difference'] = lambda a, b: Room(S.np, a, b, WALLED.get(scene, '')) if isinstance(b, Grown) else geo.Cut(a, b)
    stubs.HOOKS['convex_hull'] = geo.hull

    given = []

    def polygon_sample(vertices):
        xs, ys = [v[0] for v in vertices], [v[1] for v in vertices]
        x0, x1, y0, y1 = min(xs), max(xs), min(ys), max(ys)
        while True:
            u, v = next(where)
            if u == 'edge':
                a, b = list(zip(xs, ys))[v % (len(xs) - 1):][:2]
                given.append(S.np.array(((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)))
            else:
                given.append(S.np.array((x0 + u * (x1 - x0), y0 + v * (y1 - y0))))
            yield given[-1]
    field_module.polygon_sample = polygon_sample
    return given


def places(first=()):
    """fractions of the sides of the sampled rectangle: given ones, then a scatter of points"""
    for p in first:
        yield p
    k = 0
    while True:
        k += 1
        yield (0.5 + 0.25 * k) % 0.9375 + 0.03125, (0.3125 * k) % 0.875 + 0.0625


def unit(S, phi):
    return [S.np.cos(phi), S.np.sin(phi)]


def between(S, name, x, mean, scale):
    S.check(name, S.between(mean - scale, x, mean + scale))


def examine(S, sim, kind, groups):
    """groups: dicts with count, spawn (bounds) or place, and the values of the fields"""
    a = sim.agents.array
    S.check('agent type', sim.agents.agent_type is KIND[kind] and a.dtype == KIND[kind].dtype())
    S.check('number of agents', len(a) == sum(g['count'] for g in groups))
    i = 0
    for g in groups:
        for _ in range(g['count']):
            x = a[i]
            S.check('active', S.and_(x['active'], S.not_(x['target_reached'])))
            S.equal('leader', x['is_leader'], g.get('leader', False))
            S.equal('follower', x['is_follower'], g.get('follower', False))
            S.equal('leader of the agent', x['index_leader'], NO_LEADER)
            for f in ('target', 'familiar_exit'):
                want = g.get(f, NO_TARGET)
                if isinstance(want, tuple):
                    S.check(f, S.and_(S.le(want[0], x[f]), S.lt(x[f], want[1])))
                else:
                    S.equal(f, x[f], want)
            if g.get('body', 'adult') == 'adult':
                for f, (mean, scale) in BODY.items():
                    between(S, f, x[f], mean, scale)
            else:
                for f, (mean, scale) in g['body'].items():
                    S.equal(f, x[f], mean)
            if kind == 'ThreeCircle':
                for f, ratio in RATIO.items():
                    S.equal(f, x[f], ratio * x['radius'])
                phi = x['orientation']
                S.check('orientation', S.between(-S.np.pi, phi, S.np.pi))
                S.equal('target orientation', x['target_orientation'], phi)
                S.equal('angular velocity', x['angular_velocity'], 0)
                if 'orientation' in g:
                    S.equal('orientation', phi, g['orientation'])
            for f in ('velocity', 'target_direction'):
                if not g['moving']:
                    S.equal(f, x[f], [0, 0])
                elif 'orientation' in g:
                    S.equal(f, x[f], unit_vector(g['orientation']))
                elif kind == 'ThreeCircle':
                    S.equal(f, x[f], unit_vector(x['orientation']))
                else:
                    S.check(f, S.eq(x[f][0] * x[f][0] + x[f][1] * x[f][1], 1))
            if not kind == 'ThreeCircle' and g['moving']:
                S.equal('heads where it walks', x['target_direction'], x['velocity'])
            p = x['position']
            if 'place' in g:
                S.equal('place', p, g['place'])
            else:
                x0, y0, x1, y1 = g['spawn']
                S.check('in its spawn', S.and_(S.le(x0, p[0]), S.le(p[0], x1), S.le(y0, p[1]), S.le(p[1], y1)))
            i += 1
    S.observe('a', [a['position'], a['velocity'], a['radius']])


def apart(S, sim, kind, name, given):
    """no agent overlaps a wall"""
    a = sim.agents.array
    obstacles = geom_to_linear_obstacles(sim.field.obstacles)
    for x in a:
        for o in obstacles:
            if kind == 'Circular':
                h = distance_circle_line(x['position'], x['radius'], o['p0'], o['p1'])[0]
            else:
                h = distance_three_circle_line((x['position'], x['position_ls'], x['position_rs']), (x['r_t'], x['r_s'], x['r_s']), o['p0'], o['p1'])[0]
            S.check('no overlap with a wall', S.le(0, h))


# simulation -> (class, scene, groups of the sizes and sides)
def outdoor(S, sizes, kind, w, h):
    n, = sizes
    return (simulations.Outdoor, 'OutdoorField', dict(size=n, width=w, height=h),
            [dict(count=n, spawn=(0, 0, w, h), moving=True)])


def hallway(S, sizes, kind, w, h):
    n, = sizes
    r = S.choice('ratio', [0.25, 0.5])
    return (simulations.Hallway, 'HallwayField', dict(size=n, width=w, height=h, ratio=r),
            [dict(count=n // 2, spawn=(0, 0, r * w, h), moving=True, orientation=0.0, target=1),
             dict(count=n // 2, spawn=(w - r * w, 0, w, h), moving=True, orientation=S.np.pi, target=0)])


def one_exit(S, sizes, kind, w, h):
    n, = sizes
    return (simulations.RoomWithOneExit, 'RoomWithOneExit', dict(size=n, width=w, height=h, exit_width=S.choice('exit', [1.0, 3.0]), exit_hall_width=4),
            [dict(count=n, spawn=(0, 0, w, h), moving=True, orientation=0.0, target=0)])


def four_exits(S, sizes, kind, w, h):
    n, = sizes
    return (simulations.FourExitsRandomPlacing, 'FourExitsField', dict(size=n, exit_width=1.5),
            [dict(count=n, spawn=(0, 0, 100, 80), moving=False, target=(0, 4), familiar_exit=(0, 4))])


def led_outdoor(S, sizes, kind, w, h):
    n, m = sizes
    hr, vr = 0.75, 0.75
    return (collective_motion.Outdoor, 'OutdoorField', dict(size_leaders=n, size_herding=m, width=w, height=h, horizontal_ratio=hr, vertical_ratio=vr),
            [dict(count=n, place=(hr * w, vr * h), moving=True, orientation=0.0, leader=True),
             dict(count=m, spawn=(0, 0, w, h), moving=True, follower=True)])


def led_closed(S, sizes, kind, w, h):
    n, m = sizes
    box = (0, 0, w, h)
    return (collective_motion.ClosedRoom, 'ClosedRoom', dict(size_leaders=n, size_herding=m, width=w, height=h),
            [dict(count=n, spawn=box, moving=True, leader=True), dict(count=m, spawn=box, moving=True, follower=True)])


def led_rounding(S, sizes, kind, w, h):
    n, m = sizes
    box = (0, 0, w / 2, h / 2)
    return (collective_motion.Rounding, 'Rounding', dict(size_leaders=n, size_herding=m, width=w, height=h),
            [dict(count=n, spawn=box, moving=False, leader=True, target=0), dict(count=m, spawn=box, moving=False, follower=True)])


def led_avoid(S, sizes, kind, w, h):
    n, m = sizes
    r = S.choice('ratio', [0.4375, 0.625])
    return (collective_motion.AvoidObstacle, 'AvoidObstacle', dict(size_leaders=n, size_herding=m, width=w, height=h, exit_width=S.choice('exit', [1.0, 3.0]), ratio_obs=r),
            [dict(count=n, spawn=(0, h / 2, r * w, h), moving=False, leader=True, target=0),
             dict(count=m, spawn=(0, 0, r * w, h), moving=False, follower=True)])


def led_exits(S, sizes, kind, w, h):
    n, m = sizes
    box = (0, 0, 100, 80)
    return (collective_motion.FourExitsRandomPlacing, 'FourExitsField', dict(size_leaders=n, size_herding=m, exit_width=1.5),
            [dict(count=n, spawn=box, moving=False, leader=True, target=(0, 4), familiar_exit=(0, 4)),
             dict(count=m, spawn=box, moving=False, follower=True, familiar_exit=(0, 4))])


def led_fixed(S, sizes, kind, w, h):
    n, m = sizes
    at = [(25, 45, 35, 55), (80, 65, 90, 75), (75, 35, 85, 45), (35, 5, 45, 15)]
    return (collective_motion.FourExitsFixedPlacing, 'FourExitsField', dict(size_herding=m, exit_width=1.5),
            [dict(count=1, spawn=at[i], moving=False, leader=True, target=i, familiar_exit=(0, 4)) for i in range(4)] +
            [dict(count=m, spawn=(0, 0, 100, 80), moving=False, follower=True, familiar_exit=(0, 4))])


SIMS = dict(outdoor=outdoor, hallway=hallway, one_exit=one_exit, four_exits=four_exits, led_outdoor=led_outdoor, led_closed=led_closed,
            led_rounding=led_rounding, led_avoid=led_avoid, led_exits=led_exits, led_fixed=led_fixed)
SIZES = dict(outdoor=[(1,), (2,)], hallway=[(2,)], one_exit=[(1,), (2,)], four_exits=[(1,)], led_outdoor=[(1, 1), (0, 1), (1, 0)],
             led_closed=[(1, 1), (0, 2), (1, 0)], led_rounding=[(1, 1), (0, 1), (1, 0)], led_avoid=[(1, 1), (0, 1), (1, 0)],
             led_exits=[(1, 1), (0, 1), (1, 0)], led_fixed=[(4, 1)])


@harness([dict(sim=s, kind=k, sizes=n) for s in SIMS for n in SIZES[s] for k in KIND],
         bounds='every example simulation with up to two agents per group, rooms of 20 x 12 and 9 x 16, two values of ratios and exit widths, any random draws; places of the agents scattered over the spawn')
def declared(S, sim, kind, sizes):
    w, h = S.choice('room', [(20.0, 12.0), (9.0, 16.0)])
    cls, scene, kw, groups = SIMS[sim](S, sizes, kind, w, h)
    environment(S, scene, places())
    if kind == 'ThreeCircle' and scene in ('Rounding', 'AvoidObstacle', 'FourExitsField'):  # turned bodies against many walls
        turn = S.choice('turn', [0.0625, 0.71875])
        draws = []

        def u():
            draws.append(1)
            return (turn + 0.21875 * len(draws)) % 1.0
        stubs.HOOKS['u'] = u
    s = cls(agent_type=KIND[kind], **kw)
    examine(S, s, kind, groups)


# candidates close to a wall (fractions of the sides of the sampled rectangle)
NEAR = dict(outdoor=[], hallway=[(0.5, 0.0), (0.25, 1.0)], one_exit=[('edge', i) for i in range(6)], led_closed=[(0.0, 0.0), (1.0, 0.5)],
            led_rounding=[(0.5, 1.0), (0.0, 0.5)], led_avoid=[(1.0, 0.25), (0.5, 0.0)],
            four_exits=[(0.2, 0.25), (0.7, 0.625)], led_exits=[(0.2, 0.25), (0.7, 0.625)], led_fixed=[(0.0, 0.5), (0.5, 0.0), (1.0, 1.0), (0.0, 0.0)])
ROOMY = dict(SIZES, led_closed=[(1, 1)], led_rounding=[(1, 1)], led_avoid=[(1, 1)], led_exits=[(1, 1)], one_exit=[(1,)])


@harness([dict(sim=s, kind=k, sizes=n) for s in NEAR if NEAR[s] for n in ROOMY[s][:1] for k in KIND],
         bounds='candidate places on the rim of the sampled area or on walls first, then scattered ones; radii as the body type allows')
def walls(S, sim, kind, sizes):
    w, h = S.choice('room', [(20.0, 12.0), (9.0, 16.0)])
    cls, scene, kw, groups = SIMS[sim](S, sizes, kind, w, h)
    first = NEAR[sim]
    k = S.choice('first', list(range(len(first))))
    given = environment(S, scene, places(first[k:] + first[:k]))
    if kind == 'ThreeCircle':
        turn = S.choice('turn', [0.0625, 0.71875])
        stubs.HOOKS['u'] = lambda: turn
    s = cls(agent_type=KIND[kind], **kw)
    S.check('all placed', len(s.agents.array) == sum(g['count'] for g in groups))
    if sim == 'led_fixed':
        examine(S, s, kind, groups)
    apart(S, s, kind, sim, given)


@harness([dict(test=t, kind=k) for t in ('TestMovement', 'TestAgentInteraction') for k in KIND],
         bounds='the two validation simulations, either agent type, also set a second time')
def validations(S, test, kind):
    given = dict(radius=(0.255, 0), target_velocity=(1.0, 0), mass=(73.5, 0))
    cls = getattr(validation, test)
    s = cls()
    S.check('no agents before the type is known', s.agents is None)
    if S.branch(S.bool('other type first')):
        s.agent_type = KIND['Circular' if kind == 'ThreeCircle' else 'ThreeCircle']
    s.agent_type = KIND[kind]
    common = dict(count=1, moving=True, body=given)
    if test == 'TestMovement':
        groups = [dict(common, place=(0, 0), orientation=0.0)]
    else:
        groups = [dict(common, place=(0, 0), orientation=0.0), dict(common, place=(5, 0), orientation=S.np.pi)]
    examine(S, s, kind, groups)
    S.check('field', s.field.domain.bounds == (0, 0, 20, 10))


BEFORE = [('Fluctuation', 'Integrator'), ('Adjusting', 'Integrator'), ('AgentAgentInteractions', 'Integrator'), ('AgentObstacleInteractions', 'Integrator'),
          ('Navigation', 'Adjusting'), ('Orientation', 'Adjusting'), ('LeaderFollowerWithHerding', 'Adjusting'), ('LeaderFollower', 'Navigation'), ('LeaderFollowerWithHerding', 'Navigation'),
          ('ExitDetection', 'Navigation'),
          ('Integrator', 'Reset')]
PARTS = dict(outdoor='Fluctuation Adjusting Orientation AgentAgentInteractions Integrator Reset',
             hallway='Fluctuation Adjusting Orientation Navigation AgentAgentInteractions AgentObstacleInteractions Integrator InsideDomain Reset',
             led_outdoor='Fluctuation Adjusting Orientation LeaderFollowerWithHerding AgentAgentInteractions Integrator Reset',
             led_closed='Fluctuation Adjusting Orientation LeaderFollowerWithHerding AgentAgentInteractions AgentObstacleInteractions Integrator Reset',
             TestMovement='Adjusting Orientation Integrator Reset',
             TestAgentInteraction='Fluctuation Adjusting Orientation AgentAgentInteractions Integrator Reset')
PARTS['one_exit'] = PARTS['four_exits'] = PARTS['hallway']
PARTS['led_rounding'] = PARTS['hallway'] + ' LeaderFollowerWithHerding'
PARTS['led_avoid'] = PARTS['led_rounding'] + ' ExitDetection'
PARTS['led_exits'] = PARTS['led_fixed'] = PARTS['hallway'] + ' ExitDetection LeaderFollower'


MOVEMENT = ['Integrator', 'Adjusting', 'Orientation', 'Reset']


@harness([dict(sim=s) for s in PARTS], bounds='one update of every example simulation, its nodes replaced by recorders')
def order(S, sim):
    if sim in ('TestMovement', 'TestAgentInteraction'):
        cls, scene, kw = getattr(validation, sim), 'OutdoorField', {}
    else:
        cls, scene, kw, _ = SIMS[sim](S, SIZES[sim][0], 'Circular', 20.0, 12.0)
    environment(S, scene, places())
    s = cls(**kw)
    done = []

    def recorder(node):
        return lambda: done.append((type(node).__name__, node.simulation))
    nodes = [s.logic.root] + list(s.logic.root.descendants)
    for n in nodes:
        n.update = recorder(n)
    s.update()
    names = [n for n, _ in done]
    S.check('every part once', sorted(names) == sorted(PARTS[sim].split()))
    S.check('of this simulation', all(x is s for _, x in done))
    for a, b in BEFORE:
        if a in names and b in names and sim == 'TestMovement':  # finding: the force is computed after it was integrated, then reset
            S.check_known('F2', '%s before %s' % (a, b), names.index(a) < names.index(b), names == MOVEMENT)
        elif a in names and b in names:
            S.check('%s before %s' % (a, b), names.index(a) < names.index(b))
    if sim == 'TestMovement':
        S.check_known('F2', 'forces are reset last', names[-1] == 'Reset', names == MOVEMENT)
    else:
        S.check('forces are reset last', names[-1] == 'Reset')
    S.check('one iteration', s.data['iterations'] == 1)
