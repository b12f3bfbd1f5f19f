"""C35 forces of one iteration"""
from collections import OrderedDict
from types import SimpleNamespace
from shapely.geometry import LineString, MultiLineString
from crowddynamics.core.geometry import geom_to_linear_obstacles
from crowddynamics.core.integrator import velocity_verlet_integrator
from crowddynamics.core.interactions import agent_agent_block_list, agent_obstacle
from crowddynamics.core.motion.adjusting import force_adjust, torque_adjust
from crowddynamics.core.steering.orientation import orient_towards_target_direction
from crowddynamics.simulation import logic
from crowddynamics.simulation.multiagent import MultiAgentSimulation
from harness.util import crowd, unchanged, dtype, place_shoulders, KINDS
from symx import stubs
from symx.reg import harness

WALLS = {'none': None, 'line': LineString([(-2.0, -0.125), (2.0, -0.125)]),
         'two': MultiLineString([[(-2.0, -0.125), (2.0, -0.125)], [(0.25, -3.0), (0.25, 3.0)]])}


def simulation(a, walls=None, targets=()):
    return SimpleNamespace(agents=SimpleNamespace(array=a), data=OrderedDict(dt=0.0, time_tot=0.0),
                           field=SimpleNamespace(obstacles=walls, targets=list(targets)))


@harness(configs=[dict(kind=k, n=n) for k in KINDS for n in (0, 1, 2)], bounds='up to 2 agents, all attributes anything')
def reset(S, kind, n):
    d = dtype(kind)
    spec = {f: (-9, 9) if d[f].base.kind == 'f' else 'bool' if d[f].base.kind == 'b' else (lambda f: lambda i: S.int('%s%d' % (f, i), -1, 5))(f) for f in d.names}
    a = crowd(S, kind, n, spec, fill='any')
    b = a.copy()
    logic.Reset(simulation(a)).update()
    sums = ('force', 'torque')
    for i in range(n):
        S.equal('force cleared', a['force'][i], [0.0, 0.0])
        if kind == 'three_circle':
            S.equal('torque cleared', a['torque'][i], 0.0)
    unchanged(S, 'rest kept', a, b, sums)


def state(S, kind, n, **more):
    """two agents in contact (also with the walls), the third apart"""
    spec = dict(position=lambda i: [(0.0625, 0.03125), (0.4375, 0.15625), (1.5625, 1.03125)][i], velocity=lambda i: [(1.0, 0.5), (-0.5, 0.25), (-1.0, -1.0)][i],
                radius=0.25, r_t=0.1875, r_s=0.125, r_ts=0.125, orientation=lambda i: (0.0, 1.5, -2.0)[i], mu=1000.0, kappa=500.0, damping=50.0,
                k_soc=1.5, tau_0=3.0, mass=(60, 90), inertia_rot=(1, 4), tau_adj=(0.25, 1), tau_rot=(0.25, 1), target_velocity=(0, 2), target_angular_velocity=(0, 3),
                target_orientation=lambda i: (0.5, 1.0, 3.0)[i], target_direction=(-1, 1), angular_velocity=(-2, 2), std_rand_force=(0, 1), std_rand_torque=(0, 1),
                force=(-99, 99), torque=(-99, 99), force_prev=(-9, 9), torque_prev=(-9, 9))
    spec.update(more)
    a = crowd(S, kind, n, spec, fill='any')
    if kind == 'three_circle':
        place_shoulders(S, a)
    return a


def cleared(S, a):
    b = a.copy()
    for i in range(len(a)):
        b['force'][i] = (0.0, 0.0)
        if 'torque' in b.dtype.names:
            b['torque'][i] = 0.0
    return b


def term(S, name, a, walls, log):
    """force and torque of every agent due to one node"""
    b, n = cleared(S, a), len(a)
    if name == 'Adjusting':
        for i in range(n):
            b['force'][i] = force_adjust(a['mass'][i], a['tau_adj'][i], a['target_velocity'][i], a['target_direction'][i], a['velocity'][i])
            if 'torque' in b.dtype.names:
                b['torque'][i] = torque_adjust(a['inertia_rot'][i], a['tau_rot'][i], a['target_orientation'][i], a['orientation'][i],
                                               a['target_angular_velocity'][i], a['angular_velocity'][i])
    elif name == 'AgentAgentInteractions':
        agent_agent_block_list(b, 3.6)
    elif name == 'AgentObstacleInteractions':
        if walls is not None:
            agent_obstacle(b, geom_to_linear_obstacles(walls))
    else:
        angles = [x for k, v in log if k == 'uniform' for x in S._seq(v['result'])]
        z, scale = [], []
        for k, v in log:
            if k == 'truncnorm_z':
                z.append(v)
        S.check('one draw per agent', len(angles) == n and [len(x) for x in z] == [n] * (2 if 'torque' in b.dtype.names else 1))
        for i in range(n):
            size = a['mass'][i] * a['std_rand_force'][i] * z[0][i]
            b['force'][i] = (size * S.np.cos(angles[i]), size * S.np.sin(angles[i]))
            if 'torque' in b.dtype.names:
                b['torque'][i] = a['inertia_rot'][i] * a['std_rand_torque'][i] * z[1][i]
    return b


NODES = ['Fluctuation', 'Adjusting', 'AgentAgentInteractions', 'AgentObstacleInteractions']


def nodes_of(sim):
    return {n: getattr(logic, n)(sim) for n in NODES}


@harness(configs=[dict(kind=k, walls=w, n=2) for k in KINDS for w in ('none', 'two')],
         thorough=[dict(kind=k, walls=w, n=n) for k in KINDS for w in sorted(WALLS) for n in (1, 2, 3)],
         bounds='2 (thorough: up to 3) agents in contact with each other and with walls at fixed places; any mass, inertia, relaxation times, target motion, spin, '
                'fluctuation scales and draws, accumulated force and torque; the four nodes in every order')
def order(S, kind, walls, n):
    a = state(S, kind, n)
    sim = simulation(a, WALLS[walls])
    nodes = nodes_of(sim)
    for name in S.permutation('order', NODES):
        before = a.copy()
        stubs.LOG[:] = []
        nodes[name].update()
        t = term(S, name, before, WALLS[walls], list(stubs.LOG))
        for i in range(n):
            for f in ('force', 'torque'):
                if f in a.dtype.names:
                    S.equal('%s: own term added to the %s' % (name, f), a[f][i], before[f][i] + t[f][i])
        unchanged(S, name + ': rest kept', a, before, ('force', 'torque'))
    S.check('no other record', list(sim.data) == ['dt', 'time_tot'])


@harness(configs=[dict(kind=k, where=w) for k in KINDS for w in ((0.25, 0.25), (3.25, 0.0), (-3.5, 3.5))],
         bounds='two agents at fixed distances up to and beyond the sight, any coefficients of the node')
def reach(S, kind, where):
    """the pair forces do not depend on the cells"""
    a = state(S, kind, 2, position=lambda i: [(0.0, 0.0), tuple(where)][i])
    sight, most = S.choice('sight', [3.0, 3.5]), S.choice('radius', [0.25, 0.375])
    node = logic.AgentAgentInteractions(simulation(a), sight_soc=sight, max_agent_radius=most)
    S.equal('cells hold the sight', node.cell_size, sight + 2 * most)
    b = a.copy()
    node.update()
    from crowddynamics.core import interactions as ia
    pair = getattr(ia, 'interaction_agent_agent_' + kind)
    c, d = b.copy(), b.copy()
    pair(0, 1, c)
    pair(1, 0, d)
    for f in ('force', 'torque'):
        if f in a.dtype.names:
            S.check('one pair interaction: ' + f, S.or_(S.eq(a[f], c[f]), S.eq(a[f], d[f])))
    unchanged(S, 'rest kept', a, b, ('force', 'torque'))


@harness(configs=[dict(kind=k, steps=s) for k in KINDS for s in (2,)], thorough=[dict(kind=k, steps=3) for k in KINDS],
         bounds='one agent on a line, 2 (thorough: 3) updates, any forces; time limits of six kinds')
def integrator(S, kind, steps):
    spec = dict(mass=80.0, inertia_rot=4.0, velocity=lambda i: (S.real('v', 0, 5), 0.0), force=lambda i: (0.0, 0.0), target_velocity=1.0, r_ts=0.125)
    a = crowd(S, kind, 1, spec, fill='any')
    sim = simulation(a)
    lo, hi = S.choice('limits', [(0.01, 0.01), (0.001, 0.1), (0.0, 0.5), (0.03125, 0.0625)])
    t0 = S.real('time', 0, 50)
    sim.data['time_tot'] = t0
    node = logic.Integrator(sim, dt_min=lo, dt_max=hi)
    total = t0
    for k in range(steps):
        a['force'][0] = (S.real('f%d' % k, -80, 80), 0.0)
        b = a.copy()
        node.update()
        dt = velocity_verlet_integrator(b, lo, hi)
        S.equal('timestep', sim.data['dt'], dt)
        total = total + dt
        S.equal('total time', sim.data['time_tot'], total)
        S.check('within the limits', S.between(lo, dt, hi))
        S.check('agents moved by that step', S.field_eq(a, b))


@harness(configs=[dict(kind=k) for k in KINDS], bounds='two agents with any target direction')
def orientation(S, kind):
    a = crowd(S, kind, 2, dict(target_direction=(-1, 1), target_orientation=(-3, 3), orientation=(-3, 3), position=(-9, 9)), fill='any')
    for i in range(2):
        S.assume(S.lt(0.01, S.norm(a['target_direction'][i])))
    b = a.copy()
    logic.Orientation(simulation(a)).update()
    if kind == 'three_circle':
        orient_towards_target_direction(b)
    S.check('three-circle agents only', S.field_eq(a, b))


@harness(configs=[dict(kind=k, walls=w) for k in KINDS for w in ('none', 'two')], bounds='two iterations of a whole simulation of two agents as in order, first forces anything')
def iterations(S, kind, walls):
    a = state(S, kind, 2, velocity=lambda i: (0.0, 0.0))
    sim = MultiAgentSimulation()
    sim.__dict__['agents'] = None
    fake = simulation(a, WALLS[walls])
    fake.data = sim.data
    nodes = nodes_of(fake)
    root = logic.Reset(fake)
    integ = logic.Integrator(fake, dt_min=0.0078125, dt_max=0.0078125)
    root << (integ << (nodes['Fluctuation'], nodes['Adjusting'] << logic.Orientation(fake), nodes['AgentAgentInteractions'], nodes['AgentObstacleInteractions']))
    sim.logic = root
    b = a.copy()
    stubs.LOG[:] = []
    sim.update()
    if kind == 'three_circle':
        orient_towards_target_direction(b)
    log = list(stubs.LOG)
    terms = [term(S, name, b, WALLS[walls], log) for name in NODES]
    for t in terms:
        for i in range(2):
            for f in ('force', 'torque'):
                if f in b.dtype.names:
                    b[f][i] = b[f][i] + t[f][i]
    dt = velocity_verlet_integrator(b, 0.0078125, 0.0078125)
    for i in range(2):
        for f in ('position', 'velocity', 'force_prev'):
            S.equal('moved by the sum of all forces: ' + f, a[f][i], b[f][i])
        if kind == 'three_circle':
            for f in ('angular_velocity', 'torque_prev'):
                S.equal('turned by the sum of all torques: ' + f, a[f][i], b[f][i])
    S.check('forces cleared', S.and_(*[S.eq(a[f], cleared(S, a)[f]) for f in ('force', 'torque') if f in a.dtype.names]))
    S.equal('iterations', sim.data['iterations'], 1)
    S.equal('time', [sim.data['dt'], sim.data['time_tot']], [dt, dt])


@harness(configs=[dict(kind=k, order=o) for k in KINDS for o in (('two', 'line', 'none'), ('none', 'two', 'two'), ('line', 'none', 'line'))],
         bounds='one node asked three times while the field gets other obstacles and its agents move; two agents as in order')
def changed(S, kind, order):
    a = state(S, kind, 2)
    sim = simulation(a)
    node = logic.AgentObstacleInteractions(sim)
    for k, walls in enumerate(order):
        sim.field.obstacles = WALLS[walls]
        b = a.copy()
        node.update()
        if WALLS[walls] is not None:
            agent_obstacle(b, geom_to_linear_obstacles(WALLS[walls]))
        for i in range(2):
            S.equal('force of the walls that are there', a['force'][i], b['force'][i])
            if kind == 'three_circle':
                S.equal('torque of the walls that are there', a['torque'][i], b['torque'][i])
        if k == 0:
            a['position'][0] = (0.125, 0.0625)
            if kind == 'three_circle':
                place_shoulders(S, a)
