"""C34 active agents and reached targets"""
from collections import OrderedDict
from types import SimpleNamespace
from shapely.geometry import LineString, Polygon
from crowddynamics.simulation.logic import InsideDomain, TargetReached
from harness.util import crowd
from symx.reg import harness

SHAPES = {'triangle': [(0, 0), (8, 0), (2, 6)], 'L': [(-4, -4), (4, -4), (4, 0), (0, 0), (0, 4), (-4, 4)],
          'clockwise': [(0, 0), (0, 6), (6, 6), (6, 0)]}


def simulation(S, kind, n, domain=None, targets=()):
    a = crowd(S, kind, n, dict(mass=80.0, active=lambda i: S.bool('active%d' % i)), fill='any')
    return SimpleNamespace(agents=SimpleNamespace(array=a), field=SimpleNamespace(domain=domain, targets=list(targets)), data=OrderedDict())


def inside(S, shape, p):
    """crossing number; positions on an edge are assumed away"""
    out = False
    for a, b in zip(shape, shape[1:] + shape[:1]):
        side = S.cross([b[0] - a[0], b[1] - a[1]], [p[0] - a[0], p[1] - a[1]])
        if S.branch(S.le(a[1], p[1])) != S.branch(S.le(b[1], p[1])):
            S.assume(S.or_(S.lt(1e-3, side), S.lt(side, -1e-3)))
            if S.branch(S.lt(0, side)) == (b[1] > a[1]):
                out = not out
        elif a[1] == b[1]:
            S.assume(S.or_(S.lt(p[1], a[1] - 1e-3), S.lt(a[1] + 1e-3, p[1])))
        else:
            for v in (a, b):
                S.assume(S.or_(S.lt(p[1], v[1] - 1e-3), S.lt(v[1] + 1e-3, p[1])))
    return out


def place(S, name, a, i, rooms):
    """agent i is anywhere in one of the boxes -> inside?"""
    (lo, hi, yes) = S.choice(name, rooms)
    for c in (0, 1):
        a['position'][i, c] = S.real('%s%s' % (name, 'xy'[c]), lo[c] + 0.01, hi[c] - 0.01)
    return yes


# boxes inside and outside of the L
ROOMS = [((-4, 0), (0, 4), True), ((0, 0), (4, 4), False), ((-4, -4), (4, 0), True), ((-9, -4), (-4, 0), False), ((4, -4), (9, 0), False)]


@harness(configs=[dict(shape=s, steps=k, kind=kd) for s, k, kd in [('triangle', 2, 'circular'), ('L', 1, 'three_circle'), ('clockwise', 2, 'circular')]],
         thorough=[dict(shape=s, steps=3 if s != 'L' else 2, kind=k) for s in sorted(SHAPES) for k in ('circular', 'three_circle')],
         bounds='one agent anywhere (not on the boundary and not level with a corner) at up to 2 (thorough: 3) updates; triangle, L-shape and clockwise square')
def anywhere(S, shape, steps, kind):
    corners = SHAPES[shape]
    sim = simulation(S, kind, 1, Polygon(corners), [Polygon(corners)])
    a = sim.agents.array
    nodes = InsideDomain(sim), TargetReached(sim)
    reached = False
    for k in range(steps):
        p = S.vec('p%d' % k, -9, 9)
        a['position'][0] = p
        yes = inside(S, corners, p)
        reached = reached or yes
        for n in nodes:
            n.update()
        S.equal('active', a['active'][0], yes)
        S.equal('inactive', sim.data['inactive'], 0 if yes else 1)
        S.equal('reached', sim.data['target_0'], 1 if reached else 0)


@harness(configs=[dict(n=2, steps=2), dict(n=3, steps=1)], thorough=[dict(n=2, steps=3), dict(n=3, steps=2)],
         bounds='2 agents x 2 updates or 3 agents x 1 update (thorough: 3, 2), each anywhere in one of five boxes inside or outside of the L-shaped domain, any activity before')
def counted(S, n, steps):
    sim = simulation(S, 'circular', n, Polygon(SHAPES['L']))
    node = InsideDomain(sim)
    S.equal('no agent counted at first', sim.data['inactive'], 0)
    a = sim.agents.array
    for k in range(steps):
        yes = [place(S, 'p%d_%d' % (k, i), a, i, ROOMS) for i in range(n)]
        before = a.copy()
        node.update()
        for i in range(n):
            S.equal('active exactly inside', a['active'][i], yes[i])
        S.equal('inactive agents', sim.data['inactive'], yes.count(False))
        S.check('nothing else', S.field_eq(a, before, ('active',)))


A = [(-8, -8), (-2, -8), (-2, -2), (-8, -2)]
B = [(-4, -4), (4, -4), (4, 4), (-4, 4)]
SPOTS = [((-8, -8), (-4, -4), (True, False)), ((-4, -4), (-2, -2), (True, True)), ((-2, -2), (4, 4), (False, True)), ((4, -2), (8, 4), (False, False))]


@harness(configs=[dict(order=o, n=n, steps=k) for o, n, k in [('aLb', 2, 2), ('Lba', 1, 3), ('bLLa', 2, 1)]],
         thorough=[dict(order=o, n=n, steps=k) for o, n, k in [('aLb', 2, 3), ('Lba', 1, 4), ('bLLa', 3, 1), ('ab', 2, 2), ('LL', 2, 2)]],
         bounds='two overlapping polygon targets between line targets; 2 agents x 2 updates, 1 agent x 3 updates (thorough: 3, 4), each anywhere in one of four boxes')
def targets(S, order, n, steps):
    line = LineString([(6, 0), (6, 3)])
    sim = simulation(S, 'circular', n, None, [dict(a=Polygon(A), b=Polygon(B), L=line)[c] for c in order])
    sim.data['other'] = 7
    node = TargetReached(sim)
    names = {c: 'target_%d' % k for k, c in enumerate(order) if c in 'ab'}
    S.check('one entry per polygon target', set(sim.data) == set(names.values()) | {'other'})
    for v in names.values():
        S.equal('nobody at first', sim.data[v], 0)
    a = sim.agents.array
    been = {c: set() for c in 'ab'}
    for k in range(steps):
        for i in range(n):
            yes = place(S, 'p%d_%d' % (k, i), a, i, SPOTS)
            for c in (0, 1):
                if yes[c]:
                    been['ab'[c]].add(i)
        before = a.copy()
        node.update()
        for c in names:
            S.equal('distinct agents so far', sim.data[names[c]], len(been[c]))
        S.check('entries', set(sim.data) == set(names.values()) | {'other'} and sim.data['other'] == 7)
        S.check('agents unchanged', S.field_eq(a, before))


@harness(bounds='13 targets (one of them a line) in a row, six agents of which one is in any of them at each of two updates')
def many(S):
    boxes = [[(2 * k, 0), (2 * k + 1, 0), (2 * k + 1, 1), (2 * k, 1)] for k in range(13)]
    shapes = [LineString(b) if k == 4 else Polygon(b) for k, b in enumerate(boxes)]
    sim = simulation(S, 'circular', 6, None, shapes)
    node = TargetReached(sim)
    names = ['target_%d' % k for k in range(13) if k != 4]
    S.check('one entry per polygon target', list(sim.data) == names)
    a = sim.agents.array
    been = {n: set() for n in names}
    for step in (0, 1):
        spots = [0, 2, 12, 11, 1]
        spots.append(int(S.choice('spot%d' % step, [1, 10, 11, 12, 4, 3])))
        for i, k in enumerate(spots):
            a['position'][i] = [2 * k + (S.real('x%d' % step, 0.0625, 0.9375) if i == 5 else 0.5), 0.5]
            if k != 4:
                been['target_%d' % k].add(i)
        node.update()
        for n in names:
            S.equal('distinct agents so far', sim.data[n], len(been[n]))
        S.check('entries', list(sim.data) == names)
