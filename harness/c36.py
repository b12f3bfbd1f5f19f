"""C36 navigation and orientation nodes"""
import math
from collections import OrderedDict
from types import SimpleNamespace
from crowddynamics.core.steering.quickest_path import meshgrid
from crowddynamics.simulation import logic
from harness.util import crowd, unchanged, KINDS
from symx.reg import harness


def field(S, k, cols, rows, step, corner, log):
    """k targets, each with its own map of any directions"""
    x0, y0 = corner
    mesh = meshgrid(step, x0, y0, x0 + (cols - 1) * step, y0 + (rows - 1) * step)
    maps = []
    for t in range(k):
        u, v = S.np.zeros((rows, cols)), S.np.zeros((rows, cols))
        for i in range(rows):
            for j in range(cols):
                u[i, j], v[i, j] = S.real('u%d_%d%d' % (t, i, j), -1, 1), S.real('v%d_%d%d' % (t, i, j), -1, 1)
        maps.append((u, v))

    def navigation_to_target(target, step, radius, strength):
        log.append((target, step, radius, strength))
        return mesh, S.np.zeros((rows, cols)), maps[int(target)]
    return SimpleNamespace(targets=['target'] * k, navigation_to_target=navigation_to_target, obstacles=None), maps


def simulation(a, f):
    return SimpleNamespace(agents=SimpleNamespace(array=a), field=f, data=OrderedDict())


def steered(S, a, b, maps, corner, step, cols, rows):
    """every agent against the map of its own target"""
    for i in range(len(a)):
        got, old, p = a['target_direction'][i], b['target_direction'][i], b['position'][i]
        x = [(p[c] - corner[c]) / step for c in (0, 1)]
        mine = [S.eq(b['target'][i], t) for t in range(len(maps))]
        within = S.and_(S.le(0, x[0]), S.lt(x[0], cols), S.le(0, x[1]), S.lt(x[1], rows))
        S.check('no target or outside the map: direction kept', S.implies(S.or_(S.not_(S.or_(*mine)), S.not_(within)), S.eq(got, old)))
        for t, (u, v) in enumerate(maps):
            for r in range(rows):
                for c in range(cols):
                    here = S.and_(mine[t], S.le(c, x[0]), S.lt(x[0], c + 1), S.le(r, x[1]), S.lt(x[1], r + 1))
                    S.check('direction of the own target at the own place', S.implies(here, S.eq(got, [u[r, c], v[r, c]])))


@harness(configs=[dict(kind='circular', n=2, k=2, cols=2, rows=1, step=0.5), dict(kind='three_circle', n=1, k=2, cols=3, rows=2, step=0.5),
                  dict(kind='circular', n=2, k=1, cols=1, rows=2, step=1.0), dict(kind='circular', n=1, k=0, cols=1, rows=1, step=1.0)],
         thorough=[dict(kind=kd, n=n, k=k, cols=c, rows=r, step=s) for kd in KINDS for n, k, c, r, s in
                   [(2, 2, 2, 2, 0.5), (2, 3, 3, 1, 0.25), (3, 2, 1, 2, 1.0), (1, 3, 4, 3, 0.1), (3, 1, 2, 1, 0.5)]],
         bounds='maps to 3 x 2 (thorough: 4 x 3) with any directions, up to 2 (thorough: 3) targets and agents anywhere in [-3, 3]^2, targets from -1 to one more than there are')
def navigation(S, kind, n, k, cols, rows, step):
    log = []
    corner = (-0.5, 0.25)
    f, maps = field(S, k, cols, rows, step, corner, log)
    a = crowd(S, kind, n, dict(position=(-3, 3), target=lambda i: S.int('target%d' % i, -1, k), target_direction=(-1, 1), target_reached='bool', active='bool', orientation=0.5, velocity=(-1, 1)), fill='any')
    b = a.copy()
    node = logic.Navigation(simulation(a, f), step=step, radius=0.375, strength=0.25)
    node.update()
    for t, s, r, g in log:
        S.check('own parameters', 0 <= t < k and (s, r, g) == (step, 0.375, 0.25))
    steered(S, a, b, maps, corner, step, cols, rows)
    unchanged(S, 'rest kept', a, b, ('target_direction',))


@harness(configs=[dict(n=2)], thorough=[dict(n=4)], bounds='n agents on the way to two targets, two updates, agents move and change targets between them; a third one with other maps of the same or of another field')
def again(S, n):
    log = []
    corner = (0.0, 0.0)
    f, maps = field(S, 2, 2, 1, 1.0, corner, log)
    a = crowd(S, 'circular', n, dict(position=lambda i: (0.5 + i % 2, 0.5), target=lambda i: (i % 3) - 1, target_direction=(-1, 1)), fill='any')
    node = logic.Navigation(simulation(a, f))
    b = a.copy()
    node.update()
    steered(S, a, b, maps, corner, 1.0, 2, 1)
    a['target'][0] = S.int('later', -1, 1)
    a['position'][0] = S.vec('moved', -1, 3)
    b = a.copy()
    node.update()
    steered(S, a, b, maps, corner, 1.0, 2, 1)
    if S.branch(S.bool('new field')):
        # other geometry: other maps, of another size
        corner = (-1.0, 0.0)
        f, maps = field(SimpleNamespace(np=S.np, real=lambda n, lo, hi: S.real('new ' + n, lo, hi)), 2, 1, 2, 1.0, corner, log)
        if S.branch(S.bool('same object')):
            node.simulation.field.navigation_to_target = f.navigation_to_target
        else:
            node.simulation.field = f
        b = a.copy()
        node.update()
        steered(S, a, b, maps, corner, 1.0, 1, 2)
    for t, s, r, g in log:
        S.check('default parameters', (s, r, g) == (0.1, 0.5, 0.3))


@harness(configs=[dict(kind=k, n=n) for k in KINDS for n in (1, 2)], bounds='up to two agents with any target direction of length at least 0.01')
def orientation(S, kind, n):
    a = crowd(S, kind, n, dict(target_direction=(-1, 1), target_orientation=(-3, 3), orientation=(-3, 3), position=(-9, 9)), fill='any')
    for i in range(n):
        S.assume(S.lt(0.01, S.norm(a['target_direction'][i])))
    b = a.copy()
    logic.Orientation(simulation(a, None)).update()
    if kind == 'three_circle':
        for i in range(n):
            t, d = a['target_orientation'][i], b['target_direction'][i]
            size = S.norm(d)
            S.check('in [-pi, pi]', S.between(-math.pi, t, math.pi))
            S.equal('along the target direction', [size * S.np.cos(t), size * S.np.sin(t)], [d[0], d[1]])
    unchanged(S, 'rest kept', a, b, ('target_orientation',) if kind == 'three_circle' else ())


@harness(bounds='eleven targets and 14 agents, of which one has any target from -1 to 11 and a place anywhere in [-3, 3]^2')
def many(S):
    log = []
    f, maps = field(S, 2, 2, 2, 1.0, (-1.0, -1.0), log)
    k, n = 11, 14
    for t in range(2, k):
        maps.append((S.np.full((2, 2), 0.25 + t), S.np.array([[t, 2.0 * t], [3.0 * t, S.real('v%d' % t, -1, 1)]])))
    f.targets = ['target'] * k
    who = S.int('target', -1, k)
    at = S.vec('at', -3, 3)
    a = crowd(S, 'circular', n, dict(position=lambda i: at if i == 9 else (0.5 - i % 2, 0.5 - (i // 2) % 2), target=lambda i: who if i == 9 else i % 13 - 1, target_direction=lambda i: (0.5, -i)), fill='any')
    b = a.copy()
    logic.Navigation(simulation(a, f), step=1.0).update()
    steered(S, a, b, maps, (-1.0, -1.0), 1.0, 2, 2)
    unchanged(S, 'rest kept', a, b, ('target_direction',))
