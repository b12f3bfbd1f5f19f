"""C17 exit detection"""
from types import SimpleNamespace
from shapely.geometry import LineString, MultiLineString
from crowddynamics.core.evacuation import exit_detection
from crowddynamics.core.sensory_region import is_obstacle_between_points
from crowddynamics.simulation.logic import ExitDetection
from symx.reg import harness
from harness.util import crowd, unchanged, obstacles, KINDS

DOORS = [(0.0, 0.0), (6.0, 1.0), (3.0, -4.0)]
WALLS = [((2.0, -2.0), (2.0, 3.0)), ((4.0, 0.5), (5.0, 3.5)), ((1.0, -3.0), (6.0, -2.0))]


def nearest_visible(S, p, doors, o, reach):
    """conditions under which each exit may be the answer; and whether there is one at all"""
    seen = []
    for c in doors:
        d = S.norm(p - S.np.array(c))
        seen.append((d, S.branch(S.lt(d, reach)) and not is_obstacle_between_points(p, S.np.array(c), o)))
    return seen


def answer(S, i, got, has, seen):
    usable = [k for k, (d, ok) in enumerate(seen) if ok]
    if not usable:
        S.check('agent %d: nothing detected' % i, S.and_(S.eq(got, -1), S.not_(has)))
        return -1
    S.check('agent %d: detected' % i, has)
    k = int(got)
    S.check('agent %d: a visible exit in range' % i, k in usable)
    if k in usable:
        S.check('agent %d: the nearest one' % i, S.and_(*[S.le(seen[k][0], seen[m][0]) for m in usable]))
    return k


@harness(configs=[dict(n=1, d=2, w=0), dict(n=1, d=2, w=1), dict(n=1, d=2, w=2), dict(n=2, d=2, w=1), dict(n=1, d=3, w=1), dict(n=1, d=0, w=1), dict(n=1, d=1, w=0), dict(n=2, d=1, w=1), dict(n=1, d=2, w=0, close=True), dict(n=1, d=3, w=1, close=True)],
         thorough=[dict(n=1, d=3, w=3), dict(n=1, d=3, w=2), dict(n=2, d=2, w=2), dict(n=2, d=2, w=0), dict(n=2, d=3, w=0)],
         bounds='1 or 2 agents anywhere in [-3, 9]^2 (the second on a line), up to 3 fixed exits and 3 fixed walls, any detection range to 10; exits far from or within half a metre of each other')
def function(S, n, d, w, close=False):
    S.coarse(60)
    reach = S.pos('range', 10)
    p = S.np.zeros((n, 2))
    for i in range(n):
        p[i, 0] = S.real('x%d' % i, -3, 9)
        p[i, 1] = S.real('y%d' % i, -3, 9) if i == 0 else 2.0
    o = obstacles(S, WALLS[:w])
    places = ([(0.0, 0.0), (0.375, 0.125), (-0.25, 0.25)] if close else DOORS)[:d]
    doors = S.np.array(places).reshape(d, 2)
    got, has = exit_detection(doors, p, o, reach)
    S.check('one answer per agent', len(got) == n and len(has) == n)
    for i in range(n):
        answer(S, i, got[i], has[i], nearest_visible(S, p[i], places, o, reach))
    S.observe('exits', got)


@harness(configs=[dict(kind='circular', w=1), dict(kind='three_circle', w=0), dict(kind='circular', w=2), dict(kind='circular', w=1, bent=True)],
         bounds='a simulation with 3 agents (one anywhere on a line, any roles and targets), two exits given as lines (of two or more points), up to two walls, any range >= 1')
def node(S, kind, w, bent=False):
    S.coarse(60)
    at = [(S.real('x', -3, 9), 1.5), (1.0, 0.5), (5.0, -1.0)]
    a = crowd(S, kind, 3, dict(is_follower='bool', is_leader=lambda i: i == 2, target=lambda i: S.int('target%d' % i, -1, 1), position=lambda i: at[i],
                               familiar_exit=0, index_leader=lambda i: (-1, 2, -1)[i], velocity=(-1, 1)))
    b = a.copy()
    reach = S.real('range', 1, 10)
    lines = [LineString([(-0.5, 0.0), (0.5, 0.0)]), LineString([(6.0, 0.0), (6.0, 2.0)])]
    if bent:
        lines = [LineString([(-0.5, 0.0), (0.25, -0.5), (0.25, 0.5)]), LineString([(6.0, 0.0), (5.5, 0.25), (6.25, 1.25), (6.25, 2.5)])]
    field = SimpleNamespace(targets=lines, obstacles=MultiLineString([[p, q] for p, q in WALLS[:w]]) if w else None)
    sim = SimpleNamespace(agents=SimpleNamespace(array=a), field=field, data={})
    ExitDetection(sim, detection_range=reach).update()
    unchanged(S, 'other attributes', a, b, skip=('target', 'is_follower'))
    o = obstacles(S, WALLS[:w])
    for i in range(3):
        k = -1
        if S.branch(b['is_follower'][i]):
            seen = nearest_visible(S, b['position'][i], DOORS[:2], o, reach)
            if any(ok for d, ok in seen):
                k = answer(S, i, a['target'][i], True, seen)
                S.check('a follower that detects an exit stops following', S.not_(a['is_follower'][i]))
        if k < 0:
            S.check('others keep target and role', S.and_(S.eq(a['target'][i], b['target'][i]), S.iff(a['is_follower'][i], b['is_follower'][i])))
    S.observe('target', a['target'])


@harness(configs=[dict(w=0), dict(w=1)], bounds='12 exits in a row and an agent anywhere along it, with or without a wall; 20 agents')
def many(S, w):
    places = [(2.0 * ((5 * k) % 12), 0.25 * (k % 3)) for k in range(12)]
    x = S.real('x', -1, 23)
    p = S.np.array([[x if i == 17 else 1.25 * i, 3.0] for i in range(20)])
    o = obstacles(S, [((10.5, 1.0), (14.5, 1.0))][:w])
    got, has = exit_detection(S.np.array(places), p, o, 3.25)
    S.check('one answer per agent', len(got) == 20 and len(has) == 20)
    for i in (0, 9, 17, 19):
        answer(S, i, got[i], has[i], nearest_visible(S, p[i], places, o, 3.25))
