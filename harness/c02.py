"""C02 placing agents"""
from crowddynamics.core.distance import distance_circles, distance_three_circles, distance_circle_line, distance_three_circle_line
from crowddynamics.exceptions import CrowdDynamicsException
from crowddynamics.simulation.agents import Agents, AgentGroup, Circular, ThreeCircle
from harness.util import obstacles as walls
from symx.reg import harness

KIND = {'circular': Circular, 'three_circle': ThreeCircle}


def body(S, kind, p, at):
    """circles of an agent with the given attributes at p: centres and radii"""
    if kind == 'circular':
        return [(p, at['radius'])]
    t = S.np.array([S.np.sin(at['orientation']), -S.np.cos(at['orientation'])])
    return [(p, at['r_t']), (p - at['r_ts'] * t, at['r_s']), (p + at['r_ts'] * t, at['r_s'])]


def apart(S, a, b, formula):
    """no circle of a overlaps a circle of b"""
    if not formula:
        return S.and_(*[S.le(0, distance_circles(y, q, x, r)[0]) for x, r in a for y, q in b])
    return S.and_(*[S.le((r + q) * (r + q), S.dot(x - y, x - y)) for x, r in a for y, q in b])


def clear(S, a, segs):
    """no circle overlaps a segment (upright or level)"""
    out = []
    for x, r in a:
        for (u0, v0), (u1, v1) in segs:
            lo, hi = (min(u0, u1), min(v0, v1)), (max(u0, u1), max(v0, v1))
            d = [S.max([lo[c] - x[c], x[c] - hi[c], 0]) for c in (0, 1)]
            out.append(S.le(r * r, d[0] * d[0] + d[1] * d[1]))
    return S.and_(*out)


def play(S, kind, groups, candidates, segs, cell, how='function', formula=True):
    """add the groups; the candidates are handed out in order -> array and what should be in it"""
    cls = KIND[kind]
    agents = Agents(agent_type=cls, cell_size=cell)
    S.check('empty at first', len(agents.array) == 0)
    obst = walls(S, segs) if segs is not None else None
    used = []

    def gen():
        used.append(None)
        return candidates[len(used) - 1].copy()

    def stream():
        while True:
            yield gen()
    placed = []
    for rows in groups:
        first = len(used)
        group = AgentGroup(agent_type=cls, size=len(rows), attributes=rows)
        if obst is None:
            agents.add_non_overlapping_group(group, gen if how == 'function' else stream())
        else:
            agents.add_non_overlapping_group(group, gen if how == 'function' else stream(), obst)
        k = 0
        for c in range(first, len(used)):
            S.check('no candidate drawn when all are placed', k < len(rows))
            if k == len(rows):
                return agents, placed
            me = body(S, kind, candidates[c], rows[k])
            ok = S.and_(clear(S, me, segs or []), *[apart(S, me, body(S, kind, q, r), formula) for q, r in placed])
            if S.branch(ok):
                placed.append((candidates[c], rows[k]))
                k += 1
        S.check('tried until all are placed', k == len(rows) or len(used) - first >= 2 * len(rows))
        match(S, agents.array, placed)
    return agents, placed


def match(S, array, placed):
    S.check('exactly the placed agents', len(array) == len(placed))
    for i, (p, at) in enumerate(placed):
        S.equal('position', array['position'][i], p)
        for f, v in at.items():
            S.equal('attribute', array[f][i], v)
        if 'r_ts' in at:
            t = S.np.array([S.np.sin(at['orientation']), -S.np.cos(at['orientation'])])
            S.equal('left shoulder', array['position_ls'][i], p - at['r_ts'] * t)
            S.equal('right shoulder', array['position_rs'][i], p + at['r_ts'] * t)
    # as the rest of the simulation sees the records
    if len(array) and 'position_ls' in array.dtype.names:
        shape = lambda a: ((a['position'], a['position_ls'], a['position_rs']), (a['r_t'], a['r_s'], a['r_s']))
        dist = lambda a, b: distance_three_circles(*(shape(a) + shape(b)))[0]
    else:
        dist = lambda a, b: distance_circles(a['position'], a['radius'], b['position'], b['radius'])[0]
    if S.tier == 'thorough' or len(array) < 3:
        for i in range(len(array)):
            for j in range(i):
                S.check('no overlap', S.le(-1e-9, dist(array[i], array[j])))


def row(kind, i, radius=0.25, **more):
    more.update(active=i % 2 == 1, is_follower=i % 3 == 1, target=i - 1)
    if kind == 'circular':
        return dict(radius=radius, mass=70.0 + i, target_velocity=1.0 + 0.25 * i, **more)
    return dict(radius=radius, r_t=0.6 * radius, r_s=0.4 * radius, r_ts=0.6 * radius, orientation=0.5 + 0.375 * i, mass=70.0 + i, **more)


@harness(configs=[dict(sizes=s, k=k, cell=c) for s, k, c in [((1, 1), 2, 0.5), ((2,), 3, 0.5), ((1, 1), 3, 0.75)]],
         thorough=[dict(sizes=s, k=k, cell=c) for s, k, c in [((2, 1), 4, 0.5), ((3,), 4, 0.75), ((1, 2), 4, 1.5)]],
         bounds='circular agents of radius 1/4, groups of one or two, three (thorough: four) candidates: x anywhere in [-1, 1], y fixed on both sides of zero; cell size at least the diameter')
def line(S, sizes, k, cell):
    n = sum(sizes)
    xs = [S.real('x%d' % i, -1, 1) for i in range(k)]
    c = [S.np.array([x, (0.125, -0.25, 0.0, 0.25)[i]]) for i, x in enumerate(xs)]
    for i in range(20):
        c.append(S.np.array([3.0 + 2 * i, 0.0]))         # room further away
    groups, m = [], 0
    for s in sizes:
        groups.append([row('circular', m + i) for i in range(s)])
        m += s
    agents, placed = play(S, 'circular', groups, c, None, cell)
    S.check('all placed', len(placed) == n)


@harness(configs=[dict(sizes=s, cell=c, kind=kd) for s, c, kd in (((1, 2), 0.5, 'circular'), ((2, 2), 1.0, 'circular'), ((1, 1, 1), 0.75, 'three_circle'))],
         bounds='a first group at fixed places, then further groups with candidates at fixed and at any places of a line next to the agents of the same and of the first group')
def later(S, sizes, cell, kind):
    c = [S.np.array([-4.0 - 2 * i, 0.0]) for i in range(sizes[0])]
    c += [S.np.array([0.0, 0.125]), S.np.array([0.0, S.real('y', -1, 1)])]
    c += [S.np.array([-4.0, S.real('z', -1, 1)])] if kind == 'circular' else []
    c += [S.np.array([3.0 + 2 * i, 0.0]) for i in range(20)]
    groups, m = [], 0
    for s in sizes:
        groups.append([row(kind, m + i) for i in range(s)])
        m += s
    for r in sum(groups, []):
        if kind == 'three_circle':
            r['orientation'] = 0.0
    agents, placed = play(S, kind, groups, c, None, cell, formula=False)
    S.check('all placed', len(placed) == sum(sizes))


@harness(configs=[dict(how=h, cell=c) for h, c in (('function', 1.0), ('generator', 2.0))],
         bounds='two circular agents of any radius up to half of the cell size, positions anywhere in [-1, 1]^2')
def pair(S, how, cell):
    c = [S.vec('p%d' % i, -1, 1) for i in range(2)] + [S.np.array([9.0 + 4 * i, 9.0]) for i in range(20)]
    rows = [row('circular', 0, S.pos('r0', cell / 2)), row('circular', 1, S.pos('r1', cell / 2))]
    play(S, 'circular', [rows[:1], rows[1:]], c, None, cell, how, False)


WALLS = [((-1.0, 0.5), (1.0, 0.5)), ((0.75, -1.0), (0.75, 0.25))]


@harness(configs=[dict(segs=s) for s in (0, 1, 2)],
         bounds='one circular agent next to none, one or two walls, first candidate anywhere in [-1, 1]^2; with fewer than two walls also a second agent on a line')
def obstacles(S, segs):
    c = [S.vec('p', -1, 1), S.np.array([S.real('q', -1, 1), -0.125])] + [S.np.array([9.0 + 4 * i, 9.0]) for i in range(20)]
    play(S, 'circular', [[row('circular', 0)]] if segs == 2 else [[row('circular', 0)], [row('circular', 1)]], c, WALLS[:segs], 1.0)


@harness(configs=[dict(kind=kd, k=k, by=by) for kd, k, by in [('circular', k, by) for k in (2, 8, 9) for by in ('wall', 'agent')] + [('three_circle', 9, 'wall'), ('three_circle', 1, 'agent'), ('circular', 19, 'both')]],
         thorough=[dict(kind=kd, k=k, by=by) for k in range(1, 13) for kd in sorted(KIND) for by in ('wall', 'agent', 'both')],
         bounds='one agent placed, then k refused candidates (on the agent, on the wall or alternately) followed by two candidates anywhere on a line across agent and wall')
def retries(S, kind, k, by):
    bad = {'wall': [(-0.5, 0.5)], 'agent': [(0.0, 0.125)], 'both': [(-0.5, 0.5), (0.0, 0.125)]}[by]
    c = [S.np.array([0.0, 0.0])] + [S.np.array(bad[i % len(bad)]) for i in range(k)]
    c += [S.np.array([0.0625, S.real('y%d' % i, -1.0, 1.0)]) for i in range(2)] + [S.np.array([9.0 + 4 * i, 9.0]) for i in range(40)]
    rows = [row(kind, 0), row(kind, 1)]
    for r in rows:
        if kind == 'three_circle':
            r['orientation'] = 0.0
    groups = [[rows[0]], [rows[1]]] if k != 19 else [rows]
    play(S, kind, groups, c, [((-1.0, 0.5), (1.0, 0.5))], 1.0, formula=False)


@harness(configs=[dict(kind=kd) for kd in sorted(KIND)], bounds='agents without extent: one on a line across another agent and a wall, one elsewhere')
def points(S, kind):
    c = [S.np.array([0.0, 0.0]), S.np.array([0.0625, S.real('y', -1.0, 1.0)])] + [S.np.array([3.0 + 4 * i, 3.0]) for i in range(20)]
    rows = [row(kind, 0), row(kind, 1, 0.0), row(kind, 2, 0.0)]
    for r in rows:
        if kind == 'three_circle':
            r['orientation'] = 0.0
    agents, placed = play(S, kind, [rows[:1], rows[1:]], c, [((-1.0, 0.5), (1.0, 0.5))], 1.0, formula=False)
    S.check('all placed', len(placed) == 3)


@harness(configs=[dict(x=x, segs=s, turn=t) for x, s, t in ((0.25, 1, 0.0), (0.625, 2, 0.0), (-0.5, 1, 0.5))],
         thorough=[dict(x=x, segs=s, turn=t) for x, s in ((0.25, 1), (0.625, 2), (-1.125, 1), (1.0, 2)) for t in (0.0, 0.5, -1.0)],
         bounds='a three-circle agent with two orientations anywhere on a line across the walls')
def wall(S, x, segs, turn):
    S.coarse(400)
    c = [S.np.array([x, S.real('p', -1, 1)]), S.np.array([0.0, -0.125])] + [S.np.array([9.0 + 4 * i, 9.0]) for i in range(20)]
    rows = [row('three_circle', 0)]
    rows[0]['orientation'] = turn
    play(S, 'three_circle', [[rows[0]]], c, WALLS[:segs], 1.0)


@harness(configs=[dict(k=2)], thorough=[dict(k=2), dict(k=3)], bounds='three-circle agents behind one another on a line, one (thorough: two) candidates at any place in [-1, 1], then room further away')
def row_of(S, k):
    c = [S.np.array([0.0, S.real('y%d' % i, -1, 1)]) for i in range(k - 1)]
    c = [S.np.array([0.0, 0.0])] + c + [S.np.array([0.0, 4.0 + 4 * i]) for i in range(20)]
    rows = [row('three_circle', i, 0.25 + i / 32) for i in range(min(k, 3))]
    for r in rows:
        r['orientation'] = 0.0
    play(S, 'three_circle', [rows[:1], rows[1:]], c, None, 0.75, formula=False)


@harness(configs=[dict(y=y, first=f, x2=x, lo=l) for y, f, x, l in ((0.25, 1.25, 0.25, 0.125), (-0.375, 2.5, -0.5, -0.625))],
         thorough=[dict(y=y, first=f, x2=x, lo=l) for y in (0.125, 0.25, -0.375) for f in (0.5, 1.25, 2.5) for x in (0.5, -0.5) for l in (0.125, -0.625)],
         bounds='two three-circle agents of radii 1/4 and 3/10 with fixed orientations; the second one at any place of a line of length 1/4, else at fixed places nearby and far away')
def bodies(S, y, first, x2, lo):
    S.coarse(400)
    c = [S.np.array([0.0, 0.0]), S.np.array([S.real('x1', lo, lo + 0.25), y]), S.np.array([x2, -y - 0.125])]
    c += [S.np.array([9.0 + 4 * i, 9.0]) for i in range(20)]
    rows = [row('three_circle', 0), row('three_circle', 1, 0.3)]
    rows[0]['orientation'] = first
    play(S, 'three_circle', [rows], c, None, 0.625, formula=False)


@harness(configs=[dict(kind=kd, n=n) for kd in sorted(KIND) for n in (1, 2)], bounds='groups that do not fit: candidates run out of room after one or two agents; a further group afterwards, whose first candidate is anywhere within a radius of the agent placed')
def full(S, kind, n):
    p = S.np.array([S.real('x', -0.5, 0.5), 0.25])
    tight = [p] + [S.np.array([p[0] + 0.125, 0.25]) for i in range(60)]
    free = [S.np.array([9.0 + 4 * i, 9.0]) for i in range(20)]
    near = S.np.array([p[0], p[1] + S.real('dy', -0.25, 0.25)])
    agents = Agents(agent_type=KIND[kind], cell_size=1.0)
    rows = [row(kind, i) for i in range(n)]
    it = iter(tight)
    agents.add_non_overlapping_group(AgentGroup(agent_type=KIND[kind], size=n, attributes=rows), lambda: next(it).copy())
    placed = [(p, rows[0])]
    match(S, agents.array, placed)
    it2 = iter([near] + free)
    later = [row(kind, 5 + i) for i in range(2)]
    agents.add_non_overlapping_group(AgentGroup(agent_type=KIND[kind], size=2, attributes=later), it2)
    placed += [(free[0], later[0]), (free[1], later[1])]
    match(S, agents.array, placed)


@harness(bounds='groups of the other agent type, before and after a group of the own type')
def types(S):
    for own, other in ((Circular, ThreeCircle), (ThreeCircle, Circular)):
        a = Agents(agent_type=own, cell_size=1.0)
        for step in range(2):
            before = a.array.copy()
            r = dict(radius=0.25) if other is Circular else row('three_circle', 0)
            S.check('refused', S.raises(CrowdDynamicsException, a.add_non_overlapping_group, AgentGroup(agent_type=other, size=1, attributes=[r]),
                                        lambda: S.np.array([3.0, 3.0])) is not None)
            S.check('array kept', len(a.array) == len(before) and S.field_eq(a.array, before))
            if step == 0:
                r = dict(radius=0.25) if own is Circular else row('three_circle', 0)
                x = S.vec('x%s' % own.__name__, -1, 1)
                a.add_non_overlapping_group(AgentGroup(agent_type=own, size=1, attributes=[r]), lambda: x)
                match(S, a.array, [(x, r)])


@harness(configs=[dict(n=n, groups=g) for n, g in ((9, 1), (12, 2), (16, 16))], thorough=[dict(n=n, groups=g) for n in (9, 12, 16) for g in (1, 2, 16)],
         bounds='up to sixteen small agents in one cell, then one with its first candidate anywhere on a line across them')
def dense(S, n, groups):
    c = [S.np.array([0.125 + 0.25 * (i % 4), 0.125 + 0.25 * (i // 4)]) for i in range(n)]
    c += [S.np.array([0.125 + 0.25 * ((n - 1) % 4), S.real('y', 0, 1)])] + [S.np.array([3.0 + 2 * i, 0.0]) for i in range(40)]
    rows = [row('circular', i, 0.09375) for i in range(n + 1)]
    k = -(-n // groups)
    agents, placed = play(S, 'circular', [rows[i:i + k] for i in range(0, n, k)] + [rows[n:]], c, None, 1.0, formula=False)
    S.check('all placed', len(placed) == n + 1)


@harness(configs=[dict(cell=c, radius=r, rows=k) for c, r, k in ((1.0, 0.0625, 6), (2.0, 0.125, 5))],
         bounds='25 or 36 small circular agents on a lattice that fills few cells, then one candidate anywhere on a line through the lattice and more in free places')
def packed(S, cell, radius, rows):
    S.coarse(60)
    gap = 2 * radius + radius / 4
    c = [S.np.array([0.0625 + gap * i, 0.0625 + gap * j]) for i in range(rows) for j in range(rows)]
    n = len(c)
    x = S.real('x', 0, 1)
    c.append(S.np.array([0.0625 - x * 3 * radius, 0.0625 + 0.5 * gap]))
    c += [S.np.array([6.0 + 2 * i, 0.0]) for i in range(20)]
    groups = [[row('circular', i, radius) for i in range(n)], [row('circular', n, radius)]]
    agents, placed = play(S, 'circular', groups, c, None, cell, formula=False)
    S.check('all placed', len(placed) == n + 1)
