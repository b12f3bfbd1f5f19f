"""C42 navigation of fields"""
import math
from shapely.geometry import Point, Polygon, LineString
from crowddynamics.core.steering import navigation
from crowddynamics.core.steering.obstacle_handling import direction_map_obstacles, obstacle_handling
from crowddynamics.core.steering.quickest_path import meshgrid, shortest_path
from crowddynamics.exceptions import CrowdDynamicsException, InvalidType, ValidationError
from crowddynamics.simulation.field import Field
from harness import geo
from symx import stubs
from symx.reg import harness


def box(x0, y0, x1, y1):
    return Polygon([(x0, y0), (x1, y0), (x1, y1), (x0, y1)])


def grown(g, r):
    x0, y0, x1, y1 = g.bounds
    return box(x0 - r, y0 - r, x1 + r, y1 + r)


def common(a, b):
    (x0, y0, x1, y1), (u0, v0, u1, v1) = a.bounds, b.bounds
    lo, hi = (max(x0, u0), max(y0, v0)), (min(x1, u1), min(y1, v1))
    return box(lo[0], lo[1], hi[0], hi[1]) if lo[0] <= hi[0] and lo[1] <= hi[1] else Polygon()


def environment(S, log, e=0.0, at=(1, 1)):
    """stand-ins for scikit-fmm (any function of the marked cells, the mask and the step) and for the two shapely operations (on boxes)"""
    def skfmm(phi, dx):
        n, m = phi.shape
        mask = S.np.ma.getmaskarray(phi)
        mark = [(i, j) for i in range(n) for j in range(m) if phi[i, j] > 0 and not mask[i, j]]
        hide = [(i, j) for i in range(n) for j in range(m) if mask[i, j]]
        log.append((mark, hide, dx, sorted({float(phi[i, j]) for i in range(n) for j in range(m) if (i, j) not in hide})))
        out = S.np.zeros((n, m))
        for i in range(n):
            for j in range(m):
                d = min([abs(i - p) + 0.75 * abs(j - q) + 0.125 * abs(i - p) * abs(j - q) for p, q in mark] or [9.0])
                out[i, j] = -dx * (d + (0.03125 * i * i + 0.0625 * j * j if d else 0.0)) - 0.25 * len(hide)
                if (i, j) == at:
                    out[i, j] = out[i, j] + e
        return S.np.ma.MaskedArray(out, mask) if hide else out
    stubs.HOOKS['skfmm'] = skfmm
    stubs.HOOKS['buffer'] = grown
    stubs.HOOKS['intersection'] = common


def concrete(x):
    try:
        return x is None or type(x).__name__ not in ('SymNum', 'SymBool')
    except Exception:
        return False


def agree(S, name, got, want):
    """equal arrays, undefined at the same places"""
    S.check(name + ': shape', tuple(got.shape) == tuple(want.shape))
    a, b = S.np.ma.getmaskarray(got), S.np.ma.getmaskarray(want)
    g, w = S.np.ma.getdata(got), S.np.ma.getdata(want)
    for i in range(g.shape[0]):
        for j in range(g.shape[1]):
            if bool(a[i, j]) or bool(b[i, j]):
                S.check(name + ': mask', bool(a[i, j]) and bool(b[i, j]))
            else:
                S.check(name, S.or_(S.eq(g[i, j], w[i, j]), S.and_(S.isnan(g[i, j]), S.isnan(w[i, j]))))


def answer(field, index, step, radius, strength):
    """computed without the field"""
    mesh = meshgrid(step, *field['domain'].bounds)
    if index == 'closest':
        target = field['targets'][0]
        for t in field['targets'][1:]:
            target = target | t
    else:
        target = field['targets'][index]
    dirs, dmap = shortest_path(mesh, field['domain'], target, field['obstacles'], radius)
    if field['obstacles'] is not None:
        obs, dobs = direction_map_obstacles(mesh, field['obstacles'])
        dirs = obstacle_handling(dobs, obs, dirs, radius, strength)
    return mesh, dmap, dirs


def same_answer(S, got, want):
    mesh, dmap, dirs = got
    agree(S, 'mesh', mesh.values[0], want[0].values[0])
    agree(S, 'mesh', mesh.values[1], want[0].values[1])
    S.check('step', mesh.step == want[0].step and tuple(mesh.bounds) == tuple(want[0].bounds))
    agree(S, 'distance', dmap, want[1])
    agree(S, 'direction x', dirs[0], want[2][0])
    agree(S, 'direction y', dirs[1], want[2][1])


GEOMS = {
    'domain': [box(0.0, 0.0, 4.0, 3.0), box(-1.0, 0.0, 4.0, 4.0)],
    'obstacles': [box(1.25, 1.25, 1.75, 1.5), box(2.25, 0.25, 3.5, 0.75), None, LineString([(1.5, 2.5), (2.5, 2.5)])],
    'targets': [[box(0.25, 0.25, 0.5, 0.75), LineString([(3.5, 1.5), (3.5, 2.5)])], [LineString([(3.5, 0.5), (3.5, 2.5)])],
                [box(0.25, 2.25, 0.75, 2.75), box(0.25, 0.25, 0.5, 0.75), LineString([(3.5, 1.5), (3.5, 2.5)])]],
}
QUERIES = [(0, 1.0, 0.5, 0.25), (1, 1.0, 0.5, 0.25), ('closest', 1.0, 0.5, 0.25), (0, 0.5, 0.5, 0.25), (0, 1.0, 1.0, 0.25), (0, 1.0, 0.5, 0.75)]


def ask(S, f, state, query):
    if isinstance(query[0], int) and query[0] >= len(state['targets']):
        S.check('no such target', S.raises(IndexError, f.navigation_to_target, *query) is not None)
    else:
        same_answer(S, f.navigation_to_target(*query), answer(state, *query))


CHANGES = [('domain', 1), ('obstacles', 1), ('obstacles', 2), ('targets', 1), ('targets', 2), ('obstacles', 3)]


@harness(configs=[dict(first=q) for q in range(6)], thorough=[dict(first=q) for q in range(6)],
         bounds='grids to 11 x 9; two queries out of six (two targets and "closest", two steps, two radii, two strengths) with an optional geometry change out of six between them '
                '(thorough: two changes and three queries); one value of the distance maps arbitrary within 1/8')
def queries(S, first):
    environment(S, [], S.real('e', -0.125, 0.125))
    state = {k: v[0] for k, v in GEOMS.items()}
    f = Field(**state)
    ask(S, f, state, QUERIES[first])
    for r in range(2 if S.tier == 'thorough' else 1):
        change = S.choice('change%d' % r, [None] + CHANGES if r == 0 else CHANGES[1:4])
        if change is not None:
            state[change[0]] = GEOMS[change[0]][change[1]]
            setattr(f, change[0], state[change[0]])
        ask(S, f, state, S.choice('query%d' % r, QUERIES if r == 0 else QUERIES[1:3]))


@harness(configs=[dict(gone=g, first=q) for g, q in (('obstacles', 0), ('obstacles', 2), ('obstacles', 5))],
         bounds='a field without obstacles is asked, gets one of three obstacles, is asked again, loses it and is asked again')
def appears(S, gone, first):
    environment(S, [], S.real('e', -0.125, 0.125))
    state = {k: v[0] for k, v in GEOMS.items()}
    state[gone] = None
    f = Field(**state)
    ask(S, f, state, QUERIES[first])
    k = S.choice('new', [0, 1, 3])
    for value in (GEOMS[gone][k], None, GEOMS[gone][k]):
        state[gone] = value
        setattr(f, gone, value)
        ask(S, f, state, QUERIES[first])


@harness(configs=[dict(step=s) for s in (0.125, 0.1875, 0.03125, 0.75, 2.0)], bounds='steps of 1/32, 1/8, 3/16, 3/4 and 2 with radii and strengths of as many digits; a box whose corner is anywhere')
def steps(S, step):
    environment(S, [], S.real('e', -0.125, 0.125))
    x = S.real('x', 0.0625, 0.9375)
    state = dict(domain=box(0.0, 0.0, 6 * step, 4 * step), targets=[box(x * step, 0.25 * step, (x + 1) * step, 0.75 * step)], obstacles=box(2.25 * step, 2.25 * step, 2.75 * step, 2.75 * step))
    f = Field(**state)
    for query in ((0, step, 0.515625 * step, 0.265625), ('closest', step, 0.515625 * step, 0.28125), (0, step, 0.53125 * step, 0.265625)):
        ask(S, f, state, query)
    mesh = f.meshgrid(step)
    agree(S, 'grid', mesh.values[0], meshgrid(step, *state['domain'].bounds).values[0])
    S.check('step', mesh.step == step)


@harness(bounds='any non-empty set of an obstacle line, two targets and two spawn boxes; one vertex of each kind anywhere on a line of length 18')
def hull(S):
    S.coarse(60)
    stubs.HOOKS['convex_hull'] = geo.hull
    parts = {'obstacles': LineString([(S.real('x', -9, 9), 4.25), (1.0, 1.0)]),
             'targets': [LineString([(5.0, 0.5), (5.5, S.real('y', -9, 9))]), Point(-2.0, 0.25)],
             'spawns': [box(0.0, S.real('z', -9, 0), 2.0, 2.0), box(-3.0, -1.0, -2.5, 0.0)]}
    names = S.subset('parts', sorted(parts))
    if not names:
        return
    f = Field(**{n: parts[n] for n in names})
    pts = []
    for n in names:
        for g in parts[n] if isinstance(parts[n], list) else [parts[n]]:
            pts += g._all() if hasattr(g, '_all') else list(g.coords)
    h = f.convex_hull()
    ring = list(h.exterior.coords) if h.type == 'Polygon' else list(h.coords)
    S.check('vertices of the geometries', S.and_(*[S.or_(*[S.and_(S.eq(p[0], q[0]), S.eq(p[1], q[1])) for q in pts]) for p in ring]))
    if h.type != 'Polygon':
        S.check('ends', S.and_(*[S.or_(*[S.and_(S.eq(p[0], q[0]), S.eq(p[1], q[1])) for p in ring]) for q in pts]))
        return
    if S.branch(S.lt(S.sum([a[0] * b[1] - a[1] * b[0] for a, b in zip(ring, ring[1:] + ring[:1])]), 0)):
        ring = ring[::-1]
    for a, b in zip(ring, ring[1:] + ring[:1]):
        for p in pts:
            S.check('all geometries inside', S.le(0, (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])))


@harness(bounds='two fields asked in turn, one of them changed in between; the caller does not change the returned maps')
def fields(S):
    environment(S, [], S.real('e', -0.125, 0.125))
    one = {k: v[0] for k, v in GEOMS.items()}
    two = {k: v[1] for k, v in GEOMS.items()}
    a, b = Field(**one), Field(**two)
    q = QUERIES[S.choice('query', [0, 2, 4])]
    ask(S, a, one, q)
    ask(S, b, two, q)
    change = S.choice('change', CHANGES)
    one[change[0]] = GEOMS[change[0]][change[1]]
    setattr(a, change[0], one[change[0]])
    ask(S, b, two, q)
    ask(S, a, one, q)
    k = S.choice('other', [0, 1, 2])
    ask(S, b, two, QUERIES[k])


TARGETS = [(0, 0, 0, 1), (4, 0, 4, 2), (5, 3, 5, 3), (4, 0, 6, 2)]


@harness(configs=[dict(t=t, radius=r, step=s, obstacle=o) for t, r, s, o in
                  [(0, 0.5, 1.0, True), (1, 1.0, 1.0, True), (2, 0.5, 0.5, True), (0, 0.5, 1.0, False), (1, 0.25, 0.5, True), (3, 0.5, 1.0, True)]] + [dict(t=0, radius=r, step=1.0, obstacle=True, edge=e) for r, e in ((0.5, 0), (0.25, 1))],
         thorough=[dict(t=t, radius=r, step=s, obstacle=True) for t in range(3) for r, s in ((0.25, 0.5), (0.25, 1.0), (0.5, 0.5), (0.5, 1.0), (1.0, 1.0))] + [dict(t=1, radius=0.5, step=0.5, obstacle=False)],
         bounds='grid of 7 x 5 cells, an obstacle box (also at the border of the domain), four targets of one to nine cells with any coordinates within their cells; one value of the distance maps arbitrary within 1/8')
def route(S, t, radius, step, obstacle, edge=None):
    """what is solved, and how the directions follow from the solution"""
    log = []
    environment(S, log, S.real('e', -0.125, 0.125), (3, 1))
    c0, r0, c1, r1 = TARGETS[t]
    x0, y0 = (c0 + S.real('tx0', 0.0625, 0.5)) * step, (r0 + S.real('ty0', 0.0625, 0.5)) * step
    x1, y1 = (c1 + S.real('tx1', 0.5, 0.9375)) * step, (r1 + S.real('ty1', 0.5, 0.9375)) * step
    target = box(x0, y0, x1, y1)
    domain = box(0.0, 0.0, 6 * step, 4 * step)
    block = box(1.5 * step, 1.25 * step, 2.5 * step, 1.5 * step) if obstacle else None
    if edge is not None:
        block = [box(0.125 * step, 2.25 * step, 2.5 * step, 2.5 * step), box(4.5 * step, 3.25 * step, 6 * step, 3.875 * step)][edge]
    mesh, dmap, (u, v) = navigation.static_potential(domain, target, block, step, radius, 0.25)
    S.check('grid', tuple(dmap.shape) == (5, 7) and tuple(u.shape) == (5, 7) and tuple(v.shape) == (5, 7))
    cells = [(i, j) for i in range(5) for j in range(7)]

    def covered(b):
        q = [math.floor(z / step) for z in b]
        return [(i, j) for i, j in cells if q[1] <= i <= q[3] and q[0] <= j <= q[2]]
    goal = [(i, j) for i, j in cells if r0 <= i <= r1 and c0 <= j <= c1]
    mark, hide, dx, vals = log[0]
    near = covered(common(grown(block, radius), domain).bounds) if obstacle else []
    S.check('cells of the target', mark == [c for c in goal if c not in near])
    S.check('cells of the obstacle, grown by the radius', hide == near)
    S.check('negative outside, positive inside', all(x in (-1.0, 1.0) for x in vals) and dx == step)
    if obstacle:
        inside = covered(block.bounds)
        S.check('distance to the obstacle itself', len(log) == 2 and log[1][:3] == (inside, [], step))
    d = stubs.HOOKS['skfmm'](marks(S, goal, near), step)
    val = S.np.ma.getdata(d)
    agree(S, 'distance map', dmap, d)
    known = {}
    for i, j in cells:
        ends = [(max(i - 1, 0), j), (min(i + 1, 4), j), (i, max(j - 1, 0)), (i, min(j + 1, 6))]
        if any(c in near for c in ends):
            continue
        gy, gx = (val[ends[1]] - val[ends[0]]) / (ends[1][0] - ends[0][0]), (val[ends[3]] - val[ends[2]]) / (ends[3][1] - ends[2][1])
        if S.branch(S.and_(S.eq(gx, 0), S.eq(gy, 0))):
            continue
        l = S.sqrt(gx * gx + gy * gy)
        known[i, j] = (gx / l, gy / l)
    if obstacle:
        far = S.np.ma.getdata(stubs.HOOKS['skfmm'](marks(S, inside, []), step))
    for i, j in cells:
        ways = [known[i, j]] if (i, j) in known else []
        if not ways and obstacle and (i, j) not in inside:
            best = min((p - i) ** 2 + (q - j) ** 2 for p, q in known)
            ways = [known[p, q] for p, q in known if (p - i) ** 2 + (q - j) ** 2 == best]
        if not ways:
            continue
        opts = []
        for way in ways:
            if obstacle:
                a, b = max(i - 1, 0), min(i + 1, 4)
                e, f = max(j - 1, 0), min(j + 1, 6)
                gy, gx = (far[b, j] - far[a, j]) / (b - a), (far[i, f] - far[i, e]) / (f - e)
                x = -far[i, j]
                if S.branch(S.and_(S.lt(0, x), S.lt(x, radius))):
                    if S.branch(S.and_(S.eq(gx, 0), S.eq(gy, 0))):
                        opts.append(True)
                        continue
                    l = S.sqrt(gx * gx + gy * gy)
                    p = 0.25 ** (x / radius)
                    way = [-p * g / l + (1 - p) * w for g, w in zip((gx, gy), way)]
            n = S.sqrt(way[0] * way[0] + way[1] * way[1])
            opts.append(S.or_(S.eq(n, 0), S.and_(S.eq(u[i, j] * n, way[0]), S.eq(v[i, j] * n, way[1]))))
        S.check('direction along the shortest path, away from the obstacle nearby', S.or_(*opts))


def marks(S, goal, hide):
    phi = S.np.zeros((5, 7))
    phi[...] = -1.0
    for i, j in goal:
        phi[i, j] = 1.0
    mask = S.np.zeros((5, 7), dtype=bool)
    for i, j in hide:
        mask[i, j] = True
    return S.np.ma.MaskedArray(phi, mask)


@harness(configs=[dict(k=k) for k in range(4)], bounds='fields without domain, without targets; indices that are no integer and not "closest", before and after valid queries')
def refused(S, k):
    environment(S, [])
    state = {q: v[0] for q, v in GEOMS.items()}
    part = dict(state)
    if k == 0:
        part.pop('domain')
    elif k == 1:
        part['targets'] = []
    elif k == 2:
        part = {}
    f = Field(**part)
    if k == 3:
        ask(S, f, state, QUERIES[0])
        for bad in ('closes', 'Closest', '0', '', None, 0.5, 1.0, (0,)):
            S.check('index refused', S.raises(InvalidType, f.navigation_to_target, bad, 1.0, 0.5, 0.25) is not None)
            S.check('index refused', S.raises(InvalidType, f.shortest_path_target, 1.0, bad, 0.5) is not None)
        for good in (1, S.np.int64(1)):
            same_answer(S, f.navigation_to_target(good, 1.0, 0.5, 0.25), answer(state, 1, 1.0, 0.5, 0.25))
        for gone, value in (('targets', []), ('domain', None)):
            setattr(f, gone, value)
            S.check('refused again', S.raises(CrowdDynamicsException, f.navigation_to_target, *QUERIES[0]) is not None)
            setattr(f, gone, state[gone])
            ask(S, f, state, QUERIES[0])
        return
    q = S.choice('query', QUERIES)
    S.check('refused', S.raises(CrowdDynamicsException, f.navigation_to_target, *q) is not None)
    if k != 1:
        S.check('no grid without domain', S.raises(CrowdDynamicsException, f.meshgrid, 1.0) is not None)
    for name in ('domain', 'targets'):
        setattr(f, name, state[name])
    part.update(domain=state['domain'], targets=state['targets'])
    part.setdefault('obstacles', None)
    ask(S, f, part, q)


@harness(configs=[dict(name=n, k=k) for n in ('domain', 'obstacles') for k in range(3)],
         bounds='empty, invalid and valid geometries (with any coordinates), given at once or assigned later')
def geometries(S, name, k):
    x = S.real('x', -9, 9)
    good = box(x, 0.0, x + 2, 1.0)
    bad = box(x, 0.0, x + 2, 1.0)
    bad._valid = False
    g = [Polygon(), bad, good][k]
    if k == 2:
        f = Field(**{name: g})
        S.check('accepted', getattr(f, name) is g)
        setattr(f, name, None)
        S.check('removed', getattr(f, name) is None)
        return
    S.check('refused at once', S.raises(ValidationError, lambda: Field(**{name: g})) is not None)
    f = Field()
    S.check('refused', S.raises(ValidationError, setattr, f, name, g) is not None)
    S.check('not taken over', getattr(f, name) is None)
    setattr(f, name, good)
    S.check('refused', S.raises(ValidationError, setattr, f, name, g) is not None)
    S.check('kept', getattr(f, name) is good)


@harness(configs=[dict(n=8), dict(n=11)], bounds='fields with 8 or 11 targets (boxes), one of them anywhere within a cell: "closest" and the first and last target')
def several(S, n):
    environment(S, [], S.real('e', -0.125, 0.125))
    x = S.real('x', 0.0625, 0.4375)
    boxes = [box(0.25 + c, 0.25 + r, 0.75 + c, 0.75 + r) for r in range(3) for c in range(4)][:n]
    boxes[-1] = box(x + (n - 1) % 4, 0.25 + (n - 1) // 4, x + 0.5 + (n - 1) % 4, 0.75 + (n - 1) // 4)
    state = dict(domain=box(0.0, 0.0, 4.0, 3.0), targets=boxes, obstacles=None)
    f = Field(**state)
    for index in ('closest', n - 1, 0, 'closest'):
        ask(S, f, state, (index, 1.0, 0.5, 0.25))
