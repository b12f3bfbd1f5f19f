"""C44 example scenes"""
from symx import stubs
from symx.reg import harness
from crowddynamics.examples import fields
from harness.geo import Cut, Disc, grow, hull


def environment():
    stubs.HOOKS['buffer'] = grow
    stubs.HOOKS['difference'] = lambda a, b: Cut(a, b)
    stubs.HOOKS['convex_hull'] = hull


def on_segment(S, a, b, p):
    cr = (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])
    d = (b[0] - a[0]) * (p[0] - a[0]) + (b[1] - a[1]) * (p[1] - a[1])
    l = (b[0] - a[0]) * (b[0] - a[0]) + (b[1] - a[1]) * (b[1] - a[1])
    return S.and_(S.eq(cr, 0), S.le(0, d), S.le(d, l))


def member(S, g, p):
    """whether the closed point set of a geometry contains a point (convex polygons)"""
    if g is None or g.is_empty:
        return False
    if isinstance(g, Cut):
        return S.and_(member(S, g.a, p), S.not_(member(S, g.b, p)))
    if isinstance(g, Disc):
        dx, dy = p[0] - g.c[0], p[1] - g.c[1]
        return S.le(dx * dx + dy * dy, g.r * g.r)
    if g.type == 'Polygon':
        c = g.exterior._c
        cs = [(b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0]) for a, b in zip(c[:-1], c[1:])]
        return S.or_(S.and_(*[S.le(0, x) for x in cs]), S.and_(*[S.le(x, 0) for x in cs]))
    if g.type in ('LineString', 'LinearRing'):
        return S.or_(*[on_segment(S, a, b, p) for a, b in zip(g._c[:-1], g._c[1:])])
    if g.type == 'Point':
        return S.and_(S.eq(g.x, p[0]), S.eq(g.y, p[1]))
    return S.or_(*[member(S, x, p) for x in g.geoms])


def block(S, p, x0, y0, x1, y1):
    return S.and_(S.le(x0, p[0]), S.le(p[0], x1), S.le(y0, p[1]), S.le(p[1], y1))


def same_set(S, name, g, p, want):
    S.check(name, S.iff(member(S, g, p), want))


def wanted(S, kind, v, p):
    """the scene as point sets: obstacles, targets, spawns, domain"""
    w, h = v.get('width'), v.get('height')
    seg = lambda a, b: on_segment(S, a, b, p)
    box = lambda *a: block(S, p, *a)
    if kind == 'OutdoorField':
        return False, [], [box(0, 0, w, h)], box(0, 0, w, h)
    if kind == 'HallwayField':
        r = v['ratio']
        return (S.or_(seg((0, 0), (w, 0)), seg((0, h), (w, h))), [seg((0, 0), (0, h)), seg((w, 0), (w, h))],
                [box(0, 0, r * w, h), box(w - r * w, 0, w, h)], box(0, 0, w, h))
    ring = None if w is None else S.or_(seg((0, 0), (w, 0)), seg((w, 0), (w, h)), seg((0, h), (w, h)), seg((0, 0), (0, h)))
    if kind == 'Rounding':
        exit_ = seg((0, h / 2), (0, h))
        return (S.or_(seg((0, h / 2), (w * v['ratio'], h / 2)), S.and_(ring, S.not_(exit_))), [exit_], [box(0, 0, w / 2, h / 2)], box(0, 0, w, h))
    if kind == 'AvoidObstacle':
        x = v['ratio_obs'] * w
        exit_ = seg((w, 0), (w, v['exit_width']))
        return (S.or_(seg((x, 0), (x, h / 2)), S.and_(ring, S.not_(exit_))), [exit_], [box(0, h / 2, x, h), box(0, 0, x, h)], box(0, 0, w, h))
    if kind == 'ClosedRoom':
        return ring, [], [box(0, 0, w, h)], box(0, 0, w, h)
    if kind == 'RoomWithOneExit':
        lo, hi, x = (h - v['exit_width']) / 2, (h + v['exit_width']) / 2, w + v['exit_hall_width']
        return (S.or_(seg((0, 0), (w, 0)), seg((0, h), (w, h)), seg((0, 0), (0, h)), box(w, 0, x, lo), box(w, hi, x, h)), [seg((x, lo), (x, hi))],
                [box(0, 0, w, h)], box(0, 0, x, h))
    if kind == 'PillarInTheMiddle':
        return S.le(p[0] * p[0] + p[1] * p[1], v['radius_pillar'] * v['radius_pillar']), [], [box(-w / 2, -h / 2, w / 2, h / 2)], box(-w / 2, -h / 2, w / 2, h / 2)
    if kind == 'FourExitsField':
        e = v['exit_width']
        walls = [((0, 0), (87, 0)), ((87 + e, 0), (100, 0)), ((100, 0), (100, 50)), ((100, 50 + e), (100, 80)), ((100, 80), (6 + e, 80)), ((6, 80), (0, 80)),
                 ((0, 80), (0, 10 + e)), ((0, 10), (0, 0)), ((20, 0), (20, 40)), ((20, 20), (40, 20)), ((60, 0), (60, 20)), ((0, 60), (40, 60)),
                 ((100, 60), (60, 60)), ((70, 60), (70, 40))]
        exits = [((0, 10), (0, 10 + e)), ((6, 80), (6 + e, 80)), ((100, 50), (100, 50 + e)), ((87, 0), (87 + e, 0))]
        return S.or_(*[seg(*s) for s in walls]), [seg(*s) for s in exits], [box(0, 0, 100, 80)], box(0, 0, 100, 80)
    raise KeyError(kind)


PARAMS = {'OutdoorField': ('width', 'height'), 'HallwayField': ('width', 'height', 'ratio'), 'Rounding': ('width', 'height', 'ratio'),
          'AvoidObstacle': ('width', 'height', 'exit_width', 'ratio_obs'), 'ClosedRoom': ('width', 'height'),
          'RoomWithOneExit': ('width', 'height', 'exit_width', 'exit_hall_width'), 'FourExitsField': ('exit_width',),
          'PillarInTheMiddle': ('width', 'height', 'radius_pillar')}
DEFAULT = {'OutdoorField': (10.0, 10.0), 'HallwayField': (10.0, 10.0, None), 'Rounding': (10.0, 10.0, 0.6), 'AvoidObstacle': (10.0, 10.0, 3.0, 0.6),
           'ClosedRoom': (10.0, 10.0), 'RoomWithOneExit': (10.0, 10.0, 1.25, 2.0), 'FourExitsField': (1.25,), 'PillarInTheMiddle': (20.0, 20.0, 1.0)}


def values(S, kind, prefix):
    v = {}
    for n in PARAMS[kind]:
        if n.startswith('ratio'):
            v[n] = S.real(prefix + n, 0.125, 0.875)
        elif n == 'exit_width':
            v[n] = S.real(prefix + n, 1, 3.75)
        elif n == 'radius_pillar':
            v[n] = S.real(prefix + n, 0.25, 3)
        else:
            v[n] = S.real(prefix + n, 4, 40)
    return v


def compare(S, name, f, kind, v):
    p = (S.real('px', -30, 110), S.real('py', -30, 90))
    o = (0, 0)
    if kind == 'PillarInTheMiddle':  # wherever the scene is, its pillar is in its middle
        x0, y0, x1, y1 = f.domain.bounds
        o = ((x0 + x1) / 2, (y0 + y1) / 2)
        w, h, r = v['width'], v['height'], v['radius_pillar']
        size = S.and_(S.eq(x1 - x0, w), S.eq(y1 - y0, h))
        quarter = S.and_(S.eq(x0, w / 2), S.eq(x1, w), S.eq(y0, h / 2), S.eq(y1, h), S.eq(f.obstacles.bounds, (-r, -r, r, r)))
        S.check_known('F1', name + 'size of the domain', size, quarter)
        if 'F1' in S.findings and S.branch(quarter):
            S.check(name + 'spawn is the domain', len(f.spawns) == 1 and S.eq(f.spawns[0].bounds, f.domain.bounds))
            return
    obs, targets, spawns, domain = wanted(S, kind, v, (p[0] - o[0], p[1] - o[1]))
    same_set(S, name + 'obstacles', f.obstacles, p, obs)
    S.check(name + 'number of targets', len(f.targets) == len(targets))
    S.check(name + 'number of spawns', len(f.spawns) == len(spawns))
    for i, t in enumerate(targets):
        same_set(S, name + 'target %d' % i, f.targets[i], p, t)
        if obs is not False:
            S.check(name + 'exit %d is open' % i, S.or_(S.not_(S.and_(member(S, f.targets[i], p), member(S, f.obstacles, p))),
                                                     edge(S, f.targets[i], p)))
    for i, t in enumerate(spawns):
        same_set(S, name + 'spawn %d' % i, f.spawns[i], p, t)
    same_set(S, name + 'domain', f.domain, p, domain)


def edge(S, line, p):
    return S.or_(*[S.and_(S.eq(p[0], a[0]), S.eq(p[1], a[1])) for a in (line._c[0], line._c[-1])])


@harness([dict(kind=k, given=g) for k in PARAMS for g in ('all', 'none')] +
         [dict(kind=k, given=p) for k in ('RoomWithOneExit', 'AvoidObstacle', 'Rounding') for p in PARAMS[k]],
         bounds='every example field with all, one or none of its parameters given (sizes in [4, 40], exits in [1, 3.75], ratios in [1/8, 7/8]); membership of any point of the plane')
def scene(S, kind, given):
    environment()
    v = values(S, kind, '')
    default = dict(zip(PARAMS[kind], DEFAULT[kind]))
    if default.get('ratio', 0) is None:
        default['ratio'] = 1 / 3
    kw = v if given == 'all' else {} if given == 'none' else {given: v[given]}
    if given == 'all' and 'exit_width' in v and 'height' in v:
        S.assume(S.lt(v['exit_width'], v['height']))
    f = getattr(fields, kind)(**kw)
    compare(S, '', f, kind, dict(default, **kw))


@harness([dict(kind=k, order=o) for k in ('OutdoorField', 'HallwayField')
                                         for o in ((0,), (1,), (0, 1), (1, 0)) + (((2,), (2, 0), (1, 2)) if k == 'HallwayField' else ())],
         bounds='outdoor and hallway fields whose width, height or ratio are changed after construction, in any order')
def changed(S, kind, order):
    environment()
    v = values(S, kind, '')
    f = getattr(fields, kind)(**v)
    S.check('made before the change', len(f.spawns) > 0 and f.domain is not None)
    new = values(S, kind, 'new_')
    for k in order:
        n = PARAMS[kind][k]
        v[n] = new[n]
        setattr(f, n, new[n])
    compare(S, 'after a change: ', f, kind, v)
