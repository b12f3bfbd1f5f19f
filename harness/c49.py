"""C49 sampled spawn places"""
from crowddynamics.simulation.field import Field
from shapely.geometry import Polygon
from harness import geo
from symx import stubs
from symx.reg import harness


def box(x0, y0, x1, y1):
    return Polygon([(x0, y0), (x1, y0), (x1, y1), (x0, y1)])


class Grown(object):
    """obstacles grown by r (boxes: the corners stay square, which covers the round ones)"""

    options = ((), {})

    def __init__(self, g, r):
        self.g, self.r = g, r

    @property
    def coarse(self):
        """corners cut instead of round"""
        a, k = self.options
        return (list(a) + [k.get('resolution', k.get('quad_segs', 16))])[0] < 4 and k.get('join_style', 1) == 1


class Rest(geo.Cut):
    """a spawn without the grown obstacles, none of which covers one of its corners"""

    def __init__(self, a, b):
        geo.Cut.__init__(self, a, b if isinstance(b, Grown) else Grown(b, 0.0))

    def intersects(self, p):
        if not self.a.intersects(p):
            return False
        (x, y), (x0, y0, x1, y1), r = p.coords[0], self.b.g.bounds, self.b.r
        if self.b.__class__ is Grown and self.b.coarse:
            return not (x0 - r < x and x < x1 + r and y0 - r < y and y < y1 + r and x0 - x + y0 - y < r and x0 - x + y - y1 < r and x - x1 + y0 - y < r and x - x1 + y - y1 < r)
        return not (x0 - r < x and x < x1 + r and y0 - r < y and y < y1 + r)

    covers = contains = intersects


SPAWNS = [[(0.0, 0.0), (4.0, 0.0), (4.0, 2.0), (0.0, 2.0)],
          [(0.0, 0.0), (4.0, 0.0), (4.0, 1.0), (2.0, 1.0), (2.0, 4.0), (0.0, 4.0)],
          [(-3.0, -1.0), (-1.0, -1.0), (-2.0, 1.0)]]


def environment(S):
    stubs.HOOKS['buffer'] = Grown
    stubs.HOOKS['difference'] = Rest
    stubs.HOOKS['convex_hull'] = geo.hull


def inside(S, k, p):
    x, y = p
    if k == 0:
        return S.and_(S.between(0, x, 4), S.between(0, y, 2))
    if k == 1:
        return S.and_(S.between(0, x, 4), S.between(0, y, 4), S.or_(S.le(x, 2), S.le(y, 1)))
    return S.and_(S.le(-1, y), S.le(y, 2 * (x + 3) - 1), S.le(y, -2 * (x + 1) - 1))


def clear(S, bounds, r, p):
    x0, y0, x1, y1 = bounds
    return S.or_(S.le(p[0], x0 - r), S.le(x1 + r, p[0]), S.le(p[1], y0 - r), S.le(y1 + r, p[1]))


def take(S, gen, tries):
    """the next sample and the candidates that were not taken; at most `tries` candidates are looked at"""
    seen = []
    real = Polygon.intersects

    def counted(self, p):
        seen.append(p.coords[0])
        S.assume(len(seen) <= tries)
        return real(self, p)
    Polygon.intersects = Polygon.covers = Polygon.contains = counted
    try:
        return next(gen), seen[:-1]
    finally:
        Polygon.intersects = Polygon.covers = real


def examine(S, k, obstacle, r, got):
    p, left = got
    S.check('inside the spawn', inside(S, k, p))
    if obstacle:
        S.check('clear of the obstacle', clear(S, obstacle, r, p))
    for q in left:
        S.check('no place is given away', S.or_(S.not_(inside(S, k, q)), S.not_(clear(S, obstacle, r, q)) if obstacle else False))
    S.observe('p', p)


@harness(configs=[dict(k=k, obstacle=o, radius=r) for k in range(3) for o, r in ((False, None), (True, None), (True, 'any'))],
         thorough=[dict(k=k, obstacle=True, radius=r, tries=3) for k in (0, 2) for r in (None, 'any')],
         bounds='three spawn areas (box, L shape, triangle), an optional box obstacle anywhere around, any radius up to 1/2 or none given; up to two candidates (thorough: three); any random draws',
         assumes=('the obstacle grown by the radius is square and covers no corner of the spawn',))
def places(S, k, obstacle, radius, tries=2):
    S.coarse(200)
    environment(S)
    x, y = S.real('x', -4, 5), S.real('y', -2, 5)
    at = (x, y, x + 0.5, y + 0.25)
    f = Field(spawns=[Polygon(c) for c in SPAWNS], obstacles=box(*at) if obstacle else None)
    if radius == 'any':
        r = S.real('r', 0.125, 0.5)
        gen = f.sample_spawn(k, r) if S.branch(S.bool('by name')) else f.sample_spawn(spawn_index=k, radius=r)
    else:
        r = 0.3
        gen = f.sample_spawn(k)
    examine(S, k, at if obstacle else None, r, take(S, gen, tries))


@harness(configs=[dict(k=k) for k in (0, 2)],
         bounds='two samplers of one field in turns, one obstacle exchanged for another (or none) before the second sampler is made; one candidate per sample; any random draws')
def samplers(S, k):
    S.coarse(200)
    environment(S)
    one, two = (0.5, 0.25, 1.0, 0.5), (-2.25, -0.75, -2.0, -0.25)
    f = Field(spawns=[Polygon(c) for c in SPAWNS], obstacles=box(*one))
    a = f.sample_spawn(k)
    examine(S, k, one, 0.3, take(S, a, 1))
    new = S.choice('obstacle', [one, two, None])
    f.obstacles = box(*new) if new else None
    other = 2 - k
    b = f.sample_spawn(other, 0.125)
    examine(S, other, new, 0.125, take(S, b, 1))
    p, left = take(S, a, 1)
    S.check('inside the spawn', inside(S, k, p))
    S.check('no such spawn', S.raises(IndexError, lambda: next(f.sample_spawn(3))) is not None)


@harness(configs=[dict(k=1, n=60)], thorough=[dict(k=1, n=300)], bounds='60 (thorough: 300) samples with fixed draws from the L-shaped spawn, then one with any draws: every sample is valid, however many were rejected before')
def patient(S, k, n):
    environment(S)
    x = S.real('x', 1, 1.03125)
    at = (x, 0.25, x + 0.5, 0.5)
    f = Field(spawns=[Polygon(c) for c in SPAWNS], obstacles=box(*at))
    state = [12345]

    def fixed():
        state[0] = (state[0] * 1103515245 + 12345) % 2 ** 31
        return (state[0] >> 16) / 2.0 ** 15
    stubs.HOOKS['u'] = fixed
    gen = f.sample_spawn(k)
    for i in range(n):
        p = next(gen)
        S.check('inside the spawn', inside(S, k, p))
    stubs.HOOKS.pop('u')
    examine(S, k, at, 0.3, take(S, gen, 1))
