"""C20 grid lookup of target directions"""
from crowddynamics.core.steering.quickest_path import meshgrid
from crowddynamics.core.steering.navigation import getdefault
from symx.reg import harness


@harness(configs=[dict(step=0.5), dict(step=0.25), dict(step=1.5)], thorough=[dict(step=s) for s in (0.125, 0.25, 0.5, 0.75, 1.0, 1.5, 3.0)],
         bounds='lower corner in [-3, 3]^2 (multiples of 1/16), size to 2 x 1.5 (multiples of 1/16), steps 0.25, 0.5, 1.5 (thorough: 0.125 to 3)')
def mesh(S, step):
    S.exact_mode = True
    x0, y0 = S.grid('x0', -3, 3, 16), S.grid('y0', -3, 3, 16)
    w, h = S.grid('w', 0, 2, 16), S.grid('h', 0, 1.5, 16)
    g = meshgrid(step, x0, y0, x0 + w, y0 + h)
    xs, ys = g.values
    n, m = xs.shape
    S.check('shape', tuple(g.shape) == (n, m) and tuple(ys.shape) == (n, m))
    for i in range(n):
        for j in range(m):
            S.check('grid points', S.and_(S.eq(xs[i, j], x0 + j * step), S.eq(ys[i, j], y0 + i * step)))
    S.check('end points included, nothing more', S.and_(S.le(w, (m - 1) * step), S.lt((m - 2) * step, w), S.le(h, (n - 1) * step), S.lt((n - 2) * step, h)))
    S.equal('step', g.step, step)
    S.equal('bounds', list(g.bounds), [x0, y0, x0 + w, y0 + h])


@harness(configs=[dict(step=0.5), dict(step=0.3), dict(step=2.0), dict(step=0.5, whole=True)], bounds='two positions (also whole numbers) in [-6, 6]^2 or one, any lower corner in [-3, 3]^2, three steps')
def cell(S, step, whole=False):
    x0, y0 = S.real('x0', -3, 3), S.real('y0', -3, 3)
    g = meshgrid(step, x0, y0, x0 + 2 * step, y0 + step)
    p = S.np.zeros((2, 2), dtype=S.np.int64 if whole else S.np.float64)
    for i in range(2):
        for c in (0, 1):
            p[i, c] = S.int('p%d%d' % (i, c), -6, 6) if whole else S.real('p%d%d' % (i, c), -6, 6)
    t = g.indicer(p)
    one = g.indicer(p[1])
    for i in range(2):
        for c in (0, 1):
            k = t[i, c]
            lo = (x0, y0)[c] + k * step
            S.check('the cell holds the position', S.and_(S.le(lo, p[i, c]), S.lt(p[i, c], lo + step)))
    S.check('single position', S.and_(S.eq(one[0], t[1, 0]), S.eq(one[1], t[1, 1])))
    S.observe('cell', t)


@harness(configs=[dict(n=2, m=3, k=2), dict(n=3, m=1, k=1), dict(n=1, m=1, k=3), dict(n=2, m=2, k=0), dict(n=2, m=2, k=2, holes=True)],
         thorough=[dict(n=n, m=m, k=k) for n in (1, 2, 3) for m in (1, 2, 3) for k in (1, 2)],
         bounds='maps to 3 x 3, up to 3 agents, indices from -3 to 5, any map values (in one case some of them nan) and defaults')
def lookup(S, n, m, k, holes=False):
    u = S.np.zeros((n, m))
    v = S.np.zeros((n, m))
    for i in range(n):
        for j in range(m):
            u[i, j] = S.real('u%d%d' % (i, j), -1, 1)
            v[i, j] = S.real('v%d%d' % (i, j), -1, 1)
    if holes:           # no direction known there
        u[0, 1] = v[0, 1] = u[1, 0] = S.np.nan
    idx = S.np.zeros((k, 2), dtype=S.np.int64)
    dflt = S.np.zeros((k, 2))
    for a in range(k):
        for c in (0, 1):
            idx[a, c] = S.int('i%d%d' % (a, c), -3, 5)
            dflt[a, c] = S.real('d%d%d' % (a, c), -1, 1)
    keep = (u.copy(), v.copy(), idx.copy(), dflt.copy())
    out = getdefault(idx, (u, v), dflt)
    S.check('one direction per agent', tuple(out.shape) == (k, 2))
    for a in range(k):
        for i in range(n):
            for j in range(m):
                here = S.and_(S.eq(idx[a, 0], i), S.eq(idx[a, 1], j))
                S.check('value of the cell', S.implies(here, S.and_(S.eq(out[a, 0], u[i, j]), S.eq(out[a, 1], v[i, j]))))
        inside = S.and_(S.le(0, idx[a, 0]), S.lt(idx[a, 0], n), S.le(0, idx[a, 1]), S.lt(idx[a, 1], m))
        S.check('own direction outside the map', S.or_(inside, S.and_(S.eq(out[a, 0], keep[3][a, 0]), S.eq(out[a, 1], keep[3][a, 1]))))
    S.check('arguments kept', S.and_(S.eq(u, keep[0]), S.eq(v, keep[1]), S.eq(idx, keep[2]), S.eq(dflt, keep[3])))
    S.observe('direction', out)


@harness(bounds='a map of 50 x 40 cells and 60 agents, one of them with any indices from 44 to 60 and 33 to 48, another with any direction')
def large(S):
    n, m, k = 50, 40, 60
    u = S.np.array([[i + 0.5 * j for j in range(m)] for i in range(n)])
    v = S.np.array([[j - 0.25 * i for j in range(m)] for i in range(n)])
    a, b, d = S.int('i', 44, 60), S.int('j', 33, 48), S.real('d', -1, 1)
    idx = S.np.array([[a, b] if t == 50 else [(3 * t) % 70 - 8, (7 * t) % 60 - 6] for t in range(k)])
    dflt = S.np.array([[d, 0.5] if t == 55 else [2.0, -t] for t in range(k)])
    out = getdefault(idx, (u, v), dflt.copy())
    S.check('one direction per agent', tuple(out.shape) == (k, 2))
    for t in range(k):
        i, j = idx[t, 0], idx[t, 1]
        inside = S.and_(S.le(0, i), S.lt(i, n), S.le(0, j), S.lt(j, m))
        S.equal('direction of the place', [out[t, 0], out[t, 1]], [S.ite(inside, i + 0.5 * j, dflt[t, 0]), S.ite(inside, j - 0.25 * i, dflt[t, 1])])
