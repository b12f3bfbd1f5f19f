"""C21 direction maps and obstacle handling"""
from crowddynamics.core.steering.obstacle_handling import obstacle_handling, obstacle_handling_continuous, direction_map_obstacles
from crowddynamics.core.steering.quickest_path import direction_map
from symx.reg import harness


def matrix(S, name, n, m, lo, hi, fixed=None):
    a = S.np.zeros((n, m))
    for i in range(n):
        for j in range(m):
            a[i, j] = S.real('%s%d%d' % (name, i, j), lo, hi) if fixed is None else fixed(i, j)
    return a


def slope(f, i, j, axis):
    n, m = f.shape
    k, size = (i, n) if axis == 0 else (j, m)
    lo, hi = max(k - 1, 0), min(k + 1, size - 1)
    a, b = (f[lo, j], f[hi, j]) if axis == 0 else (f[i, lo], f[i, hi])
    return (b - a) / (hi - lo)


@harness(configs=[dict(n=2, m=2, free=((0, 0), (0, 1), (1, 0))), dict(n=3, m=2, free=((0, 0), (1, 1))), dict(n=3, m=4, free=((1, 2),)), dict(n=4, m=3, free=((1, 1),))],
         thorough=[dict(n=2, m=2, free=((0, 0), (0, 1), (1, 0), (1, 1))), dict(n=3, m=2, free=((0, 0), (1, 1), (2, 0))), dict(n=3, m=4, free=((1, 2), (2, 1))),
                   dict(n=4, m=3, free=((1, 1), (3, 2)))],
         bounds='distance maps to 3 x 4 with up to 3 (thorough: 4) free values in [-3, 3]')
def gradient(S, n, m, free):
    free = [tuple(f) for f in free]
    S.coarse(60)
    d = S.np.zeros((n, m))
    for i in range(n):
        for j in range(m):
            d[i, j] = S.real('d%d%d' % (i, j), -3, 3) if (i, j) in free else ((3 * i + 5 * j) % 7) * 0.5 - 1.5
    keep = d.copy()
    u, v = direction_map(d)
    S.check('shape', tuple(u.shape) == (n, m) and tuple(v.shape) == (n, m))
    S.check('distance map kept', S.eq(d, keep))
    for i in range(n):
        for j in range(m):
            gx, gy = slope(d, i, j, 1), slope(d, i, j, 0)
            if S.branch(S.and_(S.eq(gx, 0), S.eq(gy, 0))):
                S.check('undefined where the gradient vanishes', S.and_(S.isnan(u[i, j]), S.isnan(v[i, j])))
            else:
                l = S.sqrt(gx * gx + gy * gy)
                S.equal('normalised gradient, x first', [u[i, j] * l, v[i, j] * l], [gx, gy])
    S.observe('u', u)


def blended(S, x, radius, strength, away, target):
    """conditions and value: (applies, vector) before normalisation"""
    if S.branch(S.and_(S.lt(0, x), S.lt(x, radius))):
        p = strength ** (x / radius)
        return [p * away[c] + (1 - p) * target[c] for c in (0, 1)], True
    return [target[0], target[1]], False


def parallel(S, name, got, way):
    l = S.norm(S.np.array(way))
    S.assume(S.lt(0, l))
    S.equal(name, [got[0] * l, got[1] * l], way)


DIRS = [(1.0, 0.0), (0.6, 0.8), (0.0, -1.0), (-0.8, 0.6), (-1.0, 0.0), (0.28, 0.96)]


@harness(configs=[dict(n=1, m=2, free=0, strength=0.3), dict(n=2, m=1, free=1, strength=0.5), dict(n=2, m=2, free=2, strength=0.75), dict(n=2, m=2, free=1, strength=2.0 ** -16, steep=True)],
         bounds='maps to 2 x 2: any distance to obstacles in (-2, 2) in every cell, one cell with any directions (others fixed), any radius to 2, three strengths; one case with a strength of 2^-16 and fixed distances; '
                'cells of obstacles (distance 0) excluded')
def handling(S, n, m, free, strength, steep=False):
    S.coarse(60)
    dist = matrix(S, 'x', n, m, -2, 2, (lambda i, j: -(0.9375, 0.75, 0.5, 0.0625)[2 * i + j]) if steep else None)
    maps = []
    for name, shift in (('o', 0), ('t', 2)):
        pair = []
        for c in (0, 1):
            pair.append(matrix(S, name + 'uv'[c], n, m, -1, 1,
                               lambda i, j: S.real('%s%s' % (name, 'uv'[c]), -1, 1) if i * m + j == free else DIRS[(shift + i * m + j) % 6][c]))
        maps.append(tuple(pair))
    obs, tgt = maps
    radius = 1.0 if steep else S.pos('radius', 2)
    ways = {}
    for i in range(n):
        for j in range(m):
            S.assume(S.ne(dist[i, j], 0))
            w, near = blended(S, -dist[i, j], radius, strength, (-obs[0][i, j], -obs[1][i, j]), (tgt[0][i, j], tgt[1][i, j]))
            S.assume(S.lt(0, S.norm(S.np.array(w))))
            ways[i, j] = w
    keep = [a.copy() for a in obs + tgt + (dist,)]
    u, v = obstacle_handling(dist, obs, tgt, radius, strength)
    S.check('shape', tuple(u.shape) == (n, m) and tuple(v.shape) == (n, m))
    for i in range(n):
        for j in range(m):
            parallel(S, 'direction', [u[i, j], v[i, j]], ways[i, j])
    S.check('arguments kept', S.and_(*[S.eq(a, b) for a, b in zip(obs + tgt + (dist,), keep)]))
    S.observe('u', u)


@harness(configs=[dict(k=1, strength=0.3), dict(k=2, strength=0.5)],
         bounds='map of 2 x 3 with any distances, up to 2 agents with indices from -2 to 4 and any target directions (for the second agent fixed), any radius to 2')
def continuous(S, k, strength):
    S.coarse(60)
    n, m = 2, 3
    dist = matrix(S, 'x', n, m, -2, 2)
    obs = tuple(matrix(S, 'o', n, m, -1, 1, lambda i, j: DIRS[i * m + j][c]) for c in (0, 1))
    radius = S.pos('radius', 2)
    idx = S.np.zeros((k, 2), dtype=S.np.int64)
    tgt = S.np.zeros((k, 2))
    for a in range(k):
        for c in (0, 1):
            idx[a, c] = S.int('i%d%d' % (a, c), *((-2, 4) if k == 1 else (0, 1) if a else (-1, 2)))
            tgt[a, c] = S.real('t%d' % c, -1, 1) if a == 0 else (0.6, -0.8)[c]
    keep = [a.copy() for a in obs + (dist, idx, tgt)]
    out = obstacle_handling_continuous(dist, obs, tgt, idx, radius, strength)
    for a in range(k):
        i, j = int(idx[a, 0]), int(idx[a, 1])
        if not (0 <= i < n and 0 <= j < m):
            S.equal('outside the map', out[a], keep[4][a])
            continue
        S.assume(S.ne(dist[i, j], 0))
        w, near = blended(S, -dist[i, j], radius, strength, (-obs[0][i, j], -obs[1][i, j]), keep[4][a])
        if near:
            parallel(S, 'direction', out[a], w)
        else:
            S.equal('far from obstacles', out[a], keep[4][a])
    S.check('arguments kept', S.and_(*[S.eq(a, b) for a, b in zip(obs + (dist, idx, tgt), keep)]))
    S.observe('out', out)
