"""C01 block-list neighbour lookup"""
import itertools

from crowddynamics.core.block_list import MutableBlockList
from symx.reg import harness


def cell(S, v, c):
    return S.np.floor(v / c)


def same(S, got, want):
    """lists of plain labels"""
    return list(got) == list(want)


@harness(configs=[dict(n=1, dim=2), dict(n=2, dim=1)], thorough=[dict(n=2, dim=2), dict(n=3, dim=1), dict(n=1, dim=3)],
         bounds='n stored points and one query point in [-2.5, 2.5]^dim, cell size in [1, 3]')
def lookup(S, n, dim):
    c = S.real('c', 1, 3)
    pts = [[S.real('p%d%d' % (i, k), -2.5, 2.5) for k in range(dim)] for i in range(n)]
    q = [S.real('q%d' % k, -2.5, 2.5) for k in range(dim)]
    b = MutableBlockList(c)
    for i, p in enumerate(pts):
        b[p] = i
    want = [i for i, p in enumerate(pts)
            if S.branch(S.and_(*[S.eq(cell(S, p[k], c), cell(S, q[k], c)) for k in range(dim)]))]
    S.check('item lookup returns the cell in insertion order', same(S, b[q], want))
    S.observe('found', list(b[q]))


@harness(configs=[dict(n=2, dim=1, radius=0), dict(n=2, dim=1, radius=1), dict(n=2, dim=1, radius=2), dict(n=1, dim=2, radius=1), dict(n=1, dim=3, radius=2)],
         thorough=[dict(n=3, dim=1, radius=0), dict(n=3, dim=1, radius=1), dict(n=3, dim=1, radius=2), dict(n=2, dim=1, radius=3),
                   dict(n=2, dim=2, radius=1), dict(n=2, dim=2, radius=2), dict(n=2, dim=2, radius=0)],
         bounds='n stored points and one query point with coordinates in [-3, 3], cell size 1 or 3/2')
def nearest(S, n, dim, radius):
    c = S.choice('c', [1.0, 1.5]) if dim == 1 else 1.5
    pts = [[S.real('p%d%d' % (i, k), -3, 3) for k in range(dim)] for i in range(n)]
    q = [S.real('q%d' % k, -3, 3) for k in range(dim)] if dim < 3 else [0.25, -0.5, 2.0]
    b = MutableBlockList(c)
    for i, p in enumerate(pts):
        b[p] = i
    got = list(b.nearest(q, radius=radius))
    for i, p in enumerate(pts):
        d = [cell(S, p[k], c) - cell(S, q[k], c) for k in range(dim)]
        near = S.and_(*[S.between(-radius - 0.5, x, radius + 0.5) for x in d])
        S.check('exactly the values of the cells in range, once each', S.iff(near, got.count(i) == 1))
        S.check('never more than once', got.count(i) <= 1)
        close = S.and_(*[S.between(-radius * c, p[k] - q[k], radius * c) for k in range(dim)])
        S.check('everything within radius cells is found', S.implies(close, i in got))
    S.check('nothing else', set(got) <= set(range(n)))
    S.observe('got', sorted(got))


@harness(configs=[dict(radius=1)], bounds='two points, values stored twice and queries repeated; default radius')
def repeated(S, radius):
    p = [S.real('p%d' % k, -3, 3) for k in range(2)]
    q = [S.real('q%d' % k, -3, 3) for k in range(2)]
    b = MutableBlockList(1.5)
    b[p] = 'a'
    b[p] = 'a'
    first = sorted(b.nearest(q))
    item = list(b[q])
    b[q] = 'b'
    d = [cell(S, p[k], 1.5) - cell(S, q[k], 1.5) for k in range(2)]
    near = S.branch(S.and_(*[S.between(-1.5, x, 1.5) for x in d]))
    at = S.branch(S.and_(*[S.between(-0.5, x, 0.5) for x in d]))
    S.check('duplicates are all returned', first == (['a', 'a'] if near else []))
    S.check('item', item == (['a', 'a'] if at else []))
    S.check('queries do not change the content', sorted(b.nearest(q)) == (['a', 'a', 'b'] if near else ['b']))
    S.check('item after adding', list(b[q]) == (['a', 'a', 'b'] if at else ['b']))


@harness(configs=[dict(radius=r) for r in (1, 0, 2)], bounds='queries, then points stored in any cell of a line, the same queries again; results changed by the caller')
def interleaved(S, radius):
    b = MutableBlockList(1.0)
    at = [(0.5, 0.5), (S.real('x', -3, 4), 0.5), (0.25, S.real('y', -2, 3))]
    q = (0.5, 0.75)

    def want(n):
        return [i for i, p in enumerate(at[:n]) if S.branch(S.and_(*[S.between(-radius - 0.5, cell(S, p[k], 1.0) - cell(S, q[k], 1.0), radius + 0.5) for k in (0, 1)]))]
    b[at[0]] = 0
    seen = []
    for n in (1, 2, 3):
        w = want(n)
        got = b.nearest(q, radius=radius)
        S.check('what is stored at the time of the query', sorted(got) == w)
        S.check('asked again', sorted(b.nearest(q, radius=radius)) == w)
        again = b.nearest(q, radius=radius)
        again.append(98)
        if w:
            again[0] = 99
        S.check('a result belongs to the caller', sorted(b.nearest(q, radius=radius)) == w)
        seen.append((got, w))
        if n < 3:
            b[at[n]] = n
    S.check('results do not change when more is stored', all(sorted(g) == w for g, w in seen))


@harness(bounds='cell sizes from -2 to 0')
def refused(S):
    c = S.real('c', -2, 0)
    S.check('cells have a positive size', S.raises((AssertionError, ValueError, KeyError, ZeroDivisionError), MutableBlockList, c) is not None)


@harness(configs=[dict(radius=r) for r in (4, 7, 12)], bounds='radii of 4, 7 and 12 cells around any point of a line, points stored in 30 cells; cells of size 1/2')
def far(S, radius):
    b = MutableBlockList(0.5)
    at = [(0.5 * k + 0.25, 0.25 * (k % 3)) for k in range(-15, 15)]
    for i, p in enumerate(at):
        b[p] = i
    q = (S.real('q', -2.25, 2.25), 0.125)
    here = cell(S, q[0], 0.5)
    got = list(b.nearest(q, radius=radius))
    S.check('once each', len(got) == len(set(got)))
    for i in range(len(at)):
        S.check('exactly the values of the cells in range', S.iff(S.between(-radius - 0.5, here - (i - 15), radius + 0.5), i in got))


@harness(bounds='40 values in one cell, some of them equal, and 40 in its neighbours')
def crowded(S):
    b = MutableBlockList(1.0)
    x = S.real('x', 0.0, 0.9375)
    for i in range(80):
        b[(x if i % 2 else 1 + x / 2, 0.5)] = i % 60
    S.check('values of the cell, in insertion order', list(b[(0.5, 0.25)]) == [i % 60 for i in range(1, 80, 2)])
    S.check('values of the cells next to it', sorted(b.nearest((0.5, 0.25))) == sorted(i % 60 for i in range(80)))
    S.check('values of its own', sorted(b.nearest((0.5, 0.25), radius=0)) == sorted(i % 60 for i in range(1, 80, 2)))
