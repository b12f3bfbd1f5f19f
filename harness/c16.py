"""C16 exit capacity and exit ranks"""
from crowddynamics.core.evacuation import narrow_exit_capacity, agent_closer_to_exit
from symx.reg import harness


def capacity(S, door, agent, layer, c):
    """the documented estimate, as a set of conditions on the returned value"""
    got = narrow_exit_capacity(door, agent, layer, c)
    if S.branch(S.lt(door, agent)):
        S.equal('door narrower than the agent', got, 0)
        return got
    width = agent if layer is None else layer
    room = door if layer is None else door - (agent - layer)
    k = got / c
    S.check('whole number of persons', S.eq(k, S.np.floor(k + 0.5)))
    S.check('largest number that fits', S.and_(S.le(k * width, room), S.lt(room, (k + 1) * width)))
    S.check('at least one person', S.le(1, k))
    S.observe('capacity', got)
    return got


@harness(configs=[dict(how='simple'), dict(how='layer')], bounds='door width to 4 m, agent width in [0.25, 1], layer width in [0.25, 1], coefficient in (0, 2]')
def value(S, how):
    door, agent = S.grid('door', 0, 4, 64), S.grid('agent', 0.25, 1, 64)
    layer = None if how == 'simple' else S.grid('layer', 0.25, 1, 64)
    capacity(S, door, agent, layer, S.choice('c', [1.0, 0.5, 2.0]))


@harness(configs=[dict(agent=a, layer=l) for a, l in ((0.5, None), (0.25, None), (0.75, 0.5), (0.5, 0.375))], bounds='door width from 2 to 64 m')
def wide(S, agent, layer):
    capacity(S, S.grid('door', 2, 64, 16), agent, layer, S.choice('c', [1.0, 0.5]))


@harness(bounds='door width to 4 m, agent width in [0.25, 1]')
def agree(S):
    door, agent, c = S.real('door', 0, 4), S.real('agent', 0.25, 1), S.pos('c', 2)
    S.equal('layer as wide as the agent', narrow_exit_capacity(door, agent, agent, c), narrow_exit_capacity(door, agent, None, c))


@harness(bounds='door width to 4 m, agent width in [0.25, 1]')
def default(S):
    door, agent = S.real('door', 0, 4), S.real('agent', 0.25, 1)
    S.equal('coefficient 1 and no layer by default', narrow_exit_capacity(door, agent), narrow_exit_capacity(door, agent, None, 1.0))


@harness(configs=[dict(how='simple'), dict(how='layer')], bounds='two door widths to 4 m, agent and layer width in [0.25, 1]')
def monotone(S, how):
    door, more, agent = S.grid('door', 0, 4, 64), S.grid('more', 0, 2, 64), S.choice('agent', [0.25, 0.375, 0.5, 0.75, 1.0])
    layer = None if how == 'simple' else S.choice('layer', [0.25, 0.5, 0.625])
    S.check('a wider door never has less capacity', S.le(narrow_exit_capacity(door, agent, layer, 1.0), narrow_exit_capacity(door + more, agent, layer, 1.0)))


@harness(configs=[dict(n=1, line=False), dict(n=2, line=False), dict(n=3, line=False), dict(n=4, line=True)],
         thorough=[dict(n=3, line=False), dict(n=4, line=True), dict(n=4, line=False), dict(n=5, line=True)],
         bounds='up to 3 agents anywhere, or 4 (thorough: 5) on a line, and any exit position')
def closer(S, n, line):
    S.coarse(100)
    c = S.vec('c', -10, 10)
    p = S.np.zeros((n, 2))
    for i in range(n):
        p[i, 0] = S.real('x%d' % i, -10, 10)
        p[i, 1] = c[1] if line else S.real('y%d' % i, -10, 10)
    num = agent_closer_to_exit(c, p)
    S.check('one rank per agent', len(num) == n)
    rank = [int(num[i]) for i in range(n)]
    S.check('permutation', sorted(rank) == list(range(n)))
    d = [S.norm(c - p[i]) for i in range(n)]
    for i in range(n):
        for j in range(n):
            if i != j and rank[i] > rank[j]:
                S.check('ranks follow the distance', S.le(d[j], d[i]))
    S.observe('rank', rank)


@harness(bounds='24 agents on a line, one of them anywhere, and an exit beside it')
def queue(S):
    n = 24
    x = S.real('x', -3.0, 15.0)
    p = S.np.array([[x if i == 13 else 0.5 * ((7 * i) % n), 0.0] for i in range(n)])
    num = agent_closer_to_exit(S.np.array([-4.0, 0.0]), p)
    rank = [int(num[i]) for i in range(n)]
    S.check('permutation', sorted(rank) == list(range(n)))
    for i in range(n):
        for j in range(n):
            if i != j and rank[i] > rank[j]:
                S.check('ranks follow the distance', S.le(p[j, 0], p[i, 0]))
