"""C27 agent groups"""
from crowddynamics.simulation.agents import AgentGroup, Circular, ThreeCircle
from symx.reg import harness

KIND = {'Circular': Circular, 'ThreeCircle': ThreeCircle}


@harness(configs=[dict(how=h, kind=k) for h in ('list', 'tuple', 'generator', 'function') for k in sorted(KIND)],
         bounds='groups of 1 to 3 members, any radius and velocity each, the three traits set in any order or all at once; collections also without a size')
def members(S, how, kind):
    cls = KIND[kind]
    n = int(S.int('size', 1, 3))
    rows = [dict(radius=S.pos('r%d' % i, 3), target_velocity=S.pos('v%d' % i, 3)) for i in range(n)]
    used = []

    def one():
        r = rows[len(used)] if len(used) < n else dict(radius=1.0)
        used.append(r)
        return r

    def stream():
        while True:
            yield one()

    attributes = {'list': rows, 'tuple': tuple(rows), 'generator': stream(), 'function': one}[how]
    values = dict(agent_type=cls, size=n, attributes=attributes)
    together = S.branch(S.bool('together'))
    names = ['agent_type', 'size', 'attributes']
    if how in ('list', 'tuple') and S.branch(S.bool('no size')):
        names.remove('size')
    order = S.permutation('order', names)
    if together:
        g = AgentGroup(**{k: values[k] for k in order})
    else:
        g = AgentGroup()
        for k in order:
            S.check('no members before all is known', len(g.members) == 0 or how in ('list', 'tuple'))
            setattr(g, k, values[k])
    S.check('number of members', len(g.members) == n and g.size == n)
    for m, r in zip(g.members, rows):
        S.check('type', type(m) is cls)
        S.equal('attributes in order', [m.radius, m.target_velocity], [r['radius'], r['target_velocity']])
    S.check('different objects', len(set(id(m) for m in g.members)) == n)
    if how in ('generator', 'function'):
        S.check('each item or call used once', len(used) == n)
    S.observe('m', [m.radius for m in g.members])


@harness(configs=[dict(how=h) for h in ('generator', 'function')], bounds='one assignment changed afterwards to another size (1 to 3)')
def resized(S, how):
    count = []

    def one():
        count.append(1)
        return dict(radius=S.np.float64(len(count)))
    n, m = int(S.int('n', 1, 3)), int(S.int('m', 1, 3))
    g = AgentGroup(agent_type=Circular, size=n, attributes=one if how == 'function' else (one() for _ in range(99)))
    S.check('members', [float(x.radius) for x in g.members] == [float(i + 1) for i in range(n)])
    g.size = m
    S.check('as many as asked for', len(g.members) == m)
    if m != n:
        S.check('further items, each used once', [float(x.radius) for x in g.members] == [float(n + i + 1) for i in range(m)])


@harness(configs=[dict(how=h) for h in ('list', 'generator', 'function')], bounds='groups of 150 members, the radius of one of them any; a further group from what is left')
def many(S, how):
    n, r = 150, S.pos('r', 3)
    rows = [dict(radius=r if i == 120 else 0.25 + 0.01 * i, mass=60.0 + i) for i in range(n + 5)]
    it = iter(rows)
    attributes = {'list': rows[:n], 'generator': (x for x in it), 'function': lambda: next(it)}[how]
    g = AgentGroup(agent_type=Circular, size=n, attributes=attributes)
    S.check('number of members', len(g.members) == n)
    for m, row in zip(g.members, rows):
        S.equal('attributes in order', [m.radius, m.mass], [row['radius'], row['mass']])
    if how != 'list':
        more = AgentGroup(agent_type=Circular, size=5, attributes=attributes)
        S.check('the next group goes on', [m.mass for m in more.members] == [60.0 + n + i for i in range(5)])
