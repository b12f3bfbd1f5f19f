"""C28 editing, evaluating and searching the logic tree"""
from crowddynamics.simulation.logic import LogicNode
from crowddynamics.simulation.multiagent import MultiAgentSimulation
from symx.reg import harness


class Node(LogicNode):
    def update(self):
        self.simulation.evaluated.append(self.name)


class Model(object):
    """tree of names with ordered children"""

    def __init__(self, root):
        self.parent, self.children = {root: None}, {root: []}

    def add(self, at, new):
        self.parent[new], self.children[new] = at, []
        self.children[at].append(new)

    def before(self, at, new):
        up = self.parent[at]
        self.parent[new], self.children[new] = up, [at]
        self.parent[at] = new
        if up is not None:
            self.children[up].remove(at)
            self.children[up].append(new)

    def after(self, at, new):
        self.parent[new], self.children[new] = at, self.children[at]
        for c in self.children[new]:
            self.parent[c] = new
        self.children[at] = [new]

    def root(self):
        return [n for n, p in self.parent.items() if p is None][0]

    def post(self, at=None):
        at = at or self.root()
        out = []
        for c in self.children[at]:
            out += self.post(c)
        return out + [at]


def same(S, nodes, model):
    ok = True
    for name, node in nodes.items():
        p = model.parent[name]
        ok = ok and (node.parent is None if p is None else node.parent is nodes[p])
        ok = ok and [c.name for c in node.children] == model.children[name] and all(c is nodes[c.name] for c in node.children)
    S.check('every node once, in its place', ok)


def simulation():
    s = MultiAgentSimulation()
    s.evaluated = []
    return s


def evaluate(S, simu, nodes, model, turns=1):
    for k in range(turns):
        simu.evaluated = []
        simu.update()
        S.check('children before parents, siblings in order, each once', simu.evaluated == model.post())
        S.check('iterations counted', simu.data['iterations'] == k + 1)


def lookup(S, nodes):
    for start in nodes.values():
        for name, node in nodes.items():
            S.check('node of that name', start[name] is node)
        for name in ('unknown', 'N0', 'n', '', ' n0', 'n0 ', 'n00'):
            S.check('unknown name', S.raises(KeyError, start.__getitem__, name) is not None)


@harness(configs=[dict(k=k, first=f) for k in (1, 2, 3) for f in (0, 1, 2)] + [dict(k=4, first=0)],
         thorough=[dict(k=k, first=f) for k in (1, 2, 3, 4) for f in (0, 1, 2)] + [dict(k=5, first=0)],
         bounds='any sequence of up to 4 (thorough: 5) edits (add a child, inject before, inject after) at any node, run from any node')
def edits(S, k, first):
    simu = simulation()
    nodes = {'n0': Node(simu, name='n0')}
    model = Model('n0')
    for i in range(1, k + 1):
        new = 'n%d' % i
        op = first if i == 1 else int(S.int('op%d' % i, 0, 2))
        at = 'n%d' % int(S.int('at%d' % i, 0, i - 1))
        nodes[new] = Node(simu, name=new)
        if op == 0:
            S.check('returns the node', nodes[at].add_children(nodes[new]) is nodes[at])
            model.add(at, new)
        elif op == 1:
            nodes[at].inject_before(nodes[new])
            model.before(at, new)
        else:
            nodes[at].inject_after(nodes[new])
            model.after(at, new)
        same(S, nodes, model)
    simu.logic = nodes['n%d' % int(S.int('logic', 0, k))] if k < 4 else nodes['n%d' % (k - 1)]
    evaluate(S, simu, nodes, model, 2)
    same(S, nodes, model)
    if k < 4:
        lookup(S, nodes)


@harness(configs=[dict(n=n, how=h) for n in (2, 3, 4) for h in ('tuple', 'list', 'single')],
         thorough=[dict(n=n, how=h) for n in (2, 3, 4, 5) for h in ('tuple', 'list', 'single')],
         bounds='every tree of up to 4 (thorough: 5) nodes written with <<')
def shift(S, n, how):
    simu = simulation()
    model = Model('n0')
    for i in range(1, n):
        model.add('n%d' % int(S.int('parent%d' % i, 0, i - 1)), 'n%d' % i)
    nodes = {}

    def build(name):
        node = Node(simu, name=name)
        nodes[name] = node
        parts = [build(c) for c in model.children[name]]
        if how == 'single':
            for p in parts:
                node = node << p
        elif len(parts) == 1:
            node = node << parts[0]
        elif parts:
            node = node << (tuple(parts) if how == 'tuple' else parts)
        S.check('returns the node', node is nodes[name])
        return node
    simu.logic = build('n0')
    same(S, nodes, model)
    evaluate(S, simu, nodes, model)
    lookup(S, nodes)


@harness(configs=[dict(n=n, how=h) for n in (3, 4) for h in ('<<', 'tuple', 'list', 'add')], thorough=[dict(n=n, how=h) for n in (3, 4, 5) for h in ('<<', 'tuple', 'list', 'add')],
         bounds='every tree of up to 4 (thorough: 5) nodes; any node moved below any node outside of its own branch, together with a new one')
def moves(S, n, how):
    simu = simulation()
    model = Model('n0')
    nodes = {'n0': Node(simu, name='n0')}
    for i in range(1, n):
        up, new = 'n%d' % int(S.int('parent%d' % i, 0, i - 1)), 'n%d' % i
        nodes[new] = Node(simu, name=new)
        nodes[up].add_children(nodes[new])
        model.add(up, new)
    it = 'n%d' % int(S.int('moved', 1, n - 1))
    to = 'n%d' % int(S.int('to', 0, n - 1))
    if to in model.post(it) or model.parent[it] == to:
        return
    model.children[model.parent[it]].remove(it)
    model.parent[it] = to
    model.children[to].append(it)
    nodes['new'] = Node(simu, name='new')
    model.add(to, 'new')
    if how == '<<':
        nodes[to] << nodes[it] << nodes['new']
    elif how == 'add':
        nodes[to].add_children(nodes[it])
        nodes[to].add_children(nodes['new'])
    else:
        nodes[to] << ([nodes[it], nodes['new']] if how == 'list' else (nodes[it], nodes['new']))
    same(S, nodes, model)
    simu.logic = nodes['n0']
    evaluate(S, simu, nodes, model)


@harness(configs=[dict(n=n) for n in (1, 2, 3)], thorough=[dict(n=n) for n in (1, 2, 3, 4)],
         bounds='every tree of up to 3 (thorough: 4) nodes; a branch of another tree added or injected at any node')
def transfer(S, n):
    simu = simulation()
    model = Model('n0')
    nodes = {'n0': Node(simu, name='n0')}
    for i in range(1, n):
        up, new = 'n%d' % int(S.int('parent%d' % i, 0, i - 1)), 'n%d' % i
        nodes[new] = Node(simu, name=new)
        nodes[up].add_children(nodes[new])
        model.add(up, new)
    others = {name: Node(simu, name=name) for name in ('o0', 'o1', 'o2')}
    others['o0'] << (others['o1'] << others['o2'])
    at = 'n%d' % int(S.int('at', 0, n - 1))
    op = S.choice('op', ['add', 'before', 'after'])
    if op == 'add':
        nodes[at].add_children(others['o1'])
        model.add(at, 'o1')
        model.add('o1', 'o2')
    elif op == 'before':
        nodes[at].inject_before(others['o1'])
        model.before(at, 'o1')
        model.parent['o2'], model.children['o2'] = 'o1', []
        model.children['o1'].insert(0, 'o2')
    else:
        nodes[at].inject_after(others['o1'])
        model.after(at, 'o1')
        model.parent['o2'], model.children['o2'] = 'o1', []
        model.children['o1'].insert(0, 'o2')
    nodes.update(o1=others['o1'], o2=others['o2'])
    same(S, nodes, model)
    S.check('gone from its old tree', others['o0'].children == () and others['o0'].parent is None)
    simu.logic = nodes[S.choice('logic', sorted(nodes))]
    evaluate(S, simu, nodes, model)
    lookup(S, nodes)


class First(Node):
    pass


class Second(Node):
    pass


@harness(bounds='two nodes of different classes')
def default_names(S):
    simu = simulation()
    a, b = First(simu), Second(simu)
    a << b
    S.check('by class name', a['Second'] is b and b['First'] is a)
    S.check('moved', (lambda c: (b.add_children(c), b['n3'] is c and c.root is a)[1])(Node(simu, name='n3')))


@harness(configs=[dict(how=h) for h in range(3)], bounds='a node with nine children and a chain of twelve; one edit at any of them')
def wide(S, how):
    simu = simulation()
    model = Model('n0')
    nodes = {'n0': Node(simu, name='n0')}
    for i in range(1, 22):
        up, new = 'n0' if i < 10 else 'n%d' % (i - 1), 'n%d' % i
        nodes[new] = Node(simu, name=new)
        nodes[up].add_children(nodes[new])
        model.add(up, new)
    at, new = 'n%d' % int(S.choice('at', [0, 5, 9, 15, 21])), 'x'
    nodes[new] = Node(simu, name=new)
    if how == 0:
        nodes[at].inject_after(nodes[new])
        model.after(at, new)
    elif how == 1:
        nodes[at].inject_before(nodes[new])
        model.before(at, new)
    else:
        nodes[at] << nodes[new]
        model.add(at, new)
    same(S, nodes, model)
    simu.logic = nodes['n3']
    evaluate(S, simu, nodes, model, 2)
    S.check('found', all(nodes['n21'][k] is nodes[k] for k in nodes))
