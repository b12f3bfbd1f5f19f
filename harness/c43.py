"""C43 saving node of simulations"""
import csv
import os
from anytree.iterators import PostOrderIter
from crowddynamics.io import load_npy, load_npy_concatenated, load_geometry_json
from crowddynamics.simulation.field import Field
from crowddynamics.simulation.logic import LogicNode, SaveSimulationData
from crowddynamics.simulation.multiagent import MultiAgentSimulation
from harness.c32 import MAKE, same
from harness.util import crowd, KINDS
from symx.reg import harness


class Crowd:
    def __init__(self, array):
        self.array = array


class Simulation(MultiAgentSimulation):
    agents = None
    logic = None


def table(path):
    if not os.path.exists(path):
        return None
    with open(path, newline='') as f:
        return list(csv.reader(f))


def arrays(S, d, want):
    got = list(load_npy(d, 'agents'))
    S.check('one file per true condition', len(got) == len(want))
    for g, w in zip(got, want):
        S.check('one row per update', tuple(g.shape) == (len(w), len(w[0])))
        for i, row in enumerate(w):
            S.check('agents as they were at the update', S.field_eq(g[i], row))


@harness(configs=[dict(kind=kd, n=2, k=k) for kd in KINDS for k in (1, 4)] + [dict(kind='circular', n=1, k=80, free=(3, 71, 79))], thorough=[dict(kind=kd, n=n, k=k) for kd in KINDS for n, k in ((1, 9), (3, 6))] + [dict(kind='circular', n=1, k=300, free=(0, 130, 299))],
         bounds='up to 4 (thorough: 9) updates with any save decisions, 80 (thorough: 300) updates with three free decisions (true and false values of several types); up to 3 agents with any positions that change after every update')
def updates(S, kind, n, k, free=None):
    base = S.scratch.new()
    simu = Simulation(field=Field())
    simu.agents = Crowd(crowd(S, kind, n, dict(position=(-9, 9), velocity=(-1, 1), orientation=(-3, 3), radius=0.25, mass=80.0), fill='any'))
    count, decided = [0], []

    def condition(s):
        S.check('condition of this simulation', s is simu)
        decided.append(S.branch(S.bool('save%d' % count[0])) if free is None or count[0] in free else False)
        return [(False, True), (0, 1), ('', 'yes'), (None, S.np.bool_(True))][(count[0] + n) % 4][decided[-1]]
    node = SaveSimulationData(simu, save_condition=condition, base_directory=base, save_directory='here')
    d = os.path.join(base, 'here')
    names = ['iterations', 'time_tot', 'dt']
    rows, files, buf, last = [], [], [], 0
    S.check('nothing saved before', list(load_npy(d, 'agents')) == [] and table(os.path.join(d, 'data.csv')) is None)
    for i in range(k):
        count[0] = i
        before = simu.agents.array.copy()
        data = dict(simu.data)
        node.update()
        S.check('condition asked once', len(decided) == i + 1)
        S.check('agents kept', S.field_eq(simu.agents.array, before))
        S.check('data kept', dict(simu.data) == data)
        buf.append(before)
        rows.append([str(simu.data[q]) for q in names])
        if decided[-1]:
            files.append(buf)
            buf = []
            last = len(rows)
        got = table(os.path.join(d, 'data.csv'))
        S.check('header and every row up to the last true condition', got == ([names] + rows[:last] if last else None))
        simu.data['iterations'] += 1
        simu.data['dt'] = 0.25 + i
        simu.data['time_tot'] += 0.5
        simu.agents.array['position'][i % n, 0] = S.real('moved%d' % i, -9, 9) if free is None or i in free else i / 8
        simu.agents.array['velocity'][...] = 0.25 * i
    arrays(S, d, files)


@harness(configs=[dict(k=k) for k in range(5)], bounds='fields with no, some and all of domain, obstacles, targets and spawns (to two each), any coordinates')
def creation(S, k):
    base = S.scratch.new()
    poly, line = MAKE['polygon'], MAKE['line']
    parts = [lambda: dict(), lambda: dict(domain=poly(S, 'd'), obstacles=line(S, 'o')), lambda: dict(targets=[line(S, 't', 2)], spawns=[poly(S, 's', True)]),
             lambda: dict(domain=poly(S, 'd'), obstacles=MAKE['lines'](S, 'o'), targets=[line(S, 't'), poly(S, 'u')], spawns=[poly(S, 's'), poly(S, 'r')]),
             lambda: dict(obstacles=MAKE['polygons'](S, 'o'), targets=[poly(S, 't')])][k]()
    simu = Simulation(field=Field(**parts), name='run%d' % k)
    simu.metadata['extra, "key"'] = 'value,%d' % k
    for again in range(2):
        node = SaveSimulationData(simu, save_condition=lambda s: False, base_directory=base, **(dict(save_directory='sub%d' % again) if k else {}))
        name = 'sub%d' % again if k else simu.name_with_timestamp
        d = os.path.join(base, name)
        S.check('directory', node.full_path == os.path.join(os.path.abspath(base), name) and os.path.isdir(d))
        geom = load_geometry_json(os.path.join(d, 'geometry.json'))
        want = {q: parts.get(q, [] if q in ('targets', 'spawns') else None) for q in ('domain', 'obstacles', 'targets', 'spawns')}
        S.check('all geometries', list(geom) == list(want))
        for q in want:
            S.check('geometry of the field', same(S, want[q], geom[q]))
        if again == 0 or k:
            S.check('metadata once', table(os.path.join(d, 'metadata.csv')) == [list(simu.metadata), [str(v) for v in simu.metadata.values()]])
        S.check('nothing else yet', sorted(os.listdir(d)) == ['geometry.json', 'metadata.csv'])
    S.check('metadata has the name and the time', simu.metadata['name'] == 'run%d' % k and simu.metadata['timestamp'] == str(simu.timestamp))


@harness(configs=[dict(k=k) for k in (2, 4)], thorough=[dict(k=k) for k in (4, 8)],
         bounds='logic trees of three nodes with the saving node added; up to 4 (thorough: 8) iterations with any save decisions, any agent movement in the logic')
def iterations(S, k):
    base = S.scratch.new()
    simu = Simulation(field=Field())
    simu.agents = Crowd(crowd(S, 'circular', 1, dict(position=(-9, 9)), fill='any'))
    decided, ends = [], []

    class Move(LogicNode):
        def update(self):
            i = self.simulation.data['iterations']
            self.simulation.agents.array['position'][0] = S.vec('p%d' % i, -9, 9)
            self.simulation.data['dt'] = 0.5 + i

    class Reset(LogicNode):
        def update(self):
            self.simulation.agents.array['force'] = 0.0
            ends.append(self.simulation.agents.array.copy())

    class Other(LogicNode):
        def update(self):
            self.simulation.agents.array['force'][0, 0] = 1.5

    def condition(s):
        decided.append(S.branch(S.bool('save%d' % len(decided))))
        return decided[-1]
    simu.logic = Reset(simu) << [Move(simu), Other(simu)]
    node = SaveSimulationData(simu, save_condition=condition, base_directory=base, save_directory='here')
    node.add_to_simulation_logic()
    S.check('every node stays', sorted(n.name for n in PostOrderIter(simu.logic.root)) == ['Move', 'Other', 'Reset', 'SaveSimulationData'])
    for i in range(k):
        simu.update()
    S.check('once per iteration', len(decided) == k)
    files, buf, last = [], [], 0
    for i in range(k):
        buf.append(ends[i])
        if decided[i]:
            files.append(buf)
            buf, last = [], i + 1
    d = os.path.join(base, 'here')
    arrays(S, d, files)
    S.check('iterations in order', table(os.path.join(d, 'data.csv')) == (
        [['iterations', 'time_tot', 'dt']] + [[str(i), '0.0', str(0.5 + i)] for i in range(last)] if last else None))
