"""C29 running simulations and processes"""
import functools
from crowddynamics.exceptions import CrowdDynamicsException
from crowddynamics.simulation.base import SimulationBase
from crowddynamics.simulation.logic import LogicNode
from crowddynamics.simulation.multiagent import MultiAgentSimulation, MultiAgentProcess
from symx.reg import harness


class Node(LogicNode):
    work = None

    def update(self):
        self.work(self)


def simulation(work, names=('root',)):
    s = MultiAgentSimulation()
    top = None
    for n in names:
        node = Node(s, name=n)
        node.work = work
        if top is not None:
            top.add_children(node)
        else:
            top = node
    s.logic = top
    return s


@harness(configs=[dict(k=k, base=b) for k in (3, 6) for b in (False, True)], thorough=[dict(k=k, base=b) for k in (6, 12) for b in (False, True)],
         bounds='the exit condition may become true at any of the first 6 (thorough: 12) checks')
def stops(S, k, base):
    log = []

    def condition(simu):
        log.append('check')
        S.check('sees the simulation', simu is s)
        n = log.count('check')
        if n > 3 * k + 3:
            S.check('ends', False)
            raise RuntimeError('runs on')
        return n > k or S.branch(S.bool('exit%d' % n))
    if base:
        class Simple(SimulationBase):
            def update(self):
                log.append('update')
        s = Simple(exit_condition=condition)
    else:
        s = simulation(lambda node: (log.append('update'), S.check('counted after the logic', node.simulation.data['iterations'] == log.count('update') - 1)))
        s.exit_condition = condition
    s.run()
    n = log.count('check')
    S.check('one check before every update, none after', log == ['check', 'update'] * (n - 1) + ['check'])
    if not base:
        S.check('iterations', s.data['iterations'] == n - 1)
    s.run()
    S.check('can be run again', log[2 * n - 1:] == ['check', 'update'] * (log.count('check') - n - 1) + ['check'])


@harness(configs=[dict(k=k) for k in (1, 4)], bounds='no exit condition; the logic fails at any of the first 4 updates')
def never(S, k):
    at = int(S.int('at', 1, k))
    count = []

    def work(node):
        count.append(1)
        if len(count) == at:
            raise ZeroDivisionError
    s = simulation(work)
    S.check('error of the logic is passed on', S.raises(ZeroDivisionError, s.run) is not None)
    S.check('runs until then', len(count) == at and s.data['iterations'] == at - 1)


@harness(configs=[dict(k=k) for k in (1, 3)], thorough=[dict(k=k) for k in (1, 3, 6)],
         bounds='the exit condition is replaced, removed or set by the logic at any of the first 3 (thorough: 6) updates; both conditions hold from any check on')
def replaced(S, k):
    log = []
    at = int(S.int('at', 1, k))
    how = S.choice('how', ['other', 'removed', 'set'])
    last = int(S.int('last', 1, k + 1))

    def old(simu):
        S.check('replaced by now', log.count('update') < at)
        log.append('old')
        return False

    def new(simu):
        S.check('in place by now', log.count('update') >= at)
        log.append('new')
        return log.count('new') >= last

    def work(node):
        log.append('update')
        n = log.count('update')
        if n > 3 * k + 3:
            S.check('ends', False)
            raise RuntimeError('runs on')
        if n == at:
            s.exit_condition = None if how == 'removed' else new
        if how == 'removed' and n == at + last:
            raise ZeroDivisionError
    s = simulation(work)
    s.exit_condition = None if how == 'set' else old
    e = S.raises(ZeroDivisionError, s.run)
    S.check('fails only without a condition', (e is not None) == (how == 'removed'))
    before = ([] if how == 'set' else ['old']) + ['update']
    if how == 'removed':
        S.check('checked as long as there is a condition', log == before * at + ['update'] * last)
    else:
        S.check('the condition in force is checked before every update', log == before * at + ['new', 'update'] * (last - 1) + ['new'])
    S.check('iterations', s.data['iterations'] == log.count('update') - (how == 'removed'))


class Queue(list):
    def put(self, x, *a, **k):
        self.append(x)


@harness(configs=[dict(k=k) for k in (1, 2, 3)], thorough=[dict(k=k) for k in range(1, 7)],
         bounds='a simulation of two nodes, stopped before the start or by either node at any of the first 3 (thorough: 6) updates, or failing there, with no exit condition or one that never holds; the nodes use the queue too')
def process(S, k):
    q = Queue()
    how = S.choice('how', ['stop', 'fail', 'both', 'before'])
    at = int(S.int('at', 1, k))
    who = S.choice('who', ['root', 'leaf'])
    log = []

    def work(node):
        if node.name == 'leaf':
            log.append('update')
        if len(log) > at + 2:
            S.check('ends', False)
            raise RuntimeError('runs on')
        q.put((node.name, len(log)))
        if len(log) == at and node.name == who:
            if how in ('stop', 'both'):
                p.stop()
            if how in ('fail', 'both'):
                raise CrowdDynamicsException('stop here')
    s = simulation(work, ('root', 'leaf'))
    if S.choice('condition', ['none', 'never']) == 'never':
        s.exit_condition = lambda simu: False
    p = MultiAgentProcess(s, q)
    S.check('a process not yet started', p.is_alive() is False)
    if how == 'before':
        p.stop()
    S.check('returns', S.raises(CrowdDynamicsException, p.run) is None)
    S.check('end marker once and last', q.count(MultiAgentProcess.EndProcess) == 1 and q[-1] is MultiAgentProcess.EndProcess)
    S.check('updates', len(log) == (0 if how == 'before' else at))
    S.check('stopped', p.exit.is_set())
    S.check('complete iterations', s.data['iterations'] == (0 if how == 'before' else at if how == 'stop' else at - 1))
    want = [(n, i + 1) for i in range(len(log)) for n in ('leaf', 'root')]
    if how in ('fail', 'both') and who == 'leaf':
        want = want[:-1]
    S.check('everything sent before the marker', q[:-1] == want)


class Odd:
    def __init__(self, value):
        self.value = value

    def __bool__(self):
        return self.value


TRUE = [True, 1, 2.5, 'False', [0], (None,), Odd(True)]
FALSE = [False, 0, 0.0, '', [], None, Odd(False)]


@harness(configs=[dict(k=2)], thorough=[dict(k=4)], bounds='exit conditions that answer with numbers, texts, lists, None, truth values of numpy or objects with a truth value; true at any of the first 3 (thorough: 5) checks')
def answers(S, k):
    log = []
    last = int(S.int('last', 1, k + 1))
    yes, no = S.choice('yes', range(len(TRUE) + 1)), S.choice('no', range(len(FALSE) + 1))

    def condition(simu):
        log.append('check')
        if len(log) > 4 * k + 4:
            S.check('ends', False)
            raise RuntimeError('runs on')
        if log.count('check') >= last:
            return (TRUE + [S.np.bool_(True)])[yes]
        return (FALSE + [S.np.bool_(False)])[no]
    s = simulation(lambda node: log.append('update'))
    s.exit_condition = condition
    s.run()
    S.check('runs until the answer is true', log == ['check', 'update'] * (last - 1) + ['check'])


class Plain(list):
    """a condition that is an empty list"""

    def __init__(self, ask):
        list.__init__(self)
        self.ask = ask

    def __call__(self, simu):
        return self.ask(simu)

    def method(self, simu):
        return self.ask(simu)


@harness(configs=[dict(how=h) for h in ('function', 'empty', 'method', 'partial')], bounds='conditions that are functions, methods, partial functions or callable objects whose own truth value is false; true at any of the first 4 checks')
def callables(S, how):
    log = []
    last = int(S.int('last', 1, 4))

    def condition(simu):
        log.append('check')
        S.check('asked about the simulation', simu is s)
        return log.count('check') >= last

    def work(node):
        log.append('update')
        if len(log) > 12:
            S.check('ends', False)
            raise RuntimeError('runs on')
    s = simulation(work)
    s.exit_condition = {'function': condition, 'empty': Plain(condition), 'method': Plain(condition).method, 'partial': functools.partial(condition)}[how]
    s.run()
    S.check('runs until the condition holds', log == ['check', 'update'] * (last - 1) + ['check'])
