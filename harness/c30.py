"""C30 saving and loading of agent data"""
import os
from crowddynamics.io import save_npy, load_npy, load_npy_concatenated
from symx.reg import harness

BASES = ['agents', 'run_1', 'a', 'npy', 'data.npy', '7', 'agents_0', 'x_9_']
OTHERS = [['agents_extra', 'agents2', 'agent'], ['run', 'run_', 'run_1_1'], ['aa', 'a_', 'a_a'], ['np', 'npy.npy', 'n'],
          ['data', 'data_npy', 'dataXnpy'], ['', '77', '7_7'], ['agents', 'agents_00', '0'], ['x', 'x_9', 'x_9__']]


def session(S, directory, base, k, make):
    """k arrays sent with arbitrary dump decisions -> the arrays expected in the files"""
    store = save_npy(directory, base)
    store.send(None)
    files, buf = [], []
    for i in range(k):
        a = make(i)
        store.send(a)
        buf.append(a.copy())
        a[...] = S.np.zeros(a.shape, dtype=a.dtype)        # the caller goes on with its array
        dump = S.branch(S.bool('%s.dump%d' % (base, i)))
        store.send(dump)
        if dump:
            files.append(S.np.vstack(buf))
            buf = []
    return files


@harness(configs=[dict(k=k, other=o) for k in range(8) for o in range(3)],
         bounds='eight basenames each next to three similar ones, in one directory; three arrays of two numbers (any values) with any dump decisions, interleaved with two of the other basename')
def names(S, k, other):
    d = S.scratch.new()
    base = BASES[k]
    want = session(S, d, base, 3, lambda i: S.np.array([S.real('x%d' % i, -9, 9), 1.0 + i]))
    rest = session(S, d, OTHERS[k][other], 2, lambda i: S.np.array([S.real('y%d' % i, -9, 9)] * (3 + i * 0)))
    S.equal('exactly the dumped arrays in order', list(load_npy(d, base)), want)
    S.equal('the other data too', list(load_npy(d, OTHERS[k][other])), rest)
    if want:
        S.equal('concatenated', load_npy_concatenated(d, base), S.np.vstack(want))
    for f in ('%s.npy' % base, '%s_x.npy' % base, '%s_1.csv' % base, '%s1.npy' % base, '%s_7.npy.bak' % base, '%s_7.npy~' % base, '%s_7.npyz' % base, 'x%s_7.npy' % base, '%s_7_npy' % base,
              '%s_-7.npy' % base, '%s_7.5.npy' % base, '.%s_7.npy' % base, '%s_7.npy ' % base, '%s__7.npy' % base):
        open(os.path.join(d, f), 'w').close()
    S.equal('other files ignored', list(load_npy(d, base)), want)


@harness(configs=[dict(k=k) for k in (1, 4, 6)], thorough=[dict(k=k) for k in (1, 4, 6, 9)],
         bounds='up to 6 (thorough: 9) arrays with any dump decisions, any values')
def decisions(S, k):
    d = S.scratch.new()
    want = session(S, d, 'agents', k, lambda i: S.np.array([S.real('x%d' % i, -9, 9), S.real('y%d' % i, -9, 9)]))
    S.equal('exactly the dumped arrays in order', list(load_npy(d, 'agents')), want)
    if want:
        S.equal('concatenated', load_npy_concatenated(d, 'agents'), S.np.vstack(want))
    S.check('one file per dump', len(os.listdir(d)) == len(want))


@harness(configs=[dict(n=n) for n in (9, 13, 1003)], thorough=[dict(n=n) for n in (9, 13, 101, 1005)], bounds='9, 13 and 1003 files, two of the dumps optional')
def many(S, n):
    d = S.scratch.new()
    store = save_npy(d, 'basename')
    store.send(None)
    want, buf = [], []
    for i in range(n):
        a = S.np.array([S.real('x%d' % i, -9, 9)])
        store.send(a)
        buf.append(a)
        dump = i not in (2, 5) or S.branch(S.bool('dump%d' % i))
        store.send(dump)
        if dump:
            want.append(S.np.vstack(buf))
            buf = []
    S.equal('in dump order', list(load_npy(d, 'basename')), want)
    S.equal('concatenated', load_npy_concatenated(d, 'basename'), S.np.vstack(want))


@harness(configs=[dict(k=k, m=m) for k, m in ((1, 1), (2, 3), (3, 3))], bounds='up to 3 arrays with any dump decisions, then up to 3 others, all dumped, to the same place')
def rerun(S, k, m):
    d = S.scratch.new()
    session(S, d, 'agents', k, lambda i: S.np.array([S.real('x%d' % i, -9, 9), 2.0 + i]))
    store = save_npy(d, 'agents')
    store.send(None)
    want = []
    for i in range(m):
        want.append(S.np.array([S.real('y%d' % i, -9, 9), -1.0 - i]))
        store.send(want[-1])
        store.send(True)
    S.equal('the data of the last run', list(load_npy(d, 'agents')), [S.np.vstack([w]) for w in want])


@harness(bounds='records of two agents, two iterations, any positions and flags')
def records(S):
    from harness.util import crowd
    d = S.scratch.new()
    a = crowd(S, 'circular', 2, dict(position=(-9, 9), active='bool', target=lambda i: S.int('t%d' % i, -1, 3)), fill='any')
    store = save_npy(d, 'agents')
    store.send(None)
    keep = []
    for i in range(2):
        if i:
            a['position'][1] = S.vec('moved', -9, 9)
        store.send(a)
        keep.append(a.copy())
        store.send(i == 1)
    got, = list(load_npy(d, 'agents'))
    S.check('rows per iteration', tuple(got.shape) == (2, 2))
    for i in range(2):
        S.check('record', S.field_eq(got[i], keep[i]))


@harness(configs=[dict(k=k) for k in (1, 3)], bounds='up to 3 arrays with any dump decisions and values, next to data with a similar name; the concatenation command run twice')
def command(S, k):
    from crowddynamics import cli
    d = S.scratch.new()
    want = session(S, d, 'agents', k, lambda i: S.np.array([S.real('x%d' % i, -9, 9), 2.0 + i]))
    session(S, d, 'agents_1', 2, lambda i: S.np.array([S.real('y%d' % i, -9, 9), -1.0]))
    before = sorted(os.listdir(d))
    if not want:
        return
    for again in (0, 1):
        cli.main.main(args=['concat_npy' if 'concat_npy' in cli.main.commands else 'concat-npy', '--directory', d, '--basename', 'agents'], prog_name='crowddynamics', standalone_mode=False)
        S.check('one more file', sorted(os.listdir(d)) == sorted(before + ['agents.npy']))
        S.equal('all of the data', S.np.load(os.path.join(d, 'agents.npy')), S.np.vstack(want))
    S.equal('data files kept', list(load_npy(d, 'agents')), want)


@harness(bounds='arrays of whole numbers, then of any numbers, then of flags, any dump decisions')
def mixed(S):
    d = S.scratch.new()
    kinds = [S.np.array([3, 1]), S.np.array([S.real('x', -9, 9), 0.5]), S.np.array([True, False]), S.np.array([2, S.int('k', -5, 5)])]
    want = session(S, d, 'agents', 4, lambda i: kinds[i].copy())
    S.equal('exactly the dumped arrays in order', list(load_npy(d, 'agents')), want)


@harness(configs=[dict(same=s) for s in (False, True)], bounds='data of the same basename in a directory and below it, any values')
def below(S, same):
    d = S.scratch.new()
    os.mkdir(os.path.join(d, 'more'))
    want = {}
    for place, n in ((d, 2), (os.path.join(d, 'more'), 2 if same else 3)):
        store = save_npy(place, 'agents')
        store.send(None)
        for i in range(n):
            a = S.np.array([S.real('x%d%d' % (len(place) - len(d), i), -9, 9)])
            store.send(a)
            store.send(True)
            want.setdefault(i, []).append(S.np.vstack([a]))
    got = list(load_npy(d, 'agents'))
    S.check('all of them', len(got) == sum(len(v) for v in want.values()))
    k = 0
    for i in sorted(want):
        here, k = got[k:k + len(want[i])], k + len(want[i])
        S.check('those of index %d' % i, S.or_(*[S.and_(*[S.eq(x, y) for x, y in zip(here, order)]) for order in (want[i], want[i][::-1])]))


@harness(configs=[dict(n=40), dict(n=130)], thorough=[dict(n=40), dict(n=3000)], bounds='40 and 130 (thorough: 3000) arrays in one dump and half as many in the next, one of each anywhere')
def large(S, n):
    d = S.scratch.new()
    store = save_npy(d, 'agents')
    store.send(None)
    want = []
    for k in range(2):
        buf = []
        m = n // (k + 1)
        for i in range(m):
            a = S.np.array([S.real('x%d' % k, -9, 9) if i == m // 2 else 0.5 * i, 3.0])
            store.send(a)
            buf.append(a.copy())
            store.send(i == m - 1)
        want.append(S.np.vstack(buf))
    S.equal('exactly the dumped arrays in order', list(load_npy(d, 'agents')), want)
    S.equal('concatenated', load_npy_concatenated(d, 'agents'), S.np.vstack(want))
