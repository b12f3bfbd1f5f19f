"""C31 CSV storage"""
import csv
import os
from crowddynamics.io import save_csv
from symx.reg import harness

KEYS = [['iterations', 'time_tot', 'dt'], ['a,b', 'quote"d', 'line\nbreak'], ['only']]


def content(path):
    if not os.path.exists(path):
        return None
    with open(path, newline='') as f:
        try:
            return list(csv.reader(f))
        except csv.Error:
            return 'unreadable'


@harness(configs=[dict(k=k, keys=q) for k in (1, 3, 6) for q in range(3)], thorough=[dict(k=k, keys=q) for k in (6, 10) for q in range(3)],
         bounds='up to 6 (thorough: 10) rows with any dump decisions; three sets of keys and values including separators, quotes, line breaks and None')
def rows(S, k, keys):
    d = S.scratch.new()
    path = os.path.join(d, 'data.csv')
    names = KEYS[keys]
    store = save_csv(d, 'data')
    store.send(None)
    written, buf = [], []
    header = False
    for i in range(k):
        values = [i * 10 + j + 0.5 if (i + j) % 3 else 'te"xt,%d' % i if j else i for j in range(len(names))]
        store.send(dict(zip(names, values)))
        buf.append([str(v) for v in values])
        dump = S.branch(S.bool('dump%d' % i))
        store.send(dump)
        if dump:
            if not header:
                written.append(names)
                header = True
            written += buf
            buf = []
        S.check('header and exactly the rows up to the last dump', content(path) == (written if header else None))


@harness(configs=[dict(k=3)], bounds='a dictionary that the caller changes after sending it, 3 rows, any dump decisions')
def changed(S, k):
    d = S.scratch.new()
    store = save_csv(d, 'data')
    store.send(None)
    data = {'n': 0, 'x': 'a'}
    want = []
    last = 0
    for i in range(k):
        data['n'] = i
        store.send(data)
        want.append([str(i), 'a'])
        data['n'] = -1
        dump = S.branch(S.bool('dump%d' % i))
        store.send(dump)
        last = i + 1 if dump else last
    S.check('rows as they were sent', content(os.path.join(d, 'data.csv')) == ([['n', 'x']] + want[:last] if last else None))


@harness(configs=[dict(keys=q) for q in range(3)], bounds='five rows whose values are None, empty, zero or absent in any combination; dumped at the end')
def empty(S, keys):
    d = S.scratch.new()
    names = KEYS[keys][:2]
    store = save_csv(d, 'data')
    store.send(None)
    want = [names]
    for i in range(3):
        row = [S.choice('v%d%d' % (i, j), [None, '', 0, 0.0, False]) for j in range(len(names))] if i == 1 else [(None, '', 0)[(i + j) % 3] for j in range(len(names))]
        store.send(dict(zip(names, row)))
        want.append(['' if v is None else str(v) for v in row])
        store.send(False)
    store.send(dict(zip(names, ['last'] * len(names))))
    store.send(True)
    want.append(['last'] * len(names))
    S.check('every row', content(os.path.join(d, 'data.csv')) == want)


BLANK = [' two', 'two ', '\t', ' ', '', '\n', ' a\n', '\r\n', '#', "'", '=1+1', '0', '-', '\u00e9']


@harness(configs=[dict(where=w) for w in ('name', 'first', 'last')], bounds='column names, first and last values that begin or end with blanks or line breaks or are special otherwise, in each of three rows dumped one by one or together')
def blanks(S, where):
    d = S.scratch.new()
    text = S.choice('text', BLANK)
    names = [text + 'k', 'b'] if where == 'name' else ['a', 'b']
    store = save_csv(d, 'data')
    store.send(None)
    want = []
    for i in range(3):
        row = {'name': [1, 2], 'first': [text, i], 'last': [i, text]}[where]
        store.send(dict(zip(names, row)))
        want.append([str(v) for v in row])
        store.send(i == 2 or S.branch(S.bool('dump%d' % i)))
    S.check('every row', content(os.path.join(d, 'data.csv')) == [names] + want)


@harness(configs=[dict(n=120)], thorough=[dict(n=120), dict(n=5000)], bounds='120 (thorough: 5000) rows of 30 columns with a dump anywhere among them and one at the end')
def long(S, n):
    d = S.scratch.new()
    at = int(S.int('at', 0, 119))
    names = ['column %d' % k for k in range(30)]
    store = save_csv(d, 'data')
    store.send(None)
    want = [names]
    for i in range(n):
        row = [i * 30 + k for k in range(30)]
        store.send(dict(zip(names, row)))
        want.append([str(v) for v in row])
        store.send(i == at or i == n - 1)
    S.check('every row', content(os.path.join(d, 'data.csv')) == want)
