"""C39 configuration files"""
import os
import re
import warnings
from crowddynamics import config as cf
from crowddynamics.exceptions import ValidationError
from symx.reg import harness


def specification():
    """key -> (min, max) of the shipped body types"""
    out = {}
    for line in open(cf.BODY_TYPES_CFG_SPEC):
        m = re.match(r'\s*(\w+)\s*=\s*float\((.*)\)', line)
        if m:
            lim = dict(re.findall(r'(\w+)\s*=\s*([-\d.]+)', m.group(2)))
            out[m.group(1)] = (float(lim['min']) if 'min' in lim else None, float(lim['max']) if 'max' in lim else None)
    return out


KEYS = ['ratio_rt', 'ratio_rs', 'ratio_ts', 'radius_mean', 'radius_scale', 'target_velocity_mean', 'target_velocity_scale', 'mass_mean', 'mass_scale']
GOOD = dict(zip(KEYS, ('0.5882', '0.3725', '0.6275', '0.255', '0.035', '1.25', '0.3', '73.5', '8.0')))


def write(S, sections):
    f = os.path.join(S.scratch.new(), 'bodies.cfg')
    with open(f, 'w') as out:
        for name, values in sections:
            out.write('[%s]\n' % name)
            for k, v in values:
                out.write('%s = %s\n' % (k, v))
    return f


def load(S, f, spec=None):
    """-> configuration or None if it is refused"""
    out = []
    e = S.raises(ValidationError, lambda: out.append(cf.load_config(f, spec if spec is not None else cf.BODY_TYPES_CFG_SPEC)))
    return out[0] if e is None else None


def within(S, x, lim):
    return S.and_(True if lim[0] is None else S.le(lim[0], x), True if lim[1] is None else S.le(x, lim[1]))


@harness(configs=[dict(first=k) for k in (0, 3, 6)], thorough=[dict(first=k) for k in range(6)],
         bounds='one body type, three of its nine values anything in [-1, 2], the rest as shipped')
def values(S, first):
    spec = specification()
    S.check('all keys specified', sorted(spec) == sorted(KEYS))
    free = {k: S.real(k, -1, 2) for k in KEYS[first:first + 3]}
    f = write(S, [('own', [(k, S.text(free[k]) if k in free else GOOD[k]) for k in KEYS])])
    c = load(S, f)
    S.check('accepted exactly when all are within their limits', S.iff(S.and_(*[within(S, free[k], spec[k]) for k in free]), c is not None))
    if c is not None:
        S.check('sections and keys', list(c) == ['own'] and list(c['own']) == KEYS)
        for k in KEYS:
            S.check('number', S._isnum(c['own'][k]))
            S.equal('value as written', c['own'][k], free[k] if k in free else float(GOOD[k]))


FAULTS = ['fine', 'missing', 'abc', '1.0, 2.0', '']


@harness(configs=[dict(first=k, where=w) for k in (0, 3, 6) for w in (0, 1)], thorough=[dict(first=k, where=w) for k in range(6) for w in (0, 1)],
         bounds='two body types; three of the values of one of them fine, missing or not a number, in any combination')
def faults(S, first, where):
    how = {k: S.choice(k, FAULTS) for k in KEYS[first:first + 3]}
    bad = [(k, GOOD[k] if how.get(k, 'fine') == 'fine' else how[k]) for k in KEYS if how.get(k) != 'missing']
    sections = [('one', bad), ('two', list(GOOD.items()))]
    c = load(S, write(S, sections if where == 0 else sections[::-1]))
    fine = all(h == 'fine' for h in how.values())
    S.check('accepted exactly when nothing is wrong', (c is not None) == fine)
    if c is not None:
        S.check('numbers', all(type(v) is float for s in c.values() for v in s.values()) and len(c) == 2)


SPEC = """a = integer(min=0, max=5)
b = boolean
c = option('x', 'y')
d = string(default='z')
[part]
e = float(max=3)
"""


@harness(configs=[dict(part=p) for p in (True, False)], bounds='a specification of all kinds of values; whole number in [-3, 9] and number in [-9, 9], booleans, options, defaults, missing section')
def kinds(S, part):
    d = S.scratch.new()
    spec, f = os.path.join(d, 'spec.cfg'), os.path.join(d, 'values.cfg')
    with open(spec, 'w') as out:
        out.write(SPEC)
    a, e = S.int('a', -3, 9), S.real('e', -9, 9)
    b, c, z = S.choice('b', ['true', 'no', 'on', 'maybe']), S.choice('c', ['x', 'y', 'w']), S.choice('d', ['text', None])
    with open(f, 'w') as out:
        out.write('a = %s\nb = %s\nc = %s\n' % (S.text(a), b, c))
        if z:
            out.write('d = %s\n' % z)
        if part:
            out.write('[part]\ne = %s\n' % S.text(e))
    got = load(S, f, spec)
    fine = S.and_(S.between(0, a, 5), b != 'maybe', c != 'w', part, S.le(e, 3))
    S.check('accepted exactly when all are right', S.iff(fine, got is not None))
    if got is not None:
        S.equal('whole number', got['a'], a)
        S.check('converted', got['b'] is (b != 'no') and got['c'] == c and got['d'] == (z or 'z'))
        S.equal('number', got['part']['e'], e)


@harness(bounds='without specification any value stays text')
def unspecified(S):
    f = write(S, [('own', [('k%d' % i, S.choice('v%d' % i, ['1.5', 'abc', '-3'])) for i in range(2)])])
    c = cf.load_config(f)
    S.check('text', [c['own']['k%d' % i] for i in range(2)] == [l.split(' = ')[1].strip() for l in open(f) if ' = ' in l])


@harness(bounds='the shipped body types against the shipped specification')
def shipped(S):
    spec = specification()
    c = load(S, cf.BODY_TYPES_CFG)
    S.check('accepted', c is not None and len(c) >= 1)
    raw, name = {}, None
    for line in open(cf.BODY_TYPES_CFG):
        line = line.split('#')[0].strip()
        if line.startswith('['):
            name = line.strip('[]')
            raw[name] = {}
        elif line:
            k, v = line.split('=')
            raw[name][k.strip()] = float(v)
    S.check('all body types', sorted(raw) == sorted(c))
    for n in c:
        S.check('all keys', sorted(c[n]) == sorted(spec))
        for k in c[n]:
            S.check('number within its limits', type(c[n][k]) is float and within(S, c[n][k], spec[k]) and c[n][k] == raw[n][k])


@harness(bounds='up to two simulation entries, path and functions given or missing')
def simulations(S):
    d = S.scratch.new()
    f = os.path.join(d, 'sim.cfg')
    want, fine = {}, True
    with open(f, 'w') as out:
        out.write('[simulations]\n')
        for name in S.subset('names', ['first', 'second']):
            out.write('[[%s]]\n' % name)
            path = S.branch(S.bool(name + ' path'))
            fine = fine and path
            if path:
                out.write('path = %s.py\n' % name)
            fs = S.choice(name + ' functions', [None, ['one'], ['one', 'two']])
            if fs:
                out.write('functions = %s\n' % ', '.join(fs + ([''] if len(fs) == 1 else [])))
            want[name] = (name + '.py', fs or [])
    c = load(S, f, cf.CROWDDYNAMICS_CFG_SPEC)
    S.check('accepted exactly with all paths', (c is not None) == fine)
    if c is not None:
        S.check('values', {n: (v['path'], list(v['functions'])) for n, v in c['simulations'].items()} == want)


FILES = {'halls.py': ['hall', 'empty_hall'], 'rooms.py': ['room']}


@harness(bounds='two files of functions, named in either order with any of five lists of functions (to thirteen); the configuration in the working directory or elsewhere')
def callables(S):
    d = S.scratch.new()
    for f, names in dict(FILES, **{'halls.py': FILES['halls.py'] + ['f%d' % i for i in range(13)]}).items():
        with open(os.path.join(d, f), 'w') as out:
            out.write('import os\nWHERE = os.getcwd()\n' + ''.join('def %s():\n    return "%s"\n' % (n, n) for n in names))
    order = S.permutation('order', ['halls.py', 'rooms.py'])
    many = ['f%d' % i for i in range(13)]
    asked = {'halls.py': S.choice('halls', [many, ['hall'], ['hall', 'empty_hall'], ['empty_hall', 'missing'], ['missing', 'hall']]),
             'rooms.py': S.choice('rooms', [['room'], ['room', 'room'], []])}
    with open(os.path.join(d, 'crowd.cfg'), 'w') as out:
        out.write('[simulations]\n')
        for f in order:
            out.write('[[%s]]\npath = %s\nfunctions = %s\n' % (f[:-3], f, ', '.join(asked[f]) + ','))
    here = S.branch(S.bool('here'))
    old = os.getcwd()
    got, moved = [], []
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            start = d if here else S.scratch.new()
            os.chdir(start)
            for name, f in cf.import_simulation_callables('crowd.cfg' if here else os.path.join(d, 'crowd.cfg')):
                moved.append(not os.path.samefile(os.getcwd(), start))
                got.append((name, f()))
            moved.append(not os.path.samefile(os.getcwd(), start))
        finally:
            os.chdir(old)
    S.check('exactly the existing functions, in order', got == [(n, n) for f in order for n in asked[f] if n != 'missing'])
    S.check('working directory kept', not any(moved))
