"""C46 documentation tables and docstrings"""
import csv
import io
import textwrap
from traitlets.traitlets import HasTraits, Int, Float, Bool, Unicode
from crowddynamics.simulation import agents as types
from crowddynamics.traits import class_traits, table_of_traits
from crowddynamics.utils import interpolate_docstring
from symx.reg import harness

HEADER = ['name', 'symbol', 'default value', 'help']


def rows(S, text):
    """the rows of the csv-table directive"""
    lines = text.splitlines()
    while lines and not lines[0].strip():
        lines.pop(0)
    S.check('directive', lines[0].startswith('.. csv-table::'))
    body = textwrap.dedent('\n'.join(lines[1:]))
    S.check('indented under the directive', all(l.startswith('   ') for l in lines[1:] if l.strip()))
    body = body.splitlines()
    options = []
    while body and body[0].startswith(':'):
        options.append(body.pop(0).strip())
    S.check('one header row', options == [':header-rows: 1'])
    S.check('options end with an empty line', not body[0].strip())
    return [r for r in csv.reader(io.StringIO('\n'.join(body[1:]))) if r]


TEXTS = ['', 'Radius', 'Mass, in kg', 'the "skin"', 'width; height', "agent's own", 'long ' * 60 + 'end', 'x' * 300]
SYMBOLS = [None, '', 'r', r'\mathbf{x}, \mathbf{y}', 'v_{0}']


def made(kind, default, meta):
    if kind == 'float':
        return Float(default_value=default, **meta)
    if kind == 'int':
        return Int(default_value=default, **meta)
    if kind == 'bool':
        return Bool(default_value=default, **meta)
    return Unicode(default, **meta)


def trait(S, name, kind, free):
    default = {'float': lambda: S.real(name + '.default', -9, 9), 'int': lambda: S.int(name + '.default', -9, 9),
               'bool': lambda: S.branch(S.bool(name + '.default')), 'str': lambda: S.choice(name + '.default', ['', 'x', '0', 'a, b', 'None', 'many words ' * 9 + 'end'])}[kind]()
    meta, text, symbol = {}, '', ''
    if free and S.branch(S.bool(name + '.help?')):
        text = S.choice(name + '.help', TEXTS)
        meta['help'] = text
    if free and S.branch(S.bool(name + '.symbol?')):
        symbol = S.choice(name + '.symbol', SYMBOLS) or ''
        meta['symbol'] = symbol
    if not free:
        text, symbol = 'Help of ' + name, 's_' + name
        meta = dict(help=text, symbol=symbol)
    shown = '' if kind == 'str' and default == '' else '``%s``' % (default,)
    return made(kind, default, meta), ['``%s``' % name, ':math:`%s`' % symbol if symbol else '', shown, text]


@harness(configs=[dict(kind=k) for k in ('float', 'int', 'bool', 'str')], bounds='one trait of each kind next to two others; any default value (numbers and truth values symbolic), eight help texts (to 300 characters), five symbols, each of them present or not')
def metadata(S, kind):
    t, want = trait(S, 'free', kind, True)
    before, first = trait(S, 'before', 'int', False)
    after, last = trait(S, 'after', 'float', False)
    got = rows(S, table_of_traits(type('Thing', (HasTraits,), dict(before=before, free=t, after=after))))
    S.check('header', got[0] == HEADER)
    S.check('one row per trait', len(got) == 4)
    for g, w in zip(got[1:], [first, want, last]):
        S.check('row of the trait', list(g) == w)


NAMES = ['zeta', 'radius', 'mass', 'alpha']


@harness(bounds='up to four traits in any order of definition divided over a class, its two bases and a class between; any subset of them documented; one of them defined again by another class, which is a row of its own; other attributes are not listed')
def listed(S):
    order = S.permutation('order', NAMES[:3])
    owner = [S.choice('owner%d' % i, [0, 1, 2]) for i in range(3)]
    attrs, want = [{}, {}, {}], [[], [], []]
    for n, o in zip(order, owner):
        attrs[o][n], w = trait(S, n, 'float', False)
        attrs[o][n + '_note'] = 'no trait'
        want[o].append(w)
    again = S.choice('again', [None, 1, 2])
    if again is not None and owner[0] != again:
        attrs[again][order[0]], w = trait(S, order[0] + '_again', 'float', False)
        w[0] = '``%s``' % order[0]
        want[again].append(w)
    attrs[0]['number'] = 3
    attrs[1]['compute'] = lambda self: 0
    Base = type('Base', (HasTraits,), attrs[2])
    Mixin = type('Mixin', (HasTraits,), attrs[1])
    Plain = type('Plain', (), dict(other=1.0))
    Own = type('Own', (Mixin, Plain, Base), attrs[0])
    got = rows(S, table_of_traits(Own))
    S.check('header', got[0] == HEADER)
    S.check('one row per trait in order', [list(r) for r in got[1:]] == want[0] + want[1] + want[2])


@harness(bounds='docstrings with two placeholders in any order and number, values given as strings or as functions of the class; unused values are allowed, missing values are refused')
def docstrings(S):
    parts = [S.choice('part%d' % i, ['%(first)s', '%(second)s', 'text', '100 %%']) for i in range(3)]
    calls = []

    def second(cls):
        calls.append(cls)
        return '<' + cls.__name__ + '>'
    first = S.choice('first', ['some words', '', '%(second)s', '5 %'])
    as_function = S.branch(S.bool('function'))
    sub = dict(second=second)
    missing = S.branch(S.bool('missing'))
    if not missing:
        sub['first'] = (lambda cls: first) if as_function else first
    cls = type('Named', (object,), dict(__doc__=' '.join(parts), keep=5))
    e = S.raises(KeyError, lambda: calls.append(interpolate_docstring(**sub)(cls)))
    if missing and '%(first)s' in parts:
        S.check('missing value refused', e is not None)
        return
    S.check('accepted', e is None)
    S.check('the class itself', calls[-1] is cls and cls.keep == 5 and cls.__name__ == 'Named')
    S.check('functions get the class', all(c is cls for c in calls))
    text = {'%(first)s': first, '%(second)s': '<Named>', 'text': 'text', '100 %%': '100 %'}
    S.check('filled docstring', cls.__doc__ == ' '.join(text[p] for p in parts))
    if not missing:
        fill = interpolate_docstring(**sub)
        for name in ('One', 'Other'):
            c = fill(type(name, (object,), dict(__doc__='%(second)s and %(first)s')))
            S.check('one filler for several classes', c.__doc__ == '<%s> and %s' % (name, first))


@harness(bounds='the agent types that are shipped')
def agents(S):
    name = S.choice('type', ['Circular', 'ThreeCircle', 'Capsule'])
    cls = getattr(types, name)
    doc = cls.__doc__
    S.check('no placeholder left', '%(' not in doc)
    found = [l.strip().split(',')[0] for l in doc[doc.index('.. csv-table::'):].splitlines() if l.strip().startswith('``')]
    S.check('all traits documented in order', found == ['``%s``' % n for n, _ in class_traits(cls)])
