"""C38 traits to record fields, options and validators"""
import click
import numpy
from traitlets.traitlets import Int, Float, Complex, Bool, Unicode, Enum, Tuple, List, Dict, Any, HasTraits, Instance, TraitError, TraitType
from traittypes import Array
from crowddynamics import traits as tr
from crowddynamics.exceptions import InvalidType, InvalidValue
from symx.reg import harness

NAMES = ['radius', 'is_leader', 'max_size', 'tau_0', 'x']


def name_of(S):
    return S.choice('name', NAMES)


SCALARS = {'int': (lambda S: Int(default_value=S.int('default', -5, 5)), 'int64'), 'float': (lambda S: Float(default_value=S.real('default', -5, 5)), 'float64'),
           'complex': (lambda S: Complex(default_value=1j), 'complex128'), 'bool': (lambda S: Bool(default_value=S.branch(S.bool('default'))), 'bool'),
           'bounded': (lambda S: Int(default_value=3, min=S.int('min', -2, 2), max=S.int('max', 3, 5)), 'int64'),
           'bounded float': (lambda S: Float(default_value=S.real('default', -5, 5), min=-10, max=10), 'float64')}


@harness(configs=[dict(kind=k) for k in sorted(SCALARS)], bounds='every scalar kind, five names, any default value')
def scalar_field(S, kind):
    name = name_of(S)
    make, want = SCALARS[kind]
    got = tr.trait_to_dtype(name, make(S))
    S.check('name and type', len(got) == 2 and got[0] == name)
    t = S.np.dtype([tuple(got)])
    S.check('record type of its kind', str(t[name]) == want and t.names == (name,) and t[name].shape == ())


@harness(configs=[dict(dtype=d) for d in ('float64', 'int64', 'bool')], bounds='arrays of up to three dimensions of sizes up to 4')
def array_field(S, dtype):
    name = name_of(S)
    shape = tuple(S.int('n%d' % k, 1, 4) for k in range(S.choice('dimensions', [0, 1, 2])))
    shape = tuple(int(n) for n in shape)
    got = tr.trait_to_dtype(name, Array(default_value=numpy.zeros(shape).tolist(), dtype=getattr(S.np, 'bool_' if dtype == 'bool' else dtype)))
    t = S.np.dtype([tuple(got)])
    S.check('array with its shape', len(got) == 3 and got[0] == name and t[name].shape == shape and str(t[name].base) == dtype)


OTHER = {'unicode': lambda: Unicode('a'), 'enum': lambda: Enum(['a', 'b'], 'a'), 'list': lambda: List(), 'dict': lambda: Dict(), 'any': lambda: Any(),
         'instance': lambda: Instance(dict), 'tuple': lambda: Tuple(Int()), 'plain': lambda: TraitType()}
NOT_TRAITS = [None, 3, 'Int', 1.5, [Int()], numpy.zeros(2), object()]


@harness(configs=[dict(kind=k) for k in sorted(OTHER)], bounds='all other kinds of traits')
def refused_field(S, kind):
    name = name_of(S)
    S.check('no record type', S.raises((InvalidValue, NotImplementedError), tr.trait_to_dtype, name, OTHER[kind]()) is not None)
    if kind in ('list', 'dict', 'any', 'instance', 'plain'):
        S.check('no option', S.raises(InvalidValue, tr.trait_to_option, name, OTHER[kind]()) is not None)
    if kind != 'unicode':
        S.check('no type inside of a tuple', S.raises(InvalidValue, tr.trait_to_option, 'x', Tuple(Int(), OTHER[kind]())) is not None)


@harness(bounds='objects and classes that are no traits')
def refused_type(S):
    x = S.choice('x', NOT_TRAITS)
    name = name_of(S)
    for f in (tr.trait_to_dtype, tr.trait_to_option):
        S.check('refused', S.raises(InvalidType, f, name, x) is not None)
    S.check('refused in tuples', S.raises(InvalidType, tr.trait_to_type, x) is not None)


OPTIONS = ['int', 'bounded', 'float', 'bounded float', 'complex', 'bool', 'unicode', 'enum', 'no enum', 'tuple', 'pair']
PARSE = {'int': [('7', 7), ('x', None), ('1.5', None)], 'float': [('1.5', 1.5), ('-2', -2.0), ('x', None)], 'bounded float': [('0.25', 0.25), ('y', None)],
         'complex': [('1+2j', 1 + 2j), ('z', None)], 'unicode': [('text', 'text'), ('2', '2')], 'enum': [('b', 'b'), ('3', '3'), ('c', None)]}


def option_of(S, kind):
    """-> trait, default, expected converted values"""
    if kind in SCALARS:
        t = SCALARS[kind][0](S)
        return t, t.default_value
    if kind == 'unicode':
        t = Unicode(S.choice('default', ['', 'abc']))
    elif kind == 'enum':
        t = Enum(values=S.choice('values', [('a', 'b', 3), (3, 'b')]), default_value='b')
    elif kind == 'no enum':
        t = Enum(values=('a', 'b', 3))
        return t, None
    elif kind == 'tuple':
        d = (1, 2.0, 'c', True, 1j)
        return Tuple(Int(), Float(), Unicode(), Bool(), Complex(), default_value=d), d
    else:
        d = (S.real('a', -3, 3), 0.5)
        return Tuple(Float(), Float(), default_value=d), d
    return t, t.default_value


@harness(configs=[dict(kind=k) for k in OPTIONS], bounds='every supported kind, five names, any numeric defaults and limits; each type converts the listed command-line values')
def option(S, kind):
    name = name_of(S)
    t, default = option_of(S, kind)
    o = tr.trait_to_option(name, t)
    S.check('option', isinstance(o, click.Option))
    S.check('name', list(o.opts) == ['--' + name] and o.name == name and not o.secondary_opts)
    if kind in ('tuple', 'pair'):
        S.check('number of values', o.nargs == len(default) and isinstance(o.type, click.Tuple))
        S.equal('default', list(o.default), list(default))
        if kind == 'tuple':
            got = o.type(('4', '0.5', 'text', 'true', '2j'), o, None)
            S.check('converted values', tuple(got) == (4, 0.5, 'text', True, 2j) and [type(x) for x in got] == [int, float, str, bool, complex])
        return
    if kind in ('enum', 'no enum'):
        S.check('default', o.default == (None if default is None else str(default)))
        S.check('choices', list(o.type.choices) == [str(v) for v in t.values])
    else:
        S.equal('default', o.default, default) if kind != 'complex' else S.check('default', o.default == default)
    S.check('flags take no value', bool(o.is_flag) == (kind == 'bool'))
    if kind == 'bounded':
        lo, hi = t.min, t.max
        v = S.int('value', -9, 9)
        e = S.raises(click.BadParameter, lambda: S.equal('value kept', o.type.convert(v, o, None), v))
        S.check('exactly values within the limits', S.iff(S.and_(S.le(lo, v), S.le(v, hi)), e is None))
    for text, want in PARSE.get(kind, ()):
        if kind == 'enum' and text not in [str(v) for v in t.values]:
            want = None
        if want is None:
            S.check('other values refused', S.raises(click.BadParameter, o.type.convert, text, o, None) is not None)
        else:
            got = o.type.convert(text, o, None)
            S.check('value converted to its type', type(got) is type(want) and got == want)


# -- listing the traits of a class

def make_class(name, bases, attrs):
    return type(HasTraits)(name, bases, dict(attrs))


def build(S, prefix, names, bases, extra=()):
    """class whose attributes (traits and others) are in any order"""
    order = S.permutation(prefix + '.order', list(names) + list(extra))
    attrs, own = [], []
    for n in order:
        if n in extra:
            attrs.append((n, 5 if n != 'method' else (lambda self: 1)))
        else:
            t = (Int, Float, Bool)[len(own) % 3]()
            attrs.append((n, t))
            own.append((n, t))
    return make_class(prefix, bases, attrs), own


def same(got, want):
    got = list(got)
    return len(got) == len(want) and all(a == b and x is y for (a, x), (b, y) in zip(got, want))


@harness(configs=[dict(base=b, sub=s) for b, s in [(('a', 'b'), ('c', 'd')), (('a', 'b', 'c'), ('b',)), ((), ('x', '_y', 'a')), (('_a', 'b'), ())]],
         bounds='a class and its base with up to three traits each and other attributes in every order; exclusions by any set of names or by any set of classes')
def listing(S, base, sub):
    A, a = build(S, 'A', base, (HasTraits,), ('number',))
    mixin = S.branch(S.bool('mixin'))
    B, b = build(S, 'B', sub, ((A, type('Mixin', (object,), {'zz': Int()})) if mixin else (A,)))
    S.check('own traits in order of definition', same(tr.class_own_traits(B), b) and same(tr.class_own_traits(A), a))
    S.check('traits of the class, then of its base', same(tr.class_traits(B), b + a))
    hidden = set(S.subset('hidden', sorted(set(base) | set(sub))))
    S.check('names left out', same(tr.class_traits(B, exclude_attrs=lambda n: n in hidden), [t for t in b + a if t[0] not in hidden]))
    S.check('own names left out', same(tr.class_own_traits(B, lambda n: n in hidden), [t for t in b if t[0] not in hidden]))
    out = S.subset('left out', ['A', 'B'])
    S.check('classes left out', same(tr.class_traits(B, None, lambda c: c.__name__ in out), ([] if 'B' in out else b) + ([] if 'A' in out else a)))
    if not set(base) & set(sub):
        t = tr.class_to_struct_dtype(B, lambda n: n in hidden, lambda c: c.__name__ in out)
        want = [n for n, _ in ([] if 'B' in out else b) + ([] if 'A' in out else a) if n not in hidden]
        S.check('record with these fields in order', tuple(t.names or ()) == tuple(want))


# -- validators

@harness(configs=[dict(nd=k) for k in (0, 1, 2, 3)], bounds='expected and given shapes of up to three dimensions of sizes up to 3')
def shapes(S, nd):
    want = tuple(int(S.int('want%d' % k, 1, 3)) for k in range(nd))
    got = tuple(int(S.int('got%d' % k, 1, 3)) for k in range(S.choice('nd', [x for x in (nd - 1, nd, nd + 1) if x >= 0] if nd < 3 else [2, 3])))
    x = S.np.zeros(got)
    check = tr.shape_validator(*want)
    out = []
    e = S.raises(TraitError, lambda: out.append(check(None, x)))
    S.check('exactly the shape', (e is None) == (want == got))
    if e is None:
        S.check('the array itself', out[0] is x)


@harness(configs=[dict(k=k) for k in (1, 2, 3)], bounds='vectors with components in [-3, 3], up to three allowed lengths; lengths within a factor 1e-3 of an allowed one excluded')
def lengths(S, k):
    v = S.vec('v', -3, 3)
    allowed = [0.0, 1.0, 2.5][:k][::-1]
    check = tr.length_validator(*allowed)
    l = S.norm(v)
    near = S.or_(*[S.eq(l, x) for x in allowed])
    far = S.and_(*[S.or_(S.lt(l, x - 1e-3), S.lt(x + 1e-3, l)) for x in allowed])
    S.assume(S.or_(near, far))
    out = []
    e = S.raises(TraitError, lambda: out.append(check(None, v)))
    S.check('exactly the lengths', S.iff(near, e is None))
    if e is None:
        S.check('the array itself', out[0] is v)
