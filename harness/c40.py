"""C40 helpers"""
import inspect
import os
import warnings
from crowddynamics.exceptions import deprecated, InvalidType
from crowddynamics.utils import remember_cwd, parse_signature
from symx.reg import harness


class Stop(BaseException):
    pass


class Boom(Exception):
    pass


ENDS = [None, Boom, Stop, 'return']


def within(S, level, depth, root, log):
    """one scope inside of the other, in any directories, left in any way"""
    here = os.getcwd()
    name = S.choice('directory%d' % level, ['a', 'b', '.', 'missing'])
    target = os.path.join(root, name)
    relative = S.branch(S.bool('relative%d' % level))
    end = S.choice('end%d' % level, ENDS)
    wander = S.branch(S.bool('wander%d' % level))
    entered = False
    try:
        with remember_cwd(os.path.relpath(target, here) if relative else target):
            entered = True
            S.check('inside of the directory', os.path.samefile(os.getcwd(), target))
            if level + 1 < depth:
                within(S, level + 1, depth, root, log)
                S.check('still inside of the directory', os.path.samefile(os.getcwd(), target))
            if wander:
                os.chdir(os.path.join(root, 'other'))
            if end == 'return':
                log.append(level)
                return
            if end is not None:
                raise end(level)
    except (Boom, Stop) as e:
        S.check('own exception', type(e) is end and e.args == (level,))
    except OSError:
        S.check('only missing directories fail', name == 'missing' and not entered)
    else:
        S.check('exceptions come through', end is None and entered)
    finally:
        S.check('back', os.path.samefile(os.getcwd(), here))


@harness(configs=[dict(depth=1), dict(depth=2)], thorough=[dict(depth=3)],
         bounds='up to 2 (thorough: 3) nested scopes; existing, same and missing directories, relative or absolute; the body may change the directory and end normally, by '
                'return or by an exception')
def directory(S, depth):
    old = os.getcwd()
    root = S.scratch.new()
    for d in ('a', 'b', 'other'):
        os.mkdir(os.path.join(root, d))
    try:
        os.chdir(root)
        within(S, 0, depth, root, [])
        S.check('back where it started', os.path.samefile(os.getcwd(), root))
    finally:
        os.chdir(old)


def called(S, f, *a, **k):
    """-> ('result', value) or ('raised', exception), warnings"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            r = ('result', f(*a, **k))
        except Boom as e:
            r = ('raised', e)
    return r, list(w)


@harness(bounds='functions with positional, default, variable and keyword arguments; any numbers; the function may raise; called up to two times')
def wrapped(S):
    calls = []

    def f(a, b=2, *rest, key=None, **more):
        """text of f"""
        calls.append((a, b, rest, key, more))
        if S.branch(S.lt(a, 0)):
            raise Boom(a)
        return a + b
    g = deprecated(f)
    S.check('name and text', g.__name__ == 'f' and g.__doc__ == 'text of f')
    for n in range(int(S.int('calls', 1, 2))):
        a, b = S.real('a%d' % n, -3, 3), S.real('b%d' % n, -3, 3)
        how = S.choice('how%d' % n, ['one', 'two', 'keys', 'rest', 'none'])
        args, kw = {'one': ((a,), {}), 'two': ((a, b), {}), 'keys': ((a,), dict(b=b, key=1, z=b)), 'rest': ((a, b, 3, 4), dict(key=a)),
                    'none': ((a,), dict(key=None, b=b, z=None, more=False))}[how]
        calls[:] = []
        r, w = called(S, f, *args, **kw)
        want = calls.pop()
        r2, w2 = called(S, g, *args, **kw)
        S.check('called once', len(calls) == 1)
        got = calls.pop()
        S.check('same arguments', S.and_(*[S.eq(list(x.values()) if isinstance(x, dict) else x, list(y.values()) if isinstance(y, dict) else y)
                                           for x, y in zip(got, want)]) if list(got[4]) == list(want[4]) else False)
        S.check('same outcome', r[0] == r2[0])
        S.check('same result or exception', S.eq(r[1], r2[1]) if r[0] == 'result' else type(r2[1]) is Boom and S.eq(r[1].args[0], r2[1].args[0]))
        S.check('no warning by itself', not w)
        S.check('one deprecation warning', len(w2) == 1 and issubclass(w2[0].category, DeprecationWarning) and 'f' in str(w2[0].message))


NONE = object()
NAMES = ['x', 'cls', 'self', 'selfish']
DEFAULTS = [NONE, 0, None, False, 'text', (1.0, 2.0)]
NOTES = [inspect.Parameter.empty, int, 'note', None]


class Function:
    """a function known by its signature only"""

    def __init__(self, parameters):
        self.__signature__ = inspect.Signature(parameters)

    def __call__(self, *a, **k):
        pass


@harness(configs=[dict(n=0), dict(n=1), dict(n=2)], thorough=[dict(n=3)],
         bounds='up to 2 (thorough: 3) parameters in any order of four names; no, falsy or other defaults; annotations or none; positional or keyword-only')
def signature(S, n):
    names = S.permutation('names', NAMES)[:n]
    ps = []
    for k, name in enumerate(names):
        default = S.choice('default%d' % k, DEFAULTS)
        note = S.choice('note%d' % k, NOTES) if n < 3 else int
        ps.append(inspect.Parameter(name, inspect.Parameter.KEYWORD_ONLY, default=inspect.Parameter.empty if default is NONE else default, annotation=note))
    out = []
    e = S.raises(InvalidType, lambda: out.extend(parse_signature(Function(ps))))
    mine = [p for p in ps if p.name != 'self']
    S.check('refused exactly without default', (e is not None) == any(p.default is inspect.Parameter.empty for p in mine))
    if e is None:
        S.check('every parameter in order', [s.name for s in out] == [p.name for p in mine])
        for s, p in zip(out, mine):
            S.check('default', s.default is p.default)
            S.check('annotation', s.annotation is (None if p.annotation is inspect.Parameter.empty else p.annotation))


@harness(bounds='a method of a class with any numeric defaults')
def method(S):
    a, b = S.real('a', -3, 3), S.int('b', -3, 3)

    class Thing:
        def f(self, x=a, y: int = b, *, z: str = 'c', self_=1, _self=2, this=3, is_on=4):
            pass
    for f in (Thing.f, Thing().f):
        got = list(parse_signature(f))
        S.check('parameters except self', [(g.name, g.annotation) for g in got] == [('x', None), ('y', int), ('z', str)] + [(n, None) for n in ('self_', '_self', 'this', 'is_on')])
        S.equal('defaults', [g.default for g in got], [a, b, 'c', 1, 2, 3, 4])
