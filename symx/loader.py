"""Loads the code under test from /repo with stand-ins for the libraries that are not installed.

Two worlds: 'sym' (NumPy replaced by symx.snp, calls of int/float/bool/isinstance/round rewritten) and 'real' (real
NumPy, source untouched).  Everything else - the stand-ins and the pure Python dependencies - is the same in both.
"""
import ast
import builtins
import collections
import collections.abc
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import inspect
import os
import sys
import types

REPO = os.environ.get('VERIF_REPO', '/repo')
VENV = '/opt/venv/lib/pypy3.9/site-packages'
PURE = ('traitlets', 'traittypes', 'anytree', 'configobj', 'validate', 'loggingtools', 'click', 'ipython_genutils',
        'decorator', 'six', '_version', 'ruamel', 'colorlog', 'dateutil', 'pytz', 'colorama')
TRANSFORM = ('crowddynamics', 'traitlets', 'traittypes', 'validate')

MODE = None
EXECUTED = {}          # qualified name -> file of functions of the code under test that ran


class Rewriter(ast.NodeTransformer):
    NAMES = {'int': '_sx_int', 'float': '_sx_float', 'bool': '_sx_bool', 'isinstance': '_sx_isinstance',
             'round': '_sx_round'}

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in self.NAMES:
            node.func = ast.copy_location(ast.Name(self.NAMES[node.func.id], ast.Load()), node.func)
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None:
            node.type = ast.copy_location(ast.Name('Exception', ast.Load()), node)
        elif isinstance(node.type, ast.Name) and node.type.id == 'BaseException':
            node.type = ast.copy_location(ast.Name('Exception', ast.Load()), node)
        return node

    def visit_FunctionDef(self, node):
        # annotations and decorators are visited too; harmless
        self.generic_visit(node)
        return node


class Loader(importlib.abc.Loader):
    def __init__(self, name, path, ispkg):
        self.name, self.path, self.ispkg = name, path, ispkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        if MODE == 'sym' and self.name.split('.')[0] in TRANSFORM:
            tree = Rewriter().visit(tree)
            ast.fix_missing_locations(tree)
            module.__dict__.update(HELPERS)
        code = compile(tree, self.path, 'exec', dont_inherit=True)
        exec(code, module.__dict__)

    def get_source(self, name):
        with open(self.path, encoding='utf-8') as f:
            return f.read()

    def is_package(self, name):
        return self.ispkg


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        top = name.split('.')[0]
        if top == 'crowddynamics':
            roots = [REPO]
        elif top in PURE:
            roots = [VENV]
        else:
            return None
        rel = name.replace('.', '/')
        for r in roots:
            for p, ispkg in ((os.path.join(r, rel, '__init__.py'), True), (os.path.join(r, rel + '.py'), False)):
                if os.path.exists(p):
                    spec = importlib.machinery.ModuleSpec(name, Loader(name, p, ispkg), origin=p, is_package=ispkg)
                    spec.has_location = True
                    if ispkg:
                        spec.submodule_search_locations = [os.path.dirname(p)]
                    return spec
            d = os.path.join(r, rel)
            if os.path.isdir(d):
                spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
                spec.submodule_search_locations = [d]
                return spec
        return None


HELPERS = {}


def compat():
    for n in ('Callable', 'Iterable', 'Iterator', 'MutableSequence', 'Collection', 'Generator', 'Mapping', 'Sequence',
              'MutableMapping', 'Set', 'Hashable', 'Sized', 'Container'):
        if not hasattr(collections, n):
            setattr(collections, n, getattr(collections.abc, n))
    if not hasattr(inspect, 'getargspec'):
        A = collections.namedtuple('ArgSpec', 'args varargs keywords defaults')
        inspect.getargspec = lambda f: A(*inspect.getfullargspec(f)[:4])


def install_sym():
    global MODE
    MODE = 'sym'
    compat()
    import numpy as rnp
    import numpy.testing, numpy.ma, numpy.linalg, numpy.random  # noqa: keep real ones loaded before the swap
    from . import snp, core, stubs, api
    import warnings
    warnings.simplefilter("ignore")
    R = stubs.Random()
    npm = snp.build_numpy(R.namespace(), stubs.np_save, stubs.np_load)
    stubs.np = npm
    stubs.SYM = True
    sys.modules['numpy'] = npm
    sys.modules['numpy.linalg'] = npm.linalg
    sys.modules['numpy.ma'] = npm.ma
    sys.modules['numpy.random'] = npm.random
    npm.__path__ = []
    sys.modules['math'] = sym_math()
    sym_json(core)
    stubs.install()
    HELPERS.update(sym_helpers(npm))
    sys.meta_path.insert(0, Finder())
    return npm


def old_names(np):
    """names of numpy 1 which numpy 2 dropped"""
    for n, v in dict(infty=np.inf, Inf=np.inf, Infinity=np.inf, NAN=np.nan, PINF=np.inf, NINF=-np.inf, round_=np.round, product=np.prod, cumproduct=np.cumprod, alltrue=np.all,
                     sometrue=np.any, row_stack=np.vstack, in1d=lambda a, b, **k: np.isin(np.ravel(a), b, **k), trapz=getattr(np, 'trapezoid', None), bool8=np.bool_,
                     asfarray=lambda a: np.asarray(a, dtype=float), msort=lambda a: np.sort(a, axis=0)).items():
        if n not in np.__dict__:
            setattr(np, n, v)
    cross = np.cross

    def flat(a, b, *r, **k):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape[-1:] == (2,) == b.shape[-1:] and not r and not k:
            return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]
        return cross(a, b, *r, **k)
    np.cross = flat


def install_real():
    global MODE
    MODE = 'real'
    compat()
    import numpy as np
    from . import stubs
    for n, v in (('float', float), ('int', int), ('bool', bool), ('object', object), ('float_', np.float64),
                 ('int_', np.int64), ('bool_', np.bool_)):
        if n not in np.__dict__:
            try:
                setattr(np, n, v)
            except Exception:
                pass
    if 'asscalar' not in np.__dict__:
        np.asscalar = lambda a: a.item()
    if 'NaN' not in np.__dict__:
        np.NaN = np.nan
    old_names(np)
    stubs.np = np
    stubs.SYM = False
    R = stubs.Random()
    ns = R.namespace()
    for k, v in ns.__dict__.items():
        if not k.startswith('__'):
            try:
                setattr(np.random, k, v)
            except Exception:
                pass
    stubs.install()
    sys.meta_path.insert(0, Finder())
    np.seterr(all='ignore')
    import warnings
    warnings.simplefilter('ignore')
    return np


# ---------------------------------------------------------------------------------------------------------------- #


def sym_json(core):
    """symbolic numbers travel through JSON as tokens (a float survives a JSON round trip unchanged)"""
    import json
    from . import stubs
    dump, dumps, load, loads = json.dump, json.dumps, json.load, json.loads

    def default(old):
        def conv(x):
            if isinstance(x, (core.SymNum, core.SymBool)):
                key = '@symx-json-%d' % len(stubs.STORE)
                stubs.STORE[key] = x
                return key
            if old is not None:
                return old(x)
            raise TypeError('Object of type %s is not JSON serializable' % type(x).__name__)
        return conv

    def back(x, parse=None):
        if isinstance(x, dict):
            return type(x)((k, back(v, parse)) for k, v in x.items())
        if isinstance(x, list):
            return [back(v, parse) for v in x]
        if isinstance(x, str) and x.startswith('@symx-json-'):
            v = stubs.STORE[x]
            return parse(v) if parse is not None and isinstance(v, core.SymNum) and not getattr(v, 'isint', False) else v
        return x
    json.dump = lambda obj, fp, **k: dump(obj, fp, **dict(k, default=default(k.get('default'))))
    json.dumps = lambda obj, **k: dumps(obj, **dict(k, default=default(k.get('default'))))
    json.load = lambda fp, **k: back(load(fp, **k), k.get('parse_float'))
    json.loads = lambda t, **k: back(loads(t, **k), k.get('parse_float'))


def sym_math():
    import math
    from . import core, snp
    m = types.ModuleType('math')
    m.__dict__.update({k: v for k, v in vars(math).items() if not k.startswith('__')})

    def w(f, g):
        def call(x, *a):
            if core.is_sym(x) or any(core.is_sym(y) for y in a):
                return f(x, *a)
            if isinstance(x, snp.SArr):
                return call(x.item(), *a)
            return g(x, *a)
        return call
    m.sqrt = w(lambda x: _dom(core.sqrt(x)), math.sqrt)
    m.floor = w(lambda x: core.floor(core.num(x)), math.floor)
    m.ceil = w(lambda x: -core.floor(-core.num(x)), math.ceil)
    m.trunc = w(core.trunc, math.trunc)
    m.fabs = w(abs, math.fabs)
    m.cos = w(lambda x: core.trig(x)[0], math.cos)
    m.sin = w(lambda x: core.trig(x)[1], math.sin)
    m.atan2 = w(core.atan2, math.atan2)
    m.hypot = w(core.hypot, math.hypot)
    m.exp = w(core.exp, math.exp)
    m.log = w(core.log, math.log)
    m.pow = w(core.power, math.pow)
    m.fmod = w(lambda a, b: a - b * core.trunc(a / b), math.fmod)
    m.isnan = w(lambda x: False, math.isnan)
    m.isinf = w(lambda x: False, math.isinf)
    m.isfinite = w(lambda x: True, math.isfinite)
    m.tan = w(lambda x: core.trig(x)[1] / core.trig(x)[0], math.tan)
    m.atan = w(lambda x: core.atan2(x, 1), math.atan)
    m.acos = w(lambda x: core.atan2(_dom(core.sqrt(1 - x * x)), x), math.acos)
    m.asin = w(lambda x: core.atan2(x, _dom(core.sqrt(1 - x * x))), math.asin)
    m.degrees = w(lambda x: x * (180 / math.pi), math.degrees)
    m.radians = w(lambda x: x * (math.pi / 180), math.radians)
    m.copysign = w(lambda a, b: abs(a) if b >= 0 else -abs(a), math.copysign)
    m.log2 = w(lambda x: core.log(x) / math.log(2), math.log2)
    m.log10 = w(lambda x: core.log(x) / math.log(10), math.log10)
    m.expm1 = w(lambda x: core.exp(x) - 1, math.expm1)
    m.log1p = w(lambda x: core.log(1 + x), math.log1p)

    def total(xs):
        r = 0.0
        for x in xs:
            r = r + x
        return r

    def prod(xs, start=1):
        for x in xs:
            start = start * x
        return start

    def dist(p, q):
        p, q = list(p), list(q)
        if len(p) != len(q):
            raise ValueError('both points must have the same number of dimensions')
        if len(p) == 2:
            return m.hypot(p[0] - q[0], p[1] - q[1])
        return m.sqrt(total([(a - b) * (a - b) for a, b in zip(p, q)]))

    def isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
        d = abs(a - b)
        return bool(d <= rel_tol * abs(a)) or bool(d <= rel_tol * abs(b)) or bool(d <= abs_tol)

    def modf(x):
        t = core.trunc(x)
        return x - t, t

    def fsum(xs):
        xs = list(xs)
        return total(xs) if any(core.is_sym(x) for x in xs) else math.fsum(xs)
    hyp = m.hypot
    m.hypot = lambda *a: hyp(*a) if len(a) == 2 else m.sqrt(total([x * x for x in a]))
    m.prod, m.dist, m.isclose, m.fsum = prod, dist, isclose, fsum
    m.modf = w(modf, math.modf)
    return m


def _dom(v):
    if isinstance(v, float) and v != v:
        raise ValueError('math domain error')
    return v


def sym_helpers(npm):
    import numbers
    import numpy as rnp
    from . import core, snp, stubs
    SymNum, SymBool = core.SymNum, core.SymBool

    def sx_int(*a, **k):
        if len(a) == 1 and not k:
            x = a[0]
            if isinstance(x, snp.SArr):
                x = x.item()
            if isinstance(x, SymNum):
                return core.trunc(x)
            if isinstance(x, SymBool):
                return x.as_num()
            if isinstance(x, str) and x.startswith('@symx-num-'):
                x = stubs.STORE[x]
                if not x.isint:
                    raise ValueError('invalid literal for int()')
                return x
            return int(x)
        return int(*a, **k)

    def sx_float(*a):
        if len(a) == 1:
            x = a[0]
            if isinstance(x, snp.SArr):
                x = x.item()
            if isinstance(x, SymNum):
                return SymNum(x.p, False)
            if isinstance(x, SymBool):
                return SymNum(x.as_num().p, False)
            if isinstance(x, str) and x.startswith('@symx-num-'):
                return SymNum(stubs.STORE[x].p, False)
            return float(x)
        return float(*a)

    def sx_bool(*a):
        if len(a) == 1:
            x = a[0]
            if isinstance(x, SymBool):
                return x
            if isinstance(x, SymNum):
                return x != 0
            return bool(x)
        return bool(*a)

    def sx_round(x, *a):
        if isinstance(x, SymNum):
            return x.__round__(*a)
        return round(x, *a)

    FLOATS = {float, numbers.Number, numbers.Real, numbers.Complex, object}
    INTS = {int, numbers.Number, numbers.Real, numbers.Complex, numbers.Integral, numbers.Rational, object}

    def one(x, c):
        if isinstance(x, SymNum):
            if c is object:
                return True
            k = getattr(c, '_symx_kind', None)
            if k:
                return (k == 'i') == x.isint and k != 'b'
            return c in (INTS if x.isint else FLOATS)
        if isinstance(x, SymBool):
            k = getattr(c, '_symx_kind', None)
            return c in (bool, int, object, numbers.Number, numbers.Integral) or k == 'b'
        return isinstance(x, c)

    def sx_isinstance(x, c):
        if isinstance(x, (SymNum, SymBool)):
            if isinstance(c, tuple):
                return any(sx_isinstance(x, d) for d in c)
            return one(x, c)
        return isinstance(x, c)

    return {'_sx_int': sx_int, '_sx_float': sx_float, '_sx_bool': sx_bool, '_sx_round': sx_round,
            '_sx_isinstance': sx_isinstance}


# ---------------------------------------------------------------------------------------------------------------- #
# Which functions of the code under test ran (evidence)


def start_recording():
    mon = getattr(sys, 'monitoring', None)
    if mon is None:
        return
    tool = mon.PROFILER_ID
    try:
        mon.use_tool_id(tool, 'symx')
    except ValueError:
        return
    root = os.path.join(REPO, 'crowddynamics') + os.sep

    def on_start(code, off):
        fn = code.co_filename
        if fn.startswith(root) and '<module>' not in code.co_qualname:
            EXECUTED[fn[len(root):] + ':' + code.co_qualname.replace('.<locals>', '')] = code.co_firstlineno
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, on_start)
    mon.set_events(tool, mon.events.PY_START)


def reset_recording():
    EXECUTED.clear()
    mon = getattr(sys, 'monitoring', None)
    if mon is not None:
        mon.restart_events()
