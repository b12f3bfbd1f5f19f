"""What a harness sees.  S is either symbolic (inputs are solver variables) or a replay of recorded inputs."""
import math
import os
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class ReplayAmbiguous(Exception):
    """a branch of the oracle is too close to call in floating point"""


class ReplayInvalid(Exception):
    """the recorded inputs do not satisfy an assumption"""


def listed_findings(prop):
    """{id: what fails} of the recorded (not repaired) findings of a property"""
    res = {}
    with open(os.path.join(HERE, 'known_findings.txt')) as f:
        for l in f:
            w = l.split(None, 3)
            if len(w) == 4 and w[0] == 'finding:' and w[1] == 'property=' + prop:
                res[w[2]] = w[3].strip()
    return res


class Base:
    """helpers shared by both modes; subclasses define the primitives"""
    sym = False

    def __init__(self):
        self.exact_mode = False
        self.cfg = {}
        self.tier = 'quick'
        self.ndraw = 0
        self.scratch = None
        self.findings = {}
        self.hits = []

    def check_known(self, finding, name, good, bad):
        """good, or the recorded wrong behaviour `bad` of a finding that is listed in known_findings.txt"""
        if finding not in self.findings:
            return self.check(name, good)
        self.check(name, self.or_(good, bad))
        self.known_hit(finding, name, good, bad)

    @property
    def np(self):
        return sys.modules['numpy']

    # -- composite inputs
    def vec(self, name, lo=None, hi=None, n=2):
        return self.np.array([self.real('%s%s' % (name, 'xyzw'[k] if n <= 4 else k), lo, hi) for k in range(n)])

    def pts(self, name, n, lo=None, hi=None):
        return self.np.array([[self.real('%s%d%s' % (name, i, c), lo, hi) for c in 'xy'] for i in range(n)])

    def gvec(self, name, lo, hi, denom=1):
        return self.np.array([self.grid(name + c, lo, hi, denom) for c in 'xy'])

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        k = self.int(name, 0, len(options) - 1)
        return options[int(k)]

    def subset(self, name, options):
        return [o for i, o in enumerate(options) if self.branch(self.bool('%s[%d]' % (name, i)))]

    def permutation(self, name, xs):
        xs = list(xs)
        out = []
        k = 0
        while xs:
            out.append(xs.pop(int(self.int('%s[%d]' % (name, k), 0, len(xs) - 1)) if len(xs) > 1 else 0))
            k += 1
        return out

    def draw(self, lo, hi, name='draw'):
        self.ndraw += 1
        return self.real('%s#%d' % (name, self.ndraw), lo, hi)

    def draw_int(self, lo, hi, name='draw'):
        self.ndraw += 1
        return self.int('%s#%d' % (name, self.ndraw), lo, hi)

    # -- conditions
    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def iff(self, a, b):
        return self.and_(self.implies(a, b), self.implies(b, a))

    def gt(self, a, b):
        return self.lt(b, a)

    def ge(self, a, b):
        return self.le(b, a)

    def ne(self, a, b):
        return self.not_(self.eq(a, b))

    def between(self, lo, x, hi):
        return self.and_(self.le(lo, x), self.le(x, hi))

    def ite(self, c, a, b):
        return a if self.branch(c) else b

    def max(self, xs):
        m = None
        for x in xs:
            m = x if m is None or self.branch(self.lt(m, x)) else m
        return m

    def min(self, xs):
        m = None
        for x in xs:
            m = x if m is None or self.branch(self.lt(x, m)) else m
        return m

    def sum(self, xs):
        t = 0
        for x in xs:
            t = t + x
        return t

    def count(self, conds):
        return sum(1 if self.branch(c) else 0 for c in conds)

    def equal(self, name, got, want):
        self.check(name, self.eq(got, want))

    def eq(self, a, b):
        """structural equality of values, sequences, arrays, dictionaries"""
        if a is b and not self._isnum(a):
            return True
        if a is None or b is None:
            return a is b
        if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
            return type(a) == type(b) and a == b
        if isinstance(a, dict) and isinstance(b, dict):
            if list(a) != list(b):
                return False
            return self.and_(*[self.eq(a[k], b[k]) for k in a])
        la, lb = self._seq(a), self._seq(b)
        if la is not None or lb is not None:
            if la is None or lb is None:
                return False
            if len(la) != len(lb):
                return False
            return self.and_(*[self.eq(x, y) for x, y in zip(la, lb)])
        if self._isnum(a) and self._isnum(b):
            return self.num_eq(a, b)
        return bool(a == b)

    def _seq(self, a):
        if isinstance(a, (list, tuple)):
            return a
        sh = getattr(a, 'shape', None)
        if sh is not None and not self._isnum(a):
            if getattr(getattr(a, 'dtype', None), 'names', None):
                names = a.dtype.names
                if sh == ():
                    return [a[n] for n in names]
                return [a[n] for n in names]
            if sh == ():
                return None
            return [a[i] for i in range(sh[0])]
        return None

    def field_eq(self, a, b, skip=()):
        """all fields of two record arrays (or records) agree"""
        fa = [n for n in a.dtype.names if n not in skip]
        return self.and_(*[self.eq(a[n], b[n]) for n in fa])

    def raises(self, exc, fn, *a, **k):
        """-> the exception (of one of the given types) or None; other exceptions propagate"""
        try:
            fn(*a, **k)
        except exc as e:
            return e
        return None

    # plain helpers working on numbers of both modes
    def sqrt(self, x):
        return sys.modules['math'].sqrt(x)

    def dot(self, a, b):
        return a[0] * b[0] + a[1] * b[1]

    def cross(self, a, b):
        return a[0] * b[1] - a[1] * b[0]

    def norm(self, a):
        return self.np.sqrt(a[0] * a[0] + a[1] * a[1])


class RealS(Base):
    """Concrete replay (no solver imports here; also runs on the interpreter of the repository)"""

    def __init__(self, inputs, cfg, tier='quick'):
        super().__init__()
        self.inputs = inputs
        self.cfg = cfg
        self.tier = tier
        self.results = []
        self.observed = []
        self.missing = []

    def _get(self, name, default):
        if name in self.inputs:
            return self.inputs[name]
        self.missing.append(name)
        return default

    def real(self, name, lo=None, hi=None):
        d = 0.0 if lo is None and hi is None else lo if hi is None else hi if lo is None else (lo + hi) / 2
        v = float(self._get(name, d))
        if lo is not None and v < lo:
            v = float(lo)
        if hi is not None and v > hi:
            v = float(hi)
        return self.np.float64(v)

    def pos(self, name, hi=None, lo=None):
        v = self.real(name, lo or 0, hi)
        if not v > 0:
            raise ReplayInvalid(name)
        return v

    def int(self, name, lo, hi):
        return int(self._get(name, lo))

    def bool(self, name):
        return bool(self._get(name, False))

    def grid(self, name, lo, hi, denom=1):
        return self.np.float64(int(self._get(name, int(lo * denom))) / denom)

    def unit(self, name):
        t = self.real(name)
        return self.np.array([math.cos(t), math.sin(t)])

    def text(self, x):
        return repr(_plain(x))

    def _isnum(self, a):
        return isinstance(a, (int, float, bool)) or (hasattr(a, 'dtype') and getattr(a, 'shape', None) == () and
                                                     a.dtype.kind in 'fiub')

    def _tol(self, a, b):
        if self.exact_mode or (_int(a) and _int(b)):
            return 0.0
        return 1e-7 + 1e-6 * max(abs(a), abs(b))

    def num_eq(self, a, b):
        a, b = _plain(a), _plain(b)
        if a != a or b != b:
            return a != a and b != b
        if a == b:
            return True
        if math.isinf(a) or math.isinf(b):
            return False
        t = self._tol(a, b)
        d = abs(a - b)
        return True if d <= t else (False if d > 100 * t or t == 0 else None)

    def max(self, xs):          # continuous: nothing depends on how a tie is decided
        m = None
        for x in xs:
            m = x if m is None or _plain(m) < _plain(x) else m
        return m

    def min(self, xs):
        m = None
        for x in xs:
            m = x if m is None or _plain(x) < _plain(m) else m
        return m

    def lt(self, a, b):
        a, b = _plain(a), _plain(b)
        if a != a or b != b:
            return False
        if math.isinf(a) or math.isinf(b):
            return a < b
        t = self._tol(a, b)
        if t == 0:
            return a < b
        return True if b - a > t else (False if a - b > t else None)

    def le(self, a, b):
        a, b = _plain(a), _plain(b)
        if a != a or b != b:
            return False
        if math.isinf(a) or math.isinf(b):
            return a <= b
        t = self._tol(a, b)
        if t == 0:
            return a <= b
        return True if b - a > t else (False if a - b > t else None)

    def and_(self, *fs):
        r = True
        for f in _flat(fs):
            if f is None:
                r = None
            elif not f:
                return False
        return r

    def or_(self, *fs):
        r = False
        for f in _flat(fs):
            if f is None:
                r = None
            elif f:
                return True
        return r

    def not_(self, f):
        return None if f is None else not f

    def branch(self, f):
        if f is None:
            raise ReplayAmbiguous()
        return bool(f)

    def coarse(self, ms=0):
        pass

    def assume(self, f):
        if f is None:
            return
        if not f:
            raise ReplayInvalid('assumption')

    def check(self, name, f, known=None):
        self.results.append((name, None if f is None else bool(f)))

    def known_hit(self, finding, name, good, bad):
        if good is False and bad is True:
            self.hits.append(finding)

    def observe(self, name, v):
        self.observed.append((name, _dump(v, self)))

    def isnan(self, x):
        x = _plain(x)
        return x != x

    def finite(self, x):
        return math.isfinite(_plain(x))


def _dump(v, S):
    s = S._seq(v)
    if s is not None:
        return [_dump(x, S) for x in s]
    if S._isnum(v):
        return _plain(v)
    return repr(v)


def _int(a):
    return isinstance(a, int)


def _plain(a):
    if hasattr(a, 'item'):
        a = a.item()
    return a


def _flat(fs):
    for f in fs:
        if isinstance(f, (list, tuple)):
            for g in _flat(f):
                yield g
        elif hasattr(f, 'item') and not isinstance(f, bool):
            yield bool(f)
        else:
            yield f


def in_repo(tb, repo):
    """does the innermost part of the traceback belong to the code under test (or something it called)?"""
    root = os.path.join(repo, 'crowddynamics') + os.sep
    names = [f.filename for f in traceback.extract_tb(tb)]
    last_h = max([i for i, n in enumerate(names) if n.startswith(os.path.join(HERE, 'harness'))] or [-1])
    last_r = max([i for i, n in enumerate(names) if n.startswith(root)] or [-1])
    return last_r > last_h


def in_harness(tb, repo):
    """was the exception raised by the harness on what the code under test gave it (not by a stub)?"""
    names = [f.filename for f in traceback.extract_tb(tb)]
    last_h = max([i for i, n in enumerate(names) if n.startswith(os.path.join(HERE, 'harness'))] or [-1])
    return last_h >= 0 and not in_repo(tb, repo) and not any(os.path.basename(n) == 'stubs.py' for n in names[last_h:])


S = None


def set_s(s):
    global S
    S = s
    sys.modules[__name__].S = s
    return s


def cur():
    return S
