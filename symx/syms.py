"""The symbolic side of the harness interface."""
import math
import time
from fractions import Fraction

from . import core, snp
from .api import Base, _flat
from .core import SymNum, SymBool, mk, p_atom, p_const, p_sub, p_neg, f_cmp, f_and, f_or, f_not, TRUE, FALSE


def fm(f):
    if isinstance(f, core.Fm):
        return f
    g = core.as_formula(f)
    if g is None:
        if isinstance(f, snp.SArr):
            return fm(f.item())
        if isinstance(f, SymNum):
            return fm(f != 0)
        raise TypeError('not a condition: %r' % (f,))
    return g


class SymS(Base):
    sym = True

    def __init__(self, cfg, tier, on_check):
        super().__init__()
        self.cfg = cfg
        self.tier = tier
        self.on_check = on_check
        self.observed = []

    # -- inputs
    def _input(self, name, sort, lo, hi, kind):
        C = core.CTX
        a, new = core.get_atom(('in', name, sort, lo, hi), name, sort)
        if new:
            a.lo, a.hi = lo, hi
            x = p_atom(a)
            if lo is not None and lo >= 0:
                a.nonneg = True
        if any(i[0] == name for i in C.inputs):
            raise RuntimeError('input %s declared twice' % name)
        C.inputs.append((name, a, kind))
        return a

    def _bound(self, a, lo, hi):
        C = core.CTX
        x = p_atom(a)
        for f in ([] if lo is None else [core.Fm('<=0', p_sub(p_const(lo), x), core.p_key(p_sub(p_const(lo), x)))]) + \
                 ([] if hi is None else [core.Fm('<=0', p_sub(x, p_const(hi)), core.p_key(p_sub(x, p_const(hi))))]):
            C.add_pc(f)

    def real(self, name, lo=None, hi=None):
        lo = None if lo is None else Fraction(lo)
        hi = None if hi is None else Fraction(hi)
        a = self._input(name, 'R', lo, hi, 'real')
        self._bound(a, lo, hi)
        return mk(p_atom(a))

    def pos(self, name, hi=None, lo=None):
        x = self.real(name, lo or 0, hi)
        core.CTX.add_pc(f_cmp(p_neg(x.p), '<0'))
        return x

    def int(self, name, lo, hi):
        a = self._input(name, 'I', Fraction(lo), Fraction(hi), 'int')
        self._bound(a, Fraction(lo), Fraction(hi))
        return mk(p_atom(a), True)

    def bool(self, name):
        a = self._input(name, 'B', None, None, 'bool')
        return SymBool(core.Fm('b', a.id, a.id))

    def grid(self, name, lo, hi, denom=1):
        lo_, hi_ = math.ceil(Fraction(lo) * denom), math.floor(Fraction(hi) * denom)
        a = self._input(name, 'I', Fraction(lo_), Fraction(hi_), 'grid')
        self._bound(a, Fraction(lo_), Fraction(hi_))
        return mk(core.p_scale(p_atom(a), Fraction(1, denom)))

    def unit(self, name):
        c, n = core.trig(self.real(name))
        return snp.array([c, n])

    def text(self, x):
        """the number written into a file; reading it back gives the number"""
        if not isinstance(x, SymNum):
            return repr(x)
        from . import stubs
        key = '@symx-num-%d' % len(stubs.STORE)
        stubs.STORE[key] = x
        return key

    # -- conditions
    def _isnum(self, a):
        if isinstance(a, (SymNum, SymBool, int, float, bool, Fraction)):
            return True
        if isinstance(a, snp.SArr):
            return a.ndim == 0 and a.kind in 'fib'
        return hasattr(a, 'dtype') and getattr(a, 'shape', None) == () and getattr(a.dtype, 'kind', '') in 'fiub'

    def _n(self, a):
        if isinstance(a, snp.SArr):
            a = a.item()
        return core.num(a)

    def num_eq(self, a, b):
        a, b = self._n(a), self._n(b)
        if not isinstance(a, SymNum) or not isinstance(b, SymNum):
            a, b = self._nf(a), self._nf(b)
            if a is None or b is None:
                return False
            return (a != a and b != b) or a == b
        d = p_sub(a.p, b.p)
        if d and not self.exact_mode:
            # equal up to the rounding of constants (far below what a replay could tell apart)
            big = max(abs(c) for q in (a.p, b.p) for c in q.values())
            if max(abs(c) for c in d.values()) * 2 ** 42 <= big:
                return True
        return core.mkbool(f_cmp(d, '==0'))

    def _nf(self, a):
        return None if isinstance(a, SymNum) else float(a)

    def lt(self, a, b):
        a, b = self._n(a), self._n(b)
        r = a < b
        return r

    def le(self, a, b):
        a, b = self._n(a), self._n(b)
        return a <= b

    def and_(self, *fs):
        return core.mkbool(f_and(*[fm(f) for f in _flat_sym(fs)]))

    def or_(self, *fs):
        return core.mkbool(f_or(*[fm(f) for f in _flat_sym(fs)]))

    def not_(self, f):
        return core.mkbool(f_not(fm(f)))

    def branch(self, f):
        return core.CTX.branch(fm(f))

    def coarse(self, ms=0):
        """explore every path whose condition has no contradiction in linear arithmetic (a superset of the feasible
        paths); cheaper where branching is on sums of square roots"""
        core.CTX.feas_plan = core.FEAS_LIN if not ms else core.feas_cheap(ms)

    def assume(self, f):
        core.CTX.assume(fm(f))

    def check(self, name, f, known=None):
        self.on_check(name, fm(f), known)

    def known_hit(self, finding, name, good, bad):
        self.on_known(finding, fm(good))

    def observe(self, name, v):
        self.observed.append((name, v))

    def isnan(self, x):
        x = self._n(x)
        return not isinstance(x, SymNum) and float(x) != float(x)

    def finite(self, x):
        return isinstance(self._n(x), SymNum)


def _flat_sym(fs):
    for f in fs:
        if isinstance(f, (list, tuple)):
            for g in _flat_sym(f):
                yield g
        else:
            yield f
