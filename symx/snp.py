"""A NumPy look-alike whose arrays may hold symbolic elements.

An SArr is a shared Python list of elements plus a real NumPy *index array* into it, so all shape, view, slicing and
broadcasting semantics are NumPy's own.  Everything not implemented here falls back to NumPy on object arrays.
"""
import builtins
import functools
import math
import types

import numpy as rnp

from . import core
from .core import SymNum, SymBool, num, mk, is_sym, Inconclusive

f64 = rnp.float64
_isinstance = builtins.isinstance


# ---------------------------------------------------------------------------------------------------------------- #
# dtypes

class DType:
    """Structured dtype"""

    def __init__(self, spec):
        self.spec = []
        for item in spec:
            name, dt = item[0], item[1]
            shape = item[2] if len(item) > 2 else ()
            if _isinstance(shape, (int, rnp.integer)):
                shape = (int(shape),)
            dt = dt if _isinstance(dt, (rnp.dtype, DType)) else to_rdtype(dt)
            self.spec.append((name, dt, tuple(int(s) for s in shape)))
        self.names = tuple(n for n, _, _ in self.spec)
        if len(set(self.names)) != len(self.names):
            raise ValueError('field names repeated')
        self.fields = {n: (d, s) for n, d, s in self.spec}
        self.kind = 'V'
        self.shape = ()
        self.hasobject = False

    def _k(self):
        return tuple((n, str(d), s) for n, d, s in self.spec)

    def __hash__(self):
        return hash(self._k())

    def __eq__(self, o):
        return _isinstance(o, DType) and o._k() == self._k()

    def __ne__(self, o):
        return not self == o

    def __getitem__(self, n):
        d, sh = self.fields[n]
        return d if not sh else rnp.dtype((d if not _isinstance(d, DType) else d.real(), sh))

    def __repr__(self):
        return 'DType(%r)' % (self.spec,)

    @property
    def descr(self):
        return list(self.spec)

    def real(self):
        return rnp.dtype([(n, d if not _isinstance(d, DType) else d.real(), s) for n, d, s in self.spec])

    @property
    def itemsize(self):
        return self.real().itemsize


def to_rdtype(dt):
    if dt is None:
        return rnp.dtype(float)
    if _isinstance(dt, (rnp.dtype, DType)):
        return dt
    m = {'float64': float, 'int64': int, 'bool_': bool, 'float32': float, 'int32': int}
    if _isinstance(dt, type) and getattr(dt, '_symx_kind', None):
        if dt.__name__ not in ('integer', 'floating'):
            return rnp.dtype(dt._real)
        return rnp.dtype({'f': float, 'i': int, 'b': bool}[dt._symx_kind])
    if _isinstance(dt, (list,)):
        return DType(dt)
    return rnp.dtype(dt)


def kind_of(dt):
    d = to_rdtype(dt)
    if _isinstance(d, DType):
        return d
    return {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b', 'O': 'O', 'c': 'c', 'U': 'O', 'S': 'O'}[d.kind]


class Narrow(list):
    """elements of an array of fewer than 64 bits (or without sign): what is stored wraps around or is rounded"""

    def __init__(self, elems, conv):
        list.__init__(self, [conv(e) for e in elems])
        self.conv = conv

    def __setitem__(self, i, v):
        list.__setitem__(self, i, [self.conv(e) for e in v] if _isinstance(i, slice) else self.conv(v))


def narrowing(dt):
    d = None if dt is None else to_rdtype(dt)
    if d is None or _isinstance(d, DType) or d.kind not in 'iuf' or (d.itemsize == 8 and d.kind != 'u') or d.itemsize > 8:
        return None
    if d.kind == 'f':
        real = d.type
        return lambda v: v if is_sym(v) or v != v else f64(real(v))
    size = 2 ** (8 * d.itemsize)
    low = 0 if d.kind == 'u' else -size // 2

    def wrap(v):
        if not is_sym(v):
            return (int(v) - low) % size + low
        v = cast_scalar(v, 'i')
        if (v >= low) & (v < size + low):
            return v
        return v - size * ((v - low) // size)
    return wrap


def narrowed(a, dt):
    conv = narrowing(dt)
    if conv is not None and _isinstance(a, SArr):
        a.buf = Narrow(a.buf, conv)
    return a


KIND_DT = {'f': rnp.dtype(float), 'i': rnp.dtype(int), 'b': rnp.dtype(bool), 'O': rnp.dtype(object),
           'c': rnp.dtype(complex)}


def cast_scalar(x, kind):
    if _isinstance(x, SArr):
        if x.idx.size != 1:
            raise TypeError('only length-1 arrays can be converted to scalars')
        x = x.buf[int(x.idx.reshape(-1)[0])]
    if kind == 'f':
        if _isinstance(x, SymNum):
            return SymNum(x.p, False) if x.isint else x
        if _isinstance(x, SymBool):
            return SymNum(x.as_num().p, False)
        if _isinstance(x, complex):
            raise TypeError("can't convert complex to float")
        return f64(x)
    if kind == 'i':
        if _isinstance(x, SymNum):
            return core.trunc(x)
        if _isinstance(x, SymBool):
            return x.as_num()
        if _isinstance(x, (float, rnp.floating)) and (x != x or abs(x) == math.inf):
            return -2 ** 63
        return int(x)
    if kind == 'b':
        if _isinstance(x, SymNum):
            return x != 0
        if _isinstance(x, SymBool):
            return x
        return bool(x)
    if kind == 'c' and not is_sym(x):
        return complex(x)
    return x


def elem_kind(x):
    if _isinstance(x, SymNum):
        return 'i' if x.isint else 'f'
    if _isinstance(x, (SymBool, bool, rnp.bool_)):
        return 'b'
    if _isinstance(x, (int, rnp.integer)):
        return 'i'
    if _isinstance(x, (float, rnp.floating, core.Fraction)):
        return 'f'
    if _isinstance(x, (complex, rnp.complexfloating)):
        return 'c'
    return 'O'


def join_kinds(ks):
    ks = set(ks)
    for k in 'Ocfib':
        if k in ks:
            return k
    return 'f'


# ---------------------------------------------------------------------------------------------------------------- #
# Arrays

def _key(key):
    """-> (numpy key, is_advanced)"""
    if not _isinstance(key, tuple):
        key = (key,)
    out = []
    adv = False
    for k in key:
        if _isinstance(k, SArr):
            k = k.concrete_index()
            if k.ndim == 0:
                k = k[()]
                k = int(k) if k.dtype != bool else bool(k)
            adv = adv or not _isinstance(k, int)
        elif _isinstance(k, SymNum):
            if not k.isint:
                raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices')
            k = int(k)
        elif _isinstance(k, SymBool):
            k = bool(k)
            adv = True
        elif _isinstance(k, (list, rnp.ndarray)):
            a = asarr(k)
            k = a.concrete_index() if a.idx.size else rnp.zeros(a.shape, int)
            adv = True
        elif _isinstance(k, slice):
            k = slice(*[None if v is None else int(v) for v in (k.start, k.stop, k.step)])
        elif _isinstance(k, (bool, rnp.bool_)):
            adv = True
        elif _isinstance(k, (float, rnp.floating)):
            raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices')
        out.append(k)
    return tuple(out), adv


class SArrMeta(type):
    def __instancecheck__(cls, x):
        return type.__instancecheck__(cls, x)


class SArr:
    __slots__ = ('buf', 'idx', 'kind', '__weakref__')
    __array_ufunc__ = None
    _is_sarr = True
    __array_priority__ = 2000
    __hash__ = None

    def __init__(self, buf, idx, kind):
        self.buf = buf
        self.idx = idx
        self.kind = kind

    @classmethod
    def make(cls, elems, shape, kind):
        elems = list(elems)
        return cls(elems, rnp.arange(len(elems)).reshape(shape), kind)

    # -- basics
    @property
    def shape(self):
        return self.idx.shape

    @property
    def ndim(self):
        return self.idx.ndim

    @property
    def size(self):
        return self.idx.size

    @property
    def dtype(self):
        return KIND_DT[self.kind]

    @property
    def T(self):
        return SArr(self.buf, self.idx.T, self.kind)

    @property
    def flat(self):
        return iter(self.elems())

    @property
    def flags(self):
        return types.SimpleNamespace(c_contiguous=True, f_contiguous=self.ndim < 2, writeable=True)

    @property
    def itemsize(self):
        return 8

    @property
    def nbytes(self):
        return 8 * self.size

    def elems(self):
        b = self.buf
        return [b[i] for i in self.idx.reshape(-1).tolist()]

    def concrete_index(self):
        if self.kind == 'b':
            return rnp.array([bool(e) for e in self.elems()], dtype=bool).reshape(self.shape)
        if self.kind == 'i' or (self.kind == 'O' and all(elem_kind(e) == 'i' for e in self.elems())):
            return rnp.array([int(e) for e in self.elems()], dtype=int).reshape(self.shape)
        if self.size == 0:
            return rnp.zeros(self.shape, int)
        raise IndexError('arrays used as indices must be of integer (or boolean) type')

    def is_concrete(self):
        return not any(is_sym(e) for e in self.elems())

    def to_object(self):
        a = rnp.empty(self.shape, dtype=object)
        fl = a.reshape(-1)
        for k, e in enumerate(self.elems()):
            fl[k] = e
        return fl.reshape(self.shape)

    def to_real(self):
        if self.is_concrete():
            return rnp.array([e for e in self.elems()], dtype=KIND_DT[self.kind]).reshape(self.shape)
        return self.to_object()

    def __array__(self, dtype=None, copy=None):
        return self.to_real()

    def __len__(self):
        if self.ndim == 0:
            raise TypeError('len() of unsized object')
        return self.shape[0]

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(self.shape[0]):
            yield self[i]

    def __repr__(self):
        return 'SArr(%s)' % (self.tolist(),)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def tolist(self):
        def rec(ix):
            if ix.ndim == 0:
                e = self.buf[int(ix)]
                return e.item() if _isinstance(e, rnp.generic) else e
            return [rec(x) for x in ix]
        return rec(self.idx)

    def item(self, *a):
        if a:
            return self[a[0] if len(a) == 1 and self.ndim == 1 else a]
        if self.size != 1:
            raise ValueError('can only convert an array of size 1 to a Python scalar')
        e = self.elems()[0]
        return e.item() if _isinstance(e, rnp.generic) else e

    def __bool__(self):
        if self.size != 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')
        return bool(self.elems()[0])

    def __float__(self):
        return float(self.item())

    def __int__(self):
        return int(self.item())

    def __index__(self):
        if self.size == 1 and self.kind == 'i':
            return int(self.item())
        raise TypeError('only integer scalar arrays can be converted to a scalar index')

    # -- indexing
    def __getitem__(self, key):
        k, adv = _key(key)
        ix = self.idx[k]
        if _isinstance(ix, rnp.integer):
            return self.buf[int(ix)]
        if adv:
            return SArr.make([self.buf[i] for i in ix.reshape(-1).tolist()], ix.shape, self.kind)
        return SArr(self.buf, ix, self.kind)

    def __setitem__(self, key, value):
        k, adv = _key(key)
        ix = self.idx[k]
        if _isinstance(ix, rnp.integer):
            self.buf[int(ix)] = cast_scalar(value, self.kind)
            return
        v = asarr(value)
        if v.ndim > ix.ndim:
            extra = v.ndim - ix.ndim
            if any(s != 1 for s in v.shape[:extra]):
                raise ValueError('could not broadcast input array from shape %s into shape %s' % (v.shape, ix.shape))
            v = v.reshape(v.shape[extra:])
        vi = rnp.broadcast_to(v.idx, ix.shape)
        vals = [cast_scalar(v.buf[i], self.kind) for i in vi.reshape(-1).tolist()]
        b = self.buf
        for i, x in zip(ix.reshape(-1).tolist(), vals):
            b[i] = x

    def fill(self, v):
        self[...] = v

    # -- shape
    def reshape(self, *shape, order='C'):
        if len(shape) == 1 and _isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return SArr(self.buf, self.idx.reshape(tuple(int(s) for s in shape)), self.kind)

    def flatten(self):
        return self.copy().reshape(-1)

    def ravel(self):
        return self.reshape(-1)

    def squeeze(self, axis=None):
        return SArr(self.buf, self.idx.squeeze(axis), self.kind)

    def transpose(self, *a):
        return SArr(self.buf, self.idx.transpose(*a), self.kind)

    def swapaxes(self, a, b):
        return SArr(self.buf, self.idx.swapaxes(a, b), self.kind)

    def repeat(self, n, axis=None):
        ix = self.idx.repeat(n, axis)
        return SArr.make([self.buf[i] for i in ix.reshape(-1)], ix.shape, self.kind)

    def copy(self, order='C'):
        r = SArr.make(self.elems(), self.shape, self.kind)
        if type(self.buf) is Narrow:
            r.buf = Narrow(r.buf, self.buf.conv)
        return r

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def view(self, *a):
        return SArr(self.buf, self.idx, self.kind)

    def astype(self, dt, copy=True, **kw):
        k = kind_of(dt)
        return narrowed(SArr.make([cast_scalar(e, k) for e in self.elems()], self.shape, k), dt)

    # -- arithmetic
    def _bin(self, o, f, kind=None, swap=False):
        if _isinstance(o, SRec):
            return NotImplemented
        if o is None or _isinstance(o, (str, dict)):
            return NotImplemented
        return elementwise2(f, o, self, kind) if swap else elementwise2(f, self, o, kind)

    def _ibin(self, o, f):
        r = elementwise2(f, self, o, None)
        if not _isinstance(r, SArr):
            r = asarr(r)
        if r.kind == 'f' and self.kind in 'ib':
            raise TypeError("Cannot cast ufunc output from dtype('float64') to dtype('int64') with casting rule 'same_kind'")
        self[...] = r
        return self

    def __neg__(self):
        return elementwise1(lambda a: -a, self, self.kind)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return elementwise1(abs, self, self.kind)

    def __invert__(self):
        return elementwise1(e_invert, self, self.kind)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_axis(red_sum, self, axis, keepdims)

    def prod(self, axis=None, **k):
        return reduce_axis(lambda xs: functools.reduce(lambda a, b: a * b, xs, 1), self, axis)

    def mean(self, axis=None, **k):
        return reduce_axis(red_mean, self, axis)

    def var(self, axis=None, ddof=0, **k):
        return reduce_axis(lambda xs: red_var(xs, ddof), self, axis)

    def std(self, axis=None, ddof=0, **k):
        return reduce_axis(lambda xs: e_sqrt(red_var(xs, ddof)), self, axis)

    def min(self, axis=None, **k):
        return reduce_axis(red_min, self, axis)

    def max(self, axis=None, **k):
        return reduce_axis(red_max, self, axis)

    def ptp(self, axis=None):
        return reduce_axis(lambda xs: red_max(xs) - red_min(xs), self, axis)

    def any(self, axis=None, **k):
        return reduce_axis(red_any, self, axis)

    def all(self, axis=None, **k):
        return reduce_axis(red_all, self, axis)

    def argmin(self, axis=None, **k):
        return reduce_axis(red_argmin, self, axis)

    def argmax(self, axis=None, **k):
        return reduce_axis(red_argmax, self, axis)

    def argsort(self, axis=-1, kind=None, **k):
        return argsort(self, axis)

    def sort(self, axis=-1, **k):
        self[...] = sort(self, axis)

    def cumsum(self, axis=None, **k):
        return cumsum(self, axis)

    def dot(self, o):
        return np_dot(self, o)

    def clip(self, a_min=None, a_max=None, **k):
        return clip(self, a_min, a_max)

    def nonzero(self):
        return nonzero(self)

    def round(self, n=0):
        return elementwise1(lambda e: round_(e, n), self, self.kind)

    def searchsorted(self, v, side='left', sorter=None):
        return searchsorted(self, v, side)

    def take(self, ix, axis=None, **k):
        if axis is None:
            return self.reshape(-1)[ix]
        return self[(slice(None),) * (axis % self.ndim) + (ix,)]

    def conj(self):
        return self

    @property
    def real(self):
        return self

    def __matmul__(self, o):
        return np_dot(self, o)

    def __rmatmul__(self, o):
        return np_dot(asarr(o), self)

    def __contains__(self, x):
        return bool(red_any([e == x for e in self.elems()]))


def e_invert(a):
    if _isinstance(a, (SymBool,)):
        return ~a
    if _isinstance(a, (bool, rnp.bool_)):
        return not a
    return ~int(a)


def e_div(a, b):
    if is_sym(a) or is_sym(b):
        return core.divide(a, b)
    with rnp.errstate(all='ignore'):
        return f64(a) / f64(b)


def e_floordiv(a, b):
    if is_sym(a) or is_sym(b):
        return core.floordiv(a, b)
    with rnp.errstate(all='ignore'):
        return rnp.floor_divide(a, b)


def e_mod(a, b):
    if is_sym(a) or is_sym(b):
        return core.modulo(a, b)
    with rnp.errstate(all='ignore'):
        return rnp.mod(a, b)


def e_pow(a, b):
    if is_sym(a) or is_sym(b):
        return core.power(a, b)
    with rnp.errstate(all='ignore'):
        return rnp.power(f64(a), b) if elem_kind(b) == 'f' or elem_kind(a) == 'f' else a ** b


def e_mul(a, b):
    if _isinstance(a, SymBool) and elem_kind(b) == 'b':
        return a & b
    return a * b


def e_add(a, b):
    if elem_kind(a) == 'b' and elem_kind(b) == 'b':
        return e_or(a, b)
    return a + b


def e_and(a, b):
    if _isinstance(a, (bool, rnp.bool_)) and _isinstance(b, SymBool):
        return b & bool(a)
    if _isinstance(a, SymNum) or _isinstance(b, SymNum):
        return int(a) & int(b)
    return a & b


def e_or(a, b):
    if _isinstance(a, (bool, rnp.bool_)) and _isinstance(b, SymBool):
        return b | bool(a)
    if _isinstance(a, SymNum) or _isinstance(b, SymNum):
        return int(a) | int(b)
    return a | b


def e_xor(a, b):
    if _isinstance(a, (bool, rnp.bool_)) and _isinstance(b, SymBool):
        return b ^ bool(a)
    if _isinstance(a, SymNum) or _isinstance(b, SymNum):
        return int(a) ^ int(b)
    return a ^ b


def e_eq(a, b):
    r = (a == b)
    return r


def e_ne(a, b):
    return a != b


def elementwise1(f, x, kind=None):
    if not _isinstance(x, SArr):
        if _isinstance(x, (list, tuple, rnp.ndarray)):
            x = asarr(x)
        else:
            return f(x)
    es = [f(e) for e in x.elems()]
    if x.ndim == 0:
        return es[0]
    return SArr.make(es, x.shape, kind or (join_kinds(map(elem_kind, es)) if es else x.kind))


BOOLOPS = set()


def elementwise2(f, a, b, kind=None):
    aa, bb = asarr(a), asarr(b)
    if aa.ndim == 0 and bb.ndim == 0:
        return f(aa.elems()[0], bb.elems()[0])
    ia, ib = rnp.broadcast_arrays(aa.idx, bb.idx)
    es = [f(aa.buf[i], bb.buf[j]) for i, j in zip(ia.reshape(-1).tolist(), ib.reshape(-1).tolist())]
    if kind is None:
        kind = join_kinds(map(elem_kind, es)) if es else join_kinds((aa.kind, bb.kind))
    return SArr.make(es, ia.shape, kind)


def _install_ops():
    import operator as op
    table = [('add', e_add, None), ('sub', op.sub, None), ('mul', e_mul, None), ('truediv', e_div, 'f'),
             ('floordiv', e_floordiv, None), ('mod', e_mod, None), ('pow', e_pow, None),
             ('and', e_and, None), ('or', e_or, None), ('xor', e_xor, None)]
    for name, f, kind in table:
        def fwd(self, o, f=f, kind=kind):
            return self._bin(o, f, kind)

        def rev(self, o, f=f, kind=kind):
            return self._bin(o, f, kind, True)

        def ipl(self, o, f=f):
            return self._ibin(o, f)
        setattr(SArr, '__%s__' % name, fwd)
        setattr(SArr, '__r%s__' % name, rev)
        setattr(SArr, '__i%s__' % name, ipl)
    for name, f in [('lt', op.lt), ('le', op.le), ('gt', op.gt), ('ge', op.ge), ('eq', e_eq), ('ne', e_ne)]:
        def cmp(self, o, f=f):
            return self._bin(o, f, 'b')
        setattr(SArr, '__%s__' % name, cmp)


_install_ops()


def asarr(x, kind=None):
    """SArr view of anything array-like."""
    if _isinstance(x, SArr):
        return x if kind is None or kind == x.kind else x.astype(KIND_DT[kind])
    if _isinstance(x, SRec):
        raise TypeError('structured array used as a plain array')
    if _isinstance(x, rnp.ndarray):
        if x.dtype.names:
            raise TypeError('structured array used as a plain array')
        es = list(x.reshape(-1))
        k = kind or {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b', 'c': 'c'}.get(x.dtype.kind) or (
            join_kinds(map(elem_kind, es)) if es else 'f')
        if k == 'i':
            es = [e if is_sym(e) else int(e) for e in es]
        return SArr.make([cast_scalar(e, k) for e in es], x.shape, k)
    if hasattr(x, '__array__') and not is_sym(x) and not _isinstance(x, rnp.generic):
        return asarr(x.__array__(), kind)
    if _isinstance(x, (list, tuple, range)) or hasattr(x, '_symx_sequence'):
        return from_nested(list(x), kind)
    if _isinstance(x, rnp.generic):
        x = x
    k = kind or elem_kind(x)
    return SArr.make([cast_scalar(x, k) if kind else x], (), k)


def from_nested(xs, kind=None):
    if not xs:
        return SArr.make([], (0,), kind or 'f')
    parts = []
    for x in xs:
        if _isinstance(x, (list, tuple, rnp.ndarray, SArr, range)) or (
                hasattr(x, '__array__') and not is_sym(x) and not _isinstance(x, rnp.generic)) or hasattr(x, '_symx_sequence'):
            parts.append(asarr(x))
        else:
            parts.append(SArr.make([x], (), elem_kind(x)))
    shapes = {p.shape for p in parts}
    if len(shapes) != 1:
        raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
    k = kind or join_kinds(p.kind for p in parts)
    es = []
    for p_ in parts:
        es.extend(p_.elems())
    return SArr.make([cast_scalar(e, k) for e in es], (len(parts),) + parts[0].shape, k)


# ---------------------------------------------------------------------------------------------------------------- #
# Structured arrays

class SRec:
    """Structured array: one SArr per field; shape () is a record."""
    __array_ufunc__ = None
    _is_sarr = True
    __hash__ = None

    def __init__(self, dtype, cols, shape):
        self.dtype = dtype
        self.cols = cols
        self.shape = tuple(shape)

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return int(rnp.prod(self.shape)) if self.shape else 1

    @property
    def flags(self):
        return types.SimpleNamespace(c_contiguous=True)

    def __len__(self):
        if not self.shape:
            return len(self.dtype.names)
        return self.shape[0]

    def __iter__(self):
        if not self.shape:
            for n in self.dtype.names:
                yield self[n]
        else:
            for i in range(self.shape[0]):
                yield self[i]

    def __getitem__(self, key):
        if _isinstance(key, str):
            try:
                c = self.cols[key]
            except KeyError:
                raise ValueError('no field of name %s' % key)
            if c.ndim == 0:
                return c.buf[int(c.idx)]
            return c
        if _isinstance(key, list) and key and all(_isinstance(k, str) for k in key):
            return SRec(DType([(n,) + self.dtype.fields[n] for n in key]), {n: self.cols[n] for n in key}, self.shape)
        if not self.shape and _isinstance(key, int):
            return self[self.dtype.names[key]]
        probe = SArr(None, rnp.arange(self.size).reshape(self.shape), 'i')
        k, adv = _key(key)
        shape = probe.idx[k].shape
        cols = {}
        for n, c in self.cols.items():
            ix = c.idx[k]
            if adv:
                cols[n] = SArr.make([c.buf[i] for i in ix.reshape(-1).tolist()], ix.shape, c.kind)
            else:
                if _isinstance(ix, rnp.integer):
                    ix = rnp.array(ix)
                cols[n] = SArr(c.buf, ix, c.kind)
        return SRec(self.dtype, cols, shape)

    def __setitem__(self, key, value):
        if _isinstance(key, str):
            if key not in self.cols:
                raise ValueError('no field of name %s' % key)
            self.cols[key][...] = value
            return
        if _isinstance(key, list) and key and all(_isinstance(f, str) for f in key):
            self[key][...] = value
            return
        tgt = self[key] if not self.shape == () else self
        k, adv = _key(key)
        if _isinstance(value, list) and value and all(_isinstance(v, (tuple, SRec)) for v in value):
            value = rec_from(value, self.dtype)
        elif hasattr(value, '__array__') and not _isinstance(value, (SRec, SArr, rnp.ndarray, rnp.generic)) and not is_sym(value):
            value = value.__array__()
        if _isinstance(value, SRec):
            for n in self.dtype.names:
                v = value.cols[n]
                sub = self.dtype.fields[n][1]
                if value.shape == (1,) and tgt.shape == ():
                    v = SArr(v.buf, v.idx[0] if v.ndim > 1 else rnp.array(v.idx[0]), v.kind)
                self.cols[n][k] = v
        elif _isinstance(value, tuple):
            for n, v in zip(self.dtype.names, value):
                self.cols[n][k] = v
        else:
            for n in self.dtype.names:
                self.cols[n][k] = value

    def item(self):
        if self.size != 1:
            raise ValueError('can only convert an array of size 1 to a Python scalar')
        out = []
        for n in self.dtype.names:
            c = self.cols[n]
            sub = self.dtype.fields[n][1]
            if sub:
                out.append(c.reshape(sub).copy())
            else:
                e = c.elems()[0]
                out.append(e.item() if _isinstance(e, rnp.generic) else e)
        return tuple(out)

    def tolist(self):
        return self.item() if not self.shape else [r.item() for r in self]

    def copy(self, order='C'):
        return SRec(self.dtype, {n: c.copy() for n, c in self.cols.items()}, self.shape)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def view(self, *a):
        return SRec(self.dtype, dict(self.cols), self.shape)

    def reshape(self, *shape):
        if len(shape) == 1 and _isinstance(shape[0], tuple):
            shape = shape[0]
        new = rnp.empty(self.shape).reshape(shape).shape
        return SRec(self.dtype, {n: c.reshape(new + self.dtype.fields[n][1]) for n, c in self.cols.items()}, new)

    def __array__(self, dtype=None, copy=None):
        return self

    def astype(self, dt):
        return self.copy()

    def __repr__(self):
        return 'SRec(%s)' % (self.cols,)

    def __eq__(self, o):
        if not _isinstance(o, SRec):
            return NotImplemented
        r = True
        outs = []
        for i in range(self.size):
            a, b = self.reshape(-1)[i], o.reshape(-1)[i]
            outs.append(red_all([red_all(asarr(a[n] == b[n]).elems()) for n in self.dtype.names]))
        return SArr.make(outs, self.shape, 'b') if self.shape else outs[0]


def rec_new(dtype, shape, fill=0):
    shape = tuple(int(s) for s in (shape if _isinstance(shape, (tuple, list)) else (shape,)))
    cols = {}
    for n, d, sub in dtype.spec:
        k = kind_of(d)
        full = shape + sub
        cnt = int(rnp.prod(full)) if full else 1
        cols[n] = narrowed(SArr.make([cast_scalar(fill, k)] * cnt, full, k), d)
    return SRec(dtype, cols, shape)


def rec_from(data, dtype):
    if _isinstance(data, SRec):
        return data.copy()
    if _isinstance(data, tuple):
        r = rec_new(dtype, ())
        for n, v in zip(dtype.names, data):
            r[n] = v
        return r
    data = list(data)
    r = rec_new(dtype, (len(data),))
    for i, row in enumerate(data):
        if _isinstance(row, SRec):
            r[i] = row
            continue
        row = tuple(row)
        if len(row) != len(dtype.names):
            raise ValueError('could not assign tuple of length %d to structure with %d fields.' % (len(row), len(dtype.names)))
        for n, v in zip(dtype.names, row):
            sub = dtype.fields[n][1]
            a = asarr(v)
            if a.shape != sub and a.ndim > 0 and a.size != 1:
                if a.ndim == len(sub):
                    raise ValueError('could not broadcast input array from shape %s into shape %s' % (a.shape, sub))
            r.cols[n][i] = v
    return r


# ---------------------------------------------------------------------------------------------------------------- #
# Reductions and functions

def red_sum(xs):
    t = 0
    ks = {elem_kind(x) for x in xs}
    for x in xs:
        if elem_kind(x) == 'b':
            x = x.as_num() if _isinstance(x, SymBool) else int(x)
        t = t + x
    if not xs or ks == {'f'}:
        return t if is_sym(t) else f64(t)
    return t


def red_mean(xs):
    return e_div(red_sum(xs), len(xs))


def red_var(xs, ddof=0):
    m = red_mean(xs)
    return e_div(red_sum([(x - m) * (x - m) for x in xs]), len(xs) - ddof)


def red_min(xs):
    if not xs:
        raise ValueError('zero-size array to reduction operation minimum which has no identity')
    b = xs[0]
    for x in xs[1:]:
        if x < b:
            b = x
    return b


def red_max(xs):
    if not xs:
        raise ValueError('zero-size array to reduction operation maximum which has no identity')
    b = xs[0]
    for x in xs[1:]:
        if x > b:
            b = x
    return b


def red_argmin(xs):
    if not xs:
        raise ValueError('attempt to get argmin of an empty sequence')
    k = 0
    for i in range(1, len(xs)):
        if xs[i] < xs[k]:
            k = i
    return k


def red_argmax(xs):
    if not xs:
        raise ValueError('attempt to get argmax of an empty sequence')
    k = 0
    for i in range(1, len(xs)):
        if xs[i] > xs[k]:
            k = i
    return k


def tobool(x):
    if _isinstance(x, SymBool):
        return x
    if _isinstance(x, SymNum):
        return x != 0
    return bool(x)


def red_any(xs):
    r = False
    for x in xs:
        x = tobool(x)
        r = e_or(r, x)
    return r


def red_all(xs):
    r = True
    for x in xs:
        x = tobool(x)
        r = e_and(r, x)
    return r


def reduce_axis(f, a, axis=None, keepdims=False):
    a = asarr(a)
    if axis is None:
        r = f(a.elems())
        if keepdims:
            return SArr.make([r], (1,) * a.ndim, elem_kind(r))
        return r
    if _isinstance(axis, tuple):
        for ax in sorted([x % a.ndim for x in axis], reverse=True):
            a = reduce_axis(f, a, ax)
        return a
    axis = int(axis)
    if axis < -a.ndim or axis >= a.ndim:
        raise rnp.exceptions.AxisError(axis, a.ndim)
    axis %= a.ndim
    ix = rnp.moveaxis(a.idx, axis, -1)
    lead = ix.shape[:-1]
    es = []
    for row in ix.reshape((int(rnp.prod(lead)) if lead else 1, ix.shape[-1])).tolist():
        es.append(f([a.buf[i] for i in row]))
    if not lead and not keepdims:
        return es[0]
    r = SArr.make(es, lead, join_kinds(map(elem_kind, es)) if es else a.kind)
    if keepdims:
        r = SArr(r.buf, rnp.expand_dims(r.idx, axis), r.kind)
    return r


class _K:
    __slots__ = ('v', 'i')

    def __init__(self, v, i):
        self.v = v
        self.i = i

    def __lt__(self, o):
        a, b = self.v, o.v
        if not is_sym(a) and a != a:
            return False
        if not is_sym(b) and b != b:
            return True
        return bool(a < b)


def argsort(a, axis=-1, kind=None, **k):
    a = asarr(a)
    if a.ndim == 1:
        ks = sorted((_K(v, i) for i, v in enumerate(a.elems())))
        return SArr.make([x.i for x in ks], a.shape, 'i')
    if axis is None:
        return argsort(a.reshape(-1))
    axis %= a.ndim
    ix = rnp.moveaxis(a.idx, axis, -1)
    rows = [argsort(SArr(a.buf, r, a.kind)).elems() for r in ix.reshape(-1, ix.shape[-1])]
    r = SArr.make([x for row in rows for x in row], ix.shape, 'i')
    return SArr(r.buf, rnp.moveaxis(r.idx, -1, axis), 'i')


def sort(a, axis=-1, **k):
    a = asarr(a)
    if a.ndim == 1:
        es = a.elems()
        return SArr.make([es[i] for i in argsort(a).elems()], a.shape, a.kind)
    o = argsort(a, axis)
    axis %= a.ndim
    ix = rnp.moveaxis(a.idx, axis, -1)
    oo = rnp.moveaxis(o.idx, axis, -1)
    es = []
    for r, q in zip(ix.reshape(-1, ix.shape[-1]), oo.reshape(-1, ix.shape[-1])):
        es += [a.buf[r[o.buf[j]]] for j in q]
    r = SArr.make(es, ix.shape, a.kind)
    return SArr(r.buf, rnp.moveaxis(r.idx, -1, axis), a.kind)


def cumsum(a, axis=None, **k):
    a = asarr(a)
    if axis is None:
        a = a.reshape(-1)
    if a.ndim == 1:
        out = []
        t = 0
        for e in a.elems():
            if elem_kind(e) == 'b':
                e = e.as_num() if _isinstance(e, SymBool) else int(e)
            t = t + e
            out.append(t)
        return SArr.make(out, a.shape, 'i' if a.kind == 'b' else a.kind)
    return np_stack([cumsum(r) for r in (a if axis in (1, -1) else a.T)], axis=0 if axis in (1, -1) else 1)


def clip(a, lo=None, hi=None, **k):
    lo = k.get('min', lo)
    hi = k.get('max', hi)
    r = a
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    return r


def e_max(a, b):
    for x in (a, b):
        if not is_sym(x) and x != x:
            return x
    return a if a >= b else b


def e_min(a, b):
    for x in (a, b):
        if not is_sym(x) and x != x:
            return x
    return a if a <= b else b


def maximum(a, b, *r, **k):
    return elementwise2(e_max, a, b)


def minimum(a, b, *r, **k):
    return elementwise2(e_min, a, b)


def nonzero(a):
    a = asarr(a)
    m = rnp.array([bool(tobool(e)) for e in a.elems()], dtype=bool).reshape(a.shape)
    return tuple(SArr.make([int(x) for x in t], t.shape, 'i') for t in rnp.nonzero(m))


def searchsorted(a, v, side='left', sorter=None):
    a = asarr(a)

    def one(x):
        k = 0
        for e in a.elems():
            c = (e < x) if side == 'left' else (e <= x)
            if c:
                k += 1
            else:
                break
        return k
    if _isinstance(v, (SArr, list, tuple, rnp.ndarray)):
        return elementwise1(one, asarr(v), 'i')
    return one(v)


def round_(e, n=0):
    if is_sym(e):
        if n:
            ten = 10 ** abs(int(n))
            return round_(e * ten) / ten if n > 0 else round_(e / ten) * ten
        r = core.num(e).__round__()
        return SymNum(r.p, core.num(e).isint)
    return rnp.round(e, n)


def np_dot(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return elementwise2(e_mul, a, b)
    if a.ndim == 1 and b.ndim == 1:
        if a.shape != b.shape:
            raise ValueError('shapes %s and %s not aligned' % (a.shape, b.shape))
        return red_sum([x * y for x, y in zip(a.elems(), b.elems())])
    if a.ndim == 2 and b.ndim == 1:
        return from_nested([np_dot(r, b) for r in a])
    if a.ndim == 1 and b.ndim == 2:
        return from_nested([np_dot(a, c) for c in b.T])
    if a.ndim == 2 and b.ndim == 2:
        return from_nested([[np_dot(r, c) for c in b.T] for r in a])
    raise Inconclusive('dot of higher dimensions')


def e_sqrt(x):
    if is_sym(x):
        return core.sqrt(x)
    with rnp.errstate(all='ignore'):
        return rnp.sqrt(f64(x))


def e_sign(x):
    if is_sym(x):
        if x > 0:
            return 1 if x.isint else f64(1.0)
        if x < 0:
            return -1 if x.isint else f64(-1.0)
        return 0 if x.isint else f64(0.0)
    return rnp.sign(x)


def e_isnan(x):
    return False if is_sym(x) else bool(rnp.isnan(x))


def e_isinf(x):
    return False if is_sym(x) else bool(rnp.isinf(x))


def e_isfinite(x):
    return True if is_sym(x) else bool(rnp.isfinite(x))


def e_floor(x):
    if is_sym(x):
        return SymNum(core.floor(x).p, False)
    return rnp.floor(f64(x))


def e_ceil(x):
    if is_sym(x):
        return SymNum((-core.floor(-x)).p, False)
    return rnp.ceil(f64(x))


def e_trunc(x):
    if is_sym(x):
        return SymNum(core.trunc(x).p, False)
    return rnp.trunc(f64(x))


def e_cos(x):
    return core.trig(x)[0] if is_sym(x) else f64(core._snap(math.cos(x))) if x == x and abs(x) != math.inf else f64('nan')


def e_sin(x):
    return core.trig(x)[1] if is_sym(x) else f64(core._snap(math.sin(x))) if x == x and abs(x) != math.inf else f64('nan')


def e_tan(x):
    c, s = core.trig(x)
    return e_div(s, c)


def e_exp(x):
    return core.exp(x) if is_sym(x) else rnp.exp(f64(x))


def e_log(x):
    return core.log(x) if is_sym(x) else rnp.log(f64(x))


def e_atan2(y, x):
    return core.atan2(y, x) if is_sym(x) or is_sym(y) else f64(math.atan2(y, x))


def e_hypot(x, y):
    return core.hypot(x, y) if is_sym(x) or is_sym(y) else rnp.hypot(f64(x), f64(y))


def e_isclose(a, b, rtol=1e-5, atol=1e-8):
    for v in (a, b):
        if not is_sym(v) and not rnp.isfinite(v):
            return False if is_sym(a) or is_sym(b) else bool(a == b)
    d = a - b
    d = d if d >= 0 else -d
    m = b if b >= 0 else -b
    return d <= atol + rtol * m


def _generic(x):
    """to real numpy input"""
    if _isinstance(x, SArr):
        return x.to_real()
    if _isinstance(x, (list, tuple)):
        return type(x)(_generic(v) for v in x) if not hasattr(x, '_fields') else x
    if _isinstance(x, dict):
        return {k: _generic(v) for k, v in x.items()}
    if _isinstance(x, DType):
        return x.real()
    return x


def back(x):
    if _isinstance(x, rnp.ndarray) and x.dtype.names is None:
        return asarr(x)
    if _isinstance(x, tuple) and not hasattr(x, '_fields'):
        return tuple(back(v) for v in x)
    if _isinstance(x, list):
        return [back(v) for v in x]
    return x


def shape_of(s):
    if _isinstance(s, (tuple, list, SArr)):
        for v in s:
            _int_shape(v)
        return tuple(_int_shape(v) for v in s)
    return (_int_shape(s),)


def _int_shape(v):
    if _isinstance(v, (float, rnp.floating)) or (_isinstance(v, SymNum) and not v.isint):
        raise TypeError("'float' object cannot be interpreted as an integer")
    return int(v)


def count(shape):
    return int(rnp.prod(shape)) if shape else 1


def full(shape, fill_value, dtype=None, order='C', **k):
    shape = shape_of(shape)
    if dtype is None:
        kd = elem_kind(fill_value) if not _isinstance(fill_value, SArr) else fill_value.kind
    else:
        kd = kind_of(dtype)
    if _isinstance(kd, DType):
        return rec_new(kd, shape, fill_value)
    r = narrowed(SArr.make([cast_scalar(0, kd)] * count(shape), shape, kd), dtype)
    r[...] = fill_value
    return r


def zeros(shape, dtype=None, order='C', **k):
    return full(shape, 0, dtype if dtype is not None else float)


def ones(shape, dtype=None, order='C', **k):
    return full(shape, 1, dtype if dtype is not None else float)


def like(v, fill, dtype=None):
    if _isinstance(v, SRec):
        return rec_new(v.dtype, v.shape, fill)
    a = asarr(v)
    k = a.kind if dtype is None else kind_of(dtype)
    r = SArr.make([cast_scalar(fill, k)] * a.size, a.shape, k)
    if dtype is None and type(a.buf) is Narrow:
        r.buf = Narrow(r.buf, a.buf.conv)
    return narrowed(r, dtype)


def array(x, dtype=None, copy=True, ndmin=0, **k):
    if _isinstance(dtype, (DType, list)):
        dt = to_rdtype(dtype)
        if hasattr(x, '__array__') and not _isinstance(x, (SRec, SArr)):
            x = x.__array__()
        return rec_from(x, dt)
    if _isinstance(x, SRec):
        return x.copy()
    if hasattr(x, '__array__') and not _isinstance(x, (SArr, SRec, rnp.ndarray, rnp.generic)) and not is_sym(x):
        r = x.__array__()
        if _isinstance(r, SRec):
            return r.copy()
        x = r
    if _isinstance(x, (list, tuple)) and x and all(_isinstance(v, SRec) for v in x):
        return concat_rec([v.reshape((1,) + v.shape) for v in x])
    kind = None if dtype is None else kind_of(dtype)
    a = asarr(x, kind)
    if a is x or (_isinstance(x, SArr) and a.buf is x.buf):
        a = a.copy()
    elif dtype is None and a.kind == 'f':
        a = a.astype(float)
    while a.ndim < ndmin:
        a = a[None]
    if narrowing(dtype) is not None:
        a = narrowed(a.copy(), dtype)
    return a


def asarray(x, dtype=None, **k):
    if _isinstance(x, SRec) and dtype is None:
        return x
    if _isinstance(x, MaskedArray):
        x = x.data
    if _isinstance(x, SArr) and (dtype is None or kind_of(dtype) == x.kind and narrowing(dtype) is None):
        return x
    return array(x, dtype)


def concat_rec(xs):
    dt = xs[0].dtype
    n = sum(x.shape[0] for x in xs)
    cols = {}
    for name in dt.names:
        es = []
        for x in xs:
            es += x.cols[name].elems()
        tail = xs[0].shape[1:]
        cols[name] = SArr.make(es, (n,) + tail + dt.fields[name][1], xs[0].cols[name].kind)
    return SRec(dt, cols, (n,) + xs[0].shape[1:])


def concatenate(xs, axis=0, **k):
    xs = list(xs)
    if xs and all(_isinstance(x, SRec) for x in xs):
        return concat_rec(xs)
    xs = [asarr(x) for x in xs]
    if not xs:
        raise ValueError('need at least one array to concatenate')
    if axis is None:
        xs = [x.reshape(-1) for x in xs]
        axis = 0
    kind = join_kinds(x.kind for x in xs)
    es = []
    ixs = []
    for x in xs:
        base = len(es)
        es += [cast_scalar(e, kind) for e in x.elems()]
        ixs.append(base + rnp.arange(x.size).reshape(x.shape))
    return SArr(es, rnp.concatenate(ixs, axis), kind)


def np_stack(xs, axis=0, **k):
    xs = [asarr(x) for x in xs]
    if not xs:
        raise ValueError('need at least one array to stack')
    kind = join_kinds(x.kind for x in xs)
    es = []
    ixs = []
    for x in xs:
        base = len(es)
        es += [cast_scalar(e, kind) for e in x.elems()]
        ixs.append(base + rnp.arange(x.size).reshape(x.shape))
    return SArr(es, rnp.stack(ixs, axis), kind)


def vstack(xs, **k):
    xs = list(xs)
    if xs and all(_isinstance(x, SRec) for x in xs):
        return concat_rec([x.reshape((1,) + x.shape) if x.ndim == 1 else x for x in xs])
    xs = [asarr(x) for x in xs]
    return concatenate([x.reshape((1, -1)) if x.ndim <= 1 else x for x in xs], 0)


def hstack(xs, **k):
    xs = [asarr(x) for x in xs]
    xs = [x.reshape(1) if x.ndim == 0 else x for x in xs]
    return concatenate(xs, 0 if xs[0].ndim == 1 else 1)


def column_stack(xs):
    xs = [asarr(x) for x in xs]
    return concatenate([x.reshape((-1, 1)) if x.ndim == 1 else x for x in xs], 1)


def meshgrid(*xs, indexing='xy', **k):
    xs = [asarr(x) for x in xs]
    out = rnp.meshgrid(*[rnp.arange(x.size) for x in xs], indexing=indexing)
    return [SArr.make([x.elems()[i] for i in o.reshape(-1)], o.shape, x.kind) for x, o in zip(xs, out)]


def arange(*a, step=None, dtype=None, start=None, stop=None, **k):
    a = list(a)
    if start is not None:
        a = [start] + a
    if stop is not None:
        a.append(stop)
    if len(a) == 1:
        start, stop, st = 0, a[0], 1
    elif len(a) == 2:
        start, stop, st = a[0], a[1], 1
    else:
        start, stop, st = a
    if step is not None:
        st = step
    if not any(is_sym(v) for v in (start, stop, st)):
        r = rnp.arange(start, stop, st)
        return asarr(r if dtype is None else r.astype(KIND_DT[kind_of(dtype)]))
    # length = ceil((stop - start) / step)
    n = num(core.divide(num(stop) - num(start), num(st)))
    ln = -core.floor(-n)
    ln = int(ln)
    kd = kind_of(dtype) if dtype is not None else join_kinds(elem_kind(v) for v in (start, stop, st))
    return SArr.make([cast_scalar(num(start) + st * i if i else num(start), kd) for i in range(max(ln, 0))], (max(ln, 0),), kd)


def linspace(start, stop, num=50, endpoint=True, **k):
    n = int(num)
    d = n - 1 if endpoint else n
    return SArr.make([start + (stop - start) * core.Fraction(i, d) if is_sym(start) or is_sym(stop) else
                      f64(start + (stop - start) * i / d) for i in range(n)], (n,), 'f')


def where(c, *xy):
    if not xy:
        return nonzero(c)
    x, y = xy
    cc, xx, yy = asarr(c), asarr(x), asarr(y)
    ic, ix, iy = rnp.broadcast_arrays(cc.idx, xx.idx, yy.idx)
    es = [xx.buf[j] if bool(tobool(cc.buf[i])) else yy.buf[k]
          for i, j, k in zip(ic.reshape(-1).tolist(), ix.reshape(-1).tolist(), iy.reshape(-1).tolist())]
    kind = join_kinds((xx.kind, yy.kind))
    if ic.ndim == 0:
        return es[0]
    return SArr.make([cast_scalar(e, kind) for e in es], ic.shape, kind)


def gradient(f, *a, **k):
    f = asarr(f)
    mask = f._m if _isinstance(f, MaskedArray) else None
    if mask is not None:
        f = f.data
    axes = k.pop('axis', None)
    axes = list(range(f.ndim)) if axes is None else [axes % f.ndim] if _isinstance(axes, int) else [x % f.ndim for x in axes]
    if k.pop('edge_order', 1) != 1 or k or len(a) not in (0, 1, len(axes)) or any(asarr(x).ndim for x in a):
        raise Inconclusive('gradient with spacing')
    steps = [1] * len(axes) if not a else list(a) * len(axes) if len(a) == 1 else list(a)
    outs = []
    for ax, step in zip(axes, steps):
        ix = rnp.moveaxis(f.idx, ax, 0)
        n = ix.shape[0]
        if n < 2:
            raise ValueError('Shape of array too small to calculate a numerical gradient')
        rows = []
        for i in range(n):
            lo, hi = max(i - 1, 0), min(i + 1, n - 1)
            d = (hi - lo) * step
            A, B = SArr(f.buf, ix[hi], f.kind), SArr(f.buf, ix[lo], f.kind)
            rows.append(elementwise2(lambda p, q: e_div(p - q, d), A, B))
        st = np_stack(rows, 0)
        out = SArr(st.buf, rnp.moveaxis(st.idx, 0, ax), 'f')
        if mask is not None:
            mx = rnp.moveaxis(mask, ax, 0)
            mo = rnp.array([mx[min(i + 1, n - 1)] | mx[max(i - 1, 0)] for i in range(n)])
            far = rnp.array([ix[min(i + 1, n - 1)] for i in range(n)])
            mo, far = rnp.moveaxis(mo, 0, ax), rnp.moveaxis(far, 0, ax)
            es = [f.buf[i] if k else e for e, k, i in zip(out.elems(), mo.reshape(-1), far.reshape(-1).tolist())]
            out = MaskedArray(SArr.make(es, out.shape, 'f'), mo)
        outs.append(out)
    return outs if len(outs) > 1 else outs[0]


def fliplr(a):
    a = asarr(a)
    return SArr(a.buf, a.idx[:, ::-1], a.kind)


def flipud(a):
    a = asarr(a)
    return SArr(a.buf, a.idx[::-1], a.kind)


def flip(a, axis=None):
    a = asarr(a)
    return SArr(a.buf, rnp.flip(a.idx, axis), a.kind)


def roll(a, shift, axis=None):
    a = asarr(a)
    return SArr(a.buf, rnp.roll(a.idx, shift, axis), a.kind).copy()


def norm(x, ord=None, axis=None, keepdims=False):
    x = asarr(x)
    def n2(xs):
        if not any(is_sym(v) for v in xs):
            return rnp.linalg.norm(rnp.array([float(v) for v in xs]))
        return core.sqrt(red_sum([v * v for v in xs]), True)
    if ord not in (None, 2):
        raise Inconclusive('norm order')
    return reduce_axis(n2, x, axis, keepdims)


def cross(a, b):
    a, b = asarr(a), asarr(b)
    if a.shape[-1] == 2:
        return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]
    return np_stack([a[..., i] * b[..., j] - a[..., j] * b[..., i] for i, j in ((1, 2), (2, 0), (0, 1))], -1)


def unique(a, **k):
    a = asarr(a)
    flags = [k.pop(n, False) for n in ('return_index', 'return_inverse', 'return_counts')]
    if k.pop('axis', None) is not None or k:
        raise Inconclusive('unique options')
    s = sort(a.reshape(-1)).elems()
    out = []
    if any(flags):
        es = a.elems()
        order = argsort(a.reshape(-1)).elems()
        first, count, inverse = [], [], [0] * len(es)
        for i in order:
            if not out or not bool(out[-1] == es[i]):
                out.append(es[i])
                first.append(i)
                count.append(0)
            count[-1] += 1
            first[-1] = builtins.min(first[-1], i)
            inverse[i] = len(out) - 1
        r = [SArr.make(out, (len(out),), a.kind)]
        return tuple(r + [SArr.make(x, (len(x),), 'i') for x, f in zip((first, inverse, count), flags) if f])
    for e in s:
        if not out or not bool(out[-1] == e):
            out.append(e)
    return SArr.make(out, (len(out),), a.kind)


def array_equal(a, b, **k):
    a, b = asarr(a), asarr(b)
    return a.shape == b.shape and bool(red_all([x == y for x, y in zip(a.elems(), b.elems())]))


def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return red_all(asarr(elementwise2(lambda x, y: e_isclose(x, y, rtol, atol), a, b)).elems())


class MaskedArray(SArr):
    """Masked array with a concrete mask. Element reads give the data, as compiled code sees it."""
    __slots__ = ('_m',)

    def __init__(self, data, mask=False, *a, **k):
        d = asarr(data)
        SArr.__init__(self, d.buf, d.idx, d.kind)
        own = data._m if _isinstance(data, MaskedArray) else False
        m = mask.concrete_index() if _isinstance(mask, SArr) else rnp.asarray(mask, dtype=bool)
        self._m = rnp.array(rnp.broadcast_to(m | own, self.shape))

    @property
    def mask(self):
        return SArr.make([bool(x) for x in self._m.reshape(-1)], self._m.shape, 'b')

    @property
    def data(self):
        return SArr(self.buf, self.idx, self.kind)

    def filled(self, v):
        return SArr.make([v if m else e for e, m in zip(self.elems(), self._m.reshape(-1))], self.shape, self.kind)

    def compressed(self):
        es = [e for e, m in zip(self.elems(), self._m.reshape(-1)) if not m]
        return SArr.make(es, (len(es),), self.kind)

    def count(self):
        return int((~self._m).sum())

    def copy(self, order='C'):
        return MaskedArray(SArr.copy(self), self._m)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def __getitem__(self, key):
        r = SArr.__getitem__(self, key)
        if not _isinstance(r, SArr):
            return r
        out = MaskedArray(r)
        m = self._m[_key(key)[0]]
        out._m = m if m.base is not None else rnp.array(m)
        return out

    def __setitem__(self, key, value):
        SArr.__setitem__(self, key, value.data if _isinstance(value, MaskedArray) else value)
        self._m[_key(key)[0]] = value._m if _isinstance(value, MaskedArray) else False

    def _bin(self, o, f, kind=None, swap=False):
        r = SArr._bin(self, o, f, kind, swap)
        if not _isinstance(r, SArr):
            return r
        om = o._m if _isinstance(o, MaskedArray) else False
        left = asarr(o) if swap else self
        m = rnp.broadcast_to(self._m | om, r.shape)
        es = r.elems()
        if kind == 'b':
            es = [False if k else e for e, k in zip(es, m.reshape(-1))]
        else:
            if f is e_div:
                m = m | rnp.array([bool(e_isnan(e)) or bool(e_isinf(e)) for e in es], dtype=bool).reshape(m.shape)
            ld = rnp.broadcast_to(left.idx, r.shape).reshape(-1).tolist()
            es = [cast_scalar(left.buf[i], r.kind) if k else e for e, k, i in zip(es, m.reshape(-1), ld)]
        return MaskedArray(SArr.make(es, r.shape, r.kind), m)

    def __neg__(self):
        return MaskedArray(SArr.__neg__(self), self._m)

    def __abs__(self):
        return MaskedArray(SArr.__abs__(self), self._m)

    def __invert__(self):
        return MaskedArray(SArr.__invert__(self), self._m)


def masked_wrap(f):
    """plain ufunc: works on the data, the mask is the union of the masks"""
    def g(*a, **k):
        ms = [x._m for x in a if _isinstance(x, MaskedArray)]
        r = f(*[x.data if _isinstance(x, MaskedArray) else x for x in a], **k)
        if not ms or not _isinstance(r, SArr):
            return r
        m = ms[0]
        for x in ms[1:]:
            m = m | x
        return MaskedArray(r, rnp.broadcast_to(m, r.shape))
    return g


class _ScalarMeta(type):
    def __instancecheck__(cls, x):
        k = cls._symx_kind
        if _isinstance(x, SymNum):
            return (k == 'i') == x.isint and k in 'if'
        if _isinstance(x, SymBool):
            return k == 'b'
        return _isinstance(x, cls._real)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._real) or c is cls or type.__subclasscheck__(cls, c)

    def __call__(cls, x=0, *a):
        if _isinstance(x, (SArr, list, tuple)):
            return asarr(x).astype(cls)
        x, conv = cast_scalar(x, cls._symx_kind), narrowing(cls)
        return x if conv is None else conv(x)

    def __eq__(cls, o):
        return cls is o or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __repr__(cls):
        return repr(cls._real)


def _scalar(name, real, kind):
    return _ScalarMeta(name, (), {'_real': real, '_symx_kind': kind, '__doc__': real.__doc__})


class _RecordMeta(type):
    def __instancecheck__(cls, x):
        return _isinstance(x, (SArr, SRec, rnp.ndarray))


class ndarray(metaclass=_RecordMeta):
    def __new__(cls, *a, **k):
        raise TypeError('ndarray constructor')


class _VoidMeta(type):
    def __instancecheck__(cls, x):
        return _isinstance(x, SRec) and x.shape == ()


class void(metaclass=_VoidMeta):
    pass


def dtype(spec, *a, **k):
    return to_rdtype(spec)


def vectorize(f=None, *a, **k):
    if f is None:
        return lambda g: vectorize(g)

    def call(*xs):
        if len(xs) == 1:
            return elementwise1(f, xs[0])
        if len(xs) == 2:
            return elementwise2(f, xs[0], xs[1])
        raise Inconclusive('vectorize arity')
    return call


def build_numpy(random_ns, save, load):
    m = types.ModuleType('numpy')
    e1 = lambda f, kind=None: (lambda x, *a, **k: elementwise1(f, x, kind))
    e2 = lambda f, kind=None: (lambda x, y, *a, **k: elementwise2(f, x, y, kind))
    red = lambda f: (lambda a, axis=None, *r, **k: reduce_axis(f, a, axis, k.get('keepdims', False)))
    import operator as op
    d = dict(
        ndarray=ndarray, void=void, dtype=dtype,
        float64=_scalar('float64', rnp.float64, 'f'), float32=_scalar('float32', rnp.float32, 'f'),
        int64=_scalar('int64', rnp.int64, 'i'), int32=_scalar('int32', rnp.int32, 'i'),
        intp=_scalar('int64', rnp.int64, 'i'), bool_=_scalar('bool_', rnp.bool_, 'b'),
        float_=_scalar('float64', rnp.float64, 'f'), int_=_scalar('int64', rnp.int64, 'i'),
        complex128=rnp.complex128, bool=bool, int=int, float=float, object=object,
        integer=_scalar('integer', rnp.integer, 'i'), floating=_scalar('floating', rnp.floating, 'f'),
        pi=math.pi, e=math.e, inf=math.inf, nan=math.nan, newaxis=None, Inf=math.inf, NaN=math.nan, NAN=math.nan,
        zeros=zeros, ones=ones, full=full, empty=zeros, array=array, asarray=asarray, ascontiguousarray=asarray,
        asanyarray=asarray,
        zeros_like=lambda v, dtype=None, **k: like(v, 0, dtype), empty_like=lambda v, dtype=None, **k: like(v, 0, dtype),
        ones_like=lambda v, dtype=None, **k: like(v, 1, dtype),
        full_like=lambda v, f, dtype=None, **k: like(v, f, dtype),
        copy=lambda v, **k: v.copy() if _isinstance(v, SRec) else SArr.copy(asarr(v)), concatenate=concatenate, stack=np_stack, vstack=vstack, hstack=hstack,
        column_stack=column_stack, append=lambda a, v, axis=None: concatenate([asarr(a).reshape(-1), asarr(v).reshape(-1)]) if axis is None else concatenate([a, v], axis),
        meshgrid=meshgrid, arange=arange, linspace=linspace, where=where, gradient=gradient,
        fliplr=fliplr, flipud=flipud, flip=flip, roll=roll, unique=unique, array_equal=array_equal, allclose=allclose,
        transpose=lambda a, *r: asarr(a).transpose(*r), reshape=lambda a, s, **k: asarr(a).reshape(s),
        ravel=lambda a: asarr(a).ravel(), squeeze=lambda a, axis=None: asarr(a).squeeze(axis),
        atleast_1d=lambda a: asarr(a).reshape(1) if asarr(a).ndim == 0 else asarr(a),
        atleast_2d=lambda a: asarr(a).reshape((1, -1)) if asarr(a).ndim <= 1 else asarr(a),
        expand_dims=lambda a, axis: (lambda s: SArr(s.buf, rnp.expand_dims(s.idx, axis), s.kind))(asarr(a)),
        swapaxes=lambda a, i, j: asarr(a).swapaxes(i, j), repeat=lambda a, n, axis=None: asarr(a).repeat(n, axis),
        tile=lambda a, reps: (lambda s: (lambda ix: SArr.make([s.buf[i] for i in ix.reshape(-1)], ix.shape, s.kind))(rnp.tile(s.idx, reps)))(asarr(a)),
        broadcast_to=lambda a, s: (lambda q: SArr(q.buf, rnp.broadcast_to(q.idx, s), q.kind))(asarr(a)),
        take=lambda a, i, axis=None: asarr(a).take(i, axis),
        sqrt=e1(e_sqrt, 'f'), cos=e1(e_cos, 'f'), sin=e1(e_sin, 'f'), tan=e1(e_tan, 'f'), exp=e1(e_exp, 'f'), log=e1(e_log, 'f'),
        abs=e1(abs), absolute=e1(abs), fabs=e1(abs, 'f'), sign=e1(e_sign), negative=e1(op.neg),
        square=e1(lambda v: v * v), reciprocal=e1(lambda v: e_div(1.0, v)),
        floor=e1(e_floor, 'f'), ceil=e1(e_ceil, 'f'), trunc=e1(e_trunc, 'f'), rint=e1(round_), round=lambda v, n=0: elementwise1(lambda e: round_(e, n), v),
        around=lambda v, n=0: elementwise1(lambda e: round_(e, n), v),
        isnan=e1(e_isnan, 'b'), isinf=e1(e_isinf, 'b'), isfinite=e1(e_isfinite, 'b'),
        hypot=e2(e_hypot, 'f'), arctan2=e2(e_atan2, 'f'), maximum=maximum, minimum=minimum, fmax=maximum, fmin=minimum,
        add=e2(e_add), subtract=e2(op.sub), multiply=e2(e_mul), divide=e2(e_div, 'f'), true_divide=e2(e_div, 'f'),
        floor_divide=e2(e_floordiv), mod=e2(e_mod), remainder=e2(e_mod), fmod=None, power=e2(e_pow),
        less=e2(op.lt, 'b'), less_equal=e2(op.le, 'b'), greater=e2(op.gt, 'b'), greater_equal=e2(op.ge, 'b'),
        equal=e2(e_eq, 'b'), not_equal=e2(e_ne, 'b'),
        logical_and=e2(lambda a, b: e_and(tobool(a), tobool(b)), 'b'), logical_or=e2(lambda a, b: e_or(tobool(a), tobool(b)), 'b'),
        logical_xor=e2(lambda a, b: e_xor(tobool(a), tobool(b)), 'b'), logical_not=e1(lambda a: e_invert(tobool(a)), 'b'),
        bitwise_and=e2(e_and), bitwise_or=e2(e_or), bitwise_xor=e2(e_xor), invert=e1(e_invert), bitwise_not=e1(e_invert),
        isclose=lambda a, b, rtol=1e-5, atol=1e-8, **k: elementwise2(lambda x, y: e_isclose(x, y, rtol, atol), a, b, 'b'),
        sum=red(red_sum), mean=red(red_mean), prod=red(lambda xs: functools.reduce(lambda a, b: a * b, xs, 1)),
        min=red(red_min), max=red(red_max), amin=red(red_min), amax=red(red_max),
        ptp=red(lambda xs: red_max(xs) - red_min(xs)), any=red(red_any), all=red(red_all),
        argmin=red(red_argmin), argmax=red(red_argmax), var=red(red_var), std=red(lambda xs: e_sqrt(red_var(xs))),
        count_nonzero=red(lambda xs: red_sum([tobool(x) for x in xs])), average=red(red_mean),
        argsort=argsort, sort=sort, cumsum=cumsum, clip=clip, nonzero=nonzero, flatnonzero=lambda a: nonzero(asarr(a).reshape(-1))[0],
        argwhere=lambda a: np_stack(nonzero(a), 1), searchsorted=searchsorted, dot=np_dot, inner=np_dot, matmul=np_dot, vdot=np_dot,
        cross=cross, outer=lambda a, b: from_nested([[x * y for y in asarr(b).elems()] for x in asarr(a).elems()]),
        diff=lambda a, n=1, axis=-1: (lambda s: s[1:] - s[:-1])(asarr(a)) if asarr(a).ndim == 1 or axis == 0 else (lambda s: s[:, 1:] - s[:, :-1])(asarr(a)),
        ndim=lambda a: asarr(a).ndim, shape=lambda a: a.shape if hasattr(a, 'shape') else asarr(a).shape, size=lambda a, axis=None: asarr(a).size if axis is None else asarr(a).shape[axis],
        asscalar=lambda a: a.item() if hasattr(a, 'item') else a, isscalar=lambda a: is_sym(a) or rnp.isscalar(a),
        rad2deg=e1(lambda v: v * f64(180 / math.pi)), deg2rad=e1(lambda v: v * f64(math.pi / 180)),
        degrees=e1(lambda v: v * f64(180 / math.pi)), radians=e1(lambda v: v * f64(math.pi / 180)),
        vectorize=vectorize, save=save, load=load, iterable=lambda x: hasattr(x, '__iter__'),
        int8=_scalar('int8', rnp.int8, 'i'), uint8=_scalar('uint8', rnp.uint8, 'i'), int16=_scalar('int16', rnp.int16, 'i'), uint16=_scalar('uint16', rnp.uint16, 'i'),
        float16=_scalar('float16', rnp.float16, 'f'), number=rnp.number, generic=rnp.generic,
        errstate=rnp.errstate, seterr=rnp.seterr, ndindex=rnp.ndindex, finfo=rnp.finfo, iinfo=rnp.iinfo,
        set_printoptions=rnp.set_printoptions, s_=rnp.s_, index_exp=rnp.index_exp, testing=rnp.testing, __version__='1.23.5',
        einsum=None, in1d=None, isin=lambda a, b, **k: elementwise1(lambda x: red_any([x == y for y in asarr(b).elems()]), asarr(a), 'b'),
    )
    d['uint64'] = d['uint'] = d['uintp'] = _scalar('uint64', rnp.uint64, 'i')
    d['uint32'] = _scalar('uint32', rnp.uint32, 'i')
    d = {k: v for k, v in d.items() if v is not None or k == 'newaxis'}
    m.__dict__.update(d)
    from . import snp_more
    snp_more.fill(m)
    m.random = random_ns
    lin = types.ModuleType('numpy.linalg')
    lin.norm = norm
    lin.LinAlgError = rnp.linalg.LinAlgError
    lin.inv, lin.solve = snp_more.inv, snp_more.solve
    lin.det = lambda a: a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    m.linalg = lin
    ma = types.ModuleType('numpy.ma')
    for q in ('hypot', 'arctan2', 'add', 'subtract', 'multiply', 'divide', 'true_divide', 'sqrt', 'square', 'abs', 'absolute', 'negative',
              'logical_and', 'logical_or', 'logical_xor', 'logical_not', 'isnan'):
        if q in m.__dict__:
            m.__dict__[q] = masked_wrap(m.__dict__[q])
    snp_more.finish(m)
    ma.is_masked = lambda x: _isinstance(x, MaskedArray) and bool(x._m.any())
    ma.isMaskedArray = lambda x: _isinstance(x, MaskedArray)
    ma.getmaskarray = ma.getmask = lambda x: x.mask if _isinstance(x, MaskedArray) else SArr.make([False] * asarr(x).size, asarr(x).shape, 'b')
    ma.masked_where = snp_more.masked_where
    ma.getdata = lambda x: x.data if _isinstance(x, MaskedArray) else asarr(x)
    ma.filled = lambda x, v=None: x.filled(v) if _isinstance(x, MaskedArray) else x
    ma.MaskedArray = MaskedArray
    ma.masked_array = MaskedArray
    ma.array = MaskedArray
    m.ma = ma

    def fallback(name):
        if name.startswith('__'):
            raise AttributeError(name)
        r = getattr(rnp, name)
        if callable(r) and not _isinstance(r, type):
            def call(*a, **k):
                return back(r(*_generic(a), **_generic(k)))
            call.__name__ = name
            return call
        return r
    m.__getattr__ = fallback
    return m
