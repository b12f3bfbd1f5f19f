"""ufunc objects (out, where, reduce, accumulate, outer, at) and the less common numpy functions"""
import functools
import math
import numpy as rnp
from . import core, snp
from .core import Inconclusive, is_sym
from .snp import SArr, MaskedArray, SRec, asarr, elementwise1, elementwise2, from_nested, join_kinds, elem_kind, tobool

_isinstance = snp._isinstance
NONE = object()
IDENTITY = dict(add=0, multiply=1, logical_and=True, logical_or=False, bitwise_or=0, logical_xor=False)


def store(out, r, where=True):
    if _isinstance(out, tuple):
        out, = out
    if where is True:
        out[...] = r
    else:
        w = rnp.array([bool(tobool(e)) for e in snp_broadcast(where, out.shape).elems()], dtype=bool).reshape(out.shape)
        rr = snp_broadcast(r, out.shape)
        for ix in rnp.ndindex(*out.shape):
            if w[ix]:
                out[ix] = rr[ix]
    return out


def snp_broadcast(a, shape):
    a = asarr(a)
    return SArr(a.buf, rnp.broadcast_to(a.idx, shape), a.kind)


class Ufunc(object):
    def __init__(self, f, name, nin):
        self.f, self.__name__, self.nin = f, name, nin

    def __call__(self, *xs, **k):
        out, where = k.pop('out', None), k.pop('where', True)
        if len(xs) > self.nin:
            xs, out = xs[:self.nin], xs[self.nin]
        if out is None and where is True:
            return self.f(*xs, **k)
        if where is True:
            return store(out, self.f(*xs, **k))
        shape = rnp.broadcast_shapes(*[asarr(x).shape for x in list(xs) + [where]])
        mask = [bool(tobool(e)) for e in snp_broadcast(where, shape).elems()]
        parts = [snp_broadcast(x, shape).elems() for x in xs]
        es = [self.f(*[p[i] for p in parts]) if m else None for i, m in enumerate(mask)]
        if out is None:
            if not all(mask):
                raise Inconclusive('uninitialised values of where=')
            return SArr.make(es, shape, join_kinds(map(elem_kind, es)))
        if _isinstance(out, tuple):
            out, = out
        for i, ix in enumerate(rnp.ndindex(*shape)):
            if mask[i]:
                out[ix] = es[i]
        return out

    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False, initial=NONE, where=True):
        if where is not True:
            raise Inconclusive('reduce with where')

        def f(es):
            if initial is not NONE:
                es = [initial] + list(es)
            if not len(es):
                if self.__name__ not in IDENTITY:
                    raise ValueError('zero-size array to reduction operation which has no identity')
                return IDENTITY[self.__name__]
            return functools.reduce(self.f, es)
        r = snp.reduce_axis(f, a, axis, keepdims)
        return r if out is None else store(out, r)

    def accumulate(self, a, axis=0, **k):
        a = asarr(a)
        ix = rnp.moveaxis(a.idx, axis, -1)
        es = []
        for row in ix.reshape(-1, ix.shape[-1]):
            t = None
            for j, i in enumerate(row.tolist()):
                t = a.buf[i] if j == 0 else self.f(t, a.buf[i])
                es.append(t)
        r = SArr.make(es, ix.shape, join_kinds(map(elem_kind, es)) if es else a.kind)
        return SArr(r.buf, rnp.moveaxis(r.idx, -1, axis), r.kind)

    def outer(self, a, b, **k):
        a, b = asarr(a), asarr(b)
        return self.f(a.reshape(tuple(a.shape) + (1,) * b.ndim), b)

    def at(self, a, indices, b=NONE):
        if not _isinstance(indices, tuple):
            indices = (indices,)
        cols = [asarr(i) for i in indices]
        if any(c.kind == 'b' for c in cols):
            raise Inconclusive('ufunc.at with a mask')
        shape = rnp.broadcast_shapes(*[c.shape for c in cols])
        cols = [snp_broadcast(c, shape) for c in cols]
        rest = a[tuple(asarr(0).item() if c.ndim == 0 else c[(0,) * c.ndim] for c in cols)] if all(c.size for c in cols) else None
        if rest is None:
            return
        tail = tuple(getattr(rest, 'shape', ()))
        bb = None if b is NONE else snp_broadcast(b, tuple(shape) + tail)
        for ix in rnp.ndindex(*shape):
            at = tuple(int(c[ix]) for c in cols)
            a[at] = self.f(a[at]) if bb is None else self.f(a[at], bb[ix] if ix else bb)


def reduction(f, name):
    """f(list) as a numpy reduction with axis, keepdims, out, initial and where"""
    empty = dict(sum=0, prod=1, any=False, all=True, count_nonzero=0)

    def g(a, axis=None, *r, **k):
        if 'axis' in k:
            axis = k['axis']
        out = k.get('out')
        initial, where = k.get('initial', NONE), k.get('where', True)
        if where is not True and where is not NONE:
            if initial is NONE and name not in empty:
                raise Inconclusive('reduction with where')
            a = snp.where(where, a, initial if name in ('min', 'max', 'amin', 'amax') else empty[name])
        if _isinstance(a, MaskedArray) and a._m.any():
            if axis is not None or where not in (True, NONE):
                raise Inconclusive('masked reduction along an axis')
            a = a.compressed()
        h = f if initial is NONE or initial is rnp._NoValue else lambda es: f(list(es) + [initial])
        x = snp.reduce_axis(h, a, axis, bool(k.get('keepdims', False)) and k.get('keepdims') is not rnp._NoValue)
        return x if out is None else store(out, x)
    return g


def average(a, axis=None, weights=None, returned=False, **k):
    if weights is None:
        return snp.reduce_axis(snp.red_mean, a, axis)
    a, w = asarr(a), asarr(weights)
    if a.shape != w.shape:
        if w.ndim != 1 or axis is None or w.shape[0] != a.shape[axis]:
            raise TypeError('Axis must be specified when shapes of a and weights differ.')
        w = SArr(w.buf, rnp.moveaxis(rnp.broadcast_to(w.idx, tuple(s for i, s in enumerate(a.shape) if i != axis % a.ndim) + w.shape), -1, axis), w.kind)
    t = snp.reduce_axis(snp.red_sum, w, axis)
    r = elementwise2(snp.e_div, snp.reduce_axis(snp.red_sum, elementwise2(snp.e_mul, a, w), axis), t, 'f')
    return (r, t) if returned else r


def einsum(spec, *ops, **k):
    spec = spec.replace(' ', '')
    ops = [asarr(o) for o in ops]
    ins, _, res = spec.partition('->')
    ins = ins.split(',')
    if '.' in spec:
        raise Inconclusive('einsum with ellipsis')
    letters = sorted(set(''.join(ins)))
    if '->' not in spec:
        res = ''.join(c for c in letters if ''.join(ins).count(c) == 1)
    size = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError('einstein sum subscripts string contains too many or too few subscripts')
        for c, n in zip(s, o.shape):
            if size.setdefault(c, n) != n:
                if 1 in (size[c], n):
                    raise Inconclusive('einsum with broadcasting')
                raise ValueError('operands could not be broadcast together')
    inner = [c for c in letters if c not in res]
    es = []
    for ix in rnp.ndindex(*[size[c] for c in res]):
        at = dict(zip(res, ix))
        terms = []
        for jx in rnp.ndindex(*[size[c] for c in inner]):
            at.update(zip(inner, jx))
            terms.append(functools.reduce(snp.e_mul, [o[tuple(at[c] for c in s)] if s else o.item() for s, o in zip(ins, ops)]))
        es.append(snp.red_sum(terms) if inner else terms[0])
    if not res:
        return es[0]
    return SArr.make(es, tuple(size[c] for c in res), join_kinds(map(elem_kind, es)) if es else 'f')


def bincount(x, weights=None, minlength=0):
    es = [int(e) for e in asarr(x).elems()]
    if es and min(es) < 0:
        raise ValueError('first argument must not be negative')
    n = max([e + 1 for e in es] + [int(minlength)])
    w = None if weights is None else asarr(weights).elems()
    out = [0 if w is None else 0.0] * n
    for i, e in enumerate(es):
        out[e] = out[e] + (1 if w is None else w[i])
    return SArr.make(out, (n,), 'i' if w is None else 'f')


def unravel_index(i, shape, order='C'):
    shape = (shape,) if _isinstance(shape, int) else tuple(shape)
    out = []
    for s in reversed(shape):
        out.append(elementwise1(lambda v: snp.e_mod(v, s), i))
        i = elementwise1(lambda v: snp.e_floordiv(v, s), i)
    return tuple(reversed(out))


def ravel_multi_index(ix, dims, **k):
    r = 0
    for c, s in zip(ix, dims):
        r = elementwise2(snp.e_add, elementwise2(snp.e_mul, r, s), c)
    return r


def select(conds, choices, default=0):
    r = default
    for c, v in list(zip(conds, choices))[::-1]:
        r = snp.where(c, v, r)
    return r


def piecewise(x, conds, funcs, *a, **k):
    x = asarr(x)
    conds = [snp_broadcast(c, x.shape) for c in ([conds] if not _isinstance(conds, (list, tuple)) else conds)]
    es = []
    for ix in rnp.ndindex(*x.shape):
        f = 0 if len(funcs) == len(conds) else funcs[-1]
        for c, g in zip(conds, funcs):
            if bool(tobool(c[ix] if ix else c.item())):
                f = g
        v = x[ix] if ix else x.item()
        es.append(f(v, *a, **k) if callable(f) else f)
    return SArr.make([snp.cast_scalar(e, x.kind) for e in es], x.shape, x.kind)


def delete(a, obj, axis=None):
    a = asarr(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    n = a.shape[axis]
    if _isinstance(obj, slice):
        drop = set(range(n)[obj])
    else:
        o = asarr(obj)
        drop = {i for i, e in enumerate(o.elems()) if bool(e)} if o.kind == 'b' and o.ndim else {int(e) % n for e in o.elems()}
    return a[(slice(None),) * (axis % a.ndim) + ([i for i in range(n) if i not in drop],)]


def insert(a, at, v, axis=None):
    a = asarr(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    if axis != 0 or not (_isinstance(at, int) or is_sym(at)):
        raise Inconclusive('insert')
    at = int(at)
    v = asarr(v)
    v = v.reshape((1,) + tuple(v.shape)) if v.ndim < a.ndim else v
    return snp.concatenate([a[:at], v, a[at:]], 0)


def setdiff1d(a, b, **k):
    u = snp.unique(a)
    bs = asarr(b).elems()
    return u[[i for i, e in enumerate(u.elems()) if not bool(snp.red_any([e == x for x in bs]))]]


def intersect1d(a, b, **k):
    u = snp.unique(a)
    bs = asarr(b).elems()
    return u[[i for i, e in enumerate(u.elems()) if bool(snp.red_any([e == x for x in bs]))]]


def nan(f):
    return lambda a, axis=None, **k: snp.reduce_axis(lambda es: f([e for e in es if not bool(snp.e_isnan(e))]), a, axis, k.get('keepdims', False))


def nanarg(f, worst):
    return lambda a, axis=None, **k: snp.reduce_axis(lambda es: f([worst if bool(snp.e_isnan(e)) else e for e in es]), a, axis)


def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(e):
        if bool(snp.e_isnan(e)):
            return nan
        if not is_sym(e) and rnp.isinf(e):
            return (posinf if e > 0 else neginf) if (posinf if e > 0 else neginf) is not None else rnp.nan_to_num(e)
        return e
    return elementwise1(f, x)


def copyto(dst, src, casting='same_kind', where=True):
    store(dst, src, where)


def copyto_mask(a, mask, v):
    store(a, v, mask)


def dstack(xs):
    xs = [asarr(x) for x in xs]
    xs = [x.reshape((1,) + tuple(x.shape)) if x.ndim == 1 else x for x in xs]
    return snp.np_stack(xs, -1) if xs[0].ndim == 2 else snp.concatenate(xs, 2)


def inv(a):
    a = asarr(a)
    if a.shape != (2, 2):
        raise Inconclusive('inverse of a larger matrix')
    d = snp.e_add(snp.e_mul(a[0, 0], a[1, 1]), -snp.e_mul(a[0, 1], a[1, 0]))
    if bool(d == 0):
        raise rnp.linalg.LinAlgError('Singular matrix')
    return from_nested([[snp.e_div(a[1, 1], d), snp.e_div(-a[0, 1], d)], [snp.e_div(-a[1, 0], d), snp.e_div(a[0, 0], d)]])


def solve(a, b):
    return snp.np_dot(inv(a), asarr(b))


def masked_where(c, a, copy=True):
    a = asarr(a)
    m = [bool(tobool(e)) for e in snp_broadcast(c, a.shape).elems()]
    return MaskedArray(a.copy() if copy else a, rnp.array(m, dtype=bool).reshape(a.shape))


def put(a, ix, v, mode='raise'):
    v = asarr(v).elems()
    flat = a.idx.reshape(-1)
    for n, i in enumerate(asarr(ix).elems()):
        a.buf[int(flat[int(i)])] = snp.cast_scalar(v[n % len(v)], a.kind)


def place(a, mask, v):
    v = asarr(v).elems()
    n = 0
    for i, m in zip(a.idx.reshape(-1).tolist(), snp_broadcast(mask, a.shape).elems()):
        if bool(tobool(m)):
            a.buf[i] = snp.cast_scalar(v[n % len(v)], a.kind)
            n += 1


def fill_diagonal(a, v, wrap=False):
    for i in range(min(a.shape)):
        a[(i,) * a.ndim] = v


def take_along_axis(a, ix, axis):
    a, ix = asarr(a), asarr(ix)
    if axis is None:
        return a.reshape(-1)[ix]
    i = rnp.array([int(e) for e in ix.elems()]).reshape(ix.shape)
    p = rnp.take_along_axis(a.idx, i, axis)
    return SArr.make([a.buf[j] for j in p.reshape(-1).tolist()], p.shape, a.kind)


def median(a, axis=None, **k):
    def f(es):
        s = snp.sort(SArr.make(es, (len(es),), 'f')).elems()
        n = len(s)
        return s[n // 2] if n % 2 else snp.e_div(s[n // 2 - 1] + s[n // 2], 2)
    return snp.reduce_axis(f, a, axis)


def lexsort(keys, axis=-1):
    keys = [asarr(q) for q in keys]
    order = list(range(keys[0].shape[0]))
    for q in keys:
        es = q.elems()
        order = [order[i] for i in snp.argsort(SArr.make([es[j] for j in order], (len(order),), q.kind)).elems()]
    return SArr.make(order, (len(order),), 'i')


def apply_along_axis(f, axis, a, *r, **k):
    a = asarr(a)
    ix = rnp.moveaxis(a.idx, axis, -1)
    rows = [asarr(f(SArr(a.buf, row, a.kind), *r, **k)) for row in ix.reshape(-1, ix.shape[-1])]
    s = snp.np_stack(rows, 0)
    s = s.reshape(tuple(ix.shape[:-1]) + tuple(rows[0].shape))
    if rows[0].ndim:
        return SArr(s.buf, rnp.moveaxis(s.idx, -1, axis), s.kind)
    return s


def diff(a, n=1, axis=-1, **k):
    a = asarr(a)
    for _ in range(n):
        at = (slice(None),) * (axis % a.ndim)
        a = a[at + (slice(1, None),)] - a[at + (slice(None, -1),)]
    return a


def moveaxis(a, s, d):
    a = asarr(a)
    return SArr(a.buf, rnp.moveaxis(a.idx, s, d), a.kind)


def ndenumerate(a):
    a = asarr(a)
    for ix in rnp.ndindex(*a.shape):
        yield ix, a[ix]


def tensordot(a, b, axes=2):
    a, b = asarr(a), asarr(b)
    if not _isinstance(axes, int):
        p, q = [[x] if _isinstance(x, int) else list(x) for x in axes]
        p, q = [x % a.ndim for x in p], [x % b.ndim for x in q]
    else:
        p, q = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    l = 'abcdefghijklmnop'
    la, lb = list(l[:a.ndim]), list(l[8:8 + b.ndim])
    for x, y in zip(p, q):
        lb[y] = la[x]
    res = [c for i, c in enumerate(la) if i not in p] + [c for i, c in enumerate(lb) if i not in q]
    return einsum('%s,%s->%s' % (''.join(la), ''.join(lb), ''.join(res)), a, b)


def digitize(x, bins, right=False):
    return snp.searchsorted(bins, x, 'left' if right else 'right')


def arccos(x):
    return snp.e_atan2(snp.e_sqrt(1 - x * x), x) if is_sym(x) else rnp.arccos(x)


def arcsin(x):
    return snp.e_atan2(x, snp.e_sqrt(1 - x * x)) if is_sym(x) else rnp.arcsin(x)


def arctan(x):
    return snp.e_atan2(x, 1.0) if is_sym(x) else rnp.arctan(x)


def cumprod(a, axis=None, **k):
    a = asarr(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    return Ufunc(snp.e_mul, 'multiply', 2).accumulate(a, axis)


def copysign(a, b):
    return abs(a) if b >= 0 else -abs(a)


def fmod(a, b):
    return a - b * snp.e_trunc(snp.e_div(a, b)) if is_sym(a) or is_sym(b) else rnp.fmod(a, b)


def split(a, n, axis=0):
    a = asarr(a)
    at = (slice(None),) * (axis % a.ndim)
    size = a.shape[axis]
    cuts = [size * i // n for i in range(1, n)] if _isinstance(n, int) else [int(i) for i in asarr(n).elems()]
    if _isinstance(n, int) and size % n:
        raise ValueError('array split does not result in an equal division')
    ends = [0] + cuts + [size]
    return [a[at + (slice(p, q),)] for p, q in zip(ends[:-1], ends[1:])]


UNARY = ('sqrt cos sin tan exp log abs absolute fabs sign negative positive square reciprocal floor ceil trunc rint isnan isinf isfinite logical_not '
         'invert bitwise_not rad2deg deg2rad degrees radians arccos arcsin arctan signbit').split()
BINARY = ('hypot arctan2 maximum minimum fmax fmin add subtract multiply divide true_divide floor_divide mod remainder fmod power float_power less less_equal '
          'greater greater_equal equal not_equal logical_and logical_or logical_xor bitwise_and bitwise_or bitwise_xor copysign').split()
REDUCE = dict(sum=snp.red_sum, mean=snp.red_mean, prod=lambda es: functools.reduce(snp.e_mul, es, 1), min=snp.red_min, max=snp.red_max, amin=snp.red_min, amax=snp.red_max,
              any=snp.red_any, all=snp.red_all, count_nonzero=lambda es: snp.red_sum([tobool(e) for e in es]))


def fill(m):
    """before the masked arrays are taken care of"""
    d = dict(positive=lambda x: elementwise1(lambda v: v, x), arccos=lambda x: elementwise1(arccos, x, 'f'), arcsin=lambda x: elementwise1(arcsin, x, 'f'),
             arctan=lambda x: elementwise1(arctan, x, 'f'), signbit=lambda x: elementwise1(lambda v: v < 0, x, 'b'),
             float_power=lambda x, y: elementwise2(snp.e_pow, x, y, 'f'), fmod=lambda x, y: elementwise2(fmod, x, y),
             copysign=lambda x, y: elementwise2(copysign, x, y))
    d['abs'] = d['absolute'] = d['fabs'] = m.abs
    for n in REDUCE:
        d[n] = reduction(REDUCE[n], n)
    d['average'] = average
    d['product'] = d['prod']
    m.__dict__.update(d)
    m.__dict__.update(
        einsum=einsum, bincount=bincount, unravel_index=unravel_index, ravel_multi_index=ravel_multi_index, select=select, piecewise=piecewise, delete=delete, insert=insert,
        setdiff1d=setdiff1d, intersect1d=intersect1d, union1d=lambda a, b: snp.unique(snp.concatenate([asarr(a).reshape(-1), asarr(b).reshape(-1)])),
        in1d=lambda a, b, **k: m.isin(asarr(a).reshape(-1), b), nansum=nan(snp.red_sum), nanmean=nan(snp.red_mean), nanmin=nan(snp.red_min), nanmax=nan(snp.red_max),
        nanargmin=nanarg(snp.red_argmin, math.inf), nanargmax=nanarg(snp.red_argmax, -math.inf), nan_to_num=nan_to_num, copyto=copyto, put=put, place=place,
        putmask=copyto_mask, fill_diagonal=fill_diagonal, take_along_axis=take_along_axis, median=median, lexsort=lexsort,
        apply_along_axis=apply_along_axis, diff=diff, moveaxis=moveaxis, rollaxis=lambda a, axis, start=0: (lambda s: SArr(s.buf, rnp.rollaxis(s.idx, axis, start), s.kind))(asarr(a)),
        ndenumerate=ndenumerate, tensordot=tensordot, digitize=digitize, cumprod=cumprod, split=split, row_stack=snp.vstack,
        compress=lambda c, a, axis=None: asarr(a).reshape(-1)[c] if axis is None else asarr(a)[(slice(None),) * axis + (asarr(c),)],
        extract=lambda c, a: asarr(a).reshape(-1)[asarr(c).reshape(-1)], choose=lambda i, cs, **k: elementwise1(lambda e: asarr(cs)[int(e)], i) if all(asarr(c).ndim == 0 for c in cs) else
        select([elementwise1(lambda e: e == j, asarr(i), 'b') for j in range(len(cs))], list(cs)),
        trace=lambda a, **k: snp.red_sum([a[i, i] for i in range(min(a.shape))]), diagonal=lambda a, **k: from_nested([a[i, i] for i in range(min(a.shape))]),
        partition=lambda a, kth, axis=-1, **k: snp.sort(a, axis), argpartition=lambda a, kth, axis=-1, **k: snp.argsort(a, axis),
        divmod=lambda a, b: (m.floor_divide(a, b), m.mod(a, b)), dstack=dstack, round_=m.round,
        rot90=lambda a, k=1: (lambda s: SArr(s.buf, rnp.rot90(s.idx, k), s.kind))(asarr(a)))


def finish(m):
    """after the masked arrays: real ufunc objects"""
    for n, k in [(n, 1) for n in UNARY] + [(n, 2) for n in BINARY]:
        if n in m.__dict__:
            m.__dict__[n] = Ufunc(m.__dict__[n], n, k)
    structured(m)


def methods():
    for n in ('sum', 'prod', 'mean', 'min', 'max', 'any', 'all'):
        setattr(SArr, n, (lambda g: lambda self, axis=None, *a, **k: g(self, axis, **k))(reduction(REDUCE[n], n)))
    SArr.put, SArr.cumprod = put, cumprod
    SArr.compress = lambda self, c, axis=None: self.reshape(-1)[asarr(c)] if axis is None else self[(slice(None),) * axis + (asarr(c),)]
    SArr.diagonal = lambda self, **k: from_nested([self[i, i] for i in range(min(self.shape))])
    SArr.trace = lambda self, **k: snp.red_sum([self[i, i] for i in range(min(self.shape))])
    SArr.argpartition = lambda self, kth, axis=-1, **k: snp.argsort(self, axis)
    SArr.partition = lambda self, kth, axis=-1, **k: self.sort(axis)
    SArr.imag = property(lambda self: elementwise1(lambda v: 0.0, self))


methods()


# ---------------------------------------------------------------------------------------------------------------- #
# structured arrays in the functions that only move entries about: the real numpy function is run on the positions

def picked(parts, ix, view):
    """the entries at the positions ix of the structured arrays ``parts`` laid end to end"""
    ix, dt = rnp.asarray(ix), parts[0].dtype
    cols = {}
    for n in dt.names:
        sub = dt.fields[n][1]
        if view:
            c = parts[0].cols[n]
            at = c.idx.reshape((parts[0].size,) + sub)[ix]
            cols[n] = SArr(c.buf, rnp.asarray(at), c.kind)
        else:
            es = []
            for p in parts:
                es += p.cols[n].elems()
            w = int(rnp.prod(sub)) if sub else 1
            cols[n] = SArr.make([e for i in ix.reshape(-1).tolist() for e in es[i * w:(i + 1) * w]], ix.shape + sub, parts[0].cols[n].kind)
    return SRec(dt, cols, ix.shape)


def positions(a):
    return rnp.arange(a.size).reshape(a.shape)


def concrete(x):
    if _isinstance(x, SArr):
        return rnp.array([e if not is_sym(e) else int(e) if elem_kind(e) != 'b' else bool(e) for e in x.elems()], dtype=bool if x.kind == 'b' else int).reshape(x.shape)
    return [concrete(e) for e in x] if _isinstance(x, (list, tuple)) and any(_isinstance(e, SArr) for e in x) else x


ONE = {n: True for n in ('atleast_1d', 'atleast_2d', 'ravel', 'reshape', 'squeeze', 'flip', 'flipud', 'fliplr', 'expand_dims', 'broadcast_to', 'transpose', 'swapaxes', 'moveaxis', 'rot90')}
ONE.update({n: False for n in ('take', 'repeat', 'tile', 'roll', 'delete', 'resize')})
MANY = ('concatenate', 'stack', 'vstack', 'row_stack', 'hstack', 'column_stack', 'dstack')


def one(g, name, view):
    f = getattr(rnp, name)

    def call(a, *r, **k):
        if not _isinstance(a, SRec):
            return g(a, *r, **k)
        return picked([a], f(positions(a), *map(concrete, r), **k), view)
    return call


def many(g, name):
    f = getattr(rnp, 'vstack' if name == 'row_stack' else name)

    def call(xs, *r, **k):
        xs = list(xs)
        if not xs or not all(_isinstance(x, SRec) for x in xs):
            return g(xs, *r, **k)
        if any(x.dtype.names != xs[0].dtype.names for x in xs):
            raise TypeError('invalid type promotion with structured datatypes')
        ixs, base = [], 0
        for x in xs:
            ixs.append(base + positions(x))
            base += x.size
        return picked(xs, f(ixs, *r, **k), False)
    return call


def pieces(g, name):
    f = getattr(rnp, name)

    def call(a, *r, **k):
        if not _isinstance(a, SRec):
            return g(a, *r, **k)
        return [picked([a], ix, True) for ix in f(positions(a), *map(concrete, r), **k)]
    return call


def structured(m):
    d = m.__dict__
    for n, view in ONE.items():
        if n in d:
            d[n] = one(d[n], n, view)
    for n in MANY:
        if n in d:
            d[n] = many(d[n], n)
    for n in ('split', 'array_split'):
        if n in d:
            d[n] = pieces(d[n], n)
    append, compress = d['append'], d['compress']
    d['append'] = lambda a, v, axis=None: many(None, 'concatenate')([a.ravel(), v.ravel()] if axis is None else [a, v]) if _isinstance(a, SRec) and _isinstance(v, SRec) else append(a, v, axis)
    d['compress'] = lambda c, a, axis=None: a[asarr(c)] if _isinstance(a, SRec) else compress(c, a, axis)


def record_methods():
    def method(name, view):
        f = one(None, name, view)
        return lambda self, *r, **k: f(self, *r, **k)
    for n in ('ravel', 'squeeze', 'transpose', 'swapaxes'):
        setattr(SRec, n, method(n, True))
    for n in ('take', 'repeat'):
        setattr(SRec, n, method(n, False))
    SRec.flatten = lambda self, order='C': self.copy().ravel()
    SRec.T = property(lambda self: self.transpose())
    SRec.nbytes = property(lambda self: self.size)
    SRec.compress = lambda self, c, axis=None: self[asarr(c)]
    SRec.fill = lambda self, v: self.__setitem__(Ellipsis, v)


record_methods()
