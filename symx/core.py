"""Symbolic values and the path explorer.

Numbers are Laurent polynomials with rational coefficients over *atoms*.  An atom is an input variable or a derived
quantity (square root, floor, sine, ...) that carries defining constraints and a numeric evaluator.
"""
import os
import traceback
import math
import random
import select
import sys
import time
from fractions import Fraction

import z3

# ---------------------------------------------------------------------------------------------------------------- #
# Control-flow exceptions are BaseException so that "except:" / "except Exception" of the code under test is harmless
# for "except Exception"; bare excepts are handled by the loader, which rewrites them.


class PathStop(BaseException):
    """The current path ends here (infeasible or pruned)."""


class Inconclusive(BaseException):
    """The engine cannot decide something on this path."""


class CheckFailed(BaseException):
    """Internal: stop after a confirmed violation."""


F0 = Fraction(0)
F1 = Fraction(1)


# ---------------------------------------------------------------------------------------------------------------- #
# Atoms


class Atom:
    __slots__ = ('id', 'key', 'name', 'sort', 'defs', 'evalf', 'nonneg', 'square', 'zvar', 'poly', 'lo', 'hi', 'deps')

    def __init__(self, id, key, name, sort):
        self.id = id
        self.key = key
        self.name = name
        self.sort = sort            # 'R' | 'I' | 'B'
        self.defs = []              # formulas
        self.evalf = None           # env -> float (None for inputs)
        self.nonneg = False
        self.square = None          # poly: atom**2 is rewritten to it
        self.poly = None            # poly: positive powers are expanded (named denominators)
        self.zvar = None
        self.lo = self.hi = None
        self.deps = ()

    def z(self):
        if self.zvar is None:
            n = '%s!%d' % (self.name, self.id)
            self.zvar = {'R': z3.Real, 'I': z3.Int, 'B': z3.Bool}[self.sort](n)
        return self.zvar


ATOMS = []
ATOM_BY_KEY = {}


def get_atom(key, name, sort):
    a = ATOM_BY_KEY.get(key)
    if a is not None:
        return a, False
    a = Atom(len(ATOMS), key, name, sort)
    ATOMS.append(a)
    ATOM_BY_KEY[key] = a
    return a, True


# ---------------------------------------------------------------------------------------------------------------- #
# Polynomials: dict {mono: Fraction}, mono = tuple of (atom id, exponent != 0) sorted by id


def p_const(c):
    c = Fraction(c)
    return {(): c} if c else {}


def p_atom(a):
    return {((a.id, 1),): F1}


def p_add(p, q):
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        n = r.get(m)
        if n is None:
            r[m] = c
        else:
            n = n + c
            if n:
                r[m] = n
            else:
                del r[m]
    return r


def p_neg(p):
    return {m: -c for m, c in p.items()}


def p_scale(p, k):
    if k == 0:
        return {}
    return {m: c * k for m, c in p.items()}


def p_sub(p, q):
    return p_add(p, p_neg(q))


def _merge(m, n):
    if not m:
        return n
    if not n:
        return m
    i = j = 0
    out = []
    while i < len(m) and j < len(n):
        a, b = m[i], n[j]
        if a[0] == b[0]:
            e = a[1] + b[1]
            if e:
                out.append((a[0], e))
            i += 1
            j += 1
        elif a[0] < b[0]:
            out.append(a)
            i += 1
        else:
            out.append(b)
            j += 1
    out.extend(m[i:])
    out.extend(n[j:])
    return tuple(out)


def p_mul(p, q):
    if not p or not q:
        return {}
    if len(p) == 1 and () in p:
        return p_scale(q, p[()])
    if len(q) == 1 and () in q:
        return p_scale(p, q[()])
    r = {}
    red = False
    for m, c in p.items():
        for n, d in q.items():
            k = _merge(m, n)
            v = r.get(k, F0) + c * d
            if v:
                r[k] = v
            elif k in r:
                del r[k]
    if len(r) > 20000:
        raise Inconclusive('polynomial too large')
    for k in r:
        if _reducible(k):
            red = True
            break
    return p_reduce(r) if red else r


def _reducible(mono):
    for i, e in mono:
        if e >= 1:
            a = ATOMS[i]
            if a.poly is not None or (e >= 2 and a.square is not None):
                return True
    return False


def p_reduce(p):
    out = {}
    work = [p]
    while work:
        p = work.pop()
        for m, c in p.items():
            hit = None
            for i, e in m:
                if e >= 1:
                    a = ATOMS[i]
                    if a.poly is not None:
                        hit = (i, e, a.poly, e)
                        break
                    if e >= 2 and a.square is not None:
                        hit = (i, e, a.square, e // 2)
                        break
            if hit is None:
                v = out.get(m, F0) + c
                if v:
                    out[m] = v
                elif m in out:
                    del out[m]
                continue
            i, e, q, k = hit
            rest = tuple(x for x in m if x[0] != i)
            left = 0 if ATOMS[i].poly is not None else e % 2
            base = {_merge(rest, ((i, left),)) if left else rest: c}
            for _ in range(k):
                nb = {}
                for mm, cc in base.items():
                    for n, d in q.items():
                        kk = _merge(mm, n)
                        v = nb.get(kk, F0) + cc * d
                        if v:
                            nb[kk] = v
                        elif kk in nb:
                            del nb[kk]
                base = nb
            if len(base) > 20000:
                raise Inconclusive('polynomial too large')
            work.append(base)
    return out


def p_key(p):
    return tuple(sorted(p.items()))


def p_pow(p, n):
    r = {(): F1}
    b = p
    while n:
        if n & 1:
            r = p_mul(r, b)
        n >>= 1
        if n:
            b = p_mul(b, b)
    return r


def p_atoms(p):
    s = set()
    for m in p:
        for i, e in m:
            s.add(i)
    return s


def p_integral(p):
    return all(c.denominator == 1 and all(e > 0 and ATOMS[i].sort in 'IB' for i, e in m) for m, c in p.items())


def known_sign(a):
    """sign of an atom (known to be nonzero) that the current path condition contains, else 0"""
    C = CTX
    if not C.known:
        return 0
    for q in ((p_atom(a), a.poly) if a.poly else (p_atom(a),)):
        if not q:
            continue
        f = f_cmp(q, '<0')
        k = C.known.get(f) if f.op not in 'TF' else f is TRUE
        if k is True:
            return -1
        g = f_cmp(p_neg(q), '<0')
        k2 = C.known.get(g) if g.op not in 'TF' else g is TRUE
        if k2 is True or (k is False and _nonzero(C, q)):
            return 1
        if k2 is False and _nonzero(C, q):
            return -1
        f = f_cmp(q, '<=0')
        if C.known.get(f) is False:
            return 1
        if C.known.get(f_cmp(p_neg(q), '<=0')) is False:
            return -1
    return 0


def _nonzero(C, q):
    f = f_cmp(q, '==0')
    return f is FALSE or C.known.get(f) is False


def p_clear(p):
    """Multiply by a positive quantity such that no negative exponents are left; returns an equi-signed polynomial."""
    for _ in range(200):
        neg = {}
        for m in p:
            for i, e in m:
                if e < 0:
                    neg[i] = min(neg.get(i, 0), e)
        if not neg:
            return p
        for i, e in neg.items():
            k = -e
            a = ATOMS[i]
            flip = False
            if not a.nonneg and k % 2:
                g = known_sign(a)
                if g == 0:
                    k += 1
                flip = g < 0
            # multiply by a**k > 0 (a != 0 is part of the path condition wherever 1/a occurs)
            q = {}
            for m, c in p.items():
                mm = _merge(m, ((i, k),))
                q[mm] = q.get(mm, F0) + (-c if flip else c)
            p = p_reduce({m: c for m, c in q.items() if c})
            break
    raise Inconclusive('could not clear denominators')


def p_sign(p):
    """Cheap sign bound: (known >= 0, known > 0, known <= 0, known < 0)."""
    ge = le = True
    gt = lt = False
    for m, c in p.items():
        nonneg = all(e % 2 == 0 or ATOMS[i].nonneg for i, e in m)
        if not nonneg:
            return (False,) * 4
        pos = all((e % 2 == 0 and e < 0) or (e < 0 and ATOMS[i].nonneg) or
                  (ATOMS[i].lo is not None and ATOMS[i].lo > 0) for i, e in m)
        if c > 0:
            le = False
            if pos:
                gt = True
        else:
            ge = False
            if pos:
                lt = True
    return (ge, ge and gt, le, le and lt)


_PSD = {}


def quad_psd(p):
    """is the polynomial of degree <= 2 (in its atoms, any dimension) non-negative everywhere? (exact LDL test)"""
    k = p_key(p)
    r = _PSD.get(k)
    if r is not None:
        return r
    _PSD[k] = r = _quad_psd(p)
    return r


def _quad_psd(p):
    idx = {}
    ent = {}
    for m, c in p.items():
        if any(e < 0 for i, e in m):
            return False
        vs = [i for i, e in m for _ in range(e)]
        if len(vs) > 2:
            return False
        while len(vs) < 2:
            vs.append(-1)
        for v in vs:
            idx.setdefault(v, len(idx))
        a, b = sorted(idx[v] for v in vs)
        ent[(a, b)] = ent.get((a, b), F0) + c
    n = len(idx)
    if n > 24:
        return False
    A = [[F0] * n for _ in range(n)]
    for (a, b), c in ent.items():
        if a == b:
            A[a][a] += c
        else:
            A[a][b] += c / 2
            A[b][a] += c / 2
    left = list(range(n))
    while left:
        piv = None
        for i in left:
            if A[i][i] < 0:
                return False
            if A[i][i] > 0 and piv is None:
                piv = i
        if piv is None:
            return all(A[i][j] == 0 for i in left for j in left)
        left.remove(piv)
        for i in left:
            if A[i][piv]:
                f = A[i][piv] / A[piv][piv]
                for j in left:
                    A[i][j] -= f * A[piv][j]
    return True


# ---------------------------------------------------------------------------------------------------------------- #
# Numeric evaluation (hints only)


class Env(dict):
    """atom id -> float; missing input values are taken from base (by name) or drawn at random."""
    rng = random.Random(0)
    base = None

    def atom(self, i):
        v = self.get(i)
        if v is None:
            a = ATOMS[i]
            if a.evalf is None:
                v = self.draw(a)
            else:
                try:
                    v = a.evalf(self)
                except (ValueError, OverflowError, ZeroDivisionError):
                    v = float('nan')
            self[i] = v
        return v

    def draw(self, a):
        if self.base is not None and a.name in self.base:
            return self.base[a.name]
        r = self.rng
        if a.sort == 'B':
            return r.random() < .5
        lo, hi = a.lo, a.hi
        if a.sort == 'I':
            lo = -3 if lo is None else lo
            hi = lo + 8 if hi is None else hi
            return r.randint(int(math.ceil(lo)), int(math.floor(hi)))
        if lo is None and hi is None:
            return r.choice((r.uniform(-3, 3), r.uniform(-1, 1), r.uniform(-20, 20), float(r.randint(-3, 3))))
        if lo is None:
            lo = hi - 10
        if hi is None:
            hi = lo + r.choice((1, 10, 10, 100))
        return r.uniform(float(lo), float(hi))

    def named(self):
        """input values by name"""
        out = dict(self.base) if self.base else {}
        for i, v in self.items():
            if ATOMS[i].evalf is None:
                out[ATOMS[i].name] = v
        return out

    def poly(self, p):
        """-> (value, magnitude)"""
        s = 0.0
        mag = 0.0
        for m, c in p.items():
            t = float(c)
            for i, e in m:
                try:
                    t *= float(self.atom(i)) ** e
                except (ZeroDivisionError, OverflowError):
                    return float('nan'), float('nan')
            s += t
            mag += abs(t)
        return s, mag


# ---------------------------------------------------------------------------------------------------------------- #
# Formulas.  Tuples: ('T',) ('F',) ('<0', poly, key) ('<=0', ..) ('==0', ..) ('b', atom id) ('not', f) ('and', fs) ('or', fs)


class Fm:
    __slots__ = ('op', 'args', 'key', '_atoms', '_z', '_zl')
    table = {}

    def __new__(cls, op, args, key):
        k = (op, key)
        f = cls.table.get(k)
        if f is None:
            f = object.__new__(cls)
            f.op = op
            f.args = args
            f.key = key
            f._atoms = None
            f._z = None
            f._zl = None
            cls.table[k] = f
        return f

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o

    def atoms(self):
        if self._atoms is None:
            if self.op in ('<0', '<=0', '==0'):
                self._atoms = frozenset(p_atoms(self.args))
            elif self.op == 'b':
                self._atoms = frozenset((self.args,))
            elif self.op in ('T', 'F'):
                self._atoms = frozenset()
            else:
                s = set()
                for a in self.args:
                    s |= a.atoms()
                self._atoms = frozenset(s)
        return self._atoms

    def z(self):
        if self._z is None:
            op = self.op
            if op == 'T':
                r = z3.BoolVal(True)
            elif op == 'F':
                r = z3.BoolVal(False)
            elif op == 'b':
                r = ATOMS[self.args].z()
            elif op == 'not':
                r = z3.Not(self.args[0].z())
            elif op == 'and':
                r = z3.And(*[a.z() for a in self.args])
            elif op == 'or':
                r = z3.Or(*[a.z() for a in self.args])
            else:
                l, rr = z_sides(self.args)
                r = l < rr if op == '<0' else l <= rr if op == '<=0' else l == rr
            self._z = r
        return self._z

    def zl(self):
        """linear abstraction: every non-linear monomial is an independent variable (weaker, so unsat carries over)"""
        if self._zl is None:
            op = self.op
            if op in ('T', 'F', 'b'):
                r = self.z()
            elif op == 'not':
                r = z3.Not(self.args[0].zl())
            elif op == 'and':
                r = z3.And(*[a.zl() for a in self.args])
            elif op == 'or':
                r = z3.Or(*[a.zl() for a in self.args])
            else:
                l = lin_sum(self.args)
                r = l < 0 if op == '<0' else l <= 0 if op == '<=0' else l == 0
            self._zl = r
        return self._zl

    def size(self):
        return 1 + sum(a.size() for a in self.args) if self.op in ('and', 'or', 'not') else 1

    def show(self):
        if self.op in ('<0', '<=0', '==0'):
            return '%s %s 0' % (show_poly(self.args), self.op[:-1])
        if self.op == 'b':
            return ATOMS[self.args].name
        if self.op in ('T', 'F'):
            return self.op
        return '(%s %s)' % (self.op, ' '.join(a.show() for a in self.args))


MONO_VAR = {}


def lin_sum(p):
    ts = []
    for m, c in sorted(p.items()):
        if not m:
            ts.append(z3.RealVal(c))
            continue
        if len(m) == 1 and m[0][1] == 1:
            a = ATOMS[m[0][0]]
            v = a.z()
            if a.sort == 'I':
                v = z3.ToReal(v)
            elif a.sort == 'B':
                v = z3.If(v, z3.RealVal(1), z3.RealVal(0))
        else:
            v = MONO_VAR.get(m)
            if v is None:
                v = MONO_VAR[m] = z3.Real('m!%d' % len(MONO_VAR))
        ts.append(v if c == 1 else z3.RealVal(c) * v)
    return z3.Sum(ts) if len(ts) > 1 else ts[0] if ts else z3.RealVal(0)


def lin_monos(fs):
    out = set()
    for f in fs:
        if f.op in ('<0', '<=0', '==0'):
            out.update(m for m in f.args if sum(abs(e) for i, e in m) > 1)
        elif f.op in ('and', 'or', 'not'):
            out |= lin_monos(f.args)
    return out


def lin_unsat(fs, ms):
    s = z3.Solver()
    for f in fs:
        s.add(f.zl())
    for m in lin_monos(fs):
        if all(e % 2 == 0 or ATOMS[i].nonneg for i, e in m):
            s.add(MONO_VAR[m] >= 0)
    r = _run(s, ms)
    return r == z3.unsat


def z_sides(p):
    ids = p_atoms(p)
    if ids and all(ATOMS[i].sort == 'I' for i in ids):
        l = 1
        for c in p.values():
            l = l * c.denominator // math.gcd(l, c.denominator)
        return z_sum(p_scale(p, Fraction(l)), True), z3.IntVal(0)
    return z_sum(p, False), z3.RealVal(0)


def z_sum(p, ints):
    ts = []
    for m, c in sorted(p.items()):
        fs = []
        for i, e in m:
            v = ATOMS[i].z()
            if ATOMS[i].sort == 'I' and not ints:
                v = z3.ToReal(v)
            elif ATOMS[i].sort == 'B':
                v = z3.If(v, z3.RealVal(1), z3.RealVal(0)) if not ints else z3.If(v, z3.IntVal(1), z3.IntVal(0))
            assert e > 0
            fs.extend([v] * e)
        k = z3.IntVal(int(c)) if ints else z3.RealVal(c)
        if not fs:
            ts.append(k)
        else:
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            ts.append(t if c == 1 else k * t)
    if not ts:
        return z3.IntVal(0) if ints else z3.RealVal(0)
    return ts[0] if len(ts) == 1 else z3.Sum(ts)


def show_poly(p):
    if not p:
        return '0'
    out = []
    for m, c in sorted(p.items()):
        s = '*'.join(ATOMS[i].name + ('' if e == 1 else '^%d' % e) for i, e in m)
        cs = str(c) if c.denominator < 10 ** 6 else '%.6g' % float(c)
        out.append(cs if not s else s if c == 1 else cs + '*' + s)
        if len(out) > 12:
            out.append('...')
            break
    return ' + '.join(out)


TRUE = Fm('T', (), ())
FALSE = Fm('F', (), ())


def p_degree(p):
    return max(sum(e for _, e in m) for m in p)


def p_quotient(p, q):
    """p / q if the division leaves no remainder (non-negative exponents), else None"""
    order = lambda m: tuple((-i, e) for i, e in m)
    lead = max(q, key=order)
    inv = tuple((i, -e) for i, e in lead)
    rest, out = dict(p), {}
    while rest:
        m = max(rest, key=order)
        k = _merge(m, inv)
        if any(e < 0 for _, e in k) or len(out) > len(p):
            return None
        c = rest[m] / q[lead]
        out[k] = c
        for n, d in q.items():
            n = _merge(n, k)
            v = rest.get(n, F0) - c * d
            if v:
                rest[n] = v
            else:
                rest.pop(n, None)
        if len(rest) > 4 * len(p):
            return None
    return out


def _factored(p, op):
    """p compared with 0, without the factors that the path condition knows to be different from 0"""
    n = p_degree(p)
    if n < 3 or any(e < 0 for m in p for _, e in m):
        return None
    ids = set(p_atoms(p))
    for q, sign in list(CTX.factors.values()):
        if len(q) >= len(p) or p_degree(q) >= n or not ids.issuperset(p_atoms(q)):
            continue
        r = p_quotient(p, q)
        if r is None:
            continue
        if op == '==0':
            return f_cmp(r, op)
        if sign:
            return f_cmp(p_neg(r) if sign < 0 else r, op)
        return f_or(f_and(f_cmp(p_neg(q), '<0'), f_cmp(r, op)), f_and(f_cmp(q, '<0'), f_cmp(p_neg(r), op)))
    return None


def f_cmp(p, op):
    """op in '<0' '<=0' '==0' ; p arbitrary Laurent polynomial."""
    p = p_clear(p)
    if not p:
        return TRUE if op in ('<=0', '==0') else FALSE
    if len(p) == 1 and () in p:
        c = p[()]
        return TRUE if (op == '<0' and c < 0) or (op == '<=0' and c <= 0) else FALSE
    ge, gt, le, lt = p_sign(p)
    if op == '<0':
        if ge:
            return FALSE
        if lt:
            return TRUE
    elif op == '<=0':
        if gt:
            return FALSE
        if le:
            return TRUE
    elif gt or lt:
        return FALSE
    # normalise scale
    items = sorted(p.items())
    lead = items[-1][1]
    k = abs(lead) if op != '==0' else lead
    if k != 1:
        p = p_scale(p, 1 / k)
    if len(p) > 5 and CTX is not None and CTX.factors:
        g = _factored(p, op)
        if g is not None:
            return g
    # a single monomial: x^(2k) == 0 <-> x == 0 ...
    if op == '==0' and len(p) == 1:
        (m, c), = p.items()
        fs = [Fm('==0', {((i, 1),): F1}, ((((i, 1),), F1),)) for i, e in m]
        return f_or(*fs) if len(fs) > 1 else fs[0]
    return Fm(op, p, p_key(p))


def f_not(f):
    if f is TRUE:
        return FALSE
    if f is FALSE:
        return TRUE
    if f.op == 'not':
        return f.args[0]
    if f.op == '<0':
        return f_cmp(p_neg(f.args), '<=0')
    if f.op == '<=0':
        return f_cmp(p_neg(f.args), '<0')
    if f.op == 'and':
        return f_or(*[f_not(a) for a in f.args])
    if f.op == 'or':
        return f_and(*[f_not(a) for a in f.args])
    return Fm('not', (f,), id(f))


def f_and(*fs):
    out = []
    for f in fs:
        if f is FALSE:
            return FALSE
        if f is TRUE:
            continue
        if f.op == 'and':
            for g in f.args:
                if g not in out:
                    out.append(g)
        elif f not in out:
            out.append(f)
    for f in out:
        if f_not(f) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return Fm('and', tuple(out), tuple(id(f) for f in out))


def f_or(*fs):
    out = []
    for f in fs:
        if f is TRUE:
            return TRUE
        if f is FALSE:
            continue
        if f.op == 'or':
            for g in f.args:
                if g not in out:
                    out.append(g)
        elif f not in out:
            out.append(f)
    for f in out:
        if f.op != 'and' and f.op != 'or' and f_not(f) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return Fm('or', tuple(out), tuple(id(f) for f in out))


def f_iff(a, b):
    return f_or(f_and(a, b), f_and(f_not(a), f_not(b)))


def f_implies(a, b):
    return f_or(f_not(a), b)


def f_eval(f, env, tol=1e-7):
    """True / False / None (too close to call)."""
    op = f.op
    if op == 'T':
        return True
    if op == 'F':
        return False
    if op == 'b':
        return bool(env.atom(f.args))
    if op == 'not':
        v = f_eval(f.args[0], env, tol)
        return None if v is None else not v
    if op == 'and':
        res = True
        for a in f.args:
            v = f_eval(a, env, tol)
            if v is False:
                return False
            if v is None:
                res = None
        return res
    if op == 'or':
        res = False
        for a in f.args:
            v = f_eval(a, env, tol)
            if v is True:
                return True
            if v is None:
                res = None
        return res
    v, mag = env.poly(f.args)
    if v != v or math.isinf(mag):
        return None
    ints = all(ATOMS[i].sort in 'IB' for i in f.atoms())
    if ints and mag < 2 ** 50:
        return v < 0 if op == '<0' else v <= 0 if op == '<=0' else v == 0
    if abs(v) <= tol * max(mag, 1e-12):
        if v == 0 and mag == 0:
            return op != '<0'
        return None
    if op == '==0':
        return False
    return v < 0


def f_margin(f, eps, positive):
    """Strengthened f (positive) or strengthened not f: true only if robustly so."""
    op = f.op
    if op in ('T', 'F', 'b'):
        return f if positive else f_not(f)
    if op == 'not':
        return f_margin(f.args[0], eps, not positive)
    if op == 'and':
        return (f_and if positive else f_or)(*[f_margin(a, eps, positive) for a in f.args])
    if op == 'or':
        return (f_or if positive else f_and)(*[f_margin(a, eps, positive) for a in f.args])
    p = f.args
    if all(ATOMS[i].sort in 'IB' for i in f.atoms()):
        return f if positive else f_not(f)
    # scale: normalise by the largest coefficient
    s = max(abs(c) for c in p.values())
    e = Fraction(eps) * s
    if op in ('<0', '<=0'):
        if positive:
            return f_cmp(p_add(p, p_const(e)), '<=0')
        return f_cmp(p_sub(p_const(e), p), '<=0')
    if positive:
        return f
    return f_or(f_cmp(p_add(p, p_const(e)), '<=0'), f_cmp(p_sub(p_const(e), p), '<=0'))


# ---------------------------------------------------------------------------------------------------------------- #
# Values


def is_sym(x):
    return isinstance(x, (SymNum, SymBool))


def as_poly(x):
    """poly of a finite real number or SymNum, else None."""
    if isinstance(x, SymNum):
        return x.p
    if isinstance(x, SymBool):
        return x.as_num().p
    if isinstance(x, bool):
        return p_const(int(x))
    if isinstance(x, int):
        return p_const(x)
    if isinstance(x, Fraction):
        return p_const(x)
    if getattr(x, '_is_sarr', False):
        return None
    try:
        f = float(x)
    except (TypeError, ValueError):
        return None
    if f != f or f in (math.inf, -math.inf):
        return None
    return p_const(Fraction(f))


def _isint(x):
    if isinstance(x, SymNum):
        return x.isint
    if isinstance(x, (bool, SymBool)):
        return True
    if isinstance(x, int):
        return True
    return type(x).__name__ in ('int64', 'int32', 'int8', 'int16', 'uint8', 'uint64', 'bool_', 'bool')


def const_of(x):
    """Fraction if x is a constant SymNum or a finite number."""
    p = as_poly(x)
    if p is None:
        return None
    if not p:
        return F0
    if len(p) == 1 and () in p:
        return p[()]
    return None


def mk(p, isint=False):
    return SymNum(p, isint)


class SymNum:
    __slots__ = ('p', 'isint')
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, p, isint=False):
        self.p = p
        self.isint = isint

    # -- conversions
    def _const(self):
        if not self.p:
            return F0
        if len(self.p) == 1 and () in self.p:
            return self.p[()]
        return None

    def __repr__(self):
        c = self._const()
        if c is not None:
            return str(int(c)) if self.isint else repr(float(c))
        return '<%s>' % show_poly(self.p)

    def __format__(self, spec):
        c = self._const()
        if c is not None:
            return format(int(c) if self.isint else float(c), spec)
        if self.isint and spec:
            return format(int(CTX.pick(self)), spec)
        return repr(self)

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        if not self.isint:
            raise TypeError('float object cannot be interpreted as an integer')
        return CTX.pick(self)

    def __int__(self):
        c = self._const()
        if c is not None:
            return int(c)
        return CTX.pick(trunc(self))

    def __float__(self):
        c = self._const()
        if c is not None:
            return float(c)
        if self.isint:
            return float(CTX.pick(self))
        if os.environ.get('SYMX_TB'):
            traceback.print_stack()
        raise Inconclusive('float() of a symbolic number at a native boundary')

    def __hash__(self):
        c = self._const()
        if c is not None:
            return hash(int(c) if c.denominator == 1 else float(c))
        if self.isint or p_integral(self.p):
            return hash(CTX.pick(self))
        # realising a real number would lose generality; distinct representations hash alike and __eq__ decides
        return 0

    # -- arithmetic
    def __neg__(self):
        return mk(p_neg(self.p), self.isint)

    def __pos__(self):
        return self

    def __abs__(self):
        if self >= 0:
            return self
        return -self

    def __add__(self, o):
        q = as_poly(o)
        if q is None:
            return nonfinite(o, lambda: o)
        return mk(p_add(self.p, q), self.isint and _isint(o))

    __radd__ = __add__

    def __sub__(self, o):
        q = as_poly(o)
        if q is None:
            return nonfinite(o, lambda: -o)
        return mk(p_sub(self.p, q), self.isint and _isint(o))

    def __rsub__(self, o):
        q = as_poly(o)
        if q is None:
            return nonfinite(o, lambda: o)
        return mk(p_sub(q, self.p), self.isint and _isint(o))

    def __mul__(self, o):
        q = as_poly(o)
        if q is None:
            return nonfinite(o, lambda: _mul_inf(self, o))
        return mk(p_mul(self.p, q), self.isint and _isint(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return divide(self, o)

    def __rtruediv__(self, o):
        return divide(o, self)

    def __floordiv__(self, o):
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        return floordiv(o, self)

    def __mod__(self, o):
        return modulo(self, o)

    def __rmod__(self, o):
        return modulo(o, self)

    def __divmod__(self, o):
        return floordiv(self, o), modulo(self, o)

    def __rdivmod__(self, o):
        return floordiv(o, self), modulo(o, self)

    def __pow__(self, o):
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    def __round__(self, n=None):
        if n is None:
            if self.isint:
                return self
            f = floor(self)
            d = self - f
            if d < 0.5:
                return f
            if d > 0.5:
                return f + 1
            return f if (f % 2) == 0 else f + 1
        k = 10 ** int(n) if n >= 0 else Fraction(1, 10 ** int(-n))
        return num(round(self * k)) / k

    def __trunc__(self):
        return trunc(self)

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return -floor(-self)

    def __and__(self, o):
        if self.isint:
            return CTX.pick(self) & o
        return NotImplemented

    # -- comparison
    def _cmp(self, o, swap, op):
        q = as_poly(o)
        if q is None:
            return None
        d = p_sub(q, self.p) if swap else p_sub(self.p, q)
        f = f_cmp(d, op)
        if op != '==0' and len(f.args) > 1:
            # a quantity compared with a constant: remember what follows for its sign
            c = d_const(q)
            big, lim, sure = (self.p, c, swap) if c is not None else (q, d_const(self.p), not swap)
            if lim is not None and big:
                pos = lim > 0 or (lim == 0 and op == '<0')
                if sure:              # big > lim (or >=)
                    if pos:
                        CTX.hints.setdefault(f, big)
                elif lim > 0 or (lim == 0 and op == '<=0'):       # not (big < lim)
                    CTX.hints.setdefault(f_not(f), big)
        return mkbool(f)

    def __lt__(self, o):
        r = self._cmp(o, False, '<0')
        return r if r is not None else _cmp_inf(o, o == math.inf)

    def __le__(self, o):
        r = self._cmp(o, False, '<=0')
        return r if r is not None else _cmp_inf(o, o == math.inf)

    def __gt__(self, o):
        r = self._cmp(o, True, '<0')
        return r if r is not None else _cmp_inf(o, o == -math.inf)

    def __ge__(self, o):
        r = self._cmp(o, True, '<=0')
        return r if r is not None else _cmp_inf(o, o == -math.inf)

    def __eq__(self, o):
        if o is self:
            return True
        if not isinstance(o, (int, float, SymNum, SymBool, Fraction)) and as_poly_safe(o) is None:
            return False if not hasattr(o, '__array__') and not hasattr(o, 'idx') else NotImplemented
        r = self._cmp(o, False, '==0')
        return r if r is not None else False

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return not r if isinstance(r, bool) else ~r

    # numpy scalar look-alike
    shape = ()
    ndim = 0
    size = 1

    def item(self):
        return self

    def astype(self, dt):
        from . import snp
        return snp.cast_scalar(self, snp.kind_of(dt))

    def copy(self):
        return self

    @property
    def T(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def is_integer(self):
        return floor(self) == self

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def sum(self):
        return self

    def max(self):
        return self

    min = max

    def sqrt(self):
        return sqrt(self)


def d_const(p):
    return F0 if not p else p[()] if len(p) == 1 and () in p else None


def as_poly_safe(o):
    try:
        return as_poly(o)
    except Exception:
        return None


def _cmp_inf(o, v):
    try:
        f = float(o)
    except (TypeError, ValueError):
        return NotImplemented
    return bool(v) if f == f else False


def nonfinite(o, th):
    if getattr(o, '_is_sarr', False):
        return NotImplemented
    try:
        f = float(o)
    except (TypeError, ValueError):
        return NotImplemented
    if f != f:
        return float('nan')
    return th()


def _mul_inf(x, o):
    if x > 0:
        return float(o)
    if x < 0:
        return -float(o)
    return float('nan')


class SymBool:
    __slots__ = ('f',)
    __array_ufunc__ = None
    __array_priority__ = 1000
    shape = ()
    ndim = 0

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return CTX.branch(self.f)

    def __repr__(self):
        return 'SymBool(%s)' % self.f.show()

    def __invert__(self):
        return mkbool(f_not(self.f))

    def __and__(self, o):
        g = as_formula(o)
        return NotImplemented if g is None else mkbool(f_and(self.f, g))

    __rand__ = __and__

    def __or__(self, o):
        g = as_formula(o)
        return NotImplemented if g is None else mkbool(f_or(self.f, g))

    __ror__ = __or__

    def __xor__(self, o):
        g = as_formula(o)
        return NotImplemented if g is None else mkbool(f_not(f_iff(self.f, g)))

    __rxor__ = __xor__

    def __eq__(self, o):
        g = as_formula(o)
        if g is None:
            return self.as_num() == o if isinstance(o, (int, float, SymNum)) else False
        return mkbool(f_iff(self.f, g))

    def __ne__(self, o):
        r = self.__eq__(o)
        return not r if isinstance(r, bool) else ~r

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def as_num(self):
        if self.f.op == 'b':
            return mk({((self.f.args, 1),): F1}, True)
        a, new = get_atom(('ite', self.f), 'b2i', 'I')
        if new:
            f = self.f
            x = p_atom(a)
            a.lo, a.hi = 0, 1
            a.nonneg = True
            one = f_cmp(p_sub(x, p_const(1)), '==0')
            zero = Fm('==0', x, p_key(x))
            a.defs = [f_or(f_and(f, one), f_and(f_not(f), zero))]
            a.deps = tuple(f.atoms())
            a.evalf = lambda env: {True: 1, False: 0, None: float('nan')}[f_eval(f, env)]
        return mk(p_atom(a), True)

    def __add__(self, o):
        return self.as_num() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self.as_num() - o

    def __rsub__(self, o):
        return o - self.as_num()

    def __mul__(self, o):
        return self.as_num() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self.as_num() < o

    def __gt__(self, o):
        return self.as_num() > o

    def __le__(self, o):
        return self.as_num() <= o

    def __ge__(self, o):
        return self.as_num() >= o

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def item(self):
        return self


def as_formula(o):
    if isinstance(o, SymBool):
        return o.f
    if isinstance(o, bool):
        return TRUE if o else FALSE
    if type(o).__name__ in ('bool_', 'bool'):
        return TRUE if bool(o) else FALSE
    return None


def mkbool(f):
    if f is TRUE:
        return True
    if f is FALSE:
        return False
    return SymBool(f)


# ---------------------------------------------------------------------------------------------------------------- #
# Operations


def num(x):
    """Lift to SymNum (finite) or return as is."""
    if isinstance(x, SymNum):
        return x
    if isinstance(x, SymBool):
        return x.as_num()
    p = as_poly(x)
    return mk(p, _isint(x)) if p is not None else x


def simplify_den(p):
    """p = k * mono * q, with q primitive.  Returns (k, mono, q)"""
    items = sorted(p.items())
    mins = None
    for m, c in items:
        d = dict(m)
        if mins is None:
            mins = d
        else:
            mins = {i: min(e, d.get(i, 0)) for i, e in mins.items() if i in d or e < 0}
            for i, e in d.items():
                if e < 0 and i not in mins:
                    mins[i] = e
    mono = tuple(sorted((i, e) for i, e in (mins or {}).items() if e))
    inv = tuple((i, -e) for i, e in mono)
    q = {_merge(m, inv): c for m, c in items}
    lead = q[max(q)]
    q = {m: c / lead for m, c in q.items()}
    return lead, mono, q


def p_inv(p):
    """Laurent polynomial of 1/p (p known nonzero)."""
    k, mono, q = simplify_den(p)
    out = {tuple((i, -e) for i, e in mono): 1 / k}
    if len(q) == 1:
        (m, c), = q.items()
        out = {_merge(mm, tuple((i, -e) for i, e in m)): cc / c for mm, cc in out.items()}
    else:
        qc = p_reduce(q) if any(_reducible(m) for m in q) else q
        a, new = get_atom(('den', p_key(qc)), 'den', 'R')
        if new:
            a.poly = qc
            a.deps = tuple(p_atoms(qc))
            a.evalf = lambda env, qc=qc: env.poly(qc)[0]
            ge, gt, le, lt = p_sign(qc)
            if ge:
                a.nonneg = True
        out = {_merge(mm, ((a.id, -1),)): cc for mm, cc in out.items()}
    r = {}
    for m, c in out.items():
        r[m] = c
    if any(_reducible(m) for m in r):
        r = p_reduce(r)
    return r


def divide(a, b):
    if getattr(b, '_is_sarr', False) or getattr(a, '_is_sarr', False):
        return NotImplemented
    pb = as_poly(b)
    pa = as_poly(a)
    if pb is None:
        f = None
        try:
            f = float(b)
        except (TypeError, ValueError):
            return NotImplemented
        if f != f or pa is None:
            return float('nan')
        return 0.0
    if pa is None:
        try:
            f = float(a)
        except (TypeError, ValueError):
            return NotImplemented
        if f != f:
            return float('nan')
        return _mul_inf(num(b), f) if num(b) != 0 else f
    n = 1
    if CTX.pows and len(pb) > 1:
        pb, n = CTX.pows.get(p_key(pb), (pb, 1))
    z = mkbool(f_cmp(pb, '==0'))
    if z is True or (z is not False and bool(z)):
        # numpy semantics (round-to-nearest zero is taken as +0)
        if not pa or bool(mkbool(f_cmp(pa, '==0'))):
            return float('nan')
        return math.inf if bool(mkbool(f_cmp(p_neg(pa), '<0'))) else -math.inf
    q = p_inv(pb)
    for _ in range(n):
        pa = p_mul(pa, q)
    return mk(pa, False)


def exact_div(a, b):
    """a/b for b already known nonzero"""
    return mk(p_mul(as_poly(a), p_inv(as_poly(b))), False)


def floor(x):
    x = num(x)
    if not isinstance(x, SymNum):
        return x
    if x.isint:
        return x
    c = x._const()
    if c is not None:
        return mk(p_const(math.floor(c)), True)
    p = x.p
    # split integer-valued part: coefficients that are integers on integer atoms
    ip = {m: c for m, c in p.items() if c.denominator == 1 and all(ATOMS[i].sort in 'IB' and e > 0 for i, e in m)}
    rp = {m: c for m, c in p.items() if m not in ip}
    if not rp:
        return mk(ip, True)
    a, new = get_atom(('floor', p_key(rp)), 'floor', 'I')
    if new:
        q = p_atom(a)
        d = p_sub(rp, q)          # 0 <= d < 1
        a.deps = tuple(p_atoms(rp))
        a.defs = [f_cmp(p_neg(d), '<=0'), f_cmp(p_sub(d, p_const(1)), '<0')]
        def ev(env, rp=rp):
            v, mag = env.poly(rp)
            if v != v:
                return v
            return math.floor(v)
        a.evalf = ev
    return mk(p_add(ip, p_atom(a)), True)


def trunc(x):
    x = num(x)
    if not isinstance(x, SymNum) or x.isint:
        return x
    if x >= 0:
        return floor(x)
    return -floor(-x)


def floordiv(a, b):
    a, b = num(a), num(b)
    if not isinstance(a, SymNum) or not isinstance(b, SymNum):
        r = divide(a, b)
        return floor_any(r)
    isint = a.isint and b.isint
    if b == 0:
        if isint:
            raise ZeroDivisionError('integer division or modulo by zero')
        if a == 0:
            return float('nan')
        return math.inf if a > 0 else -math.inf
    if isint:
        cb = b._const()
        q = floor(mk(p_mul(a.p, p_inv(b.p)), False))
        return mk(q.p, True)
    q = floor(exact_div(a, b))
    return mk(q.p, False)


def floor_any(r):
    if isinstance(r, SymNum):
        return floor(r)
    return math.floor(r) if r == r and abs(r) != math.inf else r


def modulo(a, b):
    a, b = num(a), num(b)
    if not isinstance(a, SymNum) or not isinstance(b, SymNum):
        return float('nan')
    q = floordiv(a, b)
    if not isinstance(q, SymNum):
        return float('nan')
    return mk(p_sub(a.p, p_mul(b.p, q.p)), a.isint and b.isint)


def psd_square_root(p):
    """If p is the square of a monomial with rational coefficient: return (coef, mono)"""
    if len(p) != 1:
        return None
    (m, c), = p.items()
    if c <= 0 or any(e % 2 for i, e in m):
        return None
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n != c.numerator or d * d != c.denominator:
        return None
    return Fraction(n, d), tuple((i, e // 2) for i, e in m)


def linear_square_root(p):
    """If p is the square of a linear polynomial in plain atoms: return that polynomial"""
    if not 3 <= len(p) <= 15:
        return None
    lead = None
    root = {}
    for m, c in p.items():
        d = sum(e for i, e in m)
        if any(e < 1 for i, e in m) or d > 2:
            return None
        if len(m) == 1 and m[0][1] == 2 or not m:
            if c < 0:
                return None
            n, q = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n != c.numerator or q * q != c.denominator:
                return None
            k = ((m[0][0], 1),) if m else ()
            root[k] = Fraction(n, q)
            if m and lead is None:
                lead = m[0][0]
    if lead is None:
        return None
    for k in root:
        if k != ((lead, 1),):
            mm = _merge(((lead, 1),), k) if k else ((lead, 1),)
            if p.get(mm, F0) < 0:
                root[k] = -root[k]
    return root if p_mul(root, root) == p else None


def sqrt(x, known_nonneg=False):
    if not isinstance(x, (SymNum, SymBool)):
        try:
            f = float(x)
        except (TypeError, ValueError):
            raise TypeError('sqrt of %r' % (x,))
        return math.sqrt(f) if f >= 0 else float('nan')
    x = num(x)
    c = x._const()
    if c is not None:
        if c < 0:
            return float('nan')
        r = psd_square_root(x.p) if c else None
        if c == 0:
            return mk({})
        if r:
            return mk(p_const(r[0]))
        return CTX.const_sqrt(c)
    if not known_nonneg and not quad_psd(x.p) and x < 0:
        return float('nan')
    r = psd_square_root(x.p)
    if r is not None:
        return abs(mk({r[1]: r[0]}))
    r = linear_square_root(x.p)
    if r is not None:
        return abs(mk(r))
    p = x.p
    # pull out a square content: sqrt(k^2 m^2 q) = |k m| sqrt(q) is skipped; only clear denominators
    pc = p
    outer = {(): F1}
    for _ in range(20):
        neg = {}
        for m in pc:
            for i, e in m:
                if e < 0:
                    neg[i] = min(neg.get(i, 0), e)
        if not neg:
            break
        i, e = sorted(neg.items())[0]
        k = -e + (-e) % 2
        q = {}
        for m, cc in pc.items():
            mm = _merge(m, ((i, k),))
            q[mm] = q.get(mm, F0) + cc
        pc = p_reduce(q)
        o = abs(mk({((i, k // 2),): F1})) if not ATOMS[i].poly else abs(mk(p_pow(ATOMS[i].poly, k // 2)))
        outer = p_mul(outer, p_inv(o.p))
        pr = psd_square_root(pc)
        if pr:
            return mk(p_mul(outer, abs(mk({pr[1]: pr[0]})).p))
        if not pc:
            return mk({})
        if len(pc) == 1 and () in pc:
            return mk(p_mul(outer, as_poly(sqrt(mk(pc)))))
    a, new = get_atom(('sqrt', p_key(pc)), 'sqrt', 'R')
    if new:
        a.nonneg = True
        a.square = pc
        a.deps = tuple(p_atoms(pc))
        s = p_atom(a)
        sq = {((a.id, 2),): F1}
        eq = p_sub(sq, pc)
        a.defs = [Fm('<=0', p_neg(s), p_key(p_neg(s))), Fm('==0', eq, p_key(eq))]
        a.evalf = lambda env, pc=pc: math.sqrt(max(env.poly(pc)[0], 0.0)) if env.poly(pc)[0] > -1e-9 else float('nan')
    return mk(p_mul(outer, p_atom(a)))


def hypot(x, y):
    if not is_sym(x) and not is_sym(y):
        return math.hypot(x, y)
    nx, ny = num(x), num(y)
    if not isinstance(nx, SymNum) or not isinstance(ny, SymNum):
        for v in (x, y):
            if not is_sym(v) and abs(v) == math.inf:
                return math.inf
        return float('nan')
    return sqrt(nx * nx + ny * ny, True)


def _lead_neg(p):
    return bool(p) and p[max(p)] < 0


def _snap(v):
    for w in (0.0, 1.0, -1.0):
        if abs(v - w) < 4e-15:
            return w
    return v


def trig(x):
    """(cos, sin) of x"""
    x = num(x)
    if not isinstance(x, SymNum):
        return (float('nan'),) * 2
    c = x._const()
    if c is not None:
        return _snap(math.cos(float(c))), _snap(math.sin(float(c)))
    p = x.p
    sgn = 1
    if _lead_neg(p):
        p = p_neg(p)
        sgn = -1
    # arctan2 atoms know their own cos/sin
    if len(p) == 1:
        (m, k), = p.items()
        if k == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].key[0] == 'atan2':
            C, Sn = ATAN2_CS[m[0][0]]
            return C, Sn * sgn
    key = p_key(p)
    a, new = get_atom(('cos', key), 'cos', 'R')
    b, newb = get_atom(('sin', key), 'sin', 'R')
    if new:
        a.lo, a.hi, b.lo, b.hi = -1, 1, -1, 1
        # cos^2 -> 1 - sin^2
        a.square = {(): F1, ((b.id, 2),): Fraction(-1)}
        one = {((a.id, 2),): F1, ((b.id, 2),): F1, (): Fraction(-1)}
        eq = Fm('==0', one, p_key(one))
        rng = []
        for t in (a, b):
            x_ = p_atom(t)
            rng += [Fm('<=0', p_sub(x_, p_const(1)), p_key(p_sub(x_, p_const(1)))),
                    Fm('<=0', p_sub(p_neg(x_), p_const(1)), p_key(p_sub(p_neg(x_), p_const(1))))]
        a.defs = [eq] + rng
        b.defs = [eq]
        a.deps = (b.id,)
        b.deps = (a.id,)
        a.evalf = lambda env, p=p: math.cos(env.poly(p)[0])
        b.evalf = lambda env, p=p: math.sin(env.poly(p)[0])
    return mk(p_atom(a)), mk(p_atom(b)) * sgn


ATAN2_CS = {}
PI = Fraction(math.pi)


def atan2(y, x):
    if not is_sym(x) and not is_sym(y):
        return math.atan2(y, x)
    y, x = num(y), num(x)
    if not isinstance(x, SymNum) or not isinstance(y, SymNum):
        raise Inconclusive('arctan2 of a non-finite value')
    # arctan2 is invariant under positive scaling: decide special directions by forking
    if x == 0:
        if y == 0:
            return 0.0
        return math.pi / 2 if y > 0 else -math.pi / 2
    if y == 0:
        return 0.0 if x > 0 else math.pi
    # cosine/sine of a plain angle?
    a, new = get_atom(('atan2', p_key(y.p), p_key(x.p)), 'atan2', 'R')
    if new:
        t = p_atom(a)
        up = f_cmp(p_neg(y.p), '<0')
        def between(lo, hi):
            return f_and(f_cmp(p_sub(p_const(lo), t), '<0'), f_cmp(p_sub(t, p_const(hi)), '<0'))
        right = f_cmp(p_neg(x.p), '<0')
        a.defs = [f_or(f_and(up, right, between(F0, PI / 2)), f_and(up, f_not(right), between(PI / 2, PI)),
                       f_and(f_not(up), right, between(-PI / 2, F0)), f_and(f_not(up), f_not(right), between(-PI, -PI / 2)))]
        a.deps = tuple(p_atoms(x.p) | p_atoms(y.p))
        a.lo, a.hi = -PI, PI
        a.evalf = lambda env: math.atan2(env.poly(y.p)[0], env.poly(x.p)[0])
    r = sqrt(x * x + y * y, True)
    ATAN2_CS[a.id] = (exact_div(x, r), exact_div(y, r))
    return mk(p_atom(a))


def _monotone_defs(kind, a, p, others_key):
    """x < y <-> f(x) < f(y) with respect to the earlier atoms of the same function"""
    reg = MONO.setdefault(others_key, [])
    for b_id, q in reg:
        b = ATOMS[b_id]
        d = p_sub(p, q)
        dd = p_sub(p_atom(a), p_atom(b))
        lt, flt = f_cmp(d, '<0'), f_cmp(dd, '<0')
        eq, feq = f_cmp(d, '==0'), f_cmp(dd, '==0')
        a.defs.append(f_iff(lt, flt))
        a.defs.append(f_iff(eq, feq))
        a.deps = tuple(set(a.deps) | {b_id} | p_atoms(q))
    reg.append((a.id, p))


MONO = {}


def exp(x):
    x = num(x)
    if not isinstance(x, SymNum):
        return math.exp(x) if x == x and x != math.inf else (x if x == x else float('nan'))
    c = x._const()
    if c is not None:
        return math.exp(float(c)) if c < 700 else math.inf
    a, new = get_atom(('exp', p_key(x.p)), 'exp', 'R')
    if new:
        a.nonneg = True
        e = p_atom(a)
        p = x.p
        a.deps = tuple(p_atoms(p))
        a.defs = [Fm('<0', p_neg(e), p_key(p_neg(e))),
                  # e^x >= 1 + x, and sign relation with 1
                  f_cmp(p_sub(p_add(p, p_const(1)), e), '<=0'),
                  f_iff(f_cmp(p, '<0'), f_cmp(p_sub(e, p_const(1)), '<0')),
                  f_iff(f_cmp(p, '==0'), f_cmp(p_sub(e, p_const(1)), '==0'))]
        a.evalf = lambda env, p=p: math.exp(env.poly(p)[0])
        _monotone_defs('exp', a, p, 'exp')
    return mk(p_atom(a))


def log(x):
    x = num(x)
    if not isinstance(x, SymNum):
        return math.log(x) if x > 0 else float('nan')
    c = x._const()
    if c is not None:
        return math.log(float(c)) if c > 0 else (-math.inf if c == 0 else float('nan'))
    if x < 0:
        return float('nan')
    if x == 0:
        return -math.inf
    a, new = get_atom(('log', p_key(x.p)), 'log', 'R')
    if new:
        p = x.p
        l = p_atom(a)
        a.deps = tuple(p_atoms(p))
        a.defs = [f_iff(f_cmp(p_sub(p, p_const(1)), '<0'), f_cmp(l, '<0')),
                  f_iff(f_cmp(p_sub(p, p_const(1)), '==0'), f_cmp(l, '==0'))]
        a.evalf = lambda env, p=p: math.log(env.poly(p)[0])
        _monotone_defs('log', a, p, 'log')
    return mk(p_atom(a))


def power(b, e):
    if getattr(e, '_is_sarr', False):
        return NotImplemented
    b_, e_ = num(b), num(e)
    if not isinstance(b_, SymNum) or not isinstance(e_, SymNum):
        raise Inconclusive('power with a non-finite operand')
    c = e_._const()
    if c is not None and c.denominator == 1 and abs(c) <= 64:
        n = int(c)
        if n >= 0:
            r = p_pow(b_.p, n)
            if n > 1 and len(b_.p) > 1:
                CTX.pows[p_key(r)] = (b_.p, n)
            return mk(r, b_.isint and e_.isint)
        return divide(mk(p_const(1)), mk(p_pow(b_.p, -n)))
    if c is not None and c == Fraction(1, 2):
        return sqrt(b_)
    if c is not None and c == Fraction(-1, 2):
        return divide(mk(p_const(1)), sqrt(b_))
    if c is not None and c.denominator == 2 and abs(c) < 16:
        r = sqrt(b_)
        n = int(abs(c) * 2)
        r = r ** n
        return r if c > 0 else divide(mk(p_const(1)), r)
    cb = b_._const()
    if cb is not None and cb == Fraction(math.e):
        return exp(e_)
    if b_ < 0:
        raise Inconclusive('negative base with a symbolic exponent')
    if b_ == 0:
        if e_ > 0:
            return mk({})
        raise Inconclusive('zero to a non-positive symbolic power')
    a, new = get_atom(('pow', p_key(b_.p), p_key(e_.p)), 'pow', 'R')
    if new:
        a.nonneg = True
        x = p_atom(a)
        bp, ep = b_.p, e_.p
        a.deps = tuple(p_atoms(bp) | p_atoms(ep))
        blt = f_cmp(p_sub(bp, p_const(1)), '<0')
        beq = f_cmp(p_sub(bp, p_const(1)), '==0')
        elt = f_cmp(ep, '<0')
        eeq = f_cmp(ep, '==0')
        xlt = f_cmp(p_sub(x, p_const(1)), '<0')
        xeq = f_cmp(p_sub(x, p_const(1)), '==0')
        a.defs = [Fm('<0', p_neg(x), p_key(p_neg(x))),
                  f_iff(f_or(beq, eeq), xeq),
                  f_implies(f_and(blt, f_cmp(p_neg(ep), '<0')), xlt),
                  f_implies(f_and(f_cmp(p_sub(p_const(1), bp), '<0'), elt), xlt),
                  f_implies(f_and(blt, elt), f_and(f_not(xlt), f_not(xeq))),
                  f_implies(f_and(f_cmp(p_sub(p_const(1), bp), '<0'), f_cmp(p_neg(ep), '<0')), f_and(f_not(xlt), f_not(xeq)))]
        a.evalf = lambda env: env.poly(bp)[0] ** env.poly(ep)[0]
    return mk(p_atom(a))


# ---------------------------------------------------------------------------------------------------------------- #
# Solving


class Stats(dict):
    def add(self, k, v=1):
        self[k] = self.get(k, 0) + v


STATS = Stats()


def closure(ids):
    """defs of all atoms reachable from ids; returns (atom id set, list of formulas)"""
    seen = set()
    work = list(ids)
    defs = []
    while work:
        i = work.pop()
        if i in seen:
            continue
        seen.add(i)
        a = ATOMS[i]
        work.extend(a.deps)
        for d in a.defs:
            defs.append(d)
            work.extend(d.atoms())
    return seen, defs


def zval(v):
    if v is None:
        return None
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return None


SEED = 1


def _run(solver, ms):
    solver.set('timeout', int(ms))
    t = time.time()
    try:
        r = solver.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS.add('solver_s', time.time() - t)
    STATS.add('queries')
    return r


def raw_solve(fs, plan, want):
    """fs: list of Fm (with defs included).  plan: list of (kind, ms).  -> ('sat', {atom id: value}) | ('unsat', None) | ('unknown', None)"""
    ids = set()
    for f in fs:
        ids |= f.atoms()
    hasint = any(ATOMS[i].sort == 'I' for i in ids)
    last = 'unknown'
    nonlin = None
    for kind, ms in plan:
        if kind == 'smt':
            s = z3.Solver()
            s.set('random_seed', SEED)
        elif kind == 'nra':
            if hasint:
                continue
            s = z3.SolverFor('QF_NRA')
        elif kind == 'nlsat':
            if hasint:
                continue
            s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith', 'qfnra-nlsat').solver()
        elif kind == 'lazy':
            s = z3.Then('simplify', 'solve-eqs', 'smt').solver()
        elif kind == 'nia':
            s = z3.SolverFor('QF_NIRA') if hasint else z3.SolverFor('QF_NRA')
        elif kind == 'lin':
            if nonlin is None:
                nonlin = bool(lin_monos(fs))
            if nonlin and lin_unsat(fs, ms):
                STATS.add('linear_unsat')
                return 'unsat', None
            continue
        elif kind == 'cvc5':
            r = cvc5_solve(fs, ms)
            if r == 'unsat':
                return 'unsat', None
            continue
        else:
            raise ValueError(kind)
        for f in fs:
            s.add(f.z())
        r = _run(s, ms)
        if r == z3.unsat:
            return 'unsat', None
        if r == z3.sat:
            if not want:
                return 'sat', {}
            m = s.model()
            out = {}
            for i in ids:
                a = ATOMS[i]
                if a.zvar is not None:
                    v = zval(m.eval(a.zvar, model_completion=False))
                    if v is not None:
                        out[i] = v
            return 'sat', out
    return last, None


def end_with_parent():
    """the kernel ends this process when the one that started it ends"""
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, 9, 0, 0, 0)
    except (OSError, AttributeError):
        pass


def cvc5_solve(fs, ms):
    try:
        import cvc5
    except ImportError:
        return 'unknown'
    s = z3.Solver()
    for f in fs:
        s.add(f.z())
    text = s.to_smt2().replace('(check-sat)', '')
    t = time.time()
    r, w = os.pipe()        # in a process of its own: its time limit does not hold everywhere
    pid = os.fork()
    if pid == 0:
        res = b'unknown'
        try:
            os.close(r)
            end_with_parent()
            slv = cvc5.Solver()
            slv.setOption('tlimit-per', str(int(ms)))
            slv.setOption('nl-cov', 'true')
            slv.setLogic('ALL')
            p = cvc5.InputParser(slv)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, 'q')
            sm = p.getSymbolManager()
            while True:
                c = p.nextCommand()
                if c.isNull():
                    break
                c.invoke(slv, sm)
            v = slv.checkSat()
            res = b'unsat' if v.isUnsat() else b'sat' if v.isSat() else b'unknown'
        except Exception:
            pass
        finally:
            try:
                os.write(w, res)
            finally:
                os._exit(0)
    os.close(w)
    try:
        ready, _, _ = select.select([r], [], [], ms / 1000.0 + 2)
        res = os.read(r, 20).decode() if ready else ''
    finally:
        os.close(r)
        try:
            os.kill(pid, 9)
        except OSError:
            pass
        os.waitpid(pid, 0)
    res = res or 'unknown'
    STATS.add('solver_s', time.time() - t)
    STATS.add('queries')
    STATS.add('cvc5_queries')
    return res


FEAS_PLAN = [('lin', 500), ('smt', 700), ('nra', 1500)]
FEAS_LIN = [('lin', 2000)]
_CHEAP = {}


def feas_cheap(ms):
    return _CHEAP.setdefault(ms, [('lin', 1000), ('smt', ms)])


CHECK_PLAN = [('lin', 1000), ('smt', 1500), ('nra', 4000), ('nlsat', 6000), ('lazy', 3000), ('cvc5', 10000), ('nra', 20000)]


# ---------------------------------------------------------------------------------------------------------------- #
# The explorer


def input_values(m):
    """values of the input atoms in a model; angles that occur only through their sine and cosine are recovered"""
    out = {}
    for i, v in m.items():
        if ATOMS[i].evalf is None:
            out[i] = v
    for i, v in m.items():
        k = ATOMS[i].key
        if k[0] == 'cos':
            s = ATOM_BY_KEY.get(('sin', k[1]))
            items = k[1]
            a = angle_input(items)
            if a is not None and s.id in m:
                t = math.atan2(float(m[s.id]), float(v))
                if a[0] in out:
                    t += 2 * math.pi * round((float(out[a[0]]) * a[1] - t) / (2 * math.pi))
                out[a[0]] = t / a[1]
    return out


def angle_input(key):
    """(atom id, coefficient) if the polynomial with this key is a multiple of one input"""
    p = dict(key)
    if len(p) != 1:
        return None
    (mono, c), = p.items()
    if len(mono) != 1 or mono[0][1] != 1 or ATOMS[mono[0][0]].evalf is not None:
        return None
    return mono[0][0], float(c)


class Ctx:
    def __init__(self):
        self.reset([])
        self.max_samples = 16
        self.samples0 = []
        self.feas_plan = FEAS_PLAN
        self.check_plan = CHECK_PLAN
        self.memo = {}
        self.cs = {}

    # -- per path
    def reset(self, prefix, witness=None):
        self.prefix = prefix
        self.witness = witness
        self.trace = []           # list of (kind, value, bool, has_alt)
        self.pc = []              # formulas, in order
        self.known = {}
        self.factors = {}
        self.hints = {}
        self.pows = {}            # known powers: polynomial -> (base, exponent)
        self.inputs = []          # (name, atom or None, kind) in creation order
        self.samples = None
        self.draws = 0
        self.input_meta = {}
        self.observed = []
        self.pc_unknown = False
        self.deadline = None
        self.feas_plan = FEAS_PLAN

    def start_samples(self):
        self.samples = []
        if self.witness is not None:
            e = Env()
            e.base = self.witness
            if all(f_eval(g, e) is not False for g in self.pc):
                self.samples.append(e)
        for _ in range(self.max_samples):
            e = Env()
            if all(f_eval(g, e) is True for g in self.pc):
                self.samples.append(e)

    def add_pc(self, f):
        self.pc.append(f)
        self._know(f)
        p = self.hints.get(f)
        if p is not None:
            for g in (f_cmp(p_neg(p), '<0'), f_not(f_cmp(p, '==0'))):
                if len(g.args):
                    self._know(g)
        if self.samples:
            self.samples = [s for s in self.samples if f_eval(f, s) is True]

    def _know(self, f):
        self.known[f] = True
        self.known[f_not(f)] = False
        sign = -1 if f.op == '<0' else 0
        q = f.args if sign else f.args[0].args if f.op == 'not' and f.args[0].op == '==0' else None
        if q is not None and 1 < len(q) < 40:
            if max(q.items())[1] < 0:
                q, sign = p_neg(q), -sign
            k = p_key(p_scale(q, 1 / max(q.items())[1]))
            if sign or k not in self.factors:
                self.factors[k] = (q, sign)
        if f.op == 'and':
            for g in f.args:
                self._know(g)

    def relevant(self, extra):
        """constraints (pc + defs) connected with the formulas in extra"""
        ids = set()
        for f in extra:
            ids |= f.atoms()
        pending = list(self.pc)
        chosen = list(extra)
        seen, defs = closure(ids)
        changed = True
        # iterate: pull pc constraints sharing atoms
        atoms_of = [(f, closure_cached(f)) for f in pending]
        used = [False] * len(pending)
        while changed:
            changed = False
            for k, (f, at) in enumerate(atoms_of):
                if not used[k] and not at.isdisjoint(seen):
                    used[k] = True
                    chosen.append(f)
                    if not at <= seen:
                        seen |= at
                        changed = True
        seen, defs = closure(seen)
        out = []
        s = set()
        for f in chosen + defs:
            if f not in s:
                s.add(f)
                out.append(f)
        return out

    def solve(self, extra, plan, want=False):
        fs = self.relevant(extra)
        if any(f is FALSE for f in fs):
            return 'unsat', None
        key = (frozenset(fs), id(plan), want)
        hit = self.memo.get(key)
        if hit is not None:
            return hit
        r = raw_solve(fs, plan, want)
        self.memo[key] = r
        return r

    def branch(self, f):
        if f is TRUE:
            return True
        if f is FALSE:
            return False
        k = self.known.get(f)
        if k is not None:
            return k
        if self.deadline and time.time() > self.deadline:
            raise Inconclusive('path time limit')
        n = len(self.trace)
        if n < len(self.prefix):
            kind, val, b = self.prefix[n][:3]
            if kind != 'b':
                raise Inconclusive('nondeterministic harness (branch)')
            self.trace.append((kind, val, b, False))
            self.add_pc(f if b else f_not(f))
            return b
        STATS.add('branches')
        t = self.feasible(f)
        e = self.feasible(f_not(f))
        if t and e:
            vs = [f_eval(f, s) for s in self.samples]
            b = vs.count(True) >= vs.count(False)
            self.trace.append(('b', None, b, True, self.witness_of(f_not(f) if b else f)))
        elif t or e:
            b = bool(t)
            self.trace.append(('b', None, b, False))
        else:
            raise PathStop('infeasible')
        self.add_pc(f if b else f_not(f))
        if self.samples and len(self.samples) < 4:
            self.jitter()
        return b

    def jitter(self, tries=10):
        """more samples of the path from small changes of the ones at hand"""
        r = Env.rng
        ins = [(a.name, a) for _, a, k in self.inputs if a.sort != 'B']
        if not ins:
            return
        old = list(self.samples)
        for _ in range(tries):
            s = r.choice(old)
            base = s.named()
            scale = 10.0 ** -r.choice((0, 0, 1, 1, 2, 3))
            some = r.random() < .5
            for name, a in ins:
                v = base.get(name)
                if v is None or isinstance(v, bool) or (some and r.random() < .6):
                    continue
                if a.sort == 'I':
                    v = v + r.choice((-1, 0, 0, 1))
                else:
                    w = float(a.hi - a.lo) if a.lo is not None and a.hi is not None else 4.0
                    v = v + r.gauss(0, w / 4) * scale
                if a.lo is not None and v < a.lo:
                    v = type(v)(a.lo)
                if a.hi is not None and v > a.hi:
                    v = type(v)(a.hi)
                base[name] = v
            e = Env()
            e.base = base
            if all(f_eval(g, e) is True for g in self.pc):
                self.samples.append(e)
                if len(self.samples) >= 6:
                    break

    def feasible(self, f):
        if f is TRUE:
            return True
        if f is FALSE:
            return False
        if self.samples is None:
            self.start_samples()
        for s in self.samples:
            if f_eval(f, s) is True:
                STATS.add('hints')
                return True
        r, m = self.solve([f], self.feas_plan, True)
        if r == 'sat' and m is not None:
            self.learn(m)
        elif r == 'unknown':
            STATS.add('unknown_feasibility')
        return r != 'unsat'

    def witness_of(self, f):
        for s in self.samples or ():
            if f_eval(f, s) is True:
                return s.named()
        return None

    def learn(self, m):
        """Turn a partial model into a sample and keep it if it satisfies the path so far."""
        base = self.samples[0] if self.samples else None
        e = Env()
        if base is None and self.witness is not None:
            e.base = self.witness
        if base is not None:
            e.base = base.base
            for i, v in base.items():
                if ATOMS[i].evalf is None:
                    e[i] = v
        for i, v in input_values(m).items():
            e[i] = v if isinstance(v, (bool, int)) else float(v)
        if all(f_eval(g, e) is not False for g in self.pc):
            self.samples.append(e)
            if len(self.samples) > self.max_samples * 2:
                self.samples.pop(0)

    def assume(self, f):
        if f is TRUE or self.known.get(f) is True:
            return
        if f is FALSE or self.known.get(f) is False:
            raise PathStop('assumption')
        n = len(self.trace)
        if n < len(self.prefix):
            if self.prefix[n][0] != 'a':
                raise Inconclusive('nondeterministic harness (assume)')
            self.trace.append(('a', None, True, False))
            self.add_pc(f)
            return
        if not self.feasible(f):
            raise PathStop('assumption')
        self.trace.append(('a', None, True, False))
        self.add_pc(f)
        if self.samples is not None and len(self.samples) < 4:
            self.refill()

    def refill(self, tries=40):
        for _ in range(tries):
            e = Env()
            if all(f_eval(g, e) is True for g in self.pc):
                self.samples.append(e)
                if len(self.samples) >= self.max_samples:
                    return

    def pick(self, x):
        """Concretise an integer-valued SymNum by enumerating its feasible values."""
        x = num(x)
        c = x._const()
        if c is not None:
            return int(c)
        tried = set()
        for _ in range(400):
            n = len(self.trace)
            if n < len(self.prefix):
                kind, val, b = self.prefix[n][:3]
                if kind != 'v':
                    raise Inconclusive('nondeterministic harness (pick)')
                f = f_cmp(p_sub(x.p, p_const(val)), '==0')
                self.trace.append((kind, val, b, False))
                g = f if b else f_not(f)
                if self.known.get(g) is not True and g is not TRUE:
                    self.add_pc(g)
                if b:
                    return int(val)
                tried.add(val)
                continue
            v = None
            if self.samples is None:
                self.start_samples()
            for s in self.samples:
                w = s.poly(x.p)[0]
                if w == w:
                    w = int(round(w))
                    f = f_cmp(p_sub(x.p, p_const(w)), '==0')
                    if w in tried or f is FALSE or self.known.get(f) is False:
                        continue
                    v = w
                    break
            if v is None:
                r, m = self.solve([self._touch(x)], self.feas_plan, True)
                if r == 'unsat':
                    raise PathStop('infeasible')
                if r == 'unknown':
                    # a value of the linear part of the path condition: the path may be infeasible, none is missed
                    r, m = raw_solve([g for g in self.relevant([self._touch(x)]) if not lin_monos([g])] + [self._touch(x)],
                                     [('smt', 3000)], True)
                    if r == 'unsat':
                        raise PathStop('infeasible')
                    if r == 'unknown':
                        raise Inconclusive('cannot enumerate an integer')
                tot = F0
                for mm, cc in x.p.items():
                    t = cc
                    for i, e in mm:
                        t *= Fraction(m.get(i, 0)) ** e
                    tot += t
                if tot.denominator != 1:
                    raise Inconclusive('non-integral integer model')
                v = int(tot)
            f = f_cmp(p_sub(x.p, p_const(v)), '==0')
            known = self.known.get(f)
            if f is TRUE or known is True:
                self.trace.append(('v', v, True, False))
                return v
            t = self.feasible(f)
            e = self.feasible(f_not(f))
            if not t and not e:
                raise PathStop('infeasible')
            if t:
                self.trace.append(('v', v, True, bool(e), self.witness_of(f_not(f)) if e else None))
                self.add_pc(f)
                return v
            self.trace.append(('v', v, False, False))
            self.add_pc(f_not(f))
            tried.add(v)
        raise Inconclusive('too many values for an integer')

    def _touch(self, x):
        """a trivially true formula mentioning the atoms of x, so that the model covers them"""
        p = p_add(p_mul(x.p, x.p), p_const(1))
        q = p_neg(p_reduce(p)) if any(_reducible(m) for m in p) else p_neg(p)
        return Fm('<0', q, p_key(q))

    def const_sqrt(self, c):
        return mk(p_const(Fraction(math.sqrt(float(c)))))


_CC = {}


def closure_cached(f):
    r = _CC.get(f)
    if r is None or r[0] != len(f.atoms()):
        s, _ = closure(f.atoms())
        # only input-level sharing matters, but derived atoms are included to be safe
        r = (len(f.atoms()), frozenset(s))
        _CC[f] = r
    return r[1]


CTX = Ctx()
