"""C24 fluctuation and truncated normal sampling"""
from crowddynamics.core.motion.fluctuation import force_fluctuation, torque_fluctuation
from crowddynamics.core.rand import random_vector, truncnorm
from symx import stubs
from symx.reg import harness


def drawn():
    """effective truncated-normal values: standard deviates with their limits, in order"""
    out = []
    for name, v in stubs.LOG:
        if name == 'truncnorm':
            args = v
        elif name == 'truncnorm_z':
            out.append((args, v))
    return out


@harness(configs=[dict(n=n) for n in (1, 2, 3, 40)], bounds='up to 3 agents and 40 agents, any masses and scales, any draws')
def force(S, n):
    mass = S.np.array([S.pos('m%d' % i, 100) for i in range(n)])
    scale = S.np.array([S.real('s%d' % i, 0, 5) for i in range(n)])
    keep = mass.copy(), scale.copy()
    stubs.LOG[:] = []
    f = force_fluctuation(mass, scale)
    S.check('shape', tuple(f.shape) == (n, 2))
    zs = [z for args, zz in drawn() for z in zz]
    S.check('one magnitude per agent', len(zs) == n)
    angles = [a for name, v in stubs.LOG if name in ('uniform',) for a in S._seq(v['result'])]
    S.check('one direction per agent', len(angles) == n)
    S.check('any magnitude from 0 to 3 deviations', all(float(a['a']) == 0 and float(a['b']) == 3 for a, _ in drawn()))
    for name, v in stubs.LOG:
        if name == 'uniform':
            S.equal('full circle', v['high'] - v['low'], 2 * S.np.pi)
    for i in range(n):
        S.check('magnitude between 0 and 3 deviations', S.between(0, zs[i], 3))
        size = mass[i] * scale[i] * zs[i]
        S.equal('force of the agent', f[i], [size * S.np.cos(angles[i]), size * S.np.sin(angles[i])])
        S.check('bounded', S.le(S.dot(f[i], f[i]), (3 * mass[i] * scale[i]) ** 2))
    S.check('arguments kept', S.and_(S.eq(keep[0], mass), S.eq(keep[1], scale)))
    S.observe('f', f)


@harness(configs=[dict(n=n) for n in (1, 2, 3, 40)], bounds='up to 3 agents and 40 agents, any inertia and scales, any draws')
def torque(S, n):
    inertia = S.np.array([S.pos('i%d' % i, 10) for i in range(n)])
    scale = S.np.array([S.real('s%d' % i, 0, 5) for i in range(n)])
    stubs.LOG[:] = []
    m = torque_fluctuation(inertia, scale)
    S.check('shape', tuple(m.shape) == (n,))
    zs = [z for args, zz in drawn() for z in zz]
    S.check('one magnitude per agent', len(zs) == n)
    S.check('symmetric limits', all(float(a['a']) == -3 and float(a['b']) == 3 for a, _ in drawn()))
    for i in range(n):
        S.check('between -3 and 3 deviations', S.between(-3, zs[i], 3))
        S.equal('torque of the agent', m[i], inertia[i] * scale[i] * zs[i])
        S.check('bounded', S.between(-3 * inertia[i] * scale[i], m[i], 3 * inertia[i] * scale[i]))
    S.observe('m', m)


@harness(configs=[dict(mode=m, n=n) for m in ('scale', 'abs', 'array') for n in (1, 2)],
         bounds='any limits in [-5, 5] with start < end and not both zero, any mean, any scale including zero, up to 2 values')
def truncated(S, mode, n):
    a, b = S.real('a', -5, 5), S.real('b', -5, 5)
    S.assume(S.lt(a, b))
    loc = S.real('loc', -10, 10)
    stubs.LOG[:] = []
    seed = 17
    if mode == 'abs':
        size = S.real('abs', 0, 5)
        x = truncnorm(a, b, loc=loc, abs_scale=size, size=n, random_state=seed)
    elif mode == 'scale':
        s = S.real('scale', 0, 5)
        x = truncnorm(a, b, loc=loc, scale=s, size=n, random_state=seed)
    else:
        s = S.np.array([S.real('scale%d' % i, 0, 5) for i in range(n)])
        x = truncnorm(a, b, loc, s, size=n, random_state=seed)
    S.check('number of values', tuple(x.shape) == (n,))
    (args, zs), = drawn()
    S.equal('limits', [args['a'], args['b']], [a, b])
    S.check('random state', args['random_state'] == seed)
    for i in range(n):
        if mode == 'abs':
            S.check('within the absolute scale', S.between(loc - size, x[i], loc + size))
            big = S.max([S.ite(S.lt(a, 0), -a, a), S.ite(S.lt(b, 0), -b, b)])
            S.equal('scaled by the larger limit', (x[i] - loc) * big, size * zs[i])
        else:
            S.equal('mean and scale', x[i], loc + (s if mode == 'scale' else s[i]) * zs[i])
    S.observe('x', x)


@harness(configs=[dict(n=n) for n in (0, 1, 3, 40)], bounds='up to 3 vectors and 40 vectors, any magnitude, any range of directions, any draws')
def vectors(S, n):
    kw = {}
    lo, hi = 0.0, 2 * S.np.pi
    if S.branch(S.bool('orient?')):
        lo, hi = S.real('lo', -4, 4), S.real('hi', -4, 4)
        S.assume(S.lt(lo, hi))
        kw['orient'] = (lo, hi)
    mag = 1.0
    if S.branch(S.bool('mag?')):
        mag = kw['mag'] = S.real('mag', 0, 9)
    stubs.LOG[:] = []
    v = random_vector(n, **kw)
    S.check('shape', tuple(v.shape) == (n, 2))
    angles = [a for name, d in stubs.LOG if name == 'uniform' for a in S._seq(d['result'])]
    S.check('one direction per vector', len(angles) == n)
    for i in range(n):
        S.check('direction in the range', S.and_(S.le(lo, angles[i]), S.le(angles[i], hi)))
        S.equal('vector', v[i], [mag * S.np.cos(angles[i]), mag * S.np.sin(angles[i])])
    for name, d in stubs.LOG:
        if name == 'uniform':
            S.equal('every direction of the range', [d['low'], d['high']], [lo, hi])
