"""C25 body attributes derived from radius, ratios, mass and body type"""
from traitlets import TraitError
from crowddynamics.simulation.agents import BodyType, Circular, ThreeCircle
from symx import stubs
from symx.reg import harness

RATIOS = {'r_t': 'ratio_rt', 'r_s': 'ratio_rs', 'r_ts': 'ratio_ts'}


def check_parts(S, b, known):
    for part, ratio in RATIOS.items():
        if 'radius' in known and ratio in known:
            S.equal('ratio of the radius', getattr(b, part), known[ratio] * known['radius'])


def check_inertia(S, b, mass, radius):
    S.equal('rotational inertia', b.inertia_rot * 80 * S.np.float64(0.27) ** 2, 4 * S.np.pi * mass * radius ** 2)


@harness(configs=[dict(kind=k, twice=t) for k in ('BodyType', 'ThreeCircle') for t in ('radius', 'ratio_rt', 'ratio_ts')],
         thorough=[dict(kind=k, twice=t) for k in ('BodyType', 'Circular', 'ThreeCircle') for t in ('radius', 'ratio_rt', 'ratio_rs', 'ratio_ts')],
         bounds='radius and the three ratios set in any order, one of them changed again at any later time, any values (radius and ratios positive)')
def orders(S, kind, twice):
    b = {'BodyType': BodyType, 'Circular': Circular, 'ThreeCircle': ThreeCircle}[kind]()
    names = ['radius', 'ratio_rt', 'ratio_rs', 'ratio_ts']
    seq = S.permutation('order', names)
    at = S.int('again', seq.index(twice) + 1, 4)
    seq.insert(int(at), twice)
    known = {}
    for i, name in enumerate(seq):
        v = S.pos('v%d' % i, 3 if name == 'radius' else 1)
        setattr(b, name, v)
        known[name] = v
        S.equal('value kept', getattr(b, name), v)
        check_parts(S, b, known)
    S.observe('r', [b.r_t, b.r_s, b.r_ts])


@harness(configs=[dict(kind=k) for k in ('BodyType', 'Circular', 'ThreeCircle')], bounds='all given at once, any positive values')
def together(S, kind):
    cls = {'BodyType': BodyType, 'Circular': Circular, 'ThreeCircle': ThreeCircle}[kind]
    names = S.permutation('order', ['radius', 'ratio_rt', 'ratio_ts', 'mass'])
    known = {n: S.pos(n, 1 if n.startswith('ratio') else 90) for n in names}
    b = cls(**known)
    check_parts(S, b, known)
    check_inertia(S, b, known['mass'], known['radius'])
    S.observe('b', [b.r_t, b.r_ts, b.inertia_rot])


@harness(configs=[dict(explicit=e) for e in (False, True)], bounds='mass, radius and (explicit) inertia in any order, any positive values')
def inertia(S, explicit):
    b = ThreeCircle()
    names = S.permutation('order', ['mass', 'radius'] + (['inertia_rot'] if explicit else []))
    v = {n: S.pos(n, 100) for n in names}
    for n in names:
        setattr(b, n, v[n])
    if explicit:
        S.equal('explicit inertia kept', b.inertia_rot, v['inertia_rot'])
    else:
        check_inertia(S, b, v['mass'], v['radius'])
    S.observe('i', b.inertia_rot)


@harness(configs=[dict(what=w) for w in ('radius', 'mass', 'target_velocity')],
         bounds='mean, scale and explicit value in any order, any positive values with scale at most mean')
def drawn(S, what):
    b = BodyType()
    given = S.branch(S.bool('explicit'))
    names = S.permutation('order', [what + '_mean', what + '_scale'] + ([what] if given else []))
    v = {n: S.pos(n, 100) for n in names}
    S.assume(S.le(v[what + '_scale'], v[what + '_mean']))
    stubs.LOG[:] = []
    for n in names:
        setattr(b, n, v[n])
    x = getattr(b, what)
    if given:
        S.equal('explicit value kept', x, v[what])
    else:
        m, s = v[what + '_mean'], v[what + '_scale']
        S.check('within the scale of the mean', S.between(m - s, x, m + s))
        zs = [z for name, zz in stubs.LOG if name == 'truncnorm_z' for z in zz]
        S.check('one draw', len(zs) == 1)
        S.equal('drawn by three deviations', x, m + s * zs[0] / 3)
    S.observe('x', x)


TYPES = ('adult', 'male', 'female', 'child', 'eldery')


def shipped():
    import os
    import crowddynamics
    names = []
    with open(os.path.join(os.path.dirname(crowddynamics.__file__), 'conf', 'body_types.cfg')) as f:
        text = [l.strip() for l in f]
    out = {}
    for l in text:
        if l.startswith('['):
            out[l.strip('[] ')] = cur = {}
        elif '=' in l and not l.startswith('#'):
            k, v = l.split('=')
            cur[k.strip()] = float(v)
    return out


@harness(configs=[dict(k=k, kind=kind) for k in range(5) for kind in ('Circular', 'ThreeCircle')],
         bounds='each shipped body type, any draws, any explicit radius, mass or speed given in the constructor or afterwards')
def body_types(S, k, kind):
    types = shipped()
    S.check('number of shipped types', len(types) >= 1)
    names = sorted(types)
    name = names[k % len(names)]
    t = types[name]
    cls = Circular if kind == 'Circular' else ThreeCircle
    given = {n: S.pos(n, 200) for n in S.subset('given', ['radius', 'mass', 'target_velocity'])}
    late = S.branch(S.bool('late'))
    if late:
        b = cls()
        for n, v in given.items():
            setattr(b, n, v)
        b.body_type = name
    else:
        b = cls(body_type=name, **given)
    for n in ('radius', 'mass', 'target_velocity'):
        x = getattr(b, n)
        if n in given:
            S.equal('explicit %s kept' % n, x, given[n])
        else:
            m, s = t[n + '_mean'], t[n + '_scale']
            S.check('%s within the scale of the mean' % n, S.between(S.np.float64(m - s - 1e-9), x, S.np.float64(m + s + 1e-9)))
        S.check('positive', S.lt(0, x))
    for part, ratio in RATIOS.items():
        S.equal('ratio of the radius', getattr(b, part), b.radius * S.np.float64(t[ratio]))
    check_inertia(S, b, b.mass, b.radius)
    S.check('body type set only once', S.raises(TraitError, setattr, b, 'body_type', names[(k + 1) % len(names)]) is not None)
    S.observe('b', [b.radius, b.mass, b.r_s, b.inertia_rot])
