"""C26 agent objects and records"""
from traitlets.traitlets import Int, Float, Bool
from traittypes import Array
from crowddynamics.simulation.agents import Circular, ThreeCircle, BodyType, Body, States, TranslationalMotion, RotationalMotion
from symx.reg import harness

KIND = {'Circular': Circular, 'ThreeCircle': ThreeCircle}
PI = 3.141592653589793


def attributes(cls):
    """attribute -> kind, from the traits of the class except the settings of a body type"""
    out = {}
    settings = set(BodyType.class_own_traits()) - set(Body.class_own_traits())
    own = {}
    for c in cls.__mro__:
        for n, t in vars(c).items():
            if c is not BodyType and isinstance(t, (Int, Float, Bool, Array)):
                own.setdefault(n, t)
    for n, t in own.items():
        out[n] = 'b' if isinstance(t, Bool) else 'i' if isinstance(t, Int) else 'f' if isinstance(t, Float) else 'v'
    return out


BOUNDS = {'target': (-1, 5), 'familiar_exit': (-1, 5), 'index_leader': (-1, 9)}


@harness(configs=[dict(kind=k) for k in sorted(KIND)], bounds='both agent types')
def layout(S, kind):
    cls = KIND[kind]
    dt = cls.dtype()
    want = attributes(cls)
    S.check('one field per attribute', sorted(dt.names) == sorted(want) and len(set(dt.names)) == len(dt.names))
    for n in dt.names:
        sub = dt[n]
        base = sub.base if sub.shape else sub
        S.check('type of %s' % n, base.kind == {'v': 'f'}.get(want[n], want[n]) and tuple(sub.shape) == ((2,) if want[n] == 'v' else ()))
        S.check('precision of %s' % n, base.kind == 'b' or base.itemsize == 8)
    one, = [cls().__array__()]
    S.check('record of one agent', tuple(one.shape) == (1,) and one.dtype.names == dt.names)


def value(S, name, kind, free):
    if kind == 'b':
        return bool(S.branch(S.bool(name))) if free else True
    if kind == 'i':
        return S.int(name, *BOUNDS[name]) if free else 3
    if kind == 'f':
        lo, hi = (-PI, PI) if name == 'orientation' else (-9, 9) if name in ('angular_velocity', 'target_orientation', 'torque', 'torque_prev') else (0, 9)
        return S.real(name, lo, hi) if free else S.np.float64(1.25)
    if name == 'target_direction':
        return S.unit(name) if free else S.np.array([0.6, 0.8])
    return S.vec(name, -9, 9) if free else S.np.array([1.5, -2.5])


GROUPS = [('b', 'i'), ('f',), ('position', 'velocity', 'force'), ('force_prev', 'target_direction', 'position_ls', 'position_rs')]


def members(group, cls):
    at = attributes(cls)
    return [n for n, k in at.items() if k in group or n in group]


@harness(configs=[dict(kind=k, g=g, body=b) for k in sorted(KIND) for g in range(4) for b in ((0,) if g != 1 else (0, 1))],
         bounds='every attribute with any value (a quarter of the attributes symbolic at a time, the others fixed); loaded into a fresh agent or into one of a body type')
def round_trip(S, kind, g, body):
    cls = KIND[kind]
    at = attributes(cls)
    free = members(GROUPS[g], cls)
    a = cls()
    values = {}
    for n, k in at.items():
        values[n] = value(S, n, k, n in free)
        setattr(a, n, values[n])
    for n in at:
        S.equal('attribute', getattr(a, n), values[n])
    rec = S.np.array(a)
    S.check('one record', tuple(rec.shape) == (1,) and rec.dtype.names == cls.dtype().names)
    for n in at:
        S.equal('field', rec[n][0], values[n])
    b = cls(body_type='adult') if body else cls()
    b.from_array(rec)
    for n in at:
        S.equal('loaded attribute', getattr(b, n), values[n])
    again = S.np.array(b)
    S.check('same record again', S.field_eq(rec, again))
    S.observe('rec', [rec[n][0] for n in rec.dtype.names])


@harness(configs=[dict(kind=k, n=n) for k in sorted(KIND) for n in (0, 1, 2, 3)], bounds='arrays of up to 3 records')
def length(S, kind, n):
    cls = KIND[kind]
    arr = S.np.zeros(n, dtype=cls.dtype())
    for i in range(n):
        arr['radius'][i] = S.pos('r%d' % i, 2)
        if kind == 'ThreeCircle':
            arr['position_ls'][i] = S.np.array([1.0, 2.0])
    a = cls()
    a.radius = 9.5
    failed = S.raises(ValueError, a.from_array, arr) is not None
    S.check('refused unless exactly one', failed == (n != 1))
    S.equal('radius', a.radius, arr['radius'][0] if n == 1 else 9.5)
