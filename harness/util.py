"""building blocks shared by the harnesses"""
from crowddynamics.simulation import agents as ag
from crowddynamics.core.structures import obstacle_type_linear

KINDS = ('circular', 'three_circle')


def dtype(kind):
    """a fresh record type, equal to the one of the module (as in the arrays of a simulation)"""
    return (ag.Circular if kind == 'circular' else ag.ThreeCircle).dtype()


def crowd(S, kind, n, spec, prefix='a', fill=True):
    """record array of n agents; spec: field -> (lo, hi) for inputs, a callable of the index, or a constant;
    other fields hold some value of their own (fill='any': any value from 0 to 3), yes/no fields either value"""
    a = S.np.zeros(n, dtype=dtype(kind))
    if fill:
        for k, f in enumerate(a.dtype.names):
            if f not in spec:
                base = a.dtype[f].base.kind
                if base == 'b':
                    for i in range(n):
                        a[f][i] = S.bool('%s%d.%s' % (prefix, i, f))
                elif fill == 'any' and base == 'f':
                    for i in range(n):
                        for c in range(2 if a.dtype[f].shape else 1):
                            v = S.real('%s%d.%s%s' % (prefix, i, f, 'xy'[c] if a.dtype[f].shape else ''), 0, 3)
                            if a.dtype[f].shape:
                                a[f][i, c] = v
                            else:
                                a[f][i] = v
                else:
                    a[f][:] = 3 + k if base in 'iu' else 0.25 + k / 16
    for i in range(n):
        for f, v in spec.items():
            if f not in a.dtype.names:
                continue
            vector = a.dtype[f].shape == (2,)
            name = '%s%d.%s' % (prefix, i, f)
            if isinstance(v, tuple):
                v = S.vec(name, *v) if vector else S.real(name, *v)
            elif isinstance(v, str) and v == 'pos':
                v = S.pos(name, 100)
            elif isinstance(v, str) and v == 'bool':
                v = S.bool(name)
            elif callable(v):
                v = v(i)
            if vector:
                a[f][i, 0] = v[0]
                a[f][i, 1] = v[1]
            else:
                a[f][i] = v
    return a


def unchanged(S, name, a, b, skip=()):
    for f in a.dtype.names:
        if f not in skip:
            S.check('%s: %s' % (name, f), S.eq(a[f], b[f]))


def obstacles(S, segs):
    o = S.np.zeros(len(segs), dtype=obstacle_type_linear)
    for k, (p, q) in enumerate(segs):
        for c in (0, 1):
            o['p0'][k, c] = p[c]
            o['p1'][k, c] = q[c]
    return o


def place_shoulders(S, a):
    """three-circle agents: shoulders at the documented place (torso -/+ r_ts * (sin, -cos))"""
    for i in range(len(a)):
        t = [S.np.sin(a['orientation'][i]), -S.np.cos(a['orientation'][i])]
        for c in (0, 1):
            a['position_ls'][i, c] = a['position'][i, c] - a['r_ts'][i] * t[c]
            a['position_rs'][i, c] = a['position'][i, c] + a['r_ts'][i] * t[c]


def bodies(a, i):
    """centres and radii of the three circles of agent i"""
    return ((a['position'][i], a['position_ls'][i], a['position_rs'][i]),
            (a['r_t'][i], a['r_s'][i], a['r_s'][i]))
