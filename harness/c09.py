"""C09 adjusting force and torque"""
import math

from crowddynamics.core.motion.adjusting import force_adjust, torque_adjust, force_adjust_agents, torque_adjust_agents
from crowddynamics.core.vector2D import wrap_to_pi
from symx.reg import harness
from harness.util import crowd, unchanged, KINDS

PI = math.pi


@harness(bounds='mass and relaxation time in (0, 100], speeds to 10')
def force(S):
    m, tau, v0 = S.pos('m', 100), S.pos('tau', 10), S.real('v0', 0, 10)
    e, v = S.vec('e', -1, 1), S.vec('v', -10, 10)
    f = force_adjust(m, tau, v0, e, v)
    S.equal('law', [f[0] * tau, f[1] * tau], [m * (v0 * e[0] - v[0]), m * (v0 * e[1] - v[1])])
    at = S.and_(S.eq(v[0], v0 * e[0]), S.eq(v[1], v0 * e[1]))
    S.check('vanishes exactly at the target velocity', S.iff(at, S.and_(S.eq(f[0], 0), S.eq(f[1], 0))))
    S.observe('f', f)


def oracle(S, I, tau, p0, p, w0, w, M, label=''):
    """M * tau = I * (d / pi * w0 - w) for the representative d of p0 - p in [-pi, pi]"""
    diff = p0 - p
    k = S.np.floor((diff + PI) / (2 * PI))
    d = diff - 2 * PI * k                       # in [-pi, pi)
    a = S.eq(M * tau, I * (d / PI * w0 - w))
    b = S.and_(S.eq(d, -PI), S.eq(M * tau, I * (w0 - w)))
    S.check(label + 'law with the difference wrapped to [-pi, pi]', S.or_(a, b))


@harness(bounds='angles in [-10, 10], inertia to 100')
def torque(S):
    I, tau = S.pos('I', 100), S.pos('tau', 10)
    p0, p, w0, w = S.real('p0', -10, 10), S.real('p', -10, 10), S.real('w0', 0, 10), S.real('w', -10, 10)
    M = torque_adjust(I, tau, p0, p, w0, w)
    oracle(S, I, tau, p0, p, w0, w, M)
    S.observe('M', M)


@harness(configs=[dict(kind=k, n=2) for k in KINDS], thorough=[dict(kind=k, n=4) for k in KINDS], bounds='n agents, any state')
def force_crowd(S, kind, n):
    a = crowd(S, kind, n, dict(mass='pos', tau_adj='pos', target_velocity=(0, 5), target_direction=(-1, 1), velocity=(-5, 5),
                               force=(-100, 100), force_prev=(-9, 9)), fill='any')
    b = a.copy()
    force_adjust_agents(a)
    for i in range(n):
        t = b['mass'][i] / b['tau_adj'][i] * (b['target_velocity'][i] * b['target_direction'][i] - b['velocity'][i])
        S.equal('own term added', a['force'][i], b['force'][i] + t)
    unchanged(S, 'rest kept', a, b, ('force',))


@harness(configs=[dict(n=2)], bounds='n agents, orientations in [-pi, pi]')
def torque_crowd(S, n):
    a = crowd(S, 'three_circle', n, dict(inertia_rot='pos', tau_rot='pos', target_orientation=(-3.14, 3.14), orientation=(-3.14, 3.14),
                                         target_angular_velocity=(0, 5), angular_velocity=(-5, 5), torque=(-10, 10)), fill='any')
    b = a.copy()
    torque_adjust_agents(a)
    for i in range(n):
        oracle(S, b['inertia_rot'][i], b['tau_rot'][i], b['target_orientation'][i], b['orientation'][i],
               b['target_angular_velocity'][i], b['angular_velocity'][i], a['torque'][i] - b['torque'][i], 'own term added: ')
    unchanged(S, 'rest kept', a, b, ('torque',))
