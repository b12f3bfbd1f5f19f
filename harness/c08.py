"""C08 rotation"""
import math

from crowddynamics.core.integrator import euler_integrator, velocity_verlet_integrator, velocity_verlet_integrator_init, \
    adaptive_timestep
from crowddynamics.simulation.agents import shoulders
from symx.reg import harness
from harness.util import crowd, unchanged
from harness.c07 import STATE, limits

PI = math.pi


def at_rest(S, n):
    """spin state free; translation at rest so that the timestep is dt_max"""
    spec = dict(STATE)
    spec.update(velocity=lambda i: (0.0, 0.0), force=(-20, 20), target_velocity=1.0)
    return crowd(S, 'three_circle', n, spec, fill='any')


def rotation(S, n, integrator, verlet, keep_prev=False):
    a = at_rest(S, n)
    lo, hi = limits(S)
    b = a.copy()
    dt = integrator(a, lo, hi)
    for i in range(n):
        acc = b['torque'][i] / b['inertia_rot'][i]
        if verlet:
            w = b['angular_velocity'][i] + (b['torque_prev'][i] / b['inertia_rot'][i] + acc) / 2 * dt
            raw = b['orientation'][i] + w * dt + acc / 2 * dt * dt
        else:
            w = b['angular_velocity'][i] + acc * dt
            raw = b['orientation'][i] + b['angular_velocity'][i] * dt + acc / 2 * dt * dt
        S.equal('angular velocity', a['angular_velocity'][i], w)
        phi = a['orientation'][i]
        S.check('orientation in [-pi, pi]', S.between(-PI, phi, PI))
        k = S.np.floor((raw - phi) / (2 * PI) + 0.5)
        S.check('orientation congruent to the unwrapped angle', S.eq(raw - phi, 2 * PI * k))
        S.equal('previous torque', a['torque_prev'][i], b['torque_prev'][i] if keep_prev else b['torque'][i])
        t = [S.np.sin(phi), -S.np.cos(phi)]
        for c in (0, 1):
            S.equal('left shoulder', a['position_ls'][i, c], a['position'][i, c] - a['r_ts'][i] * t[c])
            S.equal('right shoulder', a['position_rs'][i, c], a['position'][i, c] + a['r_ts'][i] * t[c])
    S.observe('w', a['angular_velocity'])


N = [dict(n=1), dict(n=2)]


@harness(configs=N, bounds='n three-circle agents, torques to 50, inertia to 100, angular velocity to 5')
def euler(S, n):
    rotation(S, n, euler_integrator, False, True)


@harness(configs=N, bounds='as euler')
def verlet_start(S, n):
    rotation(S, n, velocity_verlet_integrator_init, False)


@harness(configs=N, bounds='as euler')
def verlet(S, n):
    rotation(S, n, velocity_verlet_integrator, True)


@harness(configs=[dict(n=2)], thorough=[dict(n=4)], bounds='n agents, any position, orientation and shoulder distance')
def place(S, n):
    a = crowd(S, 'three_circle', n, dict(position=(-50, 50), orientation=(-4, 4), r_ts=(0, 2), position_ls=(-9, 9)), fill='any')
    b = a.copy()
    shoulders(a)
    for i in range(n):
        t = [S.np.sin(a['orientation'][i]), -S.np.cos(a['orientation'][i])]
        for c in (0, 1):
            S.equal('left shoulder', a['position_ls'][i, c], a['position'][i, c] - a['r_ts'][i] * t[c])
            S.equal('right shoulder', a['position_rs'][i, c], a['position'][i, c] + a['r_ts'][i] * t[c])
    unchanged(S, 'rest kept', a, b, ('position_ls', 'position_rs'))
