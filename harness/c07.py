"""C07 timestep and translation"""
from crowddynamics.core.integrator import adaptive_timestep, euler_integrator, velocity_verlet_integrator, \
    velocity_verlet_integrator_init
from symx.reg import harness
from harness.util import crowd, unchanged, KINDS

BOTH = [dict(kind=k, n=2) for k in KINDS]
STATE = dict(position=(-50, 50), velocity=(-10, 10), force=(-2000, 2000), force_prev=(-2000, 2000), mass='pos',
             target_velocity=(0, 5), inertia_rot='pos', angular_velocity=(-5, 5), torque=(-50, 50), torque_prev=(-50, 50),
             orientation=(-3, 3), r_ts=(0, 1), radius=(0, 1), tau_adj=0.5)
NO_SPIN = dict(STATE, angular_velocity=0.0, torque=0.0, torque_prev=0.0)      # the spin is the subject of C08


def limits(S, top=0.5):
    lo = S.pos('dt_min', top)
    hi = S.pos('dt_max', top)
    S.assume(S.le(lo, hi))
    return lo, hi


@harness(configs=[dict(kind='circular', n=1), dict(kind='circular', n=3), dict(kind='three_circle', n=2)],
         thorough=[dict(kind=k, n=n) for k in KINDS for n in (1, 2, 3, 4)],
         bounds='n agents, velocities in [-10, 10]^2, target speeds in [0, 5], 0 < dt_min <= dt_max <= 1/2')
def timestep(S, kind, n):
    a = crowd(S, kind, n, dict(velocity=(-10, 10), target_velocity=(0, 5)), fill='any')
    lo, hi = limits(S)
    before = a.copy()
    dt = adaptive_timestep(a, lo, hi)
    v = S.max([S.norm(a['velocity'][i]) for i in range(n)])
    t = S.max([a['target_velocity'][i] for i in range(n)])
    S.check('within limits', S.between(lo, dt, hi))
    if S.branch(S.eq(v, 0)):
        S.equal('nobody moves', dt, hi)
    else:
        x = 1.1 * t * hi                     # dt_mid = x / v
        if S.branch(S.lt(hi * v, x)):
            S.equal('upper limit', dt, hi)
        elif S.branch(S.lt(x, lo * v)):
            S.equal('lower limit', dt, lo)
        else:
            S.equal('in between', dt * v, x)
    unchanged(S, 'agents kept', a, before)
    S.observe('dt', dt)


@harness(configs=[dict(kind=k, n=n, v=v, t=t) for k, n, v, t in (('circular', 6, 5, 4), ('circular', 12, 11, 11), ('three_circle', 5, 0, 4), ('circular', 7, 3, 0))],
         bounds='five to twelve agents: the velocity of one and the target speed of another take any value, the rest are fixed')
def many(S, kind, n, v, t):
    a = crowd(S, kind, n, dict(velocity=lambda i: S.vec('v', -10, 10) if i == v else (0.75, -1.0), target_velocity=lambda i: S.real('t', 0, 5) if i == t else 0.5 + 0.125 * (i % 3)))
    lo, hi = limits(S)
    fast = S.norm(a['velocity'][v])
    fast = S.ite(S.le(1.25, fast), fast, 1.25)
    top = max(0.5 + 0.125 * (i % 3) for i in range(n) if i != t)
    top = S.ite(S.le(top, a['target_velocity'][t]), a['target_velocity'][t], top)
    dt = adaptive_timestep(a, lo, hi)
    x = 1.1 * top * hi
    if S.branch(S.lt(hi * fast, x)):
        S.equal('upper limit', dt, hi)
    elif S.branch(S.lt(x, lo * fast)):
        S.equal('lower limit', dt, lo)
    else:
        S.equal('in between', dt * fast, x)


@harness(configs=[dict(t=0.5), dict(t=0.015625)], bounds='two agents that barely move, target speeds of 1/2 and 1/64, 0 < dt_min <= dt_max <= 64')
def slow(S, t):
    a = crowd(S, 'circular', 2, dict(velocity=lambda i: S.vec('v', -1, 1) if i else (0.0, 0.0), target_velocity=t), fill='any')
    lo, hi = limits(S, 64)
    v = S.norm(a['velocity'][1])
    dt = adaptive_timestep(a, lo, hi)
    x = 1.1 * t * hi
    if S.branch(S.or_(S.eq(v, 0), S.lt(hi * v, x))):
        S.equal('upper limit', dt, hi)
    elif S.branch(S.lt(x, lo * v)):
        S.equal('lower limit', dt, lo)
    else:
        S.equal('in between', dt * v, x)


def step(S, kind, n, integrator, verlet, keep_prev=False):
    a = crowd(S, kind, n, NO_SPIN, fill='any')
    lo, hi = limits(S)
    dt0 = adaptive_timestep(a, lo, hi)
    b = a.copy()
    dt = integrator(a, lo, hi)
    S.equal('reported timestep is the adaptive timestep', dt, dt0)
    for i in range(n):
        acc = b['force'][i] / b['mass'][i]
        if verlet:
            old = b['force_prev'][i] / b['mass'][i]
            v = b['velocity'][i] + (old + acc) / 2 * dt
            S.equal('velocity', a['velocity'][i], v)
            S.equal('position', a['position'][i], b['position'][i] + v * dt + acc / 2 * dt * dt)
        else:
            S.equal('velocity', a['velocity'][i], b['velocity'][i] + acc * dt)
            S.equal('position', a['position'][i], b['position'][i] + b['velocity'][i] * dt + acc / 2 * dt * dt)
        S.equal('previous force', a['force_prev'][i], b['force_prev'][i] if keep_prev else b['force'][i])
    skip = ('velocity', 'position', 'force_prev')
    if kind == 'three_circle':
        skip += ('orientation', 'angular_velocity', 'torque_prev', 'position_ls', 'position_rs')
    unchanged(S, 'other attributes kept', a, b, skip)
    S.observe('pos', a['position'])


@harness(configs=BOTH, bounds='n agents, any state (speeds to 10, forces to 2000, masses to 100)')
def euler(S, kind, n):
    step(S, kind, n, euler_integrator, False, True)


@harness(configs=BOTH, bounds='n agents, any state')
def verlet_start(S, kind, n):
    step(S, kind, n, velocity_verlet_integrator_init, False)


@harness(configs=BOTH, bounds='n agents, any state')
def verlet(S, kind, n):
    step(S, kind, n, velocity_verlet_integrator, True)
