"""C12 three-circle social force"""
import math
from crowddynamics.core.motion.power_law import force_social_three_circle, gradient_three_circle, magnitude
from crowddynamics.core.vector2D import truncate
from symx.reg import harness
from harness.util import crowd, unchanged, bodies

FMAX = 2000


def turned(S, k):
    """(sin, -cos) of an orientation with rational components: 0, 90, -90, 180 degrees and two 3-4-5 angles"""
    return [(0.0, -1.0), (1.0, 0.0), (-1.0, 0.0), (0.0, 1.0), (0.6, -0.8), (-0.8, 0.6)][k]


ANGLE = [0.0, math.pi / 2, -math.pi / 2, math.pi, math.atan2(0.6, 0.8), math.atan2(-0.8, -0.6)]


def pair(S, turn, at, slide, vel, same=False):
    """agent 0 at `at` + s * `slide` relative to agent 1, moving with vel relative to it"""
    s = S.real('s', -4, 4)
    par = dict(mass='pos', k_soc=(0, 5), tau_0='pos', force=(-9, 9), r_t=lambda i: 0.125 if same or i else 0.140625, r_s=lambda i: 0.0625 if same or not i else 0.078125, r_ts=0.15625, radius=0.25,
               orientation=lambda i: ANGLE[turn[i]])
    if same:
        par.update(mass=S.pos('m', 100), k_soc=S.real('k', 0, 5), tau_0=S.pos('t0', 10))
    base = S.np.array([0.25, -0.5])
    par['position'] = lambda i: base if i else S.np.array([base[0] + at[0] + s * slide[0], base[1] + at[1] + s * slide[1]])
    par['velocity'] = lambda i: (0.5, 1.0) if i else (0.5 + vel[0], 1.0 + vel[1])
    a = crowd(S, 'three_circle', 2, par)
    for i in range(2):
        t = turned(S, turn[i])
        for c in (0, 1):
            a['position_ls'][i, c] = a['position'][i, c] - 0.15625 * t[c]
            a['position_rs'][i, c] = a['position'][i, c] + 0.15625 * t[c]
    return a


def contacts(S, a, i, j):
    """(tau, gradient) of the pairs of circles that are going to collide"""
    v = a['velocity'][i] - a['velocity'][j]
    A = v[0] * v[0] + v[1] * v[1]
    out = []
    if not S.branch(S.ne(A, 0)):
        return out
    ci, ri = bodies(a, i)
    cj, rj = bodies(a, j)
    for p in range(3):
        for q in range(3):
            x = ci[p] - cj[q]
            B = -(x[0] * v[0] + x[1] * v[1])
            R = ri[p] + rj[q]
            D = B * B - A * (x[0] * x[0] + x[1] * x[1] - R * R)
            if S.branch(S.lt(0, D)):
                d = S.sqrt(D)
                tau = (B - d) / A
                if S.branch(S.lt(0, tau)):
                    out.append((tau, [(x[c] + tau * v[c]) / d for c in (0, 1)]))
    return out


def limited(S, name, f, w):
    w = S.np.array([w[0], w[1]])
    truncate(w, FMAX)
    S.equal(name, f, w)


SETUPS = [dict(turn=(0, 0), at=(2.0, 0.0), slide=(0.25, 1.0), vel=(-1.0, 0.0)),
          dict(turn=(1, 0), at=(2.0, 0.0), slide=(0.0, 1.0), vel=(-1.0, 0.0)),
          dict(turn=(4, 1), at=(1.0, 0.5), slide=(1.0, 0.0), vel=(0.0, -2.0)),
          dict(turn=(3, 5), at=(0.125, 0.0625), slide=(1.0, 0.25), vel=(-1.5, 0.5)),
          dict(turn=(0, 0), at=(2.5, 0.0), slide=(0.25, 1.0), vel=(-0.0625, 0.0)),
          dict(turn=(0, 2), at=(0.0, 3.0), slide=(1.0, 0.0), vel=(0.0, 0.0)),
          dict(turn=(0, 0), at=(0.3125, 0.0), slide=(2.0 ** -7, 0.0), vel=(-2.0 ** -6, 0.0)),
          dict(turn=(1, 0), at=(0.875, 0.0), slide=(0.0, 0.03125), vel=(-16.0, 0.0))]


@harness(configs=[dict(c, swap=k % 2) for k, c in enumerate(SETUPS)],
         thorough=[dict(c, swap=k) for c in SETUPS for k in (0, 1)] + [
             dict(turn=(a, b), at=(1.5, 0.25), slide=w, vel=(-1.0, -0.25), swap=0) for a, b in ((0, 4), (5, 1), (2, 3)) for w in ((1.0, 0.0), (0.0, 1.0))],
         bounds='two bodies of fixed shape with orientations of 0, 90, -90, 180, 37 or -143 degrees, the first anywhere on a line of length 8 past the second, '
                'one relative velocity per configuration, any masses, k_soc and tau_0; ties between pairs excluded')
def force(S, turn, at, slide, vel, swap):
    S.coarse(40)
    a = pair(S, turn, at, slide, vel)
    b = a.copy()
    i, j = (1, 0) if swap else (0, 1)
    fi, fj = force_social_three_circle(a, i, j)
    unchanged(S, 'agents kept', a, b)
    found = contacts(S, a, i, j)
    if not found:
        S.equal('no force without a collision ahead', [fi, fj], [[0.0, 0.0], [0.0, 0.0]])
        return
    best = found[0]
    for f in found[1:]:
        if S.branch(S.lt(f[0], best[0])):
            best = f
    if S.branch(S.or_(*[S.eq(f[0], best[0]) for f in found if f is not best])):
        return
    tau, grad = best
    for name, f, n, s in (('first agent', fi, i, 1), ('second agent', fj, j, -1)):
        mag = a['k_soc'][n] * a['mass'][n] * magnitude(tau, a['tau_0'][n])      # the formula of magnitude is the subject of law
        limited(S, name, f, [s * mag * grad[0], s * mag * grad[1]])
    S.observe('f', fi)


@harness(bounds='tau, tau_0 in (0, 50]')
def law(S):
    tau, t0 = S.pos('tau', 50), S.pos('t0', 50)
    S.equal('magnitude', magnitude(tau, t0) * tau * tau * tau * t0, (2 * t0 + tau) * S.np.exp(-tau / t0))


@harness(configs=SETUPS[:2], thorough=SETUPS, bounds='two bodies with equal mass, k_soc and tau_0 of any size; motion as for force')
def cancel(S, turn, at, slide, vel):
    S.coarse(40)
    a = pair(S, turn, at, slide, vel, True)
    fi, fj = force_social_three_circle(a, 0, 1)
    S.equal('forces cancel', [fi[0] + fj[0], fi[1] + fj[1]], [0.0, 0.0])
