"""C13 contact force law"""
from crowddynamics.core.motion.contact import force_contact
from symx.reg import harness


def inputs(S):
    h = S.real('h', -2, 2)
    mu, ka, da = S.real('mu', 0, 200000), S.real('kappa', 0, 100000), S.real('damping', 0, 1000)
    return h, mu, ka, da, S.vec('v', -10, 10)


@harness(bounds='overlap in [-2, 2], any vectors with components in [-2, 2], velocity in [-10, 10]^2')
def law(S):
    h, mu, ka, da, v = inputs(S)
    n, t = S.vec('n', -2, 2), S.vec('t', -2, 2)
    f = force_contact(h, n, v, t, mu, ka, da)
    vt, vn = S.dot(v, t), S.dot(v, n)
    S.equal('law', f, [-h * (mu * n[c] - ka * vt * t[c]) + da * vn * n[c] for c in (0, 1)])
    S.observe('f', f)


@harness(bounds='orthonormal normal and tangent of any direction')
def components(S):
    h, mu, ka, da, v = inputs(S)
    n = S.unit('n')
    t = S.np.array([n[1], -n[0]])
    f = force_contact(h, n, v, t, mu, ka, da)
    S.equal('normal component', S.dot(f, n), -h * mu + da * S.dot(v, n))
    S.equal('tangential component', S.dot(f, t), h * ka * S.dot(v, t))
    rest = force_contact(h, n, v * 0, t, mu, ka, da)
    S.equal('overlap at rest pushes along the normal', rest, [-h * mu * n[0], -h * mu * n[1]])
