"""Samplers of Cartesian states and elements in the value-number field.

States are generated from orbital elements so that the quantities which are
positive for real orbits (radius, angular momentum, eccentricity, sine of the
inclination, 1+e, ...) are quadratic residues, the model of "positive".
"""
from .field import P, inv, isqr, sqrt


def qr(rng):
    while True:
        x = rng.randrange(1, P)
        if isqr(x):
            return x


def circle(rng, sin_pos=False, cos_pos=False):
    while True:
        t = rng.randrange(1, P)
        d = inv(1 + t * t)
        c, s = (1 - t * t) * d % P, 2 * t * d % P
        if (not sin_pos or isqr(s)) and (not cos_pos or isqr(c)):
            return c, s


def elements(rng):
    """p, e, (cos,sin) of i, W, w, f with p, e, 1+e, 1+e cos f, sin i, 1+cos i 'positive'."""
    while True:
        p, e = qr(rng), qr(rng)
        f = circle(rng)
        if isqr(1 + e) and isqr(1 + e * f[0]):
            break
    while True:
        i = circle(rng, sin_pos=True)
        if isqr(1 + i[0]):
            break
    return p, e, i, circle(rng), circle(rng), f


def state_from(p, e, i, W, w, f, mu):
    ci, si = i
    cW, sW = W
    cw, sw = w
    cf, sf = f
    r = p * inv(1 + e * cf) % P
    k = mu * inv(sqrt(p * mu)) % P
    xp, yp = r * cf, r * sf
    xd, yd = -k * sf, k * (e + cf)
    R = [[cW * cw - sW * sw * ci, -cW * sw - sW * cw * ci], [sW * cw + cW * sw * ci, -sW * sw + cW * cw * ci],
         [sw * si, cw * si]]
    pos = [(R[j][0] * xp + R[j][1] * yp) % P for j in range(3)]
    vel = [(R[j][0] * xd + R[j][1] * yd) % P for j in range(3)]
    return pos, vel


def state_assign(names=("rx", "ry", "rz", "vx", "vy", "vz"), mu="mu", more=None):
    def a(rng):
        m = qr(rng)
        pos, vel = state_from(*elements(rng), m)
        d = dict(zip(names, pos + vel))
        d[mu] = m
        if more:
            more(rng, d)
        return d
    return a
