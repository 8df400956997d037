"""The planets' driver: inputs, sources and samplers."""
from .client import *
from .field import P, cmul, inv, isqr
from .interp import SymI
from .states import circle, elements, qr, state_from

SRC = CORE + ["planet.cpp", "epoch.cpp", "udpla/keplerian.cpp", "udpla/jpl_lp.cpp"]
C6 = [f"c{i}" for i in range(6)]
D6 = [f"d{i}" for i in range(6)]
K6 = [f"k{i}" for i in range(6)]
N = C6 + D6 + K6 + ["t"]
S6 = [f"s{i}" for i in range(6)]
KEP = S6 + ["mu", "ms", "ra", "sr", "ref", "t"]
TYPES = ["KEP_F", "KEP_M", "MEQ", "MEQ_R"]
MU, AU, DAY = 1.32712440041279419e20, 149597870700., 86400.


def prog():
    return program(["d_planet", "d_string"], SRC)


def state_at_t(rng):
    """A planet of given mu whose state at time t is that of an orbit (eccentricity of either kind)."""
    mu, t = qr(rng), rng.randrange(1, P)
    r, v = state_from(*elements(rng), mu)
    d = [rng.randrange(1, P) for _ in range(6)]
    a = dict(zip(D6, d))
    a.update(zip(C6, [(x - t * y) % P for x, y in zip(r + v, d)]))
    a.update(k0=mu, t=t)
    return a


def orbit(how):
    """Input of a Keplerian planet built from a state (-1) or from elements of a type."""
    def f(rng):
        mu = qr(rng)
        p, e, i, W, w, fa = elements(rng)
        r, v = state_from(p, e, i, W, w, fa, mu)
        a = {"mu": mu, "t": rng.randrange(1, P), "ref": rng.randrange(1, P)}
        for k in ("ms", "ra", "sr"):
            a[k] = rng.randrange(1, P)
        if how < 0:
            a.update(zip(S6, r + v))
        elif how < 2:
            a.update(s0=p * inv(1 - e * e) % P, s1=e)
        else:
            ti = i[1] * inv(1 + i[0]) % P
            t = inv(ti) if how == 3 else ti
            Wi = (W[0], -W[1] % P) if how == 3 else W
            z = cmul(w, Wi)
            a.update(zip(S6, [p, e * z[0] % P, e * z[1] % P, t * W[0] % P, t * W[1] % P]))
        return a
    return f


# approximate positions of the planets (1800-2050), Standish: a e i L long.peri. long.node, and rates per century
JPL = {
    "mercury": ([0.38709927, 0.20563593, 7.00497902, 252.25032350, 77.45779628, 48.33076593],
                [0.00000037, 0.00001906, -0.00594749, 149472.67411175, 0.16047689, -0.12534081]),
    "venus": ([0.72333566, 0.00677672, 3.39467605, 181.97909950, 131.60246718, 76.67984255],
              [0.00000390, -0.00004107, -0.00078890, 58517.81538729, 0.00268329, -0.27769418]),
    "earth": ([1.00000261, 0.01671123, -0.00001531, 100.46457166, 102.93768193, 0.0],
              [0.00000562, -0.00004392, -0.01294668, 35999.37244981, 0.32327364, 0.0]),
    "mars": ([1.52371034, 0.09339410, 1.84969142, -4.55343205, -23.94362959, 49.55953891],
             [0.00001847, 0.00007882, -0.00813131, 19140.30268499, 0.44441088, -0.29257343]),
    "jupiter": ([5.20288700, 0.04838624, 1.30439695, 34.39644051, 14.72847983, 100.47390909],
                [-0.00011607, -0.00013253, -0.00183714, 3034.74612775, 0.21252668, 0.20469106]),
    "saturn": ([9.53667594, 0.05386179, 2.48599187, 49.95424423, 92.59887831, 113.66242448],
               [-0.00125060, -0.00050991, 0.00193609, 1222.49362201, -0.41897216, -0.28867794]),
    "uranus": ([19.18916464, 0.04725744, 0.77263783, 313.23810451, 170.95427630, 74.01692503],
               [-0.00196176, -0.00004397, -0.00242939, 428.48202785, 0.40805281, 0.04240589]),
    "neptune": ([30.06992276, 0.00859048, 1.77004347, -55.12002969, 44.96476227, 131.78422574],
                [0.00026291, 0.00005105, 0.00035372, 218.45945325, -0.32241464, -0.00508664]),
}
# mean/equatorial radius (km) and gravitational parameter (km^3/s^2)
BODY = {"mercury": (2439.7, 22031.9), "venus": (6051.8, 324858.6), "earth": (6378.1, 398600.4),
        "mars": (3396.2, 42828.4), "jupiter": (71492., 126686534.), "saturn": (60268., 37931207.),
        "uranus": (25559., 5793951.), "neptune": (24764., 6835100.)}
BODIES = list(JPL)
