"""Symbolic fly-by geometries."""
from .client import CORE
from .field import P, Reject, cmul, inv, isqr, sqrt
from .states import qr

SRC = ["core_astro/flyby.cpp", "planet.cpp", "epoch.cpp"] + CORE
IN = ["ax", "ay", "az", "bx", "by", "bz", "mu", "rs", "rad", "muc"]
VO = ["ax", "ay", "az", "px", "py", "pz", "rp", "beta", "mu"]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b)) % P


def cross(a, b):
    return [(a[1] * b[2] - a[2] * b[1]) % P, (a[2] * b[0] - a[0] * b[2]) % P, (a[0] * b[1] - a[1] * b[0]) % P]


def pair(rng):
    """Two vectors of 'positive' length with a 'positive' angle between them."""
    while True:
        a, b = ([rng.randrange(1, P) for _ in range(3)] for _ in range(2))
        A, B = dot(a, a), dot(b, b)
        if not (isqr(A) and isqr(B)):
            continue
        A, B = sqrt(A), sqrt(B)
        c = dot(a, b) * inv(A * B) % P
        if isqr(1 - c * c) and isqr(1 - c) and isqr(1 + c):
            return a, b, A, B, (c, sqrt(1 - c * c))


def limit(mu, r, v2):
    """Half the largest deflection at pericentre radius r: (cos, sin), sin = 1/e."""
    s = inv(1 + r * inv(mu) * v2)
    return sqrt(1 - s * s), s


def draw(rng):
    while True:
        a, b, A, B, al = pair(rng)
        mu, rs = qr(rng), qr(rng)
        try:
            c, s = limit(mu, rs, A * A % P)
        except Reject:
            continue
        if isqr(s) and isqr(1 + c) and isqr(1 - s):
            return dict(zip(IN, a + b + [mu, rs, qr(rng), qr(rng)])), (A, B, al, cmul((c, s), (c, s)))


def drawv(rng):
    while True:
        r, q, R, Q, al = pair(rng)        # relative velocity and planet velocity
        mu, rp = qr(rng), qr(rng)
        try:
            c, s = limit(mu, rp, R * R % P)
        except Reject:
            continue
        j = cross(r, q)
        if isqr(s) and isqr(1 + c) and isqr(1 - s) and isqr(dot(j, j)):
            a = [(x + y) % P for x, y in zip(r, q)]
            return dict(zip(VO, a + q + [rp, rng.randrange(1, P), mu])), (r, q, R, j, cmul((c, s), (c, s)))
