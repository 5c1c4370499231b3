"""
The finite input universe shared by the property modules, and a few
independent geometric oracles.  Nothing in here calls the code under test.
"""
import itertools
import math

import numpy as N

_EXACT = {0: 0.0, 30: 0.5, 90: 1.0, 150: 0.5, 180: 0.0, 210: -0.5, 270: -1.0, 330: -0.5}


def sind(d):
    m = d % 360
    if m in _EXACT:
        return _EXACT[m]
    return math.sin(math.radians(m))


def cosd(d):
    return sind(d + 90)


def strike_vec(s):
    return N.array([sind(s), cosd(s), 0.0])


def dip_vec(s, d):
    """Unit vector down the dip of the plane"""
    return N.array([sind(s + 90) * cosd(d), cosd(s + 90) * cosd(d), -sind(d)])


def normal_vec(s, d):
    """Upward unit normal"""
    return N.array([sind(d) * sind(s + 90), sind(d) * cosd(s + 90), cosd(d)])


def frame(s, d, p):
    """Rows: in-plane axis at pitch p from strike towards down-dip, its complement, upward normal"""
    S, D, n = strike_vec(s), dip_vec(s, d), normal_vec(s, d)
    e1 = cosd(p) * S + sind(p) * D
    e2 = -sind(p) * S + cosd(p) * D
    return N.array([e1, e2, n])


def octa(lens, n):
    """
    n points in the frame's own coordinates with zero mean, uncorrelated
    coordinates and scatter that is known in closed form: concentric
    octahedra plus points in the centre. Returns (points, sum of squares).
    """
    m, r = divmod(n, 6)
    assert m >= 1
    f = (N.arange(m) + 1.0) / m
    a = N.asarray(lens, dtype=float)
    pts = N.zeros((m, 6, 3))
    for i in range(3):
        pts[:, 2 * i, i] = f * a[i]
        pts[:, 2 * i + 1, i] = -f * a[i]
    pts = N.vstack([pts.reshape(-1, 3), N.zeros((r, 3))])
    return pts, 2 * a ** 2 * (f ** 2).sum()


def cube(lens):
    return N.array(list(itertools.product(*[(-l, l) for l in lens])), dtype=float), \
        8 * N.asarray(lens, dtype=float) ** 2


def spiral(n, lens=(5.0, 2.0, 0.3)):
    """An irregular, deterministic cloud"""
    i = N.arange(n)
    return N.column_stack([
        lens[0] * N.sin(1.0 + 2.399963 * i),
        lens[1] * N.cos(0.7 * i * i + 0.3),
        lens[2] * N.sin(3.1 * i + 0.11 * i * i)])


def layout(pts, dtype="float64", order="C", perm="id"):
    p = N.array(pts)
    if perm == "rev":
        p = p[::-1]
    elif perm == "rot":
        p = N.roll(p, len(p) // 2 + 1, axis=0)
    elif perm == "interleave":
        p = N.vstack([p[::2], p[1::2]])
    p = N.array(p, dtype=dtype)
    if order == "F":
        p = N.asfortranarray(p)
    elif order == "strided":
        big = N.full((2 * len(p), 5), 77, dtype=p.dtype)
        big[::2, 1:4] = p
        p = big[::2, 1:4]
    elif order == "reversed-view":
        p = N.ascontiguousarray(p[::-1])[::-1]
    elif order == "readonly":
        p = p.copy()
        p.setflags(write=False)
    return p


GRID3 = list(itertools.product((0, 1, 2), repeat=3))


def directions(r):
    """Primitive integer directions with coordinates up to r, one of each +- pair"""
    out = []
    for v in itertools.product(range(-r, r + 1), repeat=3):
        if v > (0, 0, 0) and math.gcd(math.gcd(abs(v[0]), abs(v[1])), abs(v[2])) == 1:
            out.append(v)
    d = N.array(out, dtype=float)
    return d / N.linalg.norm(d, axis=1)[:, None]


def linedist(a, b):
    """Sine-like distance of two directions irrespective of sign"""
    a = N.asarray(a) / N.linalg.norm(a)
    b = N.asarray(b) / N.linalg.norm(b)
    return min(N.linalg.norm(a - b), N.linalg.norm(a + b))


def rotz(deg):
    """Turns azimuths by +deg (clockwise seen from above)"""
    c, s = cosd(deg), sind(deg)
    return N.array([[c, s, 0.0], [-s, c, 0.0], [0, 0, 1.0]])
