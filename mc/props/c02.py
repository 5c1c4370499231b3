"""Strike, dip and rake describe the fitted plane by the right-hand rule."""
import itertools

import numpy as N
from attitude.orientation import PCAOrientation

from ..engine import part_of, split
from ..universe import GRID3, dip_vec, frame, layout, normal_vec, octa, strike_vec

BOUNDS = dict(
    quick="every integer strike 0..359 x dip 0..90 (x pitch 25), quarter-degree strikes at 8 dips, a coarse grid with fits of 6 to 20001 points, all sign patterns of the axes on a 15 degree grid and on 20 dips down to 1e-7 degree off horizontal and vertical, "
          "all 3-subsets and coplanar 4-subsets of {0,1,2}^3",
    thorough="every half-degree strike x integer dip x 6 pitches, all sign patterns on a 5 degree grid, all 3- and 4-subsets of {0,1,2}^3")
ASSUMPTIONS = ["angles are compared to 1e-6 rad", "the strike of an exactly horizontal plane is arbitrary but must be finite and in range"]
TOL = 2e-6


def check(ctx, fit, n, E=None):
    """n: true upward unit normal"""
    ctx.step()
    strike, dip = fit.strike_dip()
    ctx.require(N.isfinite([strike, dip]), "strike {} dip {}", strike, dip)
    ctx.require(-1e-9 <= strike <= 360 + 1e-9, "strike {} is not an azimuth", strike)
    ctx.require(-1e-9 <= dip <= 90 + 1e-9, "dip {} out of range", dip)
    m = normal_vec(strike, dip)
    d = N.linalg.norm(m - n)
    if n[2] < 1e-7:
        # a vertical plane has two equivalent strikes
        d = min(d, N.linalg.norm(m + n))
    ctx.require(d < TOL, "strike {} dip {}: upward normal would be {} instead of {}", strike, dip, m, n)
    S, D = strike_vec(strike), dip_vec(strike, dip)
    ctx.require(abs(S.dot(n)) < TOL and abs(D.dot(n)) < TOL and S[2] == 0, "strike line not in the plane")
    dd = fit.dip_direction()
    ctx.require(len(dd) == 2 and abs(dd[0] - (strike + 90)) < 1e-9 and abs(dd[1] - dip) < 1e-9,
                "dip direction {} for strike {} dip {}", dd, strike, dip)
    sdr = fit.strike_dip_rake()
    ctx.require(len(sdr) == 3 and sdr[0] == strike and sdr[1] == dip, "strike_dip_rake {} vs {}", sdr, (strike, dip))
    rake = fit.rake()
    ctx.require(N.isfinite(rake) and 0 <= rake <= 180 and rake == sdr[2], "rake {} / {}", rake, sdr[2])
    a0 = N.asarray(fit.axes)[0]
    horiz = N.hypot(n[0], n[1])
    if horiz > 1e-6:
        up = -D if abs(normal_vec(strike, dip).dot(n) - 1) < .5 else D
        up = N.cross(strike_vec(strike), n)
        up = N.array([-n[0] * n[2], -n[1] * n[2], horiz ** 2])
        up = up / N.linalg.norm(up)
        ctx.require(abs(N.cos(N.radians(rake)) - up.dot(a0)) < max(TOL, 1e-8 / horiz),
                    "rake {} but the first axis {} is at {} from the line of steepest ascent", rake, a0,
                    N.degrees(N.arccos(N.clip(up.dot(a0), -1, 1))))
    else:
        # horizontal: measured from a horizontal line perpendicular to strike
        up = N.array([-sind_(strike + 90), -cosd_(strike + 90), 0])
        ctx.require(abs(abs(N.cos(N.radians(rake))) - abs(up.dot(a0))) < 1e-5, "rake {} of horizontal plane", rake)
    # pole in terms of azimuth and slope (radians), up to sign
    az, sl = fit.gradient()
    g = N.array([N.sin(az) * N.sin(sl), N.cos(az) * N.sin(sl), N.cos(sl)])
    ctx.require(min(N.linalg.norm(g - n), N.linalg.norm(g + n)) < TOL, "gradient {} is not the pole {}", (az, sl), n)
    r = repr(fit)
    ctx.require("strike: {0:.2f} dip: {1:.2f}".format(strike, dip) in r and "rake: {0:.2f}".format(rake) in r,
                "printed form {!r}", r)


def sind_(x):
    return N.sin(N.radians(x))


def cosd_(x):
    return N.cos(N.radians(x))


LOC, _ = octa((5, 2, .3), 7)


def orient(ctx, part, parts, strikes, dips, pitches, ns=(7,)):
    """Real fits of every orientation of the grid"""
    it = part_of(itertools.product(N.arange(*strikes).tolist(), N.arange(*dips).tolist(), pitches, ns), part, parts)
    for s, d, p, m in ctx.cases(it):
        E = frame(s, d, p)
        with ctx.case((s, d, p, m)):
            fit = PCAOrientation((LOC if m == 7 else octa((5, 2, .3), m)[0]).dot(E) + (3, 4, 5))
            check(ctx, fit, E[2])
            inverted = bool(fit.axes[2][2] < 0)
            ctx.state((s, d, p, m), "inverted" if inverted else "upright")


def signs(ctx, part, parts, step, pitches):
    """Every sign pattern of the axes, which a restored fit passes through unchanged"""
    sv = N.array([10.0, 4.0, 1.0])
    it = part_of(itertools.product(range(0, 360, step), range(0, 91, step), pitches,
                                   itertools.product((1, -1), repeat=3)), part, parts)
    for s, d, p, sg in ctx.cases(it):
        E = frame(s, d, p)
        A = E * N.array(sg)[:, None]
        with ctx.case((s, d, p, sg)):
            fit = PCAOrientation(LOC.dot(E), axes=A * sv)
            ctx.close(fit.axes, A, "restored axes")
            ctx.require(fit.normal[2] >= 0, "normal down")
            check(ctx, fit, E[2])
            ctx.state((s, d, p, sg), "signs")


NEAR = [1e-7, 1e-5, 1e-4, 1e-3, .01, .1]
NEAR = [0.0] + NEAR + [90 - x for x in NEAR] + [90.0] + [x + e for x in (30, 45, 60) for e in (-1e-4, 1e-4)]


def near(ctx, part, parts, step, pitches):
    """Slightly off the horizontal and the vertical, next to the cardinal azimuths, with axes of either sign"""
    sv = N.array([10.0, 4.0, 1.0])
    strikes = [s + e for s in range(0, 360, step) for e in (0, 1e-5, -1e-5)]
    it = part_of(itertools.product(strikes, NEAR, pitches, itertools.product((1, -1), repeat=3)), part, parts)
    for s, d, p, sg in ctx.cases(it):
        E = frame(s, d, p)
        A = E * N.array(sg)[:, None]
        with ctx.case((s, d, p, sg)):
            if sg == (1, 1, 1):
                check(ctx, PCAOrientation(LOC.dot(E)), E[2])
            check(ctx, PCAOrientation(LOC.dot(E), axes=A * sv), E[2])
            ctx.state((s, d, p, sg), "near")


def exact(ctx, part, parts, k):
    """Exactly representable planes through lattice points"""
    it = part_of(itertools.combinations(range(27), k), part, parts)
    for idx in ctx.cases(it):
        pts = N.array([GRID3[i] for i in idx], dtype=float)
        n = None
        for i, j in itertools.combinations(range(1, k), 2):
            v = N.cross(pts[i] - pts[0], pts[j] - pts[0])
            if v.any():
                n = v
                break
        if n is None or N.abs((pts - pts[0]).dot(n)).max() > 0:
            continue
        n = n / N.linalg.norm(n)
        if n[2] < 0:
            n = -n
        for sg in ((1, "int64"), (-1, "float64"), (1000, "float32")):
            with ctx.case(dict(idx=idx, scale=sg)):
                fit = PCAOrientation(layout(pts * sg[0], sg[1]))
                nn = n
                if sg[1] == "float32":
                    s, d = fit.strike_dip()
                    m = normal_vec(s, d)
                    ctx.require(min(N.linalg.norm(m - nn), 9 if nn[2] > 1e-5 else N.linalg.norm(m + nn)) < 2e-3,
                                "float32 strike {} dip {}", s, d)
                else:
                    check(ctx, fit, nn)
                ctx.state(("exact", idx, sg), "horizontal" if n[2] == 1 else ("vertical" if n[2] == 0 else "dipping"))


TASKS = dict(near=near, orient=orient, signs=signs, exact=exact)


def shards(tier):
    if tier == "quick":
        return (split("orient", 16, strikes=(0, 360, 1), dips=(0, 91, 1), pitches=[25])
                + split("orient", 4, strikes=(0, 360, .25), dips=(0.5, 91, 12.75), pitches=[100])
                + split("orient", 4, strikes=(0, 360, 22.5), dips=(0, 91, 15), pitches=[25, 155], ns=[6, 8, 9, 10, 15, 30, 51, 64, 101, 333, 1001, 20001])
                + split("signs", 8, step=15, pitches=[0, 20, 90, 135]) + split("near", 8, step=15, pitches=[0, 50, 90])
                + split("exact", 2, k=3) + split("exact", 4, k=4))
    return (split("orient", 64, strikes=(0, 360, .5), dips=(0, 91, 1), pitches=[0, 25, 45, 90, 120, 170])
            + split("orient", 16, strikes=(0, 360, .125), dips=(0.25, 90, 3.0), pitches=[100])
            + split("signs", 32, step=5, pitches=[0, 20, 90, 135]) + split("near", 16, step=5, pitches=[0, 50, 90, 130])
            + split("exact", 2, k=3) + split("exact", 4, k=4) + split("exact", 16, k=5))
