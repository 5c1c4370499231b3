"""A plane rebuilt from strike, dip, rake and errors encodes exactly them."""
import itertools

import numpy as N
from attitude.orientation import ReconstructedPlane
from attitude.orientation.reconstructed import ErrorShell
from attitude.stereonet import normal_errors, plane_errors

from ..engine import part_of, split
from ..universe import dip_vec, linedist, normal_vec, strike_vec, cosd, sind

BOUNDS = dict(
    quick="every integer strike 0..360 x dip 0..90 at 2 rakes; strike/dip/rake on a 30x15x30 degree grid (rake -180..180) x 14 error pairs x 3 normal errors; all pairs of 1152 planes for distinct identifiers, and 480 that differ in one number by 1e-2 to 1e-11",
    thorough="every integer strike x dip x rake in steps of 15; 10x10x15 degree grid x 30 error pairs x 5 normal errors; all pairs of 3456 planes for distinct identifiers")
ASSUMPTIONS = ["angular errors are between 0 and 180 degrees (exclusive)",
               "the pairing of the two errors with the two in-plane axes is that of the current tree (see known finding reconstructed-pairing)"]
ERRORS = [(1, 5), (5, 1), (2, 2), (.01, 90), (10, 45), (45, 10), (.5, .7), (120, 170), (1e-4, 1e-3), (30, 30), (89, 91), (60, 3), (1e-9, 179.9), (179.99, 1e-6)]


def check(ctx, s, d, r, e, ne, tol=1e-9):
    p = ReconstructedPlane(s, d, r, *e) if ne is None else ReconstructedPlane(s, d, r, *e, normal_error=ne)
    ctx.step()
    h = 1 if ne is None else ne
    n = normal_vec(s, d)
    A = N.asarray(p.axes, dtype=float)
    ctx.close(p.normal, n, "normal", tol)
    if not ctx.close(A.dot(A.T), N.eye(3), "axes are not orthonormal", tol):
        return p
    if abs(n[2]) > 1e-9:
        ctx.close(A[2], n, "third axis", tol)
    else:
        ctx.require(linedist(A[2], n) < tol, "third axis {} instead of {}", A[2], n)
    line = cosd(r) * strike_vec(s) + sind(r) * dip_vec(s, d)
    ctx.require(linedist(A[1], line) < tol, "second axis {} is not at rake {}: {}", A[1], r, line)
    half = [h / N.tan(N.radians(i) / 2) for i in e]
    got = N.asarray(p.hyperbolic_axes, dtype=float)
    exp = N.array([half[1], half[0], h])
    ctx.require(got.shape == (3,) and (N.abs(got - exp) <= 1e-9 * N.abs(exp)).all(), "error axes {} instead of {}", got, exp)
    ctx.close(p.covariance_matrix, N.diag(exp), "covariance matrix", 1e-9)
    ctx.require(tuple(p.strike_dip_rake()) == (s, d, r), "strike, dip, rake reported as {}", p.strike_dip_rake())
    ctx.require(tuple(p.angular_errors()) == tuple(e), "angular errors reported as {}", p.angular_errors())
    return p


def all_planes(ctx, part, parts, rakes):
    for s in part_of(range(361), part, parts):
        for d, r in itertools.product(range(91), rakes):
            with ctx.case((s, d, r)):
                check(ctx, s, d, r, (2, 7), None)
                ctx.state((s, d, r), outcome=(d == 0, d == 90))


def grid(ctx, part, parts, ds, dd, dr, errors, normals):
    for s, d, r in part_of(itertools.product(range(0, 361, ds), range(0, 91, dd), range(-180, 181, dr)), part, parts):
        for e, ne in ctx.cases(itertools.product(errors, normals)):
            with ctx.case((s, d, r, e, ne)):
                check(ctx, s, d, r, e, ne)
                ctx.state((s, d, r, e, ne))
    # also not on the integer grid, and of other number types (angles are only kept to 1e-8 next to the poles)
    for s, d, r in part_of(itertools.product((.1, 33.3, 359.9, -30., 400., 1e-7, 359.9999999), (.1, 44.4, 89.9, 1e-7, 89.9999999),
                                             (.1, 66.6, 179.9, 270., -200., 1e-7, 89.9999999, 540.)), part, parts):
        for ty in (float, N.float64):
            with ctx.case((s, d, r, ty.__name__)):
                check(ctx, ty(s), ty(d), ty(r), (ty(3.3), ty(4.4)), None, tol=5e-8)
                ctx.state((s, d, r, ty.__name__))


def identifiers(ctx, ds, dd, dr, errors):
    """Two planes have the same identifier only if they are the same plane with the same errors"""
    seen = {}
    with ctx.case("identifiers"):
        for c in itertools.product(range(0, 360, ds), range(2, 89, dd), range(0, 180, dr), errors, (None, 2.)):
            s, d, r, e, ne = c
            p = ReconstructedPlane(s, d, r, *e) if ne is None else ReconstructedPlane(s, d, r, *e, normal_error=ne)
            q = ReconstructedPlane(s, d, r, *e, **({} if ne is None else dict(normal_error=ne)))
            ctx.step()
            ctx.require(p.hash == q.hash and p.hash == p.hash, "{}: identifier changes", c)
            ctx.require(p.to_mapping()["uid"] == p.hash, "{}: identifier of the mapping", c)
            if p.hash in seen:
                ctx.fail("{} and {} have the same identifier {}".format(seen[p.hash], c, p.hash))
            seen[p.hash] = c
            ctx.state(c)
    # planes that differ very little
    for c in itertools.product((0., 130., 275.), (3., 40.), (10., 100.), [(1., 5.), (8., 3.)]):
        with ctx.case(("near", c)):
            v = [c[0], c[1], c[2], c[3][0], c[3][1]]
            h = ReconstructedPlane(*v).hash
            near = {h}
            for i, eps in itertools.product(range(5), (1e-2, 1e-5, 1e-8, 1e-11)):
                w = list(v)
                w[i] = v[i] + eps * (v[i] or 10)
                p = ReconstructedPlane(*w)
                ctx.step()
                ctx.require(p.hash not in near, "{} and {} (or another near it) have the same identifier", v, w)
                near.add(p.hash)
            ctx.state(("near", c))


def independent(ctx):
    """Several planes, and their curves, do not influence one another; the shell is the plane's own"""
    for a, b in ctx.cases(itertools.product(itertools.product((0, 120, 250), (0, 30, 90), (0, 50)), repeat=2)):
        with ctx.case((a, b)):
            p = ReconstructedPlane(*(a + (1, 4)))
            ax, hy = N.array(p.axes), N.array(p.hyperbolic_axes)
            q = ReconstructedPlane(*(b + (2, 3)))
            ctx.step(2)
            for o in (p, q):
                normal_errors(o.axes, o.covariance_matrix)
                plane_errors(o.axes, o.covariance_matrix)
            check(ctx, *(b + ((2, 3), None)))
            ctx.close(p.axes, ax, "axes", 0)
            ctx.close(p.hyperbolic_axes, hy, "error axes", 0)
            ctx.require(isinstance(p, ErrorShell), "no error shell")
            ctx.state((a, b))


def pairing(ctx):
    """Documented: rake is that of the *maximum* angular error"""
    with ctx.case((20, 30, 40, 1, 5)):
        ctx.step()
        ctx.state((20, 30, 40, 1, 5))
        p = ReconstructedPlane(20, 30, 40, 1, 5)
        line = cosd(40) * strike_vec(20) + sind(40) * dip_vec(20, 30)
        i = [k for k in (0, 1) if linedist(p.axes[k], line) < 1e-9][0]
        err = 2 * N.degrees(N.arctan2(p.hyperbolic_axes[2], p.hyperbolic_axes[i]))
        ctx.known("reconstructed-pairing", abs(err - 5) > 1e-6, "angular error along the rake is {} instead of 5".format(err))


TASKS = dict(all_planes=all_planes, grid=grid, identifiers=identifiers, independent=independent, pairing=pairing)


def shards(tier):
    t = tier == "thorough"
    more = [(a, b) for a in (.1, 1, 10, 45, 89, 150) for b in (.2, 2, 20, 60, 120)]
    return (split("all_planes", 32, rakes=list(range(0, 180, 15)) if t else [0, 35])
            + split("grid", 64 if t else 16, ds=10 if t else 30, dd=10 if t else 15, dr=15 if t else 30,
                    errors=more if t else ERRORS, normals=[None, .001, .5, 2, 1e4] if t else [None, .5, 1e4])
            + [("identifiers", dict(ds=30 if t else 60, dd=25, dr=30 if t else 45, errors=ERRORS[:6])), ("independent", {}), ("pairing", {})])
