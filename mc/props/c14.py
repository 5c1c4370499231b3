"""Tangent cones and major axes of ellipsoids are exact."""
import itertools
import math

import numpy as N
from attitude.geom.conics import Conic, angle_subtended, conic
from attitude.geom.util import augment, augment_tensor
from attitude.orientation import PCAOrientation

from ..engine import part_of, split
from ..universe import cosd, directions, frame, linedist, octa, rotz, sind, spiral

BOUNDS = dict(
    quick="ellipses and ellipsoids: 7 axis-length tuples x 6 orientations x 5 positions x overall factors; viewpoints: 13 directions x 5 distances, origin and explicit, "
          "in 2 and 3 dimensions; fits: 4 clouds x 60 orientations x axis signs x levels",
    thorough="10 axis-length tuples x 20 orientations x 8 positions; 49 directions x 8 distances; fits: 7 clouds x 300 orientations")
ASSUMPTIONS = ["viewpoints closer to the surface than 1e-3 of the radius are left out", "the error cone of a fit is defined only if the origin is outside its error ellipsoid"]
L3 = [(1., 1., 1.), (3., 2., .5), (2., 2., .1), (.01, .02, .03), (100., 10., 1.), (1., 5., 5.), (1e3, 1., 1e-2), (7., 6., 5.), (1e-3, 1., 1.), (4., 4., 4.), (1e4, 5e3, 2e3), (1e5, 1e5, 1e5), (1e-4, 2e-4, 5e-4)]
L2 = [(1., 1.), (3., .5), (.1, 20.), (2., 2.), (1e3, 1e-1), (3e4, 1e4)]


def rots(dim, m):
    if dim == 2:
        return [rotz(a)[:2, :2] for a in (0, 30, 45, 90, 137, 200)][:m]
    return [N.eye(3)] + [frame(a, b, c) for a, b, c in ((30, 20, 10), (90, 0, 0), (0, 90, 45), (123, 45, 67), (300, 80, 170), (10, 5, 2), (45, 45, 45), (180, 30, 90), (270, 60, 120))][:m - 1]


def build(lens, R, c, factor, how):
    """Ellipsoid c + R^T diag(lens) u, |u|=1: rows of R are the directions of its axes"""
    dim = len(lens)
    e = Conic.from_semiaxes(lens)
    if how == "operations":
        e = e.transform(augment_tensor(R)).translate(N.array(c[:dim], dtype=float))
        return conic(N.array(e) * factor)
    A = R.T.dot(N.diag(N.array(lens) ** -2)).dot(R)
    cc = N.array(c[:dim], dtype=float)
    M = N.zeros((dim + 1, dim + 1))
    M[:-1, :-1] = A
    M[:-1, -1] = M[-1, :-1] = -A.dot(cc)
    M[-1, -1] = cc.dot(A).dot(cc) - 1
    return conic(M * factor)


def ellipsoids(dims, nl, nr, centres):
    for dim in dims:
        for lens, R, c, f, how in itertools.product((L2 if dim == 2 else L3)[nl if nl < 0 else 0:nl if nl > 0 else None], range(nr), centres, (1., 25.), ("operations", "matrix")):
            rs = rots(dim, nr)
            if R < len(rs):
                yield dim, lens, R, c, f, how


CENTRES = [(0, 0, 0), (5, 0, 0), (1., -2., .5), (0, 0, -40.), (1e3, 2e3, 3e3), (0, .1, .2), (-7, -7, -7), (.5, 100, 3)]


def check_axes(ctx, ax, E, lens, R, c):
    ax = N.array(ax)
    dim = len(lens)
    ll = N.linalg.norm(ax, axis=1)
    if not ctx.require(N.isfinite(ax), "major axes {}", ax):
        return
    cond = max(lens) / min(lens)
    off = 1 + N.linalg.norm(c) / min(lens)
    tol = 1e-9 + 1e-15 * (cond * off) ** 2
    if tol > 1e-3:
        ctx.notes["left out: ill-conditioned"] += 1
        return
    exp = N.sort(lens)
    if not ctx.require(N.abs(N.sort(ll) - exp) < tol * 10 * exp, "lengths {} instead of {}", N.sort(ll), exp):
        return
    G = (ax / ll[:, None]).dot((ax / ll[:, None]).T)
    ctx.close(G, N.eye(dim), "major axes are not perpendicular", 1e-9)
    for a, l in zip(ax, ll):
        near = [i for i in range(dim) if abs(lens[i] - l) < .02 * l]
        # component outside of the true axes of about that length
        rest = a / l - sum(R[i].dot(a / l) * R[i] for i in near)
        ctx.require(N.linalg.norm(rest) < 1e-6 + tol * 100, "axis {} is not along an axis of the ellipsoid", a)
        for s in (1, -1):
            p = N.array(c[:dim]) + s * a
            ctx.require(abs(float(E.solve(augment(p)))) < (tol * 100) * N.abs(N.array(E)).max() * (1 + N.abs(p).max()) ** 2, "axis does not end on the surface")
    ctx.require(N.all(N.diff(ll) > -1e-6 * exp[-1]) or N.all(N.diff(ll) < 1e-6 * exp[-1]), "axes are not sorted: {}", ll)


def major(ctx, part, parts, dims, nl, nr, nc):
    for dim, lens, r, c, f, how in part_of(ellipsoids(dims, nl, nr, CENTRES[:nc]), part, parts):
        with ctx.case((dim, lens, r, c, f, how)):
            R = rots(dim, nr)[r]
            E = build(lens, R, c, f, how)
            before = N.array(E)
            ctx.step()
            check_axes(ctx, E.major_axes(), E, N.array(lens), R, N.array(c, dtype=float))
            ctx.close(N.array(E), before, "ellipsoid was changed", 0)
            ctx.state((dim, lens, r, c, f, how), outcome=(dim, how))


def cut(lens, R, c, v):
    """Centre and semi-axes of the contour seen from v"""
    dim = len(lens)
    L = R.T.dot(N.diag(lens))
    w = N.linalg.solve(L, v - c)
    k = N.linalg.norm(w)
    if k < 1 + 1e-3:
        return None
    centre = c + L.dot(w / k ** 2)
    rad = math.sqrt(1 - 1 / k ** 2)
    basis = N.linalg.svd(w[None, :])[2][1:]
    return centre, N.linalg.svd(L.dot(basis.T) * rad, compute_uv=False), k


def cones(ctx, part, parts, dims, nl, nr, nc, r, dist):
    for dim, lens, ri, c, f, how in part_of(ellipsoids(dims, nl, nr, CENTRES[:nc]), part, parts):
        R = rots(dim, nr)[ri]
        cc = N.array(c[:dim], dtype=float)
        dirs = directions(r) if dim == 3 else N.array([(cosd(a), sind(a)) for a in range(0, 360, 30)])
        views = [("origin", N.zeros(dim))] + [((i, k, s), cc + s * dirs[i] * k * max(lens)) for i in range(len(dirs)) for k in dist for s in (1, -1)]
        E = build(lens, R, c, f, how)
        M = N.array(E)
        for name, v in views:
            q = cut(N.array(lens), R, cc, v)
            if q is None:
                continue
            centre, semi, k = q
            cond = max(lens) / min(lens) * k
            off = 1 + (N.linalg.norm(cc) + N.linalg.norm(v)) / min(lens)
            tol = 1e-8 + 1e-15 * (off * cond) ** 2
            if tol > 1e-3:
                ctx.notes["left out: ill-conditioned"] += 1
                continue
            with ctx.case((dim, lens, ri, c, f, how, name)):
                ctx.step()
                kw = {} if isinstance(name, str) and f == 1 else dict(viewpoint=v)
                v0 = N.array(v)
                ang = N.atleast_1d(E.angle_subtended(**kw))
                tan = N.atleast_1d(angle_subtended(E, tangent=True, **kw))
                B = N.linalg.norm(centre - v)
                ctx.require(tan.shape == semi.shape and (N.abs(tan - semi / B) < tol * 100 * (semi / B)).all(), "tangents {} instead of {}", tan, semi / B)
                ctx.require(ang.shape == semi.shape and (N.abs(ang - N.arctan(semi / B)) < tol * 100 * N.arctan(semi / B)).all(), "angles {} instead of {}", ang, N.arctan(semi / B))
                con, T, o = E.projection(**kw)
                T = N.array(T)
                ctr = augment(N.array(con.center())).dot(T)[:-1]
                size = max(lens) + N.linalg.norm(cc) + N.linalg.norm(v)
                ctx.close(ctr, centre, "centre of the cut", tol * 10, size)
                ax = N.array(con.major_axes())
                for u in ([N.array([1.]), N.array([-1.])] if dim == 2 else [N.array([cosd(a), sind(a)]) for a in range(0, 360, 45)]):
                    p = augment(N.array(con.center()) + u.dot(ax)).dot(T)[:-1]
                    y = N.linalg.solve(R.T.dot(N.diag(lens)), p - cc)
                    w = N.linalg.solve(R.T.dot(N.diag(lens)), v - cc)
                    ctx.require(abs(N.linalg.norm(y) - 1) < tol * 100, "contour point {} is not on the surface", p)
                    ctx.require(abs(y.dot(w) - 1) < tol * 1000, "tangent plane at {} does not contain the viewpoint", p)
                ctx.close(v, v0, "viewpoint was changed", 0)
                ctx.close(N.array(E), M, "ellipsoid was changed", 0)
                ctx.state((dim, lens, ri, c, f, how, name), outcome=(dim, how))


CLOUDS = [(40, (5., 3., .2)), (12, (20., 10., .5)), (200, (100., 4., 1.)), (25, (.05, .03, .002)), (9, (4., 3., 2.)), (60, (1., .9, .05)), (30, (6., 6., .1))]


def fits(ctx, part, parts, clouds, ds):
    for (m, l), s, d, p, sg in part_of(itertools.product(CLOUDS[:clouds], range(0, 360, ds), (0, 10, 45, 80, 90), (0, 30), ((1, 1, 1), (-1, -1, -1), (1, -1, -1), (-1, 1, 1))), part, parts):
        with ctx.case((m, l, s, d, p, sg)):
            F = frame(s, d, p)
            arr = spiral(m, l).dot(F) + (3., 2., 1.)
            q = PCAOrientation(arr)
            up = N.sign(q.axes[2].dot(F[2]))
            q = PCAOrientation(arr, axes=(q.axes * up) * N.array(sg, dtype=float)[:, None] * q.singular_values)
            A = N.array(q.axes)
            if A[2, 2] < 0:
                A = -A
            sv = q.singular_values
            a2 = 4 * sv * N.var(q.rotated(), axis=0)
            h = sv[0] * sv[1]
            ctx.step()
            if h ** 2 < a2[2] * 1.01:
                ctx.notes["left out: origin inside"] += 1
                continue
            vert = abs(A[2, 2]) < 1e-9
            E = N.array(q.as_conic())
            ctr = N.linalg.solve(E[:3, :3], -E[:3, 3])
            if vert and ctr.dot(A[2]) < 0:
                A = -A
            ctx.close(ctr, h * A[2], "centre of the error ellipsoid", 1e-7)
            for i in range(3):
                for sgn in (1, -1):
                    x = N.append(h * A[2] + sgn * N.sqrt(a2[i]) * A[i], 1.)
                    ctx.require(abs(x.dot(E).dot(x)) < 1e-6 * (1 + h ** 2 / a2.min()), "axis {} of the error ellipsoid", i)
            # the hyperboloid with the same semi-axes
            k = N.diag(list(1 / a2[:2]) + [-1 / a2[2], -1])
            T = N.eye(4)
            T[:3, :3] = A
            for rot, want in ((False, k), (True, T.T.dot(k).dot(T))):
                got = N.array(q.as_hyperbola(rotated=rot))
                ctx.require(got.shape == (4, 4) and N.abs(got - want).max() < 1e-7 * N.abs(want).max(), "error hyperboloid {} instead of {}", got, want)
            for kw in ({}, dict(level=1), dict(vector=True), dict(spherical=True)):
                t, pl = q.error_ellipse(**kw)
                v = N.column_stack([N.cos(pl) * N.sin(t), N.cos(pl) * N.cos(t), N.sin(pl)])
                c = v.dot(A.T)
                ctx.require(N.isfinite(v), "undefined directions")
                # written without the large terms that cancel
                lhs = c[:, 2] ** 2 / a2[2]
                rhs = (c[:, :2] ** 2 / a2[:2]).sum(axis=1) * (h ** 2 / a2[2] - 1)
                ctx.require(N.abs(lhs - rhs) < (1e-6 + 1e-14 * h ** 2 / a2[2]) * (lhs + rhs), "direction is not tangent to the error ellipsoid: {} {}", lhs[0], rhs[0])
                ctx.require(c[:, 2] > 0, "direction points away from the ellipsoid")
                ctx.require(N.linalg.norm(v[0] - v[-1]) < 1e-7, "cone is not closed")
                a = N.unwrap(N.arctan2(c[:, 1] / N.sqrt(a2[1]), c[:, 0] / N.sqrt(a2[0])))
                ctx.require(abs(abs(a[-1] - a[0]) - 2 * N.pi) < 1e-5 and len(v) > 100, "cone is not traced once")
            for level in (1, .5, 2, 3, 4.5, 10, 100):
                b2 = a2 / level ** 2
                E = N.array(q.as_conic(level=level))
                ctx.close(N.linalg.solve(E[:3, :3], -E[:3, 3]), h * A[2], "centre of the error ellipsoid", 1e-7)
                ctx.close(A.dot(E[:3, :3]).dot(A.T) * b2.min(), N.diag(b2.min() / b2), "semi-axes of the error ellipsoid at level {}".format(level), 1e-7)
                k = h ** 2 / b2[2]
                if k < 1.01:
                    continue
                t, pl = q.error_ellipse(level=level)
                c = N.column_stack([N.cos(pl) * N.sin(t), N.cos(pl) * N.cos(t), N.sin(pl)]).dot(A.T)
                x, y = c[:, 2] ** 2 / b2[2], (c[:, :2] ** 2 / b2[:2]).sum(axis=1) * (k - 1)
                ctx.require(N.abs(x - y) < (1e-6 + 1e-14 * k) * (x + y), "level {}: direction is not tangent to the error ellipsoid: {} {}", level, x[0], y[0])
            ctx.state((m, l, s, d, p, sg), outcome=sg)


TASKS = dict(major=major, cones=cones, fits=fits)


def shards(tier):
    t = tier == "thorough"
    return (split("major", 16 if t else 4, dims=[2, 3], nl=10 if t else 7, nr=10 if t else 6, nc=8 if t else 5)
            + split("major", 2, dims=[2, 3], nl=-3, nr=6, nc=5)
            + split("cones", 64 if t else 16, dims=[2, 3], nl=10 if t else 5, nr=6 if t else 3, nc=6 if t else 3, r=2 if t else 1, dist=[1.01, 1.5, 3., 10., 100.] if t else [1.01, 2., 20.])
            + split("fits", 32 if t else 8, clouds=7 if t else 4, ds=15 if t else 60))
