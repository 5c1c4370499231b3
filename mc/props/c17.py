"""Coordinate, vector and rotation helpers are exact and mutually inverse."""
import itertools
import math

import numpy as N
from attitude import coordinates as co
from attitude import geom
from attitude import stereonet as st
from attitude.coordinates import rotations as ro
from attitude.geom import util as gu
from attitude.geom.transform import rotate_2D
from attitude.orientation import PCAOrientation, ReconstructedPlane
from attitude.orientation import base as ob
from attitude.orientation import pca as op
from attitude.orientation.grouped import GroupedOrientation

from ..engine import part_of, split
from ..universe import cosd, directions, frame, normal_vec, sind, spiral

BOUNDS = dict(
    quick="all integer vectors with coordinates in -2..2 (and pairs of them), at 6 scales; all longitudes x latitudes on a 5 degree grid as scalars and as arrays; all lists of up to "
          "4 of 6 affine transformations; all pairs of 14 planes",
    thorough="all integer vectors with coordinates in -4..4 and pairs of coordinates in -3..3, at 6 scales; 1 degree grid; lists of up to 5 of 7 transformations")
ASSUMPTIONS = ["the rotation between two vectors is checked for non-parallel vectors", "null vectors have no direction and are left out"]


def vecs(r):
    return [N.array(v, dtype=float) for v in itertools.product(range(-r, r + 1), repeat=3) if any(v)]


def scalar_ok(x):
    return N.ndim(x) == 0


def singles(ctx, r, scales):
    for v, k in itertools.product(vecs(r), scales):
        with ctx.case((v, k)):
            w = v * k
            keep = w.copy()
            ctx.step(6)
            s = co.spherical(w)
            L = math.sqrt((w ** 2).sum())
            sp = N.asarray(s, dtype=float).ravel()
            ctx.require(sp.shape == (3,), "spherical coordinates have shape {}", N.shape(s))
            ctx.require(abs(sp[0] - L) < 1e-12 * L, "radius {} instead of {}", sp[0], L)
            ctx.require(abs(math.cos(sp[1]) - w[2] / L) < 1e-9 and 0 <= sp[1] <= math.pi + 1e-12, "colatitude {}", sp[1])
            if w[0] or w[1]:
                ctx.require(abs(math.cos(sp[2]) - w[0] / math.hypot(w[0], w[1])) < 1e-9 and abs(math.sin(sp[2]) - w[1] / math.hypot(w[0], w[1])) < 1e-9, "longitude {}", sp[2])
            ctx.close(N.array(co.cartesian(s), dtype=float).ravel(), w, "cartesian of spherical", 1e-9, L)
            ctx.close(N.array(co.cartesian(sp), dtype=float).ravel(), w, "cartesian of one spherical vector", 1e-9, L)
            u = gu.unit_vector(w)
            ctx.close(u, w / L, "unit vector", 1e-12)
            ctx.close(op.normalize(w), w / L, "normalize", 1e-12)
            for m in (w, w[:2]) if (w[0] or w[1]) else (w,):
                p = N.asarray(gu.perpendicular_vector(m), dtype=float)
                ctx.require(p.shape == m.shape and abs(N.linalg.norm(p) - 1) < 1e-9, "perpendicular vector {} is not a unit vector", p)
                ctx.require(abs(p.dot(m)) < 1e-9 * N.linalg.norm(m), "{} is not perpendicular to {}", p, m)
            ctx.close(gu.augment(w), N.append(w, 1), "augment", 0)
            ctx.close(op.augment_vector(w), N.append(w, 1), "augment_vector", 0)
            ctx.close(gu.column(w), w.reshape(3, 1), "column", 0)
            ctx.close(gu.vector(*w), w, "vector", 0)
            for j in (1., -1., 3., -.5, 1e-6, 1e6):
                a = gu.angle(w, w * j)
                c = gu.angle(w, w * j, cos=True)
                ctx.require(abs(c - math.copysign(1, j)) < 1e-12 and -1 <= c <= 1, "cosine with own multiple {}", c)
                ctx.require(abs(a - (0 if j > 0 else math.pi)) < 1e-6, "angle with own multiple {}", a)
            ctx.require(N.array_equal(keep, w), "argument was changed")
            ctx.state((v, k), outcome=k)


def pairs(ctx, r, part, parts):
    V = vecs(r)
    for v, w in part_of(itertools.product(V, V), part, parts):
        with ctx.case((v, w)):
            ctx.step(2)
            keep = v.copy(), w.copy()
            cr = N.cross(v, w)
            true = math.atan2(N.linalg.norm(cr), v.dot(w))
            a = gu.angle(v, w)
            ctx.require(abs(a - true) < 1e-7, "angle {} instead of {}", a, true)
            ctx.require(abs(gu.angle(w, v) - a) < 1e-12 and abs(gu.angle(v * 7, w * .01) - a) < 1e-7 and abs(gu.angle(v * 1e-9, w * 1e-7) - a) < 1e-7 and abs(gu.angle(v * 1e9, w * 1e-9) - a) < 1e-7 and abs(gu.angle(-v, w) - (math.pi - a)) < 1e-7, "angle is not symmetric or scale invariant")
            ctx.require(abs(gu.angle(v, w, cos=True) - math.cos(true)) < 1e-9, "cosine")
            if N.linalg.norm(cr) > 1e-9:
                R = N.asarray(ro.transform(v, w), dtype=float)
                ctx.close(R.dot(R.T), N.eye(3), "rotation is not orthogonal", 1e-9)
                ctx.require(abs(N.linalg.det(R) - 1) < 1e-9, "rotation is not proper")
                ctx.close(R.dot(v / N.linalg.norm(v)), w / N.linalg.norm(w), "rotation does not carry the first vector onto the second", 1e-7)
                ctx.close(R.dot(cr), cr, "axis of the rotation", 1e-7)
                ctx.close(ro.transform(v * 3, w * .2), R, "rotation of scaled vectors", 1e-7)
                ctx.close(ro.transform(v * 1e-7, w * 1e5), R, "rotation of scaled vectors", 1e-7)
                ctx.close(ro.transform(v * 1e6, w * 1e-3), R, "rotation of scaled vectors", 1e-7)
                ctx.close(ro.transform(v.tolist(), w.tolist()), R, "rotation of lists", 1e-9)
            for v2, w2 in ((v[:2], w[:2]), (v[1:], w[1:])):
                if v2.any() and w2.any():
                    t2 = abs(math.atan2(v2[0] * w2[1] - v2[1] * w2[0], v2.dot(w2)))
                    ctx.require(abs(gu.angle(v2, w2) - t2) < 1e-7 and abs(gu.angle(v2, w2, cos=True) - math.cos(t2)) < 1e-9, "angle of two-dimensional vectors {} {}", v2, w2)
            ctx.require(N.array_equal(keep[0], v) and N.array_equal(keep[1], w), "arguments were changed")
            ctx.state((v, w), outcome=N.linalg.norm(cr) > 1e-9)


def close_pairs(ctx):
    """The rotation between vectors that are nearly, but not quite, parallel or opposite"""
    V = [N.array(v, dtype=float) for v in ((1, 0, 0), (0, 0, 2), (1, -2, 3), (-5, .1, .3), (0, 1, 1))]
    for v, w, e, sg in ctx.cases(itertools.product(V, V, (.3, .05, 1e-2, 1e-3, 3e-4, 1e-4, 1e-5), (1, -1))):
        p = N.cross(v, w)
        if not p.any():
            continue
        p = p / N.linalg.norm(p)
        with ctx.case((v, w, e, sg)):
            ctx.step()
            x = sg * (v * N.cos(e) + N.cross(p, v) * N.sin(e)) * 3
            R = N.asarray(ro.transform(v, x), dtype=float)
            # the code takes the angle from its cosine
            tol = 1e-9 + 4e-15 / e
            ctx.close(R.dot(R.T), N.eye(3), "rotation is not orthogonal", 1e-9)
            ctx.close(R.dot(v / N.linalg.norm(v)), x / N.linalg.norm(x), "rotation does not carry the first vector onto the second", tol)
            ctx.state((v, w, e, sg), outcome=e)


def lonlat(ctx, step, part, parts):
    lats = list(range(-90, 91, step))
    for lo in part_of(range(-180, 181, step), part, parts):
        las = N.radians(N.array(lats, dtype=float))
        los = N.radians(N.full(len(lats), float(lo)))
        with ctx.case(("array", lo)):
            unit = N.array([N.cos(las) * N.cos(los), N.cos(las) * N.sin(los), N.sin(las)])
            C = N.asarray(ro.cartesian(los, las), dtype=float)
            ctx.close(C, unit, "cartesian(lon, lat)", 1e-12)
            S = N.asarray(st.sph2cart(los, las), dtype=float)
            ctx.close(S, N.array([-unit[1], -unit[2], unit[0]]), "stereonet sph2cart", 1e-12)
            F = N.asarray(ro.from_stereonet(los, las), dtype=float)
            # stereonet x is down, y east and z north
            e, n, u = unit[1], unit[2], -unit[0]
            ctx.close(N.array([N.cos(F[1]) * N.cos(F[0]), N.cos(F[1]) * N.sin(F[0]), N.sin(F[1])]), N.array([e, n, u]), "from_stereonet", 1e-7)
            B = N.asarray(ro.to_stereonet(*F), dtype=float)
            ctx.close(N.array([N.cos(B[1]) * N.cos(B[0]), N.cos(B[1]) * N.sin(B[0]), N.sin(B[1])]), unit, "to_stereonet of from_stereonet", 1e-6)
            T = N.asarray(ro.to_stereonet(los, las), dtype=float)
            ctx.close(N.array([N.cos(T[1]) * N.cos(T[0]), N.cos(T[1]) * N.sin(T[0]), N.sin(T[1])]), N.array([-unit[2], unit[0], unit[1]]), "to_stereonet", 1e-7)
            G = N.asarray(ro.from_stereonet(*T), dtype=float)
            ctx.close(N.array([N.cos(G[1]) * N.cos(G[0]), N.cos(G[1]) * N.sin(G[0]), N.sin(G[1])]), unit, "from_stereonet of to_stereonet", 1e-6)
            ctx.close(co.cartesian(co.spherical(C)), C, "spherical and back of an array", 1e-9)
            ctx.close(co.spherical(C)[:, 1], N.pi / 2 - las, "colatitude", 1e-6)
            for i in (0, len(lats) // 2, len(lats) // 3):
                # one row
                ctx.close(co.cartesian(co.spherical(unit[:, i:i + 1])), unit[:, i:i + 1], "spherical and back of one row", 1e-9)
                ctx.close(N.asarray(co.spherical(unit[:, i:i + 1])), N.asarray(co.spherical(unit))[i:i + 1], "spherical of one row", 1e-9)
            ctx.step(7)
        for i, la in enumerate(lats):
            with ctx.case((lo, la)):
                a, b = math.radians(lo), math.radians(la)
                ctx.step(4)
                ctx.close(N.asarray(ro.cartesian(a, b), dtype=float), C[:, i], "scalar cartesian", 1e-12)
                ctx.close(N.asarray(st.sph2cart(a, b), dtype=float), S[:, i], "scalar sph2cart", 1e-12)
                ctx.close(N.asarray(ro.from_stereonet(a, b), dtype=float), F[:, i], "scalar from_stereonet", 1e-9)
                ctx.close(N.asarray(ro.to_stereonet(a, b), dtype=float), T[:, i], "scalar to_stereonet", 1e-9)
                ctx.state((lo, la))
    if part == 0:
        with ctx.case("whole grid"):
            # one long array
            g = N.radians(N.array([(a, b) for a in range(-180, 181, step) for b in lats], dtype=float)).T
            unit = N.array([N.cos(g[1]) * N.cos(g[0]), N.cos(g[1]) * N.sin(g[0]), N.sin(g[1])])
            ctx.close(ro.cartesian(*g), unit, "cartesian(lon, lat)", 1e-12)
            sp = N.asarray(co.spherical(unit * 7), dtype=float)
            ctx.close(sp[:, 1], N.pi / 2 - g[1], "colatitude", 1e-6)
            ctx.close(sp[:, 0], N.full(len(sp), 7.), "radius", 1e-9)
            ctx.close(co.cartesian(sp), unit * 7, "spherical and back", 1e-9)
            for f, h in ((ro.to_stereonet, ro.from_stereonet), (ro.from_stereonet, ro.to_stereonet)):
                B = N.asarray(h(*f(*g)), dtype=float)
                ctx.close(N.array([N.cos(B[1]) * N.cos(B[0]), N.cos(B[1]) * N.sin(B[0]), N.sin(B[1])]), unit, "to and from stereonet", 1e-6)
            ctx.step(6)
    # rotations in the plane and about the vertical
    for a in range(-360, 361, step):
        with ctx.case(("rotation", a)):
            r = math.radians(a)
            M = N.array([[math.cos(r), -math.sin(r)], [math.sin(r), math.cos(r)]])
            ctx.close(rotate_2D(r), M, "rotate_2D", 1e-12)
            A = N.eye(3)
            A[:2, :2] = M
            ctx.close(ob.rotation(r), A, "rotation", 1e-12)
            ctx.close(gu.augment_tensor(M), A, "augment_tensor", 1e-12)
            A4 = N.eye(4)
            A4[:2, :2] = M
            ctx.close(gu.augment_tensor(M, 4), A4, "augment_tensor to four dimensions", 1e-12)
            ctx.close(op.augment(A), gu.augment_tensor(A), "augment", 1e-12)
            ctx.step()
            ctx.state(("rotation", a))


def affine(ctx, depth, n):
    T = [N.array([[1., 0, 0, 5], [0, 1, 0, 0], [0, 0, 1, -2], [0, 0, 0, 1]]), gu.augment_tensor(frame(30, 20, 10)), gu.augment_tensor(N.diag([2., 1., .5])),
         N.array([[1., .5, 0, 0], [0, 1, 0, 1], [0, .25, 1, 0], [0, 0, 0, 1]]), gu.augment_tensor(frame(0, 90, 45)), N.eye(4), -N.eye(4)][:n]
    P = N.column_stack([spiral(5), N.ones(5)])
    for d in range(1, depth + 1):
        for seq in ctx.cases(itertools.product(range(len(T)), repeat=d)):
            with ctx.case(seq):
                ctx.step()
                M = N.asarray(op.compose_affine(*[T[i] for i in seq]))
                Q = P
                for i in seq:
                    Q = Q.dot(T[i].T)
                ctx.close(P.dot(M.T), Q, "composition in the order given", 1e-9)
                ctx.close(gu.dot(*[T[i] for i in seq]), N.linalg.multi_dot([T[i] for i in seq] + [N.eye(4)]), "product", 1e-9)
                S = N.diag([3., 2., 1., 1.])
                ctx.close(op.rotate_tensor(S, M), M.dot(S).dot(M.T), "rotate_tensor", 1e-9)
                ctx.depth(d)
                ctx.state(seq)
    with ctx.case("fixed"):
        for f in itertools.product(range(0, 360, 30), (0, 30, 90), (0, 45)):
            ctx.close(op.axis_transform(frame(*f)), frame(*f), "axis_transform", 1e-9)
        M = N.asarray(ro.stereonet_transformation())
        ctx.close(M.dot([1, 0, 0]), [0, 0, 1], "stereonet transformation", 0)
        xy, xz, yz = geom.axis_aligned_transforms()
        ctx.close(xy, N.eye(3)[[0, 1]], "xy", 0)
        ctx.close(xz, N.eye(3)[[0, 2]], "xz", 0)
        ctx.close(yz, N.eye(3)[[1, 2]], "yz", 0)


def fits(ctx, step):
    F = []
    for s, d, p in itertools.product(range(0, 360, step), (0, 20, 60, 90), (0, 40)):
        F.append((("pca", s, d, p), PCAOrientation(spiral(9, (5., 3., .2)).dot(frame(s, d, p)))))
    F += [(("reconstructed", s, d), ReconstructedPlane(s, d, 30, 1, 4)) for s in (0, 130, 300) for d in (0, 45, 90)]
    F.append((("group",), GroupedOrientation(PCAOrientation(spiral(7)), PCAOrientation(spiral(8) * 2))))
    for (a, f), (b, g) in itertools.product(F, F):
        with ctx.case((a, b)):
            ctx.step()
            n, m = N.array(f.normal), N.array(g.normal)
            true = math.degrees(math.atan2(N.linalg.norm(N.cross(n, m)), n.dot(m)))
            got = geom.fit_angle(f, g)
            ctx.require(abs(got - true) < 1e-4 and abs(got - geom.fit_angle(g, f)) < 1e-9, "angle between fits {} instead of {}", got, true)
            ctx.state((a, b))
    for n, k in itertools.product((1, 2, 3, 7), (0., 1e6, -3.)):
        with ctx.case(("centered", n, k)):
            p = spiral(n) + k
            for q in (p, p.tolist(), N.asfortranarray(p)):
                keep = N.array(q)
                c = N.asarray(co.centered(q))
                ctx.close(c, p - p.mean(axis=0), "centered", 1e-9, max(1, abs(k)))
                ctx.require(N.array_equal(keep, N.array(q)), "argument was changed")
            ctx.state(("centered", n, k))


TASKS = dict(close_pairs=close_pairs, singles=singles, pairs=pairs, lonlat=lonlat, affine=affine, fits=fits)


def shards(tier):
    t = tier == "thorough"
    return ([("singles", dict(r=4 if t else 2, scales=[1., .5, 1e-4, 1e5, 3., 1e-9] if t else [1., .1, 1e-4, 1e5, 1e-9, 1e12]))] + split("pairs", 32 if t else 8, r=3 if t else 2)
            + split("lonlat", 8 if t else 4, step=1 if t else 5) + [("close_pairs", {}), ("affine", dict(depth=5 if t else 4, n=7 if t else 6)), ("fits", dict(step=30 if t else 60))])
