"""Conic and quadric operations agree with the point sets they represent."""
import itertools
import math

import numpy as N
from attitude.geom.conics import Conic, conic
from attitude.geom.util import Plane, augment, augment_tensor, plane, vector

from ..engine import part_of, split
from ..universe import directions, frame, sind, cosd

BOUNDS = dict(
    quick="14 conics in 2 and 3 dimensions x all sequences of up to 2 of 10 transformations x a probe lattice of points on, in and outside; all planes and "
          "slices with 49 directions x 4 offsets; poles and polars of every lattice point",
    thorough="14 conics x all sequences of up to 3 transformations; 145 directions x 9 offsets; slices also of all transformed conics")
ASSUMPTIONS = ["points within 1e-6 (relative) of the surface are compared only by the exact surface check"]

LENS2 = [(1., 1.), (3., .5), (.1, 20.), (1e4, 2e3), (.01, .03)]
LENS3 = [(1., 1., 1.), (3., 2., .5), (100., 10., .1), (5e3, 1e3, 200.), (.02, .05, .01)]


def bases():
    out = {}
    for l in LENS2 + LENS3:
        d = N.array(l) ** -2
        out["semi%s" % (l,)] = (lambda l=l: Conic.from_semiaxes(l), d)
        out["axes%s" % (l,)] = (lambda l=l: Conic.from_axes(l), N.array(l))
    for d in ((1., -2.), (-.5, 3.), (1., 2., -3.), (1., -.2, -3.), (-1., 5., .1)):
        out["hyp%s" % (d,)] = (lambda d=d: conic(N.diag(list(d) + [-1.])), N.array(d))
    return out


BASES = bases()


def rot(dim, a):
    if dim == 2:
        return N.array([[cosd(a), -sind(a)], [sind(a), cosd(a)]])
    return frame(a, a / 2 + 10, a)


def ops(dim):
    """name -> (apply to conic, matrix B so that the new conic holds p exactly if the old one holds B p)"""
    def tr(v):
        v = N.array(v[:dim], dtype=float)
        B = N.eye(dim + 1)
        B[:-1, -1] = -v
        return (lambda c: c.translate(v)), B

    def lin(T):
        B = N.eye(dim + 1)
        B[:dim, :dim] = T
        return (lambda c: c.transform(B)), B

    shear = N.eye(dim)
    shear[0, 1] = .75
    aff = N.eye(dim + 1)
    aff[:dim, :dim] = rot(dim, 70) * 1.5
    aff[:dim, -1] = [2, -1, .5][:dim]
    o = {"t1": tr((5, 0, 0)), "t2": tr((-1, 2, .25)), "t3": tr((0, 0, -3) if dim == 3 else (0, -3)), "t4": tr((500, -300, 200)), "t5": tr((-1e-3, -2e-3, -1.5e-3)), "r30": lin(rot(dim, 30)), "r90": lin(rot(dim, 90)),
         "scale": lin(N.diag([2., .5, 1.][:dim])), "shear": lin(shear), "affine": ((lambda c: c.transform(aff)), aff)}
    return o


def surface(d, dim):
    """Points on the surface sum d_i x_i^2 = 1"""
    pts = []
    if (d > 0).all():
        for v in (directions(1) if dim == 3 else [(cosd(a), sind(a)) for a in range(0, 180, 15)]):
            v = N.array(v)
            for s in (1, -1):
                pts.append(s * v / math.sqrt((d * v ** 2).sum()))
    else:
        for v in itertools.product((-2., -1., 0., 1., .5, 3.), repeat=dim):
            v = N.array(v)
            q = (d * v ** 2).sum()
            if q > 0.01:
                pts.append(v / math.sqrt(q))
    return N.array(pts)


def probes(d, dim):
    r = N.abs(d) ** -.5
    return N.array([v for v in itertools.product((-3., -1.1, -.6, 0., .3, .95, 2.), repeat=dim)]) * r


def value(d, p):
    return (d * p ** 2).sum() - 1


def check_conic(ctx, c, d, B, dim):
    """B: maps points of the transformed space back to the base conic"""
    inv = N.linalg.inv(B)
    S = surface(d, dim)
    scale = N.abs(N.array(c)).max()
    for q in S:
        p = inv.dot(augment(q))[:-1]
        w = N.abs(N.array(c)).dot(N.abs(augment(p))).dot(N.abs(augment(p)))
        val = float(c.solve(augment(p)))
        ctx.require(abs(val) < 1e-9 * (w + 1e-4 * scale), "surface point {} is not on the transformed conic: {}", p, val)
        # 1e-8 is numpy's own absolute tolerance
        if w < 1:
            ctx.require(bool(c.contains(p, shell_only=True)), "surface point {} not recognised", p)
    # a little in- or outside of the surface
    for q in S:
        for f in (1 - 1e-2, 1 - 1e-4, 1 + 1e-4, 1 + 1e-2):
            p = inv.dot(augment(q * f))[:-1]
            w = N.abs(N.array(c)).dot(N.abs(augment(p))).dot(N.abs(augment(p)))
            if w < 1e6:
                ctx.step()
                ctx.require(bool(c.contains(p)) == (f < 1), "point {} at {} of the surface is misjudged", p, f)
                ctx.require(not bool(c.contains(p, shell_only=True)), "point {} at {} of the surface is wrongly on it", p, f)
    n = 0
    for q in probes(d, dim):
        v = value(d, q)
        if abs(v) < 1e-6:
            continue
        p = inv.dot(augment(q))[:-1]
        got = bool(c.contains(p))
        if not ctx.require(got == (v < 0), "point {} is {} the conic instead of {}", p, "in" if got else "outside", "in" if v < 0 else "outside"):
            return
        if abs(v) > 1e-2:
            ctx.require(not bool(c.contains(p, shell_only=True)), "point {} wrongly on the surface", p)
        n += 1
    ctx.step(n + len(S))
    ctx.close(c.center(), inv.dot(augment(N.zeros(dim)))[:-1], "centre", 1e-7)
    el = bool((d > 0).all())
    ctx.require(bool(c.is_elliptical()) == el, "is_elliptical: {}", c.is_elliptical())
    ctx.require(bool(c.is_hyperbolic()) == (not el), "is_hyperbolic: {}", c.is_hyperbolic())
    ctx.require(not c.is_parabolic(), "is_parabolic")


def histories(ctx, part, parts, depth):
    for name in part_of(sorted(BASES), part, parts):
        make, d = BASES[name]
        dim = len(d)
        table = ops(dim)

        def build(initial, hist):
            c = make()
            B = N.eye(dim + 1)
            for h in hist:
                before = N.array(c)
                new = table[h][0](c)
                if not N.array_equal(before, N.array(c)):
                    raise ValueError("the conic itself was changed")
                c = new
                B = B.dot(table[h][1])
            return c, B

        ctx.bfs(name, lambda s, h: sorted(table), build, lambda s: N.round(N.array(s[1]), 6).tolist(), lambda s, h: check_conic(ctx, s[0], d, s[1], dim), depth)
        for h in itertools.product(sorted(table), repeat=1):
            if h == ("t4",) and N.abs(d).max() > 1e2:
                # too far away to invert its matrix with any accuracy
                continue
            with ctx.case(dict(initial=name, history=list(h), what="pole, polar, dual")):
                c, B = build(name, h)
                polars(ctx, c, d, B, dim)


def polars(ctx, c, d, B, dim):
    inv = N.linalg.inv(B)
    C = N.array(c)
    D = c.dual()
    ctx.close(N.array(D.dual()), C, "dual of the dual", 1e-7)
    # poles and polars
    for q in probes(d, dim):
        p = inv.dot(augment(q))[:-1]
        ctx.step()
        P = c.polar_plane(p)
        if abs(value(d, q) + 1) > 1e-3:
            back = c.pole(P)
            ctx.close(back, p, "pole of the polar", 1e-6)
            # a plane is the same whatever its factor
            for k in (-1., 3., -.01, 1e4):
                ctx.close(c.pole((N.array(P) * k).view(Plane)), p, "pole of {} times the polar".format(k), 1e-6)
        # reciprocity: p lies on the polar of every point of its polar
        Pm = N.array(P)
        if N.linalg.norm(Pm[:-1]) > 1e-9 * N.abs(Pm).max():
            pt = N.array(P.offset())
            ctx.require(abs(N.array(c.polar_plane(pt)).dot(augment(p))) <= 1e-6 * N.abs(C).max() * (1 + N.abs(pt).max()) * (1 + N.abs(p).max()) * dim ** 2, "polar planes are not reciprocal")
            m = N.array(c.polar_plane(N.array(c.pole(P))))
            ctx.require(N.linalg.norm(m / N.linalg.norm(m) - Pm / N.linalg.norm(Pm)) < 1e-6 or N.linalg.norm(m / N.linalg.norm(m) + Pm / N.linalg.norm(Pm)) < 1e-6,
                        "polar of the pole is {} instead of {}", m, Pm)
    # tangent planes
    for q in surface(d, dim):
        p = inv.dot(augment(q))[:-1]
        T = c.polar_plane(p)
        Tm = N.array(T)
        k = N.abs(Tm).max() * (1 + N.abs(p).max())
        ctx.require(abs(Tm.dot(augment(p))) < 1e-8 * k, "tangent plane does not touch the surface at {}", p)
        # expected: gradient of the base conic pulled back
        g = B.T.dot(N.append(d * q, -1.))
        ctx.require(N.linalg.norm(N.outer(g, Tm) - N.outer(Tm, g)) < 1e-7 * N.linalg.norm(g) * N.linalg.norm(Tm), "tangent plane {} instead of {}", Tm, g)
        Dm = N.array(D)
        w = N.abs(Dm).dot(N.abs(Tm)).dot(N.abs(Tm)) + 1e-6 * N.abs(Dm).max() * N.abs(Tm).max() ** 2
        ctx.require(abs(float(D.solve(Tm))) < 1e-8 * w, "dual does not contain the tangent plane at {}", p)
        # moved inwards or outwards the plane is no tangent any more
        for f in (.9, 1.1):
            h = B.T.dot(N.append(d * q, -1. * f))
            val = float(D.solve(h))
            true = 1 - f ** 2
            if abs(true) > 1e-3:
                ctx.require(abs(val) > 1e-12 * w and (val > 0) == (true > 0), "dual misjudges the plane {} ({})", h, val)
    ctx.step(len(surface(d, dim)))
    ctx.state([C.tolist()], outcome=dim)


def planes(ctx, dims, r, offs):
    for dim in dims:
        dirs = directions(r) if dim == 3 else N.array([(cosd(a), sind(a)) for a in range(0, 180, 15)])
        for v, o, k in ctx.cases(itertools.product(dirs.tolist(), offs, (1., -2., 1e-3, 50.))):
            with ctx.case((v, o, k)):
                v = N.array(v)
                p = plane(v * k, -o * k)
                ctx.step()
                n = N.array(p.normal())
                ctx.close(n, v * N.sign(k), "unit normal", 1e-9)
                ctx.close(p.offset(), v * o, "nearest point to the origin", 1e-9, max(abs(o), 1e-300))
                h = N.array(p.hessian_normal())
                ctx.close(N.linalg.norm(h[:-1]), 1., "Hessian normal form", 1e-12)
                ctx.close(h[-1], -o * N.sign(k), "distance", 1e-9)
                ctx.close(N.array(p), N.append(v * k, -o * k), "plane was changed", 1e-12)
                ctx.state((v, o, k), outcome=dim)


def slices(ctx, part, parts, r, offs, moved):
    for name, t in part_of(itertools.product(sorted(BASES), [None] + (["t2", "r30", "affine"] if moved else ["affine"])), part, parts):
        make, d = BASES[name]
        dim = len(d)
        c, B = make(), N.eye(dim + 1)
        if t:
            f, B = ops(dim)[t]
            c = f(c)
        C = N.array(c)
        dirs = directions(r) if dim == 3 else N.array([(cosd(a), sind(a)) for a in range(0, 180, 30)])
        ext = N.abs(d).min() ** -.5
        for v, o, given in ctx.cases(itertools.product(dirs.tolist(), offs, (False, True))):
            with ctx.case((name, t, v, o, given)):
                v = N.array(v)
                P = plane(v * 2., -o * ext * 2.)
                axes = None
                kw = {}
                if given:
                    # any two in-plane vectors may be given
                    a = N.linalg.svd(v[None, :])[2][1:]
                    if dim == 3:
                        a = N.array([a[0] * 2 + a[1], a[1]])
                    kw["axes"] = a
                s, T, off = c.slice(P, **kw)
                ctx.require(isinstance(s, Conic), "slice is a {}", type(s))
                s, T = conic(N.array(s)), N.array(T)
                ctx.close(N.array(c), C, "conic was changed", 0)
                ctx.close(off, v * o * ext, "offset", 1e-8)
                ctx.require(s.shape == (dim, dim) and T.shape == (dim, dim + 1), "shapes {} {}", s.shape, T.shape)
                for u in itertools.product((-2., -.7, 0., .4, 1.5), repeat=dim - 1):
                    u = N.array(u) * ext
                    ctx.step()
                    X = augment(u).dot(T)
                    ctx.require(abs(X[-1] - 1) < 1e-12, "homogeneous coordinate {}", X[-1])
                    p = X[:-1]
                    ctx.require(abs(p.dot(v) - o * ext) < 1e-7 * (1 + ext), "point {} is not on the plane", p)
                    if given:
                        ctx.close(p, u.dot(kw["axes"]) + v * o * ext, "point on the given axes", 1e-8)
                    val = value(d, B.dot(augment(p))[:-1])
                    got = float(s.solve(augment(u)))
                    w = N.abs(N.array(s)).dot(N.abs(augment(u))).dot(N.abs(augment(u)))
                    if not ctx.require(abs(got - val) < 1e-7 * max(w, 1), "slice at {} has value {} instead of {}", u, got, val):
                        break
                    if abs(val) > 1e-5 * max(w, 1):
                        ctx.require(bool(s.contains(u)) == (val < 0), "slice misjudges {}", u)
                ctx.state((name, t, v, o, given), outcome=(dim, given))


TASKS = dict(histories=histories, planes=planes, slices=slices)


def shards(tier):
    t = tier == "thorough"
    offs = [0., .1, -.5, .9, 2., -3., 10., .01, -1e3] if t else [0., .5, -2., 1e-3]
    return (split("histories", len(BASES), depth=3 if t else 2) + [("planes", dict(dims=[2, 3], r=3 if t else 2, offs=offs + [1e-4, -1e-8, 1e-12, 1e7]))]
            + split("slices", 32 if t else 16, r=2 if t else 1, offs=offs, moved=t))
