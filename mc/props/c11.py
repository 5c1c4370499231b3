"""Stereonet error curves trace the error cone of the plane."""
import itertools

import numpy as N
from attitude import stereonet as st
from attitude.error.axes import noise_axes
from attitude.orientation import PCAOrientation, ReconstructedPlane

from ..engine import part_of, split
from ..universe import frame, octa, spiral

BOUNDS = dict(
    quick="4x4x2 orientations x 4 axis sign patterns x 10 error-axis triples (down to 1e-11) x 3 levels x 3 sheets x 2 layouts x 3 point counts, vector and iterative "
          "versions; dips within 1e-6 degrees of horizontal and vertical, levels 0 to 1000, every number of points 2..40 and to 20000; error_coords for all of {no levels, every subset of 3 levels, very small and large ones} x ellipse on/off",
    thorough="6x6x3 orientations x 8 sign patterns x 14 triples x 4 levels x 3 sheets x 2 layouts x 3 point counts; nearly horizontal and vertical: 8x8x2 orientations x 8 x 14 x 4")
ASSUMPTIONS = ["the 'ellipse' entry of error_coords is not part of the property"]
TRIPLES = [(5, 2, .3), (1, 1, .01), (100, 3, 1), (2, 5, .1), (1, 1, 1), (.5, .4, 3), (1e3, 1e-1, 1e-4), (1, 1, 0), (1e-9, 5e-10, 1e-11), (1e-6, 1e-7, 1e-8), (7, 1e-3, 1e-3), (3, 2, 1),
           (1e6, 1e5, 10), (10, 9, 8), (2, 2, 40)]
SIGNS = [(1, 1, 1), (-1, -1, -1), (1, -1, -1), (-1, 1, 1), (1, 1, -1), (-1, -1, 1), (1, -1, 1), (-1, 1, -1)]


def plane_vec(lonlat, trad):
    """Back to geographic vectors"""
    lon, lat = N.asarray(lonlat, dtype=float).T
    c = N.cos(lat)
    if trad:
        # x = tan(lon) z, y = sin(lat)
        return N.column_stack([c * N.sin(lon), N.sin(lat), c * N.cos(lon)])
    return N.column_stack([c * N.sin(lon), -c * N.cos(lon), N.sin(lat)])


def normal_vecs(lonlat, trad):
    v = plane_vec(lonlat, trad)
    if trad:
        v[:, 1] *= -1
    return v


def windings(x, y):
    a = N.unwrap(N.arctan2(y, x))
    return (a[-1] - a[0]) / (2 * N.pi)


def check_plane(ctx, curve, A, d, sheet, level, trad, n):
    """A: orthonormal axes with upward third row"""
    v = plane_vec(curve, trad)
    if not ctx.require(len(v) == n, "{} points instead of {}", len(v), n):
        return
    ctx.require(N.isfinite(v), "undefined coordinates")
    # coordinates along the axes. The curve is (cos u d0, sin u d1, w), u going once round
    c = v.dot(A.T)
    w = dict(nominal=0., upper=-1., lower=1.)[sheet] * 2 * level * d[2]
    k = 1 / N.sqrt((c[:, 0] / d[0]) ** 2 + (c[:, 1] / d[1]) ** 2)
    c = c * k[:, None]
    scale = max(abs(w), min(d[:2]))
    # rounding of a unit vector, more next to the poles of the projection, and its magnification
    cl = N.maximum(N.abs(N.cos(N.asarray(curve, dtype=float)[:, 1])), 1e-9)
    if not ctx.require(N.abs(c[:, 2] - w) <= 1e-9 * abs(w) + (3e-13 + 6e-14 / cl) * k, "{} sheet: offset from the plane {} instead of {}", sheet, c[0, 2], w):
        return
    ctx.require(N.linalg.norm(v[0] - v[-1]) < 1e-7, "curve is not closed")
    if n > 4:
        e = c[:, :2] / d[:2]
        a = N.unwrap(N.arctan2(e[:, 1], e[:, 0]))
        ctx.require(abs(abs(a[-1] - a[0]) - 2 * N.pi) < 1e-5, "curve does not go round once: {}", a[-1] - a[0])
        ctx.require(N.abs(N.abs(N.diff(a)) - 2 * N.pi / (n - 1)) < 1e-5, "points are not spread evenly")


def check_normal(ctx, curve, A, d, trad, n, level=1):
    v = normal_vecs(curve, trad)
    if not ctx.require(len(v) == n, "{} points instead of {}", len(v), n):
        return
    ctx.require(N.isfinite(v), "undefined coordinates")
    c = v.dot(A.T)
    w = 2 * level * d[2]
    # tangent planes of the cone x^2/d0^2 + y^2/d1^2 = z^2/w^2
    l = (d[0] * c[:, 0]) ** 2 + (d[1] * c[:, 1]) ** 2
    r = (w * c[:, 2]) ** 2
    ctx.require(N.abs(l - r) <= 1e-6 * (l + r) + 1e-15 * max(d) ** 2, "not the pole of a tangent plane: {} vs. {}", l[0], r[0])
    ctx.require(c[:, 2] > -1e-12, "normal points to the lower side")
    ctx.require(N.linalg.norm(v[0] - v[-1]) < 1e-7, "curve is not closed")
    if n > 4 and level > 0 and d[2] > 0 and min(d[2] / d[0], d[2] / d[1]) > 1e-6:
        e = c[:, :2]
        if n > 16:
            ctx.require(abs(abs(windings(e[:, 0], e[:, 1])) - 1) < 1e-4, "curve does not surround the normal: {}", windings(e[:, 0], e[:, 1]))
        e = e / N.linalg.norm(e, axis=1)[:, None]
        a = N.unwrap(N.arctan2(e[:, 1], e[:, 0]))
        ctx.require(N.abs(N.abs(N.diff(a)) - 2 * N.pi / (n - 1)) < 1e-4, "points are not spread evenly")


def curves(ctx, part, parts, ds, dips, pitches, nt, ns, levels, counts):
    fr = list(itertools.product(range(0, 360, ds), dips, pitches))
    for f, sg, d in part_of(itertools.product(fr, SIGNS[:ns], TRIPLES[:nt]), part, parts):
        E = frame(*f)
        ax = E * N.array(sg, dtype=float)[:, None]
        ax.setflags(write=False)
        d = N.array(d, dtype=float)
        cov = N.diag(d)
        cov.setflags(write=False)
        A = ax if ax[2, 2] > 0 else -ax
        vert = abs(ax[2, 2]) < 1e-9
        if vert:
            # the upward side of a vertical plane is a matter of rounding
            ax = ax.copy()
            ax[2, 2] = 0.
            A = ax
        for n in counts:
            for trad in (True, False):
                for level in levels:
                    with ctx.case(dict(frame=f, signs=sg, d=d, n=n, traditional=trad, level=level, curve="normal")):
                        ctx.step()
                        kw = dict(n=n, traditional_layout=trad)
                        if level != 1:
                            kw["level"] = level
                        got = st.normal_errors(ax, cov, **kw)
                        B = -A if vert and normal_vecs(got, trad)[0].dot(A[2]) < 0 else A
                        check_normal(ctx, got, B, d, trad, n, level)
                        it = st.iterative_normal_errors(ax, cov, **kw)
                        ctx.close(normal_vecs(it, trad), normal_vecs(got, trad), "iterative normal errors", 1e-6)
                        ctx.state([f, sg, d, n, trad, level], outcome=("normal", trad, n))
                for sheet in ("nominal", "upper", "lower"):
                    for level in levels if sheet != "nominal" else levels[:2]:
                        with ctx.case(dict(frame=f, signs=sg, d=d, n=n, traditional=trad, sheet=sheet, level=level)):
                            ctx.step()
                            kw = dict(n=n, sheet=sheet, level=level)
                            got = st.plane_errors(ax, cov, traditional_layout=trad, **kw)
                            if vert:
                                # either side may be called the upper one, but not both
                                other = st.plane_errors(ax, cov, traditional_layout=trad, n=n, level=level,
                                                        sheet=dict(upper="lower", lower="upper", nominal="nominal")[sheet])
                                z = plane_vec(got, trad).dot(A[2])[0] * dict(upper=-1, lower=1, nominal=0)[sheet]
                                B = A * N.array([1, 1, -1])[:, None] if z < 0 else A
                                check_plane(ctx, got, B, d, sheet, level, trad, n)
                                check_plane(ctx, other, B, d, dict(upper="lower", lower="upper", nominal="nominal")[sheet], level, trad, n)
                            else:
                                check_plane(ctx, got, A, d, sheet, level, trad, n)
                            if trad and not vert:
                                it = st.iterative_plane_errors(ax, cov, **kw)
                                g = plane_vec(got, True)
                                ctx.close(plane_vec(it, True), g, "iterative plane errors", 1e-6)
                            ctx.state([f, sg, d, n, trad, sheet, level], outcome=(sheet, trad, n))


def combined(ctx, part, parts, ds):
    """error_coords, as function and as method of a fit"""
    levels = [None, [1e-3, 1000], (2, 1)] + [list(s) for k in (0, 1, 2, 3) for s in itertools.permutations((1, 2, .5), k)]
    for f in part_of(itertools.product(range(0, 360, ds), (0, 20, 70, 90), (0, 35)), part, parts):
        fit = PCAOrientation(spiral(12).dot(frame(*f)) + 10)
        for src in ("method", "cone", "flipped"):
            if src == "method":
                ax, cov = fit.axes, fit.covariance_matrix
            else:
                ax, cov = (frame(*f) if src == "cone" else -frame(*f)), N.diag([4., 2., .25])
            for lv, ell, n, trad in itertools.product(levels, (None, True, False), (None, 7), (None, False, True)):
                if (n is not None) + (trad is not None) + (ell is not None) > 1:
                    continue
                with ctx.case(dict(frame=f, source=src, levels=lv, ellipse=ell, n=n, trad=trad)):
                    ctx.step()
                    kw = {}
                    if lv is not None:
                        kw["levels"] = lv
                    if ell is not None:
                        kw["ellipse"] = ell
                    base = {}
                    if n is not None:
                        base["n"] = n
                    if trad is not None:
                        base["traditional_layout"] = trad
                    kw.update(base)
                    got = fit.error_coords(**kw) if src == "method" else st.error_coords(ax, cov, **kw)
                    want = lambda sheet, level: N.degrees(st.plane_errors(ax, cov, sheet=sheet, level=level, **base))
                    keys = {"nominal"} | ({"upper", "lower"} if lv is None else set(lv))
                    if lv is None and ell is not False:
                        keys.add("ellipse")
                    ctx.require(set(got) == keys, "keys {} instead of {}", sorted(map(str, got)), sorted(map(str, keys)))
                    ctx.close(got["nominal"], want("nominal", 1), "nominal", 1e-9, 360)
                    for l in [1] if lv is None else lv:
                        g = got if lv is None else got[l]
                        for sheet in ("upper", "lower"):
                            ctx.close(g[sheet], want(sheet, l), sheet + " at level {}".format(l), 1e-9, 360)
                        if lv is not None:
                            ctx.require(set(g) == {"upper", "lower"} | (set() if ell is False else {"ellipse"}), "keys {} at level {}", sorted(g), l)
                    ctx.require(len(got["nominal"]) == (n or 1000), "{} points", len(got["nominal"]))
                    if src == "method":
                        for sheet in ("nominal", "upper", "lower"):
                            ctx.close(fit.plane_errors(sheet=sheet, **base), st.plane_errors(ax, cov, sheet=sheet, **base), "plane_errors of the fit", 1e-12)
                    ctx.state([f, src, lv, ell, n, trad], outcome=(src, str(lv), ell))


def defaults(ctx):
    """Default arguments: upper sheet, level 1, traditional layout, 1000 points (100 one at a time)"""
    for f, sg in ctx.cases(itertools.product(itertools.product((0, 130, 250), (0, 40), (0, 60)), SIGNS)):
        with ctx.case((f, sg)):
            ax = frame(*f) * N.array(sg, dtype=float)[:, None]
            A = ax if ax[2, 2] > 0 else -ax
            d = N.array((5, 2, .3))
            cov = N.diag(d)
            ctx.step(6)
            check_plane(ctx, st.plane_errors(ax, cov), A, d, "upper", 1, True, 1000)
            check_plane(ctx, st.plane_errors(ax, cov, "lower"), A, d, "lower", 1, True, 1000)
            check_plane(ctx, st.iterative_plane_errors(ax, cov), A, d, "upper", 1, True, 100)
            check_normal(ctx, st.normal_errors(ax, cov), A, d, True, 1000)
            check_normal(ctx, st.iterative_normal_errors(ax, cov), A, d, True, 100)
            e = st.ellipse(n=17)
            ctx.close(N.linalg.norm(e, axis=1), N.ones(17), "unit circle", 1e-12)
            ctx.close(e[0], e[-1], "unit circle", 1e-9)
            ctx.require(len(st.ellipse()) == 1000, "unit circle has {} points", len(st.ellipse()))
            ctx.state((f, sg))


TASKS = dict(curves=curves, combined=combined, defaults=defaults)


def shards(tier):
    t = tier == "thorough"
    return (split("curves", 128 if t else 24, ds=60 if t else 90, dips=[0, 1, 20, 50, 89, 90] if t else [0, 25, 70, 90], pitches=[0, 25, 140] if t else [0, 25],
                  nt=15 if t else 10, ns=8 if t else 4, levels=[1, 2, .5, 10] if t else [1, 2, .5], counts=[3, 4, 40] if t else [3, 7, 40])
            + split("curves", 16 if t else 8, ds=45 if t else 120, dips=[1e-6, .01, .5, 5, 45, 89.5, 89.99, 90 - 1e-6], pitches=[0, 77], nt=14 if t else 4, ns=8 if t else 4,
                    levels=[1, 3, 10, .01, 0, 1000] if t else [1, 3, 20, .05, 0, 1000], counts=[21])
            + split("curves", 8, ds=130, dips=[10, 65], pitches=[30], nt=len(TRIPLES), ns=4, levels=[1, .3, 7], counts=[24])
            + split("curves", 16 if t else 8, ds=200, dips=[30, 89.9], pitches=[10], nt=2, ns=2, levels=[1, 2], counts=list(range(2, 41)) + [50, 99, 100, 101, 128, 500, 1000, 1001, 2000, 5001, 20000])
            + split("combined", 32 if t else 8, ds=45 if t else 90) + [("defaults", {})])
