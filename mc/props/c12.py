"""Plotted uncertainty patches sit where the plane and its pole are."""
import itertools

import numpy as N
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.colors import to_rgba
import mplstereonet  # registers the projection
import mplstereonet.stereonet_math as M

import attitude.display as disp
import attitude.display.cartopy as dcart
import attitude.display.polar as polar
import attitude.display.stereonet as dst
from attitude.error import axes as X
from attitude.orientation import PCAOrientation, ReconstructedPlane
from attitude.orientation.grouped import GroupedOrientation

from ..engine import part_of, split
from ..universe import frame, normal_vec, octa, spiral
from .c11 import normal_vecs, plane_vec, windings

BOUNDS = dict(
    quick="strike x dip x rake grid of 12x5x3 planes x 7 error pairs on stereonet, polar and map displays, from fits (8 kinds of axes) and from numbers; "
          "all style option subsets of size <= 2; all pairs of drawing calls on one axes, also with an option given to the first",
    thorough="36x9x7 planes x 9 error pairs; all style subsets of size <= 3; all sequences of 3 calls")
ASSUMPTIONS = ["patches are read back from the axes as vertices, before projection to the page",
               "for vertical planes either of the two opposite poles is accepted"]
PAIRS = [(2, 8), (8, 2), (5, 5), (.1, 30), (40, 60), (1e-2, 1e-2), (90, 3), (10, 120), (1, 2)]


def stereo_vec(v):
    """East, north, up of stereonet longitude and latitude: lower hemisphere in the middle"""
    lon, lat = N.asarray(v, dtype=float).T
    return N.column_stack([N.cos(lat) * N.sin(lon), N.sin(lat), -N.cos(lat) * N.cos(lon)])


def polar_vec(v):
    """Azimuth in radians, inclination from the vertical in degrees"""
    th, r = N.asarray(v, dtype=float).T
    r = N.radians(r)
    return N.column_stack([N.sin(r) * N.sin(th), N.sin(r) * N.cos(th), N.cos(r)])


def ring(ctx, v, A, d, n, side):
    """v surrounds the pole side*n; A rows 0,1 are the error directions with half lengths d"""
    ctx.require(N.isfinite(v), "undefined vertices")
    c = v.dot(A.T)
    if abs(n[2]) < 1e-9:
        side = N.sign(c[0, 2]) * N.sign(A[2].dot(n))
    z = c[:, 2] * side * N.sign(A[2].dot(n))
    if not ctx.require(z > -1e-9, "ring is not around the pole on the {} side", "upper" if side > 0 else "lower"):
        return
    l = (d[0] * c[:, 0]) ** 2 + (d[1] * c[:, 1]) ** 2
    r = (2 * d[2] * c[:, 2]) ** 2
    if not ctx.require(N.abs(l - r) <= 1e-6 * (l + r) + 1e-14 * max(d) ** 2, "ring is not the error ellipse: {} instead of {}", l[1], r[1]):
        return
    ctx.require(N.linalg.norm(v[0] - v[-1]) < 1e-6, "ring is not closed")
    if min(d[2] / d[0], d[2] / d[1]) > 1e-5:
        ctx.require(abs(abs(windings(c[:, 0], c[:, 1])) - 1) < 1e-4, "ring does not surround the pole")


def band(ctx, loops, A, d):
    """The two loops are the two sides of the plane's error cone"""
    if not ctx.require(len(loops) == 2, "{} loops instead of 2", len(loops)):
        return
    side = []
    for v in loops:
        ctx.require(N.isfinite(v), "undefined vertices")
        c = v.dot(A.T)
        k = 1 / N.sqrt((c[:, 0] / d[0]) ** 2 + (c[:, 1] / d[1]) ** 2)
        w = c[:, 2] * k
        side.append(N.sign(w[0]))
        if not ctx.require(N.abs(N.abs(w) - 2 * d[2]) <= 1e-6 * max(d), "edge of the girdle at {} instead of {}", w[0], 2 * d[2]):
            return
        ctx.require(N.abs(w - w[0]) <= 1e-6 * max(d), "edge of the girdle crosses the plane")
        ctx.require(N.linalg.norm(v[0] - v[-1]) < 1e-6, "edge of the girdle is not closed")
        e = c[:, :2] / d[:2]
        a = N.unwrap(N.arctan2(e[:, 1], e[:, 0]))
        ctx.require(abs(abs(a[-1] - a[0]) - 2 * N.pi) < 1e-4, "edge of the girdle does not go round once")
    ctx.require(sorted(side) == [-1, 1], "both edges are on the same side of the plane")


def loops(patch):
    p = patch.get_path()
    v, c = N.asarray(p.vertices, dtype=float), p.codes
    if c is None:
        return [v]
    at = [i for i, k in enumerate(c) if k == 1] + [len(v)]
    return [v[a:b] for a, b in zip(at, at[1:])]


def new_patches(ctx, ax, draw, n=1):
    before = list(ax.patches), list(ax.lines), list(ax.collections)
    draw()
    ctx.step()
    new = [p for p in ax.patches if p not in before[0]]
    ctx.require(len(new) == n and len(ax.patches) == len(before[0]) + n, "{} patches added instead of {}", len(new), n)
    ctx.require(len(ax.collections) == len(before[2]), "other artists added")
    return new


KINDS = ["pca", "upright", "inverted", "mirrored", "upside-mirrored", "group", "reconstructed", "shell"]


def make(kind, f, e):
    """An orientation with axes, error lengths of its covariance matrix and true normal"""
    s, d, p = f
    E = frame(s, d, p)
    if kind in ("reconstructed", "shell"):
        q = ReconstructedPlane(s, d, p, *e)
        return q, normal_vec(s, d)
    arr = octa((5., 2., .3), 12)[0].dot(E) + (3, 4, 5)
    q = PCAOrientation(arr)
    if kind == "group":
        q = GroupedOrientation(PCAOrientation(arr), PCAOrientation(arr * .7 + 40))
    sg = dict(upright=(1, 1, 1), inverted=(-1, -1, -1), mirrored=(1, -1, 1)).get(kind, (-1, 1, -1))
    if kind in ("upright", "inverted", "mirrored", "upside-mirrored"):
        ax = E * N.array(sg, dtype=float)[:, None]
        q = PCAOrientation(arr, axes=ax * q.singular_values)
    return q, normal_vec(s, d)


def geometry(geoms):
    g = list(geoms)
    return g


def check_all(ctx, q, n, axs, stereo, pol):
    A = N.asarray(q.axes, dtype=float)
    d = N.diagonal(q.covariance_matrix).astype(float)
    # stereonet
    p, = new_patches(ctx, stereo, lambda: dst.pole_error(stereo, q))
    ls = loops(p)
    if ctx.require(len(ls) == 1, "pole patch has {} parts", len(ls)):
        ring(ctx, stereo_vec(ls[0]), A, d, n, -1)
    p, = new_patches(ctx, stereo, lambda: dst.girdle_error(stereo, q))
    band(ctx, [stereo_vec(l) for l in loops(p)], A, d)
    # polar
    p, = new_patches(ctx, pol, lambda: polar.pole_error(pol, q))
    ls = loops(p)
    if ctx.require(len(ls) == 1, "polar patch has {} parts", len(ls)):
        ring(ctx, polar_vec(ls[0]), A, d, n, 1)
    # map features of the error shell: vertical at the pole of the map
    if isinstance(q, ReconstructedPlane):
        g = list(q.cartopy_normal().geometries())
        if ctx.require(len(g) == 1, "{} geometries", len(g)):
            ring(ctx, normal_vecs(N.radians(N.array(g[0].exterior.coords)), False), A, d, n, 1)
        g = list(q.cartopy_girdle().geometries())
        if ctx.require(len(g) == 1 and len(g[0].interiors) == 1, "{} geometries", len(g)):
            band(ctx, [plane_vec(N.radians(N.array(i.coords)), False) for i in (g[0].exterior, g[0].interiors[0])], A, d)
    else:
        for kw in ({}, dict(confidence_level=.68), dict(type="sampling"), dict(type="sampling", confidence_level=.995)):
            h = N.asarray(X.hyperbolic_axes(q, **kw), dtype=float)
            g = list(dcart.cartopy_normal(q, **kw).geometries())
            if ctx.require(len(g) == 1, "{} geometries", len(g)):
                ring(ctx, normal_vecs(N.radians(N.array(g[0].exterior.coords)), True), A, h, n, 1)
            g = list(dcart.cartopy_girdle(q, **kw).geometries())
            if ctx.require(len(g) == 1 and len(g[0].interiors) == 1, "{} geometries", len(g)):
                band(ctx, [plane_vec(N.radians(N.array(i.coords)), True) for i in (g[0].exterior, g[0].interiors[0])], A, h)
        ctx.step(8)


def setup():
    fig = plt.figure()
    axs = fig.add_subplot(121, projection="stereonet"), fig.add_subplot(122, projection="polar")
    for a in axs:
        # data limits are matplotlib's business, and slow
        a._update_patch_limits = lambda p: None
    return (fig,) + axs


def wipe(*axs):
    for ax in axs:
        for p in list(ax.patches) + list(ax.lines):
            p.remove()


def orientations(ctx, part, parts, ds, dips, rakes, kinds):
    fig, stereo, pol = setup()
    for f in part_of(itertools.product(range(0, 360, ds), dips, rakes), part, parts):
        for kind in kinds:
            with ctx.case(dict(kind=kind, plane=f)):
                q, n = make(kind, f, (2, 8))
                check_all(ctx, q, n, None, stereo, pol)
                ctx.state([kind, f], outcome=kind)
            wipe(stereo, pol)
    plt.close(fig)


def numbers(ctx, part, parts, ds, dips, rakes, pairs):
    """Patches drawn from strike, dip, rake and two angular errors"""
    fig, stereo, pol = setup()
    for s, d, r in part_of(itertools.product(range(0, 360, ds), dips, rakes), part, parts):
        for e in pairs:
            with ctx.case((s, d, r, e)):
                n = normal_vec(s, d)
                A = frame(s, d, r)[[1, 0, 2]]
                h = N.array([1 / N.tan(N.radians(e[1]) / 2), 1 / N.tan(N.radians(e[0]) / 2), 1.])
                p, = new_patches(ctx, stereo, lambda: dst.uncertain_pole(stereo, s, d, r, *e))
                v = stereo_vec(loops(p)[0])
                ring(ctx, v, A, h, n, -1)
                # the pole as the stereonet library itself places it
                lon, lat = M.pole(s, d)
                m = stereo_vec(N.column_stack([lon, lat]))[0]
                ctx.require(N.linalg.norm(N.cross(m, n)) < 1e-9, "harness: pole")
                if d < 89:
                    # radii along the two error directions
                    c = v.dot(A.T)
                    ang = N.arctan2(N.linalg.norm(c[:, :2], axis=1), N.abs(c[:, 2]))
                    az = N.abs(c[:, :2]) / N.linalg.norm(c[:, :2], axis=1)[:, None]
                    for k in (0, 1):
                        at = ang[N.argmax(az[:, k])]
                        ctx.require(abs(at - N.arctan(2 / h[k])) < 1e-4 + 1e-3 * at, "radius {} along axis {} instead of {}", at, k, N.arctan(2 / h[k]))
                p, = new_patches(ctx, stereo, lambda: disp.uncertain_plane(stereo, s, d, r, *e))
                band(ctx, [stereo_vec(l) for l in loops(p)], A, h)
                p, = new_patches(ctx, pol, lambda: polar.uncertain_pole(pol, s, d, r, *e))
                ring(ctx, polar_vec(loops(p)[0]), A, h, n, 1)
                k = len(pol.lines)
                polar.pole(pol, s, d)
                ctx.step()
                ctx.require(len(pol.lines) == k + 1, "pole marker not drawn")
                m = polar_vec(pol.lines[-1].get_xydata())[0]
                ctx.close(m, n, "pole marker", 1e-9)
                ctx.state((s, d, r, e), outcome=e)
            wipe(stereo, pol)
    plt.close(fig)


STYLE = dict(facecolor="#ff8800", edgecolor="blue", alpha=.25, linewidth=3.5, zorder=7, label="some plane", linestyle="--", visible=False)
READ = dict(facecolor=lambda p, a: tuple(p.get_facecolor()) == to_rgba("#ff8800", a), edgecolor=lambda p, a: tuple(p.get_edgecolor()) == to_rgba("blue", a),
            alpha=lambda p, a: p.get_alpha() == .25, linewidth=lambda p, a: p.get_linewidth() == 3.5, zorder=lambda p, a: p.get_zorder() == 7,
            label=lambda p, a: p.get_label() == "some plane", linestyle=lambda p, a: p.get_linestyle() in ("--", "dashed"),
            visible=lambda p, a: p.get_visible() is False)


def calls(q):
    return dict(
        pole=lambda s, p, **kw: dst.pole_error(s, q, **kw), girdle=lambda s, p, **kw: dst.girdle_error(s, q, **kw),
        upole=lambda s, p, **kw: dst.uncertain_pole(s, 20, 30, 40, 2, 8, **kw), uplane=lambda s, p, **kw: dst.uncertain_plane(s, 20, 30, 40, 2, 8, **kw),
        polar=lambda s, p, **kw: polar.pole_error(p, q, **kw), upolar=lambda s, p, **kw: polar.uncertain_pole(p, 20, 30, 40, 2, 8, **kw))


def styles(ctx, k):
    fig, stereo, pol = setup()
    q, n = make("pca", (40, 30, 20), (2, 8))
    for name, fn in calls(q).items():
        ax = pol if "polar" in name else stereo
        for r in range(k + 1):
            for sub in ctx.cases(itertools.combinations(sorted(STYLE), r)):
                with ctx.case((name, sub)):
                    kw = {i: STYLE[i] for i in sub}
                    given = dict(kw)
                    p, = new_patches(ctx, ax, lambda: fn(stereo, pol, **kw))
                    a = kw.get("alpha")
                    for i in sub:
                        ctx.require(READ[i](p, a), "option {} not passed on", i)
                    if "zorder" not in kw:
                        ctx.require(p.get_zorder() == 2, "default zorder {}", p.get_zorder())
                    ctx.require(kw == given, "options changed")
                    ctx.state((name, sub), outcome=name)
                wipe(stereo, pol)
    plt.close(fig)


LOOK = dict(facecolor=lambda p: tuple(p.get_facecolor()), edgecolor=lambda p: tuple(p.get_edgecolor()), alpha=lambda p: p.get_alpha(), linewidth=lambda p: p.get_linewidth(),
            zorder=lambda p: p.get_zorder(), label=lambda p: "" if p.get_label().startswith("_") else p.get_label(), linestyle=lambda p: p.get_linestyle(), visible=lambda p: p.get_visible())


def leaks(ctx):
    """Options given to one call do not show in the next one"""
    q, n = make("pca", (40, 30, 20), (2, 8))
    table = calls(q)
    fresh = {}
    for name, fn in table.items():
        fig, s, p = setup()
        new = new_patches(ctx, p if "polar" in name else s, lambda: fn(s, p))
        fresh[name] = {k: f(new[0]) for k, f in LOOK.items()}
        plt.close(fig)
    fig, s, p = setup()
    for a, b, opt in ctx.cases(itertools.product(sorted(table), sorted(table), sorted(STYLE) + [None])):
        with ctx.case((a, b, opt)):
            table[a](s, p, **(dict(STYLE) if opt is None else {opt: STYLE[opt]}))
            new, = new_patches(ctx, p if "polar" in b else s, lambda: table[b](s, p))
            got = {k: f(new) for k, f in LOOK.items()}
            ctx.require(got == fresh[b], "{} looks like {} instead of {} after {} with {}", b, got, fresh[b], a, opt)
            ctx.depth(2)
            ctx.state((a, b, opt), outcome="leak")
        wipe(s, p)
    plt.close(fig)


def sequences(ctx, depth, part, parts):
    """Every sequence of drawing calls: each draws what it draws on fresh axes"""
    q, n = make("pca", (40, 30, 20), (2, 8))
    q2, n2 = make("inverted", (200, 70, 20), (2, 8))
    table = {}
    for tag, o in (("a", q), ("b", q2)):
        for name, fn in calls(o).items():
            if tag == "a" or not name.startswith("u"):
                table[tag + name] = fn
    fresh = {}
    for name, fn in table.items():
        fig, s, p = setup()
        new = new_patches(ctx, p if "polar" in name else s, lambda: fn(s, p))
        fresh[name] = [N.array(l) for l in loops(new[0])]
        plt.close(fig)
    for seq in part_of(itertools.product(sorted(table), repeat=depth), part, parts):
        fig, s, p = setup()
        with ctx.case(seq):
            for name in seq:
                new, = new_patches(ctx, p if "polar" in name else s, lambda: table[name](s, p))
                got = loops(new)
                ctx.require(len(got) == len(fresh[name]) and all(N.allclose(a, b, atol=1e-9) for a, b in zip(got, fresh[name])), "{} draws something else after {}", name, seq)
            ctx.depth(depth)
            ctx.state(seq)
        plt.close(fig)


TASKS = dict(leaks=leaks, orientations=orientations, numbers=numbers, styles=styles, sequences=sequences)


def shards(tier):
    t = tier == "thorough"
    dips = [0, 1, 10, 30, 45, 60, 75, 89, 90] if t else [0, 20, 45, 75, 90]
    return (split("orientations", 32 if t else 12, ds=15 if t else 30, dips=dips, rakes=[0, 20, 45, 90, 160] if t else [0, 25], kinds=KINDS)
            + split("numbers", 32 if t else 12, ds=10 if t else 30, dips=dips, rakes=[-30, 0, 20, 45, 90, 135, 180] if t else [0, 25, 130], pairs=PAIRS if t else PAIRS[:7])
            + [("styles", dict(k=3 if t else 2)), ("leaks", {})] + split("sequences", 16 if t else 4, depth=3 if t else 2))
