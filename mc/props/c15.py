"""Hyperbolic error bands follow the error hyperboloid in every view."""
import itertools
import re

import numpy as N
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt

import attitude.display as disp
from attitude.display import parametric
from attitude.display.hyperbola import HyperbolicErrors, hyperbola_values, hyperbolic_errors
from attitude.display.plot.cov_types import hyperbola as cov_hyperbola
from attitude.error.axes import noise_axes, sampling_axes
from attitude.orientation import PCAOrientation
from attitude.orientation.grouped import GroupedOrientation

from ..engine import part_of, split
from ..universe import cosd, directions, frame, octa, sind, spiral, rotz

BOUNDS = dict(
    quick="8 error-axis triples x 8 viewing planes x 6 transformations x 4 offsets x reverse x dip correction x 4 position arrays; all sequences of up to 4 plot/update/"
          "nominal events over 4 data sets; error axes from 1e-15 to 1e10, apparent dips from 0.001 to 89.9 degrees; parametric curves of 6 axis pairs x 3 centres x all n in 2..60; aligned and comparison figures of 24 fits",
    thorough="14 triples x 24 viewing planes x 12 transformations x 6 offsets; all sequences of up to 5 events; n in 2..400; figures of 120 fits")
ASSUMPTIONS = ["the half width is taken from the slice's semi-axes along the two given viewing axes",
               "views along a vertical line (undefined apparent dip) are left out", "above 10000 points aligned plots are thinned as documented"]
TRIPLES = [(5, 2, .3), (1, 1, .01), (100., 3., 1.), (2., 5., .1), (1, 1, 1), (.5, .4, 3.), (1e4, 1e-1, 1e-4), (7., 1e-3, 1e-3), (3, 2, 1), (1e6, 1e5, 10), (10, 9, 8), (2, 2, 40),
           (1e-8, 1e-9, 1e-10), (12, 11, .5)]
XS = dict(sym=N.linspace(-10, 10, 11), one=N.array([3.]), neg=N.array([-4., -2., 0., 1.]), desc=N.linspace(5, -20, 8), many=N.linspace(-3000, 5000, 2501), two=N.array([-1e5, 1e-5]), whole=N.array([-4, 0, 3, 7, 12]))


def views():
    out = {"default": None}
    for a in (0, 30, 90, 145, 180, 270):
        h = N.array([sind(a), cosd(a), 0.])
        out["vertical%s" % a] = N.array([h, [0, 0, 1.]])
    for a, t in ((0, 20), (90, -35), (200, 60), (10, 1), (300, -80), (0, .001), (130, -.02), (45, .1), (220, -.5), (80, 89), (10, -89.9)):
        h = N.array([sind(a) * cosd(t), cosd(a) * cosd(t), sind(t)])
        u = N.array([-sind(a) * sind(t), -cosd(a) * sind(t), cosd(t)])
        out["%s%s,%s" % ("slight" if abs(t) < 1 or abs(t) > 85 else "tilted", a, t)] = N.array([h, u])
    out["plan"] = N.array([[1., 0, 0], [0, 1, 0]])
    out["yx"] = N.array([[0, 1., 0], [1, 0, 0]])
    for i, f in enumerate(((40, 30, 20), (130, 80, 65), (270, 10, 150), (5, 60, 100))):
        out["frame%d" % i] = frame(*f)[[0, 2]]
        out["frame%db" % i] = frame(*f)[[1, 2]]
    return out


VIEWS = views()


def transformations(k):
    t = [None, N.eye(3), frame(30, 20, 10), frame(200, 70, 35), rotz(90), -N.eye(3), frame(0, 90, 0), frame(123, 45, 67), rotz(180), frame(0, 0, 45), frame(90, 1, 0), frame(300, 15, 170)]
    return t[:k]


def expected(h, x, T, axes, means, reverse, correct):
    """(nominal, one edge, other edge) as arrays of points"""
    h = N.asarray(h, dtype=float)
    D = N.diag(1 / h)
    if len(h) == 3:
        if T is None:
            T = N.eye(3)
        if axes is None:
            axes = N.array([[0, 1., 0], [0, 0, 1.]])
        Q = T.T.dot(D).dot(T)
        A = [1 / N.sqrt(a.dot(Q).dot(a)) for a in axes]
    else:
        A = N.sqrt(h)
    w = A[1] * N.sqrt(1 + (x / A[0]) ** 2)
    dip = 0.
    if correct:
        dip = N.arcsin(min(1., abs(axes[0][-1]) / N.linalg.norm(axes[0])))
    if reverse:
        dip = -dip
    e = N.array([N.cos(dip), N.sin(dip)])
    u = N.array([-N.sin(dip), N.cos(dip)])
    m = N.zeros(2) if means is None else N.asarray(means)
    nom = x[:, None] * e + m
    return nom, nom - w[:, None] * u, nom + w[:, None] * u


def check_band(ctx, data, exp, what=""):
    nom, lo, hi = exp
    if not ctx.require(len(data) == 3, "{} parts instead of 3", len(data)):
        return
    s = max(1e-12, N.abs(N.array(exp)).max())
    g = [N.asarray(d, dtype=float).T for d in data]
    ctx.close(g[0], nom, what + "nominal line", 1e-8, s)
    # near edge in order, far edge reversed; which one is near is not part of the contract
    a, b = g[1], g[2][::-1]
    ok = any(a.shape == p.shape and b.shape == q.shape and N.abs(a - p).max() <= 1e-8 * s and N.abs(b - q).max() <= 1e-8 * s for p, q in ((lo, hi), (hi, lo)))
    ctx.require(ok, what + "edges {} ... {} instead of {} ... {}", a[:2].tolist(), b[:2].tolist(), lo[:2].tolist(), hi[:2].tolist())


EXTRA = [(1e10, 1e9, 1e3), (3e9, 2e8, 4e-3), (1e-12, 3e-13, 1e-15), (1e8, 1., 1e-8), (5, 2, .3)]


def bands(ctx, part, parts, nt, nv, ntr, nm, extra=False):
    means = [None, N.array([0., 0.]), N.array([3., -2.]), N.array([1e3, .5]), N.array([0, -7.]), N.array([-1., 1.])][:nm]
    vs = sorted(v for v in VIEWS if v.startswith("slight") == extra)[:nv]
    if extra:
        vs += ["default", "vertical30", "tilted90,-35"]
    for h, v, ti in part_of(itertools.product(EXTRA if extra else TRIPLES[:nt], vs, range(ntr)), part, parts):
        T = transformations(12)[ti]
        for mi, rev, corr, xn in itertools.product(range(len(means)), (None, False, True), (None, True, False), sorted(XS)):
            if (mi > 0) + (rev is not None) + (corr is not None) + (xn != "desc") > 2:
                continue
            with ctx.case(dict(h=h, view=v, transformation=ti, means=mi, reverse=rev, correct=corr, x=xn)):
                ctx.step()
                hh = N.array(h, dtype=float)
                x = XS[xn].copy()
                ax = None if VIEWS[v] is None else VIEWS[v].copy()
                kw = {}
                for k, val in (("transformation", T), ("axes", ax), ("means", means[mi]), ("reverse", rev), ("correct_apparent_dip", corr)):
                    if val is not None:
                        kw[k] = val.copy() if isinstance(val, N.ndarray) else val
                keep = {k: N.array(val) for k, val in kw.items()}
                got = hyperbolic_errors(hh, x, **kw)
                exp = expected(h, XS[xn], T, ax if ax is not None else N.array([[0, 1., 0], [0, 0, 1.]]), means[mi], bool(rev), corr is not False)
                check_band(ctx, got, exp)
                ctx.require(N.array_equal(hh, h) and N.array_equal(x, XS[xn]) and all(N.array_equal(keep[k], kw[k]) for k in kw), "arguments were changed")
                ctx.state([h, v, ti, mi, rev, corr, xn], outcome=(v[:4], bool(rev), corr))
                if mi == 0 and rev is None and xn == "sym":
                    o = HyperbolicErrors(hh, x, **kw)
                    check_band(ctx, o.data, exp, "object: ")
    if part == 0:
        for h in ((5., .3), (1., 1.), (.2, 30.), (1e4, 1e-2)):
            for xn in XS:
                with ctx.case(dict(h=h, x=xn)):
                    ctx.step(2)
                    got = hyperbolic_errors(N.array(h), XS[xn].copy(), axes=N.eye(2))
                    exp = expected(h, XS[xn], None, N.eye(2), None, False, True)
                    check_band(ctx, got, exp, "2D: ")
                    ctx.close(hyperbola_values(N.array(h), XS[xn]), N.sqrt(h[1] * (1 + XS[xn] ** 2 / h[0])), "hyperbola_values", 1e-9)
                    ctx.state([h, xn], outcome="2D")


DATA = [dict(h=(5., 2., .3), x="sym", view="vertical30", means=None), dict(h=(9., 1., .01), x="neg", view="tilted0,20", means=(3., -2.)),
        dict(h=(1., 1., 1.), x="desc", view="default", means=(0., 1.)), dict(h=(5., 2., .30003), x="sym", view="vertical30", means=None)]


def args_of(i):
    d = DATA[i]
    kw = {}
    if VIEWS[d["view"]] is not None:
        kw["axes"] = VIEWS[d["view"]].copy()
    if d["means"] is not None:
        kw["means"] = N.array(d["means"])
    return (N.array(d["h"]), XS[d["x"]].copy()), kw


def band_of(i):
    d = DATA[i]
    ax = VIEWS[d["view"]]
    return expected(d["h"], XS[d["x"]], None, ax if ax is not None else N.array([[0, 1., 0], [0, 0, 1.]]), d["means"], False, True)


EVENTS = ["plot0", "plot1", "update0", "update1", "update2", "update3", "nominal0"]


def polygon_is(ctx, patch, i, what):
    xy = N.array(patch.get_xy(), dtype=float)
    if i is None:
        ctx.require(N.abs(xy).max() == 0, "{}: something drawn without data", what)
        return
    nom, lo, hi = band_of(i)
    s = N.abs(N.array([lo, hi])).max()
    ok = False
    for p, q in ((lo, hi), (hi, lo)):
        ring = N.vstack([p, q[::-1]])
        ring = N.vstack([ring, ring[:1]])
        if len(ring) == len(xy) and N.abs(ring - xy).max() < 1e-8 * s:
            ok = True
    ctx.require(ok, "{}: polygon is not the band of data set {}", what, i)


def histories(ctx, depth, starts):
    for start in starts:
        figs = plt.subplots(1, 2)

        def build(initial, hist):
            fig, axs = figs
            for a in axs:
                for p in list(a.patches) + list(a.lines):
                    p.remove()
            if initial is None:
                o, cur = HyperbolicErrors(), None
            else:
                a, kw = args_of(initial)
                o, cur = HyperbolicErrors(*a, **kw), initial
            drawn, last, lines = [[], []], None, [[], []]
            for e in hist:
                k = int(e[-1])
                if e.startswith("plot"):
                    o.plot(axs[k], fc="#cccccc", alpha=.3)
                    last = [k, len(drawn[k])]
                    drawn[k].append(cur)
                elif e.startswith("update"):
                    a, kw = args_of(k)
                    o.update_data(*a, **kw)
                    cur = k
                    if last is not None:
                        drawn[last[0]][last[1]] = cur
                else:
                    o.plot_nominal(axs[k], "-")
                    lines[k].append(cur)
            return o, drawn, lines, cur

        def check(s, hist):
            o, drawn, lines, cur = s
            for k in (0, 1):
                ps = figs[1][k].patches
                if ctx.require(len(ps) == len(drawn[k]), "{} polygons instead of {}", len(ps), len(drawn[k])):
                    for p, i in zip(ps, drawn[k]):
                        polygon_is(ctx, p, i, hist)
                ls = figs[1][k].lines
                if ctx.require(len(ls) == len(lines[k]), "{} lines", len(ls)):
                    for l, i in zip(ls, lines[k]):
                        ctx.close(l.get_xydata(), band_of(i)[0], "nominal line", 1e-8)
            if cur is not None:
                check_band(ctx, o.data, band_of(cur), "data: ")

        ctx.bfs(start, lambda s, h: [e for e in EVENTS if not (e == "nominal0" and s[3] is None)], build,
                lambda s: [s[1], s[2], s[3]], check, depth)
        plt.close(figs[0])
    # style options
    fig, ax = plt.subplots()
    from matplotlib.colors import to_rgba
    for kw, edge, face in ctx.cases([(dict(fc="red"), "red", "red"), (dict(facecolor="red"), "red", "red"), (dict(fc="red", ec="blue"), "blue", "red"), (dict(facecolor="red", edgecolor="green"), "green", "red"),
                                     (dict(fc="red", ec="none"), "none", "red"), (dict(), "black", None)]):
        with ctx.case(kw):
            ctx.step()
            a, k = args_of(0)
            o = HyperbolicErrors(*a, **k)
            given = dict(kw)
            o.plot(ax, label="x", zorder=9, **kw)
            p = ax.patches[-1]
            ctx.require(p.get_label() == "x" and p.get_zorder() == 9, "options not passed on")
            ctx.require(tuple(p.get_edgecolor()) == to_rgba(edge), "edge colour {} instead of {}", p.get_edgecolor(), edge)
            if face:
                ctx.require(tuple(p.get_facecolor()) == to_rgba(face), "face colour")
            ctx.require(given == kw, "options were changed")
            ctx.state(sorted(kw.items()))
    plt.close(fig)


def curves(ctx, nmax):
    for ab, c, n in ctx.cases(itertools.product([(1., 1.), (3., .5), (.2, 7.), (100., 1.), (1e-3, 2.), (5., 5.)], [None, (0., 0.), (3., -4.)], range(2, nmax))):
        with ctx.case((ab, c, n)):
            a, b = ab
            kw = dict(n=n)
            if c is not None:
                kw["center"] = N.array(c)
            cx, cy = c or (0., 0.)
            x, y = parametric.ellipse(N.array(ab), **kw)
            ctx.step(3)
            ctx.require(len(x) == n and len(y) == n, "{} points", len(x))
            ctx.close(((x - cx) / a) ** 2 + ((y - cy) / b) ** 2, N.ones(n), "ellipse", 1e-9)
            ctx.require(abs(x[0] - x[-1]) + abs(y[0] - y[-1]) < 1e-9 * (a + b), "ellipse is not closed")
            for up in (None, True, False):
                k = dict(kw)
                if up is not None:
                    k["opens_up"] = up
                x, y = parametric.hyperbola(N.array(ab), **k)
                bad = N.isnan(x)
                ctx.require(len(x) == n and N.array_equal(bad, N.isnan(y)) and bad.sum() <= 2, "{} undefined points", bad.sum())
                X, Y = ((x - cx) / a)[~bad], ((y - cy) / b)[~bad]
                v = Y ** 2 - X ** 2 if up is not False else X ** 2 - Y ** 2
                # cancellation next to the asymptotes, and with the centre
                t = 1e-9 * (1 + X ** 2 + Y ** 2) + 1e-13 * (abs(cx) / a + abs(cy) / b + 1) * (1 + N.abs(X) + N.abs(Y)) * 10
                ctx.require(N.abs(v - 1) <= t, "hyperbola: {}", v)
            ctx.state((ab, c, n), outcome=ab)
    ctx.require(len(parametric.ellipse((1, 2))[0]) == 500 and len(parametric.hyperbola((1, 2))[0]) == 500, "default number of points")
    for h, ang, m, n, level in ctx.cases(itertools.product([(4., .25), (1., 1.), (100., 2.)], (0, 20, -35, 90), [(0., 0.), (3., -2.)], (1, 5, 40), (1, 2.5))):
        with ctx.case((h, ang, m, n, level)):
            ctx.step()
            R = N.array([[cosd(ang), sind(ang)], [-sind(ang), cosd(ang)]])
            x = XS["sym"]
            w = level * N.sqrt(h[1]) * N.sqrt(x ** 2 / (h[0] * n) + 1. / n)
            a, lo, hi = cov_hyperbola(N.array(h), R, N.array(m), x.copy(), n=n, level=level)
            top = N.column_stack([x, w]).dot(R) + m
            btm = N.column_stack([x, -w]).dot(R) + m
            ctx.close(a, top[:, 0], "positions", 1e-9)
            ctx.close(hi, top[:, 1], "upper band", 1e-9)
            ctx.close(lo, btm[:, 1], "lower band", 1e-9)
            ctx.state((h, ang, m, n, level))


def fit_of(kind, f):
    E = frame(*f)
    P = dict(spiral=spiral(23, (50., 20., 3.)), thin=spiral(9, (5., 2., .01)), octa=octa((30., 20., 4.), 31)[0], big=spiral(12001, (80., 30., 2.)))
    if kind == "group":
        return GroupedOrientation(PCAOrientation(P["spiral"].dot(E)), PCAOrientation(P["octa"].dot(E) + 200))
    q = PCAOrientation(P[kind.split("-")[0]].dot(E) + (10, 20, 30))
    if kind.endswith("-inverted"):
        q = PCAOrientation(P[kind.split("-")[0]].dot(E) + (10, 20, 30), axes=-q.axes * q.singular_values)
    return q


def has_line(ax, pts):
    pts = N.asarray(pts, dtype=float)
    s = max(1e-9, N.abs(pts).max())
    return any(l.get_xydata().shape == pts.shape and N.abs(N.asarray(l.get_xydata(), dtype=float) - pts).max() <= 1e-8 * s for l in ax.lines)


def has_band(ax, h, x, a):
    """Polygon of the band with variance h[a] along the section"""
    w = N.sqrt(h[2] * (1 + x ** 2 / h[a]))
    for p in ax.patches:
        xy = N.array(p.get_xy(), dtype=float)
        if len(xy) not in (2 * len(x), 2 * len(x) + 1):
            continue
        lo, hi = N.column_stack([x, -w]), N.column_stack([x, w])
        s = N.abs([lo, hi]).max()
        for u, v in ((lo, hi), (hi, lo)):
            if N.abs(N.vstack([u, v[::-1]]) - xy[:2 * len(x)]).max() < 1e-7 * s:
                return True
    return False


def figures(ctx, part, parts, kinds, frames):
    for kind, f in part_of(itertools.product(kinds, frames), part, parts):
        q = fit_of(kind, f)
        A = N.array(q.rotated())
        opts = [dict(), dict(sparse=False), dict(colormap="viridis")] if len(A) < 100 else [dict(), dict(sparse=False)]
        for kw in opts:
            with ctx.case((kind, f, kw)):
                ctx.step()
                fig = disp.plot_aligned(q, **kw)
                axs = fig.axes
                if ctx.require(len(axs) == 3, "{} panels", len(axs)):
                    h = sampling_axes(q)
                    B = A
                    if kw.get("sparse", True) and len(A) > 10000:
                        B = A[::int(N.ceil(len(A) / 10000))]
                    for ax, (a, b) in zip(axs, ((0, 1), (0, 2), (1, 2))):
                        ctx.require(has_line(ax, [[A[:, a].min(), 0], [A[:, a].max(), 0]]), "nominal line of panel {}", (a, b))
                        if "colormap" in kw:
                            off = N.array(ax.collections[-1].get_offsets(), dtype=float)
                            ctx.close(off, B[:, [a, b]], "points of panel {}".format((a, b)), 1e-9)
                        else:
                            ctx.require(has_line(ax, B[:, [a, b]]), "points of panel {} are not shown", (a, b))
                        if b == 2:
                            x = N.linspace(A[:, 0].min() * 1.2, A[:, 0].max() * 1.2, 100)
                            ctx.require(len(ax.patches) == 1 and has_band(ax, h, x, a), "error band of panel {}", (a, b))
                            err = 2 * N.degrees(N.arctan2(N.sqrt(h[2]), N.sqrt(h[a])))
                            txt = " ".join(t.get_text() for t in ax.texts)
                            nums = [float(i) for i in re.findall(r"\d+\.\d+", txt)]
                            ctx.require(any(abs(i - err) < .00501 for i in nums), "angular error {} not stated: {}", err, txt)
                            ctx.require(any(abs(i - N.ptp(A[:, a])) < 1e-5 for i in nums), "length {} not stated: {}", N.ptp(A[:, a]), txt)
                        else:
                            ctx.require(len(ax.patches) == 0, "plan view with error band")
                            ctx.require(has_line(ax, [[0, A[:, b].min()], [0, A[:, b].max()]]), "second axis in plan view")
                plt.close(fig)
                ctx.close(q.rotated(), A, "fit was changed", 0)
                ctx.state((kind, f, sorted(kw)), outcome="aligned")
        for kw in (dict(), dict(width=40.), dict(width=10., height=4., aspect_ratio=2.)):
            with ctx.case((kind, f, "comparison", kw)):
                ctx.step()
                fig = disp.error_comparison(q, **kw)
                ax, = fig.axes
                w = kw.get("width") or 2.5 * N.abs(A[0]).max()
                x = N.linspace(-w / 2, w / 2, 401)
                if "width" not in kw:
                    lim = max(ax.get_xlim())
                    x = N.linspace(-lim, lim, 401)
                else:
                    ctx.close(ax.get_xlim(), (-w / 2, w / 2), "limits", 1e-9)
                ctx.require(has_line(ax, [[x[0], 0], [x[-1], 0]]), "nominal line")
                ctx.require(has_line(ax, A[:, 1:]), "data points")
                if ctx.require(len(ax.patches) == 3, "{} bands", len(ax.patches)):
                    lab = {p.get_label(): p for p in ax.patches}
                    for name, h in (("Variance", q.singular_values), ("Sampling-based", sampling_axes(q)), ("Noise-based", noise_axes(q))):
                        if ctx.require(name in lab, "no band named {}", name):
                            class one(object):
                                patches = [lab[name]]
                            ctx.require(has_band(one, h, x, 1), "band {}", name)
                if "height" in kw:
                    ctx.close(ax.get_ylim(), (-kw["height"] / 2, kw["height"] / 2), "limits", 1e-9)
                plt.close(fig)
                ctx.state((kind, f, sorted(kw)), outcome="comparison")


TASKS = dict(bands=bands, histories=histories, curves=curves, figures=figures)


def shards(tier):
    t = tier == "thorough"
    kinds = ["spiral", "spiral-inverted", "thin", "octa", "group", "big"]
    frames = [(s, d, p) for s in (0, 100, 250) for d in (0, 30, 90) for p in (0, 40)] if t else [(0, 0, 0), (100, 30, 40), (250, 90, 10)]
    return (split("bands", 64 if t else 16, nt=14 if t else 8, nv=99 if t else 12, ntr=12 if t else 6, nm=6 if t else 4)
            + split("bands", 16 if t else 4, nt=0, nv=99, ntr=12 if t else 3, nm=3, extra=True)
            + [("histories", dict(depth=5 if t else 4, starts=[i])) for i in (None, 0, 1)] + [("curves", dict(nmax=400 if t else 60))]
            + split("figures", 24 if t else 9, kinds=kinds, frames=frames))
