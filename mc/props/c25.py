"""Plotted error ellipses are those of the fit, one for each level."""
import itertools

import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as P
import mplstereonet  # noqa: F401  (registers the projection)
import numpy as N
from attitude.display import error_ellipse, normal, setup_figure, strike_dip, trend_plunge
from attitude.error.ellipse import ellipse
from attitude.orientation import PCAOrientation
from attitude.orientation.linear import LinearOrientation
from matplotlib.colors import to_rgba
from matplotlib.patches import Polygon

from ..engine import part_of, split
from ..universe import frame, spiral

BOUNDS = dict(
    quick="fits of 2 clouds x every 40th strike x 5 dips, by principal components and by regression: 3 plots x 12 lists of levels (all orders of 1, 2, 3; up to six of them) x 4 forms of opacity x 2 "
          "styles; every sequence of up to 3 plots of 6 kinds into one pair of axes; the summary figure of every fit; ellipses of 5 covariances x 12 turns x 4 levels x 3 centres",
    thorough="4 clouds x every 10th strike x 7 dips; sequences of up to 4 plots; ellipses x 36 turns")
ASSUMPTIONS = ["the ellipse of directions itself is the subject of C14", "strike_dip(spherical=True), plane_confidence, error_asymptotes and strike_dip_montecarlo are unfinished and left out",
               "drawn with matplotlib's Agg back end"]

PLOTS = dict(trend_plunge=trend_plunge, normal=normal, strike_dip=strike_dip)
LEVELS = [None, [1], [2.5]] + [list(p) for p in itertools.permutations([1, 2, 3])] + [(1, 2), [1, 2, 4, 8], [5, .5, 1, 3, 2, 10]]
SIZES = [(5., 2., .3), (9., 8., .1), (3., 1., .4), (50., 20., .01)]
STYLES = [{}, dict(facecolor="#102030", zorder=7, edgecolor="green")]


def opacity(form, n):
    return dict(default=None, one=.25, single=[.4], each=[.9 / (i + 1) for i in range(n)])[form]


def make(kind, c, s, d):
    pts = spiral(24 + 7 * c, SIZES[c]).dot(frame(s, d, 25)) + N.array([100., -20., 7.])
    return (PCAOrientation if kind == "pca" else LinearOrientation)(pts)


def vertices(fit, plot, level):
    """Where a level of errors belongs: longitude and latitude, or degrees of trend and dip"""
    if plot == "strike_dip":
        t, p = fit.error_ellipse(level=level, spherical=False)
        return N.column_stack([N.degrees(t), 90 - N.degrees(p)])
    t, p = fit.error_ellipse(vector=True, level=level)
    x, y, z = N.cos(p) * N.sin(t), N.cos(p) * N.cos(t), N.sin(p)
    return N.column_stack([N.arctan2(x, z), N.arcsin(N.clip(y, -1, 1))])


def polygon(ctx, patch, want, plot, alpha, style, msg):
    ctx.require(isinstance(patch, Polygon), "{}: {}", msg, type(patch))
    xy = patch.get_xy()
    # a polygon closes itself
    if len(xy) == len(want) + 1:
        ctx.close(xy[-1], xy[0], msg + " closes", 1e-12)
        xy = xy[:-1]
    if not ctx.require(len(xy) == len(want) and N.isfinite(xy), "{}: {} vertices instead of {}", msg, len(xy), len(want)):
        return
    if plot == "strike_dip":
        ctx.close(xy, want, msg + " vertices", 1e-7)
    else:
        # as directions; longitudes are of no account next to the poles
        v, w = [N.column_stack([N.cos(i[:, 1]) * N.cos(i[:, 0]), N.cos(i[:, 1]) * N.sin(i[:, 0]), N.sin(i[:, 1])]) for i in (xy, want)]
        ctx.close(v, w, msg + " vertices", 1e-7)
        ctx.require(N.abs(xy[:, 0]) <= N.pi + 1e-9, "{}: longitude beyond 180 degrees", msg)
    ctx.require(abs(patch.get_alpha() - alpha) < 1e-12, "{}: opacity {} instead of {}", msg, patch.get_alpha(), alpha)
    if "facecolor" in style:
        ctx.require(to_rgba(patch.get_facecolor())[:3] == to_rgba(style["facecolor"])[:3] and patch.get_zorder() == style["zorder"]
                    and to_rgba(patch.get_edgecolor())[:3] == to_rgba(style["edgecolor"])[:3], "{}: style", msg)
    ctx.require(patch.get_linewidth() == style.get("linewidth", 0), "{}: line width {}", msg, patch.get_linewidth())


def alphas(plot, form, n):
    a = opacity(form, n)
    a = (1 if plot == "strike_dip" else .7) if a is None else a
    return list(N.broadcast_to(a, n))


def new_axes(plot):
    f = P.figure()
    ax = f.add_subplot(111, **({} if plot == "strike_dip" else dict(projection="stereonet")))
    # matplotlib's costly data limits are of interest in the summary figure only
    ax._update_patch_limits = lambda p: None
    return ax


def draw(fit, plot, levels, form, style, ax, **kw):
    a = opacity(form, len(levels or [1]))
    kw.update(style)
    if a is not None:
        kw["alpha"] = a
    if levels is not None:
        kw["levels"] = levels
    before = [list(i) if isinstance(i, (list, tuple)) else i for i in (a, levels)], dict(kw)
    PLOTS[plot](fit, ax=ax, **kw)
    return before == ([list(i) if isinstance(i, (list, tuple)) else i for i in (a, levels)], kw)


def plots(ctx, clouds, strikes, dips, part, parts):
    axes = {p: new_axes(p) for p in PLOTS}
    for c, s, d, kind in part_of(itertools.product(range(clouds), strikes, dips, ("pca", "linear")), part, parts):
        fit, other = make(kind, c, s, d), make(kind, c, s, d)
        for plot, (i, levels), form, (j, style) in itertools.product(sorted(PLOTS), enumerate(LEVELS), ("default", "one", "single", "each"), enumerate(STYLES)):
            if (i + j + (s + d) // 10) % 2 and len(levels or [1]) > 1 and form in ("default", "single"):
                continue
            with ctx.case(dict(fit=(kind, c, s, d), plot=plot, levels=levels, opacity=form, style=style)):
                ctx.step()
                ax = axes[plot]
                for p in list(ax.patches):
                    p.remove()
                st = dict(style)
                if plot == "trend_plunge" and j:
                    st["linewidth"] = 2.5
                ctx.require(draw(fit, plot, levels, form, st, ax), "arguments were changed")
                lv = list(levels or [1])
                got = list(ax.patches)
                if ctx.require(len(got) == len(lv), "{} ellipses for levels {}", len(got), lv):
                    for p, l, a in zip(got, lv, alphas(plot, form, len(lv))):
                        polygon(ctx, p, vertices(other, plot, l), plot, a, st, "level {}".format(l))
                ctx.state((kind, c, s, d, plot, i, form, j), outcome=plot + form)
    P.close("all")


EVENTS = [("trend_plunge", "pca", None, "default"), ("trend_plunge", "linear", [1, 2], "each"), ("normal", "pca", [2, 1], "one"), ("normal", "pca2", [3], "single"),
          ("strike_dip", "pca", [1, 2, 3], "default"), ("strike_dip", "pca2", None, "one")]


def sequences(ctx, depth, part, parts):
    """Everything drawn so far stays where it is"""
    mk = dict(pca=lambda: make("pca", 0, 40, 30), pca2=lambda: make("pca", 1, 200, 60), linear=lambda: make("linear", 0, 40, 30))
    ref = {k: f() for k, f in mk.items()}
    axes = {p: new_axes(p) for p in ("trend_plunge", "strike_dip")}
    for n in range(1, depth + 1):
        for seq in part_of(itertools.product(range(len(EVENTS)), repeat=n), part, parts):
            for current in (False, True):
                with ctx.case(dict(sequence=seq, current=current)):
                    ctx.depth(n)
                    fits = {k: f() for k, f in mk.items()}
                    for ax in axes.values():
                        for p in list(ax.patches):
                            p.remove()
                    want = {k: [] for k in axes}
                    for e in seq:
                        ctx.step()
                        plot, f, levels, form = EVENTS[e]
                        where = "strike_dip" if plot == "strike_dip" else "trend_plunge"
                        if current:
                            # drawn into the current axes when none are named
                            P.sca(axes[where])
                            a = opacity(form, len(levels or [1]))
                            kw = dict(**({} if a is None else dict(alpha=a)), **({} if levels is None else dict(levels=levels)))
                            PLOTS[plot](fits[f], **kw)
                        else:
                            draw(fits[f], plot, levels, form, {}, axes[where])
                        lv = levels or [1]
                        want[where] += [(f, plot, l, a) for l, a in zip(lv, alphas(plot, form, len(lv)))]
                    for k, ax in axes.items():
                        got = list(ax.patches)
                        if ctx.require(len(got) == len(want[k]), "{} ellipses instead of {}", len(got), len(want[k])):
                            for p, (f, plot, l, a) in zip(got, want[k]):
                                polygon(ctx, p, vertices(ref[f], plot, l), plot, a, {}, "{} of {}, level {}".format(plot, f, l))
                    ctx.state((seq, current), outcome=n)
    P.close("all")


def figures(ctx, clouds, strikes, dips, part, parts):
    for c, s, d in part_of(itertools.product(range(clouds), strikes, dips), part, parts):
        with ctx.case(dict(figure=(c, s, d))):
            ctx.step()
            fit, other = make("pca", c, s, d), make("pca", c, s, d)
            fig = error_ellipse(fit)
            ctx.require(len(fig.axes) == 1, "{} axes", len(fig.axes))
            ax = fig.axes[0]
            got = [p for p in ax.patches]
            if ctx.require(len(got) == 3, "{} ellipses", len(got)):
                for p, l, a in zip(got, (1, 2, 3), (.5, .4, .3)):
                    polygon(ctx, p, vertices(other, "strike_dip", l), "strike_dip", a, {}, "level {}".format(l))
                    ctx.require(to_rgba(p.get_facecolor())[:3] == (1, 0, 0), "colour")
            y = ax.get_ylim()
            ctx.require(y[0] > y[1], "dips do not increase downwards")
            x = ax.get_xlim()
            all_ = N.vstack([vertices(other, "strike_dip", l) for l in (1, 2, 3)])
            ctx.require(min(x) <= all_[:, 0].min() and max(x) >= all_[:, 0].max() and y[1] <= all_[:, 1].min() and y[0] >= all_[:, 1].max(), "an ellipse is out of view")
            for axis in (ax.xaxis, ax.yaxis):
                for t in (0., 12., 2.5, 100.25, -7.5):
                    l = axis.get_major_formatter()(t, 0)
                    ctx.require(l.endswith(u"\u00b0") and abs(float(l[:-1]) - t) < .0501, "{} is labelled {}", t, l)
            ctx.require("dip" in ax.get_ylabel().lower() and "strike" in ax.get_xlabel().lower(), "labels")
            ctx.state((c, s, d), outcome="figure")
    with ctx.case(dict(figure="setup")):
        fig, ax = setup_figure(figsize=(3, 2))
        ctx.require("stereonet" in (ax.name + type(ax).__name__).lower() and tuple(fig.get_size_inches()) == (3, 2) and ax in fig.axes, "stereonet")
        fig, ax = setup_figure(projection="polar")
        ctx.require(ax.name == "polar", "projection")
    P.close("all")


COVS = [(1., 1.), (4., .25), (1e-6, 1e-8), (100., 99.), (1e4, 1e-4)]


def ellipses(ctx, turns, part, parts):
    """The covariance ellipse of two regression coefficients"""
    for cov, t, level, centre, n in part_of(itertools.product(COVS, turns, (.5, 1, 2, 7.5), ((0, 0), (1.5, -40), (1e3, 1e-3)), (None, 5, 64)), part, parts):
        with ctx.case(dict(cov=cov, turn=t, level=level, centre=centre, n=n)):
            ctx.step()
            r = N.radians(t)
            R = N.array([[N.cos(r), N.sin(r)], [-N.sin(r), N.cos(r)]])
            C = R.T.dot(N.diag(cov)).dot(R)
            kw = {} if n is None else dict(n=n)
            if level != 1 or n:
                kw["level"] = level
            e = N.array(ellipse(centre, C, **kw))
            ctx.require(e.shape == (n or 1000, 2), "{} points", e.shape)
            q = (e - centre).dot(R.T) / N.sqrt(cov)
            tol = 1e-7 + 1e-12 * (1 + N.abs(centre).max()) / N.sqrt(min(cov)) + 1e-13 * max(cov) / min(cov)
            ctx.require(N.abs(N.hypot(*q.T) / level - 1) < tol, "not on the ellipse: {}", N.hypot(*q.T)[:3])
            a = N.unwrap(N.arctan2(q[:, 1], q[:, 0]))
            ctx.require(N.abs(e[0] - e[-1]).max() <= 1e-9 * (N.sqrt(max(cov)) * level + N.abs(centre).max()) and abs(abs(a[-1] - a[0]) - 2 * N.pi) < 1e-3 + 10 * tol,
                        "the ellipse is not traced once")
            ctx.state((cov, t, level, centre, n), outcome=level)


def coefficients(ctx, clouds, strikes, dips):
    """Errors of a regression in the space of its coefficients"""
    for c, s, d, level in itertools.product(range(clouds), strikes, dips, (1, 2, 3.5)):
        with ctx.case(dict(fit=(c, s, d), level=level)):
            ctx.step()
            l = make("linear", c, s, d)
            y, x = l.error_ellipse(spherical=False, level=level)
            C, m = l.covariance_matrix[:2, :2], N.array(l.coefficients[:2])
            q = N.column_stack([x, y]) - m
            w, V = N.linalg.eigh(C)
            q = q.dot(V) / N.sqrt(w)
            tol = 1e-6 + 1e-12 * w[1] / w[0] + 1e-13 * (1 + N.abs(m).max()) / N.sqrt(w[0])
            ctx.require(N.abs(N.hypot(*q.T) / level - 1) < tol, "not on the error ellipse of the coefficients")
            ctx.state((c, s, d, level), outcome=level)


TASKS = dict(plots=plots, sequences=sequences, figures=figures, ellipses=ellipses, coefficients=coefficients)


def shards(tier):
    t = tier == "thorough"
    clouds, strikes, dips = (4 if t else 2), list(range(5, 360, 10 if t else 40)), [1, 10, 30, 45, 60, 70, 80, 88] if t else [1, 20, 45, 60, 88]
    return (split("plots", 32 if t else 8, clouds=clouds, strikes=strikes, dips=dips) + split("sequences", 16 if t else 4, depth=4 if t else 3)
            + split("figures", 8 if t else 2, clouds=clouds, strikes=strikes, dips=dips) + split("ellipses", 2, turns=list(range(0, 360, 10 if t else 30)))
            + [("coefficients", dict(clouds=clouds, strikes=strikes, dips=dips))])
