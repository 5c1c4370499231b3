"""Reading, plotting or serialising a fit never changes it."""
import itertools
import json
import re
import sys

import numpy as N
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import mplstereonet  # registers the projection

import attitude.display as disp
import attitude.display.polar as polar
import attitude.display.stereonet as dstereo
import attitude.display.cartopy as dcart
import attitude.display.nbextension as nb
import attitude.display.plot as dplot
from attitude.display.hyperbola import HyperbolicErrors, hyperbolic_errors
from attitude import stereonet as st
from attitude.error import axes as X, pca_to_mapping, to_normal_errors, from_normal_errors
from attitude.geom import fit_angle, fit_similarity
from attitude.orientation import PCAOrientation, ReconstructedPlane, LinearOrientation, create_groups
from attitude.orientation.grouped import GroupedOrientation

from .. import figures
from ..engine import isolated, key64, part_of, split
from ..universe import frame, octa, spiral

BOUNDS = dict(
    quick="13 kinds of planes and 11 that resemble one another in all but one respect; breadth-first closure of the reachable object states under all operations (any history length), all ordered pairs of operations on one and on two planes, in a fresh process each",
    thorough="as quick, with all ordered triples of the non-plotting operations and all pairs including plots")
ASSUMPTIONS = ["object state is everything in the instance and in mutable module globals of the package",
               "answers are compared to 1e-11 relative, identifiers and caller arrays exactly"]


# -- operations --------------------------------------------------------------
def axes_of(projection=None):
    fig = plt.figure(figsize=(2, 2))
    return fig.add_subplot(111, projection=projection)


def drawn(ax):
    return figures.contents(ax)


def geoms(feature):
    return [N.array(g.exterior.coords) for g in feature.geometries()]


def read_ops():
    o = {}
    for a in ("U", "eigenvalues", "hyperbolic_axes", "covariance_matrix", "explained_variance", "coefficients", "azimuth", "slope",
              "rotated_covariance", "principal_axes", "hash", "center", "centered_array", "axes", "singular_values", "sigma", "normal",
              "mean", "V", "n", "disabled", "array", "arr", "weights", "dip_dr"):
        o["." + a] = lambda f, a=a: getattr(f, a)
    for m in ("rotated", "residuals", "angular_errors", "strike_dip", "rake", "strike_dip_rake", "dip_direction", "gradient", "errors",
              "standard_errors", "as_conic", "as_hyperbola", "error_ellipse", "plane_errors", "error_coords", "to_mapping", "__repr__"):
        o[m + "()"] = lambda f, m=m: getattr(f, m)()
    o["dip_direction(True)"] = lambda f: f.dip_direction(uncertainties=True)
    o["angular_errors(False)"] = lambda f: f.angular_errors(degrees=False)
    o["angular_error(2)"] = lambda f: f.angular_error(2.)
    o["as_hyperbola(rotated)"] = lambda f: f.as_hyperbola(rotated=True)
    o["as_conic(2)"] = lambda f: f.as_conic(level=2)
    o["plane_errors(lower)"] = lambda f: f.plane_errors(sheet="lower", n=20, traditional_layout=False)
    o["plane_errors(nominal)"] = lambda f: f.plane_errors(sheet="nominal", n=20)
    o["error_coords(levels)"] = lambda f: f.error_coords(levels=[1, 2, 3], ellipse=False, n=20)
    o["to_mapping(extra)"] = lambda f: f.to_mapping(name="x", color="#fff")
    o["json"] = lambda f: json.dumps(f.to_mapping())
    for nm in ("noise_axes", "sampling_axes", "francq_axes", "babamoradi_axes", "hyperbolic_axes", "regression_axes", "eigenvalue_axes",
               "variance_axes", "statistical_axes", "sampling_covariance", "noise_covariance", "jolliffe_axes"):
        o["axes." + nm] = lambda f, nm=nm: getattr(X, nm)(f)
    o["axes.noise(all off)"] = lambda f: X.noise_axes(f, variance_on_all_axes=False, confidence_level=.5)
    o["axes.sampling(all off)"] = lambda f: X.sampling_axes(f, variance_on_all_axes=False, chisq=True)
    o["pca_to_mapping"] = lambda f: pca_to_mapping(f, a=1)
    o["normal_errors"] = lambda f: st.normal_errors(f.axes, f.covariance_matrix, n=20)
    o["normal_errors(flat)"] = lambda f: st.normal_errors(f.axes, f.covariance_matrix, n=20, traditional_layout=False)
    o["iterative_normal_errors"] = lambda f: st.iterative_normal_errors(f.axes, f.covariance_matrix, n=20)
    o["iterative_plane_errors"] = lambda f: st.iterative_plane_errors(f.axes, f.covariance_matrix, n=20)
    o["stereonet.plane_errors"] = lambda f: st.plane_errors(f.axes, f.covariance_matrix, n=20)
    o["stereonet.error_ellipse"] = lambda f: st.error_ellipse(f.axes, f.covariance_matrix, n=20)
    o["to_normal_errors"] = lambda f: to_normal_errors(f.hyperbolic_axes)
    o["from_normal_errors"] = lambda f: from_normal_errors(f.hyperbolic_axes)
    o["fit_angle"] = lambda f: fit_angle(f, f)
    o["fit_similarity"] = lambda f: fit_similarity(f, f)
    o["hyperbolic_errors"] = lambda f: hyperbolic_errors(X.noise_axes(f), N.linspace(-5, 5, 11), transformation=f.axes)
    o["hyperbolic_errors(hyp)"] = lambda f: hyperbolic_errors(f.hyperbolic_axes, N.linspace(-5, 5, 11), axes=N.array([f.axes[0], f.axes[2]]))
    o["create_groups(copy)"] = lambda f: [x.hash for x in create_groups([f])]
    o["cartopy_girdle"] = lambda f: geoms(dcart.cartopy_girdle(f))
    o["cartopy_normal"] = lambda f: geoms(dcart.cartopy_normal(f))
    o["cartopy_girdle(sampling)"] = lambda f: geoms(dcart.cartopy_girdle(f, type="sampling", confidence_level=.5))
    o[".cartopy_girdle()"] = lambda f: geoms(f.cartopy_girdle())
    o[".cartopy_normal()"] = lambda f: geoms(f.cartopy_normal())
    return o


def plot_ops():
    def on(projection, fn):
        def op(f):
            ax = axes_of(projection)
            try:
                fn(ax, f)
                return drawn(ax)
            finally:
                plt.close("all")
        return op

    def fig(fn):
        def op(f):
            try:
                return figures.figure(fn(f))
            finally:
                plt.close("all")
        return op

    def interactive(f):
        got = []
        old = nb.display
        nb.display = got.append
        try:
            nb.plot_interactive(f)
            nb.plot_interactive([f, f])
        finally:
            nb.display = old
        return len(got)
    return {
        "girdle_error": on("stereonet", dstereo.girdle_error),
        "pole_error": on("stereonet", dstereo.pole_error),
        "polar.pole_error": on("polar", polar.pole_error),
        "plot_aligned": fig(lambda f: disp.plot_aligned(f)),
        "plot_aligned(all)": fig(lambda f: disp.plot_aligned(f, sparse=False, colormap="viridis")),
        "error_comparison": fig(lambda f: disp.error_comparison(f)),
        "plot.strike_dip": on(None, lambda ax, f: disp.strike_dip(f, ax=ax, levels=[1, 2], alpha=[.5, .4])),
        "plot.trend_plunge": on("stereonet", lambda ax, f: disp.trend_plunge(f, ax=ax, alpha=[.5])),
        "plot.error_ellipse": fig(lambda f: disp.error_ellipse(f)),
        "HyperbolicErrors": on(None, lambda ax, f: HyperbolicErrors(f.hyperbolic_axes, N.linspace(-5, 5, 11)).plot(ax, fc="red")),
        "montecarlo": on("stereonet", lambda ax, f: (disp.strike_dip_montecarlo(f, n=10, ax=ax), ax.clear())),
        "plot_interactive": interactive,
    }


READ, PLOT = read_ops(), plot_ops()
OPS = dict(READ, **PLOT)


# -- planes ------------------------------------------------------------------
class Given(list):
    """The caller's arrays, and what they held before the plane was made"""
    def __init__(self, *a):
        super().__init__()
        self.before = []
        for i in a:
            self.append(i)

    def append(self, a):
        super().append(a)
        self.before.append(a.copy())

    def intact(self):
        return all(a.dtype == b.dtype and a.shape == b.shape and N.array_equal(a, b) for a, b in zip(self, self.before))


def inner(a):
    """Other points in between, with the same first and last one, count and mean"""
    b = a.copy()
    d = N.zeros_like(a)
    d[2], d[5], d[7] = (1, 0, .5), (0, 1, -1), (-1, -1, .5)
    return b + d


NEAR = {
    "shifted": lambda a: a + (100, 200, 50),
    "scaled": lambda a: (a - a.mean(axis=0)) * 2 + a.mean(axis=0),
    "nudged": lambda a: a + N.where(N.arange(len(a)) == 3, 1e-5, 0.)[:, None],
    "inner": inner,
    "reversed": lambda a: N.array(a[::-1]),
    "mirrored": lambda a: a * (1, 1, -1),
    "twice": lambda a: N.vstack([a, a]),
    "fewer": lambda a: N.array(a[:-2]),
    "single": lambda a: a.astype("float32"),
    "centred": lambda a: a - a.mean(axis=0),
    "nearcentred": lambda a: a - a.mean(axis=0) + (1e-5, -2e-5, 3e-6),
}


def world(kind, variant=0):
    """A fresh plane of a kind and the caller's arrays it was made from"""
    f = [(25, 35, 40), (205, 70, 110), (0, 0, 30)][variant]
    E = frame(*f)
    arr = spiral(12, (5., 2., .3)).dot(E) + (3, 2, 1)
    inputs = Given(arr)
    if kind == "pca":
        p = PCAOrientation(arr)
    elif kind in ("upright", "inverted", "lefthanded"):
        sg = dict(upright=(1, 1, 1), inverted=(1, -1, -1), lefthanded=(-1, 1, 1))[kind]
        q = PCAOrientation(arr)
        A = q.axes * (N.sign(q.axes[2, 2]) or 1) * N.array(sg)[:, None] * q.singular_values
        inputs.append(A)
        p = PCAOrientation(arr, axes=A)
    elif kind == "twin":
        # the identifier of "upright", but other points, centre and number of points
        q = PCAOrientation(arr)
        A = q.axes * (N.sign(q.axes[2, 2]) or 1) * q.singular_values
        arr = spiral(23, (7., 2., .9)).dot(E) + (-30, 20, 11)
        inputs = Given(arr, A)
        p = PCAOrientation(arr, axes=A)
    elif kind in NEAR:
        # most of what one could tell "pca" by is the same
        arr = NEAR[kind](arr)
        inputs = Given(arr)
        p = PCAOrientation(arr)
    elif kind == "weighted":
        w = N.array([1., 2., .5])
        inputs.append(w)
        p = PCAOrientation(arr, weights=w)
    elif kind == "horizontal":
        arr = octa((5, 2, 0), 9)[0] + (1, 2, 3)
        inputs = Given(arr)
        p = PCAOrientation(arr)
    elif kind == "threepoint":
        arr = N.array([[0., 0, 0], [4, 1, 2], [1, 5, -1]])
        inputs = Given(arr)
        p = PCAOrientation(arr)
    elif kind == "integer":
        arr = N.round(arr * 10).astype(int)
        inputs = Given(arr)
        p = PCAOrientation(arr)
    elif kind == "dense":
        arr = octa((50, 20, 3), 10010)[0].dot(E)
        inputs = Given(arr)
        p = PCAOrientation(arr)
    elif kind in ("group", "member", "group-same"):
        b = spiral(9, (3., 2., .2)).dot(E) + (-30, 4, 8)
        inputs.append(b)
        m = [PCAOrientation(arr), PCAOrientation(b)]
        g = GroupedOrientation(*m, same_plane=kind == "group-same")
        p = m[0] if kind == "member" else g
    elif kind == "reconstructed":
        p = ReconstructedPlane(f[0], f[1], f[2], 2., 9.)
        inputs = Given()
    elif kind == "linear":
        p = LinearOrientation(arr)
    else:
        raise KeyError(kind)
    return p, inputs


KINDS = ["pca", "upright", "inverted", "lefthanded", "weighted", "horizontal", "threepoint", "integer", "group", "group-same", "member",
         "reconstructed", "linear"]


# -- canonical state ----------------------------------------------------------
def digest(o, memo=None, depth=0):
    memo = {} if memo is None else memo
    if o is None or isinstance(o, (bool, int, str, bytes, complex)):
        return repr(o)
    if isinstance(o, (float, N.generic)):
        return repr(o)
    if isinstance(o, N.ndarray):
        return "a{}{}{}".format(o.dtype, o.shape, key64(o.tobytes()))
    if id(o) in memo:
        return "@{}".format(memo[id(o)])
    memo[id(o)] = len(memo)
    if isinstance(o, dict):
        return "{" + ",".join(sorted("{}:{}".format(digest(k, memo, depth), digest(v, memo, depth)) for k, v in o.items())) + "}"
    if isinstance(o, (list, tuple)):
        return "[" + ",".join(digest(i, memo, depth) for i in o) + "]"
    if type(o).__module__.startswith("attitude") and hasattr(o, "__dict__"):
        return type(o).__name__ + digest(vars(o), memo, depth)
    return type(o).__name__


def module_state():
    out = []
    for name in sorted(m for m in sys.modules if m.startswith("attitude")):
        m = sys.modules[name]
        for k, v in sorted(vars(m).items()):
            if k.startswith("__") and k.endswith("__"):
                continue
            if isinstance(v, (N.ndarray, dict, list, set, bool, int, float)):
                out.append("{}.{}={}".format(name, k, digest(v)))
            elif isinstance(v, type) and v.__module__ == name:
                for a, w in sorted(vars(v).items()):
                    if not a.startswith("__") and isinstance(w, (N.ndarray, dict, list, set, bool, int, float, str)):
                        out.append("{}.{}.{}={}".format(name, k, a, digest(w)))
    return out


def flatten(v):
    """(structure, numbers) of an answer"""
    nums, shape = [], []

    def rec(x):
        if isinstance(x, N.ndarray) and x.dtype != object:
            shape.append(("a", x.shape))
            nums.extend(N.asarray(x, dtype=float).ravel().tolist())
        elif isinstance(x, (list, tuple, N.ndarray)):
            shape.append(("l", len(x)))
            for i in x:
                rec(i)
        elif isinstance(x, dict):
            shape.append(("d", sorted(map(str, x))))
            for k in sorted(x, key=str):
                rec(x[k])
        elif isinstance(x, (bool, N.bool_)) or x is None or isinstance(x, str):
            shape.append(("v", re.sub(" at 0x[0-9a-f]+", "", str(x))))
        elif isinstance(x, (int, float, N.number)):
            shape.append("n")
            nums.append(float(x))
        else:
            shape.append(("o", type(x).__name__))
    rec(v)
    return repr(shape), N.array(nums)


def answer(f, op):
    """Answer of an operation, an exception being an answer, too"""
    try:
        return flatten(OPS[op](f))
    except Exception as e:
        return "raises " + type(e).__name__, N.array([])


def baseline_of(kind, variant, op):
    f, _ = world(kind, variant)
    return answer(f, op)


def same(ctx, got, want, what):
    if not ctx.require(got[0] == want[0], "{}: answer changed from {} to {}", what, want[0][:200], got[0][:200]):
        return
    a, b = got[1], want[1]
    if a.size != b.size:
        ctx.fail("{}: answer changed size".format(what))
        return
    if a.size == 0:
        return
    sc = N.nanmax(N.abs(N.where(N.isfinite(b), b, 0))) if b.size else 1
    ok = (N.abs(a - b) <= 1e-11 * max(sc, 1e-300)) | (N.isnan(a) & N.isnan(b)) | (a == b)
    if not ok.all():
        i = int(N.argmin(ok))
        ctx.fail("{}: answer changed from {!r} to {!r}".format(what, b[i], a[i]))


def baselines(kind, variant, ops):
    return isolated(lambda: {o: baseline_of(kind, variant, o) for o in ops})


MAX_STATES = 40


def closure(ctx, kind, variant, ops=None, max_depth=4):
    """
    Closure of the reachable states under every operation. Each operation
    is answered on a fresh process for reference.
    """
    ops = list(ops or OPS)
    base = {}
    for o in ops:
        base[o] = isolated(baseline_of, kind, variant, o)
    f, ins = world(kind, variant)
    canon = lambda f: key64([digest(f), module_state()])
    seen = {canon(f)}
    ctx.state((kind, variant, canon(f)))
    frontier = [()]
    while frontier:
        hist = frontier.pop(0)
        ctx.depth(len(hist) + 1)
        for o in ops:
            with ctx.case(dict(kind=kind, variant=variant, history=list(hist) + [o])):
                f, ins = world(kind, variant)
                uid = getattr(f, "hash", None)
                for h in hist:
                    answer(f, h)
                got = answer(f, o)
                ctx.step()
                same(ctx, got, base[o], "{} after {}".format(o, list(hist)))
                ctx.require(ins.intact(), "making the plane or {} modified an array of the caller", o)
                ctx.require(getattr(f, "hash", None) == uid, "{} changed the identifier", o)
                k = canon(f)
                if k not in seen and len(seen) >= MAX_STATES:
                    ctx.notes["states beyond {} not expanded".format(MAX_STATES)] += 1
                elif k not in seen and len(hist) + 1 < max_depth:
                    seen.add(k)
                    ctx.state((kind, variant, k))
                    frontier.append(hist + (o,))
    ctx.outcomes[kind + ": {} states".format(len(seen))] += 1


def history(ctx, kind, variant, other, a, seconds, base, twin=False):
    """
    In a new process: an operation on this or another plane, then the
    answers of this plane
    """
    def run():
        f, ins = world(kind, variant)
        uid = getattr(f, "hash", None)
        if other is None:
            answer(f, a)
            got = {}
            for b in seconds:
                f, ins = world(kind, variant)
                answer(f, a)
                got[b] = answer(f, b)
                if not ins.intact() or getattr(f, "hash", None) != uid:
                    return got, ins.intact(), getattr(f, "hash", None) == uid
            return got, True, True
        g, gin = world(*other)
        same = not twin or g.hash == f.hash
        answer(g, a)
        got = {b: answer(f, b) for b in seconds}
        return got, ins.intact() and gin.intact(), getattr(f, "hash", None) == uid and same
    got, intact, uid = isolated(run)
    ctx.require(intact, "{} modified an array of the caller", a)
    ctx.require(uid, "identifier changed by {}", a)
    for b in got:
        ctx.step(2)
        same(ctx, got[b], base[b], "{} after {}{}".format(b, a, " on {}".format(other) if other else ""))
        ctx.state((kind, variant, other, a, b))
    ctx.depth(2)


def pairs(ctx, kind, variant, other, part, parts, firsts, seconds):
    """All ordered pairs of operations, the first on the same or another plane"""
    base = baselines_cached(kind, variant, seconds)
    for a in ctx.cases(part_of(firsts, part, parts)):
        with ctx.case(a):
            history(ctx, kind, variant, other, a, seconds, base)


def twins(ctx, kind, other, part, parts, firsts, seconds):
    """Two planes with one identifier, both alive"""
    base = baselines_cached(kind, 0, seconds)
    for a in ctx.cases(part_of(firsts, part, parts)):
        with ctx.case(a):
            history(ctx, kind, 0, (other, 0), a, seconds, base, twin=True)


def similar(ctx, kinds, part, parts, firsts, seconds):
    """A plane answers after another one that resembles it in all but one respect"""
    for (k, o), a in ctx.cases(part_of(itertools.product([i for n in kinds for i in ((n, "pca"), ("pca", n))], firsts), part, parts)):
        with ctx.case((k, o, a)):
            history(ctx, k, 0, (o, 0), a, seconds, baselines_once(k, 0, tuple(seconds)))


ONCE = {}


def baselines_once(kind, variant, names):
    key = (kind, variant, names)
    if key not in ONCE:
        ONCE[key] = baselines_cached(kind, variant, names)
    return ONCE[key]


def successors(ctx, kind, variant, others, part, parts, ops):
    """A plane made after others have been used and thrown away (and may take their place in memory)"""
    base = baselines_cached(kind, variant, ops)
    for other, o in ctx.cases(part_of(itertools.product(others, ops), part, parts)):
        with ctx.case((other, o)):
            want = None
            for rep in range(3):
                g, gin = world(*other)
                answer(g, o)
                answer(g, "to_mapping()")
                del g, gin
                f, ins = world(kind, variant)
                same(ctx, answer(f, o), base[o], "{} after a plane that no longer exists".format(o))
                del f
                ctx.step(2)
            ctx.state((kind, variant, other, o))


def argument_calls():
    """(name, function, arguments) of everything that takes arrays"""
    from attitude.geom import conics as K, util as U, transform as T
    from attitude import coordinates as C
    from attitude.coordinates import rotations as R
    from attitude.display import parametric as P
    from attitude.orientation.linear.regression import Regression
    from attitude.orientation import pca as PC
    E = frame(25, 35, 40)
    A = {"up": E, "down": -E, "mixed": E * N.array([[1.], [-1], [-1]])}
    cov = N.diag([5., 2., .3])
    x = N.linspace(-5, 5, 11)
    pts = spiral(12, (5., 2., .3)).dot(E) + (3, 2, 1)
    hyp = N.array([5., 2., .3])
    v1, v2 = N.array([1., 2, 3]), N.array([-2., 0, 1])
    out = []
    for nm, ax in A.items():
        for fn in (st.plane_errors, st.normal_errors, st.iterative_plane_errors, st.iterative_normal_errors, st.error_ellipse, st.error_coords):
            for kw in (dict(), dict(level=2.), dict(traditional_layout=False)):
                if fn is st.error_coords:
                    kw = dict(levels=[1, 2]) if "level" in kw else kw
                if fn is st.iterative_plane_errors and "traditional_layout" in kw:
                    continue
                out.append(("{} {} {}".format(fn.__name__, nm, sorted(kw)), lambda a, c, fn=fn, kw=kw: fn(a, c, n=12, **kw), [ax, cov]))
        for kw in (dict(), dict(reverse=True), dict(correct_apparent_dip=False)):
            out.append(("hyperbolic_errors " + nm + str(kw), lambda h, x, t, a, m, kw=kw: hyperbolic_errors(h, x, transformation=t, axes=a, means=m, **kw),
                        [hyp, x, ax, N.array([ax[0], ax[2]]), N.array([1., 2.])]))
        out.append(("HyperbolicErrors.update_data " + nm, lambda h, x, a: HyperbolicErrors(h, x).update_data(h, x, axes=a), [hyp, x, N.array([ax[0], ax[2]])]))
        out.append(("restored " + nm, lambda p, a: PCAOrientation(p, axes=a).to_mapping(), [pts, ax * N.array([9., 4, 1])]))
    for w in (N.ones(3), N.array([2., 1, .5])):
        out.append(("weights", lambda p, w: (PCAOrientation(p, weights=w).to_mapping(), PCAOrientation(p, weights=w).U), [pts, w]))
    out += [("PCAOrientation", lambda p: PCAOrientation(p).to_mapping(), [pts]),
            ("LinearOrientation", lambda p: LinearOrientation(p).error_ellipse(), [pts]),
            ("Regression", lambda p: Regression(p).standard_errors(), [pts]),
            ("Regression columns", lambda p: Regression(p).standard_errors(), [N.ascontiguousarray(pts.T)]),
            ("centered", C.centered, [pts]),
            ("spherical", C.spherical, [N.ascontiguousarray(pts.T)]),
            ("cartesian", C.cartesian, [N.abs(pts) / 10]),
            ("rotations.transform", R.transform, [v1, v2]),
            ("rotations.cartesian", R.cartesian, [x / 5, x / 7]),
            ("from_stereonet", R.from_stereonet, [x / 5, x / 7]),
            ("to_stereonet", R.to_stereonet, [x / 5, x / 7]),
            ("sph2cart", st.sph2cart, [x / 5, x / 7]),
            ("angle", U.angle, [v1, v2]),
            ("augment", U.augment, [v1]),
            ("augment_tensor", U.augment_tensor, [E]),
            ("perpendicular_vector", U.perpendicular_vector, [v1]),
            ("plane", lambda n: (U.plane(n, 2.).offset(), U.plane(n, 2.).normal(), U.plane(n, 2.).hessian_normal()), [v1]),
            ("compose_affine", PC.compose_affine, [E, E.T * 2, E + 1]),
            ("axis_angular_error", lambda h: X.axis_angular_error(h, 2.), [hyp]),
            ("angular_errors", X.angular_errors, [hyp]),
            ("to_normal_errors", to_normal_errors, [hyp]),
            ("from_normal_errors", from_normal_errors, [hyp]),
            ("parametric.ellipse", lambda a, c: P.ellipse(a, center=c, n=9), [N.array([2., 1]), N.array([3., 4])]),
            ("parametric.hyperbola", lambda a, c: P.hyperbola(a, center=c, n=9), [N.array([2., 1]), N.array([3., 4])]),
            ("rotate_2D", T.rotate_2D, [N.array(.3)])]
    for m in (N.diag([1., .25, 4, -1]), N.diag([1., .25, -4, -1])):
        M = E4(E).T.dot(m).dot(E4(E))
        for name, fn, args in [("center", lambda c: K.conic(c).center(), []), ("contains", lambda c, p: K.conic(c).contains(p), [v1]),
                               ("translate", lambda c, p: c.view(K.Conic).translate(p), [v1]), ("transform", lambda c, t: c.view(K.Conic).transform(t), [E4(E)]),
                               ("dual", lambda c: c.view(K.Conic).dual(), []), ("polar_plane", lambda c, p: c.view(K.Conic).polar_plane(p), [v1]),
                               ("pole", lambda c, p: c.view(K.Conic).pole(p), [N.array([1., 2, 3, 4])]),
                               ("slice", lambda c, p: c.view(K.Conic).slice(p.view(U.Plane)), [N.array([1., 2, 3, .1])]),
                               ("semiaxes", lambda c: c.view(K.Conic).semiaxes(), []), ("type", lambda c: (c.view(K.Conic).is_elliptical(), c.view(K.Conic).is_hyperbolic()), [])]:
            out.append(("conic " + name, fn, [M] + args))
        if m[2, 2] > 0:
            out.append(("conic major_axes", lambda c: c.view(K.Conic).major_axes(), [M]))
            out.append(("conic angle_subtended", lambda c, p: K.angle_subtended(c.view(K.Conic), viewpoint=p), [M, 9 * v1]))
    return out


def E4(E):
    m = N.eye(4)
    m[:3, :3] = E
    m[:3, 3] = (.1, .2, .3)
    return m


def arguments(ctx):
    """Arrays handed to any function stay as they were, and a second call answers the same"""
    for i, (name, fn, args) in enumerate(argument_calls()):
        for order in ("C", "F", "readonly"):
            with ctx.case((i, name, order)):
                given = [N.array(a, order="F" if order == "F" else "C") for a in args]
                if order == "readonly":
                    for g in given:
                        g.setflags(write=False)
                r1 = flatten(fn(*given))
                ctx.step()
                for g, a in zip(given, args):
                    ctx.require(g.shape == a.shape and N.array_equal(g, a), "{} modified an argument", name)
                r2 = flatten(fn(*given))
                same(ctx, r2, r1, name + " called again")
                for g, a in zip(given, args):
                    ctx.require(g.shape == a.shape and N.array_equal(g, a), "{} modified an argument", name)
                ctx.state((i, name, order))


def baselines_cached(kind, variant, names):
    return {o: isolated(baseline_of, kind, variant, o) for o in names}


def triples(ctx, kind, variant, part, parts, ops, last):
    base = baselines_cached(kind, variant, last)
    for a, b in ctx.cases(part_of(itertools.product(ops, ops), part, parts)):
        with ctx.case((a, b)):
            f, ins = world(kind, variant)
            answer(f, a)
            answer(f, b)
            for c in last:
                ctx.step()
                same(ctx, answer(f, c), base[c], "{} after {}, {}".format(c, a, b))
            ctx.require(ins.intact(), "caller array modified")
            ctx.depth(3)
            ctx.state((kind, variant, a, b))


TASKS = dict(arguments=arguments, twins=twins, similar=similar, successors=successors, closure=closure, pairs=pairs, triples=triples)
SLOW = ["plot_aligned", "plot_aligned(all)", "error_comparison"]
FAST = [o for o in READ if not o.startswith("cartopy")]
KEYOPS = [".U", ".eigenvalues", ".hyperbolic_axes", ".hash", ".normal", ".axes", ".centered_array", ".mean", ".singular_values",
          "strike_dip_rake()", "angular_errors()", "residuals()", "rotated()", "to_mapping()", ".covariance_matrix"]


def shards(tier):
    out = []
    if tier == "quick":
        for k in KINDS:
            out.append(("closure", dict(kind=k, variant=0)))
        for v in (1, 2):
            out.append(("closure", dict(kind="pca", variant=v)))
        out.append(("closure", dict(kind="dense", variant=0, ops=KEYOPS + PLOT_FAST + ["plot_aligned"])))
        out += split("pairs", 4, kind="pca", variant=0, other=None, firsts=FAST, seconds=KEYOPS)
        out += split("pairs", 4, kind="pca", variant=0, other=("inverted", 1), firsts=FAST, seconds=KEYOPS)
        out += split("pairs", 2, kind="inverted", variant=1, other=("group", 0), firsts=KEYOPS, seconds=KEYOPS)
        out += split("twins", 4, kind="upright", other="twin", firsts=FAST, seconds=KEYOPS)
        out += split("twins", 2, kind="twin", other="upright", firsts=KEYOPS, seconds=FAST)
        out += split("successors", 4, kind="pca", variant=0, others=[("pca", 1), ("inverted", 1), ("group", 1), ("twin", 0)], ops=FAST)
        out += split("successors", 2, kind="reconstructed", variant=0, others=[("reconstructed", 1)], ops=FAST)
        out += split("similar", 16, kinds=list(NEAR), firsts=KEYOPS, seconds=KEYOPS)
        for k in ("centred", "nearcentred"):
            out.append(("closure", dict(kind=k, variant=0, ops=FAST)))
        out.append(("arguments", {}))
        return out
    for k in KINDS:
        for v in (0, 1, 2):
            out.append(("closure", dict(kind=k, variant=v, max_depth=6)))
    out.append(("closure", dict(kind="dense", variant=0)))
    for k in KINDS:
        out += split("pairs", 6, kind=k, variant=0, other=None, firsts=list(OPS), seconds=FAST)
        out += split("pairs", 4, kind=k, variant=0, other=("pca", 1), firsts=list(OPS), seconds=KEYOPS)
    out += split("twins", 8, kind="upright", other="twin", firsts=list(OPS), seconds=FAST)
    out += split("twins", 8, kind="twin", other="upright", firsts=list(OPS), seconds=FAST)
    for k in KINDS:
        out += split("successors", 4, kind=k, variant=0, others=[(k, 1), ("pca", 1)], ops=FAST)
    out += split("similar", 64, kinds=list(NEAR), firsts=list(OPS), seconds=FAST)
    for k in NEAR:
        out.append(("closure", dict(kind=k, variant=0)))
    out.append(("arguments", {}))
    for k in ("pca", "inverted", "group", "upright"):
        out += split("triples", 8, kind=k, variant=1, ops=FAST, last=KEYOPS)
    return out


PLOT_FAST = [p for p in PLOT if p not in SLOW]
