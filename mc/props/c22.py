"""The browser draws the same error cones that the Python statistics state."""
import itertools

import numpy as N

from ..engine import part_of, split
from ..frontend import call, decode
from ..universe import frame, octa, spiral
from attitude.orientation import PCAOrientation, ReconstructedPlane

BOUNDS = dict(
    quick="every 45th strike x dips 0, 20, 60, 90 x 2 pitches x 8 sign choices of the axes x 8 error triples x 3 sheets (2 for the pole) x 2 layouts x 2 hemispheres x radians and degrees; dips down to 1e-6 degrees from horizontal and vertical; 8 extreme triples (axes of ratios up to 1000, errors from nothing to beyond both axes); 6 levels x 6 triples x layouts x hemispheres x 2 counts; point counts 4 to 5000, default options, "
          "levels, omitted axes; all sign and permutation variants of 14 vectors; 60 fits and rebuilt planes of the Python library",
    thorough="every 15th strike x 7 dips x 3 pitches x 8 sign choices x 9 error triples")
ASSUMPTIONS = ["math.ts is bundled with esbuild; d3 is the copy in the repository (version 4), underscore the one installed", "curves of vertical planes may name either side upper"]

TRIPLES = [(9., 4., .25), (100., 1., .01), (4., 4., .04), (1., 1., 1.), (.5, .25, 2.), (1e-6, 1e-7, 1e-9), (400., 9., 8.), (1e-14, 1e-15, 1e-17), (1e8, 1e6, 1e2), (2., 1., .5)]
SIGNS = list(itertools.product((1, -1), repeat=3))


def girdle(ctx, pts, axes, h, sheet, upper, msg):
    """pts: unit directions"""
    s = N.sqrt(N.array(h))
    A = N.array(axes)
    c = pts @ A.T
    cone = (c[:, 0] / s[0]) ** 2 + (c[:, 1] / s[1]) ** 2
    zz = c[:, 2] / s[2]
    if sheet == "nominal":
        ctx.require(N.abs(c[:, 2]).max() < 1e-7, "{}: nominal curve leaves the plane by {}", msg, N.abs(c[:, 2]).max())
    else:
        ctx.require(N.abs(N.sqrt(cone) - N.abs(zz)).max() <= 1e-6 * N.sqrt(cone).max(), "{}: {} curve is not on the error cone", msg, sheet)
        side = -1 if sheet == "upper" else 1
        if not upper:
            side = -side
        if abs(A[2, 2]) > 1e-9:
            up = c[:, 2] * N.sign(A[2, 2])
            ctx.require((up * side > 0).all(), "{}: {} curve on the wrong side of the plane", msg, sheet)
        else:
            ctx.require((c[:, 2] > 0).all() or (c[:, 2] < 0).all(), "{}: {} curve crosses the plane", msg, sheet)
    around(ctx, c[:, 0] / s[0], c[:, 1] / s[1], msg + " " + sheet, s[0] <= 5 * s[1])


def around(ctx, x, y, msg, tips=True):
    """The points go around exactly once, without turning back"""
    t = N.arctan2(y, x)
    d = N.diff(N.append(t, t[0]))
    d = (d + N.pi) % (2 * N.pi) - N.pi
    ctx.require((d > -1e-6).all() or (d < 1e-6).all(), "{}: the curve turns back", msg)
    ctx.require(abs(abs(d.sum()) - 2 * N.pi) < 1e-6, "{}: the curve goes {} times around", msg, d.sum() / 2 / N.pi)
    # a fine curve comes close to the tips of all four half axes
    if len(t) > 60 and tips:
        r = N.hypot(x, y)
        far = [(x / r).max(), -(x / r).min(), (y / r).max(), -(y / r).min()]
        ctx.require(min(far) > .99, "{}: the curve stops short of the ends of its axes: {}", msg, far)


def pole(ctx, pts, axes, h, sheet, level, msg, upward=False):
    s = N.sqrt(N.array(h))
    c = pts @ N.array(axes).T
    l = N.sqrt((s[0] * c[:, 0]) ** 2 + (s[1] * c[:, 1]) ** 2)
    r = level * s[2] * N.abs(c[:, 2])
    ctx.require(N.abs(l - r).max() <= 1e-6 * r.max(), "{}: pole curve is not the dual of the error cone ({} instead of {})", msg, l[:3], r[:3])
    side = 1 if sheet == "upper" else -1
    ctx.require((c[:, 2] * side > 0).all(), "{}: {} pole curve around the opposite pole", msg, sheet)
    around(ctx, c[:, 0] * s[0], c[:, 1] * s[1], msg + " pole " + sheet, s[0] <= 5 * s[1])


class Batch(object):
    def __init__(self, ctx, script="frontend.js"):
        self.ctx, self.jobs, self.script = ctx, [], script

    def add(self, desc, case, fn):
        self.jobs.append((desc, case, fn))

    def finish(self):
        ctx = self.ctx
        if not self.jobs:
            return
        for (desc, case, fn), res in zip(self.jobs, call([c for _, c, _ in self.jobs], self.script)):
            with ctx.case(desc):
                ctx.step()
                if ctx.require("error" not in res, "{} raised {}", case["fn"], res.get("error")):
                    ctx.require(not res["modified"], "arguments were modified")
                    fn(ctx, res.get("value"))
                ctx.state(desc, outcome=case["fn"])


def curves(ctx, strikes, dips, pitches, triples, part, parts):
    b = Batch(ctx)
    for s, d, p, sg, h in part_of(itertools.product(strikes, dips, pitches, SIGNS, triples), part, parts):
        A = (frame(s, d, p) * N.array(sg)[:, None]).tolist()
        for trad, up in itertools.product((True, False), repeat=2):
            for sheet in ("nominal", "upper", "lower"):
                deg = (s // 45 + (sheet == "upper")) % 2 == 0
                o = dict(n=24, sheet=sheet, traditionalLayout=trad, upperHemisphere=up, degrees=deg)

                def fn(ctx, v, A=A, h=h, trad=trad, up=up, sheet=sheet, deg=deg):
                    ctx.require(len(v) == 24, "{} points", len(v))
                    girdle(ctx, decode(v, trad, up, deg), A, h, sheet, up, "girdle")
                b.add(("girdle", s, d, p, sg, h, trad, up, sheet), dict(fn="curve", name="planeErrors", cov=h, axes=A, opts=o), fn)
            for sheet in ("upper", "lower"):
                deg = (s // 45 + (sheet == "upper")) % 2 == 1
                level = 2 if sheet == "upper" and sg[0] < 0 else 1
                o = dict(n=24, sheet=sheet, traditionalLayout=trad, upperHemisphere=up, degrees=deg)
                if level != 1 or sg[1] < 0:
                    o["level"] = level

                def fn(ctx, v, A=A, h=h, trad=trad, up=up, sheet=sheet, deg=deg, level=level):
                    ctx.require(len(v) == 24, "{} points", len(v))
                    pole(ctx, decode(v, trad, up, deg), A, h, sheet, level, "pole")
                b.add(("pole", s, d, p, sg, h, trad, up, sheet), dict(fn="curve", name="normalErrors", cov=h, axes=A, opts=o), fn)
            o = dict(n=16, traditionalLayout=trad, upperHemisphere=up)

            def fn(ctx, v, A=A, h=h, trad=trad, up=up):
                ctx.require(sorted(v) == ["lower", "nominal", "upper"], "combined errors consist of {}", sorted(v))
                for sheet in v:
                    ctx.require(len(v[sheet]) == 16, "{} points", len(v[sheet]))
                    girdle(ctx, decode(v[sheet], trad, up, True), A, h, sheet, up, "combined")
            b.add(("combined", s, d, p, sg, h, trad, up), dict(fn="combined", cov=h, axes=A, opts=o), fn)
    b.finish()


def counts(ctx):
    """Point counts, levels, defaults"""
    b = Batch(ctx)
    A = (frame(40, 30, 20) * N.array([1, -1, 1])[:, None]).tolist()
    I = N.eye(3).tolist()
    h = (9., 4., .25)
    for n in (4, 6, 8, 10, 12, 14, 16, 18, 20, 22, 30, 36, 48, 50, 60, 62, 64, 72, 98, 100, 102, 128, 180, 200, 256, 360, 400, 500, 1000, 1002, 2000, 5000):
        for name, sheets in (("planeErrors", ("nominal", "upper", "lower")), ("normalErrors", ("upper", "lower"))):
            for sheet in sheets:
                def fn(ctx, v, n=n, sheet=sheet, name=name):
                    ctx.require(len(v) == n, "{} points instead of {}", len(v), n)
                    q = decode(v, True, True, False)
                    girdle(ctx, q, A, h, sheet, True, "girdle") if name == "planeErrors" else pole(ctx, q, A, h, sheet, 1, "pole")
                b.add(("count", n, name, sheet), dict(fn="curve", name=name, cov=h, axes=A, opts=dict(n=n, sheet=sheet)), fn)
    for level in (.5, 1, 1.5, 2, 3, 10):
        for sheet in ("upper", "lower"):
            def fn(ctx, v, level=level, sheet=sheet):
                pole(ctx, decode(v, True, True, False), A, h, sheet, level, "level")
            b.add(("level", level, sheet), dict(fn="curve", name="normalErrors", cov=h, axes=A, opts=dict(level=level, sheet=sheet)), fn)
    for axes, X in ((A, A), (None, I)):
        for opts in (None, {}):
            b.add(("default", "plane", axes is None, opts), dict(fn="curve", name="planeErrors", cov=h, axes=axes, opts=opts),
                  lambda ctx, v, X=X: (ctx.require(len(v) == 100, "{} points", len(v)), girdle(ctx, decode(v, True, True, False), X, h, "nominal", True, "default")))
            b.add(("default", "normal", axes is None, opts), dict(fn="curve", name="normalErrors", cov=h, axes=axes, opts=opts),
                  lambda ctx, v, X=X: (ctx.require(len(v) == 100, "{} points", len(v)), pole(ctx, decode(v, True, True, False), X, h, "upper", 1, "default")))
            b.add(("default", "combined", axes is None, opts), dict(fn="combined", cov=h, axes=axes, opts=opts),
                  lambda ctx, v, X=X: [girdle(ctx, decode(v[k], True, True, True), X, h, k, True, "default") for k in sorted(v)])
    b.finish()


EXTREME = [(1e4, 4., .01), (1e6, 1., 1e-2), (1e8, 1e6, 1e2), (2., 1., .5), (9., 4., 1e-10), (4., 1., 900.), (.04, .04, 1e-6), (3., 2.999, .7)]


def levels(ctx, part, parts):
    """Pole curves at all levels and counts, for every layout, hemisphere and orientation of the axes"""
    b = Batch(ctx)
    space = itertools.product([(40, 30), (200, 3), (300, 85)], SIGNS[::3], EXTREME[:5] + [(9., 4., .25)], (.2, .7, 1.3, 2.4477, 2.7955, 6), (True, False), (True, False), ("upper", "lower"), (6, 150))
    for (s, d), sg, h, level, trad, up, sheet, n in part_of(space, part, parts):
        A = (frame(s, d, 20) * N.array(sg)[:, None]).tolist()

        def fn(ctx, v, A=A, h=h, level=level, trad=trad, up=up, sheet=sheet, n=n):
            ctx.require(len(v) == n, "{} points instead of {}", len(v), n)
            pole(ctx, decode(v, trad, up, True), A, h, sheet, level, "level")
        b.add(("levels", s, d, sg, h, level, trad, up, sheet, n), dict(fn="curve", name="normalErrors", cov=h, axes=A, opts=dict(level=level, sheet=sheet, traditionalLayout=trad, upperHemisphere=up, degrees=True, n=n)), fn)
        if level > 1.2 and level < 2:
            for sheet in ("nominal", sheet):
                def fn(ctx, v, A=A, h=h, trad=trad, up=up, sheet=sheet, n=n):
                    ctx.require(len(v) == n, "{} points instead of {}", len(v), n)
                    girdle(ctx, decode(v, trad, up, False), A, h, sheet, up, "girdle")
                b.add(("girdles", s, d, sg, h, trad, up, sheet, n), dict(fn="curve", name="planeErrors", cov=h, axes=A, opts=dict(sheet=sheet, traditionalLayout=trad, upperHemisphere=up, n=n)), fn)
    b.finish()


VECTORS = [(1, 2, 3), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (0, 1, 1), (1, 0, 1), (1e-6, 2, 1), (300, 4, .5), (1, 1, 1), (5, 5, 0), (.1, .2, .7), (2, 0, 7), (1e5, 1e5, 1)]


def conversions(ctx):
    b = Batch(ctx)
    vs = sorted({tuple(float(x * y) for x, y in zip(p, sg)) for v in VECTORS for p in itertools.permutations(v) for sg in SIGNS})
    for trad, up, deg in itertools.product((True, False), repeat=3):
        def fn(ctx, v, trad=trad, up=up, deg=deg):
            q = decode(v, trad, up, deg)
            u = N.array(vs) / N.linalg.norm(vs, axis=1)[:, None]
            ctx.close(q, u, "direction", 1e-7)
        b.add(("cart2sph", trad, up, deg), dict(fn="cart2sph", vs=vs, opts=dict(traditionalLayout=trad, upperHemisphere=up, degrees=deg)), fn)
    b.add(("cart2sph", "default"), dict(fn="cart2sph", vs=vs, opts=None), lambda ctx, v: ctx.close(decode(v, False, True, False), N.array(vs) / N.linalg.norm(vs, axis=1)[:, None], "direction", 1e-7))
    for v in vs:
        b.add(("norm", v), dict(fn="norm", v=v), lambda ctx, r, v=v: ctx.close(r, N.linalg.norm(v), "norm", 1e-12, N.linalg.norm(v)))
    for s, d in itertools.product(range(0, 360, 30), (0, 35, 90)):
        A = (frame(s, d, 15) * N.array([3, 2, 1])[:, None]).tolist()
        b.add(("transpose", s, d), dict(fn="transpose", axes=A), lambda ctx, r, A=A: ctx.close(r, N.array(A).T, "transpose", 0))
    b.finish()


def python(ctx, part, parts):
    """Mappings as the Python library writes them"""
    b = Batch(ctx)
    fits = []
    for s, d in itertools.product(range(0, 360, 60), (0, 10, 45, 80, 90)):
        fits.append((("fit", s, d), PCAOrientation(octa((5, 2, .3), 14)[0] @ frame(s, d, 25))))
        fits.append((("rebuilt", s, d), ReconstructedPlane(s, d, 25, 3, 8)))
    for k, f in part_of(fits, part, parts):
        m = f.to_mapping()
        h, A = m["hyperbolic_axes"], m["axes"]
        e = N.radians([m["min_angular_error"], m["max_angular_error"]])

        def fn(ctx, v, h=h, A=A, e=e, kind=k[0]):
            for sheet in v:
                girdle(ctx, decode(v[sheet], True, True, True), A, h, sheet, True, "mapping")
            # the widest and narrowest departure from the plane are the stated errors
            up = N.abs(decode(v["upper"], True, True, True) @ N.array(A[2]))
            got = N.arcsin(N.clip([up.min(), up.max()], 0, 1))
            if kind == "fit":
                ctx.require(abs(got[0] - e.min()) < 2e-3 * max(e.max(), .05) and abs(got[1] - e.max()) < 2e-3 * max(e.max(), .05), "girdle departs by {} to {} degrees from the plane, stated errors are {}", *N.degrees(N.append(got, [e.min()])))
        b.add(k, dict(fn="combined", cov=h, axes=A, opts=dict(n=400)), fn)

        def fn(ctx, v, h=h, A=A):
            pole(ctx, decode(v, True, True, False), A, h, "upper", 1, "mapping")
        b.add(k + ("pole",), dict(fn="curve", name="normalErrors", cov=h, axes=A, opts=dict(n=100)), fn)
    b.finish()


TASKS = dict(levels=levels, curves=curves, counts=counts, conversions=conversions, python=python)


def shards(tier):
    t = tier == "thorough"
    out = split("curves", 48 if t else 16, strikes=list(range(0, 360, 15 if t else 45)), dips=[0, 1, 20, 45, 60, 89, 90] if t else [0, 20, 60, 90], pitches=[0, 35, 100] if t else [0, 35], triples=TRIPLES if t else TRIPLES[:8])
    out += split("curves", 8 if t else 4, strikes=[0, 77, 180, 300], dips=[1e-6, 1e-3, .05, 89.9, 89.99, 89.9999, 90 - 1e-6], pitches=[10], triples=TRIPLES[:2])
    out += split("curves", 4, strikes=[20, 250], dips=[2, 50, 87], pitches=[15], triples=EXTREME) + split("levels", 4)
    out += [("counts", {}), ("conversions", {})] + split("python", 2)
    return out
