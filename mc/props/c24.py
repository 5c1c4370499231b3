"""Browser side views place planes, traces and error bands where they are."""
import itertools
import re

import numpy as N
from attitude.display.hyperbola import hyperbolic_errors

from ..engine import part_of, split
from ..universe import frame, spiral
from .c22 import SIGNS, Batch

BOUNDS = dict(
    quick="every 45th strike x dips 0, 10, 45, 80, 89 x 2 pitches x 8 sign choices of the axes x every 30th viewing azimuth x 4 pairs of scales (equal, exaggerated, "
          "not inverted, shifted) x 3 error triples; all sources of mean and points; all sequences of up to 3 drawings of one element over 4 viewing directions; "
          "9 viewing angles of several turns and both signs x 5 scales with exaggerations up to 800 x 4 error triples of all magnitudes x widths 40 to 1200; 3 to 2000 points",
    thorough="every 15th strike x 8 dips x 3 pitches, every 15th viewing azimuth, sequences of up to 4 drawings")
ASSUMPTIONS = ["hyperbola.ts is bundled with esbuild; d3 and mathjs are the copies in the repository, quaternion, chroma-js, uuid and the document are stand-ins of a few lines",
               "planes whose longest axis is vertical have no error band in a side view"]

SCALES = [([[-10, 10], [0, 400]], [[-5, 5], [200, 0]]), ([[-100, 100], [0, 500]], [[-4, 4], [300, 0]]), ([[0, 10], [20, 120]], [[0, 10], [0, 250]]),
          ([[-3, 7], [0, 800]], [[1, 9], [640, 0]])]
TRIPLES = [(9., 4., .25), (100., 1., .01), (1., 1., 4.)]
OFFSETS = [(1., 2., -3.), (0., 0., 0.), (-40., 7., 25.)]


def scale(s, v):
    (a, b), (c, d) = s
    return c + (v - a) * (d - c) / (b - a)


def numbers(t):
    return [float(i) for i in re.findall(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?", t)]


def planes(strikes, dips, pitches):
    for s, d, p, sg in itertools.product(strikes, dips, pitches, SIGNS):
        yield (s, d, p, sg), frame(s, d, p) * N.array(sg)[:, None]


def attitude(ctx, strikes, dips, pitches, azimuths, part, parts):
    """Dip and apparent dip of a plane"""
    b = Batch(ctx, "sideview.js")
    az = N.radians(azimuths)
    for key, A in part_of(planes(strikes, dips, pitches), part, parts):
        def fn(ctx, v, A=A):
            d, r = v["dip"]
            n = N.array([N.sin(d) * N.sin(r), N.sin(d) * N.cos(r), N.cos(d)])
            ctx.close(n, A[2], "direction of the normal", 1e-9, 1)
            ctx.require(-N.pi - 1e-9 <= r <= N.pi + 1e-9, "dip direction {}", r)
            for a, got in zip(az, v["apparent"]):
                h = N.array([N.sin(a), N.cos(a), 0])
                if abs(A[2, 2]) > 1e-6:
                    want = N.arctan(A[2].dot(h) / A[2, 2])
                    ctx.require(abs(got - want) < 1e-7, "apparent dip towards {}: {} instead of {}", N.degrees(a), got, want)
            ctx.close(v["axes"], A, "axes", 0, 1)
        for k in (1, 2.5, .2):
            # also with an unnormalised normal
            B = A.copy()
            B[2] *= k

            def fn_(ctx, v, A=A, B=B, fn=fn):
                ctx.close(v["axes"], B, "axes", 0, 1)
                v["axes"] = A.tolist()
                fn(ctx, v)
            b.add(("attitude", key, k), dict(fn="plane", plane=dict(data=dict(axes=B.tolist(), hyperbolic_axes=[9, 4, 1])), azimuths=az.tolist()), fn_)
    ang = [-20., -7, -N.pi - .1, -3, -1e-9, 0, 1, 3.1, 3.2, 6.2, 6.3, 9.5, 100]

    def fix(ctx, v):
        for a, r in zip(ang, v):
            ctx.require(-N.pi - 1e-12 <= r <= N.pi + 1e-12, "angle {} became {}", a, r)
            k = (r - a) / (2 * N.pi)
            ctx.require(abs(k - round(k)) < 1e-9, "angle {} became {}", a, r)
    if part == 0:
        b.add(("fixAngle",), dict(fn="fix", angles=ang), fix)
    b.finish()


def points(ctx):
    """Mean and centred points from every source"""
    b = Batch(ctx, "sideview.js")
    P = (spiral(9, (5., 2., .3)).dot(frame(30, 20, 10)) + (100, -20, 7))
    m = P.mean(axis=0)
    for arg, dm, dc, ext, cen in itertools.product((False, True), repeat=5):
        data = dict(axes=N.eye(3).tolist(), hyperbolic_axes=[9, 4, 1], color="blue", in_group=True)
        want = None
        if dc:
            want = data["center"] = [4., 5, 6]
        if dm:
            want = data["mean"] = [7., 8, 9]
        if arg:
            want = [1., 2, 3]
        if ext:
            data["extracted"] = P.tolist()
            want = m.tolist() if want is None else want
        if cen:
            data["centered_array"] = (P - m + 1).tolist()
        wc = (P - m + 1) if cen else (P - want) if ext else None

        def fn(ctx, v, want=want, wc=wc):
            if want is not None:
                ctx.require(v["mean"] is not None, "no mean")
                ctx.close(v["mean"], want, "mean", 1e-12)
            if wc is not None:
                ctx.require(v["centered"] is not None, "no centred points")
                ctx.close(v["centered"], wc, "centred points", 1e-12)
            else:
                ctx.require("centered" not in v or v["centered"] is None, "centred points from nowhere")
            ctx.require(v["lengths"] == [9, 4, 1] and v["color"] == "blue", "error axes {} colour {}", v["lengths"], v["color"])
        pl = dict(data=data)
        if arg:
            pl["mean"] = [1., 2, 3]
        b.add(("points", arg, dm, dc, ext, cen), dict(fn="plane", plane=pl, azimuths=[]), fn)
    b.finish()


def direction(v):
    return N.array([N.cos(v), N.sin(v), 0])


def traces(ctx, strikes, views, part, parts):
    """Digitized points seen from the side"""
    b = Batch(ctx, "sideview.js")
    P = spiral(11, (5., 2., .3))
    for s, off, v, fr in part_of(itertools.product(strikes, OFFSETS, views, (None, (0, 0, 0), (40, 30, 20))), part, parts):
        Q = P.dot(frame(s, 35, 20))
        F = None if fr is None else frame(*fr)
        w = N.radians(v)

        def fn(ctx, r, Q=Q, off=off, w=w, F=F):
            R = N.eye(3) if F is None else F
            q = (Q + off).dot(R.T)
            want = N.array([q.dot(direction(w)), q[:, 2]]).T
            ctx.require(len(r["data"]) == 1 and r["d"] == "line", "line drawn {} times", len(r["data"]))
            ctx.close(r["data"][0], want, "projected points", 1e-9, 40)
        c = dict(fn="trace", viewpoint=w, plane=dict(data=dict(axes=frame(s, 35, 20).tolist(), centered_array=Q.tolist(), center=[1, 2, 3]), offset=list(off)))
        if F is not None:
            c["frame"] = F.tolist()
        b.add(("trace", s, off, v, fr), c, fn)
    b.finish()


def placed(ctx, transform, A, off, w, sx, sy, msg):
    """The transformed x axis is the trace of the plane through the offset"""
    t = numbers(transform)
    if not ctx.require(len(t) == 3 and "translate" in transform and "rotate" in transform, "{}: transform {}", msg, transform):
        return
    x, z = direction(w).dot(off), off[2]
    px, pz = scale(sx, x), scale(sy, z)
    ctx.require(abs(t[0] - px) < 1e-6 * (1 + abs(px)) and abs(t[1] - pz) < 1e-6 * (1 + abs(pz)), "{}: placed at {} instead of {}", msg, t[:2], (px, pz))
    sloped(ctx, t[2], A, w, sx, sy, msg)


def sloped(ctx, turned, A, w, sx, sy, msg):
    # a step along the plane
    n = A[2]
    rx, ry = scale(sx, 1) - scale(sx, 0), scale(sy, 1) - scale(sy, 0)
    u = N.array([rx * n[2], -ry * n.dot(direction(w))])
    r = N.radians(turned)
    cross = u[0] * N.sin(r) - u[1] * N.cos(r)
    if abs(n[2]) > 1e-6:
        ctx.require(abs(cross) < 1e-6 * N.linalg.norm(u), "{}: rotated by {} instead of {}", msg, turned, N.degrees(N.arctan2(u[1], u[0])))


def lines(ctx, strikes, dips, views, part, parts):
    """Place and slope of planes, alone and in a group"""
    b = Batch(ctx, "sideview.js")
    for (key, A), v, (i, (sx, sy)) in part_of(itertools.product(planes(strikes, dips, (25,)), views, enumerate(SCALES)), part, parts):
        off = OFFSETS[(i + v) % 3]
        w = N.radians(v)
        group = (key[0] + v) % 2 == 0
        G = frame(key[0] + 77, 40, 10) if group else A
        pl = dict(data=dict(axes=A.tolist(), center=[1, 2, 3], centered_array=[[1, 0, 0]]), offset=list(off))
        if group:
            pl["group"] = dict(data=dict(axes=G.tolist(), center=[9, 9, 9]), offset=[5, 5, 5])

        def fn(ctx, r, G=G, off=off, w=w, sx=sx, sy=sy):
            placed(ctx, r, G, off, w, sx, sy, "transform")
        b.add(("transform", key, v, i), dict(fn="transform", viewpoint=w, x=sx, y=sy, plane=pl), fn)
        width = [None, 120, 64][(i + v // 30) % 3]

        def fn(ctx, r, G=G, off=off, w=w, sx=sx, sy=sy, width=width):
            placed(ctx, r["transform"], G, off, w, sx, sy, "nominal line")
            k = width or 400
            ctx.require(float(r["x1"]) == -k / 2 and float(r["x2"]) == k / 2, "line from {} to {} instead of width {}", r["x1"], r["x2"], k)
        c = dict(fn="nominal", viewpoint=w, x=sx, y=sy, plane=pl)
        if width:
            c["width"] = width
        b.add(("nominal", key, v, i), c, fn)
    b.finish()


def kids(n, tag):
    return [k for k in n["kids"] if k["tag"] == tag]


def band(ctx, r, A, h, off, w, sx, sy, width, nominal, scaled, alpha=None, colour="teal"):
    n = r["node"]
    ctx.require(n["attrs"].get("visibility") != "hidden", "band is hidden")
    if len(off) == 3:
        placed(ctx, n["attrs"]["transform"], A, off, w, sx, sy, "band")
    else:
        # an offset in the plane of the view
        t, want = numbers(n["attrs"]["transform"]), (scale(sx, off[0]), scale(sy, off[1]))
        ctx.require(max(abs(t[0] - want[0]), abs(t[1] - want[1])) < 1e-6 * (1 + max(map(abs, want))), "band: placed at {} instead of {}", t[:2], want)
        sloped(ctx, t[2], A, w, sx, sy, "band")
    p = kids(n, "path")
    if not ctx.require(len(p) == 1 and "hyperbola" in p[0]["classes"], "{} bands drawn", len(p)):
        return
    xy = N.array(numbers(p[0]["attrs"]["d"])).reshape(-1, 2)
    ctx.require(p[0]["attrs"]["d"].strip().endswith("Z"), "band is not closed")
    rx, ry = abs(scale(sx, 1) - scale(sx, 0)), abs(scale(sy, 1) - scale(sy, 0))
    if not scaled:
        ry = rx
    # in the units of the plane
    u = xy / (rx, ry)
    ctx.require(len(u) >= 6 and len(u) % 2 == 0, "{} corners", len(u))
    k = len(u) // 2
    one, two = u[:k], u[k:][::-1]
    ctx.close(two, one * (1, -1), "the two edges are not symmetrical", 1e-9, N.abs(u).max())
    ctx.require(N.abs(one[0] * (-1, 1) - one[-1]).max() < 1e-9 * N.abs(u).max(), "edge is not symmetrical about the middle")
    ctx.require((N.diff(one[:, 0]) > 0).all() or (N.diff(one[:, 0]) < 0).all(), "edge turns back")
    sd = N.sqrt(h)
    f = N.arctan2(A[0, 1], A[0, 0])
    a = 1 / N.hypot(N.cos(w - f) / sd[0], N.sin(w - f) / sd[1])
    o = one[N.argsort(one[:, 0])]
    y0 = abs(N.interp(0, o[:, 0], o[:, 1]))
    ctx.require(abs(y0 - sd[2]) < 1e-7 * sd[2], "half width at the centre {} instead of {}", y0, sd[2])
    X, Y = N.abs(one[0])
    ctx.require(abs(Y / X - sd[2] / a) < 1e-7 * sd[2] / a, "band opens at {} instead of {}", Y / X, sd[2] / a)
    ctx.require(X * rx >= width / 2, "band ends at {} of {}", X * rx, width / 2)
    if abs(A[2, 2]) > 1 - 1e-12:
        # horizontal planes: the band of the Python library
        x = N.array([-1e6, 0, 1e6])
        ax = N.array([direction(w), (0, 0, 1)])
        lo = hyperbolic_errors(N.array(h), x, transformation=A, axes=ax)[1]
        ctx.close(N.abs(lo[1, 1]), y0, "half width next to that of the Python library", 1e-7, sd[2])
        ctx.close(N.abs(lo[1, 0]) / 1e6, Y / X, "slope next to that of the Python library", 1e-5, Y / X)
    m = kids(n, "mask")
    # the band fades over its width, measured along its edges
    half = width / 2. * N.cos(N.arctan2(sd[2] * ry, a * rx) if scaled else N.arctan2(sd[2], a))
    # an empty mask would hide the band
    rect = kids(m[0], "rect") if len(m) == 1 else []
    ctx.require(len(rect) == 1 and bool(rect[0]["attrs"].get("fill")), "what the mask lets through: {}", rect)
    for i in m[:1] + rect[:1] if r.get("first", True) else []:
        g = [abs(float(i["attrs"][k])) for k in ("x", "y")] + [float(i["attrs"][k]) / 2 for k in ("width", "height")]
        ctx.require(max(abs(k - half) for k in g) < 1e-6 * half, "mask of {} instead of {}", g, half)
    ctx.require(len(m) == 1 and p[0]["attrs"]["mask"] == "url(#{})".format(m[0]["attrs"]["id"]), "mask")
    l = kids(n, "line")
    ctx.require(len(l) == (1 if nominal else 0), "{} nominal lines", len(l))
    for i in l:
        ctx.require(float(i["attrs"]["x1"]) == -float(i["attrs"]["x2"]) and abs(float(i["attrs"]["x2"])) >= width / 2, "nominal line from {} to {}", i["attrs"]["x1"], i["attrs"]["x2"])
    fill, stroke = [float(p[0]["attrs"][i].split("/")[1]) for i in ("fill", "stroke")]
    ctx.require(p[0]["attrs"]["fill"].startswith(colour + "/") and 0 < fill < stroke <= 1, "opacity {} {}", fill, stroke)
    # by the angle between the edges
    (d0, d1), (a0, a1) = alpha or ((0., 5.), (.8, .1))
    e = 2 * N.degrees(N.arctan2(sd[2], a))
    if e >= d1 or e <= d0:
        ctx.require(abs(fill - (a1 if e >= d1 else a0)) < 1e-9, "opacity {} for an error of {} degrees", fill, e)
    else:
        ctx.require(a1 < fill < a0 and (alpha is None or abs(fill - (a0 + (a1 - a0) * (e - d0) / (d1 - d0))) < 1e-9), "opacity {} for an error of {} degrees", fill, e)
    return fill, e


def bands(ctx, strikes, dips, pitches, views, part, parts):
    b = Batch(ctx, "sideview.js")
    for (key, A), v, (j, h) in part_of(itertools.product(planes(strikes, dips, pitches), views, enumerate(TRIPLES)), part, parts):
        if N.hypot(A[0, 0], A[0, 1]) < 1e-6:
            continue
        i = (key[0] // 45 + v // 30 + j + int(key[1])) % 4
        sx, sy = SCALES[i]
        off = OFFSETS[(v // 30 + j) % 3]
        w = N.radians(v)
        width = [400, 150][(v // 30) % 2]
        nominal, scaled = bool((j + v // 30) % 2), (i + v // 30) % 3 != 0
        pl = dict(data=dict(axes=A.tolist(), hyperbolic_axes=list(h), color="teal", center=[1, 2, 3]), offset=list(off))
        if off == (0., 0., 0.) and v % 60:
            pl.pop("offset")
        if (v // 30 + j + key[0] // 45) % 5 == 0:
            pl["offset"] = off = list(off[:2])
        c = dict(fn="bands", views=[w], frame=N.eye(3).tolist(), x=sx, y=sy, plane=pl, nominal=nominal, scaled=scaled)
        if width != 400:
            c["width"] = width
        alpha = [None, None, ((2., 70.), (.7, .2))][(v // 30 + 2 * j + key[0] // 45) % 3]
        if alpha:
            c["alpha"] = alpha

        def fn(ctx, r, A=A, h=h, off=off, w=w, sx=sx, sy=sy, width=width, nominal=nominal, scaled=scaled, alpha=alpha):
            band(ctx, r[0], A, h, off, w, sx, sy, width, nominal, scaled, alpha)
        b.add(("band", key, v, j), c, fn)
    b.finish()


WIDE = [([[-1000, 1000], [0, 300]], [[-2, 2], [500, 0]]), ([[-1, 1], [0, 700]], [[-50, 50], [300, 0]]), ([[0, 4], [0, 900]], [[0, 4], [900, 0]]), ([[0, 4], [0, 900]], [[0, 40], [0, 90]])]
TURNS = [-400, -180, -90, -30, -1e-3, 370, 540, 1000]


def settings(ctx, part, parts):
    """Bands and lines seen from any number of turns, of all widths and steep exaggerations, far off and of extreme errors"""
    b = Batch(ctx, "sideview.js")
    hs = [(9., 4., .25), (1e4, 2., 1e-4), (1e-4, 4e-6, 1e-8), (2e6, 3e5, 50.)]
    offs = [(500., -2000., 300.), (-.01, .02, .003), (1., 2., -3.)]
    space = itertools.product(itertools.product((20, 250), (3, 35, 85), (25,), (SIGNS[0], SIGNS[-1])), TURNS + [60], enumerate(WIDE + SCALES[:1]), enumerate(hs))
    for (s, d, p, sg), v, (i, (sx, sy)), (j, h) in part_of(space, part, parts):
        A = frame(s, d, p) * N.array(sg)[:, None]
        w = N.radians(v)
        k = int(abs(v)) // 10 + i + j + d
        off, width, scaled, nominal = offs[k % 3], [40, 90, 400, 750, 1200][k % 5], k % 4 != 0, k % 2 == 0
        pl = dict(data=dict(axes=A.tolist(), hyperbolic_axes=list(h), color="teal", center=[1, 2, 3], in_group=bool(k % 3)), offset=list(off))
        if k % 7 == 0:
            pl["data"].pop("color")

        def fn(ctx, r, A=A, h=h, off=off, w=w, sx=sx, sy=sy, width=width, nominal=nominal, scaled=scaled, k=k):
            band(ctx, r[0], A, h, off, w, sx, sy, width, nominal, scaled, None, "teal" if k % 7 else "#aaaaaa")
        b.add(("settings", (s, d, p, sg), v, i, j), dict(fn="bands", views=[w], frame=N.eye(3).tolist(), x=sx, y=sy, plane=pl, nominal=nominal, scaled=scaled, width=width), fn)
        if j == 0:
            def fn(ctx, r, A=A, off=off, w=w, sx=sx, sy=sy, width=width):
                placed(ctx, r["transform"], A, off, w, sx, sy, "nominal line")
                ctx.require(float(r["x1"]) == -width / 2 and float(r["x2"]) == width / 2, "line from {} to {} instead of width {}", r["x1"], r["x2"], width)
            pl = dict(data=dict(axes=A.tolist(), center=[1, 2, 3], centered_array=[[1, 0, 0]]), offset=list(off))
            b.add(("line settings", (s, d, p, sg), v, i), dict(fn="nominal", viewpoint=w, x=sx, y=sy, plane=pl, width=width), fn)
    b.finish()


def sizes(ctx, part, parts):
    """Traces and means of few and of many points, near and far"""
    b = Batch(ctx, "sideview.js")
    for n, c, k, v in part_of(itertools.product((3, 4, 6, 12, 25, 80, 300, 2000), ((0, 0, 0), (.01, -.02, .003), (-30, 4, 9), (4e5, 3e6, 1200)), (.01, 1., 400.), (-250, -30, 40, 400)), part, parts):
        P = spiral(n, (5., 2., .3)).dot(frame(30, 20, 10)) * k + c
        m = P.mean(axis=0)
        w = N.radians(v)
        tol = 1e-12 * (N.abs(P).max() + k)

        def fn(ctx, r, P=P, m=m, tol=tol):
            ctx.require(r["mean"] is not None and N.abs(N.array(r["mean"]) - m).max() <= 10 * tol, "mean {} instead of {}", r["mean"], m)
            ctx.require(N.shape(r["centered"]) == P.shape and N.abs(N.array(r["centered"]) - (P - m)).max() <= 20 * tol, "centred points")
        b.add(("size", n, c, k), dict(fn="plane", plane=dict(data=dict(axes=N.eye(3).tolist(), hyperbolic_axes=[9, 4, 1], extracted=P.tolist())), azimuths=[]), fn)
        Q, off = P - m, [j * 1.5 for j in c]

        def fn(ctx, r, Q=Q, off=off, w=w):
            q = Q + off
            want = N.array([q.dot(direction(w)), q[:, 2]]).T
            ctx.require(len(r["data"]) == 1 and N.shape(r["data"][0]) == want.shape, "{} of {} points drawn", [len(j) for j in r["data"]], len(want))
            ctx.close(r["data"][0], want, "projected points", 1e-9, N.abs(q).max())
        b.add(("trace size", n, c, k, v), dict(fn="trace", viewpoint=w, plane=dict(data=dict(axes=N.eye(3).tolist(), centered_array=Q.tolist(), center=[1, 2, 3]), offset=off)), fn)
    b.finish()


def redraw(ctx, depth, part, parts):
    """One element, drawn again and again while the view turns"""
    b = Batch(ctx, "sideview.js")
    views = [0, 50, 140, 270]
    for (k, dip), seq, nominal in part_of(itertools.product([(30, 20), (200, 60), (0, 0)], [s for d in range(2, depth + 1) for s in itertools.product(views, repeat=d)], (False, True)),
                                          part, parts):
        A = frame(k, dip, 25)
        sx, sy = SCALES[1]
        h, off = TRIPLES[0], OFFSETS[0]

        def fn(ctx, r, A=A, seq=seq, nominal=nominal):
            ctx.depth(len(seq))
            for v, i in zip(seq, r):
                band(ctx, dict(i, first=i is r[0]), A, h, off, N.radians(v), sx, sy, 150, nominal, True)
        b.add(("redraw", k, dip, seq, nominal), dict(fn="bands", views=N.radians(seq).tolist(), frame=N.eye(3).tolist(), x=sx, y=sy, nominal=nominal, width=150,
              plane=dict(data=dict(axes=A.tolist(), hyperbolic_axes=list(h), color="teal", center=[1, 2, 3]), offset=list(off))), fn)
    b.finish()


def depths(ctx, views):
    """Bands are put in order by their distance from the viewer; the more certain of two is the more opaque"""
    offs = [(1., 2., -3.), (3., -1., 5.), (-4., 0., 20.), (0., 6., 1.), (2., 2., -9.)]
    hs = [(9., 4., 1e-6), (9., 4., 1e-4), (9., 4., 3e-3), (9., 4., 6e-3), (9., 4., 1.)]
    for v in views:
        b = Batch(ctx, "sideview.js")
        seen = []

        def fn(ctx, r, seen=seen):
            p = kids(r[0]["node"], "path")[0]
            seen.append((r[0]["z"], float(p["attrs"]["fill"].split("/")[1])))
        for i, (o, h) in enumerate(zip(offs, hs)):
            b.add(("depth", v, i), dict(fn="bands", views=[N.radians(v)], frame=N.eye(3).tolist(), x=SCALES[0][0], y=SCALES[0][1],
                                       plane=dict(data=dict(axes=frame(30, 20, 25).tolist(), hyperbolic_axes=list(h), color="teal", center=[1, 2, 3]), offset=list(o))), fn)
        b.finish()
        with ctx.case(("depths", v)):
            ctx.step()
            w = N.radians(v)
            away = N.array(offs).dot((-N.sin(w), N.cos(w), 0))
            z = N.array([i[0] for i in seen])
            if ctx.require(len(z) == len(offs), "bands are missing"):
                k = z.dot(away) / away.dot(away)
                ctx.require(abs(abs(k) - 1) < 1e-9 and N.abs(z - k * away).max() < 1e-9, "depths {} for distances {}", z, away)
                ctx.require((N.diff([i[1] for i in seen]) <= 0).all() and seen[0][1] > seen[1][1] > seen[-1][1], "opacities {}", [i[1] for i in seen])
            ctx.state(("depths", v), outcome="depth")


def ladder(ctx):
    """Bands by small steps of certainty"""
    for in_group, dip in itertools.product((False, True), (0, 40)):
        b = Batch(ctx, "sideview.js")
        es = [.05 * 1.12 ** i for i in range(48)]
        seen = []
        for i, e in enumerate(es):
            # a section along the longest axis, on which the half width is 3
            h = [9., 4., (3 * N.tan(N.radians(e / 2))) ** 2]
            A = frame(90, dip, 0)

            def fn(ctx, r, A=A, h=h):
                seen.append(band(ctx, r[0], A, h, (0., 0., 0.), 0., SCALES[0][0], SCALES[0][1], 400, False, True))
            b.add(("ladder", in_group, dip, i), dict(fn="bands", views=[0.], frame=N.eye(3).tolist(), x=SCALES[0][0], y=SCALES[0][1], nominal=False, scaled=True,
                  plane=dict(data=dict(axes=A.tolist(), hyperbolic_axes=h, color="teal", center=[1, 2, 3], in_group=in_group), offset=[0, 0, 0])), fn)
        b.finish()
        with ctx.case(("ladders", in_group, dip)):
            ctx.step()
            ok = len(seen) == len(es) and all(x and y and (x[0] > y[0] or (y[1] > 5 and x[0] >= y[0])) for x, y in zip(seen, seen[1:]))
            ctx.require(ok, "opacities by error {}", seen)
            ctx.state(("ladders", in_group, dip), outcome="ladder")


def opacity(ctx):
    """More certain planes are at least as opaque"""
    b = Batch(ctx, "sideview.js")
    errs = [0, .1, .5, 1, 2, 3, 4, 4.9, 5, 6, 20, 90]
    for key in ("max_angular_error", "maxError"):
        for col in ("red", "#0f0"):
            def fn(ctx, v, col=col):
                f = [float(i["fill"].split("/")[1]) for i in v]
                s = [float(i["stroke"].split("/")[1]) for i in v]
                ctx.require(all(i["fill"].startswith(col + "/") and i["stroke"].startswith(col + "/") for i in v), "colour")
                ctx.require((N.diff(f) <= 1e-12).all() and (N.diff(s) <= 1e-12).all() and f[0] > f[5] > f[-1] > 0, "opacities {}", f)
                ctx.require((N.array(s) > f).all() and max(s) <= 1 + 1e-12, "stroke opacities {}", s)
            b.add(("opacity", key, col), dict(fn="opacity", planes=[{"color": col, key: e} for e in errs]), fn)
    b.finish()


TASKS = dict(attitude=attitude, points=points, traces=traces, lines=lines, bands=bands, redraw=redraw, opacity=opacity, depths=depths, settings=settings, sizes=sizes, ladder=ladder)


def shards(tier):
    t = tier == "thorough"
    strikes = list(range(0, 360, 15 if t else 45))
    dips = [0, 1e-3, 10, 30, 45, 60, 80, 89] if t else [0, 10, 45, 80, 89]
    views = list(range(0, 360, 15 if t else 30))
    k = 24 if t else 8
    return (split("attitude", k // 4, strikes=strikes, dips=dips + [2e-3, 90], pitches=(0, 25), azimuths=views + [-720, -400, -181, -90, -7, 361, 540, 1000]) + [("points", {}), ("opacity", {}), ("ladder", {}), ("depths", dict(views=views))]
            + split("settings", 2) + split("sizes", 2) + split("traces", 2, strikes=strikes, views=views) + split("lines", k // 2, strikes=strikes, dips=dips, views=views if t else views[::2] + [30])
            + split("bands", k, strikes=strikes, dips=dips, pitches=(0, 25, 120) if t else (25, 120), views=views) + split("redraw", 4, depth=4 if t else 3))
