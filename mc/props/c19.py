"""Line extraction interpolates the raster at every vertex."""
import itertools

import numpy as N
from shapely.geometry import LineString, MultiLineString, Point

from ..raster import TRANSFORMS, Raster, bilinear_at, densify, values
from attitude.helpers import dem as D
from attitude.helpers import interpolation as I
from ..engine import part_of, split

BOUNDS = dict(
    quick="points at every quarter pixel of 4x5, 1x1, 1x4 and 3x1 rasters (every half pixel of a 12x14 raster) under 9 affine transforms; lines between all ordered pairs of a 6x5 lattice of positions (edges, centres, between) under 3 transforms, with and without "
          "subdivision; all 3-vertex lines on a 3x3 lattice; two-part lines of all pairs of 18 segments; lines of 2 to 400 vertices on rasters up to 300x20, 1103x6 and 5x2101; all 512 patterns of missing pixels of a 3x3 raster x 4 encodings x 16 positions; 8 number types and ranges x bands; all sequences of up to 3 extractions",
    thorough="points at every eighth of a pixel, lines under 9 transforms, 3-vertex lines on a 4x3 lattice, all 4096 patterns of missing pixels of a 3x4 raster, all sequences of up to 4 extractions")
ASSUMPTIONS = ["vertices lie within the raster (beyond it the code documents that it does not deal with the case)", "a missing pixel that touches a vertex with zero weight may or may not make it undefined",
               "two-dimensional geometries", "the `subdivide` package cannot be installed next to shapely 2; a stand-in with its interface inserts the additional vertices"]


def to_map(T, pts):
    return [T * (x, y) for x, y in pts]


def geom_of(kind, parts, T):
    if kind == "Point":
        return Point(T * parts[0][0])
    if kind == "LineString":
        return LineString(to_map(T, parts[0]))
    return MultiLineString([to_map(T, p) for p in parts])


def vertices(parts, interval):
    out = []
    for p in parts:
        out += densify(p, interval) if interval is not None and len(p) > 1 else list(p)
    return out


def oracle(a, valid, px):
    """(value, definitely defined, definitely undefined)"""
    v, used = bilinear_at(a, *px)
    bad = any(not valid[r, c] for r, c in used)
    near = False
    h, w = a.shape
    for dx in (-1e-6, 1e-6):
        for dy in (-1e-6, 1e-6):
            x = min(max(px[0] - .5, 0), w - 1) + dx
            y = min(max(px[1] - .5, 0), h - 1) + dy
            for r in (int(N.floor(y)), int(N.floor(y)) + 1):
                for c in (int(N.floor(x)), int(N.floor(x)) + 1):
                    # outside neighbours repeat the edge
                    r_, c_ = min(max(r, 0), h - 1), min(max(c, 0), w - 1)
                    if not valid[r_, c_]:
                        near = True
    return v, not near, bad


def check(ctx, dem, data, valid, kind, parts, T, interval="default", **kw):
    data = N.asarray(data, dtype=float)
    iv = 1 if interval == "default" else interval
    px = vertices(parts, iv if kind != "Point" else None)
    exy = N.array(to_map(T, px))
    orc = [oracle(data, valid, p) for p in px]
    opts = dict(kw)
    if interval != "default":
        opts["subdivide"] = interval
    given = dict(opts)
    geom = geom_of(kind, parts, T)
    wkt = geom.wkt
    ctx.step(2)
    got = N.asarray(D.extract_line(geom, dem, **opts), dtype=float)
    ctx.require(opts == given and geom.wkt == wkt, "arguments were modified")
    if not ctx.require(got.shape == (len(px), 3), "{} rows of {} for {} vertices", len(got), got.shape[1:], len(px)):
        return
    s = max(1., N.abs(exy).max())
    ctx.close(got[:, :2], exy, "position", 1e-9, s)
    vs = max(1., N.abs(data[valid]).max() if valid.any() else 1.)
    ok = True
    for g, (v, sure, bad) in zip(got, orc):
        if bad:
            ok &= ctx.require(N.isnan(g[2]), "elevation {} next to missing data at {}", g[2], g[:2])
        elif sure:
            # the inverse transformation loses digits when far from the origin
            ok &= ctx.require(abs(g[2] - v) <= 1e-6 * vs, "elevation {} instead of {} at {}", g[2], v, g[:2])
        else:
            ok &= ctx.require(N.isnan(g[2]) or abs(g[2] - v) <= 1e-6 * vs, "elevation {} instead of {} or undefined at {}", g[2], v, g[:2])
    sh = N.asarray(D.extract_shape(geom, dem, **given), dtype=float)
    keep = got[~N.isnan(got).any(axis=1)]
    ctx.require(sh.shape == keep.shape and (N.abs(sh - keep) <= 1e-9 * N.maximum(1, N.abs(keep))).all(), "extract_shape returns {} instead of the defined rows {}", sh.tolist(), keep.tolist())
    ctx.state((kind, parts, list(T), interval, sorted(kw.items()), data.tolist(), valid.tolist()), outcome=len(keep))


def points(ctx, h, w, step, tname, part, parts):
    T = TRANSFORMS[tname]
    a = values(h, w)
    v = N.ones((h, w), bool)
    nx, ny = int(w / step), int(h / step)
    with Raster([a], T) as dem:
        for i, j in ctx.cases(part_of(itertools.product(range(nx + 1), range(ny + 1)), part, parts)):
            p = (i * step, j * step)
            # a position on the outer edge must not fall off it by rounding
            if tname in ("rotated", "sheared"):
                p = (min(max(p[0], 1e-7), w - 1e-7), min(max(p[1], 1e-7), h - 1e-7))
            with ctx.case((h, w, p)):
                check(ctx, dem, a, v, "Point", [[p]], T)
    with Raster([3.25 + 2 * N.add.outer(1.5 * (N.arange(h) + .5), N.arange(w) + .5)], T) as dem:
        # a planar raster is reproduced between the outermost centres
        for i, j in ctx.cases(part_of(itertools.product(range(nx + 1), range(ny + 1)), part, parts)):
            p = (i * step, j * step)
            if not (.5 <= p[0] <= w - .5 and .5 <= p[1] <= h - .5):
                continue
            with ctx.case((h, w, p, "planar")):
                ctx.step()
                g = D.extract_line(Point(T * p), dem)
                ctx.require(abs(g[0, 2] - (3.25 + 2 * (1.5 * p[1] + p[0]))) < 1e-6, "planar raster gives {} at {}", g[0, 2], p)
                ctx.state((h, w, p, "planar", tname))


LX = (0., .5, 1.25, 2.5, 3.9, 5.)
LY = (0., .75, 1.5, 2.6, 4.)
LAT = [(x, y) for y in LY for x in LX]


def inset(tname, p, w=5, h=4):
    if tname in ("rotated", "sheared"):
        return (min(max(p[0], 1e-7), w - 1e-7), min(max(p[1], 1e-7), h - 1e-7))
    return p


def standard(T):
    a = values(4, 5), values(4, 5, 3)
    v = N.ones((4, 5), bool), N.ones((4, 5), bool)
    v[0][1, 3] = False
    v[1][2, 0] = False
    for b, m in zip(a, v):
        b[~m] = -9999
    return Raster(a, T, nodata=-9999), a, v


def lines(ctx, tname, part, parts):
    T = TRANSFORMS[tname]
    R, a, v = standard(T)
    with R as dem:
        for p, q in ctx.cases(part_of(itertools.product(LAT, repeat=2), part, parts)):
            if p == q:
                continue
            with ctx.case((p, q)):
                seg = [inset(tname, p), inset(tname, q)]
                check(ctx, dem, a[0], v[0], "LineString", [seg], T)
                check(ctx, dem, a[0], v[0], "LineString", [seg], T, interval=None)
                check(ctx, dem, a[1], v[1], "LineString", [seg], T, interval=.5, band=2)


def bends(ctx, nx, ny, part, parts):
    T = TRANSFORMS["northup"]
    R, a, v = standard(T)
    lat = [(x, y) for y in (.3, 1.9, 3.7, 2.5)[:ny] for x in (.2, 1.6, 4.5, 2.75)[:nx]]
    with R as dem:
        for seq in ctx.cases(part_of(itertools.product(lat, repeat=3), part, parts)):
            if seq[0] == seq[1] or seq[1] == seq[2]:
                continue
            with ctx.case(seq):
                check(ctx, dem, a[0], v[0], "LineString", [list(seq)], T)
                check(ctx, dem, a[0], v[0], "LineString", [list(seq)], T, interval=None)


def multi(ctx, part, parts):
    T = TRANSFORMS["oblong"]
    R, a, v = standard(T)
    lat = [(.4, .6), (2.2, 3.3), (4.6, 1.1), (3.5, 2.5)]
    segs = [list(s) for s in itertools.permutations(lat, 2)] + [list(s) for s in itertools.permutations(lat[:3], 3)]
    with R as dem:
        for p, q in ctx.cases(part_of(itertools.product(segs, repeat=2), part, parts)):
            with ctx.case((p, q)):
                check(ctx, dem, a[0], v[0], "MultiLineString", [p, q], T)
                check(ctx, dem, a[1], v[1], "MultiLineString", [p, q], T, interval=None, band=2)


def missing(ctx, h, w, how, part, parts):
    T = TRANSFORMS["northup"]
    pos = [(x, y) for y in (.2, .9, 1.5, h - .75) for x in (.3, 1.1, 1.5, w - .6)]
    for n in ctx.cases(part_of(range(2 ** (h * w)), part, parts)):
        with ctx.case(n):
            a = values(h, w)
            v = ~N.array([(n >> i) & 1 for i in range(h * w)], dtype=bool).reshape(h, w)
            kw = {}
            if how == "value":
                a[~v] = -9999
                kw["nodata"] = -9999
            elif how == "zero":
                a[~v] = 0
                a = a.astype("uint8")
                kw["nodata"] = 0
            elif how == "nan":
                a[~v] = N.nan
                kw["nodata"] = N.nan
            elif how == "mask":
                kw["valid"] = v
            with Raster([a], T, **kw) as dem:
                check(ctx, dem, a, v, "LineString", [pos], T, interval=None)
                for p in pos[(n % 4)::4]:
                    check(ctx, dem, a, v, "Point", [[p]], T)


def kinds(ctx, dtype):
    v = N.ones((4, 5), bool)
    for tname, nb in ctx.cases(itertools.product(sorted(TRANSFORMS), (1, 2, 3))):
        T = TRANSFORMS[tname]
        with ctx.case((tname, nb)):
            bands = []
            for k in range(nb):
                b = values(4, 5, k)
                if dtype == "int16":
                    b = b * 100 - 12000
                elif dtype == "uint16":
                    b = b * 200 + 3
                elif dtype == "int32":
                    b = b * 8000000 - 10 ** 9
                elif dtype in ("float32", "float64"):
                    b = b - 100.25
                bands.append(b.astype(dtype.split("-")[0]))
            with Raster(bands, T) as dem:
                for k in range(nb):
                    for line in ([(.3, .4), (4.6, 3.3)], [(2.2, 1.4), (2.8, 1.9)], [(.1, 3.9), (4.9, 3.9)], [(4.95, .05), (4.95, 3.7), (.9, .1)]):
                        check(ctx, dem, bands[k], v, "LineString", [line], T, band=k + 1)
                        if k == 0:
                            check(ctx, dem, bands[k], v, "LineString", [line], T, interval=None)
                    check(ctx, dem, bands[k], v, "Point", [[(3.3, 1.2)]], T, band=k + 1)


OPS = dict(
    a=("LineString", [[(.4, .6), (2.2, 3.3)]], {}), b=("LineString", [[(2.6, 1.6), (4.8, .2)]], {}), p=("Point", [[(3.1, 2.9)]], {}),
    p2=("Point", [[(3.1, 2.9)]], dict(band=2)), raw=("LineString", [[(.4, .6), (2.2, 3.3)]], dict(interval=None)))


def histories(ctx, depth, part, parts):
    T = TRANSFORMS["northup"]
    R, a, v = standard(T)
    with R as dem:
        for seq in ctx.cases(part_of(itertools.chain(*[itertools.product(sorted(OPS), repeat=d) for d in range(1, depth + 1)]), part, parts)):
            with ctx.case(seq):
                ctx.depth(len(seq))
                for o in seq:
                    kind, ps, kw = OPS[o]
                    k = kw.get("band", 1) - 1
                    check(ctx, dem, a[k], v[k], kind, ps, T, **kw)
                ctx.state(("history", seq))


def arrays(ctx, dtype, masked):
    """The interpolation itself, on plain and masked arrays in pixel coordinates"""
    a = values(3, 4).astype(dtype)
    for miss in ctx.cases([None] + list(range(12))):
        if miss is not None and not masked:
            continue
        with ctx.case(miss):
            v = N.ones((3, 4), bool)
            if miss is not None:
                v[miss // 4, miss % 4] = False
            arr = N.ma.array(a.copy(), mask=~v) if masked else a.copy()
            before = N.ma.getdata(arr).copy()
            pts = [(x, y) for y in N.arange(.1, 3, .23) for x in N.arange(.15, 4, .31)]
            for g in (LineString(pts), MultiLineString([pts[:40], pts[40:]]), Point(pts[17])):
                ctx.step()
                for name, f in (("bilinear", I.bilinear), ("nearest", I.nearest)):
                    o = f(arr, g)
                    ctx.require(o.geom_type == g.geom_type, "{} became {}", g.geom_type, o.geom_type)
                    src = pts if g.geom_type != "Point" else [pts[17]]
                    if g.geom_type == "MultiLineString":
                        ctx.require([len(q.coords) for q in o.geoms] == [40, len(pts) - 40], "parts changed")
                    got = D.coords_array(o)
                    for q, p in zip(got, src):
                        ctx.require(tuple(q[:2]) == tuple(p), "vertex moved from {} to {}", p, q)
                        if name == "bilinear":
                            e, sure, bad = oracle(a.astype(float), v, p)
                        else:
                            r, c = min(int(p[1]), 2), min(int(p[0]), 3)
                            e, sure, bad = float(a[r, c]), v[r, c], not v[r, c]
                        if bad:
                            ctx.require(N.isnan(q[2]), "{}: {} next to missing data", name, q)
                        elif sure:
                            ctx.require(abs(q[2] - e) < 1e-7 * 256, "{}: {} instead of {} at {}", name, q[2], e, p)
            ctx.require(N.array_equal(N.ma.getdata(arr), before), "raster modified")
            ctx.state((dtype, masked, miss))


def long(ctx, counts, part, parts):
    """Lines of many vertices, with repeated positions, on larger rasters"""
    for tname, n, (h, w) in part_of(itertools.product(("northup", "metric"), counts, ((4, 5), (40, 60), (300, 20), (1103, 6), (5, 2101))), part, parts):
        T = TRANSFORMS[tname]
        a = values(h, w) + N.add.outer(N.arange(h), N.arange(w) % 7) + .4375
        v = N.ones((h, w), bool)
        for k in range(0, h * w, 37):
            v[k // w, k % w] = k % 2 == 0
        a[~v] = -9999
        i = N.arange(n)
        # a closed figure that visits positions more than once
        px = [(float(x), float(y)) for x, y in zip(w / 2 + (w / 2 - .3) * N.cos(i * 2 * N.pi / max(1, (n - 1) // 2)), h / 2 + (h / 2 - .3) * N.sin(i * 4 * N.pi / max(1, n - 1)))]
        with Raster([a], T, nodata=-9999) as dem:
            for interval in (None, "default", 3.):
                with ctx.case((tname, n, h, w, interval)):
                    check(ctx, dem, a, v, "LineString", [px], T, interval=interval)
            with ctx.case((tname, n, h, w, "parts")):
                check(ctx, dem, a, v, "MultiLineString", [px[:n // 3 + 2], px[n // 4:], px[:2]], T, interval=None)


TASKS = dict(long=long, points=points, lines=lines, bends=bends, multi=multi, missing=missing, kinds=kinds, histories=histories, arrays=arrays)


def shards(tier):
    t = tier == "thorough"
    out = []
    for T in sorted(TRANSFORMS):
        out += split("points", 4 if t else 2, h=4, w=5, step=.125 if t else .25, tname=T)
        for h, w in ((1, 1), (1, 4), (3, 1)):
            out += split("points", 1, h=h, w=w, step=.125 if t else .25, tname=T)
        if t or T in ("northup", "rotated", "sheared"):
            out += split("lines", 4, tname=T)
    out += split("points", 4, h=12, w=14, step=.25 if t else .5, tname="far")
    out += split("long", 12 if t else 6, counts=[2, 17, 64, 65, 130, 400, 1500] if t else [2, 65, 130, 400])
    out += split("bends", 8, nx=4 if t else 3, ny=3)
    out += split("multi", 4)
    for how in ("value", "zero", "nan", "mask"):
        out += split("missing", 3, h=3, w=3, how=how)
        if t:
            out += split("missing", 8, h=3, w=4, how=how)
    out += [("kinds", dict(dtype=d)) for d in ("uint8", "int16", "uint16", "int32", "int32-small", "uint32-small", "float32", "float64")]
    out += split("histories", 4, depth=4 if t else 3)
    out += [("arrays", dict(dtype=d, masked=m)) for d in ("uint8", "int16", "float32", "float64") for m in (False, True)]
    return out
