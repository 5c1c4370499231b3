"""Area extraction returns exactly the valid pixels inside the polygon."""
import contextlib
import io
import itertools
import json

import numpy as N
from shapely.geometry import MultiPolygon, Polygon
from shapely.ops import transform as stransform

from ..raster import TRANSFORMS, Raster, inside, values
from attitude.helpers import dem as D
from ..engine import part_of, split

BOUNDS = dict(
    quick="all non-empty masks of 2x3, 3x2, 1x6, 6x1, 3x4, 4x3, all sets of full rows or columns of masks of 255 to 65536 x 4, 5 polygons on a 270x300 raster; all triangles on a 5x5 lattice around a 4x5 raster under 9 affine transforms, rasters of up to 4100 rows or 5003 columns and of one row or column; all nested rectangle pairs (polygon with hole) with up to 20 holes or parts, and all disjoint "
          "rectangle pairs; all 512 patterns of missing pixels of a 3x3 raster x 4 encodings; 8 number types x bands; all sequences of up to 3 extractions from one raster; all NaN patterns of up to 3x3 coordinates",
    thorough="additionally all masks of 4x4, 3x5, 5x3; all simple quadrilaterals on the lattice under 9 transforms; all 4096 patterns of missing pixels of a 3x4 raster; all sequences of up to 4 extractions; NaN patterns of 4x3 coordinates")
ASSUMPTIONS = ["polygon edges keep 1e-6 pixel away from pixel centres (what happens to a centre exactly on an edge is rasterio's choice)",
               "the `subdivide` package cannot be installed next to shapely 2 and is replaced by a stand-in; area extraction does not use it"]

XS = (-.7, .8, 2.3, 3.6, 5.4)
YS = (-.6, .9, 2.2, 3.3, 4.7)
LATTICE = [(x, y) for y in YS for x in XS]


# -- masks --------------------------------------------------------------------
def masks(ctx, h, w, part, parts):
    for n in ctx.cases(part_of(range(1, 2 ** (h * w)), part, parts)):
        m = N.array([(n >> i) & 1 for i in range(h * w)], dtype=bool).reshape(h, w)
        with ctx.case(n):
            r, c = N.nonzero(m)
            lo, hi = (r.min(), c.min()), (r.max() + 1, c.max() + 1)
            for kind in ("bool", "uint8"):
                ctx.step()
                before = m.astype(kind)
                off, arr = D.offset_mask(before)
                ctx.require(tuple(int(o) for o in off) == tuple(lo), "offset {} instead of {} for mask {}", off, lo, m.astype(int).tolist())
                ctx.require(arr.shape == (hi[0] - lo[0], hi[1] - lo[1]) and (N.asarray(arr) == m[lo[0]:hi[0], lo[1]:hi[1]]).all(),
                            "window {} of mask {}", N.asarray(arr).astype(int).tolist(), m.astype(int).tolist())
                ctx.require((before == m).all(), "mask was modified")
            ctx.state((h, w, n), outcome=arr.shape)


def tall(ctx, n):
    """Masks with full columns and rows of many pixels"""
    for cols, flip in ctx.cases(itertools.product(itertools.product((0, 1), repeat=4), (False, True))):
        if not any(cols):
            continue
        with ctx.case((cols, flip)):
            m = N.zeros((n, 4), bool)
            m[:, N.array(cols, dtype=bool)] = True
            m = m.T if flip else m
            r, c = N.nonzero(m)
            ctx.step()
            off, arr = D.offset_mask(m)
            ctx.require(tuple(int(o) for o in off) == (r.min(), c.min()) and N.array_equal(arr, m[r.min():r.max() + 1, c.min():c.max() + 1]), "offset {}, shape {} of a {} mask", off, arr.shape, m.shape)
            ctx.state((n, cols, flip))


def long(ctx, h, w):
    """More rows or columns than any round number"""
    T = TRANSFORMS["metric"]
    a = N.arange(h * w * 1.).reshape(h, w) % 997 + .375
    v = N.ones((h, w), bool)
    v[h // 2, w // 3:w // 3 + 4] = False
    a[~v] = -1
    # a sloping strip from corner to corner
    ring_ = [(.2, 1.3), (2.1, .3), (w - .3, h - 2.2), (w - 2.2, h - .3)]
    with Raster([a], T, nodata=-1) as dem:
        for r in ctx.cases([ring_, ring((-3, -3, w + 3, h + 3)), ring((w - 3.2, h - 3.4, w - .3, h - .1))]):
            with ctx.case(r):
                check(ctx, dem, a, v, [[r]], T)


def large(ctx, part, parts):
    T = TRANSFORMS["far"]
    v = N.ones((270, 300), bool)
    a = N.arange(270 * 300.).reshape(270, 300) % 7919 + 1
    a[100:130, 90:200] = 0
    v[a == 0] = False
    with Raster([a.astype("int16")], T, nodata=0) as dem:
        for ring_ in ctx.cases(part_of([[(10.2, 5.3), (290.7, 8.9), (150.3, 262.8)], [(-5, -5), (305, -5), (305, 275), (-5, 275)], [(256.2, 3.1), (257.3, 3.1), (257.3, 259.4), (256.2, 259.4)],
                                       [(3.1, 255.2), (299, 255.2), (299, 256.3), (3.1, 256.3)], [(95.2, 95.3), (150.1, 101.2), (195.7, 170.2), (80.3, 140.9)]], part, parts)):
            with ctx.case(ring_):
                check(ctx, dem, a, v, [[ring_]], T)


# -- polygons -----------------------------------------------------------------
def expected(band, valid, rings, T):
    """rings: list of polygons, each a list of rings (outer, holes...) in pixel coordinates"""
    rows = []
    h, w = band.shape
    for r in range(h):
        for c in range(w):
            hit = False
            for p in rings:
                s = [inside(list(q), c + .5, r + .5) for q in p]
                if None in s:
                    return None
                if s[0] and not any(s[1:]):
                    hit = True
            if hit and valid[r, c]:
                rows.append(tuple(T * (c + .5, r + .5)) + (float(band[r, c]),))
    return rows


def geometry(rings, T):
    f = lambda x, y: T * (x, y)
    P = [Polygon([T * v for v in p[0]], [[T * v for v in q] for q in p[1:]]) for p in rings]
    return P[0] if len(P) == 1 else MultiPolygon(P)


def same_rows(ctx, got, exp, T, msg):
    got = N.asarray(got, dtype=float)
    if not ctx.require(got.shape == (len(exp), 3) or (len(exp) == 0 and got.size == 0), "{}: shape {} instead of {} rows", msg, got.shape, len(exp)):
        return False
    if not len(exp):
        return True
    exp = N.array(exp)
    # compare as sets of pixels: identify rows by pixel position
    inv = ~T
    gp = N.array([inv * (a, b) for a, b, _ in got]) - .5
    ep = N.array([inv * (a, b) for a, b, _ in exp]) - .5
    if not ctx.require(N.abs(gp - N.round(gp)).max() < 1e-6, "{}: not at pixel centres: {}", msg, got[:3].tolist()):
        return False
    go = N.lexsort(N.round(gp).T)
    eo = N.lexsort(N.round(ep).T)
    s = max(1, N.abs(exp[:, :2]).max())
    return ctx.require((N.abs(got[go][:, :2] - exp[eo][:, :2]) < 1e-9 * s).all() and (got[go][:, 2] == exp[eo][:, 2]).all(),
                       "{}: rows {} instead of {}", msg, got[go].tolist(), exp[eo].tolist())


def check(ctx, dem, data, valid, rings, T, **kw):
    exp = expected(data, valid, rings, T)
    if exp is None:
        ctx.notes["left out: centre on an edge"] += 1
        return
    geom = geometry(rings, T)
    if geom.area == 0 or not geom.is_valid:
        ctx.notes["left out: invalid polygon"] += 1
        return
    given = dict(kw)
    ctx.step(2)
    same_rows(ctx, D.extract_area(geom, dem, **kw), exp, T, "extract_area")
    same_rows(ctx, D.extract_shape(geom, dem, **kw), exp, T, "extract_shape")
    ctx.require(kw == given, "options were modified")
    ctx.state((rings, T, sorted(kw.items()), data.dtype.str, data.tolist()), outcome=len(exp))


def simple_quads():
    for q in itertools.combinations(LATTICE, 4):
        for o in ((0, 1, 2, 3), (0, 1, 3, 2), (0, 2, 1, 3)):
            yield tuple(q[i] for i in o)


def standard(T, **kw):
    """4 x 5 raster, two bands, three missing pixels each"""
    a = values(4, 5), values(4, 5, 3)
    valid = [N.ones((4, 5), bool), N.ones((4, 5), bool)]
    for r, c in ((0, 0), (1, 3), (3, 4)):
        valid[0][r, c] = False
    for r, c in ((2, 2), (0, 4), (3, 0)):
        valid[1][r, c] = False
    for b, v in zip(a, valid):
        b[~v] = -9999
    return Raster(a, T, nodata=-9999), a, valid


def polygons(ctx, corners, tname, part, parts):
    T = TRANSFORMS[tname]
    R, a, valid = standard(T)
    it = itertools.combinations(LATTICE, 3) if corners == 3 else simple_quads()
    with R as dem:
        for ring in ctx.cases(part_of(it, part, parts)):
            with ctx.case(ring):
                if corners == 4 and not Polygon(ring).is_valid:
                    ctx.notes["left out: crossing quadrilateral"] += 1
                    continue
                check(ctx, dem, a[0], valid[0], [[list(ring)]], T)


def rects():
    for (i, j), (k, l) in itertools.product(itertools.combinations(range(5), 2), repeat=2):
        yield (XS[i], YS[k], XS[j], YS[l])


def ring(r, rev=False):
    x0, y0, x1, y1 = r
    o = [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
    return o[::-1] if rev else o


def composite(ctx, tname, part, parts):
    """Polygons with a hole and multi-polygons; band 2"""
    T = TRANSFORMS[tname]
    R, a, valid = standard(T)
    R4 = list(rects())
    with R as dem:
        for p, q in ctx.cases(part_of(itertools.product(R4, repeat=2), part, parts)):
            nested = p[0] < q[0] and p[1] < q[1] and q[2] < p[2] and q[3] < p[3]
            apart = p < q and (p[2] < q[0] or q[2] < p[0] or p[3] < q[1] or q[3] < p[1])
            if not (nested or apart):
                continue
            with ctx.case((p, q)):
                rings = [[ring(p), ring(q, True)]] if nested else [[ring(p)], [ring(q)]]
                check(ctx, dem, a[1], valid[1], rings, T, band=2)
                check(ctx, dem, a[0], valid[0], rings, T)


def several(ctx, tname):
    """Polygons with several holes, many parts (with holes of their own), rasters of one row or column"""
    T = TRANSFORMS[tname]
    R, a, valid = standard(T)
    q = [ring((x, y, x + .6, y + .7), True) for y in (.2, 1.15, 2.1, 3.2) for x in (.3, 1.2, 2.1, 3.25, 4.1)]
    out = ring((-.4, -.3, 5.2, 4.3))
    with R as dem:
        for k, step, start in ctx.cases(itertools.product((2, 3, 5, 9, 20), (1, 2, 3), (0, 1, 4))):
            with ctx.case((k, step, start)):
                sel = [q[(start + i * step) % 20] for i in range(k) if len({(start + j * step) % 20 for j in range(i + 1)}) == i + 1]
                check(ctx, dem, a[0], valid[0], [[out] + sel], T)
                check(ctx, dem, a[1], valid[1], [[r[::-1]] for r in sel], T, band=2)
                # parts with holes, next to plain ones
                check(ctx, dem, a[0], valid[0], [[ring((-.4, -.3, 2.05, 4.3)), q[0], q[6], q[15]], [ring((2.07, -.3, 3.15, 2.05)), q[7]], [ring((4.05, 2.06, 5.3, 3.05))], [ring((2.2, 2.9, 3.9, 3.9))]][:k], T)
    for h, w in ctx.cases([(1, 1), (1, 2), (2, 1), (1, 7), (7, 1), (1, 40), (40, 1)]):
        b = values(h, w)
        v = N.ones((h, w), bool)
        v[h // 2, w // 2] = h * w < 3
        b[~v] = -9999
        with Raster([b], T, nodata=-9999) as dem:
            for r in ((-1., -1., w + 1., h + 1.), (.1, .2, w - .1, h - .2), (-3., -3., w - .7, h - .6), (w - .9, h - .8, w + 2., h + 3.), (w * .3 + .05, h * .3 + .06, w * .8 + .07, h * .8 + .08)):
                with ctx.case((h, w, r)):
                    check(ctx, dem, b, v, [[ring(r)]], T)


# -- missing data ---------------------------------------------------------------
def missing(ctx, h, w, how, part, parts):
    T = TRANSFORMS["northup"]
    for n in ctx.cases(part_of(range(2 ** (h * w)), part, parts)):
        with ctx.case(n):
            a = values(h, w)
            v = ~N.array([(n >> i) & 1 for i in range(h * w)], dtype=bool).reshape(h, w)
            kw = {}
            if how == "value":
                a[~v] = -9999
                kw["nodata"] = -9999
            elif how == "zero":
                a[~v] = 0
                kw["nodata"] = 0
                a = a.astype("uint8")
            elif how == "nan":
                a[~v] = N.nan
                kw["nodata"] = N.nan
            elif how == "mask":
                kw["valid"] = v
            with Raster([a], T, **kw) as dem:
                check(ctx, dem, a, v, [[[(-1, -1), (w + 1, -1), (w + 1, h + 1), (-1, h + 1)]]], T)
                check(ctx, dem, a, v, [[[(.2, .3), (w - .8, .3), (w - .8, h + .3), (.2, h + .3)]]], T)


def bare_nan(ctx, h, w, part, parts):
    """NaN without any declaration: never leaves extract_shape"""
    T = TRANSFORMS["oblong"]
    for n in ctx.cases(part_of(range(2 ** (h * w)), part, parts)):
        with ctx.case(n):
            a = values(h, w).astype("float32")
            v = ~N.array([(n >> i) & 1 for i in range(h * w)], dtype=bool).reshape(h, w)
            a[~v] = N.nan
            rings = [[[(-1, -1), (w + 1, -1), (w + 1, h + 1), (-1, h + 1)]]]
            with Raster([a], T) as dem:
                ctx.step()
                same_rows(ctx, D.extract_shape(geometry(rings, T), dem), expected(a, v, rings, T), T, "extract_shape")
            ctx.state(("bare", n), outcome=int(v.sum()))


def kinds(ctx, dtype):
    for tname, nb in ctx.cases(itertools.product(sorted(TRANSFORMS), (1, 2, 3))):
        with ctx.case((tname, nb)):
            T = TRANSFORMS[tname]
            bands = []
            for k in range(nb):
                b = values(5, 7, k).astype(dtype)
                if dtype == "int16":
                    b = (b * 100 - 12000).astype(dtype)
                elif dtype == "uint16":
                    b = (b * 200 + 3).astype(dtype)
                elif dtype == "int32":
                    b = (b * 8000000 - 10 ** 9).astype(dtype)
                elif dtype == "float32":
                    b = (b - N.float32(100.1)).astype(dtype)
                elif dtype == "float64":
                    b = b * 1.1 - 1e3
                bands.append(b)
            v = N.ones((5, 7), bool)
            with Raster(bands, T) as dem:
                for k in range(nb):
                    for rings in ([[[(.7, .7), (6.2, 1.1), (3.1, 4.9)]]], [[ring((-2, -2, 9, 9))]], [[ring((3.1, 2.2, 3.9, 2.9))]], [[ring((0.6, 0.6, 6.4, 4.4)), ring((2.1, 1.9, 4.2, 3.3), True)]],
                                  [[ring((3.6, 2.6, 4.3, 3.4))]], [[ring((20.3, 20.3, 22, 22))]], [[ring((-5, 1.2, -1.2, 4))]]):
                        check(ctx, dem, bands[k], v, rings, T, band=k + 1)
                        if k == 0:
                            check(ctx, dem, bands[0], v, rings, T)


# -- histories ------------------------------------------------------------------
OPS = dict(
    left=([[ring((-.3, -.3, 2.3, 3.3))]], {}), right=([[ring((1.7, .7, 5.4, 4.4))]], {}),
    right2=([[ring((1.7, .7, 5.4, 4.4))]], dict(band=2)), hole=([[ring((-.3, -.3, 4.3, 4.3)), ring((.8, .8, 2.7, 2.7), True)]], {}),
    none=([[ring((.6, .6, .9, .9))]], {}))


def histories(ctx, depth, part, parts):
    T = TRANSFORMS["northup"]
    R, a, valid = standard(T)
    with R as dem:
        for seq in ctx.cases(part_of(itertools.chain(*[itertools.product(sorted(OPS), repeat=d) for d in range(1, depth + 1)]), part, parts)):
            with ctx.case(seq):
                ctx.depth(len(seq))
                for o in seq:
                    rings, kw = OPS[o]
                    k = kw.get("band", 1) - 1
                    exp = expected(a[k], valid[k], rings, T)
                    ctx.step()
                    got = D.extract_area(geometry(rings, T), dem, **kw)
                    same_rows(ctx, got, exp, T, "extract_area after {}".format(seq))
                    got[...] = -1   # the caller owns its result
                ctx.state(("history", seq))


# -- cleaning -------------------------------------------------------------------
def cleaning(ctx, rows, cols, part, parts):
    for b in ctx.cases(part_of(range(2 ** (rows * cols)), part, parts)):
        m = N.array([(b >> i) & 1 for i in range(rows * cols)], dtype=bool).reshape(rows, cols)
        with ctx.case(b):
            for order in "CF":
                c = N.array(N.arange(rows * cols).reshape(rows, cols) * 1.5 - 2, order=order)
                c[m] = N.nan
                before = c.copy()
                exp = [list(r) for r in c.tolist() if not any(x != x for x in r)]
                for silent in (True, False):
                    ctx.step()
                    out = io.StringIO()
                    with contextlib.redirect_stdout(out):
                        got = D.clean_coordinates(c, silent=silent)
                    ctx.require(N.asarray(got).tolist() == exp, "kept {} instead of {}", N.asarray(got).tolist(), exp)
                    ctx.require(not silent or out.getvalue() == "", "printed {!r}", out.getvalue())
                    ctx.require(N.array_equal(c, before, equal_nan=True), "input modified")
            ctx.state((rows, cols, b), outcome=len(exp))


TASKS = dict(several=several, long=long, tall=tall, large=large, masks=masks, polygons=polygons, composite=composite, missing=missing, bare_nan=bare_nan, kinds=kinds, histories=histories, cleaning=cleaning)


def shards(tier):
    t = tier == "thorough"
    out = []
    for h, w in ((2, 3), (3, 2), (1, 6), (6, 1)):
        out += split("masks", 1, h=h, w=w)
    for h, w in ((3, 4), (4, 3)):
        out += split("masks", 2, h=h, w=w)
    out += [("tall", dict(n=n)) for n in (255, 256, 257, 512, 65536)]
    out += split("large", 5)
    out += [("long", dict(h=h, w=w)) for h, w in ((1101, 13), (12, 1203), (4100, 3), (2, 5003))]
    if t:
        for h, w in ((4, 4), (3, 5), (5, 3)):
            out += split("masks", 8, h=h, w=w)
    for T in sorted(TRANSFORMS):
        out += split("polygons", 4, corners=3, tname=T)
        out += split("composite", 4, tname=T) if t or T in ("northup", "rotated", "sheared") else []
        out += [("several", dict(tname=T))]
        if t:
            out += split("polygons", 16, corners=4, tname=T)
    for how in ("value", "zero", "nan", "mask"):
        out += split("missing", 4, h=3, w=3, how=how)
        if t:
            out += split("missing", 8, h=3, w=4, how=how)
    out += split("bare_nan", 2, h=3, w=3)
    out += [("kinds", dict(dtype=d)) for d in ("uint8", "int16", "uint16", "int32", "float32", "float64")]
    out += split("histories", 4, depth=4 if t else 3)
    for n in (0, 1, 2, 3):
        out += split("cleaning", 1, rows=n, cols=3)
    out += split("cleaning", 1, rows=3, cols=2) + split("cleaning", 1, rows=5, cols=2) + split("cleaning", 1, rows=9, cols=1)
    if t:
        out += split("cleaning", 4, rows=4, cols=3)
    return out
