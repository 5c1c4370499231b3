"""Small in-memory rasters and the stand-in for the `subdivide` package."""
import math
import sys
import types

import numpy as N
from affine import Affine
from rasterio.io import MemoryFile
from shapely.geometry import LineString, MultiLineString


def densify(pts, interval):
    """Vertices plus points every `interval` along each segment"""
    out = [tuple(pts[0])]
    for a, b in zip(pts[:-1], pts[1:]):
        d = math.hypot(b[0] - a[0], b[1] - a[1])
        n = max(1, int(math.ceil(d / interval - 1e-9)))
        for i in range(1, n):
            out.append((a[0] + (b[0] - a[0]) * i / n, a[1] + (b[1] - a[1]) * i / n))
        out.append(tuple(b))
    return out


def _subdivide(geom, interval=None, **kw):
    if interval is None:
        return geom
    if geom.geom_type == "Point":
        return geom
    if geom.geom_type == "MultiLineString":
        return MultiLineString([densify(list(g.coords), interval) for g in geom.geoms])
    return LineString(densify(list(geom.coords), interval))


def install():
    # the `subdivide` package is not installable next to shapely 2
    m = types.ModuleType("subdivide")
    m.subdivide = _subdivide
    sys.modules["subdivide"] = m


install()

TRANSFORMS = dict(
    pixels=Affine(1, 0, 0, 0, 1, 0),
    northup=Affine(2.5, 0, 1000, 0, -2.5, 5000),
    oblong=Affine(.5, 0, -3, 0, -4, 17),
    rotated=Affine(3 * .8, -3 * .6, 250, 3 * .6, 3 * .8, -40),
    sheared=Affine(1.5, .75, 10, -.25, -2, 90),
    far=Affine(30, 0, 4194304, 0, -30, 2097152),
    mirrored=Affine(-2, 0, 64, 0, 2, 32),
    degrees=Affine(1 / 3600., 0, -112.5, 0, -1 / 3600., 36.25),
    metric=Affine(.3, 0, 500123.45, 0, -.3, 4100678.9))


class Raster(object):
    """bands: list of 2-d arrays of one type"""

    def __init__(self, bands, transform, nodata=None, valid=None):
        bands = [N.asarray(b) for b in bands]
        self.mem = MemoryFile()
        h, w = bands[0].shape
        kw = dict(driver="GTiff", height=h, width=w, count=len(bands), dtype=bands[0].dtype, transform=transform)
        if nodata is not None:
            kw["nodata"] = nodata
        with self.mem.open(**kw) as d:
            for i, b in enumerate(bands):
                d.write(b, i + 1)
            if valid is not None:
                d.write_mask(valid)
        self.dem = self.mem.open()

    def __enter__(self):
        return self.dem

    def __exit__(self, *a):
        self.dem.close()
        self.mem.close()


def values(h, w, k=0):
    """Distinct, irregular, exactly representable elevations (1..250)"""
    i = N.arange(h * w)
    return ((i * 37 + 11 * k) % 251 + (i >= 251) * 0 + 1).reshape(h, w).astype(float)


def inside(poly, x, y):
    """Even-odd rule for a ring given as a vertex list; None within 1e-6 of its boundary"""
    odd = False
    for (x0, y0), (x1, y1) in zip(poly, poly[1:] + poly[:1]):
        dx, dy = x1 - x0, y1 - y0
        l2 = dx * dx + dy * dy
        t = 0 if l2 == 0 else min(1, max(0, ((x - x0) * dx + (y - y0) * dy) / l2))
        if math.hypot(x0 + t * dx - x, y0 + t * dy - y) < 1e-6:
            return None
        if (y0 > y) != (y1 > y) and x < x0 + (y - y0) * dx / dy:
            odd = not odd
    return odd


def bilinear_at(a, px, py):
    """
    Value between pixel centres, edges extended. Returns (value, values
    with non-zero weight, values that touch with zero weight)
    """
    h, w = a.shape
    x = min(max(px - .5, 0), w - 1)
    y = min(max(py - .5, 0), h - 1)
    x0, y0 = int(math.floor(x)), int(math.floor(y))
    fx, fy = x - x0, y - y0
    tot, used = 0., []
    for r, wy in ((y0, 1 - fy), (y0 + 1, fy)):
        for c, wx in ((x0, 1 - fx), (x0 + 1, fx)):
            if wx * wy > 1e-9:
                used.append((r, c))
                tot += wx * wy * a[r, c]
    return tot, used
